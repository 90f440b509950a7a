//! Scenario generation: one seed gives one scenario; fault scenarios are derived from the
//! operation log of a fault-free run of the same scenario.
use crate::image::*;
use crate::rcmd::children;
use crate::scn::*;
use crate::simfmt::*;
use crate::tree::*;
use crate::wcmd::*;

pub fn names(special: bool) -> NameOpts {
    NameOpts { latin: true, cp1252: true, special, long: true }
}
fn tree(r: &mut Rng, special: bool, small: bool) -> Tree {
    let shape = if small {
        *r.pick(&[Shape::Tiny, Shape::Tiny, Shape::Small, Shape::Small, Shape::Boundary, Shape::Deep])
    } else {
        pick_shape(r)
    };
    let max_len = if r.chance(1, 3) { 3000 } else { 200_000 };
    gen_tree(r, &GenOpts { names: names(special), shape, max_len })
}
fn wide_or(r: &mut Rng, special: bool) -> Tree {
    let shape = *r.pick(&[Shape::Wide, Shape::Boundary, Shape::Boundary, Shape::Small, Shape::Deep, Shape::Tiny]);
    gen_tree(r, &GenOpts { names: names(special), shape, max_len: 5000 })
}
/// Rarely, a directory whose table is larger than 64 KiB.
fn huge(r: &mut Rng, s: &mut Scn, one_in: u64) {
    if r.chance(1, one_in) {
        s.tree = gen_tree(r, &GenOpts { names: names(true), shape: Shape::Huge, max_len: 3 });
    }
}
/// Faults that the program has to absorb.
fn benign(r: &mut Rng, s: &mut Scn) {
    s.sync = r.chance(1, 4);
    s.shuffle = r.below(3) as u8;
    s.dt_unknown = r.chance(1, 4);
    s.pend = *r.pick(&[0u64, 60, 300, 800]);
    if r.chance(1, 6) {
        return;
    }
    for i in 0..NRATES {
        if r.chance(1, 2) {
            s.rates[i] = *r.pick(&[15u16, 60, 200, 500, 900]);
        }
    }
    if r.chance(1, 3) {
        s.rates[R_NOCOPY] = 1024;
    }
    // every second interrupted call would only slow the run down
    s.rates[R_EINTR] = s.rates[R_EINTR].min(500);
    s.rates[R_EINTR_OPEN] = s.rates[R_EINTR_OPEN].min(500);
}
pub fn pickv<'a>(r: &mut Rng, v: &[(&'a str, u64)]) -> &'a str {
    let t: u64 = v.iter().map(|x| x.1).sum();
    let mut k = r.below(t);
    for (n, w) in v {
        if k < *w {
            return n;
        }
        k -= w;
    }
    v[0].0
}
fn wopts(r: &mut Rng, s: &mut Scn) {
    let out = *r.pick(&[0u64, 0, 1, 2, 3]);
    s.set("out", out);
    if out != 2 && r.chance(1, 2) {
        let p = r.range(1, 2);
        s.set("pre", p);
    }
    let (a, b, c, d) = (r.below(2), r.below(2), r.below(2), r.below(2));
    s.set("rel", a);
    s.set("multicall", b);
    s.set("del", c);
    s.set("dir", d);
    if r.chance(1, 5) {
        let n = *r.pick(&["my.game", "Some Dir", "a.b.c", "x"]);
        s.sets("src", n);
    }
}
fn dirs(t: &Tree) -> Vec<String> {
    model(t).iter().filter(|(_, v)| v.is_none()).map(|(k, _)| k.clone()).collect()
}
fn files(t: &Tree) -> Vec<String> {
    model(t).iter().filter(|(_, v)| v.is_some()).map(|(k, _)| k.clone()).collect()
}
fn all_paths(t: &Tree) -> Vec<String> {
    model(t).keys().cloned().collect()
}
fn spell(r: &mut Rng) -> u64 {
    if r.chance(1, 3) {
        0
    } else {
        r.range(1, 1 << 30)
    }
}
fn absent(r: &mut Rng, t: &Tree) -> String {
    let m = model(t);
    let ks = all_paths(t);
    for _ in 0..20 {
        let mut p = match r.below(6) {
            5 => match r.below(4) {
                0 => ".".to_string(),
                1 => "..".to_string(),
                2 if !ks.is_empty() => format!("{}/..", r.pick(&ks)),
                _ if !ks.is_empty() => format!("./{}", r.pick(&ks)),
                _ => "./.".to_string(),
            },
            0 if !ks.is_empty() => format!("{}x", r.pick(&ks)),
            1 if !ks.is_empty() => format!("{}/zz", r.pick(&ks)),
            2 if !ks.is_empty() => {
                let mut k = r.pick(&ks).clone();
                k.pop();
                k
            }
            3 => gen_name(r, &names(false)),
            _ => format!("{}/{}", gen_name(r, &names(false)), gen_name(r, &names(false))),
        };
        while p.ends_with('/') {
            p.pop();
        }
        if p.is_empty() || p.starts_with('-') || p.contains("//") {
            continue;
        }
        if !m.keys().any(|k| fold(k) == fold(&p)) {
            return p;
        }
    }
    "nothing-like-this-name-exists".into()
}

fn wide_img(r: &mut Rng, s: &mut Scn) {
    let mut io = gen_img(r, true);
    if r.chance(1, 7) {
        io.far = r.range(1, 4) as u8;
    }
    s.img = Some(io);
}
/// Rarely, a file of more than 128 KiB (or 1 MiB).
fn large(r: &mut Rng, s: &mut Scn) {
    if r.chance(1, 12) && !s.tree.iter().any(|e| fold(&e.path) == "LARGE.BIN") {
        let mut e = gen_file(r, "large.bin".into(), 20000);
        e.len = match r.below(4) {
            0 => *r.pick(&[131071u64, 131072, 131073, 262144, 1 << 20, (1 << 20) + 1]),
            1 => r.range(1 << 20, 3 << 20),
            _ => r.range(120_000, 400_000),
        };
        s.tree.push(e);
    }
}
/// Rarely, a file of some gigabytes (mostly a hole).
fn giant(r: &mut Rng, s: &mut Scn, one_in: u64) {
    if !r.chance(1, one_in) || s.tree.iter().any(|e| fold(&e.path) == "GIANT.BIN") {
        return;
    }
    s.tree.truncate(6);
    s.tree.retain(|e| !e.path.contains('/'));
    let len = *r.pick(&[(1u64 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 31) + 70_000, 3 << 30, (1 << 32) - 1, (1 << 32) - 2048]);
    s.tree.push(big("giant.bin", len));
    // gigabytes in small steps would take too long
    s.rates = [0; NRATES];
    s.pend = s.pend.min(60);
    s.set("giant", 1);
}
fn queries(r: &mut Rng, t: &Tree, n: usize) -> Vec<String> {
    let (ds, fs) = (dirs(t), files(t));
    let mut v = vec![];
    for _ in 0..n {
        let d = if ds.is_empty() || r.chance(1, 3) { String::new() } else { r.pick(&ds).clone() };
        let f = if fs.is_empty() { d.clone() } else { r.pick(&fs).clone() };
        v.push(match r.below(16) {
            0 | 1 => format!("ls|{}|{}", d, spell(r)),
            2 | 3 => format!("scan|{}|{}", d, spell(r)),
            4 => "tree||0".to_string(),
            5 => "exl||0".to_string(),
            6 => "md5all||0".to_string(),
            7 | 8 => format!("md5|{}|{}", f, spell(r)),
            9 => format!("md5|{}|{}", d, spell(r)),
            10 => "info||0".to_string(),
            11 => format!("infop|{}|{}", f, spell(r)),
            12 => format!("infop|{}|{}", d, spell(r)),
            13 | 15 => format!("{}|{}|{}", r.pick(&["ls", "scan", "md5", "infop"]), absent(r, t), spell(r)),
            _ => format!("{}|{}|{}", r.pick(&["ls", "scan"]), f, spell(r)),
        });
    }
    v
}
fn calls(r: &mut Rng, t: &Tree, n: usize, sum: bool) -> Vec<String> {
    let (ds, fs) = (dirs(t), files(t));
    let mut v = vec![];
    for _ in 0..n {
        let d = if ds.is_empty() || r.chance(1, 3) { String::new() } else { r.pick(&ds).clone() };
        let f = if fs.is_empty() { absent(r, t) } else { r.pick(&fs).clone() };
        let len = t.iter().find(|e| e.path == f).map(|e| e.len).unwrap_or(10);
        let edge = [0, 1, 2047, 2048, 2049, len.saturating_sub(1), len, len + 1, len / 2, len + 5000, u64::MAX, u64::MAX - len, 1 << 40];
        let off = if r.chance(1, 2) { *r.pick(&edge) } else { r.below(len + 2) };
        let num = if r.chance(1, 2) { *r.pick(&edge) } else { r.below(len + 2) };
        if len >= 1 << 30 {
            // next to one of the marks in the hole, or at the end
            let off = if r.chance(1, 3) { len - r.below(9000) } else { (1u64 << r.range(20, 31)) - r.below(40) };
            v.push(if r.chance(1, 4) { format!("prefix|{}|{}|{}", f, spell(r), r.below(3 << 20)) } else { format!("range|{}|{}|{}|{}", f, spell(r), off, r.below(20000)) });
            continue;
        }
        v.push(match r.below(14) {
            0 | 1 => format!("walk|{}|{}", d, spell(r)),
            2 | 3 => format!("scan|{}|{}", d, spell(r)),
            4 => "tree".to_string(),
            5 => format!("look|{}|{}", f, spell(r)),
            6 => format!("look|{}|{}", if d.is_empty() { f } else { d }, spell(r)),
            7 => format!("{}|{}|{}", r.pick(&["look", "all", "walk", "scan"]), absent(r, t), spell(r)),
            8 | 9 => format!("all|{}|{}", f, spell(r)),
            10 => format!("prefix|{}|{}|{}", f, spell(r), num.min(1 << 30)),
            11 | 12 => format!("range|{}|{}|{}|{}", f, spell(r), off, num),
            _ if sum => "sum".to_string(),
            _ => "root".to_string(),
        });
    }
    v
}

fn edits(r: &mut Rng, t: &Tree) -> Vec<String> {
    let (ps, fs) = (all_paths(t), files(t));
    let mut v = vec![];
    let new = |r: &mut Rng| {
        let n = gen_name(r, &NameOpts { long: false, ..names(true) });
        match ps.iter().filter(|p| dirs(t).contains(p)).next() {
            Some(d) if r.chance(1, 2) => format!("{}/{}", d, n),
            _ => n,
        }
    };
    for _ in 0..r.range(1, 2) {
        v.push(match r.below(9) {
            8 if !ps.is_empty() => format!("case|{}", r.pick(&ps)),
            0 | 1 if !fs.is_empty() => format!("content|{}", r.pick(&fs)),
            2 if !fs.is_empty() => format!("len|{}", r.pick(&fs)),
            3 => format!("add|{}", new(r)),
            4 => format!("adddir|{}", new(r)),
            5 if !ps.is_empty() => format!("del|{}", r.pick(&ps)),
            6 if !ps.is_empty() => {
                let p = r.pick(&ps).clone();
                let par = p.rsplit_once('/').map(|x| format!("{}/", x.0)).unwrap_or_default();
                format!("ren|{}|{}{}", p, par, gen_name(r, &NameOpts { long: false, ..names(true) }))
            }
            7 if fs.len() > 1 => format!("swap|{}|{}", r.pick(&fs), r.pick(&fs)),
            _ => format!("add|{}", new(r)),
        });
    }
    v
}

fn damages(r: &mut Rng, t: &Tree, io: &ImgOpts) -> Vec<String> {
    let b = build_image(t, io);
    let mut v = vec![];
    let ents: Vec<(&String, u64)> = b.ent.iter().map(|(k, e)| (k, b.part + e.0)).collect();
    let secs: Vec<u32> = b.ext.values().map(|e| e.0).collect();
    let vd = b.part + 0x10000;
    let n = match r.below(4) {
        0 => r.range(3, 8),
        _ => r.range(1, 2),
    };
    for _ in 0..n {
        let k = r.below(16);
        if !ents.is_empty() && k < 11 {
            let e = ents[r.below(ents.len() as u64) as usize].1;
            let table = |r: &mut Rng| -> u64 {
                // an offset (in words) inside or near some table
                match r.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => 0xffff,
                    3 => r.below(0x10000),
                    4 => r.below(600),
                    _ => {
                        let x = ents[r.below(ents.len() as u64) as usize].1;
                        let base = b.ext.values().map(|q| b.part + q.0 as u64 * 2048).filter(|o| *o <= x).max().unwrap_or(x);
                        (x - base) / 4
                    }
                }
            };
            let sec = |r: &mut Rng| -> u64 {
                match r.below(5) {
                    0 => 0xffff_ffff,
                    1 => 0,
                    2 => r.next() & 0xffff_ffff,
                    3 => 0x20_0000,
                    _ => *r.pick(&secs) as u64,
                }
            };
            let size = |r: &mut Rng| -> u64 { *r.pick(&[0u64, 1, 13, 14, 15, 2047, 2048, 4096, 0xffff_ffff, 0xffff_f800, 0x8000_0000, 100_000, 262_140]) };
            v.push(match k {
                0 | 1 => format!("u16|{}|{}", e, table(r)),
                2 | 3 => format!("u16|{}|{}", e + 2, table(r)),
                4 | 5 => format!("u32|{}|{}", e + 4, sec(r)),
                6 => format!("u32|{}|{}", e + 8, size(r)),
                7 => format!("byte|{}|{}", e + 12, r.pick(&[0u64, 0x10, 0x20, 0xff, 0x90])),
                8 => format!("byte|{}|{}", e + 13, r.pick(&[0u64, 1, 255, 200, 12])),
                9 => format!("byte|{}|{}", e + 14, r.below(256)),
                _ => format!("rand|{}|{}", e, r.range(1, 40)),
            });
        } else {
            let size = *r.pick(&[0u64, 1, 13, 20, 2048, 0xffff_ffff, 0xffff_f801, 0x7fff_ffff]);
            v.push(match k {
                11 => format!("u32|{}|{}", vd + 20, *r.pick(&[0u64, 32, 33, 0xffff_ffff, 0x7fff_ffff, 1 << 21])),
                12 => format!("u32|{}|{}", vd + 24, size),
                13 => format!("trunc|{}", if r.chance(1, 2) { r.below(b.img.len + 1) } else { b.used_end.saturating_sub(r.below(5000)) }),
                14 => format!("{}|{}|{}", r.pick(&["zero", "ff", "rand"]), b.part + r.below(b.img.len - b.part + 1), r.range(1, 6000)),
                _ => format!("byte|{}|{}", r.below(b.img.len + 1), r.below(256)),
            });
        }
    }
    v
}

/// Directories that hold one directory each (and, at times, a file beside or at the end).
fn chain(r: &mut Rng) -> Tree {
    let mut t: Tree = vec![];
    let mut p = String::new();
    for i in 0..r.range(1, 4) {
        p = if i == 0 { "d0".into() } else { format!("{}/d{}", p, i) };
        t.push(dent(p.clone()));
        if r.chance(1, 6) {
            t.push(gen_file(r, format!("{}/f{}", p, i), 3000));
        }
    }
    if r.chance(1, 2) {
        t.push(gen_file(r, format!("{}/last", p), 3000));
    }
    t
}
/// Directory entries that point back at a table above them.
fn rings(r: &mut Rng, t: &Tree, io: &ImgOpts) -> Vec<String> {
    let b = build_image(t, io);
    let vd = b.part + 0x10000;
    let root = {
        let mut q = [0u8; 8];
        b.img.read_at(vd + 20, &mut q);
        (u32::from_le_bytes(q[..4].try_into().unwrap()), u32::from_le_bytes(q[4..].try_into().unwrap()))
    };
    let ps: Vec<&String> = b.ent.keys().collect();
    let mut v = vec![];
    for _ in 0..r.range(1, 2) {
        let p = (*r.pick(&ps)).clone();
        let e = b.part + b.ent[&p].0;
        let up: Vec<String> = crate::tree::parents(&format!("{}/", p));
        let k = r.below(up.len() as u64 + 1) as usize;
        let (sec, size) = if k == up.len() { root } else { b.ext.get(&up[k]).copied().unwrap_or(root) };
        v.push(format!("u32|{}|{}", e + 4, sec));
        v.push(format!("u32|{}|{}", e + 8, if size == 0 { 2048 } else { size }));
        v.push(format!("byte|{}|{}", e + 12, 0x10));
    }
    v
}

const HOSTILE: &[&str] = &[
    "..", "../victim", "../../victim", "../../../v/victim", "/v/victim", "/w/victim", "/", "//", ".", "./../victim", "x/../../victim", "../out2", "..\\victim",
    "../../../../v/new", "", "../", "/../victim", "./", "a/b", "../y2/z", "/w", "..//victim", "out/../../victim", "\u{f7}..",
];

pub fn rules(r: &mut Rng, t: &Tree) -> Vec<String> {
    // rules name only paths that are no patterns
    let plain = |v: Vec<String>| -> Vec<String> { v.into_iter().filter(|p| !p.contains(|c: char| "*?{}[]<>()!,\\$&'\"".contains(c))).collect() };
    let (ds, fs) = (plain(dirs(t)), plain(files(t)));
    let m = model(t);
    for _ in 0..40 {
        let mut v: Vec<String> = vec![];
        let mut hosts = std::collections::BTreeSet::new();
        for i in 0..r.range(1, 4) {
            let d = if ds.is_empty() { "nodir".to_string() } else { r.pick(&ds).clone() };
            let f = if fs.is_empty() { "nofile".to_string() } else { r.pick(&fs).clone() };
            let ext = f.rsplit_once('.').map(|x| x.1.to_string()).filter(|x| !x.contains('/')).unwrap_or("bin".into());
            let base = f.rsplit('/').next().unwrap().to_string();
            let rule = match r.below(25) {
                24 => format!("{}:/c:{}", f, i),
                20 => format!("{}:.dot{}", f, i),
                21 => "**:{0}".to_string(),
                22 => format!("{}/**:./{{1}}", d),
                23 => "*:{1}".to_string(),
                0 | 1 => "**:/{0}".to_string(),
                2 => format!("{}:/", d),
                3 => format!("{}:/new{}", d, i),
                4 => format!("{}/**:/x{}/{{1}}", d, i),
                5 => format!("{}/*:/y{}/{{1}}", d, i),
                6 => format!("{}:/renamed{}", f, i),
                7 => format!("*.{}:/{{0}}", ext),
                8 => format!("**/*.{}:/e{}/{{1}}/{{2}}.{}", ext, i, ext),
                9 => format!("**/*.{}:/{{0}}", ext),
                10 => format!("!{}", f),
                11 => format!("!{}/**", d),
                12 => format!("!**/*.{}", ext),
                13 => format!("!{}", d),
                14 => format!("**/{}:/n{}", base, i),
                15 => "*:/top/{1}".to_string(),
                16 => format!("{{{},{}}}:/alt{}/{{1}}", d, f, i),
                17 => format!("{}:/{}", f, f),
                18 => "*/**:/{1}/in/{2}".to_string(),
                _ => format!("{}:deep{}/a/b", f, i),
            };
            let host = rule.split(':').next().unwrap().to_string();
            // (a spec file cannot hold two rules for one pattern)
            if hosts.insert(host) || r.chance(1, 8) {
                v.push(rule);
            }
            if r.chance(1, 16) && v.len() > 1 {
                let again = v[r.below(v.len() as u64) as usize].clone();
                v.push(match again.split_once(':') {
                    Some((h, _)) if !h.starts_with('!') => format!("{}:/again{}", h, i),
                    _ => again,
                });
            }
        }
        let rs = crate::build::rules_of(&v);
        if rs.iter().all(|x| x.0.starts_with('!')) {
            continue;
        }
        if let Ok(x) = crate::build::remap(&m, &rs) {
            if x.model.keys().any(|k| k.len() > 900) {
                continue;
            }
            return v;
        }
    }
    vec!["**:/{0}".into()]
}
fn safe_tree(r: &mut Rng) -> Tree {
    let shape = *r.pick(&[Shape::Tiny, Shape::Small, Shape::Small, Shape::Small, Shape::Deep]);
    let mut t = gen_tree(r, &GenOpts { names: NameOpts { latin: true, cp1252: false, special: false, long: false }, shape, max_len: 6000 });
    let mut used: std::collections::BTreeSet<String> = t.iter().map(|e| fold(&e.path)).collect();
    for e in t.iter_mut() {
        if !e.dir && r.chance(1, 2) {
            let p = format!("{}.{}", e.path, r.pick(&["bin", "txt", "xbe"]));
            if used.insert(fold(&p)) {
                e.path = p;
            }
        }
    }
    if r.chance(1, 3) {
        // names that look like parts of rules, to be matched by wildcards
        for _ in 0..r.range(1, 3) {
            if t.is_empty() {
                break;
            }
            let x = *r.pick(&["{1}", "{2}", "{0}", "a{1}b", "{2}{1}.bin", "{", "}{", "!x", "[a]", "a*b", "?", ".hidden", "..x", "a b", "$1", "#", "a,b", "\\1"]);
            let i = r.below(t.len() as u64) as usize;
            let old = t[i].path.clone();
            let new = match old.rsplit_once('/') {
                Some((d, _)) => format!("{}/{}", d, x),
                None => x.to_string(),
            };
            if t.iter().any(|e| fold(&e.path) == fold(&new)) {
                continue;
            }
            let pre = format!("{}/", old);
            for e in t.iter_mut() {
                if e.path == old {
                    e.path = new.clone();
                } else if let Some(rest) = e.path.strip_prefix(&pre) {
                    e.path = format!("{}/{}", new, rest);
                }
            }
        }
    }
    t.retain(|e| !matches!(fold(&e.path).as_str(), "XDVDFS.TOML" | "MY.TOML"));
    t
}

fn fuse_items(r: &mut Rng, t: &Tree, prop: &str, n: usize) -> Vec<String> {
    let (ds, fs, ps) = (dirs(t), files(t), all_paths(t));
    let mut v = vec![];
    for _ in 0..n {
        let d = if ds.is_empty() || r.chance(1, 3) { String::new() } else { r.pick(&ds).clone() };
        let f = if fs.is_empty() { d.clone() } else { r.pick(&fs).clone() };
        let any = if ps.is_empty() || r.chance(1, 8) { String::new() } else { r.pick(&ps).clone() };
        let len = t.iter().find(|e| e.path == f).map(|e| e.len).unwrap_or(10);
        let edge = [0u64, 1, 2047, 2048, 4096, len.saturating_sub(1), len, len + 1, len / 2, len + 9000, 1 << 33, i64::MAX as u64, u64::MAX - 3];
        let off = if len >= 1 << 30 && r.chance(3, 4) {
            // next to one of the marks in the hole
            (1u64 << r.range(20, 31)).saturating_sub(r.below(40))
        } else if r.chance(1, 3) {
            *r.pick(&edge)
        } else {
            r.below(len + 2)
        };
        let size = match r.below(4) {
            0 => *r.pick(&[0u64, 1, 2047, 2048, 2049, 4096, 8192, 131072]),
            1 => r.below(len + 2).min(131072),
            2 => 4096 * r.range(1, 32),
            _ => r.range(1, 9000),
        };
        let k = match prop {
            "C14" => *r.pick(&[0u64, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6]),
            "C15" => *r.pick(&[0u64, 1, 2, 2, 2, 2, 3, 3, 3, 7, 7, 5]),
            _ => *r.pick(&[0u64, 0, 1, 2, 2, 3, 4, 5, 6, 6, 7, 8, 8, 9]),
        };
        v.push(match k {
            0 => format!("read|{}|{}|{}|{}", f, off, size, spell(r)),
            1 => format!("getattr|{}|{}", any, spell(r)),
            2 if r.chance(1, 3) => {
                let mut l = format!("lists|{}|{}", d, r.next() >> 20);
                for _ in 0..r.range(1, 3) {
                    let e = if ds.is_empty() || r.chance(1, 4) { String::new() } else { r.pick(&ds).clone() };
                    l = format!("{}|{}", l, e);
                }
                l
            }
            2 if r.chance(1, 6) => {
                let at = [3u64, 1 << 20, (1 << 31) - 1, 1 << 31, 1 << 32, i64::MAX as u64 - 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX, r.below(40), r.below(1 << 40)];
                format!("listat|{}|{}|{}", d, r.pick(&at), r.range(600, 9000))
            }
            2 => format!("list|{}|{}", d, r.next() >> 20),
            3 => format!("look|{}|{}", if any.is_empty() { absent(r, t) } else { any }, spell(r)),
            4 => format!("open|{}|{}", any, r.pick(&[0u64, 0, 0, 0x8000, 1, 2])),
            5 => format!("forget|{}|{}", any, r.range(1, 3)),
            6 => format!("misc|{}|{}", any, r.below(600)),
            7 => {
                let mut p = absent(r, t);
                // keep the parent present
                if let Some((par, _)) = p.clone().rsplit_once('/') {
                    if !model(t).keys().any(|k| k == par) {
                        p = p.replace('/', "_");
                    }
                }
                if r.chance(1, 10) {
                    p.push('\u{f7ff}');
                }
                format!("look|{}|0", p)
            }
            8 => format!("stale|{}|{}", r.below(5), r.below(1000)),
            _ => format!("read|{}|{}|{}|0", d, 0, 100),
        });
    }
    v
}

/// Commands that take several images or directories.
fn multi(r: &mut Rng, s: &mut Scn) {
    if s.tree.len() > 200 {
        s.tree.truncate(3);
        s.tree.retain(|e| !e.path.contains('/'));
    }
    if s.img.is_none() {
        s.img = Some(gen_img(r, false));
    }
    let n = r.range(2, 3);
    s.set("members", n);
    for k in ["d", "del", "multicall", "rel"] {
        let x = r.below(2);
        s.set(k, x);
    }
    let x = r.below(8);
    s.set("outs", x);
    if s.variant == "multi-x" && s.num("multicall") == 1 && r.chance(1, 2) {
        s.set("noflag", 1);
    }
    if s.prop == "C05" && s.variant != "multi-c" && r.chance(1, 3) {
        let x = r.range(1, n);
        s.set("broken", x);
    }
    if s.prop == "C07" && r.chance(1, 2) {
        if s.variant == "multi-x" {
            s.set("d", 1);
            s.set("hit", 1);
        } else if s.variant == "multi-r" {
            s.set("clash", 1);
            let x = r.below(2);
            s.set("hit", x);
        }
    }
    s.list.clear();
}

/// The fault-free scenario number `idx` of a property.
pub fn gen(prop: &str, idx: u64, seed: u64, thorough: bool) -> Scn {
    let mut rr = Rng::new(mix2(seed, fnv(idx, prop.as_bytes())));
    let r = &mut rr;
    let mut s = Scn { prop: prop.into(), seed: r.next() >> 12, ..Default::default() };
    let small = !thorough && r.chance(2, 3);
    match prop {
        "C01" => {
            s.variant = pickv(r, &[("pack-dir", 12), ("exiso-c", 6), ("lib-fs", 10), ("lib-remap", 2), ("multi-c", 1), ("host-dir", 3)]).into();
            s.tree = tree(r, !matches!(s.variant.as_str(), "lib-remap" | "host-dir"), small);
            benign(r, &mut s);
            if matches!(s.variant.as_str(), "pack-dir" | "exiso-c") {
                giant(r, &mut s, 250);
            }
            wopts(r, &mut s);
        }
        "C02" => {
            s.variant = pickv(
                r,
                &[("pack-dir", 4), ("pack-img", 3), ("exiso-c", 1), ("exiso-r", 1), ("build", 2), ("compress-dir", 1), ("compress-img", 1), ("lib-fs", 6), ("lib-img", 2), ("lib-remap", 1), ("lib-linear", 1), ("host-dir", 1)],
            )
            .into();
            let sp = !matches!(s.variant.as_str(), "build" | "lib-remap" | "host-dir");
            s.tree = if r.chance(2, 3) { wide_or(r, sp) } else { tree(r, sp, small) };
            if r.chance(1, if thorough { 25 } else { 60 }) && s.variant.starts_with("lib") {
                s.tree = gen_tree(r, &GenOpts { names: names(sp), shape: Shape::Huge, max_len: 3 });
            }
            benign(r, &mut s);
            wopts(r, &mut s);
            wide_img(r, &mut s);
        }
        "C03" => {
            s.variant = pickv(r, &[("pack-img", 10), ("exiso-r", 6), ("lib-img", 10), ("multi-r", 1), ("host-img", 3)]).into();
            s.tree = tree(r, true, small);
            huge(r, &mut s, 80);
            large(r, &mut s);
            benign(r, &mut s);
            if s.variant != "multi-r" {
                giant(r, &mut s, 250);
            }
            wopts(r, &mut s);
            wide_img(r, &mut s);
        }
        "C04" => {
            s.variant = pickv(
                r,
                &[("unpack", 5), ("unpack-default", 1), ("exiso-x", 1), ("exiso-x-d", 1), ("exiso-none", 1), ("copyout-file", 4), ("copyout-dir", 3), ("copyout-root", 1), ("multi-x", 1)],
            )
            .into();
            s.tree = tree(r, true, small);
            large(r, &mut s);
            benign(r, &mut s);
            giant(r, &mut s, 150);
            extract_sel(r, &mut s);
            wide_img(r, &mut s);
            if r.chance(1, 3) {
                s.set("pre", 1);
            }
            let x = r.below(2);
            s.set("rel", x);
        }
        "C05" => {
            s.variant = pickv(
                r,
                &[
                    ("pack-dir", 6),
                    ("pack-img", 3),
                    ("exiso-c", 1),
                    ("exiso-r", 1),
                    ("build", 2),
                    ("compress-dir", 3),
                    ("compress-img", 2),
                    ("unpack", 4),
                    ("exiso-x", 1),
                    ("copyout-file", 2),
                    ("copyout-dir", 1),
                    ("lib-fs", 3),
                    ("lib-img", 2),
                    ("lib-remap", 1),
                    ("lib-linear", 1),
                    ("lib-linear-img", 1),
                    ("multi-c", 1),
                    ("multi-r", 1),
                    ("multi-x", 1),
                    ("multi-l", 1),
                    ("host-dir", 2),
                    ("host-img", 1),
                ],
            )
            .into();
            s.tree = tree(r, !matches!(s.variant.as_str(), "build" | "lib-remap" | "host-dir"), true);
            ensure_file(r, &mut s.tree);
            extract_sel(r, &mut s);
            if r.chance(1, 2) {
                benign(r, &mut s);
            } else {
                s.sync = r.chance(1, 4);
            }
            wopts(r, &mut s);
            s.img = Some({
                let bp = r.chance(1, 4);
                gen_img(r, bp)
            });
        }
        "C06" => {
            s.variant = pickv(r, &[("pack-dir", 5), ("pack-img", 3), ("exiso-c", 1), ("exiso-r", 2), ("build", 2), ("lib-fs", 4), ("lib-img", 2), ("lib-remap", 1), ("host-dir", 1), ("host-img", 1)]).into();
            s.tree = tree(r, !matches!(s.variant.as_str(), "build" | "lib-remap" | "host-dir"), true);
            if r.chance(3, 4) {
                ensure_file(r, &mut s.tree);
            }
            if r.chance(1, 2) {
                benign(r, &mut s);
            }
            wopts(r, &mut s);
            s.img = Some(gen_img(r, false));
            // the rewrite may find a valid image at its output only if that is its source
            if s.variant == "exiso-r" {
                s.set("pre", 0);
            }
        }
        "C07" => {
            s.variant = pickv(
                r,
                &[("exiso-r", 6), ("alias", 6), ("pack-dir", 1), ("pack-img", 1), ("exiso-c", 1), ("build", 1), ("compress-dir", 1), ("compress-img", 1), ("unpack", 2), ("copyout-dir", 1), ("exiso-x", 1), ("multi-c", 1), ("multi-r", 2), ("multi-x", 1)],
            )
            .into();
            s.tree = tree(r, s.variant != "build" && s.variant != "alias", true);
            ensure_file(r, &mut s.tree);
            extract_sel(r, &mut s);
            if r.chance(1, 2) {
                benign(r, &mut s);
                s.rates[R_NOREALPATH] = 0;
            }
            wopts(r, &mut s);
            s.img = Some(gen_img(r, false));
            if s.variant == "alias" {
                alias(r, &mut s, false);
            } else if s.variant == "unpack" && r.chance(1, 2) {
                s.set("collide", 1);
                let l = r.below(3);
                s.set("via_link", l);
            }
        }
        "C08" => {
            s.variant = pickv(r, &[("cmd", 10), ("lib-read", 10), ("lib-many", 4), ("multi-l", 1), ("multi-sum", 1)]).into();
            s.tree = if r.chance(1, 3) { wide_or(r, true) } else { tree(r, true, small) };
            huge(r, &mut s, 40);
            large(r, &mut s);
            benign(r, &mut s);
            if s.variant == "lib-read" {
                giant(r, &mut s, 20);
            }
            wide_img(r, &mut s);
            s.list = if s.variant == "cmd" {
                let n = if thorough { 10 } else { 5 };
                if r.chance(1, 25) {
                    s.tree.truncate(8);
                    s.tree.retain(|e| !e.path.contains('/'));
                    for i in 0..r.range(2, 3) {
                        let l = (3u64 << 30) - r.below(2 << 30);
                        s.tree.push(big(&format!("giant.{}", i), l));
                    }
                    s.rates = [0; NRATES];
                    s.set("giant", 1);
                    // what would read all of them is left out
                    let mut q = vec!["tree||0".to_string(), "exl||0".to_string()];
                    q.extend(queries(r, &s.tree, n).into_iter().filter(|x| !x.starts_with("md5")));
                    q
                } else {
                    queries(r, &s.tree, n)
                }
            } else {
                let n = r.range(4, 30) as usize;
                calls(r, &s.tree, n, false)
            };
            if s.variant == "lib-many" {
                s.list.truncate(8);
                s.pend = *r.pick(&[200u64, 500, 900]);
            }
        }
        "C09" => {
            s.variant = pickv(r, &[("cmd", 3), ("lib", 5)]).into();
            s.tree = tree(r, true, true);
            let ring = r.chance(1, 8);
            if ring {
                s.tree = chain(r);
            } else if r.chance(5, 6) {
                ensure_file(r, &mut s.tree);
            }
            let bp = r.chance(1, 3);
            let mut io = gen_img(r, bp);
            io.seed &= 0xffff;
            s.list = if ring { rings(r, &s.tree, &io) } else { damages(r, &s.tree, &io) };
            s.img = Some(io);
            s.sync = r.chance(1, 4);
            if r.chance(1, 4) {
                benign(r, &mut s);
            }
            let ps = all_paths(&s.tree);
            let p = if ps.is_empty() { "x".to_string() } else { r.pick(&ps).clone() };
            let n = if s.variant == "cmd" { 2 } else { 6 };
            for _ in 0..n {
                let c = if s.variant == "cmd" {
                    match r.below(40) {
                        0..8 => "unpack".to_string(),
                        8..13 => "repack".into(),
                        13 => "compress".into(),
                        14..18 => "exr".into(),
                        18..22 => format!("copyout|{}", p),
                        _ => queries(r, &s.tree, 1).pop().unwrap(),
                    }
                } else {
                    match r.below(60) {
                        0..6 => "repack".to_string(),
                        6 => "compress".into(),
                        _ => calls(r, &s.tree, 1, true).pop().unwrap(),
                    }
                };
                s.list.push(format!("cmd|{}", c));
            }
        }
        "C10" => {
            s.variant = pickv(r, &[("unpack", 4), ("exiso", 2), ("exiso-cwd", 2), ("copyout", 2), ("copyout-sel", 2)]).into();
            gen_hostile(r, &mut s);
        }
        "C11" => {
            s.variant = pickv(r, &[("cmd", 3), ("lib", 5)]).into();
            s.tree = tree(r, true, true);
            s.list = edits(r, &s.tree);
            benign(r, &mut s);
            wide_img(r, &mut s);
        }
        "C12" => {
            s.variant = pickv(r, &[("compress-dir", 4), ("compress-img", 4), ("foreign", 2), ("lib-linear", 3), ("lib-linear-img", 3)]).into();
            s.tree = tree(r, true, small);
            benign(r, &mut s);
            wopts(r, &mut s);
            s.img = Some(gen_img(r, s.variant != "foreign"));
            if !s.variant.starts_with("lib") {
                s.list = queries(r, &s.tree, 2);
                let x = r.below(2);
                s.set("single", x);
            }
        }
        "C13" => {
            s.variant = pickv(r, &[("flags", 3), ("spec", 2), ("spec-f", 1), ("spec-arg", 1), ("gen", 2), ("lib-remap", 5)]).into();
            s.tree = safe_tree(r);
            s.list = rules(r, &s.tree);
            benign(r, &mut s);
            s.rates[R_NOREALPATH] = 0;
            for k in ["dry", "cwd", "rel", "tofile", "decoy"] {
                let x = r.below(2);
                s.set(k, x);
            }
            let o = r.below(3);
            s.set("out", o);
            if r.chance(1, 4) {
                let x = r.range(1, 6);
                s.set("sp", x);
            }
        }
        "C14" | "C15" | "C16" => {
            s.variant = "mount".into();
            s.tree = if prop == "C15" || r.chance(1, 3) { wide_or(r, true) } else { tree(r, true, true) };
            huge(r, &mut s, if prop == "C15" { 40 } else { 80 });
            if prop != "C15" {
                large(r, &mut s);
                giant(r, &mut s, 12);
                ensure_file(r, &mut s.tree);
            }
            wide_img(r, &mut s);
            let n = r.range(8, if thorough { 60 } else { 30 }) as usize;
            s.list = fuse_items(r, &s.tree, prop, n);
            let p = *r.pick(&[1u64, 1, 2, 5]);
            s.set("pipe", p);
            if r.chance(1, 6) {
                s.set("fork", 1);
            }
            if r.chance(2, 3) {
                s.rates[R_SHORT_READ] = *r.pick(&[50u16, 300, 900]);
                s.rates[R_EINTR] = *r.pick(&[0u16, 50, 300]);
            }
        }
        "C17" => {
            s.variant = pickv(r, &[("lib-read", 6), ("lib-many", 1), ("lib-fs", 2), ("lib-img", 2), ("lib-remap", 1), ("lib-linear-img", 1)]).into();
            s.tree = tree(r, s.variant != "lib-remap", true);
            ensure_file(r, &mut s.tree);
            s.pend = *r.pick(&[0u64, 60, 300, 800]);
            s.shuffle = r.below(3) as u8;
            let bp = r.chance(1, 4);
            s.img = Some(gen_img(r, bp));
            if s.variant.starts_with("lib-read") || s.variant == "lib-many" {
                let n = r.range(3, 12) as usize;
                s.list = calls(r, &s.tree, n, s.variant == "lib-read");
            }
        }
        "C18" => gen_c18(r, &mut s, idx, thorough),
        "C19" => {
            s.variant = pickv(r, &[("pack-dir", 3), ("pack-img", 2), ("exiso-c", 2), ("lib-fs", 5), ("lib-img", 2), ("lib-remap", 1)]).into();
            s.tree = tree(r, s.variant != "lib-remap", small);
            benign(r, &mut s);
            s.rates[R_NOREALPATH] = 0;
            wopts(r, &mut s);
            s.set("rel", 0);
            s.s.remove("src");
            wide_img(r, &mut s);
        }
        "C20" => {
            s.variant = pickv(r, &[("fork", 3), ("nofork", 1)]).into();
            s.tree = gen_tree(r, &GenOpts { names: names(true), shape: Shape::Tiny, max_len: 3000 });
            wide_img(r, &mut s);
            let c = *r.pick(&["ok", "ok", "ok", "ok", "badimg", "badimg2", "empty", "trunc", "noimg", "nomnt", "filemnt", "linkmnt", "nofuse", "badopt"]);
            s.sets("case", c);
            let w = if c == "ok" { *r.pick(&[0u64, 0, 25]) } else { 0 };
            s.set("wait", w);
            let x = r.below(3);
            s.set("srcsp", x);
            let mut o: Vec<&str> = vec![];
            for v in [&["ro", "rw"][..], &["exec", "noexec"], &["dev", "nodev"], &["suid", "nosuid"], &["default_permissions"], &["fsname=disc", "fsname=a=b c", "fsname="], &["subtype=x"]] {
                if r.chance(1, 3) {
                    o.push(*r.pick(v));
                }
            }
            if s.variant == "nofork" {
                o.push("nofork");
            } else if r.chance(1, 4) {
                o.push("fork");
            }
            r.shuffle(&mut o);
            for x in o {
                match s.list.last_mut() {
                    Some(l) if r.chance(1, 2) => *l = format!("{},{}", l, x),
                    _ => s.list.push(x.into()),
                }
            }
            let x = r.below(2);
            s.set("opts_first", x);
            if r.chance(1, 2) {
                s.rates[R_SHORT_READ] = 300;
                s.rates[R_EINTR] = *r.pick(&[100u16, 500]);
            }
        }
        "C23" => {
            s.variant = pickv(r, crate::devs::KINDS).into();
            benign(r, &mut s);
            let len = if s.variant.starts_with("offset") {
                s.tree = gen_tree(r, &GenOpts { names: names(true), shape: Shape::Tiny, max_len: 3000 });
                s.img = Some(gen_img(r, true));
                let b = build_image(&s.tree, s.img.as_ref().unwrap());
                b.img.len - b.part
            } else {
                let x = *r.pick(&[0u64, 1, 100, 2048, 8192, 20000, 65536]);
                let x = if r.chance(1, 3) { r.below(70000) } else { x };
                s.set("size", x);
                let f = r.below(1000);
                s.set("fill", f);
                x
            };
            crate::devs::gen_c23(r, &mut s, len);
        }
        "C24" => {
            s.tree = gen_tree(r, &GenOpts { names: names(true), shape: Shape::Tiny, max_len: 5000 });
            if r.chance(1, 2) {
                benign(r, &mut s);
            } else {
                s.sync = r.chance(1, 4);
            }
            s.img = Some(gen_img(r, false));
            crate::args::gen_c24(r, &mut s);
        }
        "C21" => gen_c21(r, &mut s),
        "C22" => gen_c22(r, &mut s),
        "C25" => {
            s.tree = tree(r, true, true);
            s.img = Some(gen_img(r, false));
            s.shuffle = r.below(3) as u8;
            crate::pages::gen_c25(r, &mut s);
            if s.variant == "dpages" {
                benign(r, &mut s);
                s.sync = false;
            }
        }
        p => panic!("unknown property {}", p),
    }
    if (s.variant.starts_with("multi") && s.variant != "multi-sum" && s.variant != "multi-l" || s.variant.starts_with("exiso")) && !matches!(prop, "C10" | "C19" | "C08") && r.chance(1, 3) {
        let x = r.range(1, 4);
        s.set("xq", x);
    }
    if s.variant.starts_with("multi") {
        multi(r, &mut s);
    }
    if s.variant.starts_with("host-") {
        let mut f: Vec<&str> = if s.variant == "host-dir" { vec!["dir-file", "dir-buf", "dir-pieces", "dir-remap"] } else { vec!["img-std", "img-def", "img-raw", "img-pieces"] };
        // what fits into memory; whether the library stores it there in one go is not of interest
        if prop != "C06" && s.tree.iter().map(|e| e.len + 4096).sum::<u64>() < 8 << 20 {
            f.extend(if s.variant == "host-dir" { ["dir-box", "dir-pieces-box"] } else { ["img-box", "img-pieces-box"] });
        }
        let x = *r.pick(&f);
        s.sets("form", x);
    }
    s
}
/// Images with names that lead elsewhere.
fn gen_hostile(r: &mut Rng, s: &mut Scn) {
    let mut t: Tree = vec![];
    let mut ds = vec![String::new()];
    for i in 0..r.range(1, 6) {
        let d = r.pick(&ds).clone();
        let n = format!("{}{}_long_placeholder_name", (b'a' + r.below(26) as u8) as char, i);
        let p = if d.is_empty() { n } else { format!("{}/{}", d, n) };
        if r.chance(2, 5) {
            ds.push(p.clone());
            t.push(dent(p));
        } else {
            t.push(gen_file(r, p, 5000));
        }
    }
    if s.variant == "copyout-sel" && ds.len() == 1 {
        t.push(dent("sel_long_placeholder_name".into()));
        t.push(gen_file(r, "sel_long_placeholder_name/file_long_placeholder_name".into(), 100));
        ds.push("sel_long_placeholder_name".into());
    }
    if r.chance(1, 8) {
        s.tree = tree(r, true, true);
        if s.variant == "copyout-sel" {
            s.variant = "unpack".into();
        }
    } else {
        let sel = if ds.len() > 1 { ds[r.range(1, ds.len() as u64 - 1) as usize].clone() } else { String::new() };
        s.sets("sel", &sel);
        let fs: Vec<String> = t.iter().map(|e| e.path.clone()).collect();
        for _ in 0..r.range(1, 3) {
            let p = r.pick(&fs).clone();
            if s.variant == "copyout-sel" && sel.starts_with(&p) {
                continue;
            }
            let h = if r.chance(1, 5) {
                // combinations of separators, dots and letters
                let mut x = String::new();
                for _ in 0..r.range(1, 6) {
                    x.push_str(*r.pick(&["..", "/", "\\", ".", "victim", "x", "../", " ", "é"]));
                }
                x
            } else {
                r.pick(HOSTILE).to_string()
            };
            s.list.push(format!("{}|{}", p, h));
        }
        if s.list.is_empty() {
            let last = fs.last().unwrap().clone();
            s.list.push(format!("{}|../victim", last));
        }
        s.tree = t;
    }
    s.img = Some(gen_img(r, false));
    s.sync = r.chance(1, 4);
    if r.chance(1, 3) {
        benign(r, s);
    }
}
fn gen_c22(r: &mut Rng, s: &mut Scn) {
    s.variant = pickv(r, &[("web-pack-dir", 4), ("web-pack-img", 3), ("web-compress-dir", 3), ("web-compress-img", 2), ("web-unpack", 6), ("web-hostile", 1)]).into();
    if s.variant == "web-hostile" {
        gen_hostile(r, s);
        return;
    }
    s.tree = tree(r, true, true);
    if r.chance(3, 4) {
        ensure_file(r, &mut s.tree);
    }
    wopts(r, s);
    s.set("out", 0);
    s.set("rel", 0);
    if s.variant.contains("compress") {
        s.set("pre", 0);
    }
    s.shuffle = r.below(3) as u8;
    wide_img(r, s);
}
fn gen_c21(r: &mut Rng, s: &mut Scn) {
    s.variant = pickv(
        r,
        &[("desk-pack-dir", 4), ("desk-pack-img", 3), ("desk-compress-dir", 2), ("desk-compress-img", 2), ("desk-unpack", 6), ("desk-hostile", 3), ("desk-alias", 4)],
    )
    .into();
    match s.variant.as_str() {
        "desk-hostile" => {
            gen_hostile(r, s);
        }
        "desk-alias" => {
            s.tree = tree(r, false, true);
            ensure_file(r, &mut s.tree);
            alias(r, s, true);
            s.img = Some(gen_img(r, false));
        }
        _ => {
            s.tree = tree(r, true, true);
            if r.chance(3, 4) {
                ensure_file(r, &mut s.tree);
            }
            benign(r, s);
            wopts(r, s);
            if s.num("out") == 2 {
                s.set("out", 0);
            }
            if s.variant.contains("compress") {
                s.set("pre", 0);
                if r.chance(1, 8) && !s.tree.iter().any(|e| fold(&e.path) == "SOME.BIN") {
                    // progress is reported in steps of many sectors
                    let mut e = gen_file(r, "some.bin".into(), 20000);
                    e.len = r.range(3_000_000, 5_000_000);
                    s.tree.push(e);
                }
            }
            wide_img(r, s);
            if matches!(s.variant.as_str(), "desk-unpack" | "desk-pack-dir") {
                giant(r, s, 100);
            }
            if s.variant == "desk-unpack" && s.num("giant") == 0 && r.chance(1, 6) {
                ensure_file(r, &mut s.tree);
                s.set("collide", 1);
                let l = r.below(3);
                s.set("via_link", l);
                s.rates[R_NOREALPATH] = 0;
            }
        }
    }
    s.sync = false;
}
/// An output that is, or lies in, its own source.
fn alias(r: &mut Rng, s: &mut Scn, desk: bool) {
    let img = r.below(2);
    s.set("img", img);
    let (a, b) = (r.below(6), if desk { r.below(6) } else { r.below(8) });
    s.set("src_sp", a);
    s.set("out_sp", b);
    let cmd = if img == 1 {
        *r.pick(&["pack", "pack", "compress"])
    } else {
        *r.pick(&["pack", "pack", "exiso-c", "compress", "build"])
    };
    let cmd = match cmd {
        "compress" if desk && img == 0 => "desk-compress",
        _ if desk => "desk-pack",
        c => c,
    };
    s.sets("cmd", cmd);
    let ds = dirs(&s.tree);
    let fs = files(&s.tree);
    let inner = match r.below(4) {
        0 if !fs.is_empty() => r.pick(&fs).clone(),
        1 if !ds.is_empty() => format!("{}/new.iso", r.pick(&ds)),
        2 if !fs.is_empty() && cmd != "build" => r.pick(&fs).clone(),
        _ => "new.iso".to_string(),
    };
    let inner = if cmd == "desk-compress" {
        if ds.is_empty() || r.chance(1, 2) {
            String::new()
        } else {
            r.pick(&ds).clone()
        }
    } else if desk && b == 5 {
        // what a dangling link would create is not looked for
        if fs.is_empty() {
            s.set("out_sp", 0);
        }
        fs.first().cloned().unwrap_or(inner)
    } else {
        inner
    };
    s.sets("inner", &inner);
}
fn ensure_file(r: &mut Rng, t: &mut Tree) {
    if !t.iter().any(|e| !e.dir && e.len > 0) && !t.iter().any(|e| fold(&e.path) == "DATA.BIN") {
        let mut e = gen_file(r, "data.bin".into(), 20000);
        e.len = e.len.max(5);
        t.push(e);
    }
}
fn extract_sel(r: &mut Rng, s: &mut Scn) {
    let v = match s.variant.as_str() {
        "copyout-file" => {
            let f = files(&s.tree);
            if f.is_empty() {
                s.variant = "unpack".into();
                return;
            }
            f
        }
        "copyout-dir" => {
            let d = dirs(&s.tree);
            if d.is_empty() {
                s.variant = "copyout-root".into();
                let sp = r.below(3);
                s.set("spell", sp);
                return;
            }
            d
        }
        "copyout-root" => {
            let sp = r.below(3);
            s.set("spell", sp);
            return;
        }
        _ => return,
    };
    let p = r.pick(&v).clone();
    s.sets("sel", &p);
    let sp = spell(r);
    s.set("spell", sp);
}

fn big(name: &str, len: u64) -> TEnt {
    TEnt { path: name.into(), len, seed: 7, style: ST_SPARSE, dir: false, ..dent("".into()) }
}
fn gen_c18(r: &mut Rng, s: &mut Scn, idx: u64, _thorough: bool) {
    let lib = r.chance(1, 2);
    let proc_variant = *r.pick(&["pack-dir", "pack-dir", "exiso-c", "compress-dir", "build"]);
    let lib_variant = *r.pick(&["lib-fs", "lib-fs", "lib-linear", "lib-remap"]);
    s.variant = if lib { lib_variant } else { proc_variant }.into();
    let sp = !matches!(s.variant.as_str(), "build" | "lib-remap");
    s.tree = tree(r, sp, true);
    s.set("refuse", 1);
    let ds = dirs(&s.tree);
    let at = if ds.is_empty() || r.chance(1, 2) { String::new() } else { format!("{}/", r.pick(&ds)) };
    let file = r.chance(2, 3);
    let mut add = |s: &mut Scn, name: String| {
        let mut e = dent(name);
        if file {
            e.dir = false;
            e.len = 10;
            e.seed = 3;
        }
        s.tree.push(e);
    };
    let kind = idx % 16;
    match kind {
        0 | 1 | 2 => {
            let n = *r.pick(&["日本.bin", "Ω", "файл", "a\u{0301}", "🎮", "x\u{200b}", "\u{0100}", "ł", "name\u{fffd}", "ｆｕｌｌ"]);
            s.sets("case", "a name outside windows-1252");
            add(s, format!("{}{}", at, n));
        }
        3 | 4 => {
            // equal but for ASCII case: a second spelling of an existing or new entry
            s.sets("case", "two names equal but for ASCII case");
            let base = format!("{}Dup{}", at, r.below(100));
            let other = format!("{}dUP{}", at, &base[at.len() + 3..]);
            let which = r.chance(1, 2);
            add(s, base);
            add(s, other);
            if which && file {
                // one of them a directory
                let i = s.tree.len() - 1;
                s.tree[i].dir = true;
                s.tree[i].len = 0;
            }
        }
        5 if lib => {
            let l = *r.pick(&[256u64, 257, 300, 512, 700]);
            s.sets("case", "a name longer than 255 bytes");
            add(s, format!("{}{}", at, "n".repeat(l as usize)));
        }
        5 | 6 => {
            // exactly at the limit
            s.set("refuse", 0);
            s.sets("case", "names of 255 bytes");
            s.tree.retain(|e| e.path.len() < 600);
            let ds = dirs(&s.tree);
            let at = if ds.is_empty() { String::new() } else { format!("{}/", r.pick(&ds)) };
            add(s, format!("{}{}", at, "q".repeat(255)));
            add(s, format!("{}{}", at, "r".repeat(254)));
        }
        7 if lib => {
            // 200 characters that take 2 bytes each on the host but one in the image
            s.set("refuse", 0);
            s.sets("case", "a name of 255 characters outside ASCII");
            s.tree.retain(|e| e.path.len() < 600);
            add(s, "é".repeat(255));
        }
        8 => {
            s.variant = "lib-fs".into();
            s.sets("case", "a file of 4 GiB");
            s.tree.truncate(3);
            s.tree.retain(|e| fold(&e.path) != "BIG");
            let l = *r.pick(&[1u64 << 32, (1 << 32) + 1, (1 << 32) + 5000, 1 << 33, 1 << 40, (1 << 32) + 2048]);
            s.tree.push(big("big", l));
        }
        9 => {
            s.variant = "lib-fs".into();
            s.set("refuse", 0);
            s.sets("case", "a file one byte short of 4 GiB");
            s.tree.truncate(3);
            s.tree.retain(|e| fold(&e.path) != "BIG");
            let l = *r.pick(&[(1u64 << 32) - 1, (1 << 32) - 2048, (1 << 32) - 2047]);
            s.tree.push(big("big", l));
        }
        10 => {
            s.variant = "lib-fs".into();
            s.sets("case", "contents beyond the addressable image size");
            s.tree = vec![big("big", (1 << 32) - 1)];
            let n = 2048 + r.below(10);
            s.set("copies", n);
            s.pend = 0;
        }
        11 => {
            // table size limit
            s.variant = "lib-fs".into();
            s.tree.truncate(2);
            let over = r.chance(1, 2);
            s.set("refuse", over as u64);
            s.sets("case", if over { "a directory table beyond the addressable size" } else { "a directory table at the addressable size" });
            let (l, max) = *r.pick(&[(100u64, 2176u64), (6, 0)]);
            let _ = max;
            s.set("wide_len", l);
            // entries per sector: 2048 / size; entries must start below offset 0xffff * 4
            let size = (14 + l + 3) / 4 * 4;
            let per = 2048 / size;
            let sectors = 128; // 0x40000 bytes
            let n = sectors * per;
            s.set("wide", if over { n + r.range(1, 3) } else { n - r.below(2) });
            if r.chance(1, 2) {
                s.sets("wide_dir", "wd");
                s.tree.retain(|e| fold(&e.path) != "WD" && !fold(&e.path).starts_with("WD/"));
            } else {
                // the root holds only the wide entries
                s.tree.clear();
            }
        }
        12 | 13 => {
            s.variant = (*r.pick(&["pack-dir", "pack-dir", "exiso-c", "compress-dir", "build"])).into();
            s.sets("case", "an entry that is neither a file nor a directory");
            let mut e = dent(format!("{}special", at));
            e.special = 1 + (r.below(2) as u8);
            e.dir = false;
            e.link = (*r.pick(&["nowhere", "/w/o/target", "special"])).into();
            s.tree.push(e);
        }
        14 => {
            s.variant = (*r.pick(&["pack-dir", "pack-dir", "exiso-c", "compress-dir", "build"])).into();
            s.sets("case", "an undecodable name");
            let n = *r.pick(&["\u{f7ff}", "a\u{f780}b", "x\u{f7c3}"]);
            add(s, format!("{}{}", at, n));
        }
        15 => {
            s.variant = "build".into();
            s.tree = safe_tree(r);
            s.sets("case", "a mapping to names equal but for ASCII case");
            s.tree.retain(|e| !fold(&e.path).starts_with("ZZ"));
            add(s, "zz1".into());
            add(s, "zz2".into());
            s.list = vec!["zz1:/Name".into(), "zz2:/nAME".into(), "**:/rest/{0}".into()];
        }
        _ => {
            s.set("refuse", 0);
            s.sets("case", "an ordinary tree");
        }
    }
    // case-insensitive duplicates must only come from the case at hand
    s.shuffle = r.below(3) as u8;
    s.sync = r.chance(1, 4);
    s.dt_unknown = r.chance(1, 4);
    s.pend = if s.num("copies") > 0 || s.num("wide") > 0 { 0 } else { *r.pick(&[0u64, 100, 500]) };
}

// ------------------------------------------------------------------ deriving faults
fn errno(r: &mut Rng, kind: u8) -> u64 {
    (match kind {
        OP_WRITE | OP_COPY | OP_TRUNC | OP_SYNC => *r.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG]),
        OP_OPEN => *r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOSPC]),
        OP_MKDIR => *r.pick(&[libc::EACCES, libc::ENOSPC, libc::EIO]),
        OP_RENAME | OP_UNLINK => *r.pick(&[libc::EACCES, libc::EIO, libc::EBUSY]),
        _ => *r.pick(&[libc::EIO, libc::EIO, libc::EACCES]),
    }) as u64
}
/// Picks an operation to hit: the ends of the run and writes are preferred.
fn pick_op(r: &mut Rng, o: &Outcome, ok: &dyn Fn(&OpRec) -> bool) -> Option<u64> {
    let v: Vec<u64> = o.ops.iter().enumerate().filter(|(_, x)| ok(x)).map(|(i, _)| i as u64).collect();
    if v.is_empty() {
        return None;
    }
    let w: Vec<u64> = v.iter().copied().filter(|i| matches!(o.ops[*i as usize].kind, OP_WRITE | OP_COPY)).collect();
    // one of each kind of operation gets its share, however rare it is
    let mut kinds: Vec<u8> = v.iter().map(|i| o.ops[*i as usize].kind).collect();
    kinds.sort();
    kinds.dedup();
    Some(match r.below(10) {
        0 | 1 if !w.is_empty() => w[w.len() - 1 - r.below(w.len().min(4) as u64) as usize],
        2 | 3 if !w.is_empty() => *r.pick(&w),
        4 => v[v.len() - 1 - r.below(v.len().min(5) as u64) as usize],
        5 | 6 => {
            let k = *r.pick(&kinds);
            let x: Vec<u64> = v.iter().copied().filter(|i| o.ops[*i as usize].kind == k).collect();
            *r.pick(&x)
        }
        _ => *r.pick(&v),
    })
}
fn lib_op(r: &mut Rng, o: &Outcome) -> Option<u64> {
    let n = o.lib_kinds.len() as u64;
    if n == 0 {
        return None;
    }
    let w: Vec<u64> = (0..n).filter(|i| o.lib_kinds[*i as usize] == OP_WRITE).collect();
    Some(match r.below(4) {
        0 if !w.is_empty() => w[w.len() - 1 - r.below(w.len().min(6) as u64) as usize],
        1 if !w.is_empty() => *r.pick(&w),
        _ => r.below(n),
    })
}

/// Fault scenarios made from a base scenario and its operation log.
pub fn derive(base: &Scn, o: &Outcome, thorough: bool) -> Vec<Scn> {
    let mut rr = Rng::new(mix2(base.seed, 0xde51));
    let r = &mut rr;
    let k = if thorough { 12 } else { 5 };
    let mut v = vec![];
    let hard = |x: &OpRec| !matches!(x.kind, OP_CLOSE | OP_FUSE_RX | OP_FUSE_TX | OP_OTHER | OP_PIPE_WRITE | OP_DUP | OP_UMOUNT) && x.kind != 0;
    let mut push = |mut s: Scn, f: Vec<(u64, u8, u64)>| {
        s.faults.extend(f);
        s.faults.sort();
        s.faults.dedup_by_key(|f| f.0);
        v.push(s);
    };
    if base.num("giant") == 1 {
        return v;
    }
    let class = match (base.prop.as_str(), base.variant.as_str()) {
        ("C21" | "C22", "desk-hostile" | "web-hostile") => "C10",
        ("C21", "desk-alias") => "C07",
        ("C21", _) if base.num("collide") == 1 => "C07",
        ("C21" | "C22", _) => "C05",
        (p, _) => p,
    };
    match class {
        "C05" if base.variant.starts_with("lib") => {
            for i in 0..k {
                if i == 0 && matches!(base.variant.as_str(), "lib-fs" | "lib-linear" | "lib-remap") {
                    let fs: Vec<&TEnt> = base.tree.iter().filter(|e| !e.dir && e.len > 0).collect();
                    if !fs.is_empty() {
                        let e = *r.pick(&fs);
                        let mut s = base.clone();
                        s.sets("shrink", &e.path);
                        s.set("shrink_to", r.below(e.len));
                        push(s, vec![]);
                    }
                    continue;
                }
                let Some(op) = lib_op(r, o) else { continue };
                let kind = if r.chance(1, 2) { F_ERRNO } else { F_PARTIAL_ERR };
                push(base.clone(), vec![(op, kind, r.next() >> 40)]);
            }
        }
        "C06" | "C19" if base.variant.starts_with("lib") => {
            for _ in 0..k {
                let Some(op) = lib_op(r, o) else { continue };
                let kind = *r.pick(&[F_ERRNO, F_PARTIAL_ERR, F_CRASH, F_CRASH]);
                let len = o.lib_lens[op as usize];
                push(base.clone(), vec![(op, kind, if r.chance(1, 4) { len } else { r.next() >> 40 })]);
            }
        }
        "C25" => {
            let written: u64 = o.ops.iter().filter(|x| x.kind == OP_WRITE && x.ret > 0).map(|x| x.ret as u64).sum();
            for _ in 0..k {
                if r.chance(1, 6) && written > 0 {
                    let mut s = base.clone();
                    s.capacity = Some(r.below(written));
                    push(s, vec![]);
                    continue;
                }
                let mut f = vec![];
                for _ in 0..r.range(1, 3) {
                    if let Some(op) = pick_op(r, o, &|x| x.kind != 0) {
                        let kind = *r.pick(&[F_ERRNO, F_ERRNO, F_ERRNO, F_ERRNO_STICKY, F_PARTIAL_ERR, F_CRASH]);
                        f.push((op, kind, if kind == F_CRASH { 0 } else { libc::EIO as u64 }));
                    }
                }
                if !f.is_empty() {
                    push(base.clone(), f);
                }
            }
        }
        "C17" => {
            if base.variant == "lib-many" {
                return v;
            }
            for _ in 0..k {
                let mut f = vec![];
                for _ in 0..r.range(1, 4) {
                    if let Some(op) = lib_op(r, o) {
                        f.push((op, *r.pick(&[F_ERRNO, F_PARTIAL_ERR, F_CRASH]), r.next() >> 40));
                    }
                }
                if !f.is_empty() {
                    push(base.clone(), f);
                }
            }
        }
        "C05" => {
            let extract = crate::rcmd::is_extract(&base.variant);
            let written: u64 = o.ops.iter().filter(|x| matches!(x.kind, OP_WRITE | OP_COPY) && x.write == 1 && x.ret > 0).map(|x| x.ret as u64).sum();
            for i in 0..k {
                if base.prop == "C22" && r.chance(1, 6) {
                    // the tab is closed
                    if let Some(op) = pick_op(r, o, &|x| x.kind != 0) {
                        push(base.clone(), vec![(op, F_CRASH, 0)]);
                    }
                    continue;
                }
                match r.below(10) {
                    0 | 1 if written > 0 => {
                        let mut s = base.clone();
                        let c = match r.below(3) {
                            0 => written.saturating_sub(1 + r.below(4096.min(written))),
                            _ => r.below(written),
                        };
                        s.capacity = Some(c);
                        push(s, vec![]);
                    }
                    2 | 3 if !base.variant.starts_with("multi") => {
                        // the source changes while the command runs
                        let mut s = base.clone();
                        let path;
                        let len;
                        if extract {
                            path = "/i/game.iso".to_string();
                            let b = build_image(&s.tree, s.img.as_ref().unwrap());
                            len = b.used_end;
                        } else {
                            let w = wsetup(&s);
                            if base.variant.ends_with("-img") || base.variant == "exiso-r" {
                                path = if base.variant == "exiso-r" { w.src[0].replace(".iso", ".old") } else { w.src[0].clone() };
                                let b = build_image(&s.tree, s.img.as_ref().unwrap());
                                len = b.used_end;
                            } else {
                                let fs: Vec<&TEnt> = s.tree.iter().filter(|e| !e.dir && e.len > 0).collect();
                                if fs.is_empty() {
                                    continue;
                                }
                                let e = *r.pick(&fs);
                                path = format!("{}/{}", w.src[0], e.path);
                                len = e.len;
                            }
                        }
                        let img = !path.contains("/src/") && path.ends_with(".iso");
                        let kind = if img { 0u8 } else { *r.pick(&[0u8, 0, 0, 1, 2]) };
                        let n = match kind {
                            // also just the end of the last extents
                            0 if r.chance(1, 3) => len - 1 - r.below(len.min(6000)),
                            0 => r.below(len),
                            2 => r.range(1, 5000),
                            _ => 0,
                        };
                        s.mutations.push((kind, path, n));
                        let n = o.ops.len() as u64;
                        if n == 0 {
                            continue;
                        }
                        let at = match r.below(6) {
                            0 => 0,
                            1 | 2 => r.below(n),
                            _ => n / 2 + r.below(n / 2 + 1),
                        };
                        push(s, vec![(at, F_MUTATE, 0)]);
                    }
                    _ => {
                        let Some(op) = pick_op(r, o, &hard) else { continue };
                        let kd = o.ops[op as usize].kind;
                        let e = errno(r, kd);
                        let mut f = vec![];
                        match r.below(6) {
                            0 => f.push((op, F_ERRNO_STICKY, e)),
                            1 if matches!(kd, OP_WRITE) => f.push((op, F_PARTIAL_ERR, e)),
                            _ => f.push((op, F_ERRNO, e)),
                        }
                        if r.chance(1, 6) {
                            if let Some(op) = pick_op(r, o, &hard) {
                                let e = errno(r, o.ops[op as usize].kind);
                                f.push((op, F_ERRNO, e));
                            }
                        }
                        push(base.clone(), f);
                    }
                }
                let _ = i;
            }
        }
        "C06" => {
            for _ in 0..k {
                let Some(op) = pick_op(r, o, &|x| x.kind != 0) else { continue };
                let l = o.ops[op as usize].len;
                let arg = match r.below(4) {
                    0 => 0,
                    1 => l,
                    _ => r.below(l + 1),
                };
                push(base.clone(), vec![(op, F_CRASH, arg)]);
            }
        }
        "C07" => {
            for _ in 0..k {
                let Some(op) = pick_op(r, o, &hard) else { continue };
                let kd = o.ops[op as usize].kind;
                if !matches!(base.variant.as_str(), "exiso-r" | "multi-r") && matches!(kd, OP_REALPATH | OP_READLINK | OP_STAT) {
                    // what is behind a path cannot be told without these
                    continue;
                }
                if matches!(base.variant.as_str(), "exiso-r" | "multi-r") && r.chance(1, 2) {
                    let l = o.ops[op as usize].len;
                    let arg = if r.chance(1, 3) { l } else { r.below(l + 1) };
                    push(base.clone(), vec![(op, F_CRASH, arg)]);
                } else {
                    let e = errno(r, kd);
                    let fk = if r.chance(1, 5) { F_ERRNO_STICKY } else { F_ERRNO };
                    push(base.clone(), vec![(op, fk, e)]);
                }
            }
        }
        "C09" | "C11" | "C18" if base.variant.starts_with("lib") => {
            if base.prop == "C18" && base.num("refuse") == 0 || o.nops > 100_000 {
                return v;
            }
            for _ in 0..k.min(4) {
                let mut f = vec![];
                for _ in 0..r.range(1, 3) {
                    if let Some(op) = lib_op(r, o) {
                        f.push((op, if r.chance(1, 2) { F_ERRNO } else { F_PARTIAL_ERR }, r.next() >> 40));
                    }
                }
                if !f.is_empty() {
                    push(base.clone(), f);
                }
            }
        }
        "C09" | "C10" | "C11" | "C18" | "C24" => {
            if base.prop == "C18" && base.num("refuse") == 0 || base.prop == "C24" && o.nops < 8 || o.nops > 100_000 {
                return v;
            }
            for _ in 0..k.min(4) {
                let mut f = vec![];
                for _ in 0..r.range(1, 3) {
                    if let Some(op) = pick_op(r, o, &hard) {
                        let e = errno(r, o.ops[op as usize].kind);
                        f.push((op, if r.chance(1, 4) { F_ERRNO_STICKY } else { F_ERRNO }, e));
                    }
                }
                if !f.is_empty() {
                    push(base.clone(), f);
                }
            }
        }
        "C16" => {
            let first = o.ops.iter().position(|x| x.kind == OP_FUSE_RX).unwrap_or(usize::MAX) as u64;
            for _ in 0..k {
                let mut f = vec![];
                for _ in 0..r.range(1, 5) {
                    let ops: Vec<u64> = (0..o.ops.len() as u64)
                        .filter(|i| *i > first && matches!(o.ops[*i as usize].kind, OP_READ | OP_SEEK))
                        .collect();
                    if ops.is_empty() {
                        break;
                    }
                    f.push((*r.pick(&ops), F_ERRNO, libc::EIO as u64));
                }
                if !f.is_empty() {
                    push(base.clone(), f);
                }
            }
        }
        "C23" => {
            let written: u64 = o.ops.iter().filter(|x| x.kind == OP_WRITE && x.ret > 0).map(|x| x.ret as u64).sum();
            for _ in 0..k.min(4) {
                if written > 0 && r.chance(1, 5) {
                    let mut s = base.clone();
                    s.capacity = Some(r.below(written));
                    push(s, vec![]);
                    continue;
                }
                let mut f = vec![];
                for _ in 0..r.range(1, 3) {
                    if let Some(op) = pick_op(r, o, &hard) {
                        let kd = o.ops[op as usize].kind;
                        let e = errno(r, kd);
                        f.push((op, if kd == OP_WRITE && r.chance(1, 2) { F_PARTIAL_ERR } else if r.chance(1, 6) { F_ERRNO_STICKY } else { F_ERRNO }, e));
                    }
                }
                if !f.is_empty() {
                    push(base.clone(), f);
                }
            }
        }
        "C20" => {
            if !matches!(base.str("case"), "ok") {
                return v;
            }
            let end = o.ops.iter().position(|x| x.kind == OP_FUSE_RX).unwrap_or(o.ops.len());
            for _ in 0..k {
                let ops: Vec<usize> = (0..end).filter(|i| hard(&o.ops[*i])).collect();
                if ops.is_empty() {
                    break;
                }
                let op = if r.chance(1, 4) { *ops.last().unwrap() } else { *r.pick(&ops) };
                let kd = o.ops[op].kind;
                let f = if r.chance(1, 3) {
                    (op as u64, F_CRASH, 0)
                } else {
                    let e = if kd == OP_MOUNT { *r.pick(&[libc::EBUSY, libc::EINVAL, libc::EPERM, libc::ENODEV]) as u64 } else { errno(r, kd) };
                    (op as u64, F_ERRNO, e)
                };
                push(base.clone(), vec![f]);
            }
        }
        _ => {}
    }
    v
}
pub fn has_derived(prop: &str) -> bool {
    matches!(prop, "C05" | "C06" | "C07" | "C09" | "C10" | "C11" | "C16" | "C18" | "C17" | "C19" | "C20" | "C21" | "C22" | "C23" | "C24" | "C25")
}
#[allow(unused)]
fn kids(t: &Tree) -> Vec<String> {
    children(&model(t), "")
}
