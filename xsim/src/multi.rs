//! extract-xiso modes that take several images or directories, and `checksum` of several images.
//! Variants multi-c, multi-r, multi-x, multi-l, multi-sum. The members are derived from the scenario's
//! tree. n: members 2..3, d 1: `-d` given, del: `-D`, outs: bit per member, whether the output is
//! named, clash 1: members have the same file name in different directories, hit 1: an entry of the first image has the
//! name of the second image's file, broken k+1: member k is not there.
use crate::image::*;
use crate::rcmd::*;
use crate::run::*;
use crate::scn::*;
use crate::simfmt::*;
use crate::tree::*;
use crate::wcmd::*;

pub struct Member {
    pub path: String,
    pub tree: Tree,
    pub out: String,
    pub built: Option<Built>,
}

fn member_tree(t: &Tree, k: u64, s: &Scn) -> Tree {
    let mut v: Tree = t
        .iter()
        .filter(|e| k == 0 || e.dir || fnv(k, e.path.as_bytes()) % 3 != 0)
        .cloned()
        .map(|mut e| {
            e.seed = e.seed.wrapping_add(k * 7919);
            e
        })
        .collect();
    let own = format!("only in {}.bin", k);
    if !v.iter().any(|e| fold(&e.path) == fold(&own)) {
        v.push(TEnt { path: own, len: 100 + 3000 * k, seed: k, dir: false, ..dent(String::new()) });
    }
    if s.variant == "multi-x" && s.num("d") == 1 {
        // extracted to one place, so nothing may be in two of them
        for e in v.iter_mut() {
            e.path = format!("m{}/{}", k, e.path);
        }
        v.insert(0, dent(format!("m{}", k)));
        if s.num("hit") == 1 && k == 0 {
            v.push(TEnt { path: "g1.iso".into(), len: 5000, seed: 77, dir: false, ..dent(String::new()) });
        }
    }
    v
}

pub struct MSetup {
    pub argv: Vec<Vec<u8>>,
    pub nodes: Vec<FsNode>,
    pub members: Vec<Member>,
    pub what: String,
}

pub fn msetup(s: &Scn) -> MSetup {
    let mut nodes = vec![dir_node("/w"), dir_node("/w/o"), dir_node("/w/p0"), dir_node("/w/p1"), dir_node("/w/p2")];
    let n = s.num("members").clamp(2, 3);
    let io = s.img.clone().unwrap_or_default();
    let mut members = vec![];
    let clash = s.num("clash") == 1;
    for k in 0..n {
        let tree = member_tree(&s.tree, k, s);
        let mut m = Member { path: String::new(), tree, out: String::new(), built: None };
        if s.variant == "multi-c" {
            m.path = format!("/w/d{}", k);
            m.out = if s.num("outs") >> k & 1 == 1 { format!("/w/o/x{}.iso", k) } else { format!("/w/d{}.iso", k) };
            nodes.extend(host_nodes(&m.path, &m.tree));
        } else {
            m.path = if clash { format!("/w/p{}/game.iso", k) } else { format!("/w/g{}.iso", k) };
            let b = build_image(&m.tree, &ImgOpts { seed: io.seed.wrapping_add(k), ..io.clone() });
            if s.num("broken") != k + 1 {
                nodes.push(file_node(&m.path, b.img.clone()));
            }
            m.built = Some(b);
            let base = m.path.rsplit('/').next().unwrap().to_string();
            m.out = match (s.variant.as_str(), s.num("d")) {
                ("multi-r", 1) => format!("{}/{}", ddir(s), base),
                ("multi-r", _) => m.path.clone(),
                ("multi-x", 1) => ddir(s).to_string(),
                ("multi-x", _) => format!("/w/{}", base.trim_end_matches(".iso")),
                _ => String::new(),
            };
        }
        members.push(m);
    }
    let mut a: Vec<String> = if s.num("multicall") == 1 { vec!["extract-xiso".into()] } else { vec!["xdvdfs".into(), "extract-xiso".into()] };
    let rel = s.num("rel") == 1;
    let arg = |m: &Member| if rel { m.path.strip_prefix("/w/").unwrap().to_string() } else { m.path.clone() };
    if s.num("d") == 1 && matches!(s.variant.as_str(), "multi-r" | "multi-x") {
        a.extend(["-d".to_string(), ddir(s).to_string()]);
    }
    match s.variant.as_str() {
        "multi-c" => {
            for (k, m) in members.iter().enumerate() {
                a.extend(["-c".to_string(), arg(m)]);
                if s.num("outs") >> k & 1 == 1 {
                    a.push(if rel { m.out.strip_prefix("/w/").unwrap().to_string() } else { m.out.clone() });
                }
            }
        }
        "multi-sum" => {
            a = vec!["xdvdfs".into(), "checksum".into(), "-s".into()];
            a.extend(members.iter().map(arg));
        }
        v => {
            if v == "multi-r" && s.num("del") == 1 {
                a.push("-D".into());
            }
            let flag = match v {
                "multi-r" => "-r",
                "multi-x" => "-x",
                _ => "-l",
            };
            if !(v == "multi-x" && s.num("noflag") == 1) {
                a.push(flag.into());
            }
            a.extend(members.iter().map(arg));
        }
    }
    exiso_flags(s, &mut a);
    let what = a.join(" ");
    MSetup { argv: a.iter().map(|x| os_bytes(x)).collect(), nodes, members, what }
}
fn ddir(s: &Scn) -> &'static str {
    match (s.variant.as_str(), s.num("clash"), s.num("hit")) {
        ("multi-x", _, 1) => "/w",
        ("multi-r", 1, 1) => "/w/p1",
        _ => "/w/o",
    }
}

/// What a successful run must have left or printed.
fn complete(s: &Scn, w: &MSetup, p: &ProcOut, out: &Output) -> Result<(), String> {
    match s.variant.as_str() {
        "multi-c" | "multi-r" => {
            for m in &w.members {
                let f = file_after(&w.nodes, out, &m.out).ok_or_else(|| format!("no output at {}", m.out))?;
                let i = parse(&f, s.mutations.is_empty()).map_err(|e| format!("{}: malformed image: {}", m.out, e))?;
                if let Some(d) = diff(&model(&m.tree), &i.model) {
                    return Err(format!("{}: wrong contents: {}", m.out, d));
                }
            }
        }
        "multi-x" => {
            if s.num("d") == 1 {
                let mut want = Model::new();
                for m in &w.members {
                    want.extend(model(&m.tree));
                }
                if let Some(d) = diff(&want, &host_model(&w.nodes, out, ddir(s))) {
                    return Err(d);
                }
            } else {
                for m in &w.members {
                    if let Some(d) = diff(&model(&m.tree), &host_model(&w.nodes, out, &m.out)) {
                        return Err(format!("{}: {}", m.out, d));
                    }
                }
            }
        }
        "multi-l" => {
            // one listing after the other, each ends with its totals
            let text = String::from_utf8_lossy(&p.stdout).into_owned();
            let mut rest: Vec<&str> = text.lines().collect();
            for m in &w.members {
                let arg = if s.num("rel") == 1 { m.path.strip_prefix("/w/").unwrap() } else { m.path.as_str() };
                let mm = model(&m.tree);
                let n = mm.len() + 1;
                if rest.len() < n {
                    return Err(format!("the listing of {} is not complete", m.path));
                }
                let mut got: Vec<String> = rest.drain(..n).map(|x| x.to_string()).collect();
                let total: u64 = mm.values().flatten().map(|f| f.len).sum();
                let last = format!("{} files, {} bytes in {}", mm.values().flatten().count(), total, arg);
                if got.pop().as_deref() != Some(last.as_str()) {
                    return Err(format!("the listing of {} does not end with {:?}", m.path, last));
                }
                let mut want: Vec<String> = mm
                    .iter()
                    .map(|(k, v)| match v {
                        None => format!("/{}/ (0 bytes)", k),
                        Some(f) => format!("/{} ({} bytes)", k, f.len),
                    })
                    .collect();
                want.sort();
                got.sort();
                if want != got {
                    return Err(format!("the listing of {} is wrong", m.path));
                }
            }
            if !rest.is_empty() {
                return Err(format!("unexpected output {:?}", rest[0]));
            }
        }
        _ => {
            let text = String::from_utf8_lossy(&p.stdout).into_owned();
            let lines: Vec<&str> = text.lines().collect();
            if lines.len() != w.members.len() {
                return Err(format!("{} lines for {} images", lines.len(), w.members.len()));
            }
            for (l, m) in lines.iter().zip(&w.members) {
                let arg = if s.num("rel") == 1 { m.path.strip_prefix("/w/").unwrap() } else { m.path.as_str() };
                let want = format!("{}\t{}", content_sum(&model(&m.tree)), arg);
                if *l != want {
                    return Err(format!("prints {:?} instead of {:?}", l, want));
                }
            }
        }
    }
    Ok(())
}

pub fn exec_multi(cx: &Cx, s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let w = msetup(s);
    let cfg = s.config();
    let Some(p) = proc(cx, &mut o, &cfg, bin(s), &w.argv, &w.nodes, true) else { return o };
    o.nontrivial = true;
    if let Some(b) = bad_end(&p) {
        if p.code != 77 {
            o.fail(format!("`{}` {}", w.what, b));
            return o;
        }
    }
    let Some(out) = &p.out else { return o };
    if s.prop == "C07" {
        kept(s, &w, &p, out, &mut o);
        return o;
    }
    if s.prop == "C05" {
        if p.code != 0 {
            if p.stderr.iter().all(|c| c.is_ascii_whitespace()) && p.code > 0 && p.code != 77 && !quiet(s) {
                o.fail(format!("`{}` fails (exit {}) without any message", w.what, p.code));
            }
            return o;
        }
        if s.num("broken") > 0 {
            o.fail(format!("`{}` reports success although one of the images is not there", w.what));
            return o;
        }
        if let Err(e) = complete(s, &w, &p, out) {
            o.fail(format!("`{}` reports success although an operation failed, and the output is not complete: {}", w.what, e));
        }
        return o;
    }
    if p.code != 0 {
        o.fail(format!("`{}` fails on valid input (exit {}): {}", w.what, p.code, txt(&p.stderr)));
        return o;
    }
    if let Err(e) = complete(s, &w, &p, out) {
        o.fail(format!("`{}` reports success, but: {}", w.what, e));
        return o;
    }
    kept(s, &w, &p, out, &mut o);
    o
}

/// The sources are kept; a rewrite keeps the original or a complete new image of every member.
fn kept(s: &Scn, w: &MSetup, p: &ProcOut, out: &Output, o: &mut Outcome) {
    if s.variant != "multi-r" {
        for m in &w.members {
            if !w.nodes.iter().any(|n| n.path == m.path.as_bytes()) {
                continue;
            }
            if let Some(e) = unchanged(&w.nodes, out, &[&m.path]) {
                o.fail(format!("`{}` (exit {}) changed its source: {}", w.what, p.code, e));
                return;
            }
        }
        return;
    }
    for m in &w.members {
        let Some(i) = w.nodes.iter().position(|n| n.path == m.path.as_bytes()) else { continue };
        let ino = i as u64 + 1;
        let holder = out.nodes.iter().find(|n| n.ino == ino);
        if holder.is_some_and(|n| !n.dirty) {
            continue;
        }
        let new_ok = out.nodes.iter().any(|n| n.path == m.out.as_bytes() && n.ino != ino)
            && file_after(&w.nodes, out, &m.out).is_some_and(|f| parse(&f, false).is_ok_and(|q| diff(&model(&m.tree), &q.model).is_none()));
        if holder.is_some() {
            o.fail(format!("`{}` (exit {}) modified the original image {}", w.what, p.code, m.path));
        } else if !new_ok {
            o.fail(format!("`{}` (exit {}) left neither the original of {} nor a complete new image", w.what, p.code, m.path));
        } else if s.num("del") == 0 {
            o.fail(format!("`{}` (exit {}) deleted the original {} without -D", w.what, p.code, m.path));
        }
        if o.viol.is_some() {
            return;
        }
    }
}
