//! Model trees: what a source directory or an image logically contains.
use crate::simfmt::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// One entry of a generated tree. File contents are a function of (len, seed, style).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct TEnt {
    pub path: String,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub dir: bool,
    #[serde(default)]
    pub len: u64,
    #[serde(default)]
    pub seed: u64,
    #[serde(default)]
    pub style: u8,
    /// other: 0 normal, 1 fifo, 2 symlink (target in `link`)
    #[serde(default, skip_serializing_if = "is0")]
    pub special: u8,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub link: String,
}
fn is0(x: &u8) -> bool {
    *x == 0
}
pub type Tree = Vec<TEnt>;

pub const ST_RANDOM: u8 = 0;
pub const ST_TEXT: u8 = 1;
pub const ST_ZERO: u8 = 2;
pub const ST_SPARSE: u8 = 3;
pub const ST_FF: u8 = 4;
pub const ST_MAGIC: u8 = 5;
pub const ST_MIXED: u8 = 6;

/// Characters U+F700..U+F7FF stand for raw (undecodable) bytes.
pub fn os_bytes(s: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in s.chars() {
        let u = c as u32;
        if (0xF700..=0xF7FF).contains(&u) {
            v.push((u - 0xF700) as u8);
        } else {
            let mut b = [0; 4];
            v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
        }
    }
    v
}

fn fill_word(seed: u64, i: u64) -> [u8; 8] {
    mix2(seed, i).to_le_bytes()
}
fn random_bytes(seed: u64, off: u64, buf: &mut [u8]) {
    for (k, b) in buf.iter_mut().enumerate() {
        let p = off + k as u64;
        *b = fill_word(seed, p / 8)[(p % 8) as usize];
    }
}
/// Aligned fast path
fn random_fill(seed: u64, off: u64, buf: &mut [u8]) {
    if off % 8 == 0 {
        let mut i = off / 8;
        let mut ch = buf.chunks_exact_mut(8);
        for c in &mut ch {
            c.copy_from_slice(&fill_word(seed, i));
            i += 1;
        }
        let r = ch.into_remainder();
        let n = r.len();
        r.copy_from_slice(&fill_word(seed, i)[..n]);
    } else {
        random_bytes(seed, off, buf)
    }
}

pub fn content(e: &TEnt) -> FileData {
    let mut f = FileData { len: e.len, pages: BTreeMap::new() };
    let mut put = |off: u64, n: u64, g: &dyn Fn(u64, &mut [u8])| {
        let mut o = off;
        while o < off + n {
            let k = std::cmp::min(off + n - o, 1 << 16);
            let mut b = vec![0u8; k as usize];
            g(o, &mut b);
            f.write_at(o, &b);
            o += k;
        }
    };
    match e.style {
        ST_RANDOM => put(0, e.len, &|o, b| random_fill(e.seed, o, b)),
        ST_TEXT => put(0, e.len, &|o, b| {
            for (k, x) in b.iter_mut().enumerate() {
                let p = o + k as u64;
                let line = p / 32;
                let c = p % 32;
                *x = if c < 24 {
                    b"the quick brown fox at  "[c as usize]
                } else {
                    b'a' + ((mix2(e.seed, line) >> ((c - 24) * 8)) % 26) as u8
                };
            }
        }),
        ST_ZERO => {}
        ST_SPARSE => {
            let h = e.len.min(20000);
            put(0, h, &|o, b| random_fill(e.seed, o, b));
            if e.len > 60000 {
                let s = (e.len - 20000) / 8 * 8;
                put(s, e.len - s, &|o, b| random_fill(e.seed ^ 1, o, b));
                // beacons, so that any displacement shows
                let mut o = 1u64 << 20;
                while o + 16 < e.len {
                    put(o - 8, 16, &|o, b| random_fill(e.seed, o, b));
                    o <<= 1;
                }
            }
        }
        ST_FF => put(0, e.len, &|_, b| b.fill(0xff)),
        ST_MAGIC => put(0, e.len, &|o, b| {
            for (k, x) in b.iter_mut().enumerate() {
                let p = o + k as u64;
                let s = p % 2048;
                *x = if s < 20 {
                    b"MICROSOFT*XBOX*MEDIA"[s as usize]
                } else if s >= 2028 {
                    b"MICROSOFT*XBOX*MEDIA"[(s - 2028) as usize]
                } else {
                    (mix2(e.seed, p / 64) % 251) as u8
                };
            }
        }),
        _ => put(0, e.len, &|o, b| {
            // alternating compressible and incompressible sectors
            for (k, x) in b.iter_mut().enumerate() {
                let p = o + k as u64;
                let s = p / 2048;
                *x = if mix2(e.seed, s ^ 0x777) & 1 == 0 {
                    (mix2(e.seed, s) >> 8) as u8
                } else {
                    fill_word(e.seed, p / 8)[(p % 8) as usize]
                };
            }
        }),
    }
    f.len = e.len;
    f
}

/// Logical contents: path -> None for a directory, Some(contents) for a file.
pub type Model = BTreeMap<String, Option<Arc<FileData>>>;

pub fn parents(path: &str) -> Vec<String> {
    let mut v = vec![];
    for (i, c) in path.char_indices() {
        if c == '/' {
            v.push(path[..i].to_string());
        }
    }
    v
}

pub fn model(t: &Tree) -> Model {
    let mut m = Model::new();
    for e in t {
        for p in parents(&e.path) {
            m.entry(p).or_insert(None);
        }
        if e.dir {
            m.entry(e.path.clone()).or_insert(None);
        } else if e.special == 0 {
            m.insert(e.path.clone(), Some(Arc::new(content(e))));
        }
    }
    m
}

pub fn same_data(a: &FileData, b: &FileData) -> Result<(), String> {
    if a.len != b.len {
        return Err(format!("length {} instead of {}", b.len, a.len));
    }
    let keys: BTreeSet<u64> = a.pages.keys().chain(b.pages.keys()).copied().collect();
    for k in keys {
        let (x, y) = (a.pages.get(&k), b.pages.get(&k));
        let zero = vec![0u8; PAGE];
        let x = x.map(|p| &p[..]).unwrap_or(&zero);
        let y = y.map(|p| &p[..]).unwrap_or(&zero);
        if x != y {
            let i = (0..PAGE).find(|i| x[*i] != y[*i]).unwrap();
            return Err(format!("byte {} is {:#04x} instead of {:#04x}", k * PAGE as u64 + i as u64, y[i], x[i]));
        }
    }
    Ok(())
}

/// Differences between what is wanted and what was found.
pub fn diff(want: &Model, got: &Model) -> Option<String> {
    let mut d = vec![];
    for (p, w) in want {
        match (w, got.get(p)) {
            (_, None) => d.push(format!("{:?} is missing", p)),
            (None, Some(Some(_))) => d.push(format!("{:?} should be a directory", p)),
            (Some(_), Some(None)) => d.push(format!("{:?} should be a file", p)),
            (Some(a), Some(Some(b))) => {
                if let Err(e) = same_data(a, b) {
                    d.push(format!("{:?}: {}", p, e));
                }
            }
            _ => {}
        }
        if d.len() > 4 {
            break;
        }
    }
    for p in got.keys() {
        if !want.contains_key(p) {
            d.push(format!("{:?} should not be there", p));
        }
        if d.len() > 6 {
            break;
        }
    }
    if d.is_empty() {
        None
    } else {
        Some(d.join("; "))
    }
}

/// Host nodes for a tree placed under `root`.
pub fn host_nodes(root: &str, t: &Tree) -> Vec<FsNode> {
    let mut v = vec![dir_node(root)];
    for e in t {
        let mut path = root.as_bytes().to_vec();
        path.push(b'/');
        path.extend(os_bytes(&e.path));
        let kind = match (e.special, e.dir) {
            (1, _) => NodeKind::Other,
            (2, _) => NodeKind::Symlink(os_bytes(&e.link)),
            (_, true) => NodeKind::Dir,
            _ => NodeKind::File(content(e)),
        };
        v.push(FsNode { path, kind, dirty: false, ino: 0 });
    }
    v
}
pub fn dir_node(p: &str) -> FsNode {
    FsNode { path: p.as_bytes().to_vec(), kind: NodeKind::Dir, dirty: false, ino: 0 }
}
pub fn file_node(p: &str, f: FileData) -> FsNode {
    FsNode { path: p.as_bytes().to_vec(), kind: NodeKind::File(f), dirty: false, ino: 0 }
}
pub fn link_node(p: &str, t: &str) -> FsNode {
    FsNode { path: p.as_bytes().to_vec(), kind: NodeKind::Symlink(t.as_bytes().to_vec()), dirty: false, ino: 0 }
}

pub fn fold(name: &str) -> String {
    name.chars().map(|c| c.to_ascii_uppercase()).collect()
}
pub fn cmp_names(a: &str, b: &str) -> std::cmp::Ordering {
    fold(a).chars().cmp(fold(b).chars())
}
pub fn encodable(name: &str) -> Option<Vec<u8>> {
    let (b, _, bad) = encoding_rs::WINDOWS_1252.encode(name);
    if bad {
        None
    } else {
        Some(b.into_owned())
    }
}
pub fn decode_name(b: &[u8]) -> String {
    encoding_rs::WINDOWS_1252.decode_without_bom_handling(b).0.into_owned()
}

// ------------------------------------------------------------------ generation
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    Tiny,
    Small,
    Wide,
    Deep,
    Boundary,
    Huge,
    BigFiles,
}

const SPECIAL: &[char] = &['_', '[', '^', '`', '{', '~', '-', '.', ' ', '!', '@', '#', '$', '(', ')', '+', ',', ';', '=', '\'', '&', '%', ']', '}', '\\', '<', '>', '"', '*', '?'];
const LATIN: &[char] = &['é', 'É', 'ß', 'ÿ', 'À', 'à', 'ñ', '×', '÷', 'µ', '¿', '\u{a0}', 'Þ', 'þ'];
const CP: &[char] = &['€', 'Š', 'ž', '™', '…', 'Ÿ', 'œ'];

#[derive(Clone, Copy, Debug)]
pub struct NameOpts {
    pub latin: bool,
    pub cp1252: bool,
    pub special: bool,
    pub long: bool,
}

pub fn gen_name(r: &mut Rng, o: &NameOpts) -> String {
    let style = r.below(10);
    let len = match r.below(20) {
        0 if o.long => *r.pick(&[200u64, 250, 254, 255]),
        1 | 2 => r.range(20, 60),
        3..=8 => r.range(1, 3),
        _ => r.range(3, 12),
    };
    let mut s = String::new();
    let mut bytes = 0;
    let tight: &[char] = &['a', 'b', 'A', 'B', '_', 'z', 'Z', '0'];
    while bytes < len as usize {
        let c = match style {
            0..=2 => *r.pick(tight),
            3 if o.special => *r.pick(SPECIAL),
            4 if o.latin && r.chance(1, 2) => *r.pick(LATIN),
            5 if o.cp1252 && r.chance(1, 3) => *r.pick(CP),
            6 if o.special && r.chance(1, 3) => *r.pick(SPECIAL),
            _ => (if r.chance(1, 2) { b'a' } else { b'A' } + r.below(26) as u8) as char,
        };
        if bytes + c.len_utf8() > 255 {
            break;
        }
        bytes += c.len_utf8();
        s.push(c);
    }
    // names that start like a byte order mark
    if o.latin && o.special && s.len() < 200 && r.chance(1, 30) {
        s.insert_str(0, *r.pick(&["\u{ef}\u{bb}\u{bf}", "\u{ff}\u{fe}", "\u{fe}\u{ff}"]));
    }
    if s == "." || s == ".." || s.is_empty() {
        s = "x".into();
    }
    if s.starts_with('-') {
        s.insert(0, 'd');
        while s.len() > 255 {
            s.pop();
        }
    }
    s
}

pub fn gen_len(r: &mut Rng, max: u64) -> u64 {
    let n = match r.below(12) {
        0 => 0,
        1 => r.range(1, 4),
        2 => *r.pick(&[2047u64, 2048, 2049, 4095, 4096, 4097]),
        3 => *r.pick(&[65535u64, 65536, 65537, 8191, 8192, 8193, 61440, 63488]),
        4..=7 => r.range(1, 3000),
        8 | 9 => r.range(1, 20000),
        10 => r.range(1, 100_000),
        _ => 2048 * r.range(1, 40),
    };
    n.min(max)
}

pub fn gen_file(r: &mut Rng, path: String, max: u64) -> TEnt {
    let len = gen_len(r, max);
    let style = match r.below(12) {
        0 => ST_TEXT,
        1 => ST_ZERO,
        2 => ST_FF,
        3 => ST_MAGIC,
        4 | 5 => ST_MIXED,
        _ => ST_RANDOM,
    };
    TEnt { path, dir: false, len, seed: r.next() >> 16, style, special: 0, link: String::new() }
}
pub fn dent(path: String) -> TEnt {
    TEnt { path, dir: true, len: 0, seed: 0, style: 0, special: 0, link: String::new() }
}

pub struct GenOpts {
    pub names: NameOpts,
    pub shape: Shape,
    pub max_len: u64,
}

pub fn pick_shape(r: &mut Rng) -> Shape {
    match r.below(100) {
        0..=34 => Shape::Tiny,
        35..=69 => Shape::Small,
        70..=79 => Shape::Wide,
        80..=86 => Shape::Deep,
        87..=95 => Shape::Boundary,
        _ => Shape::BigFiles,
    }
}

pub fn gen_tree(r: &mut Rng, o: &GenOpts) -> Tree {
    let mut t: Tree = vec![];
    let mut used: BTreeSet<String> = BTreeSet::new();
    let mut dirs: Vec<String> = vec![String::new()];
    // now and then a name is made from one that is already there
    let related = |r: &mut Rng, t: &Tree, o: &NameOpts| -> String {
        if t.is_empty() || !r.chance(1, 7) {
            return gen_name(r, o);
        }
        let e = &r.pick(t).path;
        let base = e.rsplit('/').next().unwrap().to_string();
        let n = match r.below(6) {
            0 => format!("{}.{}", base, r.pick(&["bin", "x", "txt"])),
            1 => format!("{}{}", base, (b'a' + r.below(26) as u8) as char),
            2 => base.split('.').next().unwrap().to_string(),
            3 => base.chars().take(base.chars().count() - 1).collect(),
            4 => format!("{}{}", (b'a' + r.below(26) as u8) as char, base),
            _ => base.clone(),
        };
        if n.is_empty() || n.len() > 255 || n == "." || n == ".." || n.starts_with('-') {
            return gen_name(r, o);
        }
        n
    };
    let mut add = |r: &mut Rng, t: &mut Tree, dirs: &mut Vec<String>, parent: &str, name: String, dir: bool, max: u64| {
        let path = if parent.is_empty() { name } else { format!("{}/{}", parent, name) };
        if path.len() > 1500 || !used.insert(fold(&path)) {
            return false;
        }
        if dir {
            dirs.push(path.clone());
            t.push(dent(path));
        } else {
            t.push(gen_file(r, path, max));
        }
        true
    };
    match o.shape {
        Shape::Tiny | Shape::Small | Shape::BigFiles => {
            let n = match o.shape {
                Shape::Tiny => r.range(0, 5),
                Shape::Small => r.range(4, 25),
                _ => r.range(1, 6),
            };
            for _ in 0..n {
                let d = r.pick(&dirs).clone();
                let name = related(r, &t, &o.names);
                let isdir = r.chance(3, 10);
                add(r, &mut t, &mut dirs, &d, name, isdir, o.max_len);
            }
            if o.shape == Shape::BigFiles {
                for e in t.iter_mut().filter(|e| !e.dir).take(2) {
                    e.len = match r.below(5) {
                        0 => (1 << 20) + r.range(0, 4096) - 2048,
                        1 => *r.pick(&[1u64 << 20, (1 << 20) - 1, (1 << 20) + 1, 2 << 20, (2 << 20) + 1]),
                        2 => r.range(1 << 20, 5 << 20),
                        3 => (1 << 16) * r.range(10, 40),
                        _ => r.range(500_000, 1_500_000),
                    };
                    if e.style != ST_MIXED && e.style != ST_MAGIC {
                        e.style = ST_RANDOM;
                    }
                }
            }
        }
        Shape::Wide => {
            let n = r.range(40, 260);
            let at = if r.chance(1, 3) {
                let name = gen_name(r, &o.names);
                add(r, &mut t, &mut dirs, "", name, true, 0);
                dirs.last().unwrap().clone()
            } else {
                String::new()
            };
            let uniform = r.chance(1, 3);
            for i in 0..n {
                let name = if uniform {
                    format!("{}{:04}", if i % 2 == 0 { "f" } else { "F" }, mix2(o.max_len, i) % 9000)
                } else {
                    related(r, &t, &o.names)
                };
                let isdir = r.chance(1, 12);
                let max = if r.chance(1, 10) { 5000 } else { 40 };
                add(r, &mut t, &mut dirs, &at, name, isdir, max);
            }
        }
        Shape::Deep => {
            let mut cur = String::new();
            for _ in 0..r.range(5, 40) {
                let name = gen_name(r, &NameOpts { long: false, ..o.names });
                if add(r, &mut t, &mut dirs, &cur, name, true, 0) {
                    cur = dirs.last().unwrap().clone();
                }
                if r.chance(1, 3) {
                    let name = gen_name(r, &o.names);
                    let c = cur.clone();
                    add(r, &mut t, &mut dirs, &c, name, false, 3000);
                }
            }
        }
        Shape::Boundary => {
            // directory tables whose entries end exactly at, just before or just after a sector end
            let at = if r.chance(1, 2) {
                add(r, &mut t, &mut dirs, "", "bnd".into(), true, 0);
                "bnd".to_string()
            } else {
                String::new()
            };
            if r.chance(1, 4) {
                // entries of the smallest size fill every slot up to the last of a sector
                let n = 128 * r.range(1, 3) + r.below(3) - 1;
                for i in 0..n {
                    let a = b"abcdefghijklmnopqrstuvwxyz0123456789_~";
                    let (x, y) = (a[(i % 38) as usize] as char, a[(i / 38 % 38) as usize] as char);
                    let name = if r.chance(1, 30) { x.to_string() } else { format!("{}{}", x, y) };
                    let isdir = r.chance(1, 40);
                    add(r, &mut t, &mut dirs, &at, name, isdir, 10);
                }
                return t;
            }
            let sectors = r.range(1, 3);
            let target = 2048 * sectors as i64 + *r.pick(&[-20i64, -16, -12, -8, -4, 0, 0, 4, 8, 12, 16, 20]);
            let mut used_b: i64 = 0;
            let mut i = 0;
            while used_b < target && i < 400 {
                let left = target - used_b;
                let want = if left <= 40 { left.max(16) } else { r.range(16, 60.min(left as u64 - 16)) as i64 };
                let nl = (want - 14).clamp(1, 200) as usize;
                let base = format!("{}{}", (b'a' + (mix2(left as u64, i) % 26) as u8) as char, i);
                let mut name = base.clone();
                while name.len() < nl {
                    name.push((b'a' + r.below(26) as u8) as char);
                }
                if name.len() > nl && nl >= 3 {
                    name.truncate(nl);
                }
                let sz = ((14 + name.len() + 3) / 4 * 4) as i64;
                let isdir = r.chance(1, 15);
                if add(r, &mut t, &mut dirs, &at, name, isdir, 10) {
                    used_b += sz;
                }
                i += 1;
            }
        }
        Shape::Huge => {
            let n = r.range(2500, 6000);
            for i in 0..n {
                let name = format!("n{:05}{}", mix2(o.max_len ^ 5, i) % 100_000, if r.chance(1, 3) { "_some_longer_tail_of_name" } else { "" });
                add(r, &mut t, &mut dirs, "", name, false, 3);
            }
        }
    }
    // identical files now and then
    if t.len() > 2 && r.chance(1, 5) {
        let files: Vec<usize> = (0..t.len()).filter(|i| !t[*i].dir).collect();
        if files.len() >= 2 {
            let (a, b) = (*r.pick(&files), *r.pick(&files));
            let (l, s, st) = (t[a].len, t[a].seed, t[a].style);
            t[b].len = l;
            t[b].seed = s;
            t[b].style = st;
        }
    }
    t
}
