//! Independent XDVDFS reader/validator, and a builder of foreign (but valid) images.
use crate::simfmt::*;
use crate::tree::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const SECT: u64 = 2048;
pub const MAGIC: &[u8; 20] = b"MICROSOFT*XBOX*MEDIA";
pub const PARTS: [u64; 4] = [0, 34078720, 265879552, 405798912];

pub struct PEnt {
    pub path: String,
    pub dir: bool,
    pub sector: u32,
    pub size: u32,
    pub attr: u8,
    pub off: u64, // absolute offset of the entry inside the partition
    pub left: u16,
    pub right: u16,
}
pub struct Parsed {
    pub ents: Vec<PEnt>,
    pub model: Model,
    pub root: (u32, u32),
}

pub fn is_volume_at(img: &FileData, part: u64) -> bool {
    let mut b = [0u8; 2048];
    if img.read_at(part + 32 * SECT, &mut b) != 2048 {
        return false;
    }
    &b[..20] == MAGIC && &b[2028..] == MAGIC
}
pub fn recognised(img: &FileData) -> Option<u64> {
    PARTS.iter().copied().find(|p| is_volume_at(img, *p))
}

pub fn slice(img: &FileData, off: u64, len: u64) -> FileData {
    let mut f = FileData { len, pages: BTreeMap::new() };
    if len == 0 {
        return f;
    }
    // copy only pages that exist
    let (a, b) = (off / PAGE as u64, (off + len - 1) / PAGE as u64);
    let keys: Vec<u64> = img.pages.range(a..=b).map(|(k, _)| *k).collect();
    for k in keys {
        let ps = (k * PAGE as u64).max(off);
        let pe = ((k + 1) * PAGE as u64).min(off + len).min(img.len);
        if ps >= pe {
            continue;
        }
        let p = &img.pages[&k];
        let s = (ps - k * PAGE as u64) as usize;
        f.write_at(ps - off, &p[s..s + (pe - ps) as usize]);
    }
    f.len = len;
    f
}

struct Raw {
    left: u16,
    right: u16,
    sector: u32,
    size: u32,
    attr: u8,
    name: Vec<u8>,
}
fn entry(tab: &[u8], off: usize) -> Option<Raw> {
    if off + 14 > tab.len() {
        return None;
    }
    let b = &tab[off..];
    let nl = b[13] as usize;
    if off + 14 + nl > tab.len() {
        return None;
    }
    Some(Raw {
        left: u16::from_le_bytes([b[0], b[1]]),
        right: u16::from_le_bytes([b[2], b[3]]),
        sector: u32::from_le_bytes(b[4..8].try_into().unwrap()),
        size: u32::from_le_bytes(b[8..12].try_into().unwrap()),
        attr: b[12],
        name: b[14..14 + nl].to_vec(),
    })
}
fn blank(b: &[u8]) -> bool {
    b.iter().all(|x| *x == 0xff) || b.iter().all(|x| *x == 0)
}

pub fn parse_strict(img: &FileData) -> Result<Parsed, String> {
    parse(img, true)
}
/// Reads a volume written by the system under test; with `strict`, also validates every
/// structural rule (otherwise only what is needed to find the files).
pub fn parse(img: &FileData, strict: bool) -> Result<Parsed, String> {
    if !is_volume_at(img, 0) {
        return Err("sector 32 holds no valid volume descriptor".into());
    }
    if strict && img.len % 65536 != 0 {
        return Err(format!("image length {} is not a multiple of 32 sectors", img.len));
    }
    let mut d = [0u8; 2048];
    img.read_at(32 * SECT, &mut d);
    let root = (
        u32::from_le_bytes(d[20..24].try_into().unwrap()),
        u32::from_le_bytes(d[24..28].try_into().unwrap()),
    );
    let mut out = Parsed { ents: vec![], model: Model::new(), root };
    let mut extents: Vec<(u64, u64, String)> = vec![];
    let mut stack: Vec<(String, u32, u32)> = vec![(String::new(), root.0, root.1)];
    let mut count = 0usize;
    while let Some((dir, sector, size)) = stack.pop() {
        count += 1;
        if count > 200_000 {
            return Err("directory structure does not end".into());
        }
        let disp = if dir.is_empty() { "/".to_string() } else { dir.clone() };
        if size == 0 {
            continue;
        }
        let sectors = (size as u64).div_ceil(SECT);
        if size > 64 << 20 {
            return Err(format!("directory {:?} has an absurd table size {}", disp, size));
        }
        extents.push((sector as u64, sectors, format!("table of {:?}", disp)));
        if (sector as u64 + sectors) * SECT > img.len {
            return Err(format!("table of {:?} (sector {}, {} bytes) lies outside the image", disp, sector, size));
        }
        let mut tab = vec![0u8; (sectors * SECT) as usize];
        img.read_at(sector as u64 * SECT, &mut tab);
        // tree walk with bounds
        let mut seen: BTreeMap<usize, Raw> = BTreeMap::new();
        if !blank(&tab[..14]) {
            let mut st: Vec<(usize, Option<String>, Option<String>)> = vec![(0, None, None)];
            while let Some((o, lo, hi)) = st.pop() {
                let Some(e) = entry(&tab, o) else {
                    return Err(format!("directory {:?}: entry at {} runs past the table", disp, o));
                };
                if o >= size as usize || o + 14 + e.name.len() > size as usize {
                    return Err(format!("directory {:?}: entry at {} lies beyond the table size {}", disp, o, size));
                }
                if e.name.is_empty() {
                    return Err(format!("directory {:?}: entry at {} has an empty name", disp, o));
                }
                if strict && o / 2048 != (o + 14 + e.name.len() - 1) / 2048 {
                    return Err(format!("directory {:?}: entry at {} crosses a sector boundary", disp, o));
                }
                let name = decode_name(&e.name);
                if let Some(l) = lo.as_ref().filter(|_| strict) {
                    if cmp_names(l, &name) != std::cmp::Ordering::Less {
                        return Err(format!("directory {:?}: {:?} is not ordered after {:?}", disp, name, l));
                    }
                }
                if let Some(h) = hi.as_ref().filter(|_| strict) {
                    if cmp_names(&name, h) != std::cmp::Ordering::Less {
                        return Err(format!("directory {:?}: {:?} is not ordered before {:?}", disp, name, h));
                    }
                }
                if seen.contains_key(&o) {
                    return Err(format!("directory {:?}: entry at {} is reached twice", disp, o));
                }
                if e.left != 0 {
                    st.push((e.left as usize * 4, lo.clone(), Some(name.clone())));
                }
                if e.right != 0 {
                    st.push((e.right as usize * 4, Some(name.clone()), hi.clone()));
                }
                seen.insert(o, e);
            }
        }
        // linear scan
        let mut scan: BTreeSet<usize> = BTreeSet::new();
        for s in 0..if strict { sectors as usize } else { 0 } {
            let mut o = s * 2048;
            let end = (s + 1) * 2048;
            while o + 14 <= end {
                if blank(&tab[o..o + 14]) {
                    break;
                }
                let Some(e) = entry(&tab[..end], o) else {
                    return Err(format!("directory {:?}: a linear scan finds a broken entry at {}", disp, o));
                };
                scan.insert(o);
                o += (14 + e.name.len()).div_ceil(4) * 4;
            }
        }
        let tset: BTreeSet<usize> = seen.keys().copied().collect();
        if strict && tset != scan {
            let miss: Vec<_> = tset.symmetric_difference(&scan).take(3).collect();
            return Err(format!(
                "directory {:?}: tree walk finds {} entries, linear scan {} (differing at {:?})",
                disp,
                tset.len(),
                scan.len(),
                miss
            ));
        }
        for (o, e) in seen {
            let name = decode_name(&e.name);
            if name.contains('/') || name == "." || name == ".." {
                return Err(format!("directory {:?} contains an entry named {:?}", disp, name));
            }
            let path = if dir.is_empty() { name.clone() } else { format!("{}/{}", dir, name) };
            let is_dir = e.attr & 0x10 != 0;
            let secs = (e.size as u64).div_ceil(SECT);
            if is_dir {
                out.model.insert(path.clone(), None);
                stack.push((path.clone(), e.sector, e.size));
            } else {
                if e.size > 0 {
                    if e.sector as u64 * SECT + e.size as u64 > img.len {
                        return Err(format!("file {:?} (sector {}, {} bytes) lies outside the image of {} bytes", path, e.sector, e.size, img.len));
                    }
                    extents.push((e.sector as u64, secs, format!("file {:?}", path)));
                }
                let data = slice(img, e.sector as u64 * SECT, e.size as u64);
                out.model.insert(path.clone(), Some(Arc::new(data)));
            }
            out.ents.push(PEnt {
                path,
                dir: is_dir,
                sector: e.sector,
                size: e.size,
                attr: e.attr,
                off: sector as u64 * SECT + o as u64,
                left: e.left,
                right: e.right,
            });
        }
    }
    if !strict {
        return Ok(out);
    }
    extents.sort();
    for w in extents.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 {
            return Err(format!("{} and {} overlap", w[0].2, w[1].2));
        }
    }
    for (s, _, what) in &extents {
        if *s < 33 {
            return Err(format!("{} starts at sector {}, before the end of the volume descriptor", what, s));
        }
    }
    Ok(out)
}

// ------------------------------------------------------------------ builder
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq, Eq)]
pub struct ImgOpts {
    pub part: u8,      // index into PARTS
    pub shape: u8,     // 0 balanced, 1 right chain, 2 left chain, 3 random search tree
    pub pad: u8,       // 0: 0xff, 1: 0x00
    pub gaps: u8,      // 0 none, else random gaps up to that many sectors
    pub shuffle: bool, // extents in random order
    pub share: bool,   // identical files share their extent
    pub attrs: bool,   // random attribute bits
    pub empty_dir: u8, // 0: 2048 bytes blank, 1: size 0
    pub end: u8,       // 0: padded to 64k, 1: ends with the last sector, 2: ends with the last byte, 3: junk after the end
    pub nochild_ffff: bool,
    pub round_root: bool,
    pub exact_dirs: bool, // subdirectory sizes not rounded up
    pub low: bool,     // some files in sectors below the descriptor
    #[serde(default)]
    pub decoy: u8, // 1: almost-descriptors at other partition offsets, 2: another volume at offsets tried later
    #[serde(default)]
    pub far: u8, // some extents lie gigabytes behind the others
    #[serde(default)]
    pub slack: u8, // unused sectors at the end of directory tables
    pub seed: u64,
}

pub fn gen_img(r: &mut Rng, big_parts: bool) -> ImgOpts {
    ImgOpts {
        part: if big_parts { *r.pick(&[0u8, 0, 0, 1, 2, 3]) } else { 0 },
        shape: r.below(4) as u8,
        pad: r.below(2) as u8,
        gaps: *r.pick(&[0u8, 0, 1, 5, 40]),
        shuffle: r.chance(1, 2),
        share: r.chance(1, 3),
        attrs: r.chance(1, 2),
        empty_dir: r.below(2) as u8,
        end: r.below(4) as u8,
        nochild_ffff: r.chance(1, 6),
        round_root: r.chance(1, 2),
        exact_dirs: r.chance(1, 3),
        low: r.chance(1, 8),
        decoy: if big_parts { *r.pick(&[0u8, 0, 0, 1, 2]) } else { 0 },
        slack: *r.pick(&[0u8, 0, 0, 0, 1, 2]),
        far: 0,
        seed: r.next() >> 16,
    }
}

pub struct Built {
    pub img: FileData,
    pub part: u64,
    /// path ("" = root) -> (sector, size) of every file and table
    pub ext: BTreeMap<String, (u32, u32)>,
    /// path -> absolute offset (in the file) of its directory entry, left, right, attr
    pub ent: BTreeMap<String, (u64, u16, u16, u8)>,
    /// first byte after the last extent
    pub used_end: u64,
}

fn table_shape(names: &[String], shape: u8, r: &mut Rng) -> (Vec<usize>, Vec<(Option<usize>, Option<usize>)>) {
    // names sorted; returns order of entries in the table (root first) and children by index
    let n = names.len();
    let mut ch: Vec<(Option<usize>, Option<usize>)> = vec![(None, None); n];
    fn build(lo: usize, hi: usize, shape: u8, r: &mut Rng, ch: &mut [(Option<usize>, Option<usize>)], depth: u32) -> Option<usize> {
        if lo >= hi {
            return None;
        }
        let m = match shape {
            0 => (lo + hi) / 2,
            1 if depth < 300 => lo,
            2 if depth < 300 => hi - 1,
            3 => lo + r.below((hi - lo) as u64) as usize,
            _ => (lo + hi) / 2,
        };
        let l = build(lo, m, shape, r, ch, depth + 1);
        let rr = build(m + 1, hi, shape, r, ch, depth + 1);
        ch[m] = (l, rr);
        Some(m)
    }
    let root = build(0, n, shape, r, &mut ch, 0);
    let mut order = vec![];
    if let Some(root) = root {
        let mut st = vec![root];
        while let Some(x) = st.pop() {
            order.push(x);
            if let Some(c) = ch[x].1 {
                st.push(c);
            }
            if let Some(c) = ch[x].0 {
                st.push(c);
            }
        }
        if r.chance(1, 3) {
            // any order of the other entries is legal
            let mut rest = order.split_off(1);
            r.shuffle(&mut rest);
            order.extend(rest);
        }
    }
    (order, ch)
}

pub fn build_image(t: &Tree, o: &ImgOpts) -> Built {
    let mut r = Rng::new(o.seed ^ 0xABCD);
    let m = model(t);
    let part = PARTS[o.part as usize % 4];
    // children per directory
    let mut kids: BTreeMap<String, Vec<String>> = BTreeMap::new();
    kids.insert(String::new(), vec![]);
    for (p, v) in &m {
        let (d, _) = p.rsplit_once('/').unwrap_or(("", p));
        kids.entry(d.to_string()).or_default().push(p.clone());
        if v.is_none() {
            kids.entry(p.clone()).or_default();
        }
    }
    let base = |p: &str| p.rsplit_once('/').map(|x| x.1).unwrap_or(p).to_string();
    // table layouts
    struct Tab {
        order: Vec<usize>,
        offs: Vec<u64>,
        ch: Vec<(Option<usize>, Option<usize>)>,
        paths: Vec<String>,
        size: u64,
    }
    let mut tabs: BTreeMap<String, Tab> = BTreeMap::new();
    for (d, k) in &kids {
        let mut paths = k.clone();
        paths.sort_by(|a, b| cmp_names(&base(a), &base(b)));
        let names: Vec<String> = paths.iter().map(|p| base(p)).collect();
        let (order, ch) = table_shape(&names, o.shape, &mut r);
        let mut offs = vec![0u64; names.len()];
        let mut pos = 0u64;
        for i in &order {
            let len = 14 + encodable(&names[*i]).expect("encodable name").len() as u64;
            if pos / SECT != (pos + len - 1) / SECT {
                pos = pos.div_ceil(SECT) * SECT;
            }
            offs[*i] = pos;
            pos += len.div_ceil(4) * 4;
        }
        tabs.insert(d.clone(), Tab { order, offs, ch, paths, size: pos });
    }
    // allocate extents
    #[derive(Clone)]
    enum X {
        Tab(String),
        File(String),
    }
    let mut items: Vec<X> = vec![];
    for d in kids.keys() {
        items.push(X::Tab(d.clone()));
    }
    for (p, v) in &m {
        if v.is_some() {
            items.push(X::File(p.clone()));
        }
    }
    if o.shuffle {
        r.shuffle(&mut items);
    }
    let mut ext: BTreeMap<String, (u32, u32)> = BTreeMap::new();
    let mut next = 33u64;
    let mut low = 0u64;
    let mut end_byte = 33 * SECT;
    let mut shared: Vec<(Arc<FileData>, u32)> = vec![];
    let mut far = o.far;
    for it in &items {
        if far > 0 && r.chance(1, 3) {
            far -= 1;
            next += [1 << 19, (1 << 20) - 40, 1 << 21, (1 << 21) + 77][(mix2(o.seed, far as u64) % 4) as usize];
        }
        if o.gaps > 0 {
            next += r.below(o.gaps as u64 + 1);
        }
        match it {
            X::Tab(d) => {
                let tb = &tabs[d];
                let mut size = tb.size;
                if size == 0 {
                    if o.empty_dir == 1 {
                        ext.insert(d.clone(), (if r.chance(1, 2) { 0 } else { next as u32 }, 0));
                        continue;
                    }
                    size = SECT;
                } else if (d.is_empty() && o.round_root) || (!d.is_empty() && !o.exact_dirs) {
                    size = size.div_ceil(SECT) * SECT;
                }
                if o.slack > 0 && r.chance(1, 2) {
                    size = size.div_ceil(SECT) * SECT + o.slack as u64 * SECT;
                }
                ext.insert(d.clone(), (next as u32, size as u32));
                next += size.div_ceil(SECT);
                end_byte = end_byte.max(next * SECT);
            }
            X::File(p) => {
                let f = m[p].clone().unwrap();
                if f.len == 0 {
                    let s = match r.below(3) {
                        0 => 0,
                        1 => next,
                        _ => 33,
                    };
                    ext.insert(p.clone(), (s as u32, 0));
                    continue;
                }
                if o.share {
                    if let Some((_, s)) = shared.iter().find(|(g, _)| **g == *f) {
                        ext.insert(p.clone(), (*s, f.len as u32));
                        continue;
                    }
                }
                let secs = f.len.div_ceil(SECT);
                let s = if o.low && low + secs <= 32 {
                    low += secs;
                    low - secs
                } else {
                    next += secs;
                    next - secs
                };
                shared.push((f.clone(), s as u32));
                ext.insert(p.clone(), (s as u32, f.len as u32));
                end_byte = end_byte.max(s * SECT + f.len);
            }
        }
    }
    // emit
    let mut img = FileData::default();
    let junk = |img: &mut FileData, off: u64, n: u64, seed: u64| {
        let mut b = vec![0u8; n as usize];
        for (k, c) in b.chunks_mut(8).enumerate() {
            let w = mix2(seed, k as u64).to_le_bytes();
            let l = c.len();
            c.copy_from_slice(&w[..l]);
        }
        img.write_at(off, &b);
    };
    if part > 0 {
        junk(&mut img, part - 4096, 4096, o.seed ^ 9);
        junk(&mut img, 0, 4096, o.seed ^ 10);
    }
    if o.gaps > 0 {
        // stale data in the gaps
        junk(&mut img, part + 33 * SECT, (next - 33).min(200) * SECT, o.seed ^ 11);
    }
    let mut d = vec![0u8; 2048];
    if o.attrs {
        for (i, x) in d.iter_mut().enumerate() {
            *x = mix2(o.seed, i as u64) as u8;
        }
    }
    d[..20].copy_from_slice(MAGIC);
    d[2028..].copy_from_slice(MAGIC);
    d[20..24].copy_from_slice(&ext[""].0.to_le_bytes());
    d[24..28].copy_from_slice(&ext[""].1.to_le_bytes());
    img.write_at(part + 32 * SECT, &d);
    let mut ent = BTreeMap::new();
    for (dir, tb) in &tabs {
        let (s, size) = ext[dir];
        if size == 0 {
            continue;
        }
        let padb = if o.pad == 0 { 0xff } else { 0x00 };
        let mut tab = vec![padb; (size as u64).div_ceil(SECT) as usize * 2048];
        for i in &tb.order {
            let p = &tb.paths[*i];
            let name = encodable(&base(p)).unwrap();
            let off = tb.offs[*i] as usize;
            let none = if o.nochild_ffff { 0xffffu16 } else { 0 };
            let child = |c: Option<usize>| c.map(|c| (tb.offs[c] / 4) as u16).unwrap_or(none);
            let (l, rr) = (child(tb.ch[*i].0), child(tb.ch[*i].1));
            let isdir = m[p].is_none();
            let mut attr = if isdir { 0x10 } else { 0x20 };
            if o.attrs {
                attr = (mix2(o.seed, off as u64) as u8 & 0xa7) | if isdir { 0x10 } else { 0 };
            }
            let (es, esz) = ext[p];
            let b = &mut tab[off..];
            b[0..2].copy_from_slice(&l.to_le_bytes());
            b[2..4].copy_from_slice(&rr.to_le_bytes());
            b[4..8].copy_from_slice(&es.to_le_bytes());
            b[8..12].copy_from_slice(&esz.to_le_bytes());
            b[12] = attr;
            b[13] = name.len() as u8;
            b[14..14 + name.len()].copy_from_slice(&name);
            ent.insert(p.clone(), (s as u64 * SECT + off as u64, l, rr, attr));
        }
        img.write_at(part + s as u64 * SECT, &tab);
    }
    for (p, v) in &m {
        if let Some(f) = v {
            let (s, _) = ext[p];
            let basep = part + s as u64 * SECT;
            for (k, pg) in &f.pages {
                let o = k * PAGE as u64;
                let n = (f.len - o).min(PAGE as u64) as usize;
                img.write_at(basep + o, &pg[..n]);
            }
            // pages that are absent must read as zeros: clear junk from gaps
            if o.gaps > 0 {
                let mut q = 0;
                while q < f.len {
                    if !f.pages.contains_key(&(q / PAGE as u64)) {
                        let n = (f.len - q).min(PAGE as u64);
                        if basep + q < part + (33 + 200) * SECT {
                            img.write_at(basep + q, &vec![0u8; n as usize]);
                        }
                    }
                    q += PAGE as u64;
                }
            }
        }
    }
    let used_end = part + end_byte;
    let want_len = match o.end {
        0 => part + end_byte.div_ceil(65536) * 65536,
        1 => part + end_byte.div_ceil(SECT) * SECT,
        2 => used_end,
        _ => {
            let e = part + end_byte.div_ceil(SECT) * SECT;
            junk(&mut img, e, 6000, o.seed ^ 12);
            e + 6000
        }
    };
    img.truncate(want_len);
    if o.decoy > 0 {
        decoys(&mut img, o, want_len);
    }
    Built { img, part, ext, ent, used_end }
}

/// Things that are not the volume: descriptors with one wrong magic anywhere, or (decoy 2) a complete
/// other volume at an offset that is only tried when the real one is not recognised.
fn decoys(img: &mut FileData, o: &ImgOpts, end: u64) {
    let me = o.part as usize % 4;
    let part = PARTS[me];
    for (k, q) in PARTS.iter().copied().enumerate() {
        if k == me || (q < end && q + 36 * SECT > part) {
            continue;
        }
        let r = mix2(o.seed ^ 77, k as u64);
        let mut d = vec![0u8; 2048];
        d[..20].copy_from_slice(MAGIC);
        d[2028..].copy_from_slice(MAGIC);
        d[20..24].copy_from_slice(&33u32.to_le_bytes());
        d[24..28].copy_from_slice(&2048u32.to_le_bytes());
        if o.decoy == 1 || k < me {
            match r % 3 {
                0 => d[(r >> 8) as usize % 20] ^= 1 << ((r >> 16) % 8),
                1 => d[2028 + (r >> 8) as usize % 20] ^= 1 << ((r >> 16) % 8),
                _ => continue,
            }
        }
        img.write_at(q + 32 * SECT, &d);
        let mut t = vec![0xffu8; 2048];
        t[..14].copy_from_slice(&[0, 0, 0, 0, 34, 0, 0, 0, 5, 0, 0, 0, 0x20, 9]);
        t[14..23].copy_from_slice(b"decoy.bin");
        img.write_at(q + 33 * SECT, &t);
        img.write_at(q + 34 * SECT, b"decoy");
        img.write_at(q + 35 * SECT + 2047, &[0]);
    }
}

/// Bytes that the entries of a possibly damaged image announce together, as far as a walk that
/// tolerates everything finds them.
pub fn announced(img: &FileData) -> u64 {
    let u = |off: u64, n: usize| -> u64 {
        let mut b = [0u8; 8];
        if off + n as u64 <= img.len {
            img.read_at(off, &mut b[..n]);
        }
        u64::from_le_bytes(b)
    };
    let mut sum = 0u64;
    for part in PARTS {
        let vd = part + 0x10000;
        let mut tables = vec![(u(vd + 20, 4), u(vd + 24, 4))];
        let mut seen = std::collections::BTreeSet::new();
        while let Some((sec, size)) = tables.pop() {
            let mut offs = vec![0u64];
            while let Some(o) = offs.pop() {
                let at = part + sec * 2048 + o * 4;
                if o * 4 >= size.max(4) || at + 14 > img.len || !seen.insert(at) || seen.len() > 200_000 {
                    continue;
                }
                offs.push(u(at, 2));
                offs.push(u(at + 2, 2));
                let e = (u(at + 4, 4), u(at + 8, 4));
                if u(at + 12, 1) & 0x10 != 0 {
                    tables.push(e);
                } else {
                    sum += e.1;
                }
            }
        }
    }
    sum
}
