//! Process-level runs of the commands that read images.
use crate::image::*;
use crate::run::*;
use crate::scn::*;
use crate::simfmt::*;
use crate::tree::*;
use crate::wcmd::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn is_extract(v: &str) -> bool {
    matches!(v, "unpack" | "unpack-default" | "exiso-x" | "exiso-x-d" | "exiso-none" | "copyout-file" | "copyout-dir" | "copyout-root" | "desk-unpack" | "web-unpack")
}

/// Another spelling of an image path: ASCII case and redundant slashes.
pub fn respell(path: &str, seed: u64) -> String {
    if seed == 0 {
        return format!("/{}", path);
    }
    let mut r = Rng::new(seed);
    let mut s = String::new();
    if r.chance(3, 4) {
        s.push('/');
        if r.chance(1, 4) {
            s.push('/');
        }
    }
    for c in path.chars() {
        if c == '/' {
            s.push('/');
            if r.chance(1, 4) {
                s.push('/');
            }
        } else if c.is_ascii_alphabetic() && r.chance(1, 2) {
            s.push(if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() });
        } else {
            s.push(c);
        }
    }
    if r.chance(1, 4) {
        s.push('/');
    }
    if s.starts_with('-') {
        s.insert(0, '/');
    }
    s
}

pub fn subtree(m: &Model, dir: &str) -> Model {
    if dir.is_empty() {
        return m.clone();
    }
    let pre = format!("{}/", dir);
    m.iter().filter_map(|(k, v)| k.strip_prefix(&pre).map(|r| (r.to_string(), v.clone()))).collect()
}
pub fn children(m: &Model, dir: &str) -> Vec<String> {
    subtree(m, dir).keys().filter(|k| !k.contains('/')).cloned().collect()
}

pub struct XSetup {
    pub argv: Vec<Vec<u8>>,
    pub nodes: Vec<FsNode>,
    pub img_path: String,
    pub dest: String,
    /// expected tree under `dest`, or the file at `dest`
    pub expect: Model,
    pub single: Option<Arc<FileData>>,
    pub what: String,
    pub built: Built,
}

pub fn xsetup(s: &Scn) -> XSetup {
    let built = build_image(&s.tree, s.img.as_ref().unwrap_or(&ImgOpts::default()));
    let m = model(&s.tree);
    let img_path = "/i/game.iso".to_string();
    let mut nodes = vec![dir_node("/w"), dir_node("/i"), file_node(&img_path, built.img.clone())];
    let sel = s.str("sel").to_string();
    let sp = respell(&sel, s.num("spell"));
    let mut dest = "/w/out".to_string();
    let mut single = None;
    let mut expect = m.clone();
    let relarg = if s.num("rel") == 1 { "out".to_string() } else { dest.clone() };
    let mut a: Vec<String> = vec!["xdvdfs".into()];
    match s.variant.as_str() {
        "unpack" => a.extend(["unpack".into(), img_path.clone(), relarg]),
        "desk-unpack" => a = vec!["desk".into(), "unpack".into(), img_path.clone(), relarg],
        "web-unpack" => a = vec!["web".into(), "unpack".into(), img_path.clone(), dest.clone()],
        "unpack-default" => {
            dest = "/w/game".into();
            a.extend(["unpack".into(), img_path.clone()]);
        }
        "exiso-x" => {
            dest = "/w/game".into();
            a.extend(["extract-xiso".into(), "-x".into(), img_path.clone()]);
        }
        "exiso-none" => {
            dest = "/w/game".into();
            a = vec!["extract-xiso".into(), img_path.clone()];
        }
        "exiso-x-d" => a.extend(["extract-xiso".into(), "-d".into(), relarg, "-x".into(), img_path.clone()]),
        "copyout-root" => {
            let root = ["/", "//", "///"][(s.num("spell") % 3) as usize];
            a.extend(["copy-out".into(), img_path.clone(), root.into(), relarg]);
        }
        "copyout-dir" => {
            expect = subtree(&m, &sel);
            a.extend(["copy-out".into(), img_path.clone(), sp, relarg]);
        }
        "copyout-file" => {
            expect = Model::new();
            single = m.get(&sel).cloned().flatten();
            a.extend(["copy-out".into(), img_path.clone(), sp, relarg]);
        }
        v => panic!("unknown variant {}", v),
    }
    if s.num("pre") == 1 {
        // files of the same names, with longer contents, are already there
        let junk = FileData::from_bytes(&vec![0xEE; 150_000]);
        if single.is_some() {
            nodes.push(file_node(&dest, junk));
        } else {
            nodes.push(dir_node(&dest));
            for (k, v) in &expect {
                if !k.contains('/') && v.is_some() {
                    nodes.push(FsNode { path: os_bytes(&format!("{}/{}", dest, k)), kind: NodeKind::File(junk.clone()), dirty: false, ino: 0 });
                }
            }
        }
    }
    if s.variant == "web-unpack" {
        nodes.retain(|n| !n.path.starts_with(b"/w/out"));
        nodes.push(dir_node(&dest));
        // entries of the same names may be there at any depth
        for (k, v) in expect.iter().filter(|_| s.num("pre") == 1) {
            let kind = if v.is_some() { NodeKind::File(FileData::from_bytes(&vec![0xEE; 150_000])) } else { NodeKind::Dir };
            nodes.push(FsNode { path: os_bytes(&format!("{}/{}", dest, k)), kind, dirty: false, ino: 0 });
        }
    }
    exiso_flags(s, &mut a);
    let what = a.join(" ");
    XSetup { argv: a.iter().map(|x| os_bytes(x)).collect(), nodes, img_path, dest, expect, single, what, built }
}

/// The tree found under a host directory after the run.
pub fn host_model(inputs: &[FsNode], out: &Output, root: &str) -> Model {
    let mut m = Model::new();
    let pre = format!("{}/", root);
    for n in &out.nodes {
        let Some(rel) = n.path.strip_prefix(pre.as_bytes()) else { continue };
        let rel = String::from_utf8_lossy(rel).into_owned();
        match &n.kind {
            NodeKind::Dir => {
                m.insert(rel, None);
            }
            NodeKind::File(f) => {
                let f = if n.dirty || n.ino > inputs.len() as u64 {
                    f.clone()
                } else {
                    match &inputs[n.ino as usize - 1].kind {
                        NodeKind::File(f) => f.clone(),
                        _ => FileData::default(),
                    }
                };
                m.insert(rel, Some(Arc::new(f)));
            }
            _ => {
                m.insert(rel, Some(Arc::new(FileData::from_bytes(b"not a regular file"))));
            }
        }
    }
    m
}

pub fn check_extracted(x: &XSetup, out: &Output) -> Result<(), String> {
    if let Some(f) = &x.single {
        let got = file_after(&x.nodes, out, &x.dest).ok_or("the destination file is missing")?;
        return same_data(f, &got);
    }
    let got = host_model(&x.nodes, out, &x.dest);
    match diff(&x.expect, &got) {
        None => Ok(()),
        Some(d) => Err(d),
    }
}

pub fn exec_c04(cx: &Cx, s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let x = xsetup(s);
    let cfg = s.config();
    let Some(p) = proc(cx, &mut o, &cfg, bin(s), &x.argv, &x.nodes, true) else { return o };
    o.nontrivial = !x.expect.is_empty() || x.single.is_some();
    if let Some(b) = bad_end(&p) {
        o.fail(format!("`{}` {}", x.what, b));
        return o;
    }
    if p.code != 0 {
        o.fail(format!("`{}` fails on a valid image (exit {}): {}", x.what, p.code, txt(&p.stderr)));
        return o;
    }
    let Some(out) = &p.out else { return o };
    if let Err(e) = check_extracted(&x, out) {
        o.fail(format!("`{}` reports success, but: {}", x.what, e));
        return o;
    }
    if let Some(e) = unchanged(&x.nodes, out, &[&x.img_path]) {
        o.fail(format!("`{}` changed the image: {}", x.what, e));
    }
    o
}
pub fn exec_extract_faulty(cx: &Cx, s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let x = xsetup(s);
    let cfg = s.config();
    let Some(p) = proc(cx, &mut o, &cfg, bin(s), &x.argv, &x.nodes, true) else { return o };
    o.nontrivial = !o.fired_list.is_empty() || s.capacity.is_some();
    if p.code == -24 || p.code == 78 {
        o.fail(format!("`{}` {}", x.what, bad_end(&p).unwrap()));
        return o;
    }
    let Some(out) = &p.out else { return o };
    if p.code != 0 {
        if p.stderr.iter().all(|c| c.is_ascii_whitespace()) && p.code > 0 && p.code != 77 && !quiet(s) {
            o.fail(format!("`{}` fails (exit {}) without any message", x.what, p.code));
        }
        return o;
    }
    if let Err(e) = check_extracted(&x, out) {
        o.fail(format!("`{}` reports success although an operation failed or the image was cut, and the output is not complete: {}", x.what, e));
    }
    o
}
pub fn exec_source_kept(cx: &Cx, s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let mut x = xsetup(s);
    // optionally let the extraction target collide with the image itself
    if s.num("collide") == 1 {
        // an image stored as /w/out/<first file> and extracted to /w/out
        let first = x.expect.iter().find(|(k, v)| !k.contains('/') && v.is_some()).map(|(k, _)| k.clone());
        if let Some(f) = first {
            let newp = if s.num("via_link") == 2 { "/i/moved.iso".to_string() } else { format!("/w/out/{}", f) };
            let inner = os_bytes(&format!("/w/out/{}", f));
            x.nodes.retain(|n| n.path != inner && n.path != b"/w/out");
            for n in x.nodes.iter_mut() {
                if n.path == b"/i/game.iso" {
                    n.path = os_bytes(&newp);
                }
            }
            x.nodes.insert(1, dir_node("/w/out"));
            let mut arg = newp.clone();
            if s.num("via_link") == 1 {
                x.nodes.push(link_node("/w/l.iso", &newp));
                arg = "/w/l.iso".into();
            }
            if s.num("via_link") == 2 {
                // what is already there under the name of an entry leads to the image
                let mut l = link_node("", &newp);
                l.path = inner;
                x.nodes.push(l);
            }
            x.img_path = newp.clone();
            let prog = txt(&x.argv[0]);
            x.argv = sv(&[&prog, "unpack", &arg, "/w/out"]);
            x.what = format!("{} unpack {} /w/out", prog, arg);
        }
    }
    let cfg = s.config();
    let Some(p) = proc(cx, &mut o, &cfg, bin(s), &x.argv, &x.nodes, true) else { return o };
    o.nontrivial = true;
    if p.code == -24 || p.code == 78 {
        o.fail(format!("`{}` {}", x.what, bad_end(&p).unwrap()));
        return o;
    }
    let Some(out) = &p.out else { return o };
    if let Some(e) = unchanged(&x.nodes, out, &[&x.img_path]) {
        o.fail(format!("`{}` (exit {}) changed the image it reads: {}", x.what, p.code, e));
    }
    o
}

// ------------------------------------------------------------------ C08
/// What reading commands must say about an image.
pub struct Truth {
    pub model: Model,
    pub ext: BTreeMap<String, (u32, u32)>,
    /// (left, right, attr)
    pub ent: BTreeMap<String, (u16, u16, u8)>,
    pub root: (u32, u32),
}
pub fn truth_of_built(t: &Tree, b: &Built) -> Truth {
    Truth {
        model: model(t),
        ext: b.ext.clone(),
        ent: b.ent.iter().map(|(k, v)| (k.clone(), (v.1, v.2, v.3))).collect(),
        root: b.ext[""],
    }
}
pub fn truth_of_parsed(p: &Parsed) -> Truth {
    Truth {
        model: p.model.clone(),
        ext: p.ents.iter().map(|e| (e.path.clone(), (e.sector, e.size))).collect(),
        ent: p.ents.iter().map(|e| (e.path.clone(), (e.left, e.right, e.attr))).collect(),
        root: p.root,
    }
}
pub fn md5(f: &FileData) -> String {
    use md5::{Digest, Md5};
    let mut h = Md5::new();
    let mut o = 0;
    let mut b = vec![0; 1 << 16];
    while o < f.len {
        let n = f.read_at(o, &mut b);
        h.update(&b[..n]);
        o += n as u64;
    }
    h.finalize().iter().map(|x| format!("{:02x}", x)).collect()
}
fn norm_path(p: &str) -> String {
    p.split('/').filter(|c| !c.is_empty()).collect::<Vec<_>>().join("/")
}
fn sorted_lines(b: &[u8]) -> Vec<String> {
    let mut v: Vec<String> = String::from_utf8_lossy(b).lines().map(|l| l.to_string()).collect();
    v.sort();
    v
}
fn first_diff(w: &[String], g: &[String]) -> String {
    let a = w.iter().find(|x| !g.contains(x));
    let b = g.iter().find(|x| !w.contains(x));
    format!("expected {} lines, got {}; missing {:?}, unexpected {:?}", w.len(), g.len(), a, b)
}

/// One query: "cmd|path|spell". Returns argv and a judge.
pub fn query_argv(img: &str, q: &str) -> Vec<Vec<u8>> {
    let mut it = q.split('|');
    let cmd = it.next().unwrap();
    let path = it.next().unwrap_or("");
    let spell: u64 = it.next().unwrap_or("0").parse().unwrap();
    let sp = respell(path, spell);
    let v: Vec<String> = match cmd {
        "ls" => {
            if path.is_empty() && spell % 2 == 0 {
                vec!["ls".into(), img.into()]
            } else {
                vec!["ls".into(), img.into(), sp]
            }
        }
        "scan" => {
            if spell % 2 == 0 {
                vec!["ls".into(), "-s".into(), img.into(), sp]
            } else {
                vec!["ls".into(), "--scan".into(), img.into(), sp]
            }
        }
        "tree" => vec!["tree".into(), img.into()],
        "exl" => vec!["extract-xiso".into(), "-l".into(), img.into()],
        "md5all" => vec!["md5".into(), img.into()],
        "md5" => vec!["md5".into(), img.into(), sp],
        "info" => vec!["info".into(), img.into()],
        "infop" => vec!["info".into(), img.into(), sp],
        "sum" => vec!["checksum".into(), "-s".into(), img.into()],
        c => panic!("unknown query {}", c),
    };
    std::iter::once(b"xdvdfs".to_vec()).chain(v.iter().map(|x| os_bytes(x))).collect()
}

pub fn judge_query(t: &Truth, img: &str, q: &str, p: &ProcOut) -> Result<(), String> {
    let mut it = q.split('|');
    let cmd = it.next().unwrap();
    let path = it.next().unwrap_or("");
    let spell: u64 = it.next().unwrap_or("0").parse().unwrap();
    // resolve the path ignoring ASCII case
    let want = fold(path);
    let key: Option<String> = if path.is_empty() { Some(String::new()) } else { t.model.keys().find(|k| fold(k) == want).cloned() };
    let is_dir = match &key {
        Some(k) if k.is_empty() => Some(true),
        Some(k) => Some(t.model[k].is_none()),
        None => None,
    };
    let must_fail = match cmd {
        "ls" | "scan" => is_dir != Some(true),
        "md5" | "infop" => is_dir.is_none(),
        _ => false,
    };
    if let Some(b) = bad_end(p) {
        return Err(b);
    }
    if must_fail {
        if p.code == 0 {
            return Err(format!("reports success for a path that is {}", if is_dir.is_none() { "absent" } else { "not a directory" }));
        }
        return Ok(());
    }
    if cmd == "md5" && path.is_empty() {
        return Ok(()); // the root has no entry; refusing it is accepted
    }
    if p.code != 0 {
        return Err(format!("fails (exit {}): {}", p.code, txt(&p.stderr)));
    }
    let got = sorted_lines(&p.stdout);
    match cmd {
        "ls" | "scan" => {
            let mut w = children(&t.model, &key.unwrap());
            w.sort();
            if w != got {
                return Err(first_diff(&w, &got));
            }
        }
        "tree" | "exl" => {
            let mut w: Vec<String> = vec![];
            let (mut n, mut total) = (0, 0u64);
            for (k, f) in &t.model {
                match f {
                    None => w.push(format!("/{}/ (0 bytes)", k)),
                    Some(f) => {
                        w.push(format!("/{} ({} bytes)", k, f.len));
                        n += 1;
                        total += f.len;
                    }
                }
            }
            w.push(format!("{} files, {} bytes in {}", n, total, img));
            w.sort();
            if w != got {
                return Err(first_diff(&w, &got));
            }
        }
        "md5all" | "md5" => {
            let k = key.unwrap();
            let sp = respell(path, spell);
            let mut w: BTreeMap<String, String> = BTreeMap::new();
            if is_dir == Some(true) {
                for (p, f) in &subtree(&t.model, &k) {
                    if let Some(f) = f {
                        let full = if path.is_empty() { p.clone() } else { format!("{}/{}", norm_path(&sp), p) };
                        w.insert(full, md5(f));
                    }
                }
            } else {
                w.insert(norm_path(&sp), md5(t.model[&k].as_ref().unwrap()));
            }
            let mut g: BTreeMap<String, String> = BTreeMap::new();
            let dirs: std::collections::BTreeSet<String> = t.model.iter().filter(|(_, v)| v.is_none()).map(|(k, _)| fold(k)).collect();
            for l in &got {
                let Some((h, p)) = l.split_once("  ") else { return Err(format!("unexpected line {:?}", l)) };
                let np = norm_path(p);
                if dirs.contains(&fold(&np)) {
                    continue; // digests of directory entries carry no meaning
                }
                if g.insert(np.clone(), h.to_string()).is_some() {
                    return Err(format!("{:?} is listed twice", np));
                }
            }
            if w != g {
                let a: Vec<_> = w.iter().map(|(a, b)| format!("{} {}", b, a)).collect();
                let b: Vec<_> = g.iter().map(|(a, b)| format!("{} {}", b, a)).collect();
                return Err(first_diff(&a, &b));
            }
        }
        "info" => {
            let text = String::from_utf8_lossy(&p.stdout);
            let w = format!("Sector {} ({} bytes)", t.root.0, t.root.1);
            if !text.lines().any(|l| l.starts_with("Root Entry:") && l.ends_with(&w)) {
                return Err(format!("root entry is not {}: {}", w, txt(&p.stdout)));
            }
            if !text.lines().any(|l| l.starts_with("Valid:") && l.ends_with("true")) {
                return Err("the volume is not reported as valid".into());
            }
        }
        "infop" => {
            let k = key.unwrap();
            let mut w: Vec<String> = vec![];
            if !k.is_empty() {
                w.push(k.clone());
            }
            if is_dir == Some(true) {
                for c in children(&t.model, &k) {
                    w.push(if k.is_empty() { c } else { format!("{}/{}", k, c) });
                }
            }
            let text = String::from_utf8_lossy(&p.stdout).into_owned();
            let mut blocks: Vec<Vec<(String, String)>> = vec![];
            for l in text.lines() {
                let Some((a, b)) = l.split_once(':') else { continue };
                let (a, b) = (a.to_string(), b.trim_start_matches(' ').to_string());
                const FIELDS: [&str; 6] = ["Name", "Offset", "Left Child Offset", "Right Child Offset", "Data Location", "Attributes"];
                if !FIELDS.contains(&a.as_str()) || !l[a.len() + 1..].starts_with(' ') {
                    continue;
                }
                if a == "Name" {
                    blocks.push(vec![]);
                }
                if let Some(x) = blocks.last_mut() {
                    x.push((a, b));
                }
            }
            let strange = w.iter().any(|k| k.contains(':') || k.ends_with(' ') || k.starts_with(' ') || k.contains("/ "));
            if strange {
                return Ok(());
            }
            let mut ws: Vec<String> = vec![];
            let mut gs: Vec<String> = vec![];
            for k in &w {
                let name = k.rsplit('/').next().unwrap();
                let (sec, size) = t.ext[k];
                let (l, r, attr) = t.ent[k];
                let off = |x: u16| if x == 0 { "None".to_string() } else { format!("{} bytes", 4 * x as u32) };
                ws.push(format!(
                    "{} left {} right {} at Sector {} ({} bytes) dir {}",
                    name,
                    if l == 0xffff { "?".into() } else { off(l) },
                    if r == 0xffff { "?".into() } else { off(r) },
                    sec,
                    size,
                    attr & 0x10 != 0
                ));
            }
            for (i, b) in blocks.iter().enumerate() {
                let get = |n: &str| b.iter().find(|(a, _)| a == n).map(|(_, v)| v.clone()).unwrap_or_default();
                let un = |v: String| if v == format!("{} bytes", 4 * 0xffffu32) { "?".to_string() } else { v };
                let _ = i;
                gs.push(format!(
                    "{} left {} right {} at {} dir {}",
                    get("Name"),
                    un(get("Left Child Offset")),
                    un(get("Right Child Offset")),
                    get("Data Location"),
                    get("Attributes").contains("Directory")
                ));
            }
            ws.sort();
            gs.sort();
            if ws != gs {
                return Err(first_diff(&ws, &gs));
            }
        }
        "sum" => {
            let w = format!("{}\t{}", content_sum(&t.model), img);
            if got != vec![w.clone()] {
                return Err(format!("expected {:?}, got {:?}", w, got));
            }
        }
        _ => {}
    }
    Ok(())
}

/// The stream that the documented checksum covers: paths in order, each followed by its bytes.
pub fn sum_stream(m: &Model, mut f: impl FnMut(&[u8])) {
    let mut v: BTreeMap<String, &Option<Arc<FileData>>> = BTreeMap::new();
    for (k, d) in m {
        v.insert(format!("/{}", k), d);
    }
    for (k, d) in v {
        f(k.as_bytes());
        if let Some(d) = d {
            let mut o = 0;
            let mut b = vec![0; 1 << 16];
            while o < d.len {
                let n = d.read_at(o, &mut b);
                f(&b[..n]);
                o += n as u64;
            }
        }
    }
}
pub fn content_sum(m: &Model) -> String {
    use sha3::{Digest, Sha3_256};
    let mut h = Sha3_256::new();
    sum_stream(m, |b| h.update(b));
    h.finalize().iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn exec_c08(cx: &Cx, s: &Scn) -> Outcome {
    if s.variant.starts_with("lib") {
        return crate::libsim::exec_c08_lib(s);
    }
    let mut o = Outcome::default();
    let b = build_image(&s.tree, s.img.as_ref().unwrap_or(&ImgOpts::default()));
    let t = truth_of_built(&s.tree, &b);
    let img = "/w/game.iso";
    let nodes = vec![dir_node("/w"), file_node(img, b.img)];
    let mut cfg = s.config();
    o.nontrivial = !s.tree.is_empty();
    for (i, q) in s.list.iter().enumerate() {
        cfg.seed = mix2(s.seed, i as u64);
        let argv = query_argv(img, q);
        let Some(p) = proc(cx, &mut o, &cfg, bin(s), &argv, &nodes, true) else { return o };
        if let Err(e) = judge_query(&t, img, q, &p) {
            let a: Vec<String> = argv.iter().map(|x| txt(x)).collect();
            o.fail(format!("`{}`: {}", a.join(" "), e));
            return o;
        }
        if let Some(e) = p.out.as_ref().and_then(|out| unchanged(&nodes, out, &["/w"])) {
            o.fail(format!("query {}: the host was modified: {}", q, e));
            return o;
        }
    }
    o
}

// ------------------------------------------------------------------ C12
pub fn exec_c12(cx: &Cx, s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let w = wsetup(s);
    let cfg = s.config();
    let Some(p) = proc(cx, &mut o, &cfg, bin(s), &w.argv, &w.nodes, true) else { return o };
    o.nontrivial = true;
    if let Some(b) = bad_end(&p) {
        o.fail(format!("`{}` {}", w.what, b));
        return o;
    }
    if p.code != 0 {
        o.fail(format!("`{}` fails on a representable source (exit {}): {}", w.what, p.code, txt(&p.stderr)));
        return o;
    }
    let Some(out) = &p.out else { return o };
    let parsed = match check_image(&w, out, true) {
        Ok(p) => p,
        Err(e) => {
            o.fail(format!("`{}` reports success, but: {}", w.what, e));
            return o;
        }
    };
    let src: Vec<&str> = w.src.iter().map(|x| x.as_str()).collect();
    if let Some(e) = unchanged(&w.nodes, out, &src) {
        o.fail(format!("`{}` changed its source: {}", w.what, e));
        return o;
    }
    // read it back
    let v = new_files(&w.nodes, out);
    let cso = match &w.out {
        Some(p) => file_after(&w.nodes, out, p).unwrap(),
        None => match &v[0].kind {
            NodeKind::File(f) => f.clone(),
            _ => return o,
        },
    };
    if s.num("strict") == 0 && crate::cso::decode(&cso).map(|c| c.last_index_truncated).unwrap_or(false) {
        o.note = Some("last_index_truncated".into());
        return o;
    }
    read_back(cx, s, &mut o, &truth_of_parsed(&parsed), cso);
    o
}
/// Runs the queries of the scenario on a compressed image.
pub fn read_back(cx: &Cx, s: &Scn, o: &mut Outcome, t: &Truth, cso: FileData) {
    let img = ["/w/game.1.cso", "/w/game.cso"][(s.num("single") & 1) as usize];
    let nodes = vec![dir_node("/w"), file_node(img, cso)];
    let mut cfg = s.config();
    for (i, q) in s.list.iter().enumerate() {
        cfg.seed = mix2(s.seed, 100 + i as u64);
        cfg.faults.clear();
        let argv = query_argv(img, q);
        let Some(p) = proc(cx, o, &cfg, bin(s), &argv, &nodes, false) else { return };
        if let Err(e) = judge_query(t, img, q, &p) {
            let a: Vec<String> = argv.iter().map(|x| txt(x)).collect();
            o.fail(format!("`{}` on the compressed image: {}", a.join(" "), e));
            return;
        }
    }
}
/// C12: a compressed image made by someone else (single file or split) reads like the original.
pub fn exec_c12_foreign(cx: &Cx, s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let mut io = s.img.clone().unwrap_or_default();
    io.part = 0;
    io.decoy = 0;
    let b = build_image(&s.tree, &io);
    let t = truth_of_built(&s.tree, &b);
    let mut img = b.img;
    img.truncate(img.len.next_multiple_of(2048));
    let cso = crate::cso::encode(&img);
    o.nontrivial = true;
    read_back(cx, s, &mut o, &t, cso);
    o
}

// ------------------------------------------------------------------ C11
pub fn exec_c11(cx: &Cx, s: &Scn) -> Outcome {
    if s.variant.starts_with("lib") {
        return crate::libsim::exec_c11_lib(s);
    }
    let mut o = Outcome::default();
    o.nontrivial = true;
    let m = model(&s.tree);
    let mut imgs: Vec<(String, FileData, Model)> = vec![];
    for k in 0..2u64 {
        let mut io = s.img.clone().unwrap_or_default();
        if k > 0 {
            let mut r = Rng::new(mix2(io.seed, k));
            io = gen_img(&mut r, true);
        }
        imgs.push((format!("/w/a{}.iso", k), build_image(&s.tree, &io).img, m.clone()));
    }
    {
        let mut io = s.img.clone().unwrap_or_default();
        io.part = 0;
        io.decoy = 0;
        io.far = 0;
        let mut i = build_image(&s.tree, &io).img;
        i.truncate(i.len.next_multiple_of(2048));
        imgs.push(("/w/c.cso".into(), crate::cso::encode(&i), m.clone()));
    }
    let mut edited = s.tree.clone();
    let mut changed = false;
    for e in &s.list {
        changed |= apply_edit(&mut edited, e);
    }
    let em = model(&edited);
    if changed {
        imgs.push(("/w/e.iso".into(), build_image(&edited, &s.img.clone().unwrap_or_default()).img, em.clone()));
    }
    let mut nodes = vec![dir_node("/w")];
    let mut argv = vec![b"xdvdfs".to_vec(), b"checksum".to_vec(), b"-s".to_vec()];
    for (p, f, _) in &imgs {
        nodes.push(file_node(p, f.clone()));
        argv.push(p.as_bytes().to_vec());
    }
    let cfg = s.config();
    let Some(p) = proc(cx, &mut o, &cfg, bin(s), &argv, &nodes, true) else { return o };
    if let Some(b) = bad_end(&p) {
        o.fail(format!("checksum {}", b));
        return o;
    }
    if p.code != 0 && !s.faults.is_empty() {
        return o;
    }
    if p.code != 0 {
        o.fail(format!("checksum fails (exit {}): {}", p.code, txt(&p.stderr)));
        return o;
    }
    let text = String::from_utf8_lossy(&p.stdout).into_owned();
    let lines: Vec<(String, String)> = text.lines().filter_map(|l| l.split_once('\t').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
    if lines.len() != imgs.len() {
        o.fail(format!("checksum prints {} lines for {} images", lines.len(), imgs.len()));
        return o;
    }
    for (i, (path, _, im)) in imgs.iter().enumerate() {
        if &lines[i].1 != path || lines[i].0.len() != 64 {
            o.fail(format!("checksum line {:?} for {}", lines[i], path));
            return o;
        }
        let want = content_sum(im);
        let same_stream = want == content_sum(&m);
        if same_stream && diff(im, &m).is_none() && lines[i].0 != lines[0].0 {
            o.fail(format!("images with equal contents have different checksums: {} {} / {} {}", lines[0].0, imgs[0].0, lines[i].0, path));
            return o;
        }
        if (!same_stream || s.num("strict") == 1 && diff(im, &m).is_some()) && lines[i].0 == lines[0].0 {
            o.fail(format!("images with different contents have the same checksum {} (edits: {:?})", lines[0].0, s.list));
            return o;
        }
        if lines[i].0 != want {
            o.fail(format!("the checksum of {} is {}, but the SHA3-256 of its sorted paths and contents is {}", path, lines[i].0, want));
            return o;
        }
    }
    o
}

/// Edits: "flip|path|pos", "add|path|len", "adddir|path", "del|path", "ren|path|new", "swap|a|b", "append|path"
pub fn apply_edit(t: &mut Tree, e: &str) -> bool {
    let f: Vec<&str> = e.split('|').collect();
    let pos = |t: &Tree, p: &str| t.iter().position(|x| x.path == p);
    match f[0] {
        "content" => {
            let Some(i) = pos(t, f[1]) else { return false };
            if t[i].dir || t[i].len == 0 {
                return false;
            }
            let old = content(&t[i]);
            t[i].seed ^= 0x55;
            same_data(&old, &content(&t[i])).is_err()
        }
        "len" => {
            let Some(i) = pos(t, f[1]) else { return false };
            if t[i].dir {
                return false;
            }
            t[i].len += 1;
            true
        }
        "flip" => {
            // an empty file becomes an empty directory
            let Some(i) = pos(t, f[1]) else { return false };
            if t[i].dir || t[i].len > 0 {
                return false;
            }
            t[i].dir = true;
            true
        }
        "add" | "adddir" => {
            if t.iter().any(|x| fold(&x.path) == fold(f[1])) {
                return false;
            }
            let mut d = dent(f[1].into());
            if f[0] == "add" {
                d.dir = false;
                d.len = 10;
                d.seed = 99;
            }
            t.push(d);
            true
        }
        "del" => {
            let n = t.len();
            let pre = format!("{}/", f[1]);
            t.retain(|x| x.path != f[1] && !x.path.starts_with(&pre));
            // parents stay as explicit directories
            t.len() != n
        }
        "case" => {
            // the name keeps its letters, but not their case
            let Some(i) = pos(t, f[1]) else { return false };
            let old = t[i].path.clone();
            let (d, n) = old.rsplit_once('/').map(|x| (format!("{}/", x.0), x.1)).unwrap_or((String::new(), &old));
            let n: String = n.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            if format!("{}{}", d, n) == old {
                return false;
            }
            apply_edit(t, &format!("ren|{}|{}{}", old, d, n))
        }
        "ren" => {
            if t.iter().any(|x| fold(&x.path) == fold(f[2]) && x.path != f[1]) || pos(t, f[1]).is_none() {
                return false;
            }
            let pre = format!("{}/", f[1]);
            for x in t.iter_mut() {
                if x.path == f[1] {
                    x.path = f[2].into();
                } else if let Some(r) = x.path.strip_prefix(&pre) {
                    x.path = format!("{}/{}", f[2], r);
                }
            }
            true
        }
        "swap" => {
            let (Some(a), Some(b)) = (pos(t, f[1]), pos(t, f[2])) else { return false };
            if t[a].dir || t[b].dir {
                return false;
            }
            let (x, y) = (t[a].clone(), t[b].clone());
            (t[a].len, t[a].seed, t[a].style) = (y.len, y.seed, y.style);
            (t[b].len, t[b].seed, t[b].style) = (x.len, x.seed, x.style);
            same_data(&content(&x), &content(&y)).is_err()
        }
        _ => false,
    }
}

// ------------------------------------------------------------------ C09
/// Damage: "trunc|len", "byte|off|val", "u16|off|val", "u32|off|val", "zero|off|len", "ff|off|len", "rand|off|len"
pub fn damage(img: &mut FileData, e: &str) {
    let f: Vec<&str> = e.split('|').collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let off = n(1);
    if f[0] != "trunc" && off + 8 > img.len {
        return;
    }
    match f[0] {
        "trunc" => {
            if off < img.len {
                img.truncate(off)
            }
        }
        "byte" => img.write_at(off, &[n(2) as u8]),
        "u16" => img.write_at(off, &(n(2) as u16).to_le_bytes()),
        "u32" => img.write_at(off, &(n(2) as u32).to_le_bytes()),
        "zero" | "ff" | "rand" => {
            let len = n(2).min(img.len - off).min(1 << 16) as usize;
            let b: Vec<u8> = (0..len)
                .map(|i| match f[0] {
                    "zero" => 0,
                    "ff" => 0xff,
                    _ => mix2(off, i as u64) as u8,
                })
                .collect();
            img.write_at(off, &b);
        }
        _ => {}
    }
}
pub fn exec_c09(cx: &Cx, s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let b = build_image(&s.tree, s.img.as_ref().unwrap_or(&ImgOpts::default()));
    let mut img = b.img;
    let mut cmds = vec![];
    for e in &s.list {
        if let Some(c) = e.strip_prefix("cmd|") {
            cmds.push(c.to_string());
        } else {
            damage(&mut img, e);
        }
    }
    if s.variant.starts_with("lib") {
        return crate::libsim::exec_c09_lib(s, img, &cmds);
    }
    o.nontrivial = true;
    let path = "/w/game.iso";
    let mut cfg = s.config();
    // every table has at most one entry per 4 bytes; a generous multiple of the image size
    cfg.max_ops = 200_000 + img.len / 8;
    let big = crate::image::announced(&img) > 1 << 30;
    for (i, c) in cmds.iter().enumerate() {
        let nodes = vec![dir_node("/w"), dir_node("/w/o"), file_node(path, img.clone())];
        cfg.seed = mix2(s.seed, i as u64);
        let argv = match c.as_str() {
            "unpack" => sv(&["xdvdfs", "unpack", path, "/w/out"]),
            "repack" => sv(&["xdvdfs", "pack", path, "/w/o/new.iso"]),
            // (its list of sectors takes half as much memory as the image is announced to be large)
            "compress" if big => continue,
            "compress" => sv(&["xdvdfs", "compress", path, "/w/o/new.cso"]),
            "exr" => sv(&["xdvdfs", "extract-xiso", "-r", path]),
            c if c.starts_with("copyout|") => {
                let p = c.split('|').nth(1).unwrap();
                sv(&["xdvdfs", "copy-out", path, &format!("/{}", p), "/w/out"])
            }
            q => query_argv(path, q),
        };
        let Some(p) = proc(cx, &mut o, &cfg, bin(s), &argv, &nodes, true) else { return o };
        if let Some(b) = bad_end(&p) {
            let a: Vec<String> = argv.iter().map(|x| txt(x)).collect();
            o.fail(format!("`{}` on a damaged image {}", a.join(" "), b));
            return o;
        }
    }
    o
}

// ------------------------------------------------------------------ C10
/// The tree holds placeholder names; `list` holds "i|name": entry i gets that raw name.
/// Raw names may contain anything up to 255 bytes (written over the placeholder, same length).
pub fn exec_c10(cx: &Cx, s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    o.nontrivial = true;
    let b = build_image(&s.tree, s.img.as_ref().unwrap_or(&ImgOpts::default()));
    let mut img = b.img;
    let mut hostile = vec![];
    for e in &s.list {
        let Some((p, name)) = e.split_once('|') else { continue };
        let Some((off, ..)) = b.ent.get(p) else { continue };
        let raw = encodable(name).unwrap_or_default();
        let mut nl = [0u8; 1];
        img.read_at(off + 13, &mut nl);
        if raw.len() > nl[0] as usize {
            continue;
        }
        img.write_at(off + 13, &[raw.len() as u8]);
        img.write_at(off + 14, &raw);
        hostile.push(name.to_string());
    }
    // things outside the destination that could be hit
    let mut nodes = vec![
        dir_node("/w"),
        dir_node("/w/x"),
        dir_node("/w/x/y"),
        dir_node("/v"),
        file_node("/v/victim", FileData::from_bytes(b"precious")),
        file_node("/w/victim", FileData::from_bytes(b"precious")),
        file_node("/w/x/victim", FileData::from_bytes(b"precious")),
        dir_node("/i"),
        file_node("/i/game.iso", img),
    ];
    let dest = "/w/x/y/out";
    let mut cfg = s.config();
    let argv = match s.variant.as_str() {
        "unpack" => sv(&["xdvdfs", "unpack", "/i/game.iso", dest]),
        "desk-hostile" => sv(&["desk", "unpack", "/i/game.iso", dest]),
        "web-hostile" => {
            nodes.push(dir_node(dest));
            sv(&["web", "unpack", "/i/game.iso", dest])
        }
        "exiso" => sv(&["extract-xiso", "-d", dest, "-x", "/i/game.iso"]),
        "exiso-cwd" => {
            cfg.cwd = b"/w/x/y".to_vec();
            nodes[8].path = b"/i/out.iso".to_vec();
            sv(&["extract-xiso", "-x", "/i/out.iso"])
        }
        "copyout" => sv(&["xdvdfs", "copy-out", "/i/game.iso", "/", dest]),
        _ => {
            let d = s.str("sel");
            sv(&["xdvdfs", "copy-out", "/i/game.iso", &format!("/{}", d), dest])
        }
    };
    let Some(p) = proc(cx, &mut o, &cfg, bin(s), &argv, &nodes, true) else { return o };
    let a: Vec<String> = argv.iter().map(|x| txt(x)).collect();
    if p.code == -24 || p.code == 78 {
        o.fail(format!("`{}` {}", a.join(" "), bad_end(&p).unwrap()));
        return o;
    }
    let Some(out) = &p.out else { return o };
    let m = node_map(out);
    for (i, n) in nodes.iter().enumerate() {
        match m.get(&n.path) {
            Some(x) if x.ino == i as u64 + 1 && !x.dirty => {}
            _ => {
                o.fail(format!("`{}` with names {:?} (exit {}) changed {} outside the destination", a.join(" "), hostile, p.code, txt(&n.path)));
                return o;
            }
        }
    }
    for n in &out.nodes {
        let known = nodes.iter().any(|x| x.path == n.path);
        let inside = n.path == dest.as_bytes() || n.path.starts_with(format!("{}/", dest).as_bytes());
        if !known && !inside {
            o.fail(format!("`{}` with names {:?} (exit {}) created {} outside the destination", a.join(" "), hostile, p.code, txt(&n.path)));
            return o;
        }
    }
    // attempts count as well: no operation that changes the filesystem may name a path outside
    for r in &out.ops {
        if r.write == 0 {
            continue;
        }
        for path in out.paths[r.path as usize].split(|b| *b == 0) {
            let whole;
            let path = if path.is_empty() || path[0] == b'/' {
                path
            } else {
                whole = [&cfg.cwd[..], b"/", path].concat();
                &whole[..]
            };
            let inside = path == dest.as_bytes() || path.starts_with(format!("{}/", dest).as_bytes()) || path.is_empty();
            let ancestor = r.kind == OP_MKDIR && dest.as_bytes().starts_with(path);
            if !inside && !ancestor {
                o.fail(format!(
                    "`{}` with names {:?} (exit {}) tried to change {} outside the destination ({})",
                    a.join(" "),
                    hostile,
                    p.code,
                    txt(path),
                    OP_NAMES[r.kind as usize]
                ));
                return o;
            }
        }
    }
    // harmless images must be extracted completely
    if hostile.is_empty() && s.faults.is_empty() {
        if p.code != 0 {
            o.fail(format!("`{}` refuses harmless names (exit {}): {}", a.join(" "), p.code, txt(&p.stderr)));
            return o;
        }
        let want = if s.variant == "copyout-sel" { subtree(&model(&s.tree), s.str("sel")) } else { model(&s.tree) };
        if let Some(d) = diff(&want, &host_model(&nodes, out, dest)) {
            o.fail(format!("`{}`: {}", a.join(" "), d));
        }
    }
    o
}
