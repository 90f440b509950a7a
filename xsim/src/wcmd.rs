//! Process-level runs of the commands that write images.
use crate::image::*;
use crate::run::*;
use crate::scn::*;
use crate::simfmt::*;
use crate::tree::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub struct Cx<'a> {
    pub env: &'a Env,
    pub thorough: bool,
}

pub fn sv(v: &[&str]) -> Vec<Vec<u8>> {
    v.iter().map(|s| os_bytes(s)).collect()
}
pub fn txt(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let s = s.trim();
    let cut: String = s.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
    cut.replace('\n', " | ")
}

/// Options of the extract-xiso mode that only concern its messages, or nothing.
pub fn exiso_flags(s: &Scn, a: &mut Vec<String>) {
    let f: &[&str] = match s.num("xq") {
        1 => &["-q"],
        2 => &["-Q"],
        3 => &["-m", "-s"],
        4 => &["-qQ"],
        _ => &[],
    };
    if let Some(i) = a.iter().take(2).position(|x| x == "extract-xiso") {
        for (k, x) in f.iter().enumerate() {
            a.insert(i + 1 + k, x.to_string());
        }
    }
}
pub fn quiet(s: &Scn) -> bool {
    matches!(s.num("xq"), 1 | 2 | 4)
}
/// Runs a program under the simulated OS and adds what happened to the outcome.
pub fn proc(cx: &Cx, o: &mut Outcome, cfg: &Config, bin: Bin, argv: &[Vec<u8>], nodes: &[FsNode], main: bool) -> Option<ProcOut> {
    let p = cx.env.run(bin, argv, cfg, nodes);
    let before = o.viol.is_some();
    account(o, &p, cfg, main);
    if o.harness.is_some() || (!before && o.viol.is_some()) {
        return None;
    }
    Some(p)
}
pub fn account(o: &mut Outcome, p: &ProcOut, cfg: &Config, main: bool) {
    o.procs += 1;
    if p.stuck {
        o.fail(format!("the program never ends: every thread of it is blocked; stderr: {}", txt(&p.stderr)));
        return;
    }
    if p.memory {
        o.fail(format!("the program takes more and more memory and does not end; stderr: {}", txt(&p.stderr)));
        return;
    }
    if p.wall_timeout {
        o.harness = Some(format!("run exceeded the wall-clock limit; stderr: {}", txt(&p.stderr)));
        return;
    }
    for out in [&p.out, &p.out2].into_iter().flatten() {
        o.hash = mix2(o.hash, out.trace_hash);
        o.nops += out.nops;
        o.clock_ns += out.clock_ns;
        for f in &out.fired {
            *o.fired.entry(fault_name(f.kind).into()).or_default() += 1;
        }
        if out.ops.iter().any(|r| r.kind == OP_WRITE && r.ret == -(libc::ENOSPC as i64)) && cfg.capacity != u64::MAX {
            *o.fired.entry("disk_full".into()).or_default() += 1;
        }
    }
    if cfg.shuffle != 0 {
        *o.fired.entry("reordered_listing".into()).or_default() += 1;
    }
    if cfg.dt_unknown {
        *o.fired.entry("unknown_entry_types".into()).or_default() += 1;
    }
    o.hash = mix2(o.hash, p.code as u64 as u64);
    o.hash = mix2(o.hash, fnv(1, &p.stdout));
    let Some(out) = &p.out else {
        if p.code != -24 && p.code != -9 && p.code != -11 && p.code != -6 {
            o.harness = Some(format!("no simulator record (exit {}); stderr: {}", p.code, txt(&p.stderr)));
        }
        return;
    };
    if main {
        o.ops = out.ops.clone();
        o.paths = out.paths.clone();
        o.fired_list = out.fired.clone();
        o.exit_ok = p.code == 0;
    }
}

/// A way of ending that no command may show on any input.
pub fn bad_end(p: &ProcOut) -> Option<String> {
    if p.code == -24 {
        return Some("does not end (CPU limit reached)".into());
    }
    if p.code == 78 || p.out.as_ref().is_some_and(|o| o.status == ST_OPLIMIT) {
        return Some("does not end (limit on host operations reached)".into());
    }
    if p.code == 101 {
        return Some(format!("panics: {}", txt(&p.stderr)));
    }
    if p.code == 134 || p.out.as_ref().is_some_and(|o| o.status == ST_ABORT) {
        return Some(format!("aborts: {}", txt(&p.stderr)));
    }
    if p.code < 0 {
        return Some(format!("dies from signal {}: {}", -p.code, txt(&p.stderr)));
    }
    None
}

pub fn bin(s: &Scn) -> Bin {
    if s.variant.starts_with("host-") {
        Bin::StdFs
    } else if s.variant.starts_with("web-") {
        Bin::Web
    } else if s.variant.starts_with("desk-") {
        Bin::Desk
    } else if s.sync {
        Bin::CliSync
    } else {
        Bin::Cli
    }
}

pub fn node_map(out: &Output) -> BTreeMap<Vec<u8>, &FsNode> {
    out.nodes.iter().map(|n| (n.path.clone(), n)).collect()
}
/// Checks that every input node under one of `roots` is still there, unmodified.
/// `inputs` is the list given to the run (its order defines the inode numbers).
pub fn unchanged(inputs: &[FsNode], out: &Output, roots: &[&str]) -> Option<String> {
    let m = node_map(out);
    for (i, n) in inputs.iter().enumerate() {
        let inside = roots.iter().any(|r| n.path == r.as_bytes() || n.path.starts_with(format!("{}/", r).as_bytes()));
        if !inside {
            continue;
        }
        match m.get(&n.path) {
            None => return Some(format!("{} was removed", txt(&n.path))),
            Some(x) if x.ino != (i + 1) as u64 => return Some(format!("{} was replaced", txt(&n.path))),
            Some(x) if x.dirty => return Some(format!("{} was modified", txt(&n.path))),
            _ => {}
        }
    }
    // nothing new inside either
    for n in &out.nodes {
        let inside = roots.iter().any(|r| n.path.starts_with(format!("{}/", r).as_bytes()));
        if inside && n.ino > inputs.len() as u64 {
            return Some(format!("{} was created inside the source", txt(&n.path)));
        }
    }
    None
}
pub fn new_files<'a>(inputs: &[FsNode], out: &'a Output) -> Vec<&'a FsNode> {
    out.nodes
        .iter()
        .filter(|n| matches!(n.kind, NodeKind::File(_)) && n.ino > inputs.len() as u64)
        .collect()
}
/// Contents of a file after the run, whether it was touched or not.
pub fn file_after(inputs: &[FsNode], out: &Output, path: &str) -> Option<FileData> {
    let n = out.nodes.iter().find(|n| n.path == path.as_bytes())?;
    let NodeKind::File(f) = &n.kind else { return None };
    if n.dirty || n.ino > inputs.len() as u64 || n.ino == 0 {
        return Some(f.clone());
    }
    match &inputs[n.ino as usize - 1].kind {
        NodeKind::File(f) => Some(f.clone()),
        _ => None,
    }
}

pub struct WSetup {
    pub argv: Vec<Vec<u8>>,
    pub nodes: Vec<FsNode>,
    pub expect: Model,
    /// where the output must appear; None: exactly one new file
    pub out: Option<String>,
    pub cso: bool,
    pub src: Vec<String>,
    pub what: String,
}

pub fn src_name(s: &Scn) -> String {
    let n = s.str("src");
    if n.is_empty() {
        "src".into()
    } else {
        n.into()
    }
}

/// The command line, the host filesystem and the expected contents of a writing command.
pub fn wsetup(s: &Scn) -> WSetup {
    let mut nodes = vec![dir_node("/w"), dir_node("/w/o")];
    let name = src_name(s);
    let from_img = s.variant.ends_with("-img") || s.variant == "exiso-r";
    let mut src = vec![];
    let srcp = if from_img {
        let p = format!("/w/{}.iso", name);
        let b = build_image(&s.tree, s.img.as_ref().unwrap_or(&ImgOpts::default()));
        nodes.push(file_node(&p, b.img));
        p
    } else {
        let p = format!("/w/{}", name);
        nodes.extend(host_nodes(&p, &s.tree));
        p
    };
    src.push(srcp.clone());
    let expect = model(&s.tree);
    let cso = s.variant.contains("compress");
    let ext = if cso { "cso" } else { "iso" };
    let mode = s.num("out");
    let (arg, mut out): (Option<String>, Option<String>) = match mode {
        0 => (Some(format!("/w/out.{}", ext)), Some(format!("/w/out.{}", ext))),
        1 => (Some(format!("o/../o/x.{}", ext)), Some(format!("/w/o/x.{}", ext))),
        2 => (None, None),
        _ => (Some(format!("./out.{}", ext)), Some(format!("/w/out.{}", ext))),
    };
    let pre = s.num("pre");
    if pre > 0 {
        if let Some(o) = &out {
            let o = if cso { o.replace(".cso", ".1.cso") } else { o.clone() };
            let f = if pre == 1 {
                FileData::from_bytes(&STALE.repeat(18_750))
            } else {
                let t = vec![TEnt { path: "old.bin".into(), len: 200_000, seed: 5, ..dent("".into()) }]
                    .into_iter()
                    .map(|mut e| {
                        e.dir = false;
                        e
                    })
                    .collect();
                build_image(&t, &ImgOpts { end: 0, ..Default::default() }).img
            };
            nodes.push(file_node(&o, f));
        }
    }
    let rel = s.num("rel") == 1;
    let sa = if rel { srcp.strip_prefix("/w/").unwrap().to_string() } else { srcp.clone() };
    let mut a: Vec<String> = vec!["xdvdfs".into()];
    match s.variant.as_str() {
        "pack-dir" | "pack-img" => {
            a.push("pack".into());
            a.push(sa);
            a.extend(arg);
        }
        v if v.starts_with("desk-") => {
            let cmd = if cso { "compress" } else { "pack" };
            a = vec!["desk".into(), cmd.into(), sa];
            if cso {
                // the user selects a directory
                a.push(["/w/o", "o", "o/../o/", "./o"][mode as usize & 3].into());
                out = None;
            } else {
                a.extend(arg);
            }
        }
        v if v.starts_with("web-") => {
            let cmd = if cso { "compress" } else { "pack" };
            // the user selects a directory, or a file that the browser creates
            let dest = if cso { "/w/o" } else { "/w/out.iso" };
            out = if cso { None } else { Some(dest.into()) };
            if !cso && !nodes.iter().any(|n| n.path == dest.as_bytes()) {
                nodes.push(file_node(dest, FileData::default()));
            }
            a = vec!["web".into(), cmd.into(), srcp.clone(), dest.into()];
        }
        // the library's own filesystems, used by a program that is not part of the project
        "host-dir" | "host-img" => {
            let arg = arg.unwrap_or("host.iso".into());
            out = out.or(Some("/w/host.iso".into()));
            a = vec!["stdfs".into(), s.str("form").into(), sa, arg, (s.seed >> 8).to_string()];
        }
        "exiso-c" => {
            if s.num("multicall") == 1 {
                a = vec!["extract-xiso".into()];
            } else {
                a.push("extract-xiso".into());
            }
            a.push("-c".into());
            a.push(sa);
            a.extend(arg);
        }
        "exiso-r" => {
            if s.num("multicall") == 1 {
                a = vec!["extract-xiso".into()];
            } else {
                a.push("extract-xiso".into());
            }
            out = Some(srcp.clone());
            if s.num("del") == 1 {
                a.push("-D".into());
            }
            if s.num("dir") == 1 {
                a.push("-d".into());
                a.push("o".into());
                out = Some(format!("/w/o/{}.iso", name));
            }
            a.push("-r".into());
            a.push(sa);
        }
        "build" => {
            a.push("build-image".into());
            match mode {
                2 => {
                    a.extend(["-m".into(), "**:/{0}".into(), sa]);
                }
                1 => {
                    a.extend(["-m".into(), "**:/{0}".into(), "-O".into(), "../o/x.iso".into(), sa]);
                }
                _ => {
                    a.extend(["-m".into(), "**:/{0}".into(), sa, arg.unwrap()]);
                }
            }
        }
        "compress-dir" | "compress-img" => {
            a.push("compress".into());
            a.push(sa);
            a.extend(arg);
            out = out.map(|o| o.replace(".cso", ".1.cso"));
        }
        v => panic!("unknown variant {}", v),
    }
    exiso_flags(s, &mut a);
    let what = a.join(" ");
    WSetup { argv: a.iter().map(|x| os_bytes(x)).collect(), nodes, expect, out, cso, src, what }
}

/// Finds and decodes the image that a successful command wrote.
/// What an earlier file at the output consists of.
const STALE: [u8; 16] = *b"stale\xff\xfe\x01-output.";
fn shows_stale(f: &FileData) -> bool {
    f.pages.values().any(|p| p.chunks(16).any(|c| c == STALE))
}
pub fn output_image(w: &WSetup, out: &Output) -> Result<FileData, String> {
    let f = match &w.out {
        Some(p) => file_after(&w.nodes, out, p).ok_or_else(|| format!("no output at {}", p))?,
        None => {
            let v = new_files(&w.nodes, out);
            if v.len() != 1 {
                return Err(format!("{} files were created instead of one image", v.len()));
            }
            let NodeKind::File(f) = &v[0].kind else { unreachable!() };
            f.clone()
        }
    };
    if shows_stale(&f) {
        return Err("the output still holds parts of the file that was there before".into());
    }
    if w.cso {
        crate::cso::decode(&f).map(|c| c.data).map_err(|e| format!("the compressed output cannot be decoded: {}", e))
    } else {
        Ok(f)
    }
}

pub fn check_image(w: &WSetup, out: &Output, strict: bool) -> Result<Parsed, String> {
    let img = output_image(w, out)?;
    let p = parse(&img, strict).map_err(|e| format!("malformed image: {}", e))?;
    if let Some(d) = diff(&w.expect, &p.model) {
        return Err(format!("wrong contents: {}", d));
    }
    Ok(p)
}

/// C01, C02, C03, C12 (writing half): benign faults only; the command must succeed and be right.
pub fn exec_write(cx: &Cx, s: &Scn, strict: bool) -> Outcome {
    let mut o = Outcome::default();
    let w = wsetup(s);
    let cfg = s.config();
    let Some(p) = proc(cx, &mut o, &cfg, bin(s), &w.argv, &w.nodes, true) else { return o };
    o.nontrivial = !s.tree.is_empty();
    if let Some(b) = bad_end(&p) {
        o.fail(format!("`{}` {}", w.what, b));
        return o;
    }
    if p.code != 0 {
        o.fail(format!("`{}` fails on a representable source (exit {}): {}", w.what, p.code, txt(&p.stderr)));
        return o;
    }
    let Some(out) = &p.out else { return o };
    match check_image(&w, out, strict) {
        Err(e) => {
            o.fail(format!("`{}` reports success, but: {}", w.what, e));
            return o;
        }
        Ok(parsed) => {
            if s.prop == "C19" {
                if let Err(e) = progress_lines(s, &w, &p.stdout, &parsed) {
                    o.fail(format!("`{}`: {}", w.what, e));
                    return o;
                }
            }
        }
    }
    let src: Vec<&str> = w.src.iter().map(|x| x.as_str()).collect();
    if s.variant != "exiso-r" {
        if let Some(e) = unchanged(&w.nodes, out, &src) {
            o.fail(format!("`{}` changed its source: {}", w.what, e));
        }
    }
    o
}

fn progress_lines(s: &Scn, w: &WSetup, stdout: &[u8], img: &Parsed) -> Result<(), String> {
    let text = String::from_utf8_lossy(stdout);
    let std_fs = s.variant == "pack-dir" || s.variant == "exiso-c";
    let show = |p: &str| -> String {
        if std_fs {
            let full = if p.is_empty() { format!("{}/", w.src[0]) } else { format!("{}/{}", w.src[0], p) };
            format!("{:?}", std::path::Path::new(&full))
        } else {
            format!("/{}", p)
        }
    };
    let norm = |p: &str| p.replace("/\"", "\"");
    let mut want: Vec<(bool, String, u64)> = vec![(true, norm(&show("")), img.root.0 as u64)];
    for e in &img.ents {
        want.push((false, norm(&show(&e.path)), e.sector as u64));
        if e.dir {
            want.push((true, norm(&show(&e.path)), e.sector as u64));
        }
    }
    let mut got = vec![];
    for (i, l) in text.lines().enumerate() {
        let bad = || format!("unexpected progress line {:?}", l);
        let l2 = l.strip_prefix('[').ok_or_else(bad)?;
        let (cnt, rest) = l2.split_once("] Added ").ok_or_else(bad)?;
        let (k, total) = cnt.split_once('/').ok_or_else(bad)?;
        if k.parse::<usize>() != Ok(i + 1) {
            return Err(format!("line {} is numbered {}", i + 1, k));
        }
        if total.parse::<usize>() != Ok(want.len()) {
            return Err(format!("announced total {} but {} entries are reported", total, want.len()));
        }
        let dir = rest.starts_with("dir: ");
        let rest = rest.strip_prefix("dir: ").or(rest.strip_prefix("file: ")).ok_or_else(bad)?;
        let (path, sector) = rest.rsplit_once(" at sector ").ok_or_else(bad)?;
        got.push((dir, norm(path), sector.parse::<u64>().map_err(|_| bad())?));
    }
    want.sort();
    got.sort();
    if want != got {
        let x = want.iter().find(|x| !got.contains(x));
        let y = got.iter().find(|x| !want.contains(x));
        return Err(format!("progress does not match the image: expected {:?}, reported {:?} ({} of {} lines)", x, y, got.len(), want.len()));
    }
    Ok(())
}

// ------------------------------------------------------------------ C05 / C06 / C07
/// Contents that a command may store if the source changes while it runs.
pub fn acceptable(s: &Scn, w: &WSetup) -> Vec<(String, Vec<Option<Option<Arc<FileData>>>>)> {
    // per path: list of acceptable states (None: absent)
    let mut v = vec![];
    for (k, path, n) in &s.mutations {
        let Some(rel) = path.strip_prefix(&format!("{}/", w.src[0])) else { continue };
        let Some(Some(orig)) = w.expect.get(rel) else { continue };
        let mut alts = vec![Some(Some(orig.clone()))];
        match k {
            0 => {
                let mut f = (**orig).clone();
                f.truncate(*n);
                alts.push(Some(Some(Arc::new(f))));
            }
            1 => alts.push(None),
            _ => {
                let mut f = (**orig).clone();
                let l = f.len;
                f.write_at(l, &vec![0xA5; *n as usize]);
                alts.push(Some(Some(Arc::new(f))));
            }
        }
        v.push((rel.to_string(), alts));
    }
    v
}
pub fn diff_alt(want: &Model, got: &Model, alts: &[(String, Vec<Option<Option<Arc<FileData>>>>)]) -> Option<String> {
    let mut want = want.clone();
    let mut got2 = got.clone();
    for (p, a) in alts {
        let g = got.get(p);
        let fits = a.iter().any(|x| match (x, g) {
            (None, None) => true,
            (Some(Some(f)), Some(Some(h))) => same_data(f, h).is_ok(),
            _ => false,
        });
        if fits {
            want.remove(p);
            got2.remove(p);
        }
    }
    diff(&want, &got2)
}

pub fn exec_c05(cx: &Cx, s: &Scn) -> Outcome {
    if s.variant.starts_with("lib") {
        return crate::libsim::exec_c05_lib(s);
    }
    if crate::rcmd::is_extract(&s.variant) {
        return crate::rcmd::exec_extract_faulty(cx, s);
    }
    let mut o = Outcome::default();
    let w = wsetup(s);
    let cfg = s.config();
    let Some(p) = proc(cx, &mut o, &cfg, bin(s), &w.argv, &w.nodes, true) else { return o };
    o.nontrivial = !o.fired_list.is_empty() || s.capacity.is_some();
    if p.code == -24 || p.code == 78 {
        o.fail(format!("`{}` {}", w.what, bad_end(&p).unwrap()));
        return o;
    }
    let Some(out) = &p.out else { return o };
    if p.code != 0 {
        if p.stderr.iter().all(|c| c.is_ascii_whitespace()) && p.code > 0 && p.code != 77 && !quiet(s) {
            o.fail(format!("`{}` fails (exit {}) without any message", w.what, p.code));
        }
        return o;
    }
    let r = output_image(&w, out).and_then(|img| {
        // (the source that changes may make the layout odd, but nothing else may)
        let p = parse(&img, s.mutations.is_empty()).map_err(|e| format!("malformed image: {}", e))?;
        match diff_alt(&w.expect, &p.model, &acceptable(s, &w)) {
            None => Ok(()),
            Some(d) => Err(format!("wrong contents: {}", d)),
        }
    });
    if let Err(e) = r {
        o.fail(format!("`{}` reports success although an operation failed or the source changed, and the output is not complete: {}", w.what, e));
    }
    o
}

pub fn exec_c06(cx: &Cx, s: &Scn) -> Outcome {
    if s.variant.starts_with("lib") {
        return crate::libsim::exec_c06_lib(s);
    }
    let mut o = Outcome::default();
    let w = wsetup(s);
    let cfg = s.config();
    let Some(p) = proc(cx, &mut o, &cfg, bin(s), &w.argv, &w.nodes, true) else { return o };
    o.nontrivial = !o.fired_list.is_empty();
    if p.code == -24 || p.code == 78 {
        o.fail(format!("`{}` {}", w.what, bad_end(&p).unwrap()));
        return o;
    }
    let Some(out) = &p.out else { return o };
    // Was the output opened yet? Before that, an older file may still be there untouched.
    let Some(path) = w.out.clone().or_else(|| new_files(&w.nodes, out).first().map(|n| String::from_utf8_lossy(&n.path).into_owned())) else {
        return o;
    };
    let Some(n) = out.nodes.iter().find(|n| n.path == path.as_bytes()) else { return o };
    if !n.dirty && n.ino <= w.nodes.len() as u64 {
        return o; // not touched
    }
    let NodeKind::File(f) = &n.kind else { return o };
    if recognised(f).is_some() {
        let r = parse(f, false).and_then(|p| match diff(&w.expect, &p.model) {
            None => Ok(()),
            Some(d) => Err(d),
        });
        if let Err(e) = r {
            o.fail(format!("`{}` interrupted: the output is recognised as a volume but incomplete: {}", w.what, e));
        }
    }
    o
}

/// C07: sources stay intact; a rewrite never loses the only copy.
pub fn exec_c07(cx: &Cx, s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let cfg = s.config();
    if s.variant == "alias" {
        return exec_alias(cx, s);
    }
    if crate::rcmd::is_extract(&s.variant) {
        return crate::rcmd::exec_source_kept(cx, s);
    }
    let w = wsetup(s);
    let Some(p) = proc(cx, &mut o, &cfg, bin(s), &w.argv, &w.nodes, true) else { return o };
    o.nontrivial = true;
    if p.code == -24 || p.code == 78 {
        o.fail(format!("`{}` {}", w.what, bad_end(&p).unwrap()));
        return o;
    }
    let Some(out) = &p.out else { return o };
    if s.variant != "exiso-r" {
        let src: Vec<&str> = w.src.iter().map(|x| x.as_str()).collect();
        if let Some(e) = unchanged(&w.nodes, out, &src) {
            o.fail(format!("`{}` changed its source: {}", w.what, e));
        }
        return o;
    }
    // rewrite
    let src = w.src[0].clone();
    let old = src.replace(".iso", ".old");
    let src_ino = w.nodes.iter().position(|n| n.path == src.as_bytes()).unwrap() as u64 + 1;
    let holder = out.nodes.iter().find(|n| n.ino == src_ino);
    let orig_ok = holder.is_some_and(|n| !n.dirty && (n.path == src.as_bytes() || n.path == old.as_bytes()));
    let newp = w.out.clone().unwrap();
    let new_state = out
        .nodes
        .iter()
        .find(|n| n.path == newp.as_bytes() && n.ino != src_ino)
        .and_then(|_| file_after(&w.nodes, out, &newp))
        .map(|f| {
            parse(&f, false).and_then(|p| match diff(&w.expect, &p.model) {
                None => Ok(()),
                Some(d) => Err(d),
            })
        });
    let new_ok = matches!(new_state, Some(Ok(())));
    if !orig_ok && !new_ok {
        o.fail(format!(
            "`{}` (exit {}) left neither the original image nor a complete new one (original {}, new image {})",
            w.what,
            p.code,
            match holder {
                None => "deleted".to_string(),
                Some(n) => format!("at {}{}", txt(&n.path), if n.dirty { ", modified" } else { "" }),
            },
            match new_state {
                None => "absent".to_string(),
                Some(Ok(())) => "complete".into(),
                Some(Err(e)) => e,
            }
        ));
        return o;
    }
    if let Some(n) = holder {
        if n.dirty {
            o.fail(format!("`{}` modified the original image at {}", w.what, txt(&n.path)));
            return o;
        }
    } else if s.num("del") == 0 {
        o.fail(format!("`{}` deleted the original image without -D", w.what));
        return o;
    }
    if p.code == 0 {
        if !new_ok {
            o.fail(format!("`{}` reports success but {} holds no complete image", w.what, newp));
        } else if s.num("del") == 1 && holder.is_some() {
            o.fail(format!("`{}` reports success but the original was not deleted", w.what));
        }
    }
    o
}

/// Output paths that alias the source, or lie inside it, under various spellings.
pub fn exec_alias(cx: &Cx, s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let cfg = s.config();
    let is_img = s.num("img") == 1;
    let mut nodes = vec![dir_node("/w"), dir_node("/w/o"), dir_node("/real")];
    let (srcp, victim);
    if is_img {
        srcp = "/real/game.iso".to_string();
        victim = srcp.clone();
        nodes.push(file_node(&srcp, build_image(&s.tree, s.img.as_ref().unwrap_or(&ImgOpts::default())).img));
    } else {
        srcp = "/real/src".to_string();
        nodes.extend(host_nodes(&srcp, &s.tree));
        victim = srcp.clone();
    }
    nodes.push(link_node("/w/lnk", &srcp));
    nodes.push(link_node("/w/rl", "/real"));
    nodes.push(link_node("/w/o/up", "../rl"));
    let base = srcp.rsplit('/').next().unwrap();
    // spelling of the source
    let sa = match s.num("src_sp") {
        0 => srcp.clone(),
        1 => "lnk".to_string(),
        2 => format!("rl/{}", base),
        3 => format!("../real/./{}", base),
        4 => format!("o/up/{}", base),
        _ => {
            // a link to a link to a link
            nodes.push(link_node("/w/s1", "o/s2"));
            nodes.push(link_node("/w/o/s2", "../lnk"));
            "s1".to_string()
        }
    };
    // file inside the source to aim at
    let inner = s.str("inner").to_string();
    let target = if is_img { String::new() } else { format!("/{}", inner) };
    let oa = match s.num("out_sp") {
        0 => format!("{}{}", srcp, target),
        1 => format!("lnk{}", target),
        2 => format!("rl/{}{}", base, target),
        3 => format!("../real/../real/{}{}", base, target),
        4 => format!("o/up/{}{}", base, target),
        6 => {
            // links to links, the last of which may dangle
            nodes.push(link_node("/w/c1.iso", "o/./c2.iso"));
            nodes.push(link_node("/w/o/c2.iso", "../o/c3.iso"));
            nodes.push(link_node("/w/o/c3.iso", &format!("up/{}{}", base, target)));
            "c1.iso".to_string()
        }
        7 => {
            // directory links to directory links
            nodes.push(link_node("/w/o/d1", "d2"));
            nodes.push(link_node("/w/o/d2", "./up/../real"));
            format!("o/d1/{}{}", base, target)
        }
        _ => {
            // a symlink elsewhere pointing at the target
            nodes.push(link_node("/w/dangling.iso", &format!("{}{}", srcp, target)));
            "dangling.iso".to_string()
        }
    };
    let (a, cso) = match s.str("cmd") {
        "pack" => (vec!["xdvdfs", "pack", sa.as_str(), oa.as_str()], false),
        "exiso-c" => (vec!["xdvdfs", "extract-xiso", "-c", sa.as_str(), oa.as_str()], false),
        "compress" => (vec!["xdvdfs", "compress", sa.as_str(), oa.as_str()], true),
        "desk-pack" => (vec!["desk", "pack", sa.as_str(), oa.as_str()], false),
        "desk-compress" => (vec!["desk", "compress", sa.as_str(), oa.as_str()], true),
        _ => (vec!["xdvdfs", "build-image", "-m", "**:/{0}", sa.as_str(), oa.as_str()], false),
    };
    let build = s.str("cmd") == "build";
    let what = a.join(" ");
    let Some(p) = proc(cx, &mut o, &cfg, bin(s), &sv(&a), &nodes, true) else { return o };
    o.nontrivial = true;
    if p.code == -24 || p.code == 78 {
        o.fail(format!("`{}` {}", what, bad_end(&p).unwrap()));
        return o;
    }
    let Some(out) = &p.out else { return o };
    // `compress` writes <name>.1.cso next to the name given, which is no alias of an image
    let exists_in_src = nodes.iter().any(|n| n.path == format!("{}{}", srcp, target).as_bytes());
    let r = if build && !exists_in_src {
        // build-image may put its output inside the source directory, if it replaces nothing
        let m = node_map(out);
        nodes.iter().enumerate().find_map(|(i, n)| match m.get(&n.path) {
            Some(x) if x.ino == i as u64 + 1 && !x.dirty => None,
            _ => Some(format!("{} was changed", txt(&n.path))),
        })
    } else {
        unchanged(&nodes, out, &[victim.as_str()])
    };
    if let Some(e) = r {
        o.fail(format!("`{}` (exit {}) touched its own source: {}", what, p.code, e));
        return o;
    }
    if p.code == 0 && !cso && !(build && !exists_in_src) {
        o.fail(format!("`{}` accepted an output that is or lies inside its source", what));
    }
    o
}
