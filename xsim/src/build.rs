//! build-image: reference semantics of the map rules, and the runs that are judged by it (C13);
//! refusal of sources that cannot be represented (C18).
use crate::image::*;
use crate::scn::*;
use crate::simfmt::*;
use crate::tree::*;
use crate::wcmd::*;
use std::collections::BTreeMap;
use wax::Pattern;

pub type Rules = Vec<(String, String)>;
pub fn rules_of(list: &[String]) -> Rules {
    list.iter()
        .filter(|l| !l.is_empty())
        .map(|l| match l.split_once(':') {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (l.clone(), String::new()),
        })
        .collect()
}

pub struct Remapped {
    pub model: Model,
    /// (host, image) of every file
    pub files: Vec<(String, String)>,
    /// image directory -> host directories mapped to it
    pub dirs: BTreeMap<String, Vec<String>>,
}

/// What the rules select, per the documentation: a path belongs to its deepest ancestor (or
/// itself) that any rule names; for that one, rules are tried in order, a negated match drops what
/// came before, the first remaining positive match gives the image path, to which the rest of
/// the path is appended. Errors: rule sets with conflicting targets.
pub fn remap(m: &Model, rules: &Rules) -> Result<Remapped, String> {
    let globs: Vec<(bool, wax::Glob<'static>, String)> = rules
        .iter()
        .map(|(h, i)| {
            let g = wax::Glob::new(h.trim_start_matches('!')).map_err(|e| e.to_string())?.into_owned();
            Ok((h.starts_with('!'), g, i.clone()))
        })
        .collect::<Result<_, String>>()?;
    let mut out = Remapped { model: Model::new(), files: vec![], dirs: BTreeMap::new() };
    let mut folded: BTreeMap<String, String> = BTreeMap::new();
    for (p, f) in m {
        let mut anc = parents(p);
        anc.push(p.clone());
        let Some(prefix) = anc.iter().rev().find(|a| globs.iter().any(|g| g.1.is_match(a.as_str()))) else { continue };
        let mut target: Option<String> = None;
        for (neg, g, img) in &globs {
            let cand = wax::CandidatePath::from(prefix.as_str());
            let Some(mt) = g.matched(&cand) else { continue };
            if *neg {
                target = None;
                continue;
            }
            if target.is_some() {
                continue;
            }
            // substitute {n}
            let mut t = String::new();
            let mut rest = img.as_str();
            while let Some(a) = rest.find('{') {
                let b = rest[a..].find('}').ok_or("unclosed brace")? + a;
                t.push_str(&rest[..a]);
                let n: usize = rest[a + 1..b].parse().map_err(|_| "not a number")?;
                t.push_str(mt.get(n).unwrap_or(""));
                rest = &rest[b + 1..];
            }
            t.push_str(rest);
            target = Some(t);
        }
        let Some(t) = target else { continue };
        let suffix = &p[prefix.len()..];
        let t = format!("{}/{}", t, suffix);
        let comps: Vec<&str> = t.split('/').filter(|c| !c.is_empty()).skip_while(|c| *c == ".").collect();
        if comps.iter().any(|c| *c == "." || *c == "..") {
            return Err("relative component".into());
        }
        if comps.is_empty() {
            if f.is_some() {
                return Err("a file is mapped to the root".into());
            }
            continue;
        }
        let mut cur = String::new();
        for (i, c) in comps.iter().enumerate() {
            if !cur.is_empty() {
                cur.push('/');
            }
            cur.push_str(c);
            let leaf = i + 1 == comps.len();
            if let Some(o) = folded.insert(fold(&cur), cur.clone()) {
                if o != cur {
                    return Err("names differ only in case".into());
                }
            }
            match out.model.get(&cur) {
                None => {
                    let v = if leaf { f.clone() } else { None };
                    out.model.insert(cur.clone(), v);
                }
                Some(None) if !leaf || f.is_none() => {}
                _ => return Err(format!("conflicting targets at {}", cur)),
            }
        }
        if f.is_some() {
            out.files.push((p.clone(), cur));
        } else {
            out.dirs.entry(cur).or_default().push(p.clone());
        }
    }
    Ok(out)
}

fn toml_spec(rules: &Rules, output: Option<&str>) -> String {
    let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
    let mut t = String::new();
    if let Some(o) = output {
        t.push_str(&format!("[metadata]\noutput = {}\n\n", q(o)));
    }
    t.push_str("[map_rules]\n");
    for (a, b) in rules {
        t.push_str(&format!("{} = {}\n", q(a), q(b)));
    }
    t
}

/// C13. Variants: flags, spec (xdvdfs.toml in the source), spec-f (-f), spec-arg (the spec as the
/// source argument), gen (spec made by image-spec). n: out 0 argument / 1 -O or metadata / 2 default,
/// dry 0/1, cwd 1: source is the working directory
pub fn exec_c13(cx: &Cx, s: &Scn) -> Outcome {
    if s.variant == "lib-remap" {
        return crate::libsim::exec_c13_lib(s);
    }
    let mut o = Outcome::default();
    let rules = rules_of(&s.list);
    let mut m = model(&s.tree);
    let mut cfg = s.config();
    let mut nodes = vec![dir_node("/w"), dir_node("/w/o")];
    nodes.extend(host_nodes("/w/src", &s.tree));
    let outmode = s.num("out");
    let use_cwd = s.num("cwd") == 1;
    let rel_out = "../o/x.iso";
    let meta = if outmode == 1 { Some(rel_out) } else { None };
    let variant = s.variant.as_str();
    // a table cannot hold two rules for one pattern
    let hosts: std::collections::BTreeSet<&String> = rules.iter().map(|r| &r.0).collect();
    let twice = hosts.len() < rules.len();
    if twice && variant.starts_with("spec") {
        return o;
    }
    let mut spec = toml_spec(&rules, meta);
    let mut flags: Vec<String> = vec![];
    for r in &rules {
        flags.push(["-m", "--map"][(s.seed & 1) as usize].into());
        flags.push(if r.0.starts_with('!') && r.1.is_empty() { r.0.clone() } else { format!("{}:{}", r.0, r.1) });
    }
    if variant == "gen" {
        let mut a: Vec<String> = vec!["xdvdfs".into(), "image-spec".into(), "from".into()];
        a.extend(flags.clone());
        if let Some(x) = meta {
            a.extend(["-O".into(), x.into()]);
        }
        let to_file = s.num("tofile") == 1;
        if to_file {
            a.push("/w/o/spec.toml".into());
        }
        let argv: Vec<Vec<u8>> = a.iter().map(|x| os_bytes(x)).collect();
        let Some(p) = proc(cx, &mut o, &cfg, bin(s), &argv, &nodes, false) else { return o };
        if twice && p.code != 0 && bad_end(&p).is_none() && p.stdout.is_empty() {
            if let Some(e) = p.out.as_ref().and_then(|out| unchanged(&nodes, out, &["/w"])) {
                o.fail(format!("`{}` fails, but: {}", a.join(" "), e));
            }
            return o;
        }
        if p.code != 0 || bad_end(&p).is_some() {
            o.fail(format!("`{}` fails (exit {}): {}", a.join(" "), p.code, txt(&p.stderr)));
            return o;
        }
        let text = if to_file {
            let Some(f) = p.out.as_ref().and_then(|out| file_after(&nodes, out, "/w/o/spec.toml")) else {
                o.fail(format!("`{}` wrote no spec", a.join(" ")));
                return o;
            };
            f.to_vec()
        } else {
            p.stdout.clone()
        };
        spec = String::from_utf8_lossy(&text).into_owned();
    }
    let spec_node = FileData::from_bytes(spec.as_bytes());
    let mut a: Vec<String> = vec!["xdvdfs".into(), "build-image".into()];
    let mut src: Option<String> = Some(if s.num("rel") == 1 { "src".into() } else { "/w/src".into() });
    match variant {
        "flags" => {
            a.extend(flags);
            if outmode == 1 {
                a.extend(["-O".into(), rel_out.into()]);
            }
            if s.num("decoy") == 1 {
                // a spec in the source that the flags override
                let d = FileData::from_bytes(b"[map_rules]\n\"**\" = \"/decoy/{0}\"\n");
                nodes.push(file_node("/w/src/xdvdfs.toml", d.clone()));
                m.insert("xdvdfs.toml".into(), Some(std::sync::Arc::new(d)));
            }
        }
        "spec" | "gen" => {
            nodes.push(file_node("/w/src/xdvdfs.toml", spec_node.clone()));
            m.insert("xdvdfs.toml".into(), Some(std::sync::Arc::new(spec_node)));
        }
        "spec-f" => {
            nodes.push(file_node("/w/spec.toml", spec_node));
            a.extend(["-f".into(), "/w/spec.toml".into()]);
        }
        _ => {
            nodes.push(file_node("/w/src/my.toml", spec_node.clone()));
            m.insert("my.toml".into(), Some(std::sync::Arc::new(spec_node)));
            src = Some("/w/src/my.toml".into());
        }
    }
    let want = match remap(&m, &rules) {
        Ok(w) => w,
        Err(_) => return o, // conflicting targets are outside the property
    };
    if use_cwd && variant != "spec-arg" && outmode != 0 {
        cfg.cwd = b"/w/src".to_vec();
        src = None;
    }
    // the same source, spelled differently
    let sp = s.num("sp");
    if sp > 0 {
        let dot = ["", ".", "./", "../src", "../src/", "./.", "../src/."][sp.min(6) as usize];
        if use_cwd {
            cfg.cwd = b"/w/src".to_vec();
            src = Some(match (variant, dot) {
                ("spec-arg", ".") => "my.toml".into(),
                ("spec-arg", d) => format!("{}/my.toml", d.trim_end_matches('/')),
                (_, d) => d.into(),
            });
        } else {
            let d = ["", "/w/src/", "/w/./src", "src/", "./src", "/w/o/../src", "src/."][sp.min(6) as usize];
            src = Some(if variant == "spec-arg" { format!("{}/my.toml", d.trim_end_matches('/')) } else { d.into() });
        }
    }
    let base = a.clone();
    let mut tail: Vec<String> = src.clone().into_iter().collect();
    let out_path = match outmode {
        0 => {
            tail.push("/w/out.iso".into());
            Some("/w/out.iso".to_string())
        }
        1 => Some("/w/o/x.iso".to_string()),
        _ => None,
    };
    o.nontrivial = !want.model.is_empty();
    if s.num("dry") == 1 {
        let mut a = base.clone();
        a.push(["-D", "--dry-run"][(s.seed >> 1 & 1) as usize].into());
        a.extend(tail.clone());
        let argv: Vec<Vec<u8>> = a.iter().map(|x| os_bytes(x)).collect();
        let Some(p) = proc(cx, &mut o, &cfg, bin(s), &argv, &nodes, false) else { return o };
        let w = a.join(" ");
        if p.code != 0 || bad_end(&p).is_some() {
            o.fail(format!("`{}` fails (exit {}): {}", w, p.code, txt(&p.stderr)));
            return o;
        }
        if let Err(e) = check_dry(&want, &p.stdout) {
            o.fail(format!("`{}`: {}", w, e));
            return o;
        }
        if let Some(e) = p.out.as_ref().and_then(|out| unchanged(&nodes, out, &["/w"])) {
            o.fail(format!("`{}` is a dry run, but: {}", w, e));
            return o;
        }
    }
    let mut a = base;
    a.extend(tail);
    let argv: Vec<Vec<u8>> = a.iter().map(|x| os_bytes(x)).collect();
    let Some(p) = proc(cx, &mut o, &cfg, bin(s), &argv, &nodes, true) else { return o };
    let what = format!("{} (rules {:?})", a.join(" "), s.list);
    if let Some(b) = bad_end(&p) {
        o.fail(format!("`{}` {}", what, b));
        return o;
    }
    if p.code != 0 {
        o.fail(format!("`{}` fails (exit {}): {}", what, p.code, txt(&p.stderr)));
        return o;
    }
    let Some(out) = &p.out else { return o };
    let w = WSetup { argv, nodes, expect: want.model, out: out_path, cso: false, src: vec!["/w/src".into()], what: what.clone() };
    if let Err(e) = check_image(&w, out, false) {
        o.fail(format!("`{}` reports success, but: {}", what, e));
        return o;
    }
    if let Some(e) = unchanged(&w.nodes, out, &["/w/src"]) {
        o.fail(format!("`{}` changed its source: {}", what, e));
    }
    o
}
pub fn check_dry(want: &Remapped, stdout: &[u8]) -> Result<(), String> {
    let text = String::from_utf8_lossy(stdout).into_owned();
    let mut files: Vec<String> = want.files.iter().map(|(h, g)| format!("/{} -> /{}", h, g)).collect();
    files.sort();
    let mut got = vec![];
    for l in text.lines() {
        let Some((h, g)) = l.split_once(" -> ") else { return Err(format!("unexpected line {:?}", l)) };
        let (h, g) = (h.trim_start_matches('/').to_string(), g.trim_start_matches('/').to_string());
        if want.dirs.get(&g).is_some_and(|v| v.contains(&h)) {
            continue;
        }
        got.push(l.to_string());
    }
    got.sort();
    if files != got {
        let a = files.iter().find(|x| !got.contains(x));
        let b = got.iter().find(|x| !files.contains(x));
        return Err(format!("the dry run does not list what is packed: missing {:?}, unexpected {:?}", a, b));
    }
    Ok(())
}

/// C18 at process level: the source in the scenario cannot be represented.
pub fn exec_c18(cx: &Cx, s: &Scn) -> Outcome {
    if s.variant.starts_with("lib") {
        return crate::libsim::exec_c18_lib(s);
    }
    let mut o = Outcome::default();
    o.nontrivial = true;
    let mut w = wsetup(s);
    if s.variant == "build" && !s.list.is_empty() {
        // a mapping that gives two files names equal but for case
        w.argv = sv(&["xdvdfs", "build-image"]);
        for r in &s.list {
            w.argv.extend([b"-m".to_vec(), os_bytes(r)]);
        }
        w.argv.extend(sv(&["/w/src", "/w/out.iso"]));
        w.what = format!("xdvdfs build-image with rules {:?}", s.list);
    }
    let cfg = s.config();
    let Some(p) = proc(cx, &mut o, &cfg, bin(s), &w.argv, &w.nodes, true) else { return o };
    if let Some(b) = bad_end(&p) {
        o.fail(format!("`{}` on {} {}", w.what, s.str("case"), b));
        return o;
    }
    if p.code == 0 {
        if s.num("refuse") == 0 {
            if let Some(out) = &p.out {
                if let Err(e) = check_image(&w, out, true) {
                    o.fail(format!("`{}` on {}: {}", w.what, s.str("case"), e));
                }
            }
            return o;
        }
        o.fail(format!("`{}` accepts {}", w.what, s.str("case")));
        return o;
    }
    if s.num("refuse") == 0 {
        o.fail(format!("`{}` refuses {}, which can be represented: {}", w.what, s.str("case"), txt(&p.stderr)));
        return o;
    }
    let Some(out) = &p.out else { return o };
    if p.stderr.iter().all(|c| c.is_ascii_whitespace()) && !crate::wcmd::quiet(s) {
        o.fail(format!("`{}` refuses {} without any message", w.what, s.str("case")));
        return o;
    }
    for n in new_files(&w.nodes, out) {
        let NodeKind::File(f) = &n.kind else { continue };
        let rec = if w.cso { crate::cso::decode(f).map(|c| recognised(&c.data).is_some()).unwrap_or(false) } else { recognised(f).is_some() };
        if rec {
            o.fail(format!("`{}` refuses {} but leaves a recognised image at {}", w.what, s.str("case"), txt(&n.path)));
            return o;
        }
    }
    let src: Vec<&str> = w.src.iter().map(|x| x.as_str()).collect();
    if let Some(e) = unchanged(&w.nodes, out, &src) {
        o.fail(format!("`{}` changed its source: {}", w.what, e));
    }
    o
}

