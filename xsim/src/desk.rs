//! C21: the commands of the desktop app; C22: the operations of the web app.
use crate::image::*;
use crate::rcmd::*;
use crate::scn::*;
use crate::simfmt::*;
use crate::tree::*;
use crate::wcmd::*;
use serde_json::Value;

/// Events of a run in order: (name, payload).
fn events(stdout: &[u8]) -> Result<Vec<(String, Value)>, String> {
    let mut v = vec![];
    for l in String::from_utf8_lossy(stdout).lines() {
        let (n, p) = l.split_once(' ').ok_or(format!("unexpected output {:?}", l))?;
        let p = serde_json::from_str(p).map_err(|_| format!("unexpected output {:?}", l))?;
        v.push((n.to_string(), p));
    }
    Ok(v)
}
/// The entries reported as done, and the number of entries announced before the first of them.
fn entries(ev: &[(String, Value)]) -> Result<(u64, Vec<(bool, String, u64)>), String> {
    let (mut total, mut got) = (0, vec![]);
    for (n, p) in ev {
        if n != "progress_callback" {
            continue;
        }
        let Some((k, x)) = p.as_object().and_then(|o| o.iter().next()) else { continue };
        match k.as_str() {
            "FileCount" | "DirCount" => {
                if !got.is_empty() {
                    return Err("a total is announced after the first entry".into());
                }
                total += x.as_u64().unwrap_or(0);
            }
            "FileAdded" | "DirAdded" => {
                let path = x[0].as_str().unwrap_or("").to_string();
                got.push((k == "DirAdded", path, x[1].as_u64().unwrap_or(u64::MAX)));
            }
            _ => {}
        }
    }
    Ok((total, got))
}
fn compare(total: u64, mut want: Vec<(bool, String, u64)>, mut got: Vec<(bool, String, u64)>) -> Result<(), String> {
    if total != got.len() as u64 {
        return Err(format!("announced total {} but {} entries are reported", total, got.len()));
    }
    want.sort();
    got.sort();
    if want != got {
        let x = want.iter().find(|x| !got.contains(x));
        let y = got.iter().find(|x| !want.contains(x));
        return Err(format!("progress does not match the contents: expected {:?}, reported {:?} ({} of {} entries)", x, y, got.len(), want.len()));
    }
    Ok(())
}

fn progress_of_write(s: &Scn, w: &WSetup, stdout: &[u8], img: &Parsed, len: u64) -> Result<(), String> {
    let ev = events(stdout)?;
    let (total, got) = entries(&ev)?;
    // paths of a directory source are reported as the user gave it
    let base = String::from_utf8_lossy(&w.argv[2]);
    // a directory may be shown with a slash at its end
    let norm = |p: &str| match p.strip_suffix("/\"") {
        Some(x) if s.variant == "desk-pack-dir" => format!("{}\"", x),
        _ => p.to_string(),
    };
    let show = |p: &str| -> String {
        if s.variant == "desk-pack-dir" {
            norm(&format!("{:?}", std::path::Path::new(&format!("{}/{}", base, p))))
        } else {
            format!("/{}", p)
        }
    };
    let mut want = vec![(true, show(""), img.root.0 as u64)];
    for e in &img.ents {
        want.push((false, show(&e.path), e.sector as u64));
        if e.dir {
            want.push((true, show(&e.path), e.sector as u64));
        }
    }
    let got = got.into_iter().map(|(d, p, n)| (d, norm(&p), n)).collect();
    compare(total, want, got)?;
    if w.cso {
        let mut total = None;
        let (mut done, mut finished) = (0, 0);
        for (n, p) in &ev {
            if n != "compress_callback" {
                continue;
            }
            if p == "Finished" {
                finished += 1;
            } else if let Some(x) = p.get("SectorCount").and_then(|x| x.as_u64()) {
                total = Some(x);
            } else if let Some(x) = p.get("SectorsDone").and_then(|x| x.as_u64()) {
                done += x;
            }
        }
        let Some(total) = total else { return Err("no total number of sectors is reported".into()) };
        let real = len / 2048;
        // the format library counts the end of the image as one more sector
        if total < real || total > real + 1 || done > total || total - done > 739 || finished != 1 {
            return Err(format!("{} sectors announced and {} reported done ({} times finished) for an image of {} sectors", total, done, finished, real));
        }
    }
    Ok(())
}

/// The total is announced again whenever it grows; entries are reported by their names.
fn progress_of_web_unpack(x: &XSetup, stdout: &[u8]) -> Result<(), String> {
    let (mut total, mut got) = (0, vec![]);
    for (_, p) in events(stdout)? {
        if let Some(n) = p.get("FileCount").and_then(|n| n.as_u64()) {
            if n < total {
                return Err("the announced total shrinks".into());
            }
            total = n;
        } else if let Some(n) = p.get("FileAdded") {
            got.push((false, n[0].as_str().unwrap_or("").to_string(), n[1].as_u64().unwrap_or(u64::MAX)));
        }
    }
    let name = |k: &str| k.rsplit('/').next().unwrap().to_string();
    let want = x.built.ext.iter().filter(|(k, _)| !k.is_empty()).map(|(k, e)| (false, name(k), e.1 as u64)).collect();
    compare(total, want, got)
}
fn whole_files(x: &XSetup, out: &Output) -> Result<(), String> {
    for (k, v) in host_model(&x.nodes, out, &x.dest) {
        let path = format!("{}/{}", x.dest, k);
        let i = x.nodes.iter().position(|n| n.path == path.as_bytes());
        match (x.expect.get(&k), v) {
            (None, _) => return Err(format!("unexpected entry {}", k)),
            (Some(None), None) => {}
            (Some(Some(want)), Some(got)) => {
                let old = i.is_some_and(|i| matches!(&x.nodes[i].kind, NodeKind::File(f) if *f == *got));
                let new = i.is_none() && got.len == 0;
                if !old && !new {
                    same_data(want, &got).map_err(|e| format!("{}: {}", k, e))?;
                }
            }
            _ => return Err(format!("{} has the wrong type", k)),
        }
    }
    Ok(())
}
fn whole_image(w: &WSetup, out: &Output) -> Result<(), String> {
    let old = |p: &[u8]| w.nodes.iter().find(|n| n.path == p).and_then(|n| if let NodeKind::File(f) = &n.kind { Some(f) } else { None });
    for n in &out.nodes {
        let NodeKind::File(f) = &n.kind else { continue };
        if !n.dirty {
            continue;
        }
        match old(&n.path) {
            Some(o) if o == f => continue,
            None if f.len == 0 => continue,
            _ => {}
        }
        output_image(w, out)
            .and_then(|img| parse(&img, false).map_err(|e| e.to_string()))
            .and_then(|p| diff(&w.expect, &p.model).map_or(Ok(()), Err))
            .map_err(|e| format!("{}: {}", txt(&n.path), e))?;
    }
    Ok(())
}

pub fn exec_c21(cx: &Cx, s: &Scn) -> Outcome {
    match s.variant.as_str() {
        "desk-hostile" | "web-hostile" => return exec_c10(cx, s),
        "desk-unpack" if s.num("collide") == 1 => return exec_source_kept(cx, s),
        "desk-alias" => return exec_alias(cx, s),
        _ => {}
    }
    let mut o = Outcome::default();
    let web = s.prop == "C22";
    let unpack = s.variant.ends_with("-unpack");
    let (w, x);
    let (argv, nodes, what, src);
    if unpack {
        x = Some(xsetup(s));
        w = None;
        let x = x.as_ref().unwrap();
        (argv, nodes, what, src) = (&x.argv, &x.nodes, &x.what, vec![x.img_path.clone()]);
    } else {
        w = Some(wsetup(s));
        x = None;
        let w = w.as_ref().unwrap();
        (argv, nodes, what, src) = (&w.argv, &w.nodes, &w.what, w.src.clone());
    }
    let cfg = s.config();
    let hard = s.capacity.is_some() || !s.mutations.is_empty() || s.faults.iter().any(|f| matches!(f.1, F_ERRNO | F_ERRNO_STICKY | F_PARTIAL_ERR | F_CRASH | F_MUTATE));
    let Some(p) = proc(cx, &mut o, &cfg, bin(s), argv, nodes, true) else { return o };
    o.nontrivial = !s.tree.is_empty();
    if let Some(b) = bad_end(&p) {
        o.fail(format!("`{}` {}", what, b));
        return o;
    }
    let Some(out) = &p.out else { return o };
    if p.code == 77 {
        // closed in between
    } else if p.code != 0 {
        if !hard {
            o.fail(format!("`{}` fails on a valid source: {}", what, txt(&p.stderr)));
        } else if p.code == 1 && p.stderr.iter().all(|c| c.is_ascii_whitespace()) {
            o.fail(format!("`{}` fails without any message", what));
        }
    } else if let Some(x) = &x {
        let r = check_extracted(x, out).and_then(|_| {
            if web {
                return progress_of_web_unpack(x, &p.stdout);
            }
            let (total, got) = entries(&events(&p.stdout)?)?;
            let want = x.expect.iter().map(|(k, _)| (false, format!("{}/{}", x.dest, k), 0)).collect();
            let got = got.into_iter().map(|(d, p, n)| (d, if p.starts_with('/') { p } else { format!("/w/{}", p) }, n)).collect();
            compare(total, want, got)
        });
        if let Err(e) = r {
            o.fail(format!("`{}` reports success, but: {}", what, e));
        }
    } else if let Some(w) = &w {
        let r = output_image(w, out).and_then(|img| {
            if w.cso && !new_files(nodes, out).iter().all(|n| n.path.starts_with(b"/w/o/")) {
                return Err("the image is not in the selected directory".into());
            }
            let parsed = parse(&img, s.mutations.is_empty()).map_err(|e| format!("malformed image: {}", e))?;
            match diff_alt(&w.expect, &parsed.model, &acceptable(s, w)) {
                None => progress_of_write(s, w, &p.stdout, &parsed, img.len),
                Some(d) => Err(format!("wrong contents: {}", d)),
            }
        });
        if let Err(e) = r {
            o.fail(format!("`{}` reports success, but: {}", what, e));
        }
    }
    if web && s.mutations.is_empty() && p.code != 0 && !o.failed() {
        // nothing but complete files takes the place of what was there before
        let r = match (&x, &w) {
            (Some(x), _) => whole_files(x, out),
            (_, Some(w)) => whole_image(w, out),
            _ => Ok(()),
        };
        if let Err(e) = r {
            o.fail(format!("`{}` (exit {}) leaves a torn file: {}", what, p.code, e));
        }
    }
    if s.mutations.is_empty() && !o.failed() {
        let src: Vec<&str> = src.iter().map(|x| x.as_str()).collect();
        if let Some(e) = unchanged(nodes, out, &src) {
            o.fail(format!("`{}` changed its source: {}", what, e));
        }
    }
    o
}
