//! C25: the pages of the web app, used by a simulated user.
use crate::gen::pickv;
use crate::image::*;
use crate::rcmd::*;
use crate::run::*;
use crate::scn::*;
use crate::simfmt::*;
use crate::tree::*;
use crate::wcmd::*;
use serde_json::Value;
use std::collections::BTreeMap;

/// One visit: the user walks through the pages, mostly in the order they ask for, sometimes not.
pub fn gen_c25(r: &mut Rng, s: &mut Scn) {
    s.variant = pickv(r, &[("pages", 3), ("dpages", 2)]).into();
    let n = *r.pick(&[1u64, 2, 3, 4, 6]);
    let pages: &[&str] = r.pick::<&[&str]>(&[&["p"], &["u"], &["c"], &["p", "u"], &["p", "u", "c"], &["u", "c"]]);
    let rare = *r.pick(&[0u64, 1, 3]);
    for _ in 0..n {
        let p = *r.pick(pages);
        flow(r, s, p, rare);
    }
    if r.chance(1, 3) {
        // what is done on one page goes on while another is used
        let i = r.below(s.list.len() as u64) as usize;
        s.list.retain(|x| x != "idle");
        s.list.insert(i.min(s.list.len()), "idle".into());
    }
    if s.variant == "dpages" {
        // operations on several pages at once are not claimed for the desktop app: all hear all events
        let mut last = String::new();
        let mut l = vec![];
        for x in std::mem::take(&mut s.list) {
            let page = x.split(':').next().unwrap().to_string();
            if page.len() == 1 && page != last {
                l.push("idle".into());
                last = page;
            }
            l.push(x);
        }
        s.list = l;
    }
}
fn press(r: &mut Rng, s: &mut Scn, p: &str, b: u64, rare: u64) {
    if r.below(12) < rare {
        s.list.push(format!("{}:{}", p, b));
        if r.chance(1, 2) {
            return;
        }
    }
    let f = pickv(r, &[("i0.iso", 6), ("i1.iso", 3), ("bad.iso", rare), ("p0.iso", 1)]);
    let d = if (p == "u" && b == 1) || (p == "c" && b == 3) { format!("{}{}", p, r.below(2)) } else { pickv(r, &[("s0", 4), ("s1.2", 2)]).into() };
    let o = pickv(r, &[("p0.iso", 2), ("p1.iso", 1)]);
    let d = if d.starts_with('s') && s.variant == "dpages" && r.chance(1, 12) { "/".to_string() } else { format!("/w/{}", d) };
    s.list.push(format!("{}:{}:/w/{}:{}:/w/{}", p, b, f, d, o));
    if r.chance(1, 4) {
        s.list.push(format!("events:{}", r.below(20)));
    }
    if r.below(12) < rare {
        // a step too early, too late or again
        let b = r.below(4);
        press(r, s, p, b, 0);
    }
}
fn flow(r: &mut Rng, s: &mut Scn, p: &str, rare: u64) {
    if p != "u" {
        let k = if p == "c" { r.below(2) } else { r.below(3) & 1 };
        if r.chance(5, 6) {
            press(r, s, p, k, 0);
        }
    }
    let (i, o) = if p == "u" { (0, 1) } else { (2, 3) };
    if r.chance(5, 6) {
        press(r, s, p, i, rare);
        if r.below(8) < rare {
            press(r, s, p, i, rare);
        }
    }
    for _ in 0..pickv(r, &[("1", 6), ("2", 1 + rare), ("3", rare)]).parse().unwrap() {
        press(r, s, p, o, rare);
        if r.below(8) < rare {
            // impatient
            s.list.push(format!("events:{}", r.below(60)));
            let b = r.below(4);
            press(r, s, p, b, 0);
        }
        if r.chance(3, 4) {
            s.list.push("idle".into());
        }
    }
}

struct World {
    nodes: Vec<FsNode>,
    models: BTreeMap<String, Model>,
}
fn world(s: &Scn) -> World {
    let second: Tree = (0..3)
        .map(|i| {
            let mut e = dent(["a.bin", "b", "b/c.txt"][i].into());
            e.dir = i == 1;
            if !e.dir {
                e.len = [5000, 0, 70][i];
                e.seed = 9 + i as u64;
            }
            e
        })
        .collect();
    let mut nodes = vec![dir_node("/w")];
    let mut models = BTreeMap::new();
    for (i, t) in [&s.tree, &second].into_iter().enumerate() {
        let dir = ["/w/s0", "/w/s1.2"][i];
        nodes.extend(host_nodes(dir, t));
        let b = build_image(t, s.img.as_ref().unwrap_or(&ImgOpts::default()));
        nodes.push(file_node(&format!("/w/i{}.iso", i), b.img));
        models.insert(dir.to_string(), model(t));
        models.insert(format!("/w/i{}.iso", i), model(t));
    }
    nodes.push(file_node("/w/bad.iso", FileData::from_bytes(&b"no image".repeat(20_000))));
    for d in ["u0", "u1", "c0", "c1"] {
        nodes.push(dir_node(&format!("/w/{}", d)));
    }
    World { nodes, models }
}

#[derive(Default, Clone)]
struct Page {
    name: String,
    /// a directory is packed
    dir: Option<bool>,
    input: Option<String>,
    output: Option<String>,
    /// an output was chosen, and the operation has not ended
    busy: bool,
    called: bool,
    result: Option<Result<(), String>>,
    added: u64,
    view: Value,
    /// button whose dialog has to be open
    asked: Option<u64>,
    /// names chosen before
    old: Vec<String>,
}
impl Page {
    fn offered(&self) -> u64 {
        if self.name == "u" {
            return 1 + self.input.is_some() as u64;
        }
        2 + self.dir.is_some() as u64 + self.input.is_some() as u64
    }
    fn check_view(&self) -> Result<(), String> {
        let empty = vec![];
        let l = self.view.as_array().unwrap_or(&empty);
        let buttons: Vec<bool> = l.iter().flat_map(|c| c[2].as_array().unwrap()).map(|b| b.as_bool().unwrap()).collect();
        if buttons.len() as u64 != self.offered() {
            return Err(format!("{} buttons are offered, {} make sense now", buttons.len(), self.offered()));
        }
        if let Some(b) = buttons.iter().position(|d| *d != self.busy) {
            return Err(if self.busy { format!("button {} can be pressed while the operation runs", b) } else { format!("button {} cannot be pressed", b) });
        }
        let bars: Vec<&Value> = l.iter().filter(|c| !c[3].is_null()).collect();
        let shown = self.busy || self.result.is_some();
        if bars.len() != shown as usize {
            return Err(format!("{} states of an operation are shown", bars.len()));
        }
        if let Some(c) = bars.first() {
            let want = match &self.result {
                _ if self.busy => "Primary",
                Some(Ok(())) => "Success",
                _ => "Danger",
            };
            if c[0] != want {
                return Err(format!("the operation {}, but {} is shown", if self.busy { "runs".into() } else { format!("has ended: {:?}", self.result) }, c[0]));
            }
            if let (false, Some(Err(e))) = (self.busy, &self.result) {
                if !has(c, e) {
                    return Err(format!("the error {:?} is not shown", e));
                }
            }
            let v = c[3].as_f64().unwrap();
            if !(0.0..=1.0).contains(&v) {
                return Err(format!("a progress of {} is shown", v));
            }
            if !self.busy && self.result == Some(Ok(())) && self.added > 0 && v != 1.0 {
                return Err(format!("the operation succeeded, but a progress of {} is shown", v));
            }
        }
        let mut now = vec![];
        for (what, p) in [("input", &self.input), ("output", &self.output)] {
            let Some(p) = p else { continue };
            let n = p.rsplit('/').find(|n| !n.is_empty()).unwrap_or("/");
            now.push(n);
            if !l.iter().any(|c| c[3].is_null() && has(c, n)) {
                return Err(format!("the name of the chosen {}, {:?}, is not shown", what, n));
            }
        }
        // nothing is shown as chosen that is not used
        if let Some(n) = self.old.iter().find(|n| !now.contains(&n.as_str()) && l.iter().any(|c| c[3].is_null() && has(c, n))) {
            return Err(format!("{:?} is shown, which is no longer chosen", n));
        }
        Ok(())
    }
}
fn has(c: &Value, t: &str) -> bool {
    c[1].as_array().unwrap().iter().any(|x| x.as_str().unwrap().contains(t))
}

#[derive(Default)]
struct Seen {
    /// (page, source, output, result)
    ops: Vec<(String, String, String, Option<Result<(), String>>)>,
}
fn follow(stdout: &[u8], complete: bool) -> Result<Seen, String> {
    let mut pages: BTreeMap<String, Page> = ["p", "u", "c"].iter().map(|n| (n.to_string(), Page { name: n.to_string(), ..Default::default() })).collect();
    let mut seen = Seen::default();
    let at = |k: &str, e: String| format!("{} page: {}", match k {
        "p" => "packing",
        "u" => "unpacking",
        _ => "compression",
    }, e);
    for l in String::from_utf8_lossy(stdout).lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else {
            if complete {
                return Err(format!("unexpected output {:?}", l));
            }
            break;
        };
        let Some((kind, name)) = ["press", "dialog", "call", "end", "progress", "view"].iter().find_map(|k| v[k].as_str().map(|n| (*k, n.to_string()))) else {
            return Err(format!("unexpected output {:?}", l));
        };
        // whatever a page shows when the user or an operation acts is right
        if kind == "press" {
            for p in pages.values() {
                p.check_view().map_err(|e| at(&p.name, e))?;
            }
        }
        let p = pages.get_mut(&name).unwrap();
        let b = v["button"].as_u64().unwrap_or(0);
        match kind {
            "press" => {
                if let Some(b) = p.asked {
                    return Err(at(&name, format!("button {} opens no dialog", b)));
                }
                let want = match () {
                    _ if b >= p.offered() => "absent",
                    _ if p.busy => "disabled",
                    _ => "pressed",
                };
                if v["state"] != want {
                    return Err(at(&name, format!("button {} is {}, not {}", b, v["state"], want)));
                }
                if want == "pressed" {
                    if name != "u" && b < 2 {
                        *p = Page { name: name.clone(), dir: Some(b == 0), view: p.view.clone(), old: p.old.clone(), ..Default::default() };
                    } else {
                        p.asked = Some(b);
                    }
                }
            }
            "dialog" => {
                if p.asked.take() != Some(b) {
                    return Err(at(&name, format!("a dialog is opened that nobody asked for: {}", l)));
                }
                let output = b == if name == "u" { 1 } else { 3 };
                let want = match name.as_str() {
                    "p" if output => "save",
                    _ if output || p.dir == Some(true) => "dir",
                    _ => "file",
                };
                if v["kind"] != want {
                    return Err(at(&name, format!("button {} asks for a {}, not a {}", b, v["kind"], want)));
                }
                if want == "save" {
                    // (the names of directories have no extension)
                    let stem = p.input.as_deref().unwrap_or("").rsplit('/').next().unwrap().trim_end_matches(".iso").to_string();
                    if !(stem.is_empty() && v["suggested"].is_null()) && !v["suggested"].as_str().is_some_and(|n| n.starts_with(&stem) && n.ends_with(".iso") && n.len() > 4) {
                        return Err(at(&name, format!("{} is suggested as a name of the image of {:?}", v["suggested"], p.input)));
                    }
                }
                let Some(x) = v["picked"].as_str().map(|x| x.to_string()) else { continue };
                p.old.extend(x.rsplit('/').next().filter(|n| !n.is_empty()).map(|n| n.to_string()));
                if output {
                    p.output = Some(x);
                    p.busy = true;
                    p.called = false;
                } else {
                    p.input = Some(x);
                    p.output = None;
                }
                p.result = None;
                p.added = 0;
            }
            "call" => {
                if !p.busy || p.called {
                    return Err(at(&name, format!("an operation is started that nobody asked for: {}", l)));
                }
                p.called = true;
                let (a, b) = (v["source"].as_str().unwrap_or(""), v["output"].as_str().unwrap_or(""));
                if Some(a) != p.input.as_deref() || Some(b) != p.output.as_deref() {
                    return Err(at(&name, format!("{:?} and {:?} were chosen, the operation gets {:?} and {:?}", p.input, p.output, a, b)));
                }
                seen.ops.push((name, a.into(), b.into(), None));
            }
            "end" => {
                let r = v["error"].as_str().map_or(Ok(()), |e| Err(e.to_string()));
                seen.ops.iter_mut().rfind(|o| o.0 == name).unwrap().3 = Some(r.clone());
                p.busy = false;
                p.result = Some(r);
            }
            "progress" => {
                if v["info"].get("FileAdded").is_some() || v["info"].get("SectorCount").is_some() {
                    p.added += 1;
                }
            }
            _ => {
                p.view = v["shows"].clone();
                p.check_view().map_err(|e| at(&name, e))?;
            }
        }
    }
    if complete {
        for p in pages.values() {
            p.check_view().map_err(|e| at(&p.name, e))?;
            if p.busy {
                return Err(at(&p.name, format!("the operation {}", if p.called { "never ends" } else { "is not started" })));
            }
            if let Some(b) = p.asked {
                return Err(at(&p.name, format!("button {} opens no dialog", b)));
            }
        }
    }
    Ok(seen)
}

pub fn exec_c25(cx: &Cx, s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let desk = s.variant == "dpages";
    if !std::path::Path::new(if desk { &cx.env.dpages } else { &cx.env.pages }).exists() {
        return o;
    }
    let w = world(s);
    let mut argv: Vec<Vec<u8>> = vec![b"pages".to_vec()];
    if desk {
        argv.push(s.seed.to_string().into_bytes());
    }
    argv.extend(s.list.iter().map(|x| x.clone().into_bytes()));
    let cfg = s.config();
    let Some(p) = proc(cx, &mut o, &cfg, if desk { Bin::DeskPages } else { Bin::Pages }, &argv, &w.nodes, true) else { return o };
    if let Some(b) = bad_end(&p) {
        o.fail(format!("the app {}", b));
        return o;
    }
    let Some(out) = &p.out else { return o };
    let seen = match follow(&p.stdout, p.code != 77) {
        Ok(x) => x,
        Err(e) => {
            o.fail(e);
            return o;
        }
    };
    o.nontrivial = seen.ops.iter().any(|x| x.3.is_some());
    if p.code == 77 || !s.mutations.is_empty() {
        return o;
    }
    // what is shown as done is done
    for (i, (page, src, dst, r)) in seen.ops.iter().enumerate() {
        let Some(m) = w.models.get(src) else { continue };
        let others = || seen.ops.iter().enumerate().filter(|(j, x)| *j != i && x.2 == *dst);
        if let (Some(Err(e)), true) = (r, s.faults.is_empty() && s.capacity.is_none() && (page != "u" || others().count() == 0)) {
            o.fail(format!("{} page: {} -> {} fails although nothing is wrong: {}", page, src, dst, e));
            return o;
        }
        if *r != Some(Ok(())) {
            continue;
        }
        let e = match page.as_str() {
            // (a failed operation leaves the old image in the browser, and a part of its own elsewhere)
            "p" if others().all(|(j, x)| j < i || (!desk && x.3 != Some(Ok(())))) => match file_after(&w.nodes, out, dst) {
                None => Err("there is no image".into()),
                Some(f) => parse(&f, false).map_err(|e| e.to_string()).and_then(|q| diff(m, &q.model).map_or(Ok(()), Err)),
            },
            "u" if others().count() == 0 => diff(m, &host_model(&w.nodes, out, dst)).map_or(Ok(()), Err),
            _ => continue,
        };
        if let Err(e) = e {
            o.fail(format!("{} page: success is shown for {} -> {}, but: {}", page, src, dst, e));
            return o;
        }
    }
    let src: Vec<&str> = ["/w/s0", "/w/s1.2", "/w/i0.iso", "/w/i1.iso", "/w/bad.iso"].to_vec();
    if let Some(e) = unchanged(&w.nodes, out, &src) {
        o.fail(format!("a source was changed: {}", e));
    }
    o
}
