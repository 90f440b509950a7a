//! Makes a failing scenario smaller while it keeps failing.
use crate::exec::exec;
use crate::scn::*;
use crate::simfmt::*;
use crate::wcmd::Cx;
use std::time::{Duration, Instant};

struct Sh<'a> {
    cx: &'a Cx<'a>,
    end: Instant,
    runs: u64,
    best: Scn,
    best_out: Outcome,
    guarded: bool,
}
impl Sh<'_> {
    fn left(&self) -> bool {
        Instant::now() < self.end
    }
    fn ex(&self, c: &Scn) -> Outcome {
        if self.guarded {
            crate::exec_guarded(self.cx, c, 30)
        } else {
            exec(self.cx, c)
        }
    }
    fn try_(&mut self, c: Scn) -> bool {
        if !self.left() || !valid(&c) {
            return false;
        }
        self.runs += 1;
        let o = self.ex(&c);
        if o.viol.is_some() && o.harness.is_none() {
            self.best = c;
            self.best_out = o;
            return true;
        }
        false
    }
    /// Tries a change of the inputs; faults given by position are moved along.
    fn try_anchored(&mut self, c: Scn) -> bool {
        if self.try_(c.clone()) {
            return true;
        }
        if c.faults.is_empty() || c.rates.iter().any(|x| *x > 0) || c.faults.len() > 3 {
            return false;
        }
        let (old_ops, old_lib) = (self.best_out.ops.clone(), self.best_out.lib_kinds.clone());
        let mut free = c.clone();
        free.faults.clear();
        free.mutations.clear();
        free.capacity = None;
        if !self.left() {
            return false;
        }
        self.runs += 1;
        let b = self.ex(&free);
        let kinds_new: Vec<u8> = if b.ops.is_empty() { b.lib_kinds.clone() } else { b.ops.iter().map(|x| x.kind).collect() };
        let kinds_old: Vec<u8> = if old_ops.is_empty() { old_lib } else { old_ops.iter().map(|x| x.kind).collect() };
        let f = c.faults[0];
        let Some(kind) = kinds_old.get(f.0 as usize).copied() else { return false };
        let nth_end = kinds_old[f.0 as usize..].iter().filter(|k| **k == kind).count();
        let nth_start = kinds_old[..f.0 as usize].iter().filter(|k| **k == kind).count();
        let pos: Vec<u64> = kinds_new.iter().enumerate().filter(|(_, k)| **k == kind).map(|(i, _)| i as u64).collect();
        let mut cand = vec![];
        if nth_end >= 1 && pos.len() >= nth_end {
            cand.push(pos[pos.len() - nth_end]);
        }
        if let Some(p) = pos.get(nth_start) {
            cand.push(*p);
        }
        cand.extend(pos.iter().rev().take(3));
        cand.extend(pos.iter().take(3));
        cand.dedup();
        for p in cand {
            let mut d = c.clone();
            let shift = p as i64 - f.0 as i64;
            for x in d.faults.iter_mut() {
                x.0 = (x.0 as i64 + shift).max(0) as u64;
            }
            if self.try_(d) {
                return true;
            }
        }
        false
    }
}

/// A smaller scenario must still name things that are there.
fn valid(c: &Scn) -> bool {
    if c.prop == "C13" && c.list.is_empty() {
        return false;
    }
    let sel = c.str("sel");
    sel.is_empty() || sel.contains("::") || c.tree.iter().any(|x| x.path == sel || x.path.starts_with(&format!("{sel}/")))
}

pub fn shrink(cx: &Cx, s: &Scn, secs: u64, guarded: bool) -> (Scn, Outcome, u64) {
    let o = if guarded { crate::exec_guarded(cx, s, 60) } else { exec(cx, s) };
    let mut h = Sh { cx, end: Instant::now() + Duration::from_secs(secs), runs: 1, best: s.clone(), best_out: o, guarded };
    if h.best_out.viol.is_none() {
        return (h.best, h.best_out, h.runs);
    }
    // seeded faults become explicit ones
    let mut c = h.best.clone();
    c.rates = [0; NRATES];
    if c.rates != h.best.rates && !h.try_(c.clone()) {
        // (support for copy_file_range is a trait of a pair of files, so it stays a rate)
        c.rates[R_NOCOPY] = h.best.rates[R_NOCOPY];
        c.faults = h.best_out.fired_list.iter().filter(|f| f.kind != F_NOCOPY).map(|f| (f.op, f.kind, f.arg)).collect();
        if c.faults.len() < 5000 {
            h.try_(c);
        }
        for i in 0..NRATES {
            let mut c = h.best.clone();
            if c.rates[i] > 0 {
                c.rates[i] = 0;
                h.try_(c);
            }
        }
    }
    for f in [
        (|c: &mut Scn| c.sync = false) as fn(&mut Scn),
        |c| c.shuffle = 0,
        |c| c.dt_unknown = false,
        |c| c.pend = 0,
    ] {
        let mut c = h.best.clone();
        f(&mut c);
        h.try_anchored(c);
    }
    for round in 0..4 {
        let before = serde_json::to_string(&h.best).unwrap().len();
        // faults
        let mut n = h.best.faults.len();
        while n > 0 && h.left() {
            let mut i = 0;
            let mut any = false;
            while i < h.best.faults.len() {
                let mut c = h.best.clone();
                let e = (i + n).min(c.faults.len());
                c.faults.drain(i..e);
                if h.try_(c) {
                    any = true;
                } else {
                    i += n;
                }
            }
            if n == 1 && !any {
                break;
            }
            n = if n > 1 { n / 2 } else { 0 };
        }
        // list
        let mut n = (h.best.list.len() / 2).max(1);
        while h.best.list.len() > 1 && h.best.prop != "C18" && h.left() {
            let mut i = 0;
            while i < h.best.list.len() {
                let mut c = h.best.clone();
                let e = (i + n).min(c.list.len());
                c.list.drain(i..e);
                if !h.try_anchored(c) {
                    i += n;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        // tree (what cannot be represented must stay so)
        let fixed = h.best.prop == "C18" && h.best.num("refuse") == 1;
        let mut n = (h.best.tree.len() / 2).max(1);
        while !h.best.tree.is_empty() && !fixed && h.left() {
            let mut i = 0;
            while i < h.best.tree.len() {
                let mut c = h.best.clone();
                let e = (i + n).min(c.tree.len());
                let gone: Vec<String> = c.tree.drain(i..e).filter(|x| x.dir).map(|x| format!("{}/", x.path)).collect();
                c.tree.retain(|x| !gone.iter().any(|g| x.path.starts_with(g)));
                if !h.try_anchored(c) {
                    i += n;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        // shorter files
        for i in 0..if fixed { 0 } else { h.best.tree.len() } {
            for l in [0u64, 1, 2048, 2049, 65536] {
                if i < h.best.tree.len() && h.best.tree[i].len > l && h.left() {
                    let mut c = h.best.clone();
                    c.tree[i].len = l;
                    if h.try_anchored(c) {
                        break;
                    }
                }
            }
        }
        if round == 0 {
            let keys: Vec<String> = h.best.n.keys().cloned().collect();
            for k in keys {
                let mut c = h.best.clone();
                if k == "refuse" || c.n[&k] == 0 {
                    continue;
                }
                c.n.insert(k, 0);
                h.try_anchored(c);
            }
            if let Some(io) = h.best.img.clone() {
                let mut v: Vec<crate::image::ImgOpts> = vec![Default::default()];
                macro_rules! f {
                    ($($x:ident),*) => {$({ let mut y = io.clone(); y.$x = Default::default(); v.push(y); })*};
                }
                f!(part, shape, pad, gaps, shuffle, share, attrs, empty_dir, end, nochild_ffff, round_root, exact_dirs, low, decoy, slack);
                for (i, y) in v.into_iter().enumerate() {
                    let mut c = h.best.clone();
                    if i == 0 {
                        c.img = Some(y);
                        if h.try_anchored(c) {
                            break;
                        }
                    } else {
                        // one field at a time, on top of what was achieved
                        let cur = serde_json::to_value(c.img.as_ref().unwrap()).unwrap();
                        let (a, b) = (serde_json::to_value(&io).unwrap(), serde_json::to_value(&y).unwrap());
                        let mut m = cur.clone();
                        for (k, val) in b.as_object().unwrap() {
                            if a[k] != *val {
                                m[k] = val.clone();
                            }
                        }
                        if m != cur {
                            c.img = serde_json::from_value(m).ok();
                            h.try_anchored(c);
                        }
                    }
                }
            }
        }
        if serde_json::to_string(&h.best).unwrap().len() == before || !h.left() {
            break;
        }
    }
    (h.best, h.best_out, h.runs)
}
