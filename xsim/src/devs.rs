//! C23: the block devices of the library, each one flat array of bytes.
use crate::image::*;
use crate::run::*;
use crate::scn::*;
use crate::simfmt::*;
use crate::tree::*;
use crate::wcmd::*;
use std::collections::BTreeMap;

/// A byte of the data written with a seed (the program computes the same).
fn byte(seed: u64, i: u64) -> u8 {
    let x = (seed.wrapping_mul(0x9E37_79B9_7F4A_7C15)) ^ i.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    (x ^ (x >> 29) ^ (x >> 47)) as u8
}
fn writes(kind: &str) -> bool {
    matches!(kind, "slice" | "box" | "file" | "bufwrite" | "bufwrite-small" | "dyn" | "offset")
}
fn reads(kind: &str) -> bool {
    !kind.starts_with("bufwrite")
}
fn memory(kind: &str) -> bool {
    matches!(kind, "slice" | "box" | "cursor")
}
pub const KINDS: &[(&str, u64)] = &[
    ("slice", 2),
    ("box", 2),
    ("cursor", 1),
    ("file", 4),
    ("bufread", 2),
    ("bufread-small", 1),
    ("bufwrite", 4),
    ("bufwrite-small", 2),
    ("dyn", 2),
    ("offset", 2),
    ("offset-buf", 2),
];

/// What the device may hold: certain bytes, and per uncertain byte what else it may be.
struct Model {
    base: FileData,
    /// (value, whether the write that wrote it reported success)
    more: BTreeMap<u64, Vec<(u8, bool)>>,
    lo: u64,
    hi: u64,
    /// end of the writes that may still be in a buffer
    pending: u64,
}
impl Model {
    fn put(&mut self, off: u64, data: &[u8], ok: bool) {
        for (i, b) in data.iter().enumerate() {
            self.more.entry(off + i as u64).or_default().push((*b, ok));
        }
        if !data.is_empty() {
            let end = off + data.len() as u64;
            self.hi = self.hi.max(end);
            if ok {
                self.pending = self.pending.max(end);
            }
        }
    }
    /// Everything written with success so far has reached the device.
    fn flushed(&mut self) {
        let mut settled: Vec<(u64, u8)> = vec![];
        self.more.retain(|o, v| {
            if let Some(k) = v.iter().rposition(|x| x.1) {
                settled.push((*o, v[k].0));
                v.drain(..=k);
            }
            !v.is_empty()
        });
        for (o, b) in settled {
            self.base.write_at(o, &[b]);
        }
        self.lo = self.lo.max(self.pending);
        self.hi = self.hi.max(self.lo);
    }
    fn fits(&self, off: u64, got: &[u8]) -> Option<u64> {
        let mut want = vec![0u8; got.len()];
        self.base.read_at(off, &mut want);
        (0..got.len()).find(|i| {
            got[*i] != want[*i] && !self.more.get(&(off + *i as u64)).is_some_and(|v| v.iter().any(|x| x.0 == got[*i]))
        })
        .map(|i| off + i as u64)
    }
}

/// The next answer in the program's output: the rest of its line, and data.
fn answer<'a>(out: &mut &'a [u8]) -> Option<(&'a str, &'a [u8])> {
    let n = out.iter().position(|b| *b == b'\n')?;
    let line = std::str::from_utf8(&out[..n]).ok()?;
    *out = &out[n + 1..];
    Some((line, &[]))
}

pub fn exec_c23(cx: &Cx, s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let kind = s.variant.as_str();
    let off_kind = kind.starts_with("offset");
    let (init, part) = if off_kind {
        let b = build_image(&s.tree, s.img.as_ref().unwrap_or(&ImgOpts::default()));
        (b.img, b.part)
    } else {
        let v: Vec<u8> = (0..s.num("size")).map(|i| byte(s.num("fill"), i)).collect();
        (FileData::from_bytes(&v), 0)
    };
    let path = "/d/dev.bin";
    let nodes = vec![dir_node("/w"), dir_node("/d"), file_node(path, init.clone())];
    let cfg = s.config();
    let mut argv = vec!["devs".to_string(), kind.into(), path.into()];
    argv.extend(s.list.iter().cloned());
    let argv: Vec<&str> = argv.iter().map(|x| x.as_str()).collect();
    let Some(p) = proc(cx, &mut o, &cfg, Bin::Devs, &sv(&argv), &nodes, true) else { return o };
    let (Some(out), None) = (&p.out, bad_end(&p)) else {
        o.fail(format!("{} device, {}: {}", kind, s.list.join(" "), bad_end(&p).unwrap_or_default()));
        return o;
    };
    o.nontrivial = s.list.len() > 1;
    let faulty = o.fired_list.iter().any(|f| f.kind > F_LAST_BENIGN) || o.fired.contains_key("disk_full");
    let mut rest = &p.stdout[..];
    let what = |i: usize| format!("{} device of {} bytes, after [{}]: {}", kind, init.len - part, s.list[..i].join(" "), s.list.get(i).map(|x| x.as_str()).unwrap_or("end"));
    if p.code != 0 {
        if !faulty {
            o.fail(format!("{} device: cannot be opened or stored: {}", kind, txt(&p.stderr)));
        }
        return o;
    }
    if off_kind {
        match answer(&mut rest) {
            Some((a, _)) if a == format!("ok {}", part) => {}
            Some(("err", _)) if faulty => return o,
            a => {
                o.fail(format!("the volume at {} is looked for: {:?}", part, a.map(|a| a.0)));
                return o;
            }
        }
    }
    let mut m = Model { lo: init.len, hi: init.len, base: init.clone(), more: Default::default(), pending: 0 };
    let buffered = kind.starts_with("bufwrite");
    for (i, q) in s.list.iter().enumerate() {
        let f: Vec<&str> = q.split(':').collect();
        let num = |i: usize| f[i].parse::<u64>().unwrap();
        let Some((a, _)) = answer(&mut rest) else {
            o.harness = Some(format!("the output ends early: {}", txt(&p.stderr)));
            return o;
        };
        let fail = |o: &mut Outcome, t: String| o.fail(format!("{}: {}", what(i), t));
        match f[0] {
            _ if a == "none" => {}
            "r" => {
                let (off, n) = (num(1), num(2));
                // beyond every device
                let inside = off.checked_add(part).and_then(|x| x.checked_add(n));
                if a == "err" {
                    if !faulty && n > 0 && inside.is_some_and(|e| e <= m.lo) {
                        fail(&mut o, "a read inside the device fails".into());
                    }
                } else {
                    if a != format!("ok {}", n) || rest.len() < n as usize {
                        o.harness = Some(format!("unexpected answer {:?} to {}", a, q));
                        return o;
                    }
                    let (got, r) = rest.split_at(n as usize);
                    rest = r;
                    if n > 0 && !inside.is_some_and(|e| e <= m.hi) {
                        fail(&mut o, "a read that ends behind the end of the device succeeds".into());
                    } else if n > 0 {
                        if let Some(x) = m.fits(off + part, got) {
                            fail(&mut o, format!("the byte at {} is read as {:#x}", x - part, got[(x - part - off) as usize]));
                        }
                    }
                }
            }
            "w" => {
                let (off, n) = (num(1), num(2));
                let data: Vec<u8> = (0..n).map(|i| byte(num(3), i)).collect();
                if memory(kind) {
                    let fits = off.checked_add(n).is_some_and(|e| e <= m.lo);
                    if a == "err" {
                        if fits && n > 0 {
                            fail(&mut o, "a write inside the device fails".into());
                        }
                    } else if !fits && n > 0 {
                        fail(&mut o, "a write that ends behind the end of the memory succeeds".into());
                    } else {
                        m.put(off, &data, true);
                        m.flushed();
                    }
                } else if a == "ok" {
                    m.put(off + part, &data, true);
                    if !buffered {
                        m.flushed();
                    }
                } else {
                    if !faulty {
                        fail(&mut o, "a write fails although the storage does not".into());
                    }
                    m.put(off + part, &data, false);
                }
            }
            "l" => {
                if a == "err" {
                    if !faulty {
                        fail(&mut o, "the length cannot be told".into());
                    }
                } else {
                    let n: Option<u64> = a.strip_prefix("ok ").and_then(|x| x.parse().ok());
                    let lo = if faulty { m.lo } else { m.lo.max(m.pending) };
                    if !off_kind && !n.is_some_and(|n| n >= lo && n <= m.hi) {
                        fail(&mut o, format!("the length is said to be {}, not {}", a, m.hi));
                    }
                }
            }
            _ => {
                if a == "ok" {
                    m.flushed();
                } else if !faulty {
                    fail(&mut o, "buffered data cannot be written although the storage does not fail".into());
                }
            }
        }
        if o.failed() {
            return o;
        }
    }
    if !faulty {
        m.flushed();
    }
    let kept = if memory(kind) && kind != "cursor" { "/d/dev.bin.mem" } else { path };
    let Some(after) = file_after(&nodes, out, kept) else {
        o.fail(format!("{}: the file is gone", what(s.list.len())));
        return o;
    };
    if after.len < m.lo || after.len > m.hi {
        o.fail(format!("{}: the device is {} bytes long instead of {}", what(s.list.len()), after.len, m.hi));
        return o;
    }
    // every page that may hold something
    let mut pages: Vec<u64> = after.pages.keys().chain(m.base.pages.keys()).copied().collect();
    pages.extend(m.more.keys().map(|x| x / PAGE as u64));
    pages.sort();
    pages.dedup();
    for p in pages {
        let a = p * PAGE as u64;
        if a >= after.len {
            continue;
        }
        let mut b = vec![0u8; PAGE.min((after.len - a) as usize)];
        after.read_at(a, &mut b);
        if let Some(x) = m.fits(a, &b) {
            o.fail(format!("{}: the byte at {} of the device is {:#x} in the end", what(s.list.len()), x as i64 - part as i64, b[(x - a) as usize]));
            return o;
        }
    }
    o
}

/// A sequence of operations for a device of `len` bytes.
pub fn gen_c23(r: &mut Rng, s: &mut Scn, len: u64) {
    let kind = s.variant.clone();
    let off_kind = kind.starts_with("offset");
    let n = r.range(2, 14);
    let mut ends: Vec<u64> = vec![0, len];
    for _ in 0..n {
        let size = *r.pick(&[0u64, 1, 2, 7, 8, 15, 16, 17, 100, 2047, 2048, 4096, 8191, 8192, 8193, 20000]);
        let size = if r.chance(1, 4) { r.below(30000) } else { size };
        let e = *r.pick(&ends);
        let off = match r.below(8) {
            0 | 1 => e,
            2 => e.saturating_sub(size),
            3 => e.saturating_sub(size.saturating_sub(1)),
            4 if !off_kind && r.chance(1, 3) => *r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, u64::MAX - size]),
            _ => r.below(len + 100),
        };
        let can_write = writes(&kind);
        let x = r.below(10);
        if can_write && (x < 5 || !reads(&kind) && x < 8) {
            let off = if off > len + 100_000 && !memory(&kind) { *r.pick(&[1u64 << 32, (1 << 32) - 5, 5_000_000_000]) } else { off };
            s.list.push(format!("w:{}:{}:{}", off, size, r.next() >> 40));
            if let Some(e) = off.checked_add(size) {
                ends.push(e);
                ends.push(off);
            }
        } else if can_write && x == 5 {
            s.list.push("l".into());
        } else if reads(&kind) {
            s.list.push(format!("r:{}:{}", off, size));
            ends.push(off.saturating_add(size).min(len));
        } else {
            s.list.push(if x == 8 { "f".into() } else { "l".into() });
        }
    }
}
