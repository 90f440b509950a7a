//! The kernel's side of a FUSE mount: speaks the protocol to the real mount program over a
//! simulated /dev/fuse, and judges every answer against the image (C14, C15, C16, C20).
use crate::image::*;
use crate::rcmd::respell;
use crate::run::*;
use crate::scn::*;
use crate::simfmt::*;
use crate::tree::*;
use crate::wcmd::*;
use std::collections::BTreeMap;
use std::os::fd::AsRawFd;

const LOOKUP: u32 = 1;
const FORGET: u32 = 2;
const GETATTR: u32 = 3;
const SETATTR: u32 = 4;
const MKDIR: u32 = 9;
const UNLINK: u32 = 10;
const OPEN: u32 = 14;
const READ: u32 = 15;
const WRITE: u32 = 16;
const STATFS: u32 = 17;
const RELEASE: u32 = 18;
const FLUSH: u32 = 25;
const INIT: u32 = 26;
const OPENDIR: u32 = 27;
const READDIR: u32 = 28;
const RELEASEDIR: u32 = 29;
const ACCESS: u32 = 34;
const DESTROY: u32 = 38;

#[derive(Clone, Debug)]
struct Sent {
    op: u32,
    node: u64,
    what: String,
    /// position among the requests delivered to the daemon
    idx: u64,
}
#[derive(Clone, Debug)]
struct Reply {
    err: i32,
    body: Vec<u8>,
}

struct Conn<'a> {
    child: &'a Child,
    next: u64,
    sent: BTreeMap<u64, Sent>,
    waiting: BTreeMap<u64, Sent>,
    got: BTreeMap<u64, Reply>,
    nreq: u64,
    problem: Option<(u32, String)>,
    closed: bool,
    hash: u64,
}
fn u32s(v: &[u32]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn rd64(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
fn rd32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}

impl Conn<'_> {
    fn fd(&self) -> i32 {
        self.child.fuse.as_ref().unwrap().as_raw_fd()
    }
    fn send(&mut self, op: u32, node: u64, body: &[u8], what: String) -> u64 {
        let unique = self.next * 2 + 2;
        self.next += 1;
        let mut m = u32s(&[40 + body.len() as u32, op]);
        m.extend(unique.to_le_bytes());
        m.extend(node.to_le_bytes());
        m.extend(u32s(&[0, 0, 1, 0]));
        m.extend(body);
        let r = unsafe { libc::send(self.fd(), m.as_ptr() as *const _, m.len(), libc::MSG_NOSIGNAL) };
        if r != m.len() as isize {
            self.closed = true;
        }
        let s = Sent { op, node, what, idx: self.nreq };
        self.nreq += 1;
        if op != FORGET {
            self.waiting.insert(unique, s.clone());
        }
        self.sent.insert(unique, s);
        unique
    }
    /// Receives one reply; false when the daemon is gone or silent.
    fn recv(&mut self, ms: i32) -> bool {
        if self.closed {
            return false;
        }
        let mut p = libc::pollfd { fd: self.fd(), events: libc::POLLIN, revents: 0 };
        let mut q = Quiet::default();
        let t = std::time::Instant::now();
        loop {
            let r = unsafe { libc::poll(&mut p, 1, ms.min(500)) };
            if r > 0 {
                break;
            }
            if r < 0 || t.elapsed().as_millis() as i32 >= ms || q.stuck(self.child) {
                return false;
            }
        }
        let mut b = vec![0u8; 2 << 20];
        let n = unsafe { libc::recv(self.fd(), b.as_mut_ptr() as *mut _, b.len(), 0) };
        if n <= 0 {
            self.closed = true;
            return false;
        }
        b.truncate(n as usize);
        self.hash = fnv(self.hash, &b);
        if b.len() < 16 {
            self.bad(0, format!("a reply of {} bytes", b.len()));
            return true;
        }
        let (len, err, unique) = (rd32(&b, 0), rd32(&b, 4) as i32, rd64(&b, 8));
        let Some(s) = self.waiting.remove(&unique) else {
            let w = self.sent.get(&unique).map(|s| s.what.clone());
            let op = self.sent.get(&unique).map(|s| s.op).unwrap_or(0);
            match w {
                Some(w) => self.bad(op, format!("{} was answered twice (or needs no answer)", w)),
                None => self.bad(0, format!("an answer to a request that was never sent ({})", unique)),
            }
            return true;
        };
        if len as usize != b.len() {
            self.bad(s.op, format!("{}: the reply announces {} bytes and has {}", s.what, len, b.len()));
        }
        if err > 0 || err < -4096 {
            self.bad(s.op, format!("{}: impossible error value {}", s.what, err));
        }
        if err != 0 && b.len() > 16 {
            self.bad(s.op, format!("{}: an error reply carries data", s.what));
        }
        self.got.insert(unique, Reply { err, body: b[16..].to_vec() });
        true
    }
    fn bad(&mut self, op: u32, m: String) {
        if self.problem.is_none() {
            self.problem = Some((op, m));
        }
    }
    /// Waits for the answers to everything outstanding.
    fn settle(&mut self) -> bool {
        while !self.waiting.is_empty() {
            if self.problem.is_some() {
                return false;
            }
            if !self.recv(40_000) {
                let s = self.waiting.values().next().unwrap().clone();
                let m = if self.closed { "is not answered: the daemon is gone" } else { "is not answered" };
                self.bad(s.op, format!("{} {}", s.what, m));
                return false;
            }
        }
        self.problem.is_none()
    }
    fn call(&mut self, op: u32, node: u64, body: &[u8], what: String) -> Option<(u64, Reply)> {
        let u = self.send(op, node, body, what);
        if !self.settle() {
            return None;
        }
        let r = self.got.remove(&u)?;
        Some((self.sent[&u].idx, r))
    }
}

/// A judgement about one answer, decided once the fault positions are known.
struct Claim {
    idx: u64,
    op: u32,
    err: i32,
    /// None: right. Some: what is wrong with it
    wrong: Option<String>,
    what: String,
}

struct Client<'a> {
    c: Conn<'a>,
    m: Model,
    inos: BTreeMap<String, u64>,
    owner: BTreeMap<u64, String>,
    claims: Vec<Claim>,
    retries: u64,
}

enum Stop {
    Conn,
}

impl Client<'_> {
    fn claim(&mut self, idx: u64, op: u32, err: i32, what: &str, wrong: Option<String>) {
        self.claims.push(Claim { idx, op, err, wrong, what: what.into() });
    }
    /// Sends a request, and again as long as it fails with an I/O error (after noting that).
    fn again(&mut self, op: u32, node: u64, body: &[u8], what: &str) -> Result<(u64, Reply), Stop> {
        let mut n = 0;
        loop {
            let (idx, r) = self.c.call(op, node, body, what.into()).ok_or(Stop::Conn)?;
            if r.err == -libc::EIO && n < 12 {
                self.claim(idx, op, r.err, what, Some("fails with an I/O error".into()));
                n += 1;
                self.retries += 1;
                continue;
            }
            return Ok((idx, r));
        }
    }
    fn note_ino(&mut self, path: &str, ino: u64) -> Option<String> {
        if ino == 0 {
            return Some("inode number 0".into());
        }
        if ino == 1 && !path.is_empty() {
            return Some(format!("{:?} has the inode number of the root", path));
        }
        if let Some(o) = self.inos.get(path) {
            if *o != ino {
                return Some(format!("{:?} had inode number {} and now has {}", path, o, ino));
            }
            return None;
        }
        if let Some(o) = self.owner.get(&ino) {
            return Some(format!("inode number {} is used for {:?} and for {:?}", ino, o, path));
        }
        self.inos.insert(path.into(), ino);
        self.owner.insert(ino, path.into());
        None
    }
    fn attr_wrong(&self, path: &str, a: &[u8], ino: u64) -> Option<String> {
        if a.len() < 80 {
            return Some(format!("attributes of {} bytes", a.len()));
        }
        let mode = rd32(a, 60);
        let want_dir = path.is_empty() || self.m[path].is_none();
        if rd64(a, 0) != ino {
            return Some(format!("attributes name inode {} instead of {}", rd64(a, 0), ino));
        }
        if (mode & 0o170000) != if want_dir { 0o040000 } else { 0o100000 } {
            return Some(format!("mode {:o} for a {}", mode, if want_dir { "directory" } else { "file" }));
        }
        if !want_dir {
            let l = self.m[path].as_ref().unwrap().len;
            if rd64(a, 8) != l {
                return Some(format!("size {} instead of {}", rd64(a, 8), l));
            }
        }
        None
    }
    fn lookup(&mut self, parent: &str, name: &str, spell: u64) -> Result<Option<u64>, Stop> {
        let p = *self.inos.get(parent).unwrap_or(&1);
        let sp = if spell == 0 { name.to_string() } else { respell(name, spell).trim_matches('/').to_string() };
        let what = format!("lookup of {:?} in {:?}", sp, parent);
        let mut body = os_bytes(&sp);
        body.push(0);
        let (idx, r) = self.again(LOOKUP, p, &body, &what)?;
        let full = if parent.is_empty() { name.to_string() } else { format!("{}/{}", parent, name) };
        let key = self.m.keys().find(|k| fold(k) == fold(&full)).cloned();
        match key {
            None => {
                // an undecodable name may also be called invalid
                let ok = r.err == -libc::ENOENT || (sp.chars().any(|c| (c as u32) >= 0xF700 && (c as u32) <= 0xF7FF) && r.err == -libc::EINVAL);
                let w = if ok { None } else { Some(format!("a name that does not exist gives {}", show(&r))) };
                self.claim(idx, LOOKUP, r.err, &what, w);
                Ok(None)
            }
            Some(k) => {
                if r.err != 0 {
                    self.claim(idx, LOOKUP, r.err, &what, Some(format!("fails with error {}", -r.err)));
                    return Ok(None);
                }
                if r.body.len() < 120 {
                    self.claim(idx, LOOKUP, 0, &what, Some(format!("reply of {} bytes", r.body.len())));
                    return Ok(None);
                }
                let ino = rd64(&r.body, 0);
                let w = self.note_ino(&k, ino);
                self.claim(idx, LOOKUP, 0, &what, w);
                let w = self.attr_wrong(&k, &r.body[40..], ino);
                self.claim(idx, GETATTR, 0, &what, w);
                Ok(Some(ino))
            }
        }
    }
    fn ino_of(&mut self, path: &str, spell: u64) -> Result<Option<u64>, Stop> {
        if path.is_empty() {
            return Ok(Some(1));
        }
        if let Some(i) = self.inos.get(path) {
            return Ok(Some(*i));
        }
        let (par, name) = path.rsplit_once('/').unwrap_or(("", path));
        if self.ino_of(par, spell)?.is_none() {
            return Ok(None);
        }
        self.lookup(par, name, spell)
    }
    fn judge_read(&mut self, path: &str, off: u64, size: u64, idx: u64, r: &Reply, what: &str) {
        let w = match self.m.get(path).cloned().flatten() {
            None => {
                if r.err == 0 {
                    Some(format!("reading a directory returns {} bytes", r.body.len()))
                } else {
                    None
                }
            }
            Some(f) => {
                let n = if off >= f.len { 0 } else { (f.len - off).min(size) };
                if off > i64::MAX as u64 {
                    if r.err == 0 && !r.body.is_empty() {
                        Some("a negative offset returns data".into())
                    } else {
                        None
                    }
                } else if r.err != 0 {
                    Some(format!("fails with error {}", -r.err))
                } else if r.body.len() as u64 != n {
                    Some(format!("returns {} bytes instead of {}", r.body.len(), n))
                } else {
                    let mut b = vec![0u8; n as usize];
                    if n > 0 {
                        f.read_at(off, &mut b);
                    }
                    if b != r.body {
                        let i = (0..b.len()).find(|i| b[*i] != r.body[*i]).unwrap();
                        Some(format!("byte {} is {:#04x} instead of {:#04x}", off + i as u64, r.body[i], b[i]))
                    } else {
                        None
                    }
                }
            }
        };
        self.claim(idx, READ, r.err, what, w);
    }
    fn read_body(off: u64, size: u64) -> Vec<u8> {
        let mut b = 0u64.to_le_bytes().to_vec();
        b.extend(off.to_le_bytes());
        b.extend(u32s(&[size as u32, 0]));
        b.extend(0u64.to_le_bytes());
        b.extend(u32s(&[0, 0]));
        b
    }
    fn entries(b: &[u8]) -> Result<Vec<(u64, i64, u32, String)>, String> {
        let mut v = vec![];
        let mut o = 0;
        while o < b.len() {
            if o + 24 > b.len() {
                return Err("a listing reply ends inside an entry".into());
            }
            let n = rd32(b, o + 16) as usize;
            if n == 0 || o + 24 + n > b.len() {
                return Err("a listing reply ends inside an entry".into());
            }
            v.push((rd64(b, o), rd64(b, o + 8) as i64, rd32(b, o + 20), String::from_utf8_lossy(&b[o + 24..o + 24 + n]).into_owned()));
            o += (24 + n + 7) / 8 * 8;
        }
        Ok(v)
    }
    fn open_listing(&mut self, path: &str, seed: u64) -> Result<Option<Listing>, Stop> {
        let Some(ino) = self.ino_of(path, 0)? else { return Ok(None) };
        let mut r = Rng::new(seed);
        let kids = crate::rcmd::children(&self.m, path);
        let need = kids.iter().map(|k| (24 + k.len() + 7) / 8 * 8).max().unwrap_or(32).max(32) as u64;
        // the server walks the directory from its start for every request: keep that affordable
        let need = need.max(match kids.len() {
            0..=130 => 0,
            131..=500 => 400,
            _ => 30_000,
        });
        let fixed = *r.pick(&[0u64, need, need + 8, need + 40, 4096.max(need), 32768]);
        Ok(Some(Listing {
            what: format!("listing of {:?}", path),
            path: path.into(),
            seed,
            ino,
            kids,
            need,
            fixed,
            seen: vec![],
            off: 0,
            restarts: if seed % 3 == 0 { 2 } else { 0 },
            guard: 0,
            r,
        }))
    }
    /// Sends one request of an enumeration. Returns whether the enumeration goes on.
    fn list_step(&mut self, l: &mut Listing) -> Result<bool, Stop> {
        let size = if l.fixed > 0 { l.fixed } else { l.need + l.r.below(300) };
        let what = format!("{} from offset {} with a buffer of {}", l.what, l.off, size);
        let (idx, rep) = self.again(READDIR, l.ino, &Self::read_body(l.off as u64, size), &what)?;
        if rep.err != 0 {
            self.claim(idx, READDIR, rep.err, &what, Some(format!("fails with error {}", -rep.err)));
            return Ok(false);
        }
        let w = |c: &mut Self, m: String| c.claim(idx, READDIR, 0, &what, Some(m));
        if rep.body.len() as u64 > size {
            w(self, format!("{} bytes do not fit the buffer", rep.body.len()));
            return Ok(false);
        }
        let ents = match Self::entries(&rep.body) {
            Ok(e) => e,
            Err(e) => {
                w(self, e);
                return Ok(false);
            }
        };
        if ents.is_empty() {
            self.claim(idx, READDIR, 0, &what, None);
            self.list_end(l);
            return Ok(false);
        }
        for (eino, eoff, typ, name) in ents {
            if name == "." || name == ".." {
                if typ != 4 {
                    w(self, format!("{:?} has type {}", name, typ));
                    return Ok(false);
                }
            } else {
                let full = if l.path.is_empty() { name.clone() } else { format!("{}/{}", l.path, name) };
                let Some(k) = self.m.get(&full) else {
                    w(self, format!("{:?} is listed but is not in the image", name));
                    return Ok(false);
                };
                if typ != if k.is_none() { 4 } else { 8 } {
                    w(self, format!("{:?} has type {}", name, typ));
                    return Ok(false);
                }
                if let Some(e) = self.note_ino(&full, eino) {
                    w(self, e);
                    return Ok(false);
                }
            }
            if l.seen.iter().any(|s| s.0 == name) {
                w(self, format!("{:?} is listed twice", name));
                return Ok(false);
            }
            l.seen.push((name, idx, eoff));
            l.off = eoff;
        }
        self.claim(idx, READDIR, 0, &what, None);
        l.guard += 1;
        if l.guard > 20_000 {
            w(self, "the listing does not end".into());
            return Ok(false);
        }
        if l.restarts > 0 && !l.seen.is_empty() && l.r.chance(1, 2) {
            // continue again from an earlier position, as seekdir does
            l.restarts -= 1;
            let k = l.r.below(l.seen.len() as u64 + 1) as usize;
            l.seen.truncate(k);
            l.off = l.seen.last().map(|s| s.2).unwrap_or(0);
        }
        if l.r.chance(1, 6) {
            // other requests in between
            let p: Vec<String> = self.m.keys().cloned().collect();
            if !p.is_empty() {
                let q = l.r.pick(&p).clone();
                let k = ["getattr", "look", "read"][if self.m[&q].is_some() { l.r.below(3) } else { l.seed & 1 } as usize];
                let a = l.r.below(3);
                self.item(&format!("{}|{}|{}|{}", k, q, a, if k == "read" { 1 + a * 3000 } else { 0 }))?;
            }
        }
        Ok(true)
    }
    fn list_end(&mut self, l: &Listing) {
        let idx = self.c.nreq.saturating_sub(1);
        let mut want: Vec<String> = l.kids.clone();
        want.push(".".into());
        want.push("..".into());
        want.sort();
        let mut got: Vec<String> = l.seen.iter().map(|s| s.0.clone()).collect();
        got.sort();
        let w = if want != got {
            let a = want.iter().find(|x| !got.contains(x));
            Some(format!("{} of {} entries listed, {:?} is missing", got.len(), want.len(), a))
        } else {
            None
        };
        self.claim(idx, READDIR, 0, &l.what.clone(), w);
    }
    /// Enumerates a directory with seeded buffer sizes; restarts at seeded earlier positions.
    fn list(&mut self, path: &str, seed: u64) -> Result<(), Stop> {
        if let Some(mut l) = self.open_listing(path, seed)? {
            while self.list_step(&mut l)? {}
        }
        Ok(())
    }
    /// Enumerates several directories (or one of them several times) in turns.
    fn lists(&mut self, paths: &[&str], seed: u64) -> Result<(), Stop> {
        let mut r = Rng::new(seed);
        let mut v = vec![];
        for (i, p) in paths.iter().enumerate() {
            // often with the same buffer size
            v.extend(self.open_listing(p, if r.chance(1, 2) { seed } else { seed + i as u64 })?);
        }
        while !v.is_empty() {
            let i = r.below(v.len() as u64) as usize;
            if !self.list_step(&mut v[i])? {
                v.remove(i);
            }
        }
        Ok(())
    }
    fn item(&mut self, q: &str) -> Result<(), Stop> {
        let f: Vec<&str> = q.split('|').collect();
        let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        let path = f.get(1).copied().unwrap_or("").to_string();
        match f[0] {
            "look" => {
                let (par, name) = path.rsplit_once('/').unwrap_or(("", path.as_str()));
                let (par, name) = (par.to_string(), name.to_string());
                // the parent as the image spells it
                let pk = if par.is_empty() { Some(String::new()) } else { self.m.keys().find(|k| fold(k) == fold(&par)).cloned() };
                let Some(pk) = pk else { return Ok(()) };
                if !pk.is_empty() && self.m[&pk].is_some() {
                    // lookup inside a file
                    let Some(ino) = self.ino_of(&pk, 0)? else { return Ok(()) };
                    let what = format!("lookup of {:?} inside the file {:?}", name, pk);
                    let mut b = os_bytes(&name);
                    b.push(0);
                    let (idx, r) = self.again(LOOKUP, ino, &b, &what)?;
                    let w = if r.err == 0 { Some("succeeds".into()) } else { None };
                    self.claim(idx, LOOKUP, r.err, &what, w);
                    return Ok(());
                }
                if self.ino_of(&pk, 0)?.is_none() {
                    return Ok(());
                }
                self.lookup(&pk, &name, num(2))?;
            }
            "getattr" => {
                let Some(ino) = self.ino_of(&path, num(2))? else { return Ok(()) };
                let what = format!("getattr of {:?}", path);
                let (idx, r) = self.again(GETATTR, ino, &[0; 16], &what)?;
                let w = if r.err != 0 {
                    Some(format!("fails with error {}", -r.err))
                } else if r.body.len() < 96 {
                    Some(format!("reply of {} bytes", r.body.len()))
                } else {
                    self.attr_wrong(&path, &r.body[16..], ino)
                };
                self.claim(idx, GETATTR, r.err, &what, w);
            }
            "read" => {
                let Some(ino) = self.ino_of(&path, num(4))? else { return Ok(()) };
                let (off, size) = (num(2), num(3));
                let what = format!("read of {:?} at {} for {}", path, off, size);
                let (idx, r) = self.again(READ, ino, &Self::read_body(off, size), &what)?;
                self.judge_read(&path, off, size, idx, &r, &what);
            }
            "list" => self.list(&path, num(2))?,
            "listat" => {
                // from a position that no listing gave out: any well-formed answer will do
                let Some(ino) = self.ino_of(&path, 0)? else { return Ok(()) };
                let size = num(3).max(600);
                let what = format!("listing of {:?} from position {} with a buffer of {}", path, num(2) as i64, size);
                let (idx, r) = self.again(READDIR, ino, &Self::read_body(num(2), size), &what)?;
                let mut w = None;
                if r.err == 0 {
                    match Self::entries(&r.body) {
                        Err(e) => w = Some(e),
                        Ok(_) if r.body.len() as u64 > size => w = Some(format!("{} bytes do not fit the buffer", r.body.len())),
                        Ok(v) => {
                            for (_, _, _, name) in v {
                                let full = if path.is_empty() { name.clone() } else { format!("{}/{}", path, name) };
                                if name != "." && name != ".." && !self.m.contains_key(&full) {
                                    w = Some(format!("{:?} is listed but is not in the image", name));
                                }
                            }
                        }
                    }
                }
                self.claim(idx, READDIR, r.err, &what, w);
            }
            "lists" => {
                let p: Vec<&str> = f.iter().skip(3).copied().chain([path.as_str()]).collect();
                self.lists(&p, num(2))?
            }
            "open" => {
                let Some(ino) = self.ino_of(&path, 0)? else { return Ok(()) };
                let dir = path.is_empty() || self.m[&path].is_none();
                let what = format!("open of {:?}", path);
                let (idx, r) = self.again(if dir { OPENDIR } else { OPEN }, ino, &u32s(&[num(2) as u32, 0]), &what)?;
                let wr = num(2) & 3 != 0;
                let w = match (wr, r.err) {
                    (false, 0) if r.body.len() != 16 => Some(format!("reply of {} bytes", r.body.len())),
                    (false, 0) => None,
                    (false, e) => Some(format!("fails with error {}", -e)),
                    (true, 0) => Some("opening for writing succeeds".into()),
                    (true, _) => None,
                };
                self.claim(idx, OPEN, r.err, &what, w);
                if r.err == 0 {
                    let mut b = 0u64.to_le_bytes().to_vec();
                    b.extend([0; 16]);
                    self.again(if dir { RELEASEDIR } else { RELEASE }, ino, &b, "release")?;
                }
            }
            "forget" => {
                let Some(ino) = self.ino_of(&path, 0)? else { return Ok(()) };
                self.c.send(FORGET, ino, &num(2).max(1).to_le_bytes(), format!("forget of {:?}", path));
            }
            "misc" => {
                // requests the mount need not support: any answer will do, but exactly one
                let ino = self.ino_of(&path, 0)?.unwrap_or(1);
                let k = num(2);
                let (op, body): (u32, Vec<u8>) = match k % 12 {
                    0 => (STATFS, vec![]),
                    1 => (ACCESS, u32s(&[4, 0])),
                    2 => (FLUSH, vec![0; 24]),
                    3 => (SETATTR, [u32s(&[1]), vec![0; 84]].concat()),
                    4 => (MKDIR, [u32s(&[0o755, 0]), b"newdir\0".to_vec()].concat()),
                    5 => (UNLINK, b"x\0".to_vec()),
                    6 => (WRITE, [vec![0; 16], u32s(&[4, 0]), b"data".to_vec()].concat()),
                    7 => (22, [u32s(&[64, 0]), b"user.x\0".to_vec()].concat()), // getxattr
                    8 => (5, vec![]),                                          // readlink
                    9 => (46, vec![0; 24]),                                     // lseek
                    10 => (200 + (k / 12 % 50) as u32, vec![0; 8]),             // unknown
                    _ => (12, [1u64.to_le_bytes().to_vec(), b"a\0b\0".to_vec()].concat()), // rename
                };
                let what = format!("request with opcode {} on {:?}", op, path);
                let (idx, r) = self.c.call(op, ino, &body, what.clone()).ok_or(Stop::Conn)?;
                let modifies = matches!(k % 12, 3 | 4 | 5 | 6 | 11);
                let w = if modifies && r.err == 0 { Some("is accepted, on a read-only image".to_string()) } else { None };
                self.claim(idx, op, r.err, &what, w);
            }
            "stale" => {
                // an inode number that was never given out
                let ino = 1_000_000 + num(2);
                let (op, body) = match num(1) % 5 {
                    0 => (GETATTR, vec![0; 16]),
                    1 => (READ, Self::read_body(0, 100)),
                    2 => (READDIR, Self::read_body(0, 4096)),
                    3 => (LOOKUP, b"a\0".to_vec()),
                    _ => (READ, Self::read_body(u64::MAX - 5, 100)),
                };
                let what = format!("request with opcode {} for an unknown inode", op);
                let (idx, r) = self.c.call(op, ino, &body, what.clone()).ok_or(Stop::Conn)?;
                let w = if r.err == 0 && !(r.body.is_empty() && op == READ) { Some("succeeds".to_string()) } else { None };
                self.claim(idx, op, r.err, &what, w);
            }
            _ => {}
        }
        Ok(())
    }
    /// Reads sent together; the daemon finds them all waiting.
    fn batch(&mut self, items: &[String]) -> Result<(), Stop> {
        let mut v = vec![];
        for q in items {
            let f: Vec<&str> = q.split('|').collect();
            let path = f[1].to_string();
            if self.ino_of(&path, 0)?.is_none() {
                return Ok(());
            }
            v.push((path, f[2].parse::<u64>().unwrap_or(0), f[3].parse::<u64>().unwrap_or(0)));
        }
        let mut us = vec![];
        for (p, off, size) in &v {
            let ino = if p.is_empty() { 1 } else { self.inos[p] };
            us.push(self.c.send(READ, ino, &Self::read_body(*off, *size), format!("read of {:?} at {} for {} (sent together with others)", p, off, size)));
        }
        if !self.c.settle() {
            return Err(Stop::Conn);
        }
        for (u, (p, off, size)) in us.iter().zip(&v) {
            let r = self.c.got.remove(u).unwrap();
            let s = self.c.sent[u].clone();
            self.judge_read(p, *off, *size, s.idx, &r, &s.what);
        }
        Ok(())
    }
}
/// One enumeration of a directory that is under way.
struct Listing {
    what: String,
    path: String,
    seed: u64,
    ino: u64,
    kids: Vec<String>,
    need: u64,
    fixed: u64,
    /// in order: name, request, offset after it
    seen: Vec<(String, u64, i64)>,
    off: i64,
    restarts: u32,
    guard: u32,
    r: Rng,
}
fn show(r: &Reply) -> String {
    if r.err == 0 {
        "success".into()
    } else {
        format!("error {}", -r.err)
    }
}
fn class(op: u32) -> &'static str {
    match op {
        READ | GETATTR | OPEN => "C14",
        LOOKUP | READDIR | OPENDIR => "C15",
        _ => "C16",
    }
}

fn init_body() -> Vec<u8> {
    let mut b = u32s(&[7, 31, 131072, 0x00ff_fffb]);
    b.extend([0; 48]);
    b
}

/// Mounts the scenario's image and plays its requests.
pub fn exec_fuse(cx: &Cx, s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let b = build_image(&s.tree, s.img.as_ref().unwrap_or(&ImgOpts::default()));
    let nodes = vec![dir_node("/w"), dir_node("/mnt"), dir_node("/i"), file_node("/i/game.iso", b.img)];
    let mut cfg = s.config();
    cfg.fuse_fd = FD_FUSE;
    let fork = s.num("fork") == 1;
    let mut argv = sv(&["xdvdfsd", "/i/game.iso", "/mnt"]);
    if !fork {
        argv.extend(sv(&["-o", "nofork"]));
    }
    let child = cx.env.spawn(Bin::Fsd, &argv, &encode_input(&cfg, &nodes), true);
    let conn = Conn { child: &child, next: 0, sent: Default::default(), waiting: Default::default(), got: Default::default(), nreq: 0, problem: None, closed: false, hash: 1 };
    let mut c = Client { c: conn, m: model(&s.tree), inos: BTreeMap::new(), owner: BTreeMap::new(), claims: vec![], retries: 0 };
    c.owner.insert(1, String::new());
    let mut mounted = false;
    let mut ended = false;
    match c.c.call(INIT, 0, &init_body(), "INIT".into()) {
        Some((_, r)) if r.err == 0 && r.body.len() >= 24 => mounted = true,
        Some((_, r)) => c.c.bad(INIT, format!("INIT is answered with {}", show(&r))),
        None => {}
    }
    if mounted {
        let mut i = 0;
        let pipe = s.num("pipe").max(1) as usize;
        'all: while i < s.list.len() {
            let mut j = i;
            while pipe > 1 && j < s.list.len() && j - i < pipe && s.list[j].starts_with("read|") {
                j += 1;
            }
            let r = if j > i + 1 {
                let r = c.batch(&s.list[i..j].to_vec());
                i = j;
                r
            } else {
                i += 1;
                c.item(&s.list[i - 1].clone())
            };
            if r.is_err() {
                break 'all;
            }
        }
        if c.c.problem.is_none() {
            // still alive?
            let _ = c.item("getattr|");
        }
        if c.c.problem.is_none() {
            let _ = c.c.call(DESTROY, 0, &[], "DESTROY".into());
            // nothing may be left over
            c.c.recv(0);
            ended = true;
        }
    }
    let (problem, claims, hash, nreq, retries) = (c.c.problem.take(), std::mem::take(&mut c.claims), c.c.hash, c.c.nreq, c.retries);
    drop(c);
    let p = child.finish(60_000);
    account(&mut o, &p, &cfg, true);
    o.hash = mix2(o.hash, hash);
    if o.harness.is_some() || o.viol.is_some() {
        return o;
    }
    let out = if fork { p.out2.as_ref() } else { p.out.as_ref() };
    if let Some(x) = out {
        o.ops = x.ops.clone();
        o.paths = x.paths.clone();
        o.fired_list = x.fired.clone();
    }
    if !mounted {
        // start-up failed: right only if a fault was injected (C20 looks at this in detail)
        if o.fired_list.iter().all(|f| f.kind <= F_LAST_BENIGN) && s.prop == "C16" {
            o.fail(format!("the mount does not start on a valid image: {}", txt(&p.stderr)));
        }
        if o.fired_list.iter().all(|f| f.kind <= F_LAST_BENIGN) && s.prop != "C16" {
            o.fail(format!("the mount does not serve a valid image: {}", txt(&p.stderr)));
        }
        return o;
    }
    o.nontrivial = nreq > 2;
    *o.fired.entry("requests_retried_after_io_error".into()).or_default() += retries;
    // Attribute faults to requests: everything between two receptions belongs to the first.
    let mut hit: Vec<bool> = vec![];
    let mut hit_before: Vec<bool> = vec![];
    let mut any = false;
    let mut rx: i64 = -1;
    if let Some(x) = out {
        for r in &x.ops {
            if r.kind == OP_FUSE_RX && r.ret > 0 {
                rx += 1;
                hit.push(false);
                hit_before.push(any);
            }
            if r.fault > F_LAST_BENIGN && rx >= 0 {
                hit[rx as usize] = true;
                any = true;
            }
        }
    }
    // the first reception is INIT and has position 0
    let is_hit = |i: u64| hit.get(i as usize).copied().unwrap_or(false);
    let was_hit = |i: u64| hit_before.get(i as usize).copied().unwrap_or(any);
    for c in &claims {
        let Some(w) = &c.wrong else { continue };
        let h = is_hit(c.idx);
        if h && c.err == -libc::EIO {
            continue; // the affected request, reported as an I/O error
        }
        let mine = match s.prop.as_str() {
            "C16" => h || was_hit(c.idx) || class(c.op) == "C16",
            p => class(c.op) == p,
        };
        if mine {
            let when = if h {
                " (an image read failed during it)"
            } else if was_hit(c.idx) {
                " (after an earlier image read had failed)"
            } else {
                ""
            };
            o.fail(format!("mounted image: {}{}: {}", c.what, when, w));
            return o;
        }
    }
    if let Some((op, m)) = problem {
        if s.prop == "C16" || class(op) == s.prop {
            o.fail(format!("mounted image: {}; stderr: {}", m, txt(&p.stderr)));
        }
        return o;
    }
    if ended && s.prop == "C16" {
        let code = p.code;
        if let Some(b) = bad_end(&p) {
            o.fail(format!("the mount program {} at unmount", b));
        } else if code != 0 {
            o.fail(format!("the mount program exits with {} at unmount: {}", code, txt(&p.stderr)));
        }
        if let Some(out) = out {
            if let Some(e) = unchanged(&nodes, out, &["/i"]) {
                o.fail(format!("the mount program changed the image: {}", e));
            }
        }
    }
    o
}

/// C20. variants: fork, nofork. s "case": ok, badimg, empty, trunc, noimg, dirmnt, nomnt, filemnt, link; plus faults.
pub fn exec_c20(cx: &Cx, s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    o.nontrivial = true;
    let case = s.str("case");
    let mut io = s.img.clone().unwrap_or_default();
    if !matches!(case, "ok" | "noimg" | "dirmnt" | "nomnt" | "filemnt" | "linkmnt") {
        io.decoy = 0;
    }
    let b = build_image(&s.tree, &io);
    let mut img = b.img;
    match case {
        "badimg" => img.write_at(b.part + 0x10000, b"NICROSOFT"),
        "badimg2" => img.write_at(b.part + 0x10000 + 0x7ec, b"X"),
        "empty" => img = FileData::default(),
        "trunc" => img.truncate(b.part + 0x10000 + 100),
        _ => {}
    }
    let mut nodes = vec![dir_node("/w"), dir_node("/i")];
    if case != "noimg" {
        nodes.push(file_node("/i/game.iso", img));
    }
    match case {
        "nomnt" => {}
        "filemnt" => nodes.push(file_node("/mnt", FileData::from_bytes(b"x"))),
        "linkmnt" => {
            nodes.push(dir_node("/realmnt"));
            nodes.push(link_node("/mnt", "/realmnt"));
        }
        _ => nodes.push(dir_node("/mnt")),
    }
    nodes.push(link_node("/w/l.iso", "../i/game.iso"));
    let mut cfg = s.config();
    cfg.fuse_fd = if case == "nofuse" { -1 } else { FD_FUSE };
    cfg.mount_wait_ms = s.num("wait") as u32;
    let fork = s.variant == "fork";
    let src = match s.num("srcsp") % 3 {
        0 => "/i/game.iso",
        1 => "/w/l.iso",
        _ => "../i/game.iso",
    };
    let mut a = vec!["xdvdfsd"];
    let mut opts: Vec<&str> = vec![];
    for l in &s.list {
        opts.extend(["-o", l.as_str()]);
    }
    let all: Vec<&str> = s.list.iter().flat_map(|l| l.split(',')).collect();
    if !fork && !all.contains(&"nofork") {
        opts.extend(["-o", "nofork"]);
    }
    if s.num("opts_first") == 1 {
        a.extend(&opts);
        a.extend([src, "/mnt"]);
    } else {
        a.extend([src, "/mnt"]);
        a.extend(&opts);
    }
    // what the mount has to be asked for
    let mut how = libc::MS_NODEV | libc::MS_NOSUID;
    // (without a name of its own the mount carries the image's path; a path that could not be
    // resolved stays as it was given, made absolute)
    let mut from = vec!["/i/game.iso".to_string()];
    if src != "/i/game.iso" {
        from.push(if src.starts_with('/') { src.into() } else { format!("/w/{}", src) });
    }
    for x in &all {
        match *x {
            "ro" => how |= libc::MS_RDONLY,
            "noexec" => how |= libc::MS_NOEXEC,
            "dev" => how &= !libc::MS_NODEV,
            "suid" => how &= !libc::MS_NOSUID,
            "default_permissions" => how |= 1 << 32,
            x if x.starts_with("fsname=") => from = vec![x[7..].into()],
            _ => {}
        }
    }
    if case == "badopt" {
        a.extend(["-o", "nonsense"]);
    }
    let what = a.join(" ");
    let must_fail = !matches!(case, "" | "ok" | "linkmnt");
    let mut child = cx.env.spawn(Bin::Fsd, &sv(&a), &encode_input(&cfg, &nodes), true);
    // The kernel queues INIT when the mount happens; it waits in the queue until then.
    let (mut init_ok, mut root_ok, mut problem, mut missing) = (false, false, None, None);
    {
        let mut c = Conn { child: &child, next: 0, sent: Default::default(), waiting: Default::default(), got: Default::default(), nreq: 0, problem: None, closed: false, hash: 1 };
        if let Some((_, r)) = c.call(INIT, 0, &init_body(), "INIT".into()) {
            init_ok = r.err == 0;
            if let Some((_, r)) = c.call(GETATTR, 1, &[0; 16], "getattr of the root".into()) {
                root_ok = r.err == 0;
            }
            // what is mounted is the image: its entries are there, unless the storage fails now
            for k in model(&s.tree).keys().filter(|k| !k.contains('/')).take(4) {
                let mut b = os_bytes(k);
                b.push(0);
                match c.call(LOOKUP, 1, &b, format!("lookup of {:?}", k)) {
                    Some((_, r)) if r.err == -libc::ENOENT => missing = Some(k.clone()),
                    Some(_) => {}
                    None => break,
                }
            }
        }
        if init_ok && !root_ok {
            problem = c.problem.take();
        }
    }
    let launcher = if fork && init_ok { child.launcher_exit(20_000) } else { None };
    let launcher_waits = fork && init_ok && launcher.is_none();
    let p = child.finish(60_000);
    account(&mut o, &p, &cfg, true);
    if o.harness.is_some() || o.viol.is_some() {
        return o;
    }
    let daemon = if fork { p.out2.as_ref().or(p.out.as_ref()) } else { p.out.as_ref() };
    if let (true, Some(x)) = (fork, p.out2.as_ref()) {
        // the daemon's log starts with the launcher's operations up to the fork
        o.ops = x.ops.clone();
        o.paths = x.paths.clone();
        o.fired_list = x.fired.clone();
    }
    let mounted = daemon.is_some_and(|d| d.ops.iter().any(|r| r.kind == OP_MOUNT && r.ret == 0));
    if let Some(m) = daemon.and_then(|d| d.ops.iter().find(|r| r.kind == OP_MOUNT && r.ret == 0 && r.fault == 0)) {
        let named = from.iter().any(|f| m.len == fnv(7, f.as_bytes()));
        if m.off != how || !named {
            o.fail(format!("`{}` does not mount with the options it was given: flags {:#x} instead of {:#x}{}", what, m.off, how, if !named { ", or another source name" } else { "" }));
            return o;
        }
    }
    let early = daemon.is_some_and(|d| d.launcher_gone_before_mount == 1);
    let faulty = o.fired_list.iter().any(|f| f.kind > F_LAST_BENIGN);
    if p.code == -24 || p.code == 78 {
        o.fail(format!("`{}` {}", what, bad_end(&p).unwrap()));
        return o;
    }
    if p.code < 0 || p.code == 134 {
        o.fail(format!("`{}` {}", what, bad_end(&p).unwrap()));
        return o;
    }
    if !fork && p.out2.is_some() {
        o.fail(format!("`{}` goes to the background although it was asked not to", what));
        return o;
    }
    if let (Some(k), false) = (missing, must_fail) {
        o.fail(format!("`{}`: what is mounted does not have the image's entry {:?}", what, k));
        return o;
    }
    if early && p.code == 0 {
        o.fail(format!("`{}`: the launcher ends with success before the filesystem is mounted", what));
        return o;
    }
    if fork {
        if p.code == 0 && !mounted {
            o.fail(format!("`{}` ({}): the launcher ends with success although nothing was mounted; stderr: {}", what, case, txt(&p.stderr)));
            return o;
        }
        if p.code == 0 && !init_ok {
            o.fail(format!("`{}` ({}): the launcher ends with success although the mount does not answer; stderr: {}", what, case, txt(&p.stderr)));
            return o;
        }
    } else if p.code == 0 && !init_ok {
        o.fail(format!("`{}` ({}) ends with success although nothing was mounted; stderr: {}", what, case, txt(&p.stderr)));
        return o;
    }
    if must_fail {
        if p.code == 0 {
            o.fail(format!("`{}` ({}) ends with success", what, case));
        } else if init_ok {
            o.fail(format!("`{}` ({}) reports failure but mounted something", what, case));
        }
        return o;
    }
    if !faulty {
        if launcher_waits {
            o.fail(format!("`{}`: the mount answers but the launcher does not return", what));
        } else if p.code != 0 {
            o.fail(format!("`{}` fails on a valid image (exit {}): {}", what, p.code, txt(&p.stderr)));
        } else if !root_ok {
            o.fail(format!("`{}`: mounted, but {}", what, problem.map(|x| x.1).unwrap_or_default()));
        }
    }
    o
}
