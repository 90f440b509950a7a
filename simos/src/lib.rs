#![allow(invalid_runtime_symbol_definitions)]
//! A simulated operating system, loaded with LD_PRELOAD into the program under test.
//!
//! All file operations of the program go to an in-memory filesystem; a seed and an explicit fault
//! plan decide listing order, splitting, interruptions, errors, disk-full, mutations by "other
//! processes" and the point where the program is killed. Only read-only access to
//! /proc, /sys, /dev, /usr, /lib, /etc (runtime needs) and the standard streams reach the real OS.
#![allow(clippy::missing_safety_doc)]
#[path = "../../common/simfmt.rs"]
mod simfmt;

use libc::*;
use simfmt::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CStr;
use std::sync::Mutex;

const FD_BASE: c_int = 500_000;

enum NK {
    Dir(BTreeMap<Vec<u8>, usize>),
    File(FileData),
    Link(Vec<u8>),
    Other,
}
struct Node {
    kind: NK,
    dirty: bool,
}
struct OpenFile {
    node: usize,
    pos: u64,
    rd: bool,
    wr: bool,
    append: bool,
    path: u32,
}
struct DirStream {
    entries: Vec<(Vec<u8>, u64, u8)>,
    pos: usize,
    fd: c_int,
    path: u32,
    ent: dirent64,
}

struct Sim {
    cfg: Config,
    nodes: Vec<Node>,
    cwd: usize,
    cwd_path: Vec<u8>,
    files: Vec<OpenFile>,
    fds: BTreeMap<c_int, usize>,
    next_fd: c_int,
    dirs: BTreeSet<usize>,
    paths: Vec<Vec<u8>>,
    path_ids: BTreeMap<Vec<u8>, u32>,
    nops: u64,
    clock: u64,
    hash: u64,
    ops: Vec<OpRec>,
    fired: Vec<Fault>,
    pair: u64,
    sendfile: bool,
    sticky: Vec<(u8, u64)>,
    cap_left: u64,
    out_fd: c_int,
    out2_fd: c_int,
    fuse_real: c_int,
    rnd: u64,
    dumped: bool,
    launcher: pid_t,
    launcher_gone: u8,
    pipes: BTreeSet<c_int>,
    pipes_r: BTreeSet<c_int>,
    pipe_reads: u64,
}

static G: Mutex<Option<Box<Sim>>> = Mutex::new(None);

enum Dec {
    Go,
    Short(u64),
    Err(c_int),
    Crash(u64),
    Partial(c_int),
}

fn set_errno(e: c_int) {
    unsafe { *__errno_location() = e }
}

fn raw_exit(code: c_int) -> ! {
    unsafe {
        syscall(SYS_exit_group, code);
    }
    loop {}
}

fn env_fd(name: &[u8]) -> c_int {
    unsafe {
        let p = getenv(name.as_ptr() as *const c_char);
        if p.is_null() {
            return -1;
        }
        CStr::from_ptr(p).to_str().ok().and_then(|s| s.parse().ok()).unwrap_or(-1)
    }
}

fn load() -> Option<Box<Sim>> {
    let fd = env_fd(b"XSIM_IN\0");
    let out_fd = env_fd(b"XSIM_OUT\0");
    if fd < 0 || out_fd < 0 {
        return None;
    }
    let mut data = Vec::new();
    let mut off = 0u64;
    let mut buf = vec![0u8; 1 << 20];
    loop {
        let n = unsafe { syscall(SYS_pread64, fd, buf.as_mut_ptr(), buf.len(), off) };
        if n <= 0 {
            break;
        }
        data.extend_from_slice(&buf[..n as usize]);
        off += n as u64;
    }
    let mut r = R(&data, 0);
    let cfg = r.config();
    let n = r.u32();
    let mut sim = Sim {
        cap_left: cfg.capacity,
        rnd: cfg.seed,
        cwd_path: cfg.cwd.clone(),
        cfg,
        nodes: vec![Node { kind: NK::Dir(BTreeMap::new()), dirty: false }],
        cwd: 0,
        files: vec![],
        fds: BTreeMap::new(),
        next_fd: FD_BASE,
        dirs: BTreeSet::new(),
        paths: vec![vec![]],
        path_ids: BTreeMap::new(),
        nops: 0,
        clock: 0,
        hash: 0xcbf29ce484222325,
        ops: vec![],
        fired: vec![],
        pair: 0,
        sendfile: false,
        sticky: vec![],
        out_fd,
        out2_fd: env_fd(b"XSIM_OUT2\0"),
        fuse_real: -1,
        dumped: false,
        launcher: 0,
        launcher_gone: 0,
        pipes: BTreeSet::new(),
        pipes_r: BTreeSet::new(),
        pipe_reads: 0,
    };
    for _ in 0..n {
        let nd = r.node();
        let kind = match nd.kind {
            NodeKind::Dir => NK::Dir(BTreeMap::new()),
            NodeKind::File(f) => NK::File(f),
            NodeKind::Symlink(t) => NK::Link(t),
            NodeKind::Other => NK::Other,
        };
        sim.add_node(&nd.path, kind);
    }
    let cwd = sim.cwd_path.clone();
    if let Ok(Res { node: Some(i), .. }) = sim.resolve(AT_FDCWD, &cwd, true) {
        sim.cwd = i;
    }
    Some(Box::new(sim))
}

struct Res {
    parent: usize,
    name: Vec<u8>,
    node: Option<usize>,
}

impl Sim {
    fn add_node(&mut self, path: &[u8], kind: NK) {
        let mut cur = 0;
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            let existing = match &self.nodes[cur].kind {
                NK::Dir(m) => m.get(*c).copied(),
                _ => return,
            };
            if let Some(e) = existing {
                cur = e;
                continue;
            }
            let k = if last { break } else { NK::Dir(BTreeMap::new()) };
            cur = self.new_node(cur, c, k, false);
        }
        if let Some(c) = comps.last() {
            let exists = match &self.nodes[cur].kind {
                NK::Dir(m) => m.contains_key(*c),
                _ => true,
            };
            if !exists {
                self.new_node(cur, c, kind, false);
            }
        }
    }
    fn new_node(&mut self, parent: usize, name: &[u8], kind: NK, dirty: bool) -> usize {
        let idx = self.nodes.len();
        self.nodes.push(Node { kind, dirty });
        if let NK::Dir(m) = &mut self.nodes[parent].kind {
            m.insert(name.to_vec(), idx);
        }
        idx
    }
    fn parent_of(&self, idx: usize) -> usize {
        if idx == 0 {
            return 0;
        }
        for (i, n) in self.nodes.iter().enumerate() {
            if let NK::Dir(m) = &n.kind {
                if m.values().any(|v| *v == idx) {
                    return i;
                }
            }
        }
        0
    }
    fn path_of(&self, idx: usize) -> Vec<u8> {
        let mut comps: Vec<Vec<u8>> = vec![];
        let mut cur = idx;
        while cur != 0 {
            let p = self.parent_of(cur);
            if let NK::Dir(m) = &self.nodes[p].kind {
                if let Some((k, _)) = m.iter().find(|(_, v)| **v == cur) {
                    comps.push(k.clone());
                }
            }
            cur = p;
            if comps.len() > 4096 {
                break;
            }
        }
        if comps.is_empty() {
            return b"/".to_vec();
        }
        let mut out = vec![];
        for c in comps.iter().rev() {
            out.push(b'/');
            out.extend_from_slice(c);
        }
        out
    }
    fn resolve(&self, dirfd: c_int, path: &[u8], follow: bool) -> Result<Res, c_int> {
        self.resolve_depth(dirfd, path, follow, 0)
    }
    fn resolve_depth(&self, dirfd: c_int, path: &[u8], follow: bool, depth: u32) -> Result<Res, c_int> {
        if depth > 20 {
            return Err(ELOOP);
        }
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() > 4095 {
            return Err(ENAMETOOLONG);
        }
        let mut cur = if path[0] == b'/' {
            0
        } else if dirfd == AT_FDCWD {
            self.cwd
        } else {
            match self.fds.get(&dirfd) {
                Some(f) => self.files[*f].node,
                None => return Err(EBADF),
            }
        };
        self.walk(&mut cur, path, follow, depth)
    }
    fn walk(&self, cur: &mut usize, path: &[u8], follow: bool, depth: u32) -> Result<Res, c_int> {
        let trailing = path.last() == Some(&b'/');
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        if comps.is_empty() {
            return Ok(Res { parent: *cur, name: vec![], node: Some(*cur) });
        }
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            if c.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let m = match &self.nodes[*cur].kind {
                NK::Dir(m) => m,
                _ => return Err(ENOTDIR),
            };
            if *c == b"." || *c == b".." {
                if *c == b".." {
                    *cur = self.parent_of(*cur);
                }
                if last {
                    return Ok(Res { parent: self.parent_of(*cur), name: vec![], node: Some(*cur) });
                }
                continue;
            }
            match m.get(*c) {
                None => {
                    if last {
                        return Ok(Res { parent: *cur, name: c.to_vec(), node: None });
                    }
                    return Err(ENOENT);
                }
                Some(n) => {
                    if let NK::Link(t) = &self.nodes[*n].kind {
                        if !last || follow || trailing {
                            if depth > 20 {
                                return Err(ELOOP);
                            }
                            let mut start = if t.first() == Some(&b'/') { 0 } else { *cur };
                            let r = self.walk(&mut start, &t.clone(), true, depth + 1)?;
                            if last {
                                return Ok(r);
                            }
                            match r.node {
                                Some(x) => *cur = x,
                                None => return Err(ENOENT),
                            }
                            continue;
                        }
                    }
                    if last {
                        if trailing && !matches!(self.nodes[*n].kind, NK::Dir(_)) {
                            return Err(ENOTDIR);
                        }
                        return Ok(Res { parent: *cur, name: c.to_vec(), node: Some(*n) });
                    }
                    *cur = *n;
                }
            }
        }
        unreachable!()
    }
    fn must(&self, dirfd: c_int, path: &[u8], follow: bool) -> Result<usize, c_int> {
        self.resolve(dirfd, path, follow)?.node.ok_or(ENOENT)
    }

    fn pid(&mut self, p: &[u8]) -> u32 {
        if let Some(i) = self.path_ids.get(p) {
            return *i;
        }
        let i = self.paths.len() as u32;
        self.paths.push(p.to_vec());
        self.path_ids.insert(p.to_vec(), i);
        i
    }

    fn dump(&mut self, status: u8) {
        if self.dumped {
            return;
        }
        self.dumped = true;
        let mut o = Output {
            status,
            clock_ns: self.clock,
            nops: self.nops,
            trace_hash: self.hash,
            ops: std::mem::take(&mut self.ops),
            paths: std::mem::take(&mut self.paths),
            fired: std::mem::take(&mut self.fired),
            nodes: vec![],
            launcher_gone_before_mount: self.launcher_gone,
        };
        let mut stack: Vec<(Vec<u8>, usize)> = vec![(vec![], 0)];
        let mut taken = BTreeSet::new();
        while let Some((p, i)) = stack.pop() {
            if i != 0 {
                let dirty = self.nodes[i].dirty;
                let kind = match &self.nodes[i].kind {
                    NK::Dir(_) => NodeKind::Dir,
                    NK::File(f) => {
                        if dirty {
                            NodeKind::File(f.clone())
                        } else {
                            NodeKind::File(FileData { len: f.len, pages: BTreeMap::new() })
                        }
                    }
                    NK::Link(t) => NodeKind::Symlink(t.clone()),
                    NK::Other => NodeKind::Other,
                };
                o.nodes.push(FsNode { path: p.clone(), kind, dirty, ino: i as u64 });
            }
            if !taken.insert(i) {
                continue;
            }
            if let NK::Dir(m) = &self.nodes[i].kind {
                for (k, v) in m.iter().rev() {
                    let mut q = p.clone();
                    q.push(b'/');
                    q.extend_from_slice(k);
                    stack.push((q, *v));
                }
            }
        }
        let mut w = W::default();
        w.output(&o);
        let mut done = 0;
        while done < w.0.len() {
            let n = unsafe { syscall(SYS_write, self.out_fd, w.0[done..].as_ptr(), w.0.len() - done) };
            if n <= 0 {
                break;
            }
            done += n as usize;
        }
    }

    /// Registers an operation and decides what the simulated OS does with it.
    fn begin(&mut self, kind: u8, path: u32, off: u64, len: u64, write: bool) -> Dec {
        let op = self.nops;
        self.nops += 1;
        if self.nops > self.cfg.max_ops {
            self.dump(ST_OPLIMIT);
            raw_exit(78);
        }
        let h = mix2(self.cfg.seed, op.wrapping_mul(0x10001).wrapping_add(0x51ed));
        self.clock += 2_000 + (h >> 40) % 60_000;
        if kind == OP_READ || kind == OP_WRITE || kind == OP_COPY {
            self.clock += len / 2;
        }
        let mut dec = Dec::Go;
        let mut fk = 0u8;
        let planned: Vec<Fault> = self.cfg.faults.iter().filter(|f| f.op == op).copied().collect();
        for f in planned {
            match f.kind {
                F_MUTATE => {
                    if let Some(m) = self.cfg.mutations.get(f.arg as usize).cloned() {
                        self.mutate(&m);
                        self.fired.push(f);
                        if fk == 0 {
                            fk = f.kind;
                        }
                    }
                }
                _ if !matches!(dec, Dec::Go) => {}
                F_ERRNO => {
                    dec = Dec::Err(f.arg as c_int);
                    fk = f.kind;
                    self.fired.push(f);
                }
                F_ERRNO_STICKY => {
                    self.sticky.push((kind, f.arg));
                    dec = Dec::Err(f.arg as c_int);
                    fk = f.kind;
                    self.fired.push(f);
                }
                F_PARTIAL_ERR => {
                    dec = Dec::Partial(f.arg as c_int);
                    fk = f.kind;
                    self.fired.push(f);
                }
                F_CRASH => {
                    dec = Dec::Crash(f.arg);
                    fk = f.kind;
                    self.fired.push(f);
                }
                F_SHORT if (kind == OP_READ || kind == OP_WRITE || kind == OP_COPY) && len > f.arg && f.arg > 0 => {
                    dec = Dec::Short(f.arg);
                    fk = f.kind;
                    self.fired.push(f);
                }
                F_EINTR if kind == OP_READ || kind == OP_WRITE || kind == OP_OPEN => {
                    dec = Dec::Err(EINTR);
                    fk = f.kind;
                    self.fired.push(f);
                }
                F_NOCOPY if kind == OP_COPY => {
                    dec = Dec::Err(f.arg as c_int);
                    fk = f.kind;
                    self.fired.push(f);
                }
                F_NODUP if kind == OP_DUP => {
                    dec = Dec::Err(EMFILE);
                    fk = f.kind;
                    self.fired.push(f);
                }
                F_NOREALPATH if kind == OP_REALPATH => {
                    dec = Dec::Err(EACCES);
                    fk = f.kind;
                    self.fired.push(f);
                }
                _ => {}
            }
        }
        if matches!(dec, Dec::Go) {
            if let Some((_, e)) = self.sticky.iter().find(|(k, _)| *k == kind) {
                dec = Dec::Err(*e as c_int);
                fk = F_ERRNO_STICKY;
            }
        }
        if matches!(dec, Dec::Go) {
            let r = self.cfg.rates;
            let hit = |salt: u64, rate: u16| -> bool { rate > 0 && (mix2(h, salt) % 1024) < rate as u64 };
            let shortn = |salt: u64| -> u64 {
                // small, medium or nearly complete
                let x = mix2(h, salt);
                let y = mix2(h, salt + 100);
                let n = match x % 4 {
                    0 => 1 + y % 3,
                    1 => 1 + y % 64.min(len),
                    2 => 1 + y % len,
                    _ => len - 1 - y % (len - 1).min(5).max(1),
                };
                n.clamp(1, len - 1)
            };
            let mut b: Option<(u8, u64)> = None;
            match kind {
                OP_READ => {
                    if hit(1, r[R_EINTR]) {
                        b = Some((F_EINTR, 0));
                    } else if len > 1 && hit(2, r[R_SHORT_READ]) {
                        b = Some((F_SHORT, shortn(12)));
                    }
                }
                OP_WRITE => {
                    if hit(1, r[R_EINTR]) {
                        b = Some((F_EINTR, 0));
                    } else if len > 1 && hit(3, r[R_SHORT_WRITE]) {
                        b = Some((F_SHORT, shortn(13)));
                    }
                }
                OP_OPEN => {
                    if hit(4, r[R_EINTR_OPEN]) {
                        b = Some((F_EINTR, 0));
                    }
                }
                OP_COPY => {
                    // Whether a pair of files supports it never changes while they are in use.
                    let ph = self.pair;
                    if r[R_NOCOPY] > 0 && mix2(ph, 5) % 1024 < r[R_NOCOPY] as u64 {
                        let e = if self.sendfile { [ENOSYS, EINVAL][(mix2(ph, 56) % 2) as usize] } else { [ENOSYS, EXDEV, EINVAL, EPERM, EOPNOTSUPP][(mix2(ph, 55) % 5) as usize] };
                        b = Some((F_NOCOPY, e as u64));
                    } else if len > 1 && hit(6, r[R_SHORT_COPY]) {
                        b = Some((F_SHORT, shortn(14)));
                    }
                }
                OP_DUP => {
                    if hit(7, r[R_NODUP]) {
                        b = Some((F_NODUP, 0));
                    }
                }
                OP_REALPATH => {
                    if hit(8, r[R_NOREALPATH]) {
                        b = Some((F_NOREALPATH, 0));
                    }
                }
                _ => {}
            }
            if let Some((k, arg)) = b {
                fk = k;
                self.fired.push(Fault { op, kind: k, arg });
                dec = match k {
                    F_EINTR => Dec::Err(EINTR),
                    F_SHORT => Dec::Short(arg),
                    F_NOCOPY => Dec::Err(arg as c_int),
                    F_NODUP => Dec::Err(EMFILE),
                    _ => Dec::Err(EACCES),
                };
            }
        }
        self.ops.push(OpRec { kind, fault: fk, write: write as u8, path, off, len, ret: 0 });
        if let Dec::Crash(n) = dec {
            if !(kind == OP_WRITE || kind == OP_COPY) || n == 0 {
                self.crash();
            }
        }
        dec
    }
    fn crash(&mut self) -> ! {
        self.dump(ST_CRASH);
        raw_exit(77);
    }
    fn end(&mut self, ret: i64) -> i64 {
        if let Some(r) = self.ops.last_mut() {
            r.ret = if r.kind == OP_OPENDIR && ret > 0 { 0 } else { ret }; // (an address)
            let b = [r.kind, r.fault];
            self.hash = fnv(self.hash, &b);
            self.hash = fnv(self.hash, &r.ret.to_le_bytes());
            self.hash = fnv(self.hash, &r.path.to_le_bytes());
        }
        if !self.cfg.log_ops {
            self.ops.clear();
        }
        ret
    }
    fn mutate(&mut self, m: &Mutation) {
        match m {
            Mutation::Truncate(p, n) => {
                if let Ok(i) = self.must(AT_FDCWD, p, true) {
                    if let NK::File(f) = &mut self.nodes[i].kind {
                        f.truncate(*n);
                    }
                }
            }
            Mutation::Remove(p) => {
                if let Ok(r) = self.resolve(AT_FDCWD, p, false) {
                    if let NK::Dir(d) = &mut self.nodes[r.parent].kind {
                        d.remove(&r.name);
                    }
                }
            }
            Mutation::Append(p, b) => {
                if let Ok(i) = self.must(AT_FDCWD, p, true) {
                    if let NK::File(f) = &mut self.nodes[i].kind {
                        let l = f.len;
                        f.write_at(l, b);
                    }
                }
            }
        }
    }

    fn fd_new(&mut self, of: OpenFile) -> c_int {
        let i = self.files.len();
        self.files.push(of);
        self.fd_alloc(i)
    }
    fn fd_alloc(&mut self, i: usize) -> c_int {
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, i);
        fd
    }

    fn open(&mut self, dirfd: c_int, path: &[u8], flags: c_int) -> Result<c_int, c_int> {
        let acc = flags & O_ACCMODE;
        let wr = acc == O_WRONLY || acc == O_RDWR;
        let rd = acc == O_RDONLY || acc == O_RDWR;
        let pid = self.pid(path);
        let mutating = wr || flags & (O_CREAT | O_TRUNC) != 0;
        match self.begin(OP_OPEN, pid, flags as u64, 0, mutating) {
            Dec::Err(e) | Dec::Partial(e) => return Err(e),
            _ => {}
        }
        if flags & O_TMPFILE == O_TMPFILE {
            return Err(EOPNOTSUPP);
        }
        let follow = flags & O_NOFOLLOW == 0 && !(flags & O_CREAT != 0 && flags & O_EXCL != 0);
        let r = self.resolve(dirfd, path, follow)?;
        let node = match r.node {
            Some(n) => {
                if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                    return Err(EEXIST);
                }
                match &self.nodes[n].kind {
                    NK::Link(_) => return Err(ELOOP),
                    NK::Dir(_) if mutating => return Err(EISDIR),
                    NK::Dir(_) => {}
                    NK::Other => return Err(ENXIO),
                    NK::File(_) if flags & O_DIRECTORY != 0 => return Err(ENOTDIR),
                    NK::File(_) => {}
                }
                if flags & O_TRUNC != 0 && wr {
                    let nd = &mut self.nodes[n];
                    if let NK::File(f) = &mut nd.kind {
                        f.truncate(0);
                        nd.dirty = true;
                    }
                }
                n
            }
            None => {
                if flags & O_CREAT == 0 || path.last() == Some(&b'/') {
                    return Err(ENOENT);
                }
                self.new_node(r.parent, &r.name, NK::File(FileData::default()), true)
            }
        };
        Ok(self.fd_new(OpenFile { node, pos: 0, rd, wr, append: flags & O_APPEND != 0, path: pid }))
    }

    fn read(&mut self, fd: c_int, buf: &mut [u8], at: Option<u64>) -> Result<usize, c_int> {
        let fi = *self.fds.get(&fd).ok_or(EBADF)?;
        let pos = at.unwrap_or(self.files[fi].pos);
        let path = self.files[fi].path;
        let node = self.files[fi].node;
        if !self.files[fi].rd {
            return Err(EBADF);
        }
        if let NK::Dir(_) = self.nodes[node].kind {
            return Err(EISDIR);
        }
        let mut n = buf.len();
        match self.begin(OP_READ, path, pos, n as u64, false) {
            Dec::Err(e) | Dec::Partial(e) => return Err(e),
            Dec::Short(k) => n = n.min(k as usize),
            _ => {}
        }
        let got = match &self.nodes[node].kind {
            NK::File(f) => f.read_at(pos, &mut buf[..n]),
            _ => 0,
        };
        if at.is_none() {
            self.files[fi].pos += got as u64;
        }
        Ok(got)
    }

    fn store(&mut self, node: usize, pos: u64, buf: &[u8]) -> Result<usize, c_int> {
        let mut n = buf.len();
        let nd = &mut self.nodes[node];
        let f = match &mut nd.kind {
            NK::File(f) => f,
            _ => return Err(EBADF),
        };
        if self.cap_left != u64::MAX {
            while n > 0 && f.new_pages(pos, n) * PAGE as u64 > self.cap_left {
                // cut back to the previous page boundary
                let end = pos + n as u64;
                let b = (end - 1) / PAGE as u64 * PAGE as u64;
                n = b.saturating_sub(pos) as usize;
            }
            if n == 0 && !buf.is_empty() {
                return Err(ENOSPC);
            }
            self.cap_left -= f.new_pages(pos, n) * PAGE as u64;
        }
        f.write_at(pos, &buf[..n]);
        nd.dirty = true;
        Ok(n)
    }

    fn write(&mut self, fd: c_int, buf: &[u8], at: Option<u64>) -> Result<usize, c_int> {
        let fi = *self.fds.get(&fd).ok_or(EBADF)?;
        if !self.files[fi].wr {
            return Err(EBADF);
        }
        let node = self.files[fi].node;
        let mut pos = at.unwrap_or(self.files[fi].pos);
        if self.files[fi].append {
            if let NK::File(f) = &self.nodes[node].kind {
                pos = f.len;
            }
        }
        let path = self.files[fi].path;
        let mut n = buf.len();
        match self.begin(OP_WRITE, path, pos, n as u64, true) {
            Dec::Err(e) => return Err(e),
            Dec::Partial(e) => {
                let half = n / 2;
                let _ = self.store(node, pos, &buf[..half]);
                return Err(e);
            }
            Dec::Short(k) => n = n.min(k as usize),
            Dec::Crash(k) => {
                let k = (k as usize).min(n);
                let _ = self.store(node, pos, &buf[..k]);
                self.crash();
            }
            Dec::Go => {}
        }
        let got = self.store(node, pos, &buf[..n])?;
        if at.is_none() {
            self.files[fi].pos = pos + got as u64;
        }
        Ok(got)
    }

    fn copy(&mut self, fin: c_int, oin: Option<u64>, fout: c_int, oout: Option<u64>, len: usize) -> Result<usize, c_int> {
        let a = *self.fds.get(&fin).ok_or(EBADF)?;
        let b = *self.fds.get(&fout).ok_or(EBADF)?;
        let ipos = oin.unwrap_or(self.files[a].pos);
        let opos = oout.unwrap_or(self.files[b].pos);
        if !self.files[a].rd || !self.files[b].wr || self.files[b].append {
            return Err(EBADF);
        }
        let path = self.files[b].path;
        let avail = match &self.nodes[self.files[a].node].kind {
            NK::File(f) => f.len.saturating_sub(ipos),
            _ => return Err(EINVAL),
        };
        // The kernel copies at most what is there; the decision is made on the effective size.
        let eff = (len as u64).min(avail).min(1 << 22);
        let mut n = eff as usize;
        let mut crash_at = None;
        let mut partial = None;
        self.pair = mix2(mix2(self.cfg.seed, self.files[a].node as u64), self.files[b].node as u64 + if self.sendfile { 1 << 40 } else { 0 });
        match self.begin(OP_COPY, path, opos, eff, true) {
            Dec::Err(e) => return Err(e),
            Dec::Partial(e) => {
                n /= 2;
                partial = Some(e);
            }
            Dec::Short(k) => n = n.min(k as usize),
            Dec::Crash(k) => {
                n = n.min(k as usize);
                crash_at = Some(());
            }
            Dec::Go => {}
        }
        // (the decision may have changed the source underneath)
        if let NK::File(f) = &self.nodes[self.files[a].node].kind {
            n = n.min(f.len.saturating_sub(ipos) as usize);
        }
        let node = self.files[b].node;
        let hole = |nd: &Node, pos: u64| match &nd.kind {
            NK::File(f) => n > 0 && f.pages.range(pos / PAGE as u64..=(pos + n as u64 - 1) / PAGE as u64).next().is_none(),
            _ => false,
        };
        let got = if opos >= 64 << 20 && self.cap_left == u64::MAX && hole(&self.nodes[self.files[a].node], ipos) && hole(&self.nodes[node], opos) {
            // from a hole into a hole
            if let NK::File(f) = &mut self.nodes[node].kind {
                f.len = f.len.max(opos + n as u64);
            }
            self.nodes[node].dirty = true;
            n
        } else {
            let mut buf = vec![0u8; n];
            if let NK::File(f) = &self.nodes[self.files[a].node].kind {
                f.read_at(ipos, &mut buf);
            }
            if n == 0 { 0 } else { self.store(node, opos, &buf)? }
        };
        if crash_at.is_some() {
            self.crash();
        }
        if let Some(e) = partial {
            return Err(e);
        }
        if oin.is_none() {
            self.files[a].pos += got as u64;
        }
        if oout.is_none() {
            self.files[b].pos += got as u64;
        }
        Ok(got)
    }

    fn simple(&mut self, kind: u8, path: &[u8], write: bool) -> Result<(), c_int> {
        let pid = self.pid(path);
        match self.begin(kind, pid, 0, 0, write) {
            Dec::Err(e) | Dec::Partial(e) => Err(e),
            _ => Ok(()),
        }
    }
    fn mode_size(&self, n: usize) -> (u32, u64) {
        match &self.nodes[n].kind {
            NK::Dir(_) => (S_IFDIR | 0o755, 4096),
            NK::File(f) => (S_IFREG | 0o644, f.len),
            NK::Link(t) => (S_IFLNK | 0o777, t.len() as u64),
            NK::Other => (S_IFIFO | 0o644, 0),
        }
    }
    fn fill_stat(&self, n: usize, st: *mut stat64) {
        let (mode, size) = self.mode_size(n);
        unsafe {
            std::ptr::write_bytes(st, 0, 1);
            let st = &mut *st;
            st.st_mode = mode;
            st.st_size = size as i64;
            st.st_ino = n as u64 + 1;
            st.st_dev = 77;
            st.st_nlink = 1;
            st.st_blksize = 4096;
            st.st_blocks = size.div_ceil(512) as i64;
            st.st_mtime = 1_600_000_000;
            st.st_atime = 1_600_000_001;
            st.st_ctime = 1_600_000_002;
        }
    }
    fn fill_statx(&self, n: usize, st: *mut statx) {
        let (mode, size) = self.mode_size(n);
        unsafe {
            std::ptr::write_bytes(st, 0, 1);
            let st = &mut *st;
            st.stx_mask = STATX_BASIC_STATS | STATX_BTIME;
            st.stx_mode = mode as u16;
            st.stx_size = size;
            st.stx_ino = n as u64 + 1;
            st.stx_nlink = 1;
            st.stx_blksize = 4096;
            st.stx_blocks = size.div_ceil(512);
            st.stx_mtime.tv_sec = 1_600_000_000;
            st.stx_atime.tv_sec = 1_600_000_001;
            st.stx_ctime.tv_sec = 1_600_000_002;
            st.stx_btime.tv_sec = 1_600_000_003;
            st.stx_dev_major = 0;
            st.stx_dev_minor = 77;
        }
    }
    fn listing(&self, n: usize) -> Vec<(Vec<u8>, u64, u8)> {
        let m = match &self.nodes[n].kind {
            NK::Dir(m) => m,
            _ => return vec![],
        };
        let ty = |i: usize| -> u8 {
            if self.cfg.dt_unknown {
                return DT_UNKNOWN;
            }
            match &self.nodes[i].kind {
                NK::Dir(_) => DT_DIR,
                NK::File(_) => DT_REG,
                NK::Link(_) => DT_LNK,
                NK::Other => DT_FIFO,
            }
        };
        let mut v: Vec<(Vec<u8>, u64, u8)> = vec![
            (b".".to_vec(), n as u64 + 1, DT_DIR),
            (b"..".to_vec(), self.parent_of(n) as u64 + 1, DT_DIR),
        ];
        for (k, i) in m {
            v.push((k.clone(), *i as u64 + 1, ty(*i)));
        }
        match self.cfg.shuffle {
            1 => v.reverse(),
            2 => Rng::new(mix2(self.cfg.seed, n as u64)).shuffle(&mut v),
            _ => {}
        }
        v
    }
}

// ------------------------------------------------------------------ plumbing
fn with<T>(f: impl FnOnce(&mut Sim) -> T) -> Option<T> {
    let mut g = match G.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    g.as_mut().map(|s| f(s))
}

extern "C" fn at_exit() {
    with(|s| s.dump(ST_EXIT));
}

extern "C" fn init() {
    if let Ok(mut g) = G.lock() {
        *g = load();
        if g.is_some() {
            unsafe {
                atexit(at_exit);
            }
        }
    }
}

#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn() = init;

unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    if p.is_null() {
        return b"";
    }
    CStr::from_ptr(p).to_bytes()
}

fn real_prefix(p: &[u8]) -> bool {
    const PRE: [&[u8]; 7] = [b"/proc", b"/sys", b"/dev", b"/usr", b"/lib", b"/lib64", b"/etc"];
    PRE.iter().any(|x| p == *x || (p.starts_with(x) && p.get(x.len()) == Some(&b'/')))
}
/// Whether a path-based, non-modifying operation goes to the real OS.
fn is_real(dirfd: c_int, p: &[u8]) -> bool {
    if p.first() != Some(&b'/') {
        // relative: real only when relative to a real descriptor
        return dirfd != AT_FDCWD && dirfd < FD_BASE;
    }
    real_prefix(p) && with(|s| s.must(AT_FDCWD, p, true).is_err()).unwrap_or(true)
}
fn active() -> bool {
    with(|_| ()).is_some()
}
fn vfd(fd: c_int) -> bool {
    fd >= FD_BASE
}
fn ret(r: Option<Result<i64, c_int>>) -> i64 {
    match r {
        Some(Ok(v)) => v,
        Some(Err(e)) => {
            set_errno(e);
            -1
        }
        None => {
            set_errno(ENOSYS);
            -1
        }
    }
}
/// Runs an operation and records its outcome in the log.
fn op(f: impl FnOnce(&mut Sim) -> Result<i64, c_int>) -> i64 {
    ret(with(|s| {
        let before = s.nops;
        let r = f(s);
        if s.nops > before {
            s.end(match &r {
                Ok(v) => *v,
                Err(e) => -(*e as i64),
            });
        }
        r
    }))
}
macro_rules! next {
    ($name:literal, $t:ty) => {{
        let p = dlsym(RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char);
        std::mem::transmute::<*mut c_void, $t>(p)
    }};
}

// ------------------------------------------------------------------ open/close
unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let p = cstr(path);
    let modifying = flags & O_ACCMODE != O_RDONLY || flags & (O_CREAT | O_TRUNC) != 0;
    if !active() {
        return syscall(SYS_openat, dirfd, path, flags, mode) as c_int;
    }
    if p == b"/dev/fuse" {
        return op(|s| {
            s.simple(OP_OPEN, p, false)?;
            if s.cfg.fuse_fd < 0 {
                return Err(ENOENT);
            }
            let fd = syscall(SYS_fcntl, s.cfg.fuse_fd, F_DUPFD_CLOEXEC, 10) as c_int;
            s.fuse_real = fd;
            Ok(fd as i64)
        }) as c_int;
    }
    if is_real(dirfd, p) && !modifying {
        return syscall(SYS_openat, dirfd, path, flags, mode) as c_int;
    }
    if p == b"/dev/null" {
        return syscall(SYS_openat, dirfd, path, flags, mode) as c_int;
    }
    op(|s| s.open(dirfd, p, flags).map(|v| v as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !vfd(fd) {
        with(|s| {
            s.pipes.remove(&fd);
            s.pipes_r.remove(&fd);
        });
        return syscall(SYS_close, fd) as c_int;
    }
    op(|s| {
        let f = s.fds.remove(&fd).ok_or(EBADF)?;
        let path = s.files[f].path;
        match s.begin(OP_CLOSE, path, 0, 0, false) {
            Dec::Err(e) => Err(e),
            _ => Ok(0),
        }
    }) as c_int
}

// ------------------------------------------------------------------ data
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !vfd(fd) {
        let (is_fuse, intr) = with(|s| {
            let mut intr = false;
            if s.pipes_r.contains(&fd) {
                // a signal arrives while the launcher waits for the daemon
                s.pipe_reads += 1;
                intr = s.pipe_reads < 20 && mix2(s.cfg.seed, 0x9e1 + s.pipe_reads) % 1024 < s.cfg.rates[R_EINTR] as u64;
            }
            (s.fuse_real == fd, intr)
        })
        .unwrap_or((false, false));
        if intr {
            set_errno(EINTR);
            return -1;
        }
        let is_fuse = fd >= 0 && is_fuse;
        let r = syscall(SYS_read, fd, buf, n) as ssize_t;
        if is_fuse {
            if r == 0 {
                set_errno(ENODEV);
                return -1;
            }
            let e = *__errno_location();
            with(|s| {
                s.begin(OP_FUSE_RX, 0, 0, 0, false);
                s.end(r as i64)
            });
            set_errno(e);
        }
        return r;
    }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    op(|s| s.read(fd, b, None).map(|v| v as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if !vfd(fd) {
        return syscall(SYS_pread64, fd, buf, n, off) as ssize_t;
    }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    op(|s| s.read(fd, b, Some(off as u64)).map(|v| v as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    pread64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if !vfd(fd) {
        return syscall(SYS_readv, fd, iov, cnt) as ssize_t;
    }
    let v = std::slice::from_raw_parts(iov, cnt as usize);
    let total: usize = v.iter().map(|x| x.iov_len).sum();
    let mut tmp = vec![0u8; total];
    let r = op(|s| s.read(fd, &mut tmp, None).map(|v| v as i64));
    if r > 0 {
        let mut done = 0usize;
        for x in v {
            let k = x.iov_len.min(r as usize - done);
            std::ptr::copy_nonoverlapping(tmp[done..].as_ptr(), x.iov_base as *mut u8, k);
            done += k;
        }
    }
    r as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !vfd(fd) {
        let pipe = fd > 2 && with(|s| s.pipes.contains(&fd)).unwrap_or(false);
        if pipe {
            with(|s| {
                s.begin(OP_PIPE_WRITE, 0, 0, n as u64, false);
                s.end(n as i64)
            });
        }
        return syscall(SYS_write, fd, buf, n) as ssize_t;
    }
    let b = std::slice::from_raw_parts(buf as *const u8, n);
    op(|s| s.write(fd, b, None).map(|v| v as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if !vfd(fd) {
        return syscall(SYS_pwrite64, fd, buf, n, off) as ssize_t;
    }
    let b = std::slice::from_raw_parts(buf as *const u8, n);
    op(|s| s.write(fd, b, Some(off as u64)).map(|v| v as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if !vfd(fd) {
        let is_fuse = fd >= 0 && with(|s| s.fuse_real == fd).unwrap_or(false);
        if is_fuse {
            with(|s| {
                s.begin(OP_FUSE_TX, 0, 0, 0, false);
                s.end(0)
            });
        }
        return syscall(SYS_writev, fd, iov, cnt) as ssize_t;
    }
    let v = std::slice::from_raw_parts(iov, cnt as usize);
    let mut tmp = Vec::new();
    for x in v {
        tmp.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
    }
    op(|s| s.write(fd, &tmp, None).map(|v| v as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if !vfd(fd) {
        return syscall(SYS_lseek, fd, off, whence) as off64_t;
    }
    op(|s| {
        let fi = *s.fds.get(&fd).ok_or(EBADF)?;
        let path = s.files[fi].path;
        match s.begin(OP_SEEK, path, off as u64, whence as u64, false) {
            Dec::Err(e) => return Err(e),
            _ => {}
        }
        let base = match whence {
            SEEK_SET => 0,
            SEEK_CUR => s.files[fi].pos as i64,
            SEEK_END => s.mode_size(s.files[fi].node).1 as i64,
            _ => return Err(EINVAL),
        };
        let n = base.checked_add(off).ok_or(EOVERFLOW)?;
        if n < 0 {
            return Err(EINVAL);
        }
        s.files[fi].pos = n as u64;
        Ok(n)
    })
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
unsafe fn opt(p: *mut off64_t) -> Option<u64> {
    if p.is_null() {
        None
    } else {
        Some(*p as u64)
    }
}
unsafe fn bump(p: *mut off64_t, r: i64) {
    if !p.is_null() && r > 0 {
        *p += r;
    }
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(fi: c_int, oi: *mut off64_t, fo: c_int, oo: *mut off64_t, n: size_t, flags: c_uint) -> ssize_t {
    if !vfd(fi) && !vfd(fo) {
        return syscall(SYS_copy_file_range, fi, oi, fo, oo, n, flags) as ssize_t;
    }
    if !vfd(fi) || !vfd(fo) {
        set_errno(EXDEV);
        return -1;
    }
    let r = op(|s| {
        s.sendfile = false;
        s.copy(fi, opt(oi), fo, opt(oo), n).map(|v| v as i64)
    });
    bump(oi, r);
    bump(oo, r);
    r as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(fo: c_int, fi: c_int, oi: *mut off64_t, n: size_t) -> ssize_t {
    if !vfd(fi) && !vfd(fo) {
        return syscall(SYS_sendfile, fo, fi, oi, n) as ssize_t;
    }
    if !vfd(fi) || !vfd(fo) {
        set_errno(EINVAL);
        return -1;
    }
    let r = op(|s| {
        s.sendfile = true;
        s.copy(fi, opt(oi), fo, None, n).map(|v| v as i64)
    });
    bump(oi, r);
    r as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(fo: c_int, fi: c_int, oi: *mut off64_t, n: size_t) -> ssize_t {
    sendfile64(fo, fi, oi, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(fi: c_int, oi: *mut off64_t, fo: c_int, oo: *mut off64_t, n: size_t, flags: c_uint) -> ssize_t {
    if !vfd(fi) && !vfd(fo) {
        return syscall(SYS_splice, fi, oi, fo, oo, n, flags) as ssize_t;
    }
    set_errno(EINVAL);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if !vfd(fd) {
        return syscall(SYS_ftruncate, fd, len) as c_int;
    }
    op(|s| {
        let fi = *s.fds.get(&fd).ok_or(EBADF)?;
        let path = s.files[fi].path;
        match s.begin(OP_TRUNC, path, len as u64, 0, true) {
            Dec::Err(e) | Dec::Partial(e) => return Err(e),
            _ => {}
        }
        if !s.files[fi].wr || len < 0 {
            return Err(EINVAL);
        }
        let n = s.files[fi].node;
        s.nodes[n].dirty = true;
        if let NK::File(f) = &mut s.nodes[n].kind {
            f.truncate(len as u64);
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, len: off64_t) -> c_int {
    let fd = do_open(AT_FDCWD, path, O_WRONLY, 0);
    if fd < 0 {
        return -1;
    }
    let r = ftruncate64(fd, len);
    close(fd);
    r
}
#[no_mangle]
pub unsafe extern "C" fn truncate(path: *const c_char, len: off64_t) -> c_int {
    truncate64(path, len)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, _mode: c_int, _off: off64_t, _len: off64_t) -> c_int {
    if !vfd(fd) {
        return syscall(SYS_fallocate, fd, _mode, _off, _len) as c_int;
    }
    set_errno(EOPNOTSUPP);
    -1
}
unsafe fn sync_fd(fd: c_int, nr: c_long) -> c_int {
    if !vfd(fd) {
        return syscall(nr, fd) as c_int;
    }
    op(|s| {
        let fi = *s.fds.get(&fd).ok_or(EBADF)?;
        let path = s.files[fi].path;
        match s.begin(OP_SYNC, path, 0, 0, false) {
            Dec::Err(e) | Dec::Partial(e) => Err(e),
            _ => Ok(0),
        }
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync_fd(fd, SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_fd(fd, SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    sync_fd(fd, SYS_syncfs)
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: c_ulong) -> c_int {
    if !vfd(fd) {
        return syscall(SYS_fcntl, fd, cmd, arg) as c_int;
    }
    match cmd {
        F_DUPFD | F_DUPFD_CLOEXEC => op(|s| {
            let fi = *s.fds.get(&fd).ok_or(EBADF)?;
            let path = s.files[fi].path;
            match s.begin(OP_DUP, path, 0, 0, false) {
                Dec::Err(e) | Dec::Partial(e) => return Err(e),
                _ => {}
            }
            Ok(s.fd_alloc(fi) as i64)
        }) as c_int,
        F_GETFD => {
            if with(|s| s.fds.contains_key(&fd)).unwrap_or(false) {
                FD_CLOEXEC
            } else {
                set_errno(EBADF);
                -1
            }
        }
        F_GETFL => with(|s| {
            s.fds.get(&fd).map(|f| {
                let f = &s.files[*f];
                (if f.rd && f.wr {
                    O_RDWR
                } else if f.wr {
                    O_WRONLY
                } else {
                    O_RDONLY
                }) | if f.append { O_APPEND } else { 0 }
            })
        })
        .flatten()
        .unwrap_or_else(|| {
            set_errno(EBADF);
            -1
        }),
        F_SETFD | F_SETFL | F_SETLK | F_SETLKW => 0,
        _ => {
            set_errno(EINVAL);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_ulong) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_ulong) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if !vfd(fd) {
        return syscall(SYS_dup, fd) as c_int;
    }
    do_fcntl(fd, F_DUPFD, 0)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, o: c_int) -> c_int {
    if !vfd(fd) {
        return syscall(SYS_flock, fd, o) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn isatty(_fd: c_int) -> c_int {
    set_errno(ENOTTY);
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(_fd: c_int, _o: off64_t, _l: off64_t, _a: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    if vfd(fd) {
        set_errno(ENODEV);
        return MAP_FAILED;
    }
    syscall(SYS_mmap, a, len, prot, flags, fd, off) as *mut c_void
}

// ------------------------------------------------------------------ metadata
unsafe fn stat_op(dirfd: c_int, p: &[u8], follow: bool) -> Result<usize, c_int> {
    let r = with(|s| {
        let before = s.nops;
        let r = s.simple(OP_STAT, p, false).and_then(|_| s.must(dirfd, p, follow));
        if s.nops > before {
            s.end(match &r {
                Ok(v) => *v as i64,
                Err(e) => -(*e as i64),
            });
        }
        r
    });
    r.unwrap_or(Err(ENOSYS))
}
unsafe fn fstat_op(fd: c_int) -> Result<usize, c_int> {
    with(|s| {
        let fi = *s.fds.get(&fd).ok_or(EBADF)?;
        let path = s.files[fi].path;
        let node = s.files[fi].node;
        let d = s.begin(OP_STAT, path, 0, 0, false);
        let r = match d {
            Dec::Err(e) | Dec::Partial(e) => Err(e),
            _ => Ok(node),
        };
        s.end(match &r {
            Ok(v) => *v as i64,
            Err(e) => -(*e as i64),
        });
        r
    })
    .unwrap_or(Err(ENOSYS))
}
unsafe fn stat_common(dirfd: c_int, path: *const c_char, st: *mut stat64, flags: c_int) -> c_int {
    let p = cstr(path);
    if !active() || (!p.is_empty() && is_real(dirfd, p)) || (p.is_empty() && !vfd(dirfd)) {
        return syscall(SYS_newfstatat, dirfd, path, st, flags) as c_int;
    }
    let r = if p.is_empty() {
        fstat_op(dirfd)
    } else {
        stat_op(dirfd, p, flags & AT_SYMLINK_NOFOLLOW == 0)
    };
    match r {
        Ok(n) => {
            with(|s| s.fill_stat(n, st));
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut stat64) -> c_int {
    stat_common(AT_FDCWD, p, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut stat64) -> c_int {
    stat_common(AT_FDCWD, p, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut stat64) -> c_int {
    stat_common(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut stat64) -> c_int {
    stat_common(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut stat64, flags: c_int) -> c_int {
    stat_common(d, p, st, flags)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, st: *mut stat64, flags: c_int) -> c_int {
    stat_common(d, p, st, flags)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    if !vfd(fd) {
        return syscall(SYS_fstat, fd, st) as c_int;
    }
    match fstat_op(fd) {
        Ok(n) => {
            with(|s| s.fill_stat(n, st));
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, flags: c_int, mask: c_uint, st: *mut statx) -> c_int {
    let p = cstr(path);
    if st.is_null() || path.is_null() {
        set_errno(EFAULT);
        return -1;
    }
    if !active() || (!p.is_empty() && is_real(d, p)) || (p.is_empty() && !vfd(d)) {
        return syscall(SYS_statx, d, path, flags, mask, st) as c_int;
    }
    let r = if p.is_empty() {
        fstat_op(d)
    } else {
        stat_op(d, p, flags & AT_SYMLINK_NOFOLLOW == 0)
    };
    match r {
        Ok(n) => {
            with(|s| s.fill_statx(n, st));
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
unsafe fn do_access(d: c_int, path: *const c_char) -> c_int {
    let p = cstr(path);
    if !active() || is_real(d, p) {
        return syscall(SYS_faccessat, d, path, F_OK) as c_int;
    }
    match stat_op(d, p, true) {
        Ok(_) => 0,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, _m: c_int) -> c_int {
    do_access(AT_FDCWD, p)
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, _m: c_int, _f: c_int) -> c_int {
    do_access(d, p)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(_p: *const c_char, _m: mode_t) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if !vfd(fd) {
        return syscall(SYS_fchmod, fd, m) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn futimens(_fd: c_int, _t: *const timespec) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(_d: c_int, _p: *const c_char, _t: *const timespec, _f: c_int) -> c_int {
    0
}

// ------------------------------------------------------------------ directories
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut DIR {
    let p = cstr(path);
    if !active() || is_real(AT_FDCWD, p) {
        let f = next!("opendir", unsafe extern "C" fn(*const c_char) -> *mut DIR);
        return f(path);
    }
    let r = op(|s| {
        let pid = s.pid(p);
        match s.begin(OP_OPENDIR, pid, 0, 0, false) {
            Dec::Err(e) | Dec::Partial(e) => return Err(e),
            _ => {}
        }
        let n = s.must(AT_FDCWD, p, true)?;
        s.open_dir_stream(n, pid, None)
    });
    if r == -1 {
        std::ptr::null_mut()
    } else {
        r as *mut DIR
    }
}
impl Sim {
    fn open_dir_stream(&mut self, n: usize, pid: u32, fd: Option<c_int>) -> Result<i64, c_int> {
        if !matches!(self.nodes[n].kind, NK::Dir(_)) {
            return Err(ENOTDIR);
        }
        let entries = self.listing(n);
        let fd = match fd {
            Some(f) => f,
            None => self.fd_new(OpenFile { node: n, pos: 0, rd: true, wr: false, append: false, path: pid }),
        };
        let d = Box::new(DirStream { entries, pos: 0, fd, path: pid, ent: unsafe { std::mem::zeroed() } });
        let p = Box::into_raw(d) as usize;
        self.dirs.insert(p);
        Ok(p as i64)
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DIR {
    if !vfd(fd) {
        let f = next!("fdopendir", unsafe extern "C" fn(c_int) -> *mut DIR);
        return f(fd);
    }
    let r = op(|s| {
        let fi = *s.fds.get(&fd).ok_or(EBADF)?;
        let (n, path) = (s.files[fi].node, s.files[fi].path);
        match s.begin(OP_OPENDIR, path, 0, 0, false) {
            Dec::Err(e) | Dec::Partial(e) => return Err(e),
            _ => {}
        }
        s.open_dir_stream(n, path, Some(fd))
    });
    if r == -1 {
        std::ptr::null_mut()
    } else {
        r as *mut DIR
    }
}
fn is_vdir(d: *mut DIR) -> bool {
    with(|s| s.dirs.contains(&(d as usize))).unwrap_or(false)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if !is_vdir(d) {
        let f = next!("readdir64", unsafe extern "C" fn(*mut DIR) -> *mut dirent64);
        return f(d);
    }
    let ds = &mut *(d as *mut DirStream);
    let r = op(|s| {
        match s.begin(OP_READDIR, ds.path, ds.pos as u64, 0, false) {
            Dec::Err(e) | Dec::Partial(e) => return Err(e),
            _ => {}
        }
        Ok((ds.pos < ds.entries.len()) as i64)
    });
    if r <= 0 {
        // end of directory leaves errno alone; errors have set it
        return std::ptr::null_mut();
    }
    let (name, ino, ty) = &ds.entries[ds.pos];
    ds.pos += 1;
    ds.ent.d_ino = *ino;
    ds.ent.d_off = ds.pos as i64;
    ds.ent.d_type = *ty;
    ds.ent.d_reclen = std::mem::size_of::<dirent64>() as u16;
    for (i, b) in name.iter().enumerate() {
        ds.ent.d_name[i] = *b as c_char;
    }
    ds.ent.d_name[name.len()] = 0;
    &mut ds.ent
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut DIR) -> *mut dirent64 {
    readdir64(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if !is_vdir(d) {
        let f = next!("closedir", unsafe extern "C" fn(*mut DIR) -> c_int);
        return f(d);
    }
    with(|s| {
        s.dirs.remove(&(d as usize));
        let ds = Box::from_raw(d as *mut DirStream);
        s.fds.remove(&ds.fd);
    });
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    if !is_vdir(d) {
        let f = next!("dirfd", unsafe extern "C" fn(*mut DIR) -> c_int);
        return f(d);
    }
    (*(d as *mut DirStream)).fd
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, path: *const c_char, _m: mode_t) -> c_int {
    let p = cstr(path);
    op(|s| {
        s.simple(OP_MKDIR, p, true)?;
        let r = s.resolve(d, p, true)?;
        if r.node.is_some() {
            return Err(EEXIST);
        }
        s.new_node(r.parent, &r.name, NK::Dir(BTreeMap::new()), true);
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, m: mode_t) -> c_int {
    mkdirat(AT_FDCWD, path, m)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, flags: c_int) -> c_int {
    let p = cstr(path);
    let dir = flags & AT_REMOVEDIR != 0;
    op(|s| {
        s.simple(if dir { OP_RMDIR } else { OP_UNLINK }, p, true)?;
        let r = s.resolve(d, p, false)?;
        let n = r.node.ok_or(ENOENT)?;
        match &s.nodes[n].kind {
            NK::Dir(m) => {
                if !dir {
                    return Err(EISDIR);
                }
                if !m.is_empty() {
                    return Err(ENOTEMPTY);
                }
            }
            _ if dir => return Err(ENOTDIR),
            _ => {}
        }
        if r.name.is_empty() {
            return Err(EBUSY);
        }
        if let NK::Dir(m) = &mut s.nodes[r.parent].kind {
            m.remove(&r.name);
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    unlinkat(AT_FDCWD, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    unlinkat(AT_FDCWD, p, AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn remove(p: *const c_char) -> c_int {
    let r = unlinkat(AT_FDCWD, p, 0);
    if r < 0 && *__errno_location() == EISDIR {
        return unlinkat(AT_FDCWD, p, AT_REMOVEDIR);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(da: c_int, a: *const c_char, db: c_int, b: *const c_char, flags: c_uint) -> c_int {
    let (pa, pb) = (cstr(a), cstr(b));
    op(|s| {
        let mut both = pa.to_vec();
        both.push(0);
        both.extend_from_slice(pb);
        s.simple(OP_RENAME, &both, true)?;
        let ra = s.resolve(da, pa, false)?;
        let n = ra.node.ok_or(ENOENT)?;
        let rb = s.resolve(db, pb, false)?;
        if let Some(t) = rb.node {
            if flags & 1 != 0 {
                return Err(EEXIST);
            }
            if t == n {
                return Ok(0);
            }
            let src_dir = matches!(s.nodes[n].kind, NK::Dir(_));
            match &s.nodes[t].kind {
                NK::Dir(m) => {
                    if !src_dir {
                        return Err(EISDIR);
                    }
                    if !m.is_empty() {
                        return Err(ENOTEMPTY);
                    }
                }
                _ if src_dir => return Err(ENOTDIR),
                _ => {}
            }
        }
        if let NK::Dir(m) = &mut s.nodes[ra.parent].kind {
            m.remove(&ra.name);
        }
        if let NK::Dir(m) = &mut s.nodes[rb.parent].kind {
            m.insert(rb.name, n);
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(da: c_int, a: *const c_char, db: c_int, b: *const c_char) -> c_int {
    renameat2(da, a, db, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    renameat2(AT_FDCWD, a, AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(da: c_int, a: *const c_char, db: c_int, b: *const c_char, _f: c_int) -> c_int {
    let (pa, pb) = (cstr(a), cstr(b));
    op(|s| {
        s.simple(OP_LINK, pb, true)?;
        let n = s.must(da, pa, false)?;
        let rb = s.resolve(db, pb, false)?;
        if rb.node.is_some() {
            return Err(EEXIST);
        }
        if let NK::Dir(m) = &mut s.nodes[rb.parent].kind {
            m.insert(rb.name, n);
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(AT_FDCWD, a, AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(t: *const c_char, b: *const c_char) -> c_int {
    let (t, pb) = (cstr(t), cstr(b));
    op(|s| {
        s.simple(OP_LINK, pb, true)?;
        let rb = s.resolve(AT_FDCWD, pb, false)?;
        if rb.node.is_some() {
            return Err(EEXIST);
        }
        s.new_node(rb.parent, &rb.name, NK::Link(t.to_vec()), true);
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    let p = cstr(path);
    if !active() || is_real(AT_FDCWD, p) {
        return syscall(SYS_readlink, path, buf, n) as ssize_t;
    }
    op(|s| {
        s.simple(OP_READLINK, p, false)?;
        let i = s.must(AT_FDCWD, p, false)?;
        match &s.nodes[i].kind {
            NK::Link(t) => {
                let k = t.len().min(n);
                std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
                Ok(k as i64)
            }
            _ => Err(EINVAL),
        }
    }) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    let p = cstr(path);
    if !active() || is_real(AT_FDCWD, p) {
        let f = next!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char);
        return f(path, out);
    }
    let mut res: Vec<u8> = vec![];
    let r = op(|s| {
        s.simple(OP_REALPATH, p, false)?;
        let i = s.must(AT_FDCWD, p, true)?;
        res = s.path_of(i);
        Ok(0)
    });
    if r < 0 {
        return std::ptr::null_mut();
    }
    let dst = if out.is_null() { malloc(res.len() + 1) as *mut c_char } else { out };
    std::ptr::copy_nonoverlapping(res.as_ptr(), dst as *mut u8, res.len());
    *dst.add(res.len()) = 0;
    dst
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if !active() {
        let f = next!("getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char);
        return f(buf, n);
    }
    let p = with(|s| s.path_of(s.cwd)).unwrap();
    if p.len() + 1 > n {
        set_errno(ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(p.as_ptr(), buf as *mut u8, p.len());
    *buf.add(p.len()) = 0;
    buf
}
#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    let p = cstr(path);
    op(|s| {
        s.simple(OP_OTHER, p, false)?;
        let i = s.must(AT_FDCWD, p, true)?;
        s.cwd = i;
        Ok(0)
    }) as c_int
}

// ------------------------------------------------------------------ the rest of the world
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    let r = with(|s| {
        for i in 0..n {
            s.rnd = mix(s.rnd);
            *(buf as *mut u8).add(i) = s.rnd as u8;
        }
    });
    if r.is_none() {
        return syscall(SYS_getrandom, buf, n, flags) as ssize_t;
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn mount(src: *const c_char, target: *const c_char, _t: *const c_char, flags: c_ulong, data: *const c_void) -> c_int {
    let p = cstr(target);
    let mut how = flags as u64;
    let mut from = 0;
    if !data.is_null() {
        for (i, o) in ["default_permissions", "allow_other"].iter().enumerate() {
            if cstr(data as *const c_char).split(|c| *c == b',').any(|x| x == o.as_bytes()) {
                how |= 1 << (32 + i);
            }
        }
    }
    if !src.is_null() {
        from = fnv(7, cstr(src));
    }
    let (launcher, wait) = with(|s| (s.launcher, s.cfg.mount_wait_ms)).unwrap_or((0, 0));
    if launcher != 0 {
        // Schedule chosen by the simulator: the daemon is slow to mount; does the launcher already leave?
        let mut waited = 0;
        while waited < wait * 1000 {
            if getppid() != launcher {
                with(|s| s.launcher_gone = 1);
                break;
            }
            usleep(500);
            waited += 500;
        }
    }
    op(|s| {
        let r = s.simple(OP_MOUNT, p, true);
        // what was asked for
        if let Some(x) = s.ops.last_mut() {
            x.off = how;
            x.len = from;
        }
        r?;
        let i = s.must(AT_FDCWD, p, true)?;
        if !matches!(s.nodes[i].kind, NK::Dir(_)) {
            return Err(ENOTDIR);
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn umount(t: *const c_char) -> c_int {
    let p = cstr(t);
    op(|s| s.simple(OP_UMOUNT, p, true).map(|_| 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn umount2(t: *const c_char, _f: c_int) -> c_int {
    umount(t)
}
/// The program may not start other programs (fusermount).
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(_p: *mut pid_t, _f: *const c_char, _a: *const c_void, _b: *const c_void, _c: *const *const c_char, _d: *const *const c_char) -> c_int {
    ENOENT
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(_p: *mut pid_t, _f: *const c_char, _a: *const c_void, _b: *const c_void, _c: *const *const c_char, _d: *const *const c_char) -> c_int {
    ENOENT
}
#[no_mangle]
pub unsafe extern "C" fn pidfd_spawnp(_p: *mut c_int, _f: *const c_char, _a: *const c_void, _b: *const c_void, _c: *const *const c_char, _d: *const *const c_char) -> c_int {
    ENOENT
}
#[no_mangle]
pub unsafe extern "C" fn execvp(_f: *const c_char, _a: *const *const c_char) -> c_int {
    set_errno(ENOENT);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn execve(_f: *const c_char, _a: *const *const c_char, _e: *const *const c_char) -> c_int {
    set_errno(ENOENT);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    let r = syscall(SYS_pipe2, fds, flags) as c_int;
    if r == 0 {
        let w = *fds.add(1);
        let rd = *fds;
        with(|s| {
            s.pipes_r.insert(rd);
            s.pipes.insert(w)
        });
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pipe(fds: *mut c_int) -> c_int {
    pipe2(fds, 0)
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> pid_t {
    let me = getpid();
    let e = with(|s| {
        s.begin(OP_OTHER, 0, 0, 0, false);
        let planned = s.ops.last().map(|r| r.fault).unwrap_or(0);
        s.end(0);
        planned
    });
    if e == Some(F_ERRNO) {
        set_errno(EAGAIN);
        return -1;
    }
    let f = next!("fork", unsafe extern "C" fn() -> pid_t);
    let r = f();
    if r == 0 {
        with(|s| {
            s.out_fd = s.out2_fd;
            s.launcher = me;
        });
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    with(|s| s.dump(ST_EXIT));
    raw_exit(code)
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if let Ok(mut g) = G.try_lock() {
        if let Some(s) = g.as_mut() {
            s.dump(ST_ABORT);
        }
    }
    raw_exit(134)
}
