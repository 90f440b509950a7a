//! Data shared by the simulated OS (`simos`) and the harness (`xsim`):
//! sparse file contents, the fault plan, the operation log and their wire format.
#![allow(dead_code)]
use std::collections::BTreeMap;

pub const PAGE: usize = 8192;

/// Sparse file contents; pages that are absent read as zeros.
#[derive(Clone, Default, PartialEq, Eq)]
pub struct FileData {
    pub len: u64,
    pub pages: BTreeMap<u64, Box<[u8]>>,
}

impl FileData {
    pub fn from_bytes(b: &[u8]) -> Self {
        let mut f = FileData::default();
        f.write_at(0, b);
        f.len = b.len() as u64;
        f
    }
    pub fn read_at(&self, off: u64, buf: &mut [u8]) -> usize {
        if off >= self.len {
            return 0;
        }
        let n = std::cmp::min(buf.len() as u64, self.len - off) as usize;
        let mut done = 0;
        while done < n {
            let pos = off + done as u64;
            let pg = pos / PAGE as u64;
            let po = (pos % PAGE as u64) as usize;
            let k = std::cmp::min(PAGE - po, n - done);
            match self.pages.get(&pg) {
                Some(p) => buf[done..done + k].copy_from_slice(&p[po..po + k]),
                None => buf[done..done + k].fill(0),
            }
            done += k;
        }
        n
    }
    /// Number of pages a write would have to allocate.
    pub fn new_pages(&self, off: u64, n: usize) -> u64 {
        if n == 0 {
            return 0;
        }
        let a = off / PAGE as u64;
        let b = (off + n as u64 - 1) / PAGE as u64;
        (a..=b).filter(|p| !self.pages.contains_key(p)).count() as u64
    }
    pub fn write_at(&mut self, off: u64, b: &[u8]) {
        let mut done = 0;
        while done < b.len() {
            let pos = off + done as u64;
            let pg = pos / PAGE as u64;
            let po = (pos % PAGE as u64) as usize;
            let k = std::cmp::min(PAGE - po, b.len() - done);
            // far out, zeros written over a hole leave it a hole
            if pos >= 64 << 20 && !self.pages.contains_key(&pg) && b[done..done + k].iter().all(|x| *x == 0) {
                done += k;
                continue;
            }
            let p = self
                .pages
                .entry(pg)
                .or_insert_with(|| vec![0u8; PAGE].into_boxed_slice());
            p[po..po + k].copy_from_slice(&b[done..done + k]);
            done += k;
        }
        if off + b.len() as u64 > self.len {
            self.len = off + b.len() as u64;
        }
    }
    pub fn truncate(&mut self, len: u64) {
        if len < self.len {
            let first_gone = len.div_ceil(PAGE as u64);
            let gone: Vec<u64> = self.pages.range(first_gone..).map(|(k, _)| *k).collect();
            for k in gone {
                self.pages.remove(&k);
            }
            let po = (len % PAGE as u64) as usize;
            if po != 0 {
                if let Some(p) = self.pages.get_mut(&(len / PAGE as u64)) {
                    p[po..].fill(0);
                }
            }
        }
        self.len = len;
    }
    pub fn to_vec(&self) -> Vec<u8> {
        let mut v = vec![0; self.len as usize];
        self.read_at(0, &mut v);
        v
    }
}

pub enum NodeKind {
    Dir,
    File(FileData),
    Symlink(Vec<u8>),
    /// Something that is neither a file nor a directory (a fifo)
    Other,
}

pub struct FsNode {
    pub path: Vec<u8>,
    pub kind: NodeKind,
    /// Output only: the file was modified by the run. Contents are omitted when false.
    pub dirty: bool,
    /// Output only: inode number assigned by the simulator (1-based index of the input node,
    /// or larger for objects created by the run).
    pub ino: u64,
}

// Fault kinds. 1..=31 benign, 32.. hard.
pub const F_SHORT: u8 = 1; // arg: number of bytes allowed
pub const F_EINTR: u8 = 2;
pub const F_NOCOPY: u8 = 3; // in-kernel copy unsupported, arg: errno
pub const F_NODUP: u8 = 4;
pub const F_NOREALPATH: u8 = 5;
pub const F_LAST_BENIGN: u8 = 31;
pub const F_ERRNO: u8 = 32; // arg: errno
pub const F_CRASH: u8 = 33; // arg: bytes of a write applied before the kill
pub const F_MUTATE: u8 = 34; // arg: index of the mutation, applied before the operation
pub const F_ERRNO_STICKY: u8 = 35; // from this op on, every op of the same kind fails: arg errno
pub const F_PARTIAL_ERR: u8 = 36; // write: half of the data is stored, then the errno of arg is reported at the next write (torn)

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fault {
    pub op: u64,
    pub kind: u8,
    pub arg: u64,
}

#[derive(Clone, Debug)]
pub enum Mutation {
    Truncate(Vec<u8>, u64),
    Remove(Vec<u8>),
    Append(Vec<u8>, Vec<u8>),
}

// Rates, per 1024, of seeded benign faults
pub const R_SHORT_READ: usize = 0;
pub const R_SHORT_WRITE: usize = 1;
pub const R_EINTR: usize = 2;
pub const R_SHORT_COPY: usize = 3;
pub const R_NOCOPY: usize = 4;
pub const R_NODUP: usize = 5;
pub const R_NOREALPATH: usize = 6;
pub const R_EINTR_OPEN: usize = 7;
pub const NRATES: usize = 8;

#[derive(Clone, Debug, Default)]
pub struct Config {
    pub seed: u64,
    pub rates: [u16; NRATES],
    pub faults: Vec<Fault>,
    pub mutations: Vec<Mutation>,
    pub shuffle: u8, // 0: sorted listing, 1: reverse, 2: seeded order
    pub dt_unknown: bool,
    pub max_ops: u64,
    pub capacity: u64, // bytes that may still be allocated, u64::MAX: unlimited
    pub fuse_fd: i32,
    pub mount_wait_ms: u32,
    pub cwd: Vec<u8>,
    pub log_ops: bool,
}

// Operation kinds
pub const OP_OPEN: u8 = 1;
pub const OP_READ: u8 = 2;
pub const OP_WRITE: u8 = 3;
pub const OP_SEEK: u8 = 4;
pub const OP_CLOSE: u8 = 5;
pub const OP_STAT: u8 = 6;
pub const OP_OPENDIR: u8 = 7;
pub const OP_READDIR: u8 = 8;
pub const OP_MKDIR: u8 = 9;
pub const OP_RENAME: u8 = 10;
pub const OP_UNLINK: u8 = 11;
pub const OP_RMDIR: u8 = 12;
pub const OP_COPY: u8 = 13; // copy_file_range, sendfile, splice
pub const OP_DUP: u8 = 14;
pub const OP_TRUNC: u8 = 15;
pub const OP_SYNC: u8 = 16;
pub const OP_REALPATH: u8 = 17;
pub const OP_READLINK: u8 = 18;
pub const OP_MOUNT: u8 = 19;
pub const OP_UMOUNT: u8 = 20;
pub const OP_FUSE_RX: u8 = 21;
pub const OP_FUSE_TX: u8 = 22;
pub const OP_LINK: u8 = 23;
pub const OP_OTHER: u8 = 24;
pub const OP_PIPE_WRITE: u8 = 25;
pub const NOPS: usize = 26;
pub const OP_NAMES: [&str; NOPS] = [
    "?", "open", "read", "write", "seek", "close", "stat", "opendir", "readdir", "mkdir", "rename",
    "unlink", "rmdir", "copy", "dup", "trunc", "sync", "realpath", "readlink", "mount", "umount",
    "fuse_rx", "fuse_tx", "link", "other", "pipe_write",
];

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct OpRec {
    pub kind: u8,
    pub fault: u8, // fault kind that fired at this op, 0: none
    pub write: u8, // the operation changed, or tried to change, the filesystem
    pub path: u32,
    pub off: u64,
    pub len: u64,
    pub ret: i64,
}

pub const ST_EXIT: u8 = 1;
pub const ST_CRASH: u8 = 2;
pub const ST_OPLIMIT: u8 = 3;
pub const ST_ABORT: u8 = 4;

#[derive(Default)]
pub struct Output {
    pub status: u8,
    pub clock_ns: u64,
    pub nops: u64,
    pub trace_hash: u64,
    pub ops: Vec<OpRec>,
    pub paths: Vec<Vec<u8>>,
    pub fired: Vec<Fault>,
    pub nodes: Vec<FsNode>,
    pub launcher_gone_before_mount: u8,
}

// ---------------------------------------------------------------- encoding
#[derive(Default)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn u8(&mut self, v: u8) {
        self.0.push(v)
    }
    pub fn u16(&mut self, v: u16) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn u32(&mut self, v: u32) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn u64(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.u32(b.len() as u32);
        self.0.extend_from_slice(b)
    }
    pub fn file(&mut self, f: &FileData) {
        self.u64(f.len);
        self.u32(f.pages.len() as u32);
        for (k, p) in &f.pages {
            self.u64(*k);
            self.0.extend_from_slice(p);
        }
    }
    pub fn node(&mut self, n: &FsNode) {
        self.bytes(&n.path);
        self.u8(n.dirty as u8);
        self.u64(n.ino);
        match &n.kind {
            NodeKind::Dir => self.u8(0),
            NodeKind::File(f) => {
                self.u8(1);
                self.file(f)
            }
            NodeKind::Symlink(t) => {
                self.u8(2);
                self.bytes(t)
            }
            NodeKind::Other => self.u8(3),
        }
    }
    pub fn fault(&mut self, f: &Fault) {
        self.u64(f.op);
        self.u8(f.kind);
        self.u64(f.arg);
    }
    pub fn config(&mut self, c: &Config) {
        self.u64(c.seed);
        for r in c.rates {
            self.u16(r);
        }
        self.u32(c.faults.len() as u32);
        for f in &c.faults {
            self.fault(f);
        }
        self.u32(c.mutations.len() as u32);
        for m in &c.mutations {
            match m {
                Mutation::Truncate(p, n) => {
                    self.u8(0);
                    self.bytes(p);
                    self.u64(*n)
                }
                Mutation::Remove(p) => {
                    self.u8(1);
                    self.bytes(p)
                }
                Mutation::Append(p, b) => {
                    self.u8(2);
                    self.bytes(p);
                    self.bytes(b)
                }
            }
        }
        self.u8(c.shuffle);
        self.u8(c.dt_unknown as u8);
        self.u64(c.max_ops);
        self.u64(c.capacity);
        self.u32(c.fuse_fd as u32);
        self.u32(c.mount_wait_ms);
        self.bytes(&c.cwd);
        self.u8(c.log_ops as u8);
    }
    pub fn output(&mut self, o: &Output) {
        self.u8(o.status);
        self.u64(o.clock_ns);
        self.u64(o.nops);
        self.u64(o.trace_hash);
        self.u32(o.ops.len() as u32);
        for r in &o.ops {
            self.u8(r.kind);
            self.u8(r.fault);
            self.u8(r.write);
            self.u32(r.path);
            self.u64(r.off);
            self.u64(r.len);
            self.u64(r.ret as u64);
        }
        self.u32(o.paths.len() as u32);
        for p in &o.paths {
            self.bytes(p);
        }
        self.u32(o.fired.len() as u32);
        for f in &o.fired {
            self.fault(f);
        }
        self.u32(o.nodes.len() as u32);
        for n in &o.nodes {
            self.node(n);
        }
        self.u8(o.launcher_gone_before_mount);
    }
}

pub struct R<'a>(pub &'a [u8], pub usize);
impl<'a> R<'a> {
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        let s = &self.0[self.1..self.1 + n];
        self.1 += n;
        s
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    pub fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.take(2).try_into().unwrap())
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    pub fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let n = self.u32() as usize;
        self.take(n).to_vec()
    }
    pub fn file(&mut self) -> FileData {
        let len = self.u64();
        let n = self.u32();
        let mut pages = BTreeMap::new();
        for _ in 0..n {
            let k = self.u64();
            pages.insert(k, self.take(PAGE).to_vec().into_boxed_slice());
        }
        FileData { len, pages }
    }
    pub fn node(&mut self) -> FsNode {
        let path = self.bytes();
        let dirty = self.u8() != 0;
        let ino = self.u64();
        let kind = match self.u8() {
            0 => NodeKind::Dir,
            1 => NodeKind::File(self.file()),
            2 => NodeKind::Symlink(self.bytes()),
            _ => NodeKind::Other,
        };
        FsNode {
            path,
            kind,
            dirty,
            ino,
        }
    }
    pub fn fault(&mut self) -> Fault {
        Fault {
            op: self.u64(),
            kind: self.u8(),
            arg: self.u64(),
        }
    }
    pub fn config(&mut self) -> Config {
        let mut c = Config {
            seed: self.u64(),
            ..Default::default()
        };
        for i in 0..NRATES {
            c.rates[i] = self.u16();
        }
        let n = self.u32();
        for _ in 0..n {
            let f = self.fault();
            c.faults.push(f);
        }
        let n = self.u32();
        for _ in 0..n {
            let m = match self.u8() {
                0 => Mutation::Truncate(self.bytes(), self.u64()),
                1 => Mutation::Remove(self.bytes()),
                _ => Mutation::Append(self.bytes(), self.bytes()),
            };
            c.mutations.push(m);
        }
        c.shuffle = self.u8();
        c.dt_unknown = self.u8() != 0;
        c.max_ops = self.u64();
        c.capacity = self.u64();
        c.fuse_fd = self.u32() as i32;
        c.mount_wait_ms = self.u32();
        c.cwd = self.bytes();
        c.log_ops = self.u8() != 0;
        c
    }
    pub fn output(&mut self) -> Output {
        let mut o = Output {
            status: self.u8(),
            clock_ns: self.u64(),
            nops: self.u64(),
            trace_hash: self.u64(),
            ..Default::default()
        };
        let n = self.u32();
        for _ in 0..n {
            o.ops.push(OpRec {
                kind: self.u8(),
                fault: self.u8(),
                write: self.u8(),
                path: self.u32(),
                off: self.u64(),
                len: self.u64(),
                ret: self.u64() as i64,
            });
        }
        let n = self.u32();
        for _ in 0..n {
            o.paths.push(self.bytes());
        }
        let n = self.u32();
        for _ in 0..n {
            let f = self.fault();
            o.fired.push(f);
        }
        let n = self.u32();
        for _ in 0..n {
            let x = self.node();
            o.nodes.push(x);
        }
        o.launcher_gone_before_mount = self.u8();
        o
    }
}

// ---------------------------------------------------------------- randomness
/// splitmix64 finaliser
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xD6E8FEB86659FD93))
}
pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}
