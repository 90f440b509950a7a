//! Simulated block devices, source filesystems and executor for library-level runs.
//! Everything below runs the real `xdvdfs` library; only the device, the source
//! filesystem and the executor are simulated. All choices come from one seed.
use crate::simfmt::*;
use crate::tree::*;
use async_trait::async_trait;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use xdvdfs::blockdev::{BlockDeviceRead, BlockDeviceWrite};
use xdvdfs::write::fs::{FileEntry, FileType, FilesystemCopier, FilesystemHierarchy, PathVec};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SimErr {
    Injected(u64),
    Eof,
    Missing(String),
}
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for SimErr {}

pub const LF_ERR: u8 = F_ERRNO; // the operation fails, nothing is transferred
pub const LF_TORN: u8 = F_PARTIAL_ERR; // part of the data is transferred, then the operation fails
pub const LF_CANCEL: u8 = F_CRASH; // the whole task is dropped at this operation, `arg` bytes of a write are stored

/// World shared by all devices of one run: operation counter, fault plan, log.
#[derive(Default)]
pub struct World {
    pub rng: Option<Rng>,
    pub pend: u64, // per 1024: chance of suspending at an operation
    pub ops: u64,
    pub max_ops: u64,
    pub faults: Vec<Fault>,
    pub fired: Vec<Fault>,
    pub cancel: bool,
    pub hung: bool,
    pub hash: u64,
    pub suspends: u64,
    pub kinds: Vec<u8>, // kind of every operation
    pub lens: Vec<u64>,
    pub short_copy: bool,
}
pub type Wd = Arc<Mutex<World>>;

pub fn world(seed: u64, pend: u64, faults: &[Fault], max_ops: u64) -> Wd {
    Arc::new(Mutex::new(World {
        rng: Some(Rng::new(seed)),
        pend,
        faults: faults.to_vec(),
        max_ops,
        hash: 0xcbf29ce484222325,
        ..Default::default()
    }))
}

struct Suspend(u32);
impl Future for Suspend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
struct Never;
impl Future for Never {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        Poll::Pending
    }
}

/// One operation: maybe suspends, then returns the fault to apply.
async fn op(w: &Wd, kind: u8, off: u64, len: u64) -> Option<Fault> {
    let n = {
        let mut s = w.lock().unwrap();
        let p = s.pend;
        let r = s.rng.as_mut().unwrap();
        if p > 0 && r.below(1024) < p {
            let n = r.range(1, 3) as u32;
            s.suspends += 1;
            n
        } else {
            0
        }
    };
    Suspend(n).await;
    let f = {
        let mut s = w.lock().unwrap();
        let k = s.ops;
        s.ops += 1;
        s.kinds.push(kind);
        s.lens.push(len);
        let mut b = [0u8; 25];
        b[0] = kind;
        b[1..9].copy_from_slice(&off.to_le_bytes());
        b[9..17].copy_from_slice(&len.to_le_bytes());
        b[17..25].copy_from_slice(&(n as u64).to_le_bytes());
        s.hash = fnv(s.hash, &b);
        if s.ops > s.max_ops {
            s.hung = true;
            s.cancel = true;
        }
        let f = s.faults.iter().find(|f| f.op == k).copied();
        if let Some(f) = f {
            s.hash = fnv(s.hash, &[f.kind]);
            s.fired.push(f);
        }
        f
    };
    if w.lock().unwrap().hung {
        Never.await;
    }
    f
}
fn cancel(w: &Wd) {
    w.lock().unwrap().cancel = true;
}

#[derive(Clone)]
pub struct SimDisk {
    pub w: Wd,
    pub data: Arc<Mutex<FileData>>,
}
impl SimDisk {
    pub fn new(w: &Wd, d: FileData) -> Self {
        SimDisk { w: w.clone(), data: Arc::new(Mutex::new(d)) }
    }
}

#[async_trait]
impl BlockDeviceRead for SimDisk {
    type ReadError = SimErr;
    async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), SimErr> {
        let len = <[u8]>::len(buffer);
        let f = op(&self.w, OP_READ, offset, len as u64).await;
        match f {
            Some(f) if f.kind == LF_CANCEL => {
                cancel(&self.w);
                Never.await;
            }
            Some(f) => {
                if f.kind == LF_TORN {
                    let n = (len / 2).min(1 << 20);
                    buffer[..n].fill(0x5a);
                }
                return Err(SimErr::Injected(f.op));
            }
            None => {}
        }
        let d = self.data.lock().unwrap();
        if offset.checked_add(len as u64).is_none_or(|e| e > d.len) {
            return Err(SimErr::Eof);
        }
        d.read_at(offset, buffer);
        Ok(())
    }
}
#[async_trait]
impl BlockDeviceWrite for SimDisk {
    type WriteError = SimErr;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), SimErr> {
        let f = op(&self.w, OP_WRITE, offset, buffer.len() as u64).await;
        let n = match f {
            None => buffer.len(),
            Some(f) if f.kind == LF_ERR => 0,
            Some(f) => (f.arg % (buffer.len() as u64 + 1)) as usize,
        };
        if n > 0 {
            self.data.lock().unwrap().write_at(offset, &buffer[..n]);
        }
        match f {
            None => Ok(()),
            Some(f) if f.kind == LF_CANCEL => {
                cancel(&self.w);
                Never.await;
                unreachable!()
            }
            Some(f) => Err(SimErr::Injected(f.op)),
        }
    }
    async fn len(&mut self) -> Result<u64, SimErr> {
        match op(&self.w, OP_STAT, 0, 0).await {
            Some(f) if f.kind == LF_CANCEL => {
                cancel(&self.w);
                Never.await;
            }
            Some(f) => return Err(SimErr::Injected(f.op)),
            None => {}
        }
        Ok(self.data.lock().unwrap().len)
    }
}

/// A source filesystem with a given (hierarchical) content, listing in seeded order.
pub struct SimFs {
    pub w: Wd,
    pub model: Arc<Model>,
    pub order: u8,
    pub seed: u64,
    /// (path, bytes): the file delivers only that many bytes
    pub shrunk: BTreeMap<String, u64>,
}
pub fn pv(p: &PathVec) -> String {
    p.as_string().trim_start_matches('/').to_string()
}
pub fn to_pv(p: &str) -> PathVec {
    p.split('/').collect()
}
impl SimFs {
    pub fn new(w: &Wd, m: &Arc<Model>, order: u8, seed: u64) -> Self {
        SimFs { w: w.clone(), model: m.clone(), order, seed, shrunk: BTreeMap::new() }
    }
    async fn gate(&self, kind: u8, len: u64) -> Result<(), SimErr> {
        match op(&self.w, kind, 0, len).await {
            Some(f) if f.kind == LF_CANCEL => {
                cancel(&self.w);
                Never.await;
                unreachable!()
            }
            Some(f) => Err(SimErr::Injected(f.op)),
            None => Ok(()),
        }
    }
    fn file(&self, p: &str) -> Result<Arc<FileData>, SimErr> {
        match self.model.get(p) {
            Some(Some(f)) => Ok(f.clone()),
            _ => Err(SimErr::Missing(p.to_string())),
        }
    }
}
#[async_trait]
impl FilesystemHierarchy for SimFs {
    type Error = SimErr;
    async fn read_dir(&mut self, path: &PathVec) -> Result<Vec<FileEntry>, SimErr> {
        self.gate(OP_READDIR, 0).await?;
        let p = pv(path);
        if !p.is_empty() && !matches!(self.model.get(&p), Some(None)) {
            return Err(SimErr::Missing(p));
        }
        let pre = if p.is_empty() { String::new() } else { format!("{}/", p) };
        let mut v: Vec<FileEntry> = vec![];
        for (k, f) in self.model.range(pre.clone()..) {
            let Some(rest) = k.strip_prefix(&pre) else { break };
            if rest.is_empty() || rest.contains('/') {
                continue;
            }
            v.push(FileEntry {
                name: rest.to_string(),
                file_type: if f.is_some() { FileType::File } else { FileType::Directory },
                len: f.as_ref().map(|f| f.len).unwrap_or(4096),
            });
        }
        match self.order {
            1 => v.reverse(),
            2 => Rng::new(mix2(self.seed, fnv(7, p.as_bytes()))).shuffle(&mut v),
            _ => {}
        }
        Ok(v)
    }
}
#[async_trait]
impl FilesystemCopier<SimDisk> for SimFs {
    type Error = SimErr;
    async fn copy_file_in(&mut self, src: &PathVec, dest: &mut SimDisk, input_offset: u64, output_offset: u64, size: u64) -> Result<u64, SimErr> {
        self.gate(OP_OPEN, 0).await?;
        let p = pv(src);
        let f = self.file(&p)?;
        let avail = self.shrunk.get(&p).copied().unwrap_or(f.len).saturating_sub(input_offset);
        let n = size.min(avail);
        let mut done = 0;
        // data pages that exist are copied, holes are skipped like in a sparse file;
        // the last byte is always written
        while done < n {
            let pg = (input_offset + done) / PAGE as u64;
            if !f.pages.contains_key(&pg) {
                let next = f.pages.range(pg..).next().map(|(k, _)| (k * PAGE as u64).saturating_sub(input_offset)).unwrap_or(n);
                let next = next.min(n - 1);
                if next > done {
                    done = next;
                    continue;
                }
            }
            // a run of adjacent pages, at most 1 MiB
            let mut end = (pg + 1) * PAGE as u64;
            while end < (pg + 128) * PAGE as u64 && f.pages.contains_key(&(end / PAGE as u64)) {
                end += PAGE as u64;
            }
            let k = (end - input_offset - done).min(n - done);
            let mut b = vec![0; k as usize];
            f.read_at(input_offset + done, &mut b);
            dest.write(output_offset + done, &b).await?;
            done += k;
        }
        Ok(n)
    }
}
#[async_trait]
impl FilesystemCopier<[u8]> for SimFs {
    type Error = SimErr;
    async fn copy_file_in(&mut self, src: &PathVec, dest: &mut [u8], input_offset: u64, output_offset: u64, size: u64) -> Result<u64, SimErr> {
        self.gate(OP_READ, size).await?;
        let f = self.file(&pv(src))?;
        let o = output_offset as usize;
        let n = f.read_at(input_offset, &mut dest[o..o + size as usize]);
        Ok(n as u64)
    }
}

// ------------------------------------------------------------------ executor
fn noop_waker() -> Waker {
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

#[derive(Debug, PartialEq, Eq)]
pub enum End<T> {
    Done(T),
    /// The future was dropped at an injected cancellation point
    Cancelled,
    /// More device operations than the run allows
    Hung,
}
impl<T> End<T> {
    pub fn done(self) -> Option<T> {
        match self {
            End::Done(t) => Some(t),
            _ => None,
        }
    }
}

/// Runs one future until it completes, is cancelled by the fault plan, or exceeds the limit.
pub fn run1<T>(w: &Wd, fut: impl Future<Output = T>) -> End<T> {
    let mut fut = Box::pin(fut);
    let wk = noop_waker();
    let mut cx = Context::from_waker(&wk);
    let mut polls = 0u64;
    loop {
        if let Poll::Ready(t) = fut.as_mut().poll(&mut cx) {
            return End::Done(t);
        }
        let mut s = w.lock().unwrap();
        if s.hung {
            return End::Hung;
        }
        if s.cancel {
            s.cancel = false;
            return End::Cancelled;
        }
        polls += 1;
        if polls > 1_000_000_000 {
            return End::Hung;
        }
    }
}

/// Interleaves several tasks; the seed decides which one is polled next.
/// Returns the number of scheduling decisions and a hash of them.
pub fn run_many(seed: u64, tasks: Vec<Pin<Box<dyn Future<Output = ()>>>>, max_polls: u64) -> Result<(u64, u64), String> {
    let mut r = Rng::new(seed);
    let wk = noop_waker();
    let mut cx = Context::from_waker(&wk);
    let mut live: Vec<(usize, Pin<Box<dyn Future<Output = ()>>>)> = tasks.into_iter().enumerate().collect();
    let (mut n, mut h) = (0, 0xcbf29ce484222325u64);
    while !live.is_empty() {
        let i = r.below(live.len() as u64) as usize;
        h = fnv(h, &[live[i].0 as u8]);
        n += 1;
        if n > max_polls {
            return Err(format!("tasks did not finish within {} scheduling steps", max_polls));
        }
        if live[i].1.as_mut().poll(&mut cx).is_ready() {
            drop(live.swap_remove(i));
        }
    }
    Ok((n, h))
}
