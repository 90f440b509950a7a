//! The event queue, the simulated files, and the faults.
use crate::simfmt::*;
use crate::value::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::io::{Read, Seek, Write};
use std::os::fd::FromRawFd;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

pub struct File {
    data: Rc<FileData>,
    version: u64,
}
pub enum Node {
    Dir,
    File(File),
}
struct Ent {
    node: Node,
    ino: u64,
    dirty: bool,
}
struct World {
    cfg: Config,
    ents: BTreeMap<String, Ent>,
    next_ino: u64,
    now: u64,
    seq: u64,
    /// (time, sequence number) -> what happens then
    queue: BTreeMap<(u64, u64), Box<dyn FnOnce()>>,
    nops: u64,
    hash: u64,
    ops: Vec<OpRec>,
    paths: Vec<Vec<u8>>,
    path_ids: BTreeMap<String, u32>,
    fired: Vec<Fault>,
    sticky: Vec<u8>,
    used: u64,
    woken: bool,
}
thread_local!(static W: RefCell<Option<World>> = const { RefCell::new(None) });
fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|w| f(w.borrow_mut().as_mut().expect("no world")))
}
fn env_fd(k: &str) -> i32 {
    std::env::var(k).expect("not run by the simulator").parse().unwrap()
}

pub fn init() {
    let mut v = vec![];
    let mut f = unsafe { std::fs::File::from_raw_fd(env_fd("XSIM_IN")) };
    f.rewind().unwrap();
    f.read_to_end(&mut v).unwrap();
    let mut r = R(&v, 0);
    let cfg = r.config();
    let n = r.u32();
    let mut ents = BTreeMap::new();
    for i in 0..n {
        let n = r.node();
        let node = match n.kind {
            NodeKind::Dir => Node::Dir,
            NodeKind::File(f) => Node::File(File { data: Rc::new(f), version: 0 }),
            _ => continue,
        };
        ents.insert(String::from_utf8(n.path).unwrap(), Ent { node, ino: i as u64 + 1, dirty: false });
    }
    start(cfg, ents, n as u64 + 1)
}
/// A world without files: only its events are of interest.
pub fn init_events(seed: u64) {
    start(Config { seed, max_ops: u64::MAX, ..Default::default() }, BTreeMap::new(), 1)
}
fn start(cfg: Config, ents: BTreeMap<String, Ent>, next_ino: u64) {
    W.with(|w| {
        *w.borrow_mut() = Some(World {
            cfg,
            ents,
            next_ino,
            now: 0,
            seq: 0,
            queue: BTreeMap::new(),
            nops: 0,
            hash: 1,
            ops: vec![],
            paths: vec![],
            path_ids: BTreeMap::new(),
            fired: vec![],
            sticky: vec![],
            used: 0,
            woken: false,
        })
    });
}

pub fn end(status: u8, code: i32) -> ! {
    with(|w| w.dump(status));
    let _ = std::io::stdout().flush();
    // nothing that is still queued happens
    std::process::exit(code)
}

enum Dec {
    Go,
    Fail,
    Partial,
}

impl World {
    fn dump(&mut self, status: u8) {
        let mut o = Output {
            status,
            clock_ns: self.now * 1000,
            nops: self.nops,
            trace_hash: self.hash,
            ops: std::mem::take(&mut self.ops),
            paths: std::mem::take(&mut self.paths),
            fired: std::mem::take(&mut self.fired),
            ..Default::default()
        };
        for (p, e) in &self.ents {
            let kind = match &e.node {
                Node::Dir => NodeKind::Dir,
                Node::File(f) if e.dirty => NodeKind::File((*f.data).clone()),
                Node::File(_) => NodeKind::File(FileData::default()),
            };
            o.nodes.push(FsNode { path: p.clone().into_bytes(), kind, dirty: e.dirty, ino: e.ino });
        }
        let mut b = crate::simfmt::W::default();
        b.output(&o);
        let mut f = unsafe { std::fs::File::from_raw_fd(env_fd("XSIM_OUT")) };
        f.write_all(&b.0).unwrap();
        std::mem::forget(f);
    }
    fn path_id(&mut self, p: &str) -> u32 {
        if let Some(x) = self.path_ids.get(p) {
            return *x;
        }
        let i = self.paths.len() as u32;
        self.paths.push(p.as_bytes().to_vec());
        self.path_ids.insert(p.into(), i);
        i
    }
    /// Registers an operation and decides whether it fails.
    fn begin(&mut self, kind: u8, path: &str, off: u64, len: u64, write: bool) -> Dec {
        let op = self.nops;
        self.nops += 1;
        if self.nops > self.cfg.max_ops {
            self.dump(ST_OPLIMIT);
            std::process::exit(78);
        }
        let mut dec = Dec::Go;
        let mut fk = 0;
        let planned: Vec<Fault> = self.cfg.faults.iter().filter(|f| f.op == op).copied().collect();
        for f in planned {
            match f.kind {
                F_MUTATE => {
                    if let Some(m) = self.cfg.mutations.get(f.arg as usize).cloned() {
                        self.mutate(&m);
                    }
                }
                _ if !matches!(dec, Dec::Go) => continue,
                F_ERRNO => dec = Dec::Fail,
                F_ERRNO_STICKY => {
                    self.sticky.push(kind);
                    dec = Dec::Fail
                }
                F_PARTIAL_ERR => dec = Dec::Partial,
                F_CRASH => {
                    // the tab is closed
                    self.fired.push(f);
                    self.log(kind, f.kind, write, path, off, len, -1);
                    self.dump(ST_CRASH);
                    std::process::exit(77);
                }
                _ => continue,
            }
            fk = f.kind;
            self.fired.push(f);
        }
        if matches!(dec, Dec::Go) && self.sticky.contains(&kind) {
            dec = Dec::Fail;
            fk = F_ERRNO_STICKY;
        }
        let ret = if matches!(dec, Dec::Go) { len as i64 } else { -5 };
        self.log(kind, fk, write, path, off, len, ret);
        dec
    }
    #[allow(clippy::too_many_arguments)]
    fn log(&mut self, kind: u8, fault: u8, write: bool, path: &str, off: u64, len: u64, ret: i64) {
        let id = self.path_id(path);
        self.hash = mix2(self.hash, mix2(kind as u64 * 256 + fault as u64, mix2(id as u64, mix2(off, mix2(len, ret as u64)))));
        if self.cfg.log_ops {
            self.ops.push(OpRec { kind, fault, write: write as u8, path: id, off, len, ret });
        }
    }
    fn mutate(&mut self, m: &Mutation) {
        let p = match m {
            Mutation::Truncate(p, _) | Mutation::Remove(p) | Mutation::Append(p, _) => String::from_utf8(p.clone()).unwrap(),
        };
        if let Mutation::Remove(_) = m {
            self.ents.remove(&p);
            return;
        }
        let Some(Ent { node: Node::File(f), dirty, .. }) = self.ents.get_mut(&p) else { return };
        let d = Rc::make_mut(&mut f.data);
        match m {
            Mutation::Truncate(_, n) => d.truncate(*n),
            Mutation::Append(_, b) => d.write_at(d.len, b),
            _ => {}
        }
        f.version += 1;
        *dirty = true;
    }
    fn delay(&mut self) -> u64 {
        self.seq += 1;
        1 + mix2(self.cfg.seed ^ 0xb0, self.seq) % 900
    }
    fn file(&self, p: &str) -> Result<&File, JsValue> {
        match self.ents.get(p) {
            Some(Ent { node: Node::File(f), .. }) => Ok(f),
            Some(_) => Err(JsValue::error("TypeMismatchError")),
            None => Err(JsValue::error("NotFoundError")),
        }
    }
    fn is_dir(&self, p: &str) -> bool {
        matches!(self.ents.get(p), Some(Ent { node: Node::Dir, .. }))
    }
    fn create(&mut self, p: &str, node: Node) {
        let ino = self.next_ino;
        self.next_ino += 1;
        self.ents.insert(p.into(), Ent { node, ino, dirty: true });
    }
    fn read(&self, b: &BlobData) -> Result<Vec<u8>, JsValue> {
        let f = self.file(&b.path).map_err(|_| JsValue::error("NotReadableError"))?;
        if f.version != b.version || b.end - b.start > 2_000_000_000 {
            return Err(JsValue::error("NotReadableError"));
        }
        let mut v = vec![0; (b.end - b.start) as usize];
        b.data.read_at(b.start, &mut v);
        Ok(v)
    }
}

/// A name that the API takes; anything else could lead out of the directory.
fn valid_name(n: &str) -> bool {
    !n.is_empty() && n != "." && n != ".." && !n.contains(['/', '\0'])
}

pub fn get(this: &JsValue, k: &str) -> JsValue {
    match (this.get(), k) {
        (Obj::Plain(m), k) => m.get(k).cloned().unwrap_or(JsValue::Undefined),
        (Obj::FileHandle(_), "kind") => "file".into(),
        (Obj::DirHandle(_), "kind") => "directory".into(),
        (Obj::Blob(BlobData { path: p, .. }) | Obj::FileHandle(p) | Obj::DirHandle(p), "name") => p.rsplit('/').next().unwrap().into(),
        _ => JsValue::Undefined,
    }
}

/// Calls a method; all of them return at once, most of them a promise settled by a later event.
pub fn call(this: &JsValue, m: &str, args: Vec<JsValue>) -> JsValue {
    if let (Obj::DirHandle(p), "entries") = (this.get(), m) {
        return JsValue::obj(Obj::Iter(p.clone(), RefCell::new(None)));
    }
    let p = JsValue::obj(Obj::Promise(RefCell::new(None)));
    let (this, m, q) = (this.clone(), m.to_string(), p.clone());
    with(|w| {
        let d = w.delay();
        let mut t = w.now + d;
        // what is asked of a stream happens in order
        if let Obj::Stream(s) = this.get() {
            let mut s = s.borrow_mut();
            t = s.busy.max(w.now) + d;
            s.busy = t;
        }
        w.queue.insert((t, w.seq), Box::new(move || {
            let r = perform(&this, &m, &args);
            let Obj::Promise(c) = q.get() else { unreachable!() };
            *c.borrow_mut() = Some(r);
        }));
    });
    p
}

fn perform(this: &JsValue, m: &str, args: &[JsValue]) -> Result<JsValue, JsValue> {
    let io = |w: &mut World, kind, path: &str, off, len, write| -> Result<(), JsValue> {
        match w.begin(kind, path, off, len, write) {
            Dec::Go => Ok(()),
            _ => Err(JsValue::error(if write { "NoModificationAllowedError" } else { "NotReadableError" })),
        }
    };
    let name = || -> Result<String, JsValue> {
        let n = args[0].as_string().expect("TypeError: not a string");
        if valid_name(&n) {
            Ok(n)
        } else {
            Err(JsValue::error("TypeError"))
        }
    };
    let create = args.get(1).is_some_and(|o| get(o, "create") == JsValue::Bool(true));
    with(|w| match (this.get(), m) {
        (Obj::FileHandle(p), "getFile") => {
            io(w, OP_STAT, p, 0, 0, false)?;
            let f = w.file(p)?;
            Ok(JsValue::obj(Obj::Blob(BlobData { path: p.clone(), version: f.version, data: f.data.clone(), start: 0, end: f.data.len })))
        }
        (Obj::FileHandle(p), "createWritable") => {
            io(w, OP_OPEN, p, 0, 0, true)?;
            w.file(p)?;
            let mut swap = FileData::default();
            if args.first().is_some_and(|o| get(o, "keepExistingData") == JsValue::Bool(true)) {
                swap = (*w.file(p)?.data).clone();
            }
            Ok(JsValue::obj(Obj::Stream(RefCell::new(StreamData { path: p.clone(), swap, pos: 0, errored: false, closed: false, busy: 0 }))))
        }
        (Obj::DirHandle(p), "getFileHandle") => {
            let n = name()?;
            let q = format!("{}/{}", p, n);
            io(w, OP_OPEN, &q, 0, 0, create)?;
            if w.is_dir(&q) {
                return Err(JsValue::error("TypeMismatchError"));
            }
            if w.file(&q).is_err() {
                if !create || !w.is_dir(p) {
                    return Err(JsValue::error("NotFoundError"));
                }
                w.create(&q, Node::File(File { data: Default::default(), version: 0 }));
            }
            Ok(JsValue::obj(Obj::FileHandle(q)))
        }
        (Obj::DirHandle(p), "getDirectoryHandle") => {
            let n = name()?;
            let q = format!("{}/{}", p, n);
            io(w, OP_MKDIR, &q, 0, 0, create)?;
            if w.file(&q).is_ok() {
                return Err(JsValue::error("TypeMismatchError"));
            }
            if !w.is_dir(&q) {
                if !create || !w.is_dir(p) {
                    return Err(JsValue::error("NotFoundError"));
                }
                w.create(&q, Node::Dir);
            }
            Ok(JsValue::obj(Obj::DirHandle(q)))
        }
        (Obj::DirHandle(p), "removeEntry") => {
            let n = name()?;
            let q = format!("{}/{}", p, n);
            io(w, OP_UNLINK, &q, 0, 0, true)?;
            if w.ents.keys().any(|k| k.starts_with(&format!("{}/", q))) {
                return Err(JsValue::error("InvalidModificationError"));
            }
            match w.ents.remove(&q) {
                Some(_) => Ok(JsValue::Undefined),
                None => Err(JsValue::error("NotFoundError")),
            }
        }
        (Obj::Iter(p, left), "next") => {
            io(w, OP_READDIR, p, 0, 0, false)?;
            if !w.is_dir(p) {
                return Err(JsValue::error("NotFoundError"));
            }
            let mut left = left.borrow_mut();
            let left = left.get_or_insert_with(|| {
                let pre = format!("{}/", p);
                let mut v: Vec<String> = w.ents.keys().filter_map(|k| k.strip_prefix(&pre)).filter(|k| !k.contains('/')).map(|k| k.to_string()).collect();
                match w.cfg.shuffle {
                    0 => v.reverse(),
                    1 => {}
                    _ => Rng::new(mix2(w.cfg.seed, fnv(7, p.as_bytes()))).shuffle(&mut v),
                }
                v
            });
            while let Some(n) = left.pop() {
                let q = format!("{}/{}", p, n);
                let h = match w.ents.get(&q) {
                    None => continue,
                    Some(Ent { node: Node::Dir, .. }) => Obj::DirHandle(q),
                    Some(_) => Obj::FileHandle(q),
                };
                let v = JsValue::obj(Obj::Array(vec![n.into(), JsValue::obj(h)]));
                return Ok(JsValue::object(vec![("done".into(), false.into()), ("value".into(), v)]));
            }
            Ok(JsValue::object(vec![("done".into(), true.into()), ("value".into(), JsValue::Undefined)]))
        }
        (Obj::Blob(b), "arrayBuffer") => {
            io(w, OP_READ, &b.path, b.start, b.end - b.start, false)?;
            Ok(JsValue::obj(Obj::Buffer(w.read(b)?)))
        }
        (Obj::Stream(s), op) => {
            let s = &mut *s.borrow_mut();
            if s.errored || s.closed {
                return Err(JsValue::error("TypeError"));
            }
            match stream_op(w, s, op, args) {
                Ok(()) => Ok(JsValue::Undefined),
                Err(e) => {
                    s.errored = true;
                    Err(e)
                }
            }
        }
        (_, m) => panic!("TypeError: no method {}", m),
    })
}

fn stream_op(w: &mut World, s: &mut StreamData, op: &str, args: &[JsValue]) -> Result<(), JsValue> {
    match op {
        "seek" => {
            let pos = args[0].as_f64().expect("TypeError: not a number") as u64;
            if !matches!(w.begin(OP_SEEK, &s.path, pos, 0, true), Dec::Go) {
                return Err(JsValue::error("InvalidStateError"));
            }
            s.pos = pos;
        }
        "truncate" => {
            let n = args[0].as_f64().expect("TypeError: not a number") as u64;
            if !matches!(w.begin(OP_TRUNC, &s.path, n, 0, true), Dec::Go) {
                return Err(JsValue::error("QuotaExceededError"));
            }
            s.swap.truncate(n);
            s.pos = s.pos.min(n);
        }
        "write" => {
            let bytes = match args[0].get() {
                Obj::Buffer(b) => Ok(b.clone()),
                Obj::Blob(b) => match w.begin(OP_READ, &b.path, b.start, b.end - b.start, false) {
                    Dec::Go => w.read(b),
                    _ => Err(JsValue::error("NotReadableError")),
                },
                _ => panic!("TypeError: cannot write this"),
            }?;
            let d = w.begin(OP_WRITE, &s.path, s.pos, bytes.len() as u64, true);
            let n = match d {
                Dec::Go => bytes.len(),
                Dec::Partial => bytes.len() / 2,
                Dec::Fail => 0,
            };
            if w.used + n as u64 > w.cfg.capacity {
                if let Some(r) = w.ops.last_mut() {
                    r.ret = -28;
                }
                return Err(JsValue::error("QuotaExceededError"));
            }
            w.used += n as u64;
            s.swap.write_at(s.pos, &bytes[..n]);
            s.pos += n as u64;
            if !matches!(d, Dec::Go) {
                return Err(JsValue::error("QuotaExceededError"));
            }
        }
        "close" => {
            if !matches!(w.begin(OP_SYNC, &s.path, 0, s.swap.len, true), Dec::Go) {
                return Err(JsValue::error("AbortError"));
            }
            let data = Rc::new(std::mem::take(&mut s.swap));
            match w.ents.get_mut(&s.path) {
                Some(Ent { node: Node::File(f), dirty, .. }) => {
                    f.data = data;
                    f.version += 1;
                    *dirty = true;
                }
                Some(_) => return Err(JsValue::error("TypeMismatchError")),
                None => w.create(&s.path, Node::File(File { data, version: 0 })),
            }
            s.closed = true;
        }
        "abort" => s.errored = true,
        m => panic!("TypeError: no method {}", m),
    }
    Ok(())
}

pub(crate) fn waiting(_: &Waker) {
    with(|w| w.woken = true);
}
pub fn file_handle(p: &str) -> JsValue {
    JsValue::obj(Obj::FileHandle(p.into()))
}
pub fn dir_handle(p: &str) -> JsValue {
    JsValue::obj(Obj::DirHandle(p.into()))
}
pub fn is_dir(p: &str) -> bool {
    with(|w| w.is_dir(p))
}

type Globals = Box<dyn Fn(&str, Vec<JsValue>) -> JsValue>;
thread_local! {
    static GLOBALS: RefCell<Option<Globals>> = const { RefCell::new(None) };
    static TASKS: RefCell<Vec<Pin<Box<dyn Future<Output = ()>>>>> = const { RefCell::new(vec![]) };
}
/// What the functions do that a page imports.
pub fn set_globals(f: Globals) {
    GLOBALS.with(|g| *g.borrow_mut() = Some(f));
}
pub fn global(name: &str, args: Vec<JsValue>) -> JsValue {
    GLOBALS.with(|g| match &*g.borrow() {
        Some(f) => f(name, args),
        None => panic!("no function {}", name),
    })
}
/// A promise, and what settles it.
pub fn promise() -> (JsValue, impl FnOnce(JsValue)) {
    let p = JsValue::obj(Obj::Promise(RefCell::new(None)));
    let q = p.clone();
    (p, move |v| {
        let Obj::Promise(c) = q.get() else { unreachable!() };
        *c.borrow_mut() = Some(Ok(v));
    })
}
pub async fn settled(p: JsValue) -> JsValue {
    JsFuture::from(crate::js::Promise::from(p)).await.expect("an unexpected rejection")
}
pub fn spawn_local(f: impl Future<Output = ()> + 'static) {
    TASKS.with(|t| t.borrow_mut().push(Box::pin(f)));
}
/// Lets something happen later.
pub fn later(f: impl FnOnce() + 'static) {
    with(|w| {
        let t = w.now + w.delay();
        w.queue.insert((t, w.seq), Box::new(f));
    });
}
pub fn tasks() -> usize {
    TASKS.with(|t| t.borrow().len())
}
/// Lets all tasks run as far as they can.
pub fn poll_tasks() {
    const V: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &V), |_| {}, |_| {}, |_| {});
    let wk = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &V)) };
    let mut l = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    l.retain_mut(|f| f.as_mut().poll(&mut Context::from_waker(&wk)).is_pending());
    TASKS.with(|t| {
        let mut t = t.borrow_mut();
        l.append(&mut t);
        *t = l;
    });
}
/// Lets the next event happen, if there is one.
pub fn event() -> bool {
    let ev = with(|w| {
        let ev = w.queue.pop_first();
        if let Some(((t, _), _)) = &ev {
            w.now = *t;
        }
        ev
    });
    match ev {
        Some((_, ev)) => {
            ev();
            true
        }
        None => false,
    }
}
/// A file that the user names for saving is there afterwards.
pub fn save_file(p: &str) {
    with(|w| {
        if w.file(p).is_err() && !w.is_dir(p) {
            w.create(p, Node::File(File { data: Default::default(), version: 0 }));
        }
    });
}

/// Runs a task until it ends, letting one event happen after the other.
pub fn run<T>(f: impl Future<Output = T>) -> T {
    const V: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &V), |_| {}, |_| {}, |_| {});
    let wk = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &V)) };
    let mut f = Box::pin(f);
    loop {
        with(|w| w.woken = false);
        if let Poll::Ready(x) = Pin::as_mut(&mut f).poll(&mut Context::from_waker(&wk)) {
            return x;
        }
        let ev = with(|w| {
            let ev = w.queue.pop_first();
            if let Some(((t, _), _)) = &ev {
                w.now = *t;
            }
            ev
        });
        match ev {
            Some((_, ev)) => ev(),
            None => {
                // nothing can ever wake the task
                eprintln!("the task waits for something that never happens");
                end(ST_OPLIMIT, 78);
            }
        }
    }
}
