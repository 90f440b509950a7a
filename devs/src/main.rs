//! `devs KIND PATH OP…`: a sequence of operations on one block device of the library.
//! OP: `r:OFFSET:LENGTH`, `w:OFFSET:LENGTH:SEED`, `l` (length), `f` (flush).
//! Standard output: per operation one line, `ok`, `ok NUMBER`, `ok DATA-LENGTH` and the data, or `err`.
use std::fmt::Debug;
use std::fs::{File, OpenOptions};
use std::future::Future;
use std::io::{BufReader, BufWriter, Cursor, Read, Seek, SeekFrom, Write};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use xdvdfs::blockdev::{BlockDeviceRead, BlockDeviceWrite, OffsetWrapper};

fn block_on<F: Future>(f: F) -> F::Output {
    const V: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &V), |_| {}, |_| {}, |_| {});
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &V)) };
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return x;
        }
    }
}
/// A byte of the data written with a seed (the judge computes the same).
fn byte(seed: u64, i: u64) -> u8 {
    let x = (seed.wrapping_mul(0x9E37_79B9_7F4A_7C15)) ^ i.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    (x ^ (x >> 29) ^ (x >> 47)) as u8
}

enum Op {
    Read(u64, usize),
    Write(u64, Vec<u8>),
    Len,
    Flush,

}
fn ops(a: &[String]) -> Vec<Op> {
    a.iter()
        .map(|x| {
            let p: Vec<&str> = x.split(':').collect();
            let n = |i: usize| p[i].parse::<u64>().unwrap();
            match p[0] {
                "r" => Op::Read(n(1), n(2) as usize),
                "w" => Op::Write(n(1), (0..n(2)).map(|i| byte(n(3), i)).collect()),
                "l" => Op::Len,
                "f" => Op::Flush,

                _ => panic!("bad operation {}", x),
            }
        })
        .collect()
}

struct Log(Vec<u8>);
impl Log {
    fn put<T, E: Debug>(&mut self, r: Result<T, E>) -> Option<T> {
        match r {
            Ok(x) => Some(x),
            Err(e) => {
                self.0.extend(b"err\n");
                eprintln!("{:?}", e);
                None
            }
        }
    }
    fn line(&mut self, s: &str) {
        self.0.extend(s.as_bytes());
        self.0.push(b'\n');
    }
}
fn read<D: BlockDeviceRead + ?Sized>(d: &mut D, off: u64, len: usize, l: &mut Log)
where
    D::ReadError: Debug,
{
    let mut b = vec![0xEEu8; len];
    if l.put(block_on(d.read(off, &mut b))).is_some() {
        l.line(&format!("ok {}", len));
        l.0.extend(&b);
    }
}
fn write<D: BlockDeviceWrite + ?Sized>(d: &mut D, off: u64, b: &[u8], l: &mut Log)
where
    D::WriteError: Debug,
{
    if l.put(block_on(d.write(off, b))).is_some() {
        l.line("ok");
    }
}
fn length<D: BlockDeviceWrite + ?Sized>(d: &mut D, l: &mut Log)
where
    D::WriteError: Debug,
{
    // the two ways to ask have to agree
    let n = block_on(d.len());
    if let Some(n) = l.put(n) {
        match block_on(d.is_empty()) {
            Ok(e) if e != (n == 0) => l.line("contradiction"),
            _ => l.line(&format!("ok {}", n)),
        }
    }
}
macro_rules! run {
    ($ops:expr, $l:expr, $d:expr, read, $r:expr) => {
        for o in $ops {
            match o {
                Op::Read(o, n) => read($r, o, n, $l),
                _ => $l.line("none"),
            }
        }
    };
    ($ops:expr, $l:expr, $w:expr, write) => {
        for o in $ops {
            match o {
                Op::Write(o, b) => write($w, o, &b, $l),
                Op::Len => length($w, $l),
                _ => $l.line("none"),
            }
        }
    };
    ($ops:expr, $l:expr, $d:expr, both) => {
        for o in $ops {
            match o {
                Op::Read(o, n) => read($d, o, n, $l),
                Op::Write(o, b) => write($d, o, &b, $l),
                Op::Len => length($d, $l),
                _ => $l.line("none"),
            }
        }
    };
}
fn readers<R: Read + Seek + Send + Sync>(mut d: R, v: Vec<Op>, l: &mut Log) {
    run!(v, l, d, read, &mut d)
}
/// What is stored in memory in the end goes to a file of its own.
fn keep(path: &str, b: &[u8]) -> std::io::Result<()> {
    std::fs::write(format!("{}.mem", path), b)
}

fn go(kind: &str, path: &str, v: Vec<Op>, l: &mut Log) -> std::io::Result<()> {
    let rw = || OpenOptions::new().read(true).write(true).open(path);
    match kind {
        "slice" => {
            let mut d = std::fs::read(path)?.into_boxed_slice();
            for o in v {
                match o {
                    Op::Read(o, n) => read::<[u8]>(&mut d, o, n, l),
                    Op::Write(o, b) => write::<[u8]>(&mut d, o, &b, l),
                    Op::Len => length::<[u8]>(&mut d, l),
                    _ => l.line("none"),
                }
            }
            keep(path, &d)?;
        }
        "box" => {
            let mut d = std::fs::read(path)?.into_boxed_slice();
            for o in v {
                match o {
                    Op::Read(o, n) => read::<[u8]>(&mut d, o, n, l),
                    Op::Write(o, b) => write::<Box<[u8]>>(&mut d, o, &b, l),
                    Op::Len => length::<Box<[u8]>>(&mut d, l),
                    _ => l.line("none"),
                }
            }
            keep(path, &d)?;
        }
        "cursor" => readers(Cursor::new(std::fs::read(path)?), v, l),
        "file" => {
            let mut d = rw()?;
            run!(v, l, &mut d, both)
        }
        "bufread" => readers(BufReader::new(File::open(path)?), v, l),
        "bufread-small" => readers(BufReader::with_capacity(7, File::open(path)?), v, l),
        "bufwrite" | "bufwrite-small" => {
            let f = rw()?;
            let mut d = if kind == "bufwrite" { BufWriter::new(f) } else { BufWriter::with_capacity(16, f) };
            for o in v {
                match o {
                    Op::Write(o, b) => write(&mut d, o, &b, l),
                    Op::Len => length(&mut d, l),
                    Op::Flush => {
                        if l.put(d.flush()).is_some() {
                            l.line("ok");
                        }
                    }
                    _ => l.line("none"),
                }
            }
        }
        "dyn" => {
            let mut r: Box<dyn BlockDeviceRead<ReadError = std::io::Error>> = Box::new(rw()?);
            let mut w: Box<dyn BlockDeviceWrite<WriteError = std::io::Error>> = Box::new(rw()?);
            for o in v {
                match o {
                    Op::Read(o, n) => read(&mut r, o, n, l),
                    Op::Write(o, b) => write(&mut w, o, &b, l),
                    Op::Len => length(&mut w, l),
                    _ => l.line("none"),
                }
            }
        }
        // a volume that starts somewhere inside the device
        "offset" => {
            let Some(mut d) = l.put(block_on(OffsetWrapper::new(rw()?))) else { return Ok(()) };
            l.line(&format!("ok {}", d.get_offset()));
            run!(v, l, &mut d, both)
        }
        "offset-buf" => {
            let Some(mut d) = l.put(block_on(OffsetWrapper::new(BufReader::new(rw()?)))) else { return Ok(()) };
            l.line(&format!("ok {}", d.get_offset()));
            for o in v {
                match o {
                    Op::Read(o, n) if o % 3 == 0 => {
                        // through the standard traits, too
                        let mut b = vec![0xEEu8; n];
                        let r = d.seek(SeekFrom::Start(o)).and_then(|_| d.get_mut().read_exact(&mut b));
                        if l.put(r).is_some() {
                            l.line(&format!("ok {}", n));
                            l.0.extend(&b);
                        }
                    }
                    Op::Read(o, n) => read(&mut d, o, n, l),
                    _ => l.line("none"),
                }
            }
        }
        k => panic!("unknown device {}", k),
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut l = Log(vec![]);
    let r = go(&a[1], &a[2], ops(&a[3..]), &mut l);
    std::io::stdout().write_all(&l.0).unwrap();
    if let Err(e) = r {
        eprintln!("{}", e);
        std::process::exit(1);
    }
}
