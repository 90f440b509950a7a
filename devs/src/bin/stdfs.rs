//! `stdfs FORM SOURCE OUTPUT SEED`: packs a directory or an image with the library's own
//! filesystems, in ways that the programs do not.
use std::fmt::{Debug, Display};
use std::fs::File;
use std::future::Future;
use std::io::{BufReader, BufWriter, Write};
use std::path::Path;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use xdvdfs::blockdev::{BlockDeviceWrite, OffsetWrapper};
use xdvdfs::write::fs::{
    DefaultCopier, FileEntry, FilesystemCopier, FilesystemHierarchy, PathVec, RemapOverlayConfig, RemapOverlayFilesystem, StdFilesystem, StdIOCopier,
    XDVDFSFilesystem,
};

type Res<T> = Result<T, String>;
fn block_on<F: Future>(f: F) -> F::Output {
    const V: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &V), |_| {}, |_| {}, |_| {});
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &V)) };
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return x;
        }
    }
}
fn st<T, E: Display>(r: Result<T, E>) -> Res<T> {
    r.map_err(|e| e.to_string())
}

/// A filesystem that copies every file in several pieces, out of order.
struct Pieces<F>(F, u64);
#[async_trait::async_trait]
impl<F: FilesystemHierarchy> FilesystemHierarchy for Pieces<F> {
    type Error = F::Error;
    async fn read_dir(&mut self, path: &PathVec) -> Result<Vec<FileEntry>, F::Error> {
        self.0.read_dir(path).await
    }
}
#[async_trait::async_trait]
impl<W: BlockDeviceWrite, F: FilesystemCopier<W>> FilesystemCopier<W> for Pieces<F> {
    type Error = F::Error;
    async fn copy_file_in(&mut self, src: &PathVec, dest: &mut W, i: u64, o: u64, size: u64) -> Result<u64, F::Error> {
        let mut cuts = vec![0, size];
        for _ in 0..3 {
            self.1 = self.1.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            cuts.push((self.1 >> 20) % (size + 1));
        }
        cuts.sort();
        let mut n = 0;
        for k in [2, 0, 3, 1] {
            let (a, b) = (cuts[k], cuts[k + 1]);
            n += self.0.copy_file_in(src, dest, i + a, o + a, b - a).await?;
        }
        Ok(n)
    }
}

fn pack<F, W>(mut fs: F, w: &mut W) -> Res<()>
where
    W: BlockDeviceWrite,
    F: FilesystemHierarchy + FilesystemCopier<W>,
    <F as FilesystemHierarchy>::Error: Debug + Display + 'static,
    <F as FilesystemCopier<W>>::Error: Debug + Display + 'static,
    W::WriteError: Debug + Display + 'static,
{
    block_on(xdvdfs::write::img::create_xdvdfs_image(&mut fs, w, |_| {})).map_err(|e| format!("{:?}", e))
}

/// Into memory: first into a buffer that may be too small.
fn boxed<F>(out: &str, seed: u64, mut fs: impl FnMut() -> Res<F>) -> Res<()>
where
    F: FilesystemHierarchy + FilesystemCopier<Box<[u8]>>,
    <F as FilesystemHierarchy>::Error: Debug + Display + 'static,
    <F as FilesystemCopier<Box<[u8]>>>::Error: Debug + Display + 'static,
{
    let mut err = String::new();
    for k in 0..8 {
        let len = match (k, seed % 4) {
            (0, 0) => (seed / 4 % 200_000) as usize,
            (0, 1) => 0,
            _ => 65536 << (2 * k),
        };
        if len > 32 << 20 {
            break;
        }
        let mut b = vec![0u8; len].into_boxed_slice();
        match pack(fs()?, &mut b) {
            Ok(()) if b.as_ref().len() != len => return Err("the buffer has another size now".into()),
            Ok(()) => return st(std::fs::write(out, &b)),
            Err(e) => err = e,
        }
    }
    Err(err)
}
fn file(out: &str) -> Res<File> {
    st(File::options().read(true).write(true).create(true).truncate(true).open(out))
}
type Dev = OffsetWrapper<BufReader<File>>;
fn dev(src: &str) -> Res<Dev> {
    let f = BufReader::new(st(File::open(src))?);
    block_on(OffsetWrapper::new(f)).map_err(|e| format!("{:?}", e))
}
macro_rules! image {
    ($d:expr, $w:ty, $c:ident) => {
        block_on(XDVDFSFilesystem::<_, $w, $c<_, $w>>::new($d)).ok_or("no volume".to_string())
    };
}

fn go(form: &str, src: &str, out: &str, seed: u64) -> Res<()> {
    let std = || StdFilesystem::create(Path::new(src));
    match form {
        "dir-file" => pack(std(), &mut file(out)?),
        "dir-buf" => {
            let mut w = BufWriter::with_capacity(1 + (seed % 70_000) as usize, file(out)?);
            pack(std(), &mut w)?;
            st(w.flush())
        }
        "dir-box" => boxed(out, seed, || Ok(std())),
        "dir-pieces" => pack(Pieces(std(), seed), &mut file(out)?),
        "dir-pieces-box" => boxed(out, seed, || Ok(Pieces(std(), seed))),
        "dir-remap" => {
            let cfg = RemapOverlayConfig { map_rules: vec![("**".into(), "/{0}".into())] };
            let fs = block_on(RemapOverlayFilesystem::new(std(), cfg)).map_err(|e| format!("{:?}", e))?;
            pack(Pieces(fs, seed), &mut file(out)?)
        }
        "img-std" => pack(image!(dev(src)?, File, StdIOCopier)?, &mut file(out)?),
        "img-def" => pack(image!(dev(src)?, File, DefaultCopier)?, &mut file(out)?),
        "img-raw" => {
            let d = dev(src)?;
            if d.get_offset() != 0 {
                return pack(image!(d, File, DefaultCopier)?, &mut file(out)?);
            }
            pack(image!(BufReader::new(st(File::open(src))?), File, StdIOCopier)?, &mut file(out)?)
        }
        "img-box" => boxed(out, seed, || image!(dev(src)?, Box<[u8]>, DefaultCopier)),
        "img-pieces" => pack(Pieces(image!(dev(src)?, File, StdIOCopier)?, seed), &mut file(out)?),
        "img-pieces-box" => boxed(out, seed, || Ok(Pieces(image!(dev(src)?, Box<[u8]>, DefaultCopier)?, seed))),
        k => panic!("unknown form {}", k),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let Err(e) = go(&a[1], &a[2], &a[3], a[4].parse().unwrap()) {
        eprintln!("error: {}", e);
        std::process::exit(1);
    }
}
