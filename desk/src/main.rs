//! One call of a command of the desktop app: `desk pack|unpack|compress SOURCE DEST`.
//! Exit status 0 and nothing on standard error: the command returned nothing (the user interface
//! reports success). Exit status 1: it returned the message on standard error.
use std::future::Future;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

#[path = "/repo/xdvdfs-desktop/src/compress.rs"]
mod compress;
#[path = "/repo/xdvdfs-desktop/src/pack.rs"]
mod pack;
#[path = "/repo/xdvdfs-desktop/src/unpack.rs"]
mod unpack;

fn block_on<F: Future + Send>(f: F) -> F::Output {
    const V: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &V), |_| {}, |_| {}, |_| {});
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &V)) };
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return x;
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, dst) = (a[2].clone(), a[3].clone());
    let w = tauri::Window;
    let r = match a[1].as_str() {
        "pack" => block_on(pack::pack_image(w, src, dst)),
        "unpack" => block_on(unpack::unpack_image(w, src, dst)),
        "compress" => block_on(compress::compress_image(w, src, dst)),
        c => panic!("unknown command {}", c),
    };
    if let Some(e) = r {
        eprintln!("{}", e);
        std::process::exit(1);
    }
}
