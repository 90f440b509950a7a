//! The pages of the desktop app with a simulated user: `dpages SEED STEP…` (see user.rs). The components, the
//! adapters to the desktop and the commands are the real ones; yew, yewprint, tauri and the host are simulated.
//! A command runs as a whole; its events and then its result reach the page one after the other.
#![allow(dead_code)]
use jsworld::{world, JsValue};
use std::future::Future;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

#[path = "/repo/xdvdfs-web/src/compress.rs"]
mod compress;
#[path = "/repo/xdvdfs-web/src/ops/mod.rs"]
mod ops;
#[path = "/repo/xdvdfs-web/src/packing.rs"]
mod packing;
#[path = "/repo/xdvdfs-web/src/picker/mod.rs"]
mod picker;
#[path = "/repo/xdvdfs-web/src/unpacking.rs"]
mod unpacking;
#[path = "../../web/src/user.rs"]
mod user;
use ops::tauri::TauriXDVDFSOps;
use picker::tauri::TauriFSBackend;

impl user::Paths for TauriFSBackend {
    fn file(h: &String) -> String {
        h.clone()
    }
    fn dir(h: &String) -> String {
        h.clone()
    }
}

fn block_on<F: Future + Send>(f: F) -> F::Output {
    const V: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &V), |_| {}, |_| {}, |_| {});
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &V)) };
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return x;
        }
    }
}

/// The functions of tauri.js.
fn global(name: &str, a: Vec<JsValue>) -> JsValue {
    if !matches!(name, "pack_image" | "unpack_image" | "compress_image") {
        return user::global(name, a);
    }
    let path = |i: usize| a[i].as_string().expect("not a path");
    let w = tauri_::Window;
    let r = match name {
        "pack_image" => block_on(commands::pack::pack_image(w, path(0), path(1))),
        "unpack_image" => block_on(commands::unpack::unpack_image(w, path(0), path(1))),
        _ => block_on(commands::compress::compress_image(w, path(0), path(1))),
    };
    let (p, settle) = world::promise();
    deliver(std::mem::take(&mut *tauri_::EVENTS.lock().unwrap()).into_iter(), a, Box::new(move || settle(r.into())));
    p
}
fn deliver(mut events: std::vec::IntoIter<(String, String)>, a: Vec<JsValue>, end: Box<dyn FnOnce()>) {
    world::later(move || match events.next() {
        None => end(),
        Some((name, payload)) => {
            let listener = match name.as_str() {
                "progress_callback" => a.get(2),
                "compress_callback" => a.get(3),
                _ => None,
            };
            if let Some(l) = listener {
                l.call(JsValue::json(payload));
            }
            deliver(events, a, end)
        }
    })
}

fn main() {
    let mut args = std::env::args().skip(1);
    world::init_events(args.next().unwrap().parse().unwrap());
    world::set_globals(Box::new(global));
    let stuck = || {
        eprintln!("a task waits for something that never happens");
        std::process::exit(78)
    };
    user::visit::<TauriFSBackend, TauriXDVDFSOps>(args, |_, p| p.into(), stuck);
}
