//! The pages of the web app with a simulated user: `pages STEP…` (see user.rs). The components and the
//! operations are the real ones; yew, yewprint and the browser are simulated.
#![allow(dead_code)]
use jsworld::simfmt::{ST_EXIT, ST_OPLIMIT};
use jsworld::{world, JsValue};

#[path = "/repo/xdvdfs-web/src/compress.rs"]
mod compress;
#[path = "/repo/xdvdfs-web/src/fs/mod.rs"]
mod fs;
#[path = "/repo/xdvdfs-web/src/ops/mod.rs"]
mod ops;
#[path = "/repo/xdvdfs-web/src/packing.rs"]
mod packing;
#[path = "/repo/xdvdfs-web/src/picker/mod.rs"]
mod picker;
#[path = "/repo/xdvdfs-web/src/unpacking.rs"]
mod unpacking;
#[path = "../user.rs"]
mod user;

use ops::browser::WebXDVDFSOps;
use picker::browser::WebFSBackend;

impl user::Paths for WebFSBackend {
    fn file(h: &Self::FileHandle) -> String {
        AsRef::<JsValue>::as_ref(h).path()
    }
    fn dir(h: &Self::DirectoryHandle) -> String {
        AsRef::<JsValue>::as_ref(h).path()
    }
}

fn answer(kind: usize, path: &str) -> JsValue {
    if kind == 2 {
        world::save_file(path);
    }
    if kind == 1 {
        world::dir_handle(path)
    } else {
        world::file_handle(path)
    }
}

fn main() {
    world::init();
    world::set_globals(Box::new(user::global));
    let stuck = || {
        eprintln!("a task waits for something that never happens");
        world::end(ST_OPLIMIT, 78)
    };
    let code = match std::panic::catch_unwind(|| user::visit::<WebFSBackend, WebXDVDFSOps>(std::env::args().skip(1), answer, stuck)) {
        Ok(()) => 0,
        Err(_) => 101,
    };
    world::end(ST_EXIT, code)
}
