//! One operation of the web app: `web pack SOURCE FILE`, `web compress SOURCE DIR`, `web unpack IMAGE DIR`.
//! The operation is the real one; the browser below it is simulated (see jsworld). Exit status 0: the
//! operation returned success; 1: it returned the error on standard error; 101: it panicked.
#![allow(dead_code)]
use jsworld::simfmt::ST_EXIT;
use jsworld::world;

#[path = "/repo/xdvdfs-web/src/fs/mod.rs"]
mod fs;
#[path = "/repo/xdvdfs-web/src/ops/mod.rs"]
mod ops;

// The rest of the user interface, as far as the operations name it.
mod packing {
    pub enum ImageCreationState {
        CreatingFilesystem,
        PackingImage,
        WaitingForFlush,
    }
    pub enum WorkflowState {
        Packing(ImageCreationState),
        Finished,
        Error(String),
    }
}
mod unpacking {
    pub enum WorkflowState {
        Unpacking,
        Finished,
        Error(String),
    }
}
mod compress {
    pub enum ImageCreationState {
        CreatingFilesystem,
        PackingImage,
        WaitingForFlush,
    }
    pub enum WorkflowState {
        Packing(ImageCreationState),
        Compressing,
        Finished,
        Error(String),
    }
    #[derive(serde::Serialize, Debug, Clone, Copy)]
    pub enum CisoProgressInfo {
        SectorCount(usize),
        SectorsDone(usize),
        Finished,
    }
}
mod picker {
    pub trait FilePickerBackend: PartialEq + Eq + Clone + Default {
        type FileHandle;
        type DirectoryHandle;
    }
    pub enum PickerResult<T: FilePickerBackend> {
        FileHandle(T::FileHandle),
        DirectoryHandle(T::DirectoryHandle),
    }
    pub mod browser {
        use crate::fs::{FileSystemDirectoryHandle, FileSystemFileHandle};
        #[derive(PartialEq, Eq, Clone, Default)]
        pub struct WebFSBackend;
        impl super::FilePickerBackend for WebFSBackend {
            type FileHandle = FileSystemFileHandle;
            type DirectoryHandle = FileSystemDirectoryHandle;
        }
    }
}

use ops::browser::WebXDVDFSOps;
use ops::XDVDFSOperations;
use picker::PickerResult;

fn show<T: serde::Serialize>(n: &'static str) -> yew::Callback<T> {
    yew::Callback::from(move |v: T| println!("{} {}", n, serde_json::to_string(&v).unwrap()))
}
fn source(p: &str) -> PickerResult<picker::browser::WebFSBackend> {
    if world::is_dir(p) {
        PickerResult::DirectoryHandle(world::dir_handle(p).into())
    } else {
        PickerResult::FileHandle(world::file_handle(p).into())
    }
}

fn operate(a: &[String]) -> Result<(), String> {
    let (src, dst) = (&a[2], &a[3]);
    let progress = show("progress_callback");
    match a[1].as_str() {
        "pack" => {
            let state = yew::Callback::from(|_| ());
            world::run(WebXDVDFSOps::pack_image(source(src), world::file_handle(dst).into(), progress, &state))
        }
        "unpack" => {
            let state = yew::Callback::from(|_| ());
            world::run(WebXDVDFSOps::unpack_image(world::file_handle(src).into(), world::dir_handle(dst).into(), progress, &state))
        }
        "compress" => {
            let state = yew::Callback::from(|_| ());
            let sectors = show("compress_callback");
            world::run(WebXDVDFSOps::compress_image(source(src), world::dir_handle(dst).into(), progress, sectors, &state))
        }
        c => panic!("unknown operation {}", c),
    }
}

fn main() {
    world::init();
    let a: Vec<String> = std::env::args().collect();
    match std::panic::catch_unwind(|| operate(&a)) {
        Ok(Ok(())) => world::end(ST_EXIT, 0),
        Ok(Err(e)) => {
            eprintln!("{}", e);
            world::end(ST_EXIT, 1)
        }
        Err(_) => world::end(ST_EXIT, 101),
    }
}
