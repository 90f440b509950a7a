//! The commands of the desktop app.
#![allow(dead_code)]
#[path = "/repo/xdvdfs-desktop/src/compress.rs"]
pub mod compress;
#[path = "/repo/xdvdfs-desktop/src/pack.rs"]
pub mod pack;
#[path = "/repo/xdvdfs-desktop/src/unpack.rs"]
pub mod unpack;
