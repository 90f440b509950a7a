//! A simulated browser: JavaScript values, promises settled by a seeded event queue, and the File
//! System Access API over a simulated origin of files and directories.
#[path = "../../../common/simfmt.rs"]
pub mod simfmt;
pub mod js;
pub mod value;
pub mod web;
pub mod world;
pub use value::{Closure, JsCast, JsFuture, JsValue};
