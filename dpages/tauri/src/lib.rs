//! What the commands of the desktop app use of tauri. Events are kept until the web view gets them.
pub use web_macros::command;
use std::sync::Mutex;

pub type Error = serde_json::Error;
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone)]
pub struct Window;
pub use Window as AppHandle;
pub static EVENTS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

impl Window {
    pub fn emit<S: serde::Serialize + Clone>(&self, event: &str, payload: S) -> Result<()> {
        EVENTS.lock().unwrap().push((event.into(), serde_json::to_string(&payload)?));
        Ok(())
    }
    pub fn emit_all<S: serde::Serialize + Clone>(&self, event: &str, payload: S) -> Result<()> {
        self.emit(event, payload)
    }
}
