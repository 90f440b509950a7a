//! What the commands of the desktop app use of tauri. Events go to standard output, a line each.
pub use tauri_macros::command;
use std::io::Write;

pub type Error = std::io::Error;
pub type Result<T> = std::io::Result<T>;

#[derive(Clone)]
pub struct Window;
pub use Window as AppHandle;

impl Window {
    pub fn emit<S: serde::Serialize + Clone>(&self, event: &str, payload: S) -> Result<()> {
        let mut line = format!("{} {}\n", event, serde_json::to_string(&payload)?).into_bytes();
        let out = std::io::stdout();
        let mut out = out.lock();
        // an event that cannot be delivered is nothing the command can do about
        let _ = out.write_all(&line);
        line.clear();
        Ok(())
    }
    pub fn emit_all<S: serde::Serialize + Clone>(&self, event: &str, payload: S) -> Result<()> {
        self.emit(event, payload)
    }
}
