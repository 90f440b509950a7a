pub use jsworld::{Closure, JsCast, JsValue};
pub use jsworld::world as sim;
pub use web_macros::wasm_bindgen;
pub mod prelude {
    pub use crate::{Closure, JsCast, JsValue};
    pub use crate::wasm_bindgen;
}
