pub use jsworld::js::*;
