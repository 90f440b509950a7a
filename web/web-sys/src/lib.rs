pub use jsworld::web::*;
