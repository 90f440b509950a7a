pub use jsworld::world::spawn_local;
pub use jsworld::JsFuture;
