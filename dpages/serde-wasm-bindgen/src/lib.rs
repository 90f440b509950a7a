pub use serde_json::Error;
pub fn from_value<T: serde::de::DeserializeOwned>(v: jsworld::JsValue) -> Result<T, Error> {
    serde_json::from_str(&v.to_json())
}
