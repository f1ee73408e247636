//! Stand-in for serde-wasm-bindgen.
pub fn from_value<T: serde::de::DeserializeOwned>(v: rt::JsValue) -> Result<T, serde_json::Error> {
    let j = v.host::<rt::disk::Json>().expect("harness: not an event");
    serde_json::from_value(j.0.clone())
}
pub use serde_json::Error;
