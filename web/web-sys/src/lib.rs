//! Stand-in for web-sys.
use js_sys::{Object, Promise};
use wasm_bindgen::prelude::*;

#[wasm_bindgen]
extern "C" {
    #[wasm_bindgen(extends = Object)]
    #[derive(Clone, PartialEq, Eq)]
    pub type Blob;
    #[wasm_bindgen(method, getter)]
    pub fn size(this: &Blob) -> f64;
    #[wasm_bindgen(method, js_name = arrayBuffer)]
    pub fn array_buffer(this: &Blob) -> Promise;
    #[wasm_bindgen(method, catch)]
    pub fn slice(this: &Blob) -> Result<Blob, JsValue>;
    #[wasm_bindgen(method, catch, js_name = slice)]
    pub fn slice_with_f64(this: &Blob, start: f64) -> Result<Blob, JsValue>;
    #[wasm_bindgen(method, catch, js_name = slice)]
    pub fn slice_with_i32_and_i32(this: &Blob, start: i32, end: i32) -> Result<Blob, JsValue>;
    #[wasm_bindgen(method, catch, js_name = slice)]
    pub fn slice_with_f64_and_f64(this: &Blob, start: f64, end: f64) -> Result<Blob, JsValue>;
    #[wasm_bindgen(method, catch, js_name = slice)]
    pub fn slice_with_f64_and_f64_and_content_type(this: &Blob, start: f64, end: f64, ty: &str) -> Result<Blob, JsValue>;
    #[wasm_bindgen(method, catch, js_name = slice)]
    pub fn slice_with_i32_and_i32_and_content_type(this: &Blob, start: i32, end: i32, ty: &str) -> Result<Blob, JsValue>;
    #[wasm_bindgen(extends = Blob, extends = Object)]
    #[derive(Clone, PartialEq, Eq)]
    pub type File;
    #[wasm_bindgen(method, getter)]
    pub fn name(this: &File) -> String;
    #[wasm_bindgen(extends = Object)]
    #[derive(Clone, PartialEq, Eq)]
    pub type WritableStream;
    #[wasm_bindgen(method)]
    pub fn close(this: &WritableStream) -> Promise;
    #[wasm_bindgen(method)]
    pub fn abort(this: &WritableStream) -> Promise;
    #[wasm_bindgen(extends = Object)]
    #[derive(Clone, PartialEq, Eq)]
    pub type MediaQueryList;
    #[wasm_bindgen(method, getter)]
    pub fn matches(this: &MediaQueryList) -> bool;
    #[wasm_bindgen(extends = Object)]
    #[derive(Clone, PartialEq, Eq)]
    pub type Window;
    #[wasm_bindgen(method, catch, js_name = matchMedia)]
    pub fn match_media(this: &Window, q: &str) -> Result<Option<MediaQueryList>, JsValue>;
}
pub fn window() -> Option<Window> {
    None
}
