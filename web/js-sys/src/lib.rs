//! Stand-in for js-sys.
use rt::disk::{Array as Items, Bytes};
use rt::JsValue;
use std::cell::RefCell;
use wasm_bindgen::prelude::*;

#[wasm_bindgen]
extern "C" {
    #[derive(Clone, PartialEq, Eq)]
    pub type Object;
    #[wasm_bindgen(extends = Object)]
    #[derive(Clone, PartialEq, Eq)]
    pub type Promise;
    #[wasm_bindgen(extends = Object)]
    #[derive(Clone, PartialEq, Eq)]
    pub type AsyncIterator;
    #[wasm_bindgen(method, catch)]
    pub fn next(this: &AsyncIterator) -> Result<Promise, JsValue>;
    #[wasm_bindgen(extends = Object)]
    #[derive(Clone, PartialEq, Eq)]
    pub type Array;
    #[wasm_bindgen(method, getter)]
    pub fn length(this: &Array) -> u32;
    #[wasm_bindgen(extends = Object)]
    #[derive(Clone, PartialEq, Eq)]
    pub type ArrayBuffer;
    #[wasm_bindgen(extends = Object)]
    #[derive(Clone, PartialEq, Eq)]
    pub type Uint8Array;
    #[wasm_bindgen(method, getter)]
    pub fn length(this: &Uint8Array) -> u32;
    #[wasm_bindgen(method, getter, js_name = byteLength)]
    pub fn byte_length(this: &Uint8Array) -> u32;
    #[wasm_bindgen(method, getter, js_name = byteLength)]
    pub fn byte_length(this: &ArrayBuffer) -> u32;
    #[wasm_bindgen(extends = Object)]
    #[derive(Clone, PartialEq, Eq)]
    pub type JsString;
    #[wasm_bindgen(extends = Object)]
    #[derive(Clone, PartialEq, Eq)]
    pub type Function;
}
impl Promise {
    pub fn resolve(v: &JsValue) -> Self {
        let v = v.clone();
        rt::start("resolve", move || Ok(v)).into()
    }
}
impl Array {
    pub fn get(&self, i: u32) -> JsValue {
        rt::get(self.as_ref(), &i.to_string()).unwrap_or_default()
    }
    pub fn new() -> Self {
        JsValue::obj(Items(RefCell::new(vec![]))).into()
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        let a = AsRef::<JsValue>::as_ref(self).host::<Items>().expect("uncaught TypeError: not an array");
        a.0.borrow_mut().push(v.clone());
        a.0.borrow().len() as u32
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        (0..self.length()).map(|i| self.get(i)).collect()
    }
    pub fn for_each(&self, f: &mut dyn FnMut(JsValue, u32, Array)) {
        for (i, v) in self.to_vec().into_iter().enumerate() {
            f(v, i as u32, self.clone());
        }
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
}
impl From<&JsValue> for Array {
    fn from(v: &JsValue) -> Self {
        let a: Self = v.clone().into();
        a.to_vec().into_iter().collect()
    }
}
impl<T: AsRef<JsValue>> FromIterator<T> for Array {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        JsValue::obj(Items(RefCell::new(i.into_iter().map(|v| v.as_ref().clone()).collect()))).into()
    }
}
impl Default for Array {
    fn default() -> Self {
        Self::new()
    }
}
impl From<&str> for JsString {
    fn from(s: &str) -> Self {
        JsValue::from(s).into()
    }
}
impl From<String> for JsString {
    fn from(s: String) -> Self {
        JsValue::from(s).into()
    }
}
impl From<JsString> for String {
    fn from(s: JsString) -> Self {
        AsRef::<JsValue>::as_ref(&s).as_string().expect("uncaught TypeError: not a string")
    }
}
fn make(v: Vec<u8>) -> Uint8Array {
    JsValue::obj(Bytes(RefCell::new(v))).into()
}
impl From<&[u8]> for Uint8Array {
    fn from(b: &[u8]) -> Self {
        make(b.to_vec())
    }
}
impl Uint8Array {
    fn bytes(&self) -> &RefCell<Vec<u8>> {
        &AsRef::<JsValue>::as_ref(self).host::<Bytes>().expect("uncaught TypeError: not an array of bytes").0
    }
    /// Of a buffer (a view of it) or of a number of zeroes.
    pub fn new(v: &JsValue) -> Self {
        match (v.host::<Bytes>(), v.as_f64()) {
            (Some(_), _) => v.clone().into(),
            (_, Some(n)) => make(vec![0; n as usize]),
            _ => make(vec![]),
        }
    }
    pub fn new_with_length(n: u32) -> Self {
        make(vec![0; n as usize])
    }
    pub fn new_with_byte_offset_and_length(v: &JsValue, off: u32, n: u32) -> Self {
        let b = Self::new(v);
        let b = b.bytes().borrow();
        make(b.get(off as usize..off as usize + n as usize).expect("uncaught RangeError").to_vec())
    }
    /// # Safety
    /// The view is a copy here.
    pub unsafe fn view(b: &[u8]) -> Self {
        make(b.to_vec())
    }
    pub fn copy_to(&self, dst: &mut [u8]) {
        let b = self.bytes().borrow();
        assert_eq!(b.len(), dst.len(), "expected destination and source slices to be the same length");
        dst.copy_from_slice(&b);
    }
    pub fn copy_from(&self, src: &[u8]) {
        let mut b = self.bytes().borrow_mut();
        assert_eq!(b.len(), src.len(), "expected destination and source slices to be the same length");
        b.copy_from_slice(src);
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.bytes().borrow().clone()
    }
    fn range(&self, a: u32, b: u32) -> Vec<u8> {
        let v = self.bytes().borrow();
        let b = (b as usize).min(v.len());
        v[(a as usize).min(b)..b].to_vec()
    }
    pub fn slice(&self, a: u32, b: u32) -> Self {
        make(self.range(a, b))
    }
    pub fn subarray(&self, a: u32, b: u32) -> Self {
        make(self.range(a, b))
    }
    pub fn set(&self, v: &JsValue, off: u32) {
        let v = Self::new(v).to_vec();
        let mut b = self.bytes().borrow_mut();
        b.get_mut(off as usize..off as usize + v.len()).expect("uncaught RangeError").copy_from_slice(&v);
    }
    pub fn fill(&self, v: u8, a: u32, b: u32) -> Self {
        let mut d = self.bytes().borrow_mut();
        let b = (b as usize).min(d.len());
        d[(a as usize).min(b)..b].fill(v);
        drop(d);
        self.clone()
    }
    pub fn buffer(&self) -> ArrayBuffer {
        AsRef::<JsValue>::as_ref(self).clone().into()
    }
    pub fn set_index(&self, i: u32, v: u8) {
        if let Some(b) = self.bytes().borrow_mut().get_mut(i as usize) {
            *b = v;
        }
    }
    pub fn get_index(&self, i: u32) -> u8 {
        self.bytes().borrow().get(i as usize).copied().unwrap_or(0)
    }
}
#[allow(non_snake_case)]
pub mod Reflect {
    use rt::JsValue;
    pub fn get(v: &JsValue, name: &JsValue) -> Result<JsValue, JsValue> {
        rt::get(v, &name.as_string().unwrap_or_else(|| name.as_f64().unwrap_or(0.0).to_string()))
    }
    pub fn has(v: &JsValue, name: &JsValue) -> Result<bool, JsValue> {
        Ok(!get(v, name)?.is_undefined())
    }
}
