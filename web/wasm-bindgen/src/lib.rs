//! Stand-in for wasm-bindgen.
pub use rt;
pub use rt::JsValue;
pub use web_macros::wasm_bindgen;

pub trait JsCast: AsRef<JsValue> + Into<JsValue> + Sized {
    fn unchecked_from_js(v: JsValue) -> Self;
    fn unchecked_from_js_ref(v: &JsValue) -> &Self;
    fn instanceof(v: &JsValue) -> bool;
    fn is_type_of(v: &JsValue) -> bool {
        Self::instanceof(v)
    }
    fn has_type<T: JsCast>(&self) -> bool {
        T::is_type_of(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        self.has_type::<T>().then(|| self.unchecked_ref())
    }
}
impl JsCast for JsValue {
    fn unchecked_from_js(v: JsValue) -> Self {
        v
    }
    fn unchecked_from_js_ref(v: &JsValue) -> &Self {
        v
    }
    fn instanceof(_: &JsValue) -> bool {
        true
    }
}
pub type JsError = JsValue;

/// A function for the outside.
pub struct Closure<T: ?Sized>(JsValue, std::marker::PhantomData<Box<T>>);
pub trait Wrap {
    fn value(f: Box<Self>) -> JsValue;
}
impl Wrap for dyn Fn(JsValue) {
    fn value(f: Box<Self>) -> JsValue {
        JsValue::fun(f)
    }
}
impl Wrap for dyn FnMut(JsValue) {
    fn value(f: Box<Self>) -> JsValue {
        let f = std::cell::RefCell::new(f);
        JsValue::fun(move |v| (f.borrow_mut())(v))
    }
}
impl<T: ?Sized + Wrap> Closure<T> {
    pub fn wrap(f: Box<T>) -> Self {
        Closure(T::value(f), std::marker::PhantomData)
    }
}
impl Closure<dyn FnMut(JsValue)> {
    pub fn once(f: impl FnOnce(JsValue) + 'static) -> Self {
        let mut f = Some(f);
        Self::wrap(Box::new(move |v| f.take().expect("uncaught Error: closure invoked recursively or after being dropped")(v)))
    }
    pub fn once_into_js(f: impl FnOnce(JsValue) + 'static) -> JsValue {
        Self::once(f).0
    }
}
impl Closure<dyn Fn(JsValue)> {
    pub fn new(f: impl Fn(JsValue) + 'static) -> Self {
        Self::wrap(Box::new(f))
    }
}
impl<T: ?Sized> Closure<T> {
    pub fn into_js_value(self) -> JsValue {
        self.0
    }
    pub fn forget(self) {}
}
impl<T: ?Sized> AsRef<JsValue> for Closure<T> {
    fn as_ref(&self) -> &JsValue {
        &self.0
    }
}
pub trait UnwrapThrowExt<T> {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, m: &str) -> T;
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
pub mod prelude {
    pub use crate::{wasm_bindgen, Closure, JsCast, JsValue, UnwrapThrowExt};
}
pub mod closure {
    pub use crate::Closure;
}
