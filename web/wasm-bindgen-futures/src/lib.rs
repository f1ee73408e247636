//! Stand-in for wasm-bindgen-futures.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

pub struct JsFuture(rt::JsFuture);
impl From<js_sys::Promise> for JsFuture {
    fn from(p: js_sys::Promise) -> Self {
        JsFuture(rt::JsFuture::new(p.into()))
    }
}
impl Future for JsFuture {
    type Output = Result<rt::JsValue, rt::JsValue>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut self.0).poll(cx)
    }
}
pub fn spawn_local(f: impl Future<Output = ()> + 'static) {
    rt::spawn(f)
}
