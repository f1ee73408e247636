//! JavaScript values, promises and the event loop.
use std::any::Any;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

/// An object of the host.
pub trait Host {
    fn class(&self) -> &'static str;
    fn get(&self, _name: &str) -> Option<JsValue> {
        None
    }
    fn call(&self, name: &str, _args: &[JsValue]) -> Result<JsValue, JsValue> {
        Err(err("TypeError", &format!("{} has no method {name}", self.class())))
    }
    fn any(&self) -> &dyn Any;
}

#[derive(Clone)]
pub enum V {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<str>),
    Obj(Rc<dyn Host>),
    Fun(Rc<dyn Fn(JsValue)>),
}

#[derive(Clone)]
#[repr(transparent)]
pub struct JsValue(pub V);

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(V::Undefined);
    pub const NULL: JsValue = JsValue(V::Null);
    pub const TRUE: JsValue = JsValue(V::Bool(true));
    pub const FALSE: JsValue = JsValue(V::Bool(false));
    pub fn undefined() -> Self {
        Self::UNDEFINED
    }
    pub fn null() -> Self {
        Self::NULL
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self {
        s.into()
    }
    pub fn from_f64(n: f64) -> Self {
        n.into()
    }
    pub fn from_bool(b: bool) -> Self {
        b.into()
    }
    pub fn obj<T: Host + 'static>(o: T) -> Self {
        JsValue(V::Obj(Rc::new(o)))
    }
    pub fn fun(f: impl Fn(JsValue) + 'static) -> Self {
        JsValue(V::Fun(Rc::new(f)))
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            V::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self.0 {
            V::Bool(b) => Some(b),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self.0 {
            V::Num(n) => Some(n),
            _ => None,
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self.0, V::Null)
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.0, V::Undefined)
    }
    pub fn is_object(&self) -> bool {
        matches!(self.0, V::Obj(_))
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, V::Str(_))
    }
    pub fn is_function(&self) -> bool {
        matches!(self.0, V::Fun(_))
    }
    pub fn is_truthy(&self) -> bool {
        match &self.0 {
            V::Undefined | V::Null => false,
            V::Bool(b) => *b,
            V::Num(n) => *n != 0.0 && !n.is_nan(),
            V::Str(s) => !s.is_empty(),
            _ => true,
        }
    }
    pub fn is_falsy(&self) -> bool {
        !self.is_truthy()
    }
    pub fn instance_of(&self, class: &str) -> bool {
        match &self.0 {
            V::Obj(h) => {
                let c = h.class();
                c == class
                    || class == "Object"
                    || matches!(
                        (class, c),
                        ("FileSystemHandle", "FileSystemFileHandle" | "FileSystemDirectoryHandle")
                            | ("Blob", "File")
                            | ("ArrayBuffer", "Uint8Array")
                            | ("WritableStream", "FileSystemWritableFileStream")
                    )
            }
            V::Fun(_) => class == "Function" || class == "Object",
            V::Str(_) => class == "JsString" || class == "String",
            _ => false,
        }
    }
    pub fn host<T: 'static>(&self) -> Option<&T> {
        match &self.0 {
            V::Obj(o) => o.any().downcast_ref(),
            _ => None,
        }
    }
    pub fn invoke(&self, arg: JsValue) {
        match &self.0 {
            V::Fun(f) => f(arg),
            _ => panic!("uncaught TypeError: not a function"),
        }
    }
}
impl Default for JsValue {
    fn default() -> Self {
        Self::UNDEFINED
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &Self) -> bool {
        match (&self.0, &o.0) {
            (V::Undefined, V::Undefined) | (V::Null, V::Null) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Num(a), V::Num(b)) => a == b,
            (V::Str(a), V::Str(b)) => a == b,
            (V::Obj(a), V::Obj(b)) => std::ptr::addr_eq(Rc::as_ptr(a), Rc::as_ptr(b)),
            (V::Fun(a), V::Fun(b)) => std::ptr::addr_eq(Rc::as_ptr(a), Rc::as_ptr(b)),
            _ => false,
        }
    }
}
impl Eq for JsValue {}
impl PartialEq<str> for JsValue {
    fn eq(&self, o: &str) -> bool {
        matches!(&self.0, V::Str(s) if &**s == o)
    }
}
impl PartialEq<&str> for JsValue {
    fn eq(&self, o: &&str) -> bool {
        self == *o
    }
}
impl PartialEq<String> for JsValue {
    fn eq(&self, o: &String) -> bool {
        self == &**o
    }
}
impl PartialEq<bool> for JsValue {
    fn eq(&self, o: &bool) -> bool {
        self.as_bool() == Some(*o)
    }
}
impl PartialEq<f64> for JsValue {
    fn eq(&self, o: &f64) -> bool {
        self.as_f64() == Some(*o)
    }
}
impl std::fmt::Debug for JsValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let s = match &self.0 {
            V::Undefined => "undefined".into(),
            V::Null => "null".into(),
            V::Bool(b) => b.to_string(),
            V::Num(n) => n.to_string(),
            V::Str(s) => format!("{s:?}"),
            V::Obj(o) => match o.any().downcast_ref::<Error>() {
                Some(e) => format!("{}: {}", e.name, e.message),
                None => o.class().to_string(),
            },
            V::Fun(_) => "function".into(),
        };
        write!(f, "JsValue({s})")
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
macro_rules! from {
    ($($t:ty: |$x:ident| $e:expr;)*) => { $(impl From<$t> for JsValue { fn from($x: $t) -> Self { JsValue($e) } })* };
}
from! {
    bool: |b| V::Bool(b);
    &str: |s| V::Str(s.into());
    String: |s| V::Str(s.into());
    &String: |s| V::Str(s.as_str().into());
    f64: |n| V::Num(n);
    f32: |n| V::Num(n as f64);
    u32: |n| V::Num(n as f64);
    i32: |n| V::Num(n as f64);
    u16: |n| V::Num(n as f64);
    u8: |n| V::Num(n as f64);
    (): |_n| V::Undefined;
}
impl From<&JsValue> for JsValue {
    fn from(v: &JsValue) -> Self {
        v.clone()
    }
}
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(v: Option<T>) -> Self {
        v.map(Into::into).unwrap_or(JsValue::UNDEFINED)
    }
}

/// What an imported function returns.
pub trait FromJs {
    fn from_js(v: JsValue) -> Self;
}
impl FromJs for JsValue {
    fn from_js(v: JsValue) -> Self {
        v
    }
}
impl FromJs for () {
    fn from_js(_: JsValue) -> Self {}
}
impl FromJs for String {
    fn from_js(v: JsValue) -> Self {
        v.as_string().unwrap_or_else(|| panic!("uncaught TypeError: {v:?} is not a string"))
    }
}
impl FromJs for bool {
    fn from_js(v: JsValue) -> Self {
        v.is_truthy()
    }
}
impl FromJs for f64 {
    fn from_js(v: JsValue) -> Self {
        v.as_f64().unwrap_or(f64::NAN)
    }
}
impl FromJs for u32 {
    fn from_js(v: JsValue) -> Self {
        v.as_f64().unwrap_or(0.0) as i64 as u32
    }
}
impl<T: FromJs> FromJs for Option<T> {
    fn from_js(v: JsValue) -> Self {
        if v.is_null() || v.is_undefined() {
            None
        } else {
            Some(T::from_js(v))
        }
    }
}

pub struct Error {
    pub name: String,
    pub message: String,
}
impl Host for Error {
    fn class(&self) -> &'static str {
        "Error"
    }
    fn get(&self, name: &str) -> Option<JsValue> {
        match name {
            "name" => Some(self.name.as_str().into()),
            "message" => Some(self.message.as_str().into()),
            _ => None,
        }
    }
    fn any(&self) -> &dyn Any {
        self
    }
}
pub fn err(name: &str, message: &str) -> JsValue {
    JsValue::obj(Error { name: name.into(), message: message.into() })
}

/// A plain object.
pub struct Record(pub Vec<(&'static str, JsValue)>);
impl Host for Record {
    fn class(&self) -> &'static str {
        "Object"
    }
    fn get(&self, name: &str) -> Option<JsValue> {
        self.0.iter().find(|x| x.0 == name).map(|x| x.1.clone())
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

pub fn get(v: &JsValue, name: &str) -> Result<JsValue, JsValue> {
    match &v.0 {
        V::Obj(o) => Ok(o.get(name).unwrap_or_default()),
        V::Str(s) if name == "length" => Ok(JsValue(V::Num(s.encode_utf16().count() as f64))),
        V::Undefined | V::Null => Err(err("TypeError", &format!("cannot read {name} of {v:?}"))),
        _ => Ok(JsValue::UNDEFINED),
    }
}
pub fn call(v: &JsValue, name: &str, args: &[JsValue]) -> Result<JsValue, JsValue> {
    match &v.0 {
        V::Obj(o) => o.call(name, args),
        _ => Err(err("TypeError", &format!("{v:?} has no method {name}"))),
    }
}
/// An exception that leaves the program.
pub fn uncaught<T>(r: Result<T, JsValue>) -> T {
    r.unwrap_or_else(|e| panic!("uncaught exception: {e:?}"))
}

// Promises

pub type Settled = Result<JsValue, JsValue>;
#[derive(Clone, Default)]
pub struct PromiseState(pub Rc<RefCell<Option<Settled>>>);
impl Host for PromiseState {
    fn class(&self) -> &'static str {
        "Promise"
    }
    fn any(&self) -> &dyn Any {
        self
    }
}
impl PromiseState {
    pub fn settle(&self, r: Settled) {
        let old = self.0.borrow_mut().replace(r);
        assert!(old.is_none());
    }
}
pub struct JsFuture(JsValue);
impl JsFuture {
    pub fn new(v: JsValue) -> Self {
        JsFuture(v)
    }
}
impl Future for JsFuture {
    type Output = Settled;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Settled> {
        match self.0.host::<PromiseState>() {
            None => Poll::Ready(Ok(self.0.clone())),
            Some(p) => match &*p.0.borrow() {
                None => Poll::Pending,
                Some(r) => Poll::Ready(r.clone()),
            },
        }
    }
}

// The event loop

type Op = Box<dyn FnOnce(Option<JsValue>) -> Settled>;
thread_local! {
    static OPS: RefCell<VecDeque<(PromiseState, String, Op)>> = const { RefCell::new(VecDeque::new()) };
    static TASKS: RefCell<Vec<Pin<Box<dyn Future<Output = ()>>>>> = const { RefCell::new(Vec::new()) };
    static NEW: RefCell<Vec<Pin<Box<dyn Future<Output = ()>>>>> = const { RefCell::new(Vec::new()) };
}

/// Starts an operation of the host, which takes effect later.
pub fn start(name: impl Into<String>, f: impl FnOnce() -> Settled + 'static) -> JsValue {
    start_with(name, |e| match e {
        Some(e) => Err(e),
        None => f(),
    })
}
/// The same for an operation that has to know when it is rejected.
pub fn start_with(name: impl Into<String>, f: impl FnOnce(Option<JsValue>) -> Settled + 'static) -> JsValue {
    let p = PromiseState::default();
    OPS.with_borrow_mut(|o| o.push_back((p.clone(), name.into(), Box::new(f))));
    JsValue::obj(p)
}
pub fn spawn(f: impl Future<Output = ()> + 'static) {
    NEW.with_borrow_mut(|t| t.push(Box::pin(f)));
}
fn waker() -> Waker {
    const T: RawWakerVTable = RawWakerVTable::new(|_| R, |_| {}, |_| {}, |_| {});
    const R: RawWaker = RawWaker::new(std::ptr::null(), &T);
    // does nothing: every task is polled after every operation
    unsafe { Waker::from_raw(R) }
}
/// Polls every task once; whether any has finished or was started.
pub fn poll_tasks() -> bool {
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut tasks = TASKS.take();
    tasks.append(&mut NEW.take());
    let n = tasks.len();
    tasks.retain_mut(|t| t.as_mut().poll(&mut cx).is_pending());
    let some = tasks.len() != n || NEW.with_borrow(|n| !n.is_empty());
    TASKS.with_borrow_mut(|t| {
        tasks.append(t);
        *t = tasks;
    });
    some
}
/// Performs the oldest operation of the host.
pub fn step() -> bool {
    let Some((p, name, f)) = OPS.with_borrow_mut(|o| o.pop_front()) else { return false };
    p.settle(f(crate::world::before(&name)));
    true
}
pub fn pending_tasks() -> usize {
    TASKS.with_borrow(|t| t.len()) + NEW.with_borrow(|t| t.len())
}
pub fn pending_ops() -> usize {
    OPS.with_borrow(|o| o.len())
}
