//! Stand-in for yew: components, state and a screen of texts and buttons.
mod drive;
use std::any::{Any, TypeId};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
pub use web_macros::{function_component, html, Properties};

// Callbacks and properties

pub struct Callback<IN, OUT = ()>(Rc<dyn Fn(IN) -> OUT>);
impl<IN, OUT> Callback<IN, OUT> {
    pub fn emit(&self, v: IN) -> OUT {
        (self.0)(v)
    }
    pub fn reform<T: 'static>(&self, f: impl Fn(T) -> IN + 'static) -> Callback<T, OUT>
    where
        IN: 'static,
        OUT: 'static,
    {
        let s = self.clone();
        Callback(Rc::new(move |x| s.emit(f(x))))
    }
    pub fn filter_reform<T: 'static>(&self, f: impl Fn(T) -> Option<IN> + 'static) -> Callback<T, Option<OUT>>
    where
        IN: 'static,
        OUT: 'static,
    {
        let s = self.clone();
        Callback(Rc::new(move |x| f(x).map(|y| s.emit(y))))
    }
}
impl<IN, OUT> std::fmt::Debug for Callback<IN, OUT> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Callback<_>")
    }
}
impl<IN> Callback<IN> {
    pub fn noop() -> Self {
        Callback(Rc::new(|_| ()))
    }
}
impl<IN, OUT, F: Fn(IN) -> OUT + 'static> From<F> for Callback<IN, OUT> {
    fn from(f: F) -> Self {
        Callback(Rc::new(f))
    }
}
impl<IN, OUT> Clone for Callback<IN, OUT> {
    fn clone(&self) -> Self {
        Callback(self.0.clone())
    }
}
impl<IN> Default for Callback<IN> {
    fn default() -> Self {
        Self::noop()
    }
}
impl<IN, OUT> PartialEq for Callback<IN, OUT> {
    fn eq(&self, o: &Self) -> bool {
        std::ptr::addr_eq(Rc::as_ptr(&self.0), Rc::as_ptr(&o.0))
    }
}
impl<IN, OUT> implicit_clone::ImplicitClone for Callback<IN, OUT> {}

pub trait IntoPropValue<T> {
    fn into_prop_value(self) -> T;
}
impl<T> IntoPropValue<T> for T {
    fn into_prop_value(self) -> T {
        self
    }
}
impl<T> IntoPropValue<Option<T>> for T {
    fn into_prop_value(self) -> Option<T> {
        Some(self)
    }
}
impl<I, O, F: Fn(I) -> O + 'static> IntoPropValue<Callback<I, O>> for F {
    fn into_prop_value(self) -> Callback<I, O> {
        Callback::from(self)
    }
}
impl<T: Clone> IntoPropValue<T> for &T {
    fn into_prop_value(self) -> T {
        self.clone()
    }
}
impl IntoPropValue<AttrValue> for &'static str {
    fn into_prop_value(self) -> AttrValue {
        self.into()
    }
}
impl IntoPropValue<AttrValue> for String {
    fn into_prop_value(self) -> AttrValue {
        self.into()
    }
}
impl IntoPropValue<Option<AttrValue>> for &'static str {
    fn into_prop_value(self) -> Option<AttrValue> {
        Some(self.into())
    }
}
impl IntoPropValue<Option<String>> for AttrValue {
    fn into_prop_value(self) -> Option<String> {
        Some(self.to_string())
    }
}
impl IntoPropValue<String> for AttrValue {
    fn into_prop_value(self) -> String {
        self.to_string()
    }
}
impl IntoPropValue<String> for &str {
    fn into_prop_value(self) -> String {
        self.into()
    }
}
impl IntoPropValue<Option<String>> for &str {
    fn into_prop_value(self) -> Option<String> {
        Some(self.into())
    }
}
pub trait PropsBuilder {
    type Props;
    fn build(self) -> Self::Props;
}
pub trait Properties: Sized {
    type Builder: PropsBuilder<Props = Self>;
    fn builder() -> Self::Builder;
}
pub struct UnitBuilder;
impl PropsBuilder for UnitBuilder {
    type Props = ();
    fn build(self) {}
}
impl Properties for () {
    type Builder = UnitBuilder;
    fn builder() -> UnitBuilder {
        UnitBuilder
    }
}

// What is shown

#[derive(Clone)]
pub enum Html {
    Text(String),
    List(Vec<Html>),
    Element { tag: &'static str, onclick: Option<Callback<MouseEvent>>, disabled: bool, children: Vec<Html> },
    /// a notice with its kind
    Callout(Option<String>, Vec<Html>),
    Progress(i64),
    /// kept, but not visible
    Hidden(Box<Html>),
    Component(Spec),
}
impl Default for Html {
    fn default() -> Self {
        Html::List(vec![])
    }
}
impl FromIterator<Html> for Html {
    fn from_iter<I: IntoIterator<Item = Html>>(i: I) -> Self {
        Html::List(i.into_iter().collect())
    }
}
impl From<String> for Html {
    fn from(s: String) -> Self {
        Html::Text(s)
    }
}
impl From<&str> for Html {
    fn from(s: &str) -> Self {
        Html::Text(s.into())
    }
}
impl PartialEq for Html {
    fn eq(&self, _: &Self) -> bool {
        false
    }
}
impl implicit_clone::ImplicitClone for Html {}
#[derive(Clone, Copy, Debug)]
pub struct MouseEvent;
#[derive(Clone, Default)]
pub struct Children(pub Vec<Html>);
impl Children {
    pub fn new(v: Vec<Html>) -> Self {
        Children(v)
    }
    pub fn iter(&self) -> impl Iterator<Item = Html> + '_ {
        self.0.iter().cloned()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
impl IntoIterator for Children {
    type Item = Html;
    type IntoIter = std::vec::IntoIter<Html>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl PartialEq for Children {
    fn eq(&self, _: &Self) -> bool {
        false
    }
}
#[derive(Clone, Default, PartialEq)]
pub struct Classes;
impl Classes {
    pub fn new() -> Self {
        Classes
    }
    pub fn push<T>(&mut self, _: T) {}
    pub fn extend<T>(&mut self, _: T) {}
}
impl From<&'static str> for Classes {
    fn from(_: &'static str) -> Self {
        Classes
    }
}
impl From<String> for Classes {
    fn from(_: String) -> Self {
        Classes
    }
}
#[macro_export]
macro_rules! classes {
    ($($e:expr),* $(,)?) => {{ $(let _ = &$e;)* $crate::Classes }};
}

pub trait ToHtml {
    fn to_html(self) -> Html;
}
impl ToHtml for Html {
    fn to_html(self) -> Html {
        self
    }
}
impl<T: ToHtml> ToHtml for Vec<T> {
    fn to_html(self) -> Html {
        Html::List(self.into_iter().map(T::to_html).collect())
    }
}
impl ToHtml for () {
    fn to_html(self) -> Html {
        Html::default()
    }
}
impl ToHtml for Children {
    fn to_html(self) -> Html {
        Html::List(self.0)
    }
}
impl<T: ToHtml> ToHtml for Option<T> {
    fn to_html(self) -> Html {
        self.map(T::to_html).unwrap_or_default()
    }
}
impl<T: ToHtml + Clone> ToHtml for &T {
    fn to_html(self) -> Html {
        self.clone().to_html()
    }
}
macro_rules! texts {
    ($($t:ty)*) => { $(impl ToHtml for $t { fn to_html(self) -> Html { Html::Text(self.to_string()) } })* };
}
texts!(&str String AttrValue std::borrow::Cow<'_, str> std::rc::Rc<str> char bool u8 u16 u32 u64 u128 usize i8 i16 i32 i64 isize f32 f64);
pub type AttrValue = implicit_clone::unsync::IString;

// Components

pub struct Scope<C: Component>(u64, std::marker::PhantomData<fn() -> C>);
impl<C: Component> Clone for Scope<C> {
    fn clone(&self) -> Self {
        Scope(self.0, std::marker::PhantomData)
    }
}
impl<C: Component> Scope<C> {
    pub fn send_message(&self, m: impl Into<C::Message>) {
        let m: C::Message = m.into();
        MESSAGES.with_borrow_mut(|q| q.push_back((self.0, Box::new(m))));
    }
    pub fn send_message_batch(&self, m: Vec<C::Message>) {
        m.into_iter().for_each(|m| self.send_message(m));
    }
    pub fn callback_future<IN, M: Into<C::Message>, FU: std::future::Future<Output = M> + 'static>(&self, f: impl Fn(IN) -> FU + 'static) -> Callback<IN> {
        let s = self.clone();
        Callback(Rc::new(move |x| s.send_future(f(x))))
    }
    pub fn batch_callback<IN, O: IntoIterator<Item = C::Message>>(&self, f: impl Fn(IN) -> O + 'static) -> Callback<IN> {
        let s = self.clone();
        Callback(Rc::new(move |x| f(x).into_iter().for_each(|m| s.send_message(m))))
    }
    pub fn callback<IN, M: Into<C::Message>, F: Fn(IN) -> M + 'static>(&self, f: F) -> Callback<IN> {
        let s = self.clone();
        Callback(Rc::new(move |x| s.send_message(f(x))))
    }
    pub fn send_future<M: Into<C::Message>>(&self, f: impl std::future::Future<Output = M> + 'static) {
        let s = self.clone();
        rt::spawn(async move { s.send_message(f.await) })
    }
}
pub struct Context<C: Component> {
    scope: Scope<C>,
    props: Rc<C::Properties>,
}
impl<C: Component> Context<C> {
    pub fn link(&self) -> &Scope<C> {
        &self.scope
    }
    pub fn props(&self) -> &C::Properties {
        &self.props
    }
}
pub trait Component: Sized + 'static {
    type Message: 'static;
    type Properties: Properties + 'static;
    fn create(ctx: &Context<Self>) -> Self;
    fn update(&mut self, _ctx: &Context<Self>, _msg: Self::Message) -> bool {
        true
    }
    fn changed(&mut self, _ctx: &Context<Self>, _old: &Self::Properties) -> bool {
        true
    }
    fn view(&self, ctx: &Context<Self>) -> Html;
    fn rendered(&mut self, _ctx: &Context<Self>, _first: bool) {}
    fn destroy(&mut self, _ctx: &Context<Self>) {}
}

trait Instance {
    fn set(&self, props: Rc<dyn Any>);
    fn view(&self) -> Html;
    fn deliver(&self, m: Box<dyn Any>) -> bool;
}
struct Live<C: Component> {
    comp: RefCell<C>,
    ctx: RefCell<Context<C>>,
    hooks: Rc<RefCell<Vec<Rc<dyn Any>>>>,
}
impl<C: Component> Instance for Live<C> {
    fn set(&self, props: Rc<dyn Any>) {
        let props: Rc<C::Properties> = props.downcast().unwrap();
        let old = std::mem::replace(&mut self.ctx.borrow_mut().props, props);
        self.comp.borrow_mut().changed(&self.ctx.borrow(), &old);
    }
    fn view(&self) -> Html {
        let old = HOOKS.replace(Some((self.hooks.clone(), 0)));
        let h = self.comp.borrow().view(&self.ctx.borrow());
        HOOKS.set(old);
        h
    }
    fn deliver(&self, m: Box<dyn Any>) -> bool {
        self.comp.borrow_mut().update(&self.ctx.borrow(), *m.downcast().unwrap())
    }
}
type Make = fn(u64, Rc<dyn Any>) -> Rc<dyn Instance>;
#[derive(Clone)]
pub struct Spec {
    ty: TypeId,
    props: Rc<dyn Any>,
    make: Make,
}
pub fn component<C: Component>(props: C::Properties) -> Html {
    fn make<C: Component>(id: u64, props: Rc<dyn Any>) -> Rc<dyn Instance> {
        let ctx = Context::<C> { scope: Scope(id, std::marker::PhantomData), props: props.downcast().unwrap() };
        let comp = C::create(&ctx);
        Rc::new(Live { comp: RefCell::new(comp), ctx: RefCell::new(ctx), hooks: Rc::default() })
    }
    Html::Component(Spec { ty: TypeId::of::<C>(), props: Rc::new(props), make: make::<C> })
}

type Hooks = (Rc<RefCell<Vec<Rc<dyn Any>>>>, usize);
thread_local! {
    static MESSAGES: RefCell<VecDeque<(u64, Box<dyn Any>)>> = const { RefCell::new(VecDeque::new()) };
    static HOOKS: RefCell<Option<Hooks>> = const { RefCell::new(None) };
    static DIRTY: Cell<bool> = const { Cell::new(true) };
    static LIVE: RefCell<HashMap<(String, TypeId), (u64, Rc<dyn Instance>)>> = RefCell::default();
    static NEXT: Cell<u64> = const { Cell::new(1) };
}

pub struct UseStateHandle<T> {
    cell: Rc<RefCell<Rc<T>>>,
    value: Rc<T>,
}
impl<T> Clone for UseStateHandle<T> {
    fn clone(&self) -> Self {
        UseStateHandle { cell: self.cell.clone(), value: self.value.clone() }
    }
}
impl<T> std::ops::Deref for UseStateHandle<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.value
    }
}
impl<T> UseStateHandle<T> {
    pub fn set(&self, v: T) {
        *self.cell.borrow_mut() = Rc::new(v);
        DIRTY.set(true);
    }
}
fn hook<T: 'static>(init: impl FnOnce() -> T) -> Rc<T> {
    let (v, i) = HOOKS.with_borrow_mut(|h| {
        let h = h.as_mut().expect("a hook outside of a component");
        h.1 += 1;
        (h.0.clone(), h.1 - 1)
    });
    if v.borrow().len() == i {
        let n: Rc<dyn Any> = Rc::new(init());
        v.borrow_mut().push(n);
    }
    let x = v.borrow()[i].clone();
    x.downcast().ok().expect("hooks in the same order")
}
pub fn use_state<T: 'static>(init: impl FnOnce() -> T) -> UseStateHandle<T> {
    let c = hook(|| Rc::new(RefCell::new(Rc::new(init()))));
    let value = c.borrow().clone();
    UseStateHandle { cell: (*c).clone(), value }
}
pub fn use_state_eq<T: 'static + PartialEq>(init: impl FnOnce() -> T) -> UseStateHandle<T> {
    use_state(init)
}

pub struct Renderer<C>(std::marker::PhantomData<C>);
impl<C: Component<Properties = ()>> Renderer<C> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Renderer(std::marker::PhantomData)
    }
    pub fn render(self) {
        drive::drive(component::<C>(()))
    }
}

pub(crate) enum Item {
    Text(String),
    Button(String, bool, Callback<MouseEvent>),
    Callout(Option<String>, Vec<Item>),
    Progress(i64),
}
/// Lays out the components and what they show.
pub(crate) fn render(root: &Html) -> Vec<Item> {
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    walk(root, "", &mut seen, &mut out);
    let gone = LIVE.with_borrow_mut(|l| l.extract_if_not_in(&seen));
    drop(gone);
    out
}
trait Extract {
    fn extract_if_not_in(&mut self, seen: &BTreeSet<u64>) -> Vec<Rc<dyn Instance>>;
}
impl Extract for HashMap<(String, TypeId), (u64, Rc<dyn Instance>)> {
    fn extract_if_not_in(&mut self, seen: &BTreeSet<u64>) -> Vec<Rc<dyn Instance>> {
        let keys: Vec<_> = self.iter().filter(|(_, v)| !seen.contains(&v.0)).map(|(k, _)| k.clone()).collect();
        keys.iter().map(|k| self.remove(k).unwrap().1).collect()
    }
}
fn walk(h: &Html, path: &str, seen: &mut BTreeSet<u64>, out: &mut Vec<Item>) {
    let mut all = |v: &[Html], out: &mut Vec<Item>| {
        for (i, c) in v.iter().enumerate() {
            walk(c, &format!("{path}/{i}"), seen, out);
        }
    };
    match h {
        Html::Text(s) => out.push(Item::Text(s.clone())),
        Html::List(v) => all(v, out),
        Html::Element { onclick, disabled, children, .. } => match onclick {
            None => all(children, out),
            Some(cb) => {
                let mut inner = vec![];
                all(children, &mut inner);
                let label = inner.iter().filter_map(|i| if let Item::Text(t) = i { Some(t.as_str()) } else { None }).collect::<Vec<_>>().join(" ");
                out.push(Item::Button(label, *disabled, cb.clone()));
            }
        },
        Html::Callout(k, v) => {
            let mut inner = vec![];
            all(v, &mut inner);
            out.push(Item::Callout(k.clone(), inner));
        }
        Html::Progress(n) => out.push(Item::Progress(*n)),
        Html::Hidden(h) => walk(h, path, seen, &mut vec![]),
        Html::Component(s) => {
            let key = (path.to_string(), s.ty);
            let known = LIVE.with_borrow(|l| l.get(&key).cloned());
            let (id, inst) = match known {
                Some((id, i)) => {
                    i.set(s.props.clone());
                    (id, i)
                }
                None => {
                    let id = NEXT.replace(NEXT.get() + 1);
                    let i = (s.make)(id, s.props.clone());
                    LIVE.with_borrow_mut(|l| l.insert(key, (id, i.clone())));
                    (id, i)
                }
            };
            seen.insert(id);
            let v = inst.view();
            walk(&v, &format!("{path}/c"), seen, out);
        }
    }
}
/// Hands over the next message; false if there is none.
pub(crate) fn deliver() -> bool {
    let Some((id, m)) = MESSAGES.with_borrow_mut(|q| q.pop_front()) else { return false };
    let inst = LIVE.with_borrow(|l| l.values().find(|v| v.0 == id).map(|v| v.1.clone()));
    if let Some(i) = inst {
        if i.deliver(m) {
            DIRTY.set(true);
        }
    }
    true
}
pub(crate) fn dirty() -> bool {
    DIRTY.replace(false)
}

pub use Component as BaseComponent;
pub mod html {
    pub use crate::{BaseComponent, Children, Classes, Component, Context, Html, IntoPropValue, Properties, Scope};
    pub use implicit_clone::ImplicitClone;
}
pub mod virtual_dom {
    pub use crate::{AttrValue, Html as VNode};
}
pub mod callback {
    pub use crate::Callback;
}
pub mod events {
    pub use crate::MouseEvent;
}
pub mod prelude {
    pub use crate::{
        classes, function_component, html, use_state, use_state_eq, AttrValue, BaseComponent, Callback, Children, Classes, Component, Context, Html,
        MouseEvent, Properties, UseStateHandle,
    };
}
