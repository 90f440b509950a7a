//! A small yew without a browser: components with messages and properties, rendered into a tree that
//! a simulated user looks at. As in yew, messages are handled in the order they were sent, after the
//! code that sent them has returned; then what changed is rendered.
use std::any::{Any, TypeId};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::rc::Rc;

pub struct Callback<IN, OUT = ()>(Rc<dyn Fn(IN) -> OUT>);
impl<IN, OUT> Clone for Callback<IN, OUT> {
    fn clone(&self) -> Self {
        Callback(self.0.clone())
    }
}
impl<IN, OUT> PartialEq for Callback<IN, OUT> {
    fn eq(&self, o: &Self) -> bool {
        Rc::ptr_eq(&self.0, &o.0)
    }
}
impl<IN, OUT, F: Fn(IN) -> OUT + 'static> From<F> for Callback<IN, OUT> {
    fn from(f: F) -> Self {
        Callback(Rc::new(f))
    }
}
impl<IN> Default for Callback<IN> {
    fn default() -> Self {
        Self::noop()
    }
}
impl<IN, OUT> std::fmt::Debug for Callback<IN, OUT> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Callback<_>")
    }
}
impl<IN> Callback<IN> {
    pub fn noop() -> Self {
        Callback(Rc::new(|_| ()))
    }
}
impl<IN: 'static, OUT: 'static> Callback<IN, OUT> {
    pub fn emit(&self, v: IN) -> OUT {
        (self.0)(v)
    }
    pub fn reform<F, T>(&self, f: F) -> Callback<T, OUT>
    where
        F: Fn(T) -> IN + 'static,
    {
        let this = self.clone();
        Callback(Rc::new(move |x| this.emit(f(x))))
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MouseEvent;
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Classes;

// ---- components

pub trait Properties: PartialEq {
    type Builder;
    fn builder() -> Self::Builder;
}
impl Properties for () {
    type Builder = Unit;
    fn builder() -> Unit {
        Unit
    }
}
pub struct Unit;
impl Unit {
    pub fn build(self) {}
}
pub trait IntoPropValue<T> {
    fn into_prop_value(self) -> T;
}
impl<T> IntoPropValue<T> for T {
    fn into_prop_value(self) -> T {
        self
    }
}
impl<T: Clone> IntoPropValue<T> for &T {
    fn into_prop_value(self) -> T {
        self.clone()
    }
}
impl<T> IntoPropValue<Option<T>> for T {
    fn into_prop_value(self) -> Option<T> {
        Some(self)
    }
}
impl IntoPropValue<String> for &'static str {
    fn into_prop_value(self) -> String {
        self.into()
    }
}
impl IntoPropValue<Option<String>> for &'static str {
    fn into_prop_value(self) -> Option<String> {
        Some(self.into())
    }
}
impl<I, O, F: Fn(I) -> O + 'static> IntoPropValue<Callback<I, O>> for F {
    fn into_prop_value(self) -> Callback<I, O> {
        Callback::from(self)
    }
}

pub trait Component: Sized + 'static {
    type Message: 'static;
    type Properties: Properties + 'static;
    fn create(ctx: &Context<Self>) -> Self;
    #[allow(unused_variables)]
    fn update(&mut self, ctx: &Context<Self>, msg: Self::Message) -> bool {
        true
    }
    #[allow(unused_variables)]
    fn changed(&mut self, ctx: &Context<Self>, old: &Self::Properties) -> bool {
        true
    }
    fn view(&self, ctx: &Context<Self>) -> Html;
    #[allow(unused_variables)]
    fn rendered(&mut self, ctx: &Context<Self>, first: bool) {}
    #[allow(unused_variables)]
    fn destroy(&mut self, ctx: &Context<Self>) {}
}

pub struct Context<C: Component> {
    link: Scope<C>,
    props: Rc<C::Properties>,
}
impl<C: Component> Context<C> {
    pub fn link(&self) -> &Scope<C> {
        &self.link
    }
    pub fn props(&self) -> &C::Properties {
        &self.props
    }
}

struct Inner<C: Component> {
    state: RefCell<Option<C>>,
    props: RefCell<Rc<C::Properties>>,
    tree: RefCell<Inst>,
    dirty: Cell<bool>,
}
pub struct Scope<C: Component>(Rc<Inner<C>>);
impl<C: Component> Clone for Scope<C> {
    fn clone(&self) -> Self {
        Scope(self.0.clone())
    }
}
impl<C: Component> Scope<C> {
    fn ctx(&self) -> Context<C> {
        Context { link: self.clone(), props: self.0.props.borrow().clone() }
    }
    pub fn send_message(&self, m: impl Into<C::Message>) {
        let (this, m) = (self.clone(), m.into());
        schedule(Box::new(move || {
            let changed = match &mut *this.0.state.borrow_mut() {
                Some(s) => s.update(&this.ctx(), m),
                None => false,
            };
            if changed {
                this.render();
            }
        }));
    }
    pub fn send_message_batch(&self, l: Vec<C::Message>) {
        for m in l {
            self.send_message(m);
        }
    }
    pub fn callback<F, IN, M>(&self, f: F) -> Callback<IN>
    where
        M: Into<C::Message>,
        F: Fn(IN) -> M + 'static,
    {
        let this = self.clone();
        Callback(Rc::new(move |x| this.send_message(f(x))))
    }
    pub fn batch_callback<F, IN, L>(&self, f: F) -> Callback<IN>
    where
        L: IntoIterator<Item = C::Message>,
        F: Fn(IN) -> L + 'static,
    {
        let this = self.clone();
        Callback(Rc::new(move |x| {
            for m in f(x) {
                this.send_message(m)
            }
        }))
    }
    pub fn send_future<F, M>(&self, f: F)
    where
        M: Into<C::Message>,
        F: Future<Output = M> + 'static,
    {
        let this = self.clone();
        spawn(Box::pin(async move {
            let m = f.await;
            this.send_message(m)
        }));
    }
    pub fn callback_future<F, U, IN, M>(&self, f: F) -> Callback<IN>
    where
        M: Into<C::Message>,
        U: Future<Output = M> + 'static,
        F: Fn(IN) -> U + 'static,
    {
        let this = self.clone();
        Callback(Rc::new(move |x| this.send_future(f(x))))
    }
    fn render(&self) {
        if !self.0.dirty.replace(true) {
            let this = self.clone();
            RENDERS.with(|q| q.borrow_mut().push_back(Box::new(move || this.render_now())));
        }
    }
    fn render_now(&self) {
        if !self.0.dirty.replace(false) {
            return;
        }
        let html = match &*self.0.state.borrow() {
            Some(s) => s.view(&self.ctx()),
            None => return,
        };
        let old = std::mem::replace(&mut *self.0.tree.borrow_mut(), Inst::Nothing);
        let first = matches!(old, Inst::Nothing);
        let new = reconcile(Some(old), html);
        *self.0.tree.borrow_mut() = new;
        if let Some(s) = &mut *self.0.state.borrow_mut() {
            s.rendered(&self.ctx(), first);
        }
    }
}

type Job = Box<dyn FnOnce()>;
type Spawn = fn(std::pin::Pin<Box<dyn Future<Output = ()>>>);
thread_local! {
    static MESSAGES: RefCell<VecDeque<Job>> = const { RefCell::new(VecDeque::new()) };
    static RENDERS: RefCell<VecDeque<Job>> = const { RefCell::new(VecDeque::new()) };
    static SPAWN: Cell<Option<Spawn>> = const { Cell::new(None) };
}
fn schedule(j: Job) {
    MESSAGES.with(|q| q.borrow_mut().push_back(j))
}
pub fn set_spawn(f: Spawn) {
    SPAWN.with(|s| s.set(Some(f)))
}
fn spawn(f: std::pin::Pin<Box<dyn Future<Output = ()>>>) {
    (SPAWN.with(|s| s.get()).expect("nothing runs futures"))(f)
}
/// Handles all messages, then renders, until nothing is left to do; false if there was nothing to do.
pub fn settle() -> bool {
    let mut any = false;
    loop {
        let job = MESSAGES.with(|q| q.borrow_mut().pop_front()).or_else(|| RENDERS.with(|q| q.borrow_mut().pop_front()));
        match job {
            Some(j) => j(),
            None => return any,
        }
        any = true;
    }
}

pub trait Mounted {
    fn definition(&self) -> TypeId;
    fn set_props(&self, p: Rc<dyn Any>);
    fn destroy(&self);
    fn look(&self, f: &mut dyn FnMut(&Inst));
}
impl<C: Component> Mounted for Scope<C> {
    fn definition(&self) -> TypeId {
        TypeId::of::<C>()
    }
    fn set_props(&self, p: Rc<dyn Any>) {
        let new = p.downcast::<C::Properties>().ok().unwrap();
        if *self.0.props.borrow() == new {
            return;
        }
        let old = std::mem::replace(&mut *self.0.props.borrow_mut(), new);
        let changed = match &mut *self.0.state.borrow_mut() {
            Some(s) => s.changed(&self.ctx(), &old),
            None => false,
        };
        if changed {
            self.render();
        }
    }
    fn destroy(&self) {
        let Some(mut s) = self.0.state.borrow_mut().take() else { return };
        s.destroy(&self.ctx());
        destroy(std::mem::replace(&mut *self.0.tree.borrow_mut(), Inst::Nothing));
    }
    fn look(&self, f: &mut dyn FnMut(&Inst)) {
        f(&self.0.tree.borrow())
    }
}
fn mount<C: Component>(p: Rc<dyn Any>) -> Box<dyn Mounted> {
    let props = p.downcast::<C::Properties>().ok().unwrap();
    let s = Scope::<C>(Rc::new(Inner {
        state: RefCell::new(None),
        props: RefCell::new(props),
        tree: RefCell::new(Inst::Nothing),
        dirty: Cell::new(false),
    }));
    let c = C::create(&s.ctx());
    *s.0.state.borrow_mut() = Some(c);
    s.render();
    Box::new(s)
}

// ---- what a component shows

#[derive(Clone, Default)]
pub enum Html {
    #[default]
    Nothing,
    Text(String),
    List(Vec<Html>),
    /// an element of the page, with what matters of its attributes
    Elem(&'static str, Look, Box<Html>),
    Comp(TypeId, Rc<dyn Any>, fn(Rc<dyn Any>) -> Box<dyn Mounted>),
}
impl PartialEq for Html {
    fn eq(&self, _: &Self) -> bool {
        false
    }
}
#[derive(Clone, Default)]
pub struct Look {
    pub disabled: bool,
    pub intent: String,
    pub value: f64,
    pub onclick: Callback<MouseEvent>,
}
pub type Children = Html;
pub type AttrValue = String;
pub fn component<C: Component>(p: C::Properties) -> Html {
    Html::Comp(TypeId::of::<C>(), Rc::new(p), mount::<C>)
}
pub trait IntoHtml {
    fn into_html(self) -> Html;
}
impl IntoHtml for Html {
    fn into_html(self) -> Html {
        self
    }
}
impl IntoHtml for &Html {
    fn into_html(self) -> Html {
        self.clone()
    }
}
macro_rules! text {
    ($($t:ty)*) => {$(impl IntoHtml for $t { fn into_html(self) -> Html { Html::Text(self.to_string()) } })*};
}
text!(String &String &str &&str char bool u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64);
impl<T: IntoHtml> IntoHtml for Option<T> {
    fn into_html(self) -> Html {
        self.map_or(Html::Nothing, T::into_html)
    }
}
impl<T: IntoHtml> IntoHtml for Vec<T> {
    fn into_html(self) -> Html {
        Html::List(self.into_iter().map(T::into_html).collect())
    }
}
impl<T: IntoHtml> FromIterator<T> for Html {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Html::List(i.into_iter().map(T::into_html).collect())
    }
}

#[doc(hidden)]
pub enum Inst {
    Nothing,
    Text(String),
    List(Vec<Inst>),
    Elem(&'static str, Look, Box<Inst>),
    Comp(Box<dyn Mounted>),
}
fn destroy(i: Inst) {
    match i {
        Inst::List(l) => l.into_iter().for_each(destroy),
        Inst::Elem(_, _, c) => destroy(*c),
        Inst::Comp(c) => c.destroy(),
        _ => {}
    }
}
/// What is there stays if the new tree has the same at the same place.
fn reconcile(old: Option<Inst>, new: Html) -> Inst {
    match (old, new) {
        (Some(Inst::List(o)), Html::List(n)) => {
            let mut o = o.into_iter();
            let l = n.into_iter().map(|n| reconcile(o.next(), n)).collect();
            o.for_each(destroy);
            Inst::List(l)
        }
        (Some(Inst::Elem(a, _, o)), Html::Elem(b, k, n)) if a == b => Inst::Elem(b, k, Box::new(reconcile(Some(*o), *n))),
        (Some(Inst::Comp(c)), Html::Comp(t, p, _)) if c.definition() == t => {
            c.set_props(p);
            Inst::Comp(c)
        }
        (old, new) => {
            if let Some(o) = old {
                destroy(o);
            }
            match new {
                Html::Nothing => Inst::Nothing,
                Html::Text(t) => Inst::Text(t),
                Html::List(l) => Inst::List(l.into_iter().map(|n| reconcile(None, n)).collect()),
                Html::Elem(t, k, c) => Inst::Elem(t, k, Box::new(reconcile(None, *c))),
                Html::Comp(_, p, m) => Inst::Comp(m(p)),
            }
        }
    }
}

/// A page on the screen.
pub struct Page(Inst);
impl Page {
    pub fn open<C: Component>(p: C::Properties) -> Self {
        let r = Page(reconcile(None, component::<C>(p)));
        settle();
        r
    }
    pub fn close(self) {
        destroy(self.0);
        settle();
    }
    /// Visits all that is shown in order; the second argument of the visitor is false at the end of an element.
    pub fn visit(&self, f: &mut dyn FnMut(Shown, bool)) {
        visit(&self.0, f)
    }
}
pub enum Shown<'a> {
    Text(&'a str),
    Elem(&'static str, &'a Look),
}
fn visit(i: &Inst, f: &mut dyn FnMut(Shown, bool)) {
    match i {
        Inst::Nothing => {}
        Inst::Text(t) => f(Shown::Text(t), true),
        Inst::List(l) => l.iter().for_each(|i| visit(i, f)),
        Inst::Elem(t, k, c) => {
            f(Shown::Elem(t, k), true);
            visit(c, f);
            f(Shown::Elem(t, k), false);
        }
        Inst::Comp(c) => c.look(&mut |i| visit(i, f)),
    }
}

pub mod html {
    pub use crate::{IntoPropValue, Scope};
}
pub mod virtual_dom {
    pub use crate::AttrValue;
}
pub mod prelude {
    pub use crate::{AttrValue, Callback, Children, Classes, Component, Context, Html, MouseEvent};
    pub use web_macros::{html, Properties};
}
pub use prelude::*;
