use crate::simfmt::FileData;
use crate::world;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone)]
pub enum JsValue {
    Undefined,
    Bool(bool),
    Num(f64),
    Str(String),
    Obj(Rc<Obj>),
}
pub enum Obj {
    Plain(BTreeMap<String, JsValue>),
    Array(Vec<JsValue>),
    Buffer(Vec<u8>),
    Promise(RefCell<Option<Result<JsValue, JsValue>>>),
    /// names not visited yet, of a directory
    Iter(String, RefCell<Option<Vec<String>>>),
    FileHandle(String),
    DirHandle(String),
    Blob(BlobData),
    Stream(RefCell<StreamData>),
    Function(Box<dyn Fn(JsValue)>),
    /// plain data
    Json(String),
}
/// A part of a file as it was when the file was obtained.
#[derive(Clone)]
pub struct BlobData {
    pub path: String,
    pub version: u64,
    pub data: Rc<FileData>,
    pub start: u64,
    pub end: u64,
}
pub struct StreamData {
    pub path: String,
    pub swap: FileData,
    pub pos: u64,
    pub errored: bool,
    pub closed: bool,
    /// when the last operation queued on it is done
    pub busy: u64,
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub fn obj(o: Obj) -> Self {
        JsValue::Obj(Rc::new(o))
    }
    pub fn object(v: Vec<(String, JsValue)>) -> Self {
        Self::obj(Obj::Plain(v.into_iter().collect()))
    }
    pub fn error(name: &str) -> Self {
        Self::object(vec![("name".into(), name.into())])
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Num(b) => Some(*b),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_null(&self) -> bool {
        false
    }
    /// Calls a function, which the page gave to the browser.
    pub fn call(&self, v: JsValue) {
        match self.get() {
            Obj::Function(f) => f(v),
            _ => panic!("TypeError: not a function"),
        }
    }
    pub fn json(s: String) -> Self {
        Self::obj(Obj::Json(s))
    }
    /// Plain data, as JSON.
    pub fn to_json(&self) -> String {
        match self.get() {
            Obj::Json(s) => s.clone(),
            _ => panic!("not plain data"),
        }
    }
    /// What a handle stands for.
    pub fn path(&self) -> String {
        match self.get() {
            Obj::FileHandle(p) | Obj::DirHandle(p) => p.clone(),
            _ => panic!("not a handle"),
        }
    }
    pub(crate) fn get(&self) -> &Obj {
        match self {
            JsValue::Obj(o) => o,
            _ => panic!("TypeError: not an object"),
        }
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (JsValue::Undefined, JsValue::Undefined) => true,
            (JsValue::Bool(a), JsValue::Bool(b)) => a == b,
            (JsValue::Num(a), JsValue::Num(b)) => a == b,
            (JsValue::Str(a), JsValue::Str(b)) => a == b,
            (JsValue::Obj(a), JsValue::Obj(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}
impl Eq for JsValue {}
impl std::fmt::Debug for JsValue {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            JsValue::Undefined => write!(f, "JsValue(undefined)"),
            JsValue::Bool(b) => write!(f, "JsValue({})", b),
            JsValue::Num(b) => write!(f, "JsValue({})", b),
            JsValue::Str(b) => write!(f, "JsValue({:?})", b),
            JsValue::Obj(o) => match &**o {
                Obj::Plain(m) => write!(f, "JsValue({:?})", m),
                _ => write!(f, "JsValue(object)"),
            },
        }
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::Str(s.into())
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::Str(s)
    }
}
impl From<bool> for JsValue {
    fn from(s: bool) -> Self {
        JsValue::Bool(s)
    }
}
macro_rules! num {
    ($($t:ty)*) => {$(impl From<$t> for JsValue { fn from(s: $t) -> Self { JsValue::Num(s as f64) } })*};
}
num!(f64 f32 u8 u16 u32 i8 i16 i32);
impl From<JsValue> for String {
    fn from(s: JsValue) -> Self {
        s.as_string().expect("TypeError: not a string")
    }
}

impl From<Option<String>> for JsValue {
    fn from(s: Option<String>) -> Self {
        s.map_or(JsValue::Undefined, JsValue::Str)
    }
}
impl From<JsValue> for bool {
    fn from(s: JsValue) -> Self {
        s.as_bool().expect("TypeError: not a boolean")
    }
}

pub struct Closure<T: ?Sized>(Box<T>);
impl Closure<dyn Fn(JsValue)> {
    pub fn wrap(f: Box<dyn Fn(JsValue)>) -> Self {
        Closure(f)
    }
    pub fn into_js_value(self) -> JsValue {
        JsValue::obj(Obj::Function(self.0))
    }
}

pub struct JsFuture(JsValue);
impl From<crate::js::Promise> for JsFuture {
    fn from(p: crate::js::Promise) -> Self {
        JsFuture(p.into())
    }
}
impl Future for JsFuture {
    type Output = Result<JsValue, JsValue>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let Obj::Promise(p) = self.0.get() else { panic!("not a promise") };
        match &*p.borrow() {
            Some(r) => Poll::Ready(r.clone()),
            None => {
                world::waiting(cx.waker());
                Poll::Pending
            }
        }
    }
}

/// Casts between the classes; the object itself is checked when it is used.
pub trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn unchecked_into<T: From<JsValue>>(self) -> T {
        T::from(self.into())
    }
    fn dyn_into<T: From<JsValue>>(self) -> Result<T, Self>
    where
        Self: Sized,
    {
        Ok(T::from(self.into()))
    }
}
impl<T: AsRef<JsValue> + Into<JsValue>> JsCast for T {}
