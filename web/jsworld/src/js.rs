use crate::value::*;
use std::ops::Deref;

#[macro_export]
macro_rules! class {
    ($name:ident : $parent:ty) => {
        #[derive(Clone, PartialEq, Eq, Debug)]
        pub struct $name {
            obj: $parent,
        }
        impl From<JsValue> for $name {
            fn from(v: JsValue) -> Self {
                Self { obj: v.into() }
            }
        }
        impl From<$name> for JsValue {
            fn from(v: $name) -> Self {
                v.obj.into()
            }
        }
        impl AsRef<JsValue> for $name {
            fn as_ref(&self) -> &JsValue {
                self.obj.as_ref()
            }
        }
        impl std::ops::Deref for $name {
            type Target = $parent;
            fn deref(&self) -> &$parent {
                &self.obj
            }
        }
    };
}
class!(Object: JsValue);
class!(JsString: JsValue);
class!(Array: JsValue);
class!(Promise: JsValue);
class!(Uint8Array: JsValue);
class!(AsyncIterator: JsValue);

impl From<&str> for JsString {
    fn from(s: &str) -> Self {
        JsValue::from(s).into()
    }
}
impl From<String> for JsString {
    fn from(s: String) -> Self {
        JsValue::from(s).into()
    }
}
impl Array {
    pub fn get(&self, i: u32) -> JsValue {
        match self.deref().get() {
            Obj::Array(v) => v.get(i as usize).cloned().unwrap_or(JsValue::Undefined),
            _ => panic!("not an array"),
        }
    }
    pub fn length(&self) -> u32 {
        match self.deref().get() {
            Obj::Array(v) => v.len() as u32,
            _ => panic!("not an array"),
        }
    }
}
impl Array {
    pub fn iter(&self) -> impl Iterator<Item = JsValue> + '_ {
        (0..self.length()).map(|i| self.get(i))
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.iter().collect()
    }
}
impl From<&[u8]> for Uint8Array {
    fn from(b: &[u8]) -> Self {
        JsValue::obj(Obj::Buffer(b.to_vec())).into()
    }
}
impl Uint8Array {
    pub fn new(v: &JsValue) -> Self {
        match v {
            JsValue::Num(n) => JsValue::obj(Obj::Buffer(vec![0; *n as usize])).into(),
            v => match v.get() {
                Obj::Buffer(_) => v.clone().into(),
                _ => panic!("TypeError: not a buffer"),
            },
        }
    }
    pub fn new_with_length(n: u32) -> Self {
        JsValue::obj(Obj::Buffer(vec![0; n as usize])).into()
    }
    fn bytes(&self) -> &[u8] {
        match self.deref().get() {
            Obj::Buffer(b) => b,
            _ => panic!("TypeError: not a buffer"),
        }
    }
    pub fn byte_length(&self) -> u32 {
        self.bytes().len() as u32
    }
    pub fn length(&self) -> u32 {
        self.bytes().len() as u32
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.bytes().to_vec()
    }
    pub fn copy_to(&self, dst: &mut [u8]) {
        assert_eq!(self.bytes().len(), dst.len(), "Rust slices are not the same length as the array");
        dst.copy_from_slice(self.bytes());
    }
    pub fn subarray(&self, a: u32, b: u32) -> Self {
        let n = self.bytes().len();
        let b = (b as usize).min(n);
        let a = (a as usize).min(b);
        Self::from(&self.bytes()[a..b])
    }
    pub fn slice(&self, a: u32, b: u32) -> Self {
        self.subarray(a, b)
    }
}
impl AsyncIterator {
    pub fn next(&self) -> Result<Promise, JsValue> {
        Ok(crate::world::call(self.as_ref(), "next", vec![]).into())
    }
}
pub struct Reflect;
impl Reflect {
    pub fn get(v: &(impl AsRef<JsValue> + ?Sized), k: &(impl AsRef<JsValue> + ?Sized)) -> Result<JsValue, JsValue> {
        let k = k.as_ref().as_string().expect("unsupported key");
        Ok(crate::world::get(v.as_ref(), &k))
    }
    pub fn has(v: &(impl AsRef<JsValue> + ?Sized), k: &(impl AsRef<JsValue> + ?Sized)) -> Result<bool, JsValue> {
        Ok(!Self::get(v, k)?.is_undefined())
    }
}
