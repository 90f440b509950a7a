use crate::class;
use crate::js::*;
use crate::value::*;
class!(Blob: JsValue);
class!(File: Blob);
class!(WritableStream: Object);

impl File {
    pub fn name(&self) -> String {
        crate::world::get(self.as_ref(), "name").as_string().unwrap_or_default()
    }
}

impl Blob {
    fn data(&self) -> &BlobData {
        let v: &JsValue = self.as_ref();
        match v {
            JsValue::Obj(o) => match &**o {
                Obj::Blob(b) => b,
                _ => panic!("TypeError: not a blob"),
            },
            _ => panic!("TypeError: not a blob"),
        }
    }
    pub fn size(&self) -> f64 {
        let b = self.data();
        (b.end - b.start) as f64
    }
    pub fn slice_with_f64_and_f64_and_content_type(&self, a: f64, b: f64, _: &str) -> Result<Blob, JsValue> {
        self.slice_with_f64_and_f64(a, b)
    }
    pub fn slice_with_f64_and_f64(&self, a: f64, b: f64) -> Result<Blob, JsValue> {
        let d = self.data();
        let size = (d.end - d.start) as f64;
        // relative to the end if negative, and clamped, as Blob.slice() does
        let clamp = |x: f64| if x < 0.0 { (size + x).max(0.0) } else { x.min(size) };
        let (a, b) = (clamp(a) as u64, clamp(b) as u64);
        let mut n = d.clone();
        n.start = d.start + a;
        n.end = d.start + a.max(b);
        Ok(JsValue::obj(Obj::Blob(n)).into())
    }
    pub fn slice(&self) -> Result<Blob, JsValue> {
        self.slice_with_f64_and_f64(0.0, f64::MAX)
    }
    pub fn slice_with_f64(&self, a: f64) -> Result<Blob, JsValue> {
        self.slice_with_f64_and_f64(a, f64::MAX)
    }
    pub fn slice_with_i32_and_i32(&self, a: i32, b: i32) -> Result<Blob, JsValue> {
        self.slice_with_f64_and_f64(a as f64, b as f64)
    }
    pub fn array_buffer(&self) -> Promise {
        crate::world::call(self.as_ref(), "arrayBuffer", vec![]).into()
    }
}
impl WritableStream {
    pub fn close(&self) -> Promise {
        crate::world::call(self.as_ref(), "close", vec![]).into()
    }
    pub fn abort(&self) -> Promise {
        crate::world::call(self.as_ref(), "abort", vec![]).into()
    }
}
