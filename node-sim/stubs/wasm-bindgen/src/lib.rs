//! Stand-in for wasm-bindgen: JavaScript values as plain data, imported functions answered by the simulator.
pub use wasm_bindgen_macro::wasm_bindgen;

#[derive(Clone, Debug, PartialEq)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    String(String),
    Array(Vec<JsValue>),
    Error(String),
    BigInt(String),
    Bytes(Vec<u8>),
    Map(Vec<(String, JsValue)>),
    Object(Object),
}
/// a Rust value that JavaScript holds
#[derive(Clone)]
pub struct Object(pub std::rc::Rc<dyn std::any::Any>);
impl std::fmt::Debug for Object {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Object")
    }
}
impl PartialEq for Object {
    fn eq(&self, o: &Self) -> bool {
        std::ptr::addr_eq(std::rc::Rc::as_ptr(&self.0), std::rc::Rc::as_ptr(&o.0))
    }
}
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::String(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Number(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        *self == JsValue::Undefined
    }
    pub fn is_null(&self) -> bool {
        *self == JsValue::Null
    }
    pub fn object<T: 'static>(x: T) -> JsValue {
        JsValue::Object(Object(std::rc::Rc::new(x)))
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue::Number(n)
    }
    pub fn is_object(&self) -> bool {
        matches!(self, JsValue::Object(_) | JsValue::Map(_) | JsValue::Array(_) | JsValue::Error(_) | JsValue::Bytes(_))
    }
    pub fn is_string(&self) -> bool {
        matches!(self, JsValue::String(_))
    }
    pub fn from_str(s: &str) -> JsValue {
        JsValue::String(s.into())
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::String(s.into())
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::String(s)
    }
}
impl From<f64> for JsValue {
    fn from(n: f64) -> Self {
        JsValue::Number(n)
    }
}

impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        JsValue::Bool(b)
    }
}

#[derive(Clone, Debug)]
pub struct JsError(pub String);
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        JsValue::Error(e.0)
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        JsError(e.to_string())
    }
}
impl JsError {
    pub fn new(s: &str) -> Self {
        JsError(s.into())
    }
}

pub mod prelude {
    pub use crate::{wasm_bindgen, JsError, JsValue};
}

pub mod sim {
    use super::JsValue;
    use std::future::Future;
    use std::pin::Pin;

    pub type Answer = Pin<Box<dyn Future<Output = Result<JsValue, JsValue>>>>;
    thread_local!(static HOST: std::cell::RefCell<Option<Box<dyn Fn(&str, &str, Vec<JsValue>) -> Answer>>> = const { std::cell::RefCell::new(None) });
    /// the simulator's JavaScript side
    pub fn set_host(f: impl Fn(&str, &str, Vec<JsValue>) -> Answer + 'static) {
        HOST.with(|h| *h.borrow_mut() = Some(Box::new(f)));
    }
    thread_local!(static NOW: std::cell::RefCell<Option<std::rc::Rc<dyn Fn(&str, Vec<JsValue>) -> JsValue>>> = const { std::cell::RefCell::new(None) });
    /// JavaScript functions and methods that answer at once
    pub fn set_now(f: impl Fn(&str, Vec<JsValue>) -> JsValue + 'static) {
        NOW.with(|h| *h.borrow_mut() = Some(std::rc::Rc::new(f)));
    }
    pub fn call_now(_module: &str, name: &str, args: Vec<JsValue>) -> JsValue {
        let f = NOW.with(|h| h.borrow().clone());
        f.expect("no JavaScript side")(name, args)
    }
    pub fn call_method(this: &JsValue, name: &str, mut args: Vec<JsValue>) -> JsValue {
        args.insert(0, this.clone());
        call_now("", name, args)
    }
    pub fn get(this: &JsValue, name: &str) -> JsValue {
        match this {
            JsValue::Map(m) => m.iter().rev().find(|x| x.0 == name).map_or(JsValue::Undefined, |x| x.1.clone()),
            _ => JsValue::Undefined,
        }
    }
    pub trait FromJs {
        fn from_js(v: JsValue) -> Self;
    }
    impl FromJs for JsValue {
        fn from_js(v: JsValue) -> Self {
            v
        }
    }
    impl FromJs for () {
        fn from_js(_: JsValue) -> Self {}
    }
    impl FromJs for String {
        fn from_js(v: JsValue) -> Self {
            v.as_string().expect("a TypeError is thrown: not a string")
        }
    }
    impl FromJs for bool {
        fn from_js(v: JsValue) -> Self {
            v.as_bool().unwrap_or(false)
        }
    }
    macro_rules! num_from { ($($t:ty)*) => { $(impl FromJs for $t { fn from_js(v: JsValue) -> Self { v.as_f64().unwrap_or(0.0) as i64 as $t } })* } }
    num_from!(u8 u16 u32 usize i32);
    impl FromJs for f64 {
        fn from_js(v: JsValue) -> Self {
            v.as_f64().unwrap_or(f64::NAN)
        }
    }
    impl<T: FromJs> FromJs for Option<T> {
        fn from_js(v: JsValue) -> Self {
            if v.is_undefined() || v.is_null() {
                None
            } else {
                Some(T::from_js(v))
            }
        }
    }
    pub async fn call(module: &str, name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
        let f = HOST.with(|h| h.borrow().as_ref().expect("no JavaScript side")(module, name, args));
        f.await
    }
    pub trait ToJs {
        fn to_js(self) -> JsValue;
    }
    impl ToJs for JsValue {
        fn to_js(self) -> JsValue {
            self
        }
    }
    impl ToJs for &JsValue {
        fn to_js(self) -> JsValue {
            self.clone()
        }
    }
    impl ToJs for &str {
        fn to_js(self) -> JsValue {
            self.into()
        }
    }
    impl ToJs for String {
        fn to_js(self) -> JsValue {
            self.into()
        }
    }
    impl ToJs for bool {
        fn to_js(self) -> JsValue {
            JsValue::Bool(self)
        }
    }
    macro_rules! num { ($($t:ty)*) => { $(impl ToJs for $t { fn to_js(self) -> JsValue { JsValue::Number(self as f64) } })* } }
    num!(u8 u16 u32 usize i32 f64 u64 i64);
    impl<T: ToJs> ToJs for Vec<T> {
        fn to_js(self) -> JsValue {
            JsValue::Array(self.into_iter().map(|x| x.to_js()).collect())
        }
    }
    impl<T: ToJs> ToJs for Option<T> {
        fn to_js(self) -> JsValue {
            self.map(|x| x.to_js()).unwrap_or(JsValue::Undefined)
        }
    }
}
