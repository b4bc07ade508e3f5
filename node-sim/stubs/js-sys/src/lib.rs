//! Stand-in for js-sys: the few types that the backends use.
use wasm_bindgen::{sim::ToJs, JsValue};

#[derive(Clone, Debug, PartialEq)]
pub struct JsString(String);
impl From<&str> for JsString {
    fn from(s: &str) -> Self {
        JsString(s.into())
    }
}
impl From<String> for JsString {
    fn from(s: String) -> Self {
        JsString(s)
    }
}
impl From<JsString> for JsValue {
    fn from(s: JsString) -> Self {
        JsValue::String(s.0)
    }
}
impl From<JsString> for String {
    fn from(s: JsString) -> Self {
        s.0
    }
}
impl ToJs for JsString {
    fn to_js(self) -> JsValue {
        self.into()
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Array(std::rc::Rc<std::cell::RefCell<Vec<JsValue>>>);
impl Array {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn new_with_length(n: u32) -> Self {
        vec![JsValue::Undefined; n as usize].into_iter().collect()
    }
    pub fn length(&self) -> u32 {
        self.0.borrow().len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.0.borrow().get(i as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn set(&self, i: u32, v: JsValue) {
        let mut a = self.0.borrow_mut();
        if a.len() <= i as usize {
            a.resize(i as usize + 1, JsValue::Undefined);
        }
        a[i as usize] = v;
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        self.0.borrow_mut().push(v.clone());
        self.length()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.0.borrow().clone()
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn is_array(v: &JsValue) -> bool {
        matches!(v, JsValue::Array(_))
    }
}
impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a> IntoIterator for &'a Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<T: Into<JsValue>> FromIterator<T> for Array {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Array(std::rc::Rc::new(std::cell::RefCell::new(i.into_iter().map(|x| x.into()).collect())))
    }
}
impl<T: Into<JsValue>> Extend<T> for Array {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        self.0.borrow_mut().extend(i.into_iter().map(|x| x.into()))
    }
}
impl From<Array> for JsValue {
    fn from(a: Array) -> JsValue {
        JsValue::Array(a.to_vec())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Uint8Array(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl Uint8Array {
    pub fn new_with_length(n: u32) -> Self {
        vec![0; n as usize].as_slice().into()
    }
    pub fn length(&self) -> u32 {
        self.0.borrow().len() as u32
    }
    pub fn copy_from(&self, x: &[u8]) {
        self.0.borrow_mut().copy_from_slice(x)
    }
    pub fn copy_to(&self, x: &mut [u8]) {
        x.copy_from_slice(&self.0.borrow())
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.borrow().clone()
    }
    pub fn get_index(&self, i: u32) -> u8 {
        self.0.borrow().get(i as usize).copied().unwrap_or(0)
    }
    pub fn set_index(&self, i: u32, v: u8) {
        if let Some(x) = self.0.borrow_mut().get_mut(i as usize) {
            *x = v
        }
    }
}
impl From<&[u8]> for Uint8Array {
    fn from(x: &[u8]) -> Self {
        Uint8Array(std::rc::Rc::new(std::cell::RefCell::new(x.to_vec())))
    }
}
impl From<Uint8Array> for JsValue {
    fn from(a: Uint8Array) -> JsValue {
        JsValue::Bytes(a.to_vec())
    }
}
impl ToJs for &Uint8Array {
    fn to_js(self) -> JsValue {
        self.clone().into()
    }
}
impl ToJs for Uint8Array {
    fn to_js(self) -> JsValue {
        self.into()
    }
}
impl ToJs for Array {
    fn to_js(self) -> JsValue {
        self.into()
    }
}
impl ToJs for &Array {
    fn to_js(self) -> JsValue {
        self.clone().into()
    }
}
