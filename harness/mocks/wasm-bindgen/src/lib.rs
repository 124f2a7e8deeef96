//! Native stand-in for `wasm-bindgen`'s value type, used only by the conformance harness.
//! It gives JavaScript values the semantics the code under test relies on: `typeof`
//! distinctions, strict equality (`===`), property lookup and calls.  It knows nothing about
//! the crate under test.
#![allow(clippy::all)]
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::{wasm_bindgen, Clamped, JsCast, JsError, JsValue, UnwrapThrowExt};
}

#[doc(hidden)]
#[derive(Clone)]
pub enum Inner {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    String(Rc<str>),
    Object(Rc<RefCell<Vec<(String, JsValue)>>>),
    Array(Rc<RefCell<Vec<JsValue>>>),
    Function(Rc<dyn Fn(&[JsValue]) -> Result<JsValue, JsValue>>),
}

#[derive(Clone)]
#[repr(transparent)]
pub struct JsValue {
    #[doc(hidden)]
    pub inner: Inner,
}

impl JsValue {
    pub const NULL: JsValue = JsValue { inner: Inner::Null };
    pub const UNDEFINED: JsValue = JsValue { inner: Inner::Undefined };
    pub const TRUE: JsValue = JsValue { inner: Inner::Bool(true) };
    pub const FALSE: JsValue = JsValue { inner: Inner::Bool(false) };

    pub fn from_str(s: &str) -> JsValue {
        JsValue { inner: Inner::String(s.into()) }
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue { inner: Inner::Number(n) }
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue { inner: Inner::Bool(b) }
    }
    pub fn undefined() -> JsValue {
        JsValue::UNDEFINED
    }
    pub fn null() -> JsValue {
        JsValue::NULL
    }
    pub fn as_f64(&self) -> Option<f64> {
        match &self.inner {
            Inner::Number(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match &self.inner {
            Inner::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.inner {
            Inner::String(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn is_string(&self) -> bool {
        matches!(self.inner, Inner::String(_))
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.inner, Inner::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.inner, Inner::Null)
    }
    pub fn is_null_or_undefined(&self) -> bool {
        self.is_null() || self.is_undefined()
    }
    pub fn is_symbol(&self) -> bool {
        false
    }
    pub fn is_bigint(&self) -> bool {
        false
    }
    pub fn is_object(&self) -> bool {
        matches!(self.inner, Inner::Object(_) | Inner::Array(_))
    }
    pub fn is_array(&self) -> bool {
        matches!(self.inner, Inner::Array(_))
    }
    pub fn is_function(&self) -> bool {
        matches!(self.inner, Inner::Function(_))
    }
    pub fn is_truthy(&self) -> bool {
        !self.is_falsy()
    }
    pub fn is_falsy(&self) -> bool {
        match &self.inner {
            Inner::Undefined | Inner::Null => true,
            Inner::Bool(b) => !*b,
            Inner::Number(n) => *n == 0.0 || n.is_nan(),
            Inner::String(s) => s.is_empty(),
            _ => false,
        }
    }
    pub fn loose_eq(&self, other: &JsValue) -> bool {
        (self.is_null_or_undefined() && other.is_null_or_undefined()) || self == other
    }
    pub fn js_typeof(&self) -> JsValue {
        JsValue::from_str(match &self.inner {
            Inner::Undefined => "undefined",
            Inner::Null | Inner::Object(_) | Inner::Array(_) => "object",
            Inner::Bool(_) => "boolean",
            Inner::Number(_) => "number",
            Inner::String(_) => "string",
            Inner::Function(_) => "function",
        })
    }
    pub fn unchecked_into_f64(&self) -> f64 {
        match &self.inner {
            Inner::Null => 0.0,
            Inner::Bool(b) => f64::from(u8::from(*b)),
            Inner::Number(n) => *n,
            Inner::String(s) => s.trim().parse().unwrap_or(f64::NAN),
            _ => f64::NAN,
        }
    }
}

impl Default for JsValue {
    fn default() -> Self {
        JsValue::UNDEFINED
    }
}

/// Strict equality, as JavaScript's `===`.
impl PartialEq for JsValue {
    fn eq(&self, other: &JsValue) -> bool {
        match (&self.inner, &other.inner) {
            (Inner::Undefined, Inner::Undefined) | (Inner::Null, Inner::Null) => true,
            (Inner::Bool(a), Inner::Bool(b)) => a == b,
            (Inner::Number(a), Inner::Number(b)) => a == b,
            (Inner::String(a), Inner::String(b)) => a == b,
            (Inner::Object(a), Inner::Object(b)) => Rc::ptr_eq(a, b),
            (Inner::Array(a), Inner::Array(b)) => Rc::ptr_eq(a, b),
            (Inner::Function(a), Inner::Function(b)) => {
                std::ptr::eq(Rc::as_ptr(a) as *const u8, Rc::as_ptr(b) as *const u8)
            }
            _ => false,
        }
    }
}
impl PartialEq<bool> for JsValue {
    fn eq(&self, other: &bool) -> bool {
        self.as_bool() == Some(*other)
    }
}
impl PartialEq<str> for JsValue {
    fn eq(&self, other: &str) -> bool {
        matches!(&self.inner, Inner::String(s) if &**s == other)
    }
}
impl<'a> PartialEq<&'a str> for JsValue {
    fn eq(&self, other: &&'a str) -> bool {
        <JsValue as PartialEq<str>>::eq(self, other)
    }
}
impl PartialEq<String> for JsValue {
    fn eq(&self, other: &String) -> bool {
        <JsValue as PartialEq<str>>::eq(self, other)
    }
}
macro_rules! numbers {
    ($($t:ty)*) => {$(
        impl From<$t> for JsValue {
            fn from(n: $t) -> JsValue { JsValue::from_f64(n as f64) }
        }
        impl PartialEq<$t> for JsValue {
            fn eq(&self, other: &$t) -> bool { self.as_f64() == Some(*other as f64) }
        }
    )*};
}
numbers!(i8 u8 i16 u16 i32 u32 f32 f64 usize isize);

impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue::from_bool(b)
    }
}
impl<'a> From<&'a str> for JsValue {
    fn from(s: &'a str) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::from_str(&s)
    }
}
impl<'a> From<&'a String> for JsValue {
    fn from(s: &'a String) -> JsValue {
        JsValue::from_str(s)
    }
}
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(s: Option<T>) -> JsValue {
        s.map_or(JsValue::UNDEFINED, Into::into)
    }
}
impl TryFrom<JsValue> for f64 {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<f64, JsValue> {
        v.as_f64().ok_or(v)
    }
}
impl TryFrom<&JsValue> for f64 {
    type Error = JsValue;
    fn try_from(v: &JsValue) -> Result<f64, JsValue> {
        v.as_f64().ok_or(v.clone())
    }
}
impl TryFrom<JsValue> for String {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<String, JsValue> {
        v.as_string().ok_or(v)
    }
}
impl TryFrom<JsValue> for bool {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<bool, JsValue> {
        v.as_bool().ok_or(v)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.inner {
            Inner::Undefined => write!(f, "JsValue(undefined)"),
            Inner::Null => write!(f, "JsValue(null)"),
            Inner::Bool(b) => write!(f, "JsValue({b})"),
            Inner::Number(n) => write!(f, "JsValue({n})"),
            Inner::String(s) => write!(f, "JsValue({s:?})"),
            Inner::Object(_) => write!(f, "JsValue(Object)"),
            Inner::Array(_) => write!(f, "JsValue(Array)"),
            Inner::Function(_) => write!(f, "JsValue(Function)"),
        }
    }
}

/// Casting between the stand-in's types, all of which are transparent wrappers of `JsValue`.
pub trait JsCast
where
    Self: AsRef<JsValue> + Into<JsValue>,
{
    fn instanceof(val: &JsValue) -> bool;
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
    fn is_type_of(val: &JsValue) -> bool {
        Self::instanceof(val)
    }
    fn has_type<T: JsCast>(&self) -> bool {
        T::is_type_of(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() {
            Some(self.unchecked_ref())
        } else {
            None
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        val
    }
}

pub struct JsError {
    value: JsValue,
}
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError { value: JsValue::from_str(s) }
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        JsError::new(&e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        e.value
    }
}
impl From<JsValue> for JsError {
    fn from(value: JsValue) -> Self {
        JsError { value }
    }
}
impl fmt::Debug for JsError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.value.fmt(f)
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Clamped<T>(pub T);

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T {
        self.expect_throw("unwrap_throw")
    }
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

pub fn throw_str(s: &str) -> ! {
    panic!("{s}")
}
pub fn throw_val(s: JsValue) -> ! {
    panic!("{s:?}")
}
pub fn intern(s: &str) -> &str {
    s
}
