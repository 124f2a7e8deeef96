//! Native stand-in for the part of `js-sys` a catalogue search front end can reasonably use.
#![allow(clippy::all)]
use std::cell::RefCell;
use std::ops::Deref;
use std::rc::Rc;
use wasm_bindgen::{Inner, JsCast, JsValue};

macro_rules! wrapper {
    ($name:ident, $parent:ty, |$v:ident| $is:expr) => {
        #[derive(Clone, Debug, PartialEq)]
        #[repr(transparent)]
        pub struct $name {
            obj: $parent,
        }
        impl Deref for $name {
            type Target = $parent;
            fn deref(&self) -> &$parent {
                &self.obj
            }
        }
        impl AsRef<JsValue> for $name {
            fn as_ref(&self) -> &JsValue {
                self.obj.as_ref()
            }
        }
        impl From<$name> for JsValue {
            fn from(v: $name) -> JsValue {
                v.obj.into()
            }
        }
        impl<'a> From<&'a $name> for JsValue {
            fn from(v: &'a $name) -> JsValue {
                let js: &JsValue = v.as_ref();
                js.clone()
            }
        }
        impl From<JsValue> for $name {
            fn from(v: JsValue) -> $name {
                $name { obj: v.unchecked_into() }
            }
        }
        impl JsCast for $name {
            fn instanceof($v: &JsValue) -> bool {
                $is
            }
            fn unchecked_from_js(val: JsValue) -> Self {
                $name { obj: val.unchecked_into() }
            }
            fn unchecked_from_js_ref(val: &JsValue) -> &Self {
                // every wrapper is a chain of repr(transparent) structs around JsValue
                unsafe { &*(val as *const JsValue as *const Self) }
            }
        }
    };
}

wrapper!(Object, JsValue, |v| matches!(v.inner, Inner::Object(_) | Inner::Array(_) | Inner::Function(_)));
wrapper!(Array, Object, |v| matches!(v.inner, Inner::Array(_)));
wrapper!(Function, Object, |v| matches!(v.inner, Inner::Function(_)));
wrapper!(Number, Object, |v| matches!(v.inner, Inner::Number(_)));
wrapper!(JsString, Object, |v| matches!(v.inner, Inner::String(_)));
wrapper!(Boolean, Object, |v| matches!(v.inner, Inner::Bool(_)));

impl AsRef<Object> for Array {
    fn as_ref(&self) -> &Object {
        self
    }
}
impl AsRef<Object> for Function {
    fn as_ref(&self) -> &Object {
        self
    }
}

fn js(inner: Inner) -> JsValue {
    JsValue { inner }
}

/// Own enumerable string-keyed properties, in JavaScript's order (integer keys first).
fn own_properties(v: &JsValue) -> Vec<(String, JsValue)> {
    match &v.inner {
        Inner::Object(props) => {
            let props = props.borrow();
            let mut ints: Vec<(u32, &(String, JsValue))> = Vec::new();
            let mut rest = Vec::new();
            for p in props.iter() {
                match p.0.parse::<u32>() {
                    Ok(n) if n.to_string() == p.0 && n != u32::MAX => ints.push((n, p)),
                    _ => rest.push(p.clone()),
                }
            }
            ints.sort_by_key(|(n, _)| *n);
            ints.into_iter().map(|(_, p)| p.clone()).chain(rest).collect()
        }
        Inner::Array(items) => items
            .borrow()
            .iter()
            .enumerate()
            .map(|(i, v)| (i.to_string(), v.clone()))
            .collect(),
        Inner::String(s) => s
            .chars()
            .enumerate()
            .map(|(i, c)| (i.to_string(), JsValue::from_str(&c.to_string())))
            .collect(),
        _ => Vec::new(),
    }
}

impl Object {
    pub fn new() -> Object {
        js(Inner::Object(Rc::new(RefCell::new(Vec::new())))).into()
    }
    pub fn entries(object: &Object) -> Array {
        own_properties(object.as_ref())
            .into_iter()
            .map(|(k, v)| Array::of2(&k.into(), &v))
            .collect()
    }
    pub fn keys(object: &Object) -> Array {
        own_properties(object.as_ref()).into_iter().map(|(k, _)| JsValue::from(k)).collect()
    }
    pub fn values(object: &Object) -> Array {
        own_properties(object.as_ref()).into_iter().map(|(_, v)| v).collect()
    }
    pub fn has_own_property(&self, property: &JsValue) -> bool {
        let key = property_key(property);
        own_properties(self.as_ref()).iter().any(|(k, _)| *k == key)
    }
    pub fn is(a: &JsValue, b: &JsValue) -> bool {
        match (a.as_f64(), b.as_f64()) {
            (Some(x), Some(y)) => (x.is_nan() && y.is_nan()) || x.to_bits() == y.to_bits(),
            _ => a == b,
        }
    }
}
impl Default for Object {
    fn default() -> Self {
        Object::new()
    }
}

impl Array {
    pub fn new() -> Array {
        js(Inner::Array(Rc::new(RefCell::new(Vec::new())))).into()
    }
    fn cell(&self) -> Option<&Rc<RefCell<Vec<JsValue>>>> {
        let v: &JsValue = self.as_ref();
        match &v.inner {
            Inner::Array(items) => Some(items),
            _ => None,
        }
    }
    pub fn of1(a: &JsValue) -> Array {
        [a.clone()].into_iter().collect()
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        [a.clone(), b.clone()].into_iter().collect()
    }
    pub fn is_array(v: &JsValue) -> bool {
        v.is_array()
    }
    pub fn from(v: &JsValue) -> Array {
        own_properties(v).into_iter().map(|(_, v)| v).collect()
    }
    pub fn get(&self, index: u32) -> JsValue {
        let key = index.to_string();
        let v: &JsValue = self.as_ref();
        match &v.inner {
            Inner::Undefined | Inner::Null => panic!("cannot read properties of {v:?}"),
            Inner::Array(items) => items.borrow().get(index as usize).cloned().unwrap_or_default(),
            _ => own_properties(v).into_iter().find(|(k, _)| *k == key).map(|(_, v)| v).unwrap_or_default(),
        }
    }
    pub fn set(&self, index: u32, value: JsValue) {
        let mut items = self.cell().expect("not an array").borrow_mut();
        while items.len() <= index as usize {
            items.push(JsValue::UNDEFINED);
        }
        items[index as usize] = value;
    }
    pub fn push(&self, value: &JsValue) -> u32 {
        let mut items = self.cell().expect("not an array").borrow_mut();
        items.push(value.clone());
        items.len() as u32
    }
    pub fn length(&self) -> u32 {
        self.cell().map_or(0, |c| c.borrow().len() as u32)
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.cell().map_or_else(Vec::new, |c| c.borrow().clone())
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn for_each(&self, callback: &mut dyn FnMut(JsValue, u32, Array)) {
        for (i, v) in self.to_vec().into_iter().enumerate() {
            callback(v, i as u32, self.clone());
        }
    }
}
impl Default for Array {
    fn default() -> Self {
        Array::new()
    }
}
impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<T: IntoIterator<Item = A>>(iter: T) -> Array {
        let items: Vec<JsValue> = iter.into_iter().map(|v| v.as_ref().clone()).collect();
        js(Inner::Array(Rc::new(RefCell::new(items)))).into()
    }
}
impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a> IntoIterator for &'a Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

impl Function {
    /// Only in the stand-in: a JavaScript function implemented by the harness.
    pub fn host(f: impl Fn(&[JsValue]) -> Result<JsValue, JsValue> + 'static) -> Function {
        js(Inner::Function(Rc::new(f))).into()
    }
    fn invoke(&self, args: &[JsValue]) -> Result<JsValue, JsValue> {
        let v: &JsValue = self.as_ref();
        match &v.inner {
            Inner::Function(f) => f(args),
            _ => Err(JsValue::from_str("TypeError: not a function")),
        }
    }
    pub fn call0(&self, _context: &JsValue) -> Result<JsValue, JsValue> {
        self.invoke(&[])
    }
    pub fn call1(&self, _context: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> {
        self.invoke(&[a.clone()])
    }
    pub fn call2(&self, _context: &JsValue, a: &JsValue, b: &JsValue) -> Result<JsValue, JsValue> {
        self.invoke(&[a.clone(), b.clone()])
    }
    pub fn apply(&self, _context: &JsValue, args: &Array) -> Result<JsValue, JsValue> {
        self.invoke(&args.to_vec())
    }
}

fn property_key(key: &JsValue) -> String {
    match &key.inner {
        Inner::String(s) => s.to_string(),
        Inner::Number(n) => n.to_string(),
        other => format!("{:?}", js(other.clone())),
    }
}

pub struct Reflect;
#[allow(non_snake_case)]
pub mod reflect_impl {}
impl Reflect {
    fn target(v: &JsValue) -> Result<(), JsValue> {
        match &v.inner {
            Inner::Object(_) | Inner::Array(_) | Inner::Function(_) => Ok(()),
            _ => Err(JsValue::from_str("TypeError: Reflect method called on non-object")),
        }
    }
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        Self::target(target)?;
        let key = property_key(key);
        if let (Inner::Array(items), "length") = (&target.inner, key.as_str()) {
            return Ok(JsValue::from_f64(items.borrow().len() as f64));
        }
        Ok(own_properties(target)
            .into_iter()
            .find(|(k, _)| *k == key)
            .map(|(_, v)| v)
            .unwrap_or_default())
    }
    pub fn has(target: &JsValue, key: &JsValue) -> Result<bool, JsValue> {
        Self::target(target)?;
        let key = property_key(key);
        Ok(own_properties(target).into_iter().any(|(k, _)| k == key))
    }
    pub fn set(target: &JsValue, key: &JsValue, value: &JsValue) -> Result<bool, JsValue> {
        Self::target(target)?;
        let key = property_key(key);
        match &target.inner {
            Inner::Object(props) => {
                let mut props = props.borrow_mut();
                match props.iter_mut().find(|(k, _)| *k == key) {
                    Some(p) => p.1 = value.clone(),
                    None => props.push((key, value.clone())),
                }
                Ok(true)
            }
            _ => Ok(false),
        }
    }
    pub fn own_keys(target: &JsValue) -> Result<Array, JsValue> {
        Self::target(target)?;
        Ok(own_properties(target).into_iter().map(|(k, _)| JsValue::from(k)).collect())
    }
}

impl Number {
    pub fn value_of(&self) -> f64 {
        let v: &JsValue = self.as_ref();
        v.as_f64().unwrap_or(f64::NAN)
    }
    pub fn is_finite(v: &JsValue) -> bool {
        v.as_f64().map_or(false, f64::is_finite)
    }
    pub fn is_nan(v: &JsValue) -> bool {
        v.as_f64().map_or(false, f64::is_nan)
    }
}
