//! A stand-in for the parts of neon 0.1 that /repo/code uses: JavaScript values are JSON, instances of native classes
//! are shared boxes, functions are slots that take the arguments of a call.

use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;

pub type Object = Rc<RefCell<Box<dyn Any>>>;

#[derive(Clone)]
pub enum Val {
    Json(serde_json::Value),
    Obj(Object),
    Fun(Rc<RefCell<Option<Vec<Val>>>>),
}

pub mod vm {
    use super::*;
    use crate::js::{JsValue, Value};
    use crate::mem::Handle;
    use crate::scope::RootScope;
    use std::marker::PhantomData;

    /// The message of the exception that was thrown.
    #[derive(Debug)]
    pub struct Throw(pub String);
    pub type VmResult<T> = Result<T, Throw>;
    pub type JsResult<'a, T> = VmResult<Handle<'a, T>>;

    pub trait This {}
    impl This for crate::js::JsObject {}

    pub struct Arguments<'a, T = crate::js::JsObject> { pub vals: Vec<Val>, pub ph: PhantomData<(&'a (), T)> }
    impl<'a, T> Arguments<'a, T> {
        pub fn len(&self) -> i32 { self.vals.len() as i32 }
        pub fn require<'b>(&self, _scope: &mut RootScope<'b>, i: i32) -> JsResult<'b, JsValue> {
            match self.vals.get(i as usize) {
                Some(v) => Ok(Handle::new(JsValue::from_val(v.clone()).unwrap())),
                None => Err(Throw(format!("missing argument {}", i))),
            }
        }
    }

    pub struct Call<'a, T = crate::js::JsObject> { pub scope: &'a mut RootScope<'a>, pub arguments: Arguments<'a, T> }

    impl<'a> Call<'a> {
        pub fn new(scope: &'a mut RootScope<'a>, vals: Vec<Val>) -> Call<'a> { Call { scope, arguments: Arguments { vals, ph: PhantomData } } }
    }

    pub trait Lock: Sized {
        type Internals: 'static;
        fn object(&self) -> Object;
        fn grab<R, F: FnOnce(&mut Self::Internals) -> R>(&mut self, f: F) -> R {
            let o = self.object();
            let mut b = o.borrow_mut();
            f(b.downcast_mut::<Self::Internals>().expect("an instance of another class"))
        }
    }
    impl<'a, C: crate::js::class::Class> Lock for Handle<'a, C> {
        type Internals = C::Internals;
        fn object(&self) -> Object {
            match self.val() { Val::Obj(o) => o, _ => panic!("no instance") }
        }
    }
}

pub mod mem {
    use crate::js::{JsValue, Value};
    use crate::vm::{JsResult, Throw};
    use crate::Val;
    use std::marker::PhantomData;

    pub struct Handle<'a, T> { v: T, ph: PhantomData<&'a ()> }
    impl<'a, T: Clone> Clone for Handle<'a, T> { fn clone(&self) -> Self { Handle::new(self.v.clone()) } }
    impl<'a, T: Copy> Copy for Handle<'a, T> {}
    impl<'a, T> std::ops::Deref for Handle<'a, T> { type Target = T; fn deref(&self) -> &T { &self.v } }
    impl<'a, T> Handle<'a, T> {
        pub fn new(v: T) -> Self { Handle { v, ph: PhantomData } }
    }
    impl<'a, T: Value> Handle<'a, T> {
        pub fn val(&self) -> Val { self.v.to_val() }
        pub fn upcast(&self) -> Handle<'a, JsValue> { Handle::new(JsValue::from_val(self.v.to_val()).unwrap()) }
        pub fn check<U: Value>(&self) -> JsResult<'a, U> {
            U::from_val(self.v.to_val()).map(Handle::new).ok_or_else(|| Throw("an argument has the wrong type".to_string()))
        }
    }
}

pub mod scope {
    use std::marker::PhantomData;
    pub struct RootScope<'a>(pub PhantomData<&'a ()>);
    pub trait Scope<'a> {}
    impl<'a> Scope<'a> for RootScope<'a> {}
}

pub mod js {
    use super::*;
    use crate::mem::Handle;
    use crate::scope::{RootScope, Scope};
    use crate::vm::{Call, JsResult};
    use std::marker::PhantomData;

    pub trait Value: Sized {
        fn to_val(&self) -> Val;
        fn from_val(v: Val) -> Option<Self>;
    }

    pub struct JsValue(pub Val);
    impl Value for JsValue {
        fn to_val(&self) -> Val { self.0.clone() }
        fn from_val(v: Val) -> Option<Self> { Some(JsValue(v)) }
    }

    pub struct JsObject;

    pub struct JsString(String);
    impl JsString {
        pub fn new<'a, S: Scope<'a>>(_: &mut S, s: &str) -> Option<Handle<'a, JsString>> { Some(Handle::new(JsString(s.to_string()))) }
        pub fn value(&self) -> String { self.0.clone() }
    }
    impl Value for JsString {
        fn to_val(&self) -> Val { Val::Json(serde_json::Value::String(self.0.clone())) }
        fn from_val(v: Val) -> Option<Self> { match v { Val::Json(serde_json::Value::String(s)) => Some(JsString(s)), _ => None } }
    }

    pub struct JsNull;
    impl JsNull { pub fn new<'a>() -> Handle<'a, JsNull> { Handle::new(JsNull) } }
    impl Value for JsNull {
        fn to_val(&self) -> Val { Val::Json(serde_json::Value::Null) }
        fn from_val(v: Val) -> Option<Self> { match v { Val::Json(serde_json::Value::Null) => Some(JsNull), _ => None } }
    }

    /// A callback, or the constructor of a class.
    pub struct JsFunction<C = JsObject> { slot: Rc<RefCell<Option<Vec<Val>>>>, ph: PhantomData<C> }
    impl Value for JsFunction<JsObject> {
        fn to_val(&self) -> Val { Val::Fun(self.slot.clone()) }
        fn from_val(v: Val) -> Option<Self> { match v { Val::Fun(slot) => Some(JsFunction { slot, ph: PhantomData }), _ => None } }
    }
    impl JsFunction<JsObject> {
        pub fn call(&self, args: Vec<Val>) { *self.slot.borrow_mut() = Some(args) }
    }
    impl<C: class::Class> JsFunction<C> {
        pub fn construct<'a, 'b, S: Scope<'a>, A: Value, AS: IntoIterator<Item = Handle<'b, A>>>(&self, _: &mut S, args: AS) -> JsResult<'a, C> where A: 'b {
            let vals = args.into_iter().map(|h| h.val()).collect();
            let mut scope = RootScope(PhantomData);
            let internals = C::init(Call::new(&mut scope, vals))?;
            Ok(Handle::new(C::from_val(Val::Obj(Rc::new(RefCell::new(Box::new(internals))))).unwrap()))
        }
    }

    pub mod class {
        use super::*;
        use crate::vm::VmResult;

        pub trait Class: Value + 'static {
            type Internals: 'static;
            fn init(call: Call) -> VmResult<Self::Internals>;
            fn class<'a, S: Scope<'a>>(_: &mut S) -> JsResult<'a, JsClass<Self>> { Ok(Handle::new(JsClass(PhantomData))) }
        }
        pub struct JsClass<C>(PhantomData<C>);
        impl<C: Class> JsClass<C> {
            pub fn constructor<'a, S: Scope<'a>>(&self, _: &mut S) -> JsResult<'a, JsFunction<C>> {
                Ok(Handle::new(JsFunction { slot: Rc::new(RefCell::new(None)), ph: PhantomData }))
            }
        }
    }
}

pub mod task {
    use super::*;
    use crate::js::{JsFunction, Value};
    use crate::mem::Handle;
    use crate::scope::{RootScope, Scope};
    use crate::vm::JsResult;

    pub trait Task: Sized {
        type Output;
        type Error;
        type JsEvent: Value;
        fn perform(&self) -> Result<Self::Output, Self::Error>;
        fn complete<'a, T: Scope<'a>>(self, scope: &'a mut T, result: Result<Self::Output, Self::Error>) -> JsResult<Self::JsEvent>;
        fn schedule(self, callback: Handle<JsFunction>) {
            let out = self.perform();
            let mut scope = RootScope(std::marker::PhantomData);
            let args = match self.complete(&mut scope, out) {
                Ok(v) => vec![Val::Json(serde_json::Value::Null), v.val()],
                Err(e) => vec![Val::Json(serde_json::Value::String(e.0))],
            };
            callback.call(args)
        }
    }
}

pub type Native = fn(vm::Call) -> vm::JsResult<js::JsValue>;

/// What a native module exports.
#[derive(Default)]
pub struct Module { pub exports: std::collections::HashMap<String, Native> }
impl Module {
    pub fn export(&mut self, name: &str, f: Native) -> vm::VmResult<()> { self.exports.insert(name.to_string(), f); Ok(()) }
}

#[macro_export]
macro_rules! register_module {
    ($m:ident, $init:block) => {
        pub fn register($m: &mut $crate::Module) -> $crate::vm::VmResult<()> { $init }
    }
}

#[macro_export]
macro_rules! declare_types {
    () => {};
    (pub class $cls:ident for $t:ident { init($call:ident) $body:block }) => { $crate::declare_class!{ $cls, $t, $call, $body } };
    (class $cls:ident for $t:ident { init($call:ident) $body:block }) => { $crate::declare_class!{ $cls, $t, $call, $body } };
}

#[macro_export]
macro_rules! declare_class {
    ($cls:ident, $t:ident, $call:ident, $body:block) => {
        pub struct $cls($crate::Object);
        impl $crate::js::Value for $cls {
            fn to_val(&self) -> $crate::Val { $crate::Val::Obj(self.0.clone()) }
            fn from_val(v: $crate::Val) -> Option<Self> {
                match v {
                    $crate::Val::Obj(o) => { if !o.borrow().is::<$t>() { return None } Some($cls(o)) }
                    _ => None
                }
            }
        }
        impl $crate::js::class::Class for $cls {
            type Internals = $t;
            fn init($call: $crate::vm::Call) -> $crate::vm::VmResult<$t> { $body }
        }
    }
}
