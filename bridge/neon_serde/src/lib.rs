//! A stand-in for neon-serde over the stand-in for neon.

use neon::js::JsValue;
use neon::mem::Handle;
use neon::scope::Scope;
use neon::vm::Throw;
use neon::Val;

#[derive(Debug)]
pub struct Error(String);
impl From<Error> for Throw { fn from(e: Error) -> Throw { Throw(e.0) } }

pub fn to_value<'j, S: Scope<'j>, T: serde::Serialize>(_: &mut S, value: &T) -> Result<Handle<'j, JsValue>, Error> {
    serde_json::to_value(value).map(|v| Handle::new(JsValue(Val::Json(v)))).map_err(|e| Error(e.to_string()))
}

pub fn from_value<'j, S: Scope<'j>, T: serde::de::DeserializeOwned>(_: &mut S, value: Handle<'j, JsValue>) -> Result<T, Error> {
    match value.0.clone() {
        Val::Json(v) => serde_json::from_value(v).map_err(|e| Error(e.to_string())),
        _ => Err(Error("not a plain value".to_string())),
    }
}
