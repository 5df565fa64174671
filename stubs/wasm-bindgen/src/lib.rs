//! Signatures only.
pub struct JsValue {
    _private: (),
}
impl Clone for JsValue {
    fn clone(&self) -> Self { unimplemented!("signature only") }
}
impl core::fmt::Debug for JsValue {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("JsValue") }
}
impl PartialEq for JsValue {
    fn eq(&self, _o: &Self) -> bool { unimplemented!("signature only") }
}
impl JsValue {
    pub const NULL: JsValue = JsValue { _private: () };
    pub const UNDEFINED: JsValue = JsValue { _private: () };
    pub const TRUE: JsValue = JsValue { _private: () };
    pub const FALSE: JsValue = JsValue { _private: () };
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(_s: &str) -> JsValue { unimplemented!("signature only") }
    pub fn from_f64(_n: f64) -> JsValue { unimplemented!("signature only") }
    pub fn from_bool(_b: bool) -> JsValue { unimplemented!("signature only") }
    pub fn null() -> JsValue { unimplemented!("signature only") }
    pub fn undefined() -> JsValue { unimplemented!("signature only") }
    pub fn as_string(&self) -> Option<String> { unimplemented!("signature only") }
    pub fn as_f64(&self) -> Option<f64> { unimplemented!("signature only") }
    pub fn as_bool(&self) -> Option<bool> { unimplemented!("signature only") }
    pub fn is_null(&self) -> bool { unimplemented!("signature only") }
    pub fn is_undefined(&self) -> bool { unimplemented!("signature only") }
    pub fn is_string(&self) -> bool { unimplemented!("signature only") }
    pub fn is_object(&self) -> bool { unimplemented!("signature only") }
}
impl From<&str> for JsValue {
    fn from(_s: &str) -> Self { unimplemented!("signature only") }
}
impl From<String> for JsValue {
    fn from(_s: String) -> Self { unimplemented!("signature only") }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue { self }
}
pub trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn has_type<T: JsCast>(&self) -> bool { unimplemented!("signature only") }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> where Self: Sized { unimplemented!("signature only") }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> { unimplemented!("signature only") }
    fn unchecked_into<T: JsCast>(self) -> T where Self: Sized { unimplemented!("signature only") }
    fn unchecked_ref<T: JsCast>(&self) -> &T { unimplemented!("signature only") }
    fn is_instance_of<T: JsCast>(&self) -> bool { unimplemented!("signature only") }
}
impl JsCast for JsValue {}
pub mod prelude {
    pub use crate::{JsCast, JsValue};
    pub use wasm_bindgen_macro::wasm_bindgen;
}
/// What every JavaScript class has: `class!(Name: Parent, Grandparent ...)`.
#[macro_export]
macro_rules! js_class {
    ($n:ident : $($p:ty),*) => {
        pub struct $n { obj: $crate::JsValue }
        impl Clone for $n {
            fn clone(&self) -> Self { unimplemented!("signature only") }
        }
        impl core::fmt::Debug for $n {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(stringify!($n)) }
        }
        impl PartialEq for $n {
            fn eq(&self, _o: &Self) -> bool { unimplemented!("signature only") }
        }
        impl Eq for $n {}
        impl AsRef<$n> for $n {
            fn as_ref(&self) -> &$n { self }
        }
        impl AsRef<$crate::JsValue> for $n {
            fn as_ref(&self) -> &$crate::JsValue { &self.obj }
        }
        impl From<$n> for $crate::JsValue {
            fn from(_x: $n) -> Self { unimplemented!("signature only") }
        }
        impl From<$crate::JsValue> for $n {
            fn from(_x: $crate::JsValue) -> Self { unimplemented!("signature only") }
        }
        impl $crate::JsCast for $n {}
        $(
            impl AsRef<$p> for $n {
                fn as_ref(&self) -> &$p { unimplemented!("signature only") }
            }
            impl From<$n> for $p {
                fn from(_x: $n) -> Self { unimplemented!("signature only") }
            }
        )*
        $crate::js_class!(@deref $n : $($p),*);
    };
    (@deref $n:ident : ) => {
        impl core::ops::Deref for $n {
            type Target = $crate::JsValue;
            fn deref(&self) -> &$crate::JsValue { &self.obj }
        }
    };
    (@deref $n:ident : $p:ty $(, $r:ty)*) => {
        impl core::ops::Deref for $n {
            type Target = $p;
            fn deref(&self) -> &$p { self.as_ref() }
        }
    };
}
