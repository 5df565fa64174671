//! Signatures only.
use wasm_bindgen::{JsValue, js_class};
js_class!(Object:);
js_class!(JsString: Object);
impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Object { unimplemented!("signature only") }
}
#[allow(non_snake_case)]
pub mod Reflect {
    use wasm_bindgen::JsValue;
    pub fn get(_target: &JsValue, _key: &JsValue) -> Result<JsValue, JsValue> { unimplemented!("signature only") }
    pub fn set(_target: &JsValue, _key: &JsValue, _value: &JsValue) -> Result<bool, JsValue> { unimplemented!("signature only") }
}
#[allow(non_snake_case)]
pub mod JSON {
    use wasm_bindgen::JsValue;
    pub fn stringify(_obj: &JsValue) -> Result<crate::JsString, JsValue> { unimplemented!("signature only") }
    pub fn parse(_text: &str) -> Result<JsValue, JsValue> { unimplemented!("signature only") }
}
impl JsString {
    pub fn as_string(&self) -> Option<String> { unimplemented!("signature only") }
}
#[allow(dead_code)]
fn _uses(_: JsValue) {}
