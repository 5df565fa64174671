//! Signatures only.
#[derive(Default)]
pub struct WasmLayerConfig {
    _private: (),
}
impl WasmLayerConfig {
    pub fn set_max_level(&mut self, _l: tracing::Level) -> &mut Self { unimplemented!("signature only") }
}
#[derive(Debug)]
pub struct SetGlobalDefaultError;
pub fn set_as_global_default_with_config(_c: WasmLayerConfig) -> Result<(), SetGlobalDefaultError> { unimplemented!("signature only") }
