//! Signatures only.
#[derive(Debug)]
pub struct SerializeError;
#[derive(Debug)]
pub struct DeserializeError;
macro_rules! err {
    ($($t:ty),*) => {$(
        impl core::fmt::Display for $t {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("error") }
        }
        impl std::error::Error for $t {}
    )*};
}
err!(SerializeError, DeserializeError);
pub fn to_vec<'f, T: facet::Facet<'f> + ?Sized>(_value: &T) -> Result<Vec<u8>, SerializeError> {
    unimplemented!("signature only")
}
pub fn from_slice<'f, T: facet::Facet<'f>>(_bytes: &[u8]) -> Result<T, DeserializeError> {
    unimplemented!("signature only")
}
