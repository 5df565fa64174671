//! Signatures only.
#[derive(Debug)]
pub struct SerializeError;
#[derive(Debug)]
pub struct DeserializeError;
macro_rules! err {
    ($($t:ty),*) => {$(
        impl core::fmt::Display for $t {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("error") }
        }
        impl std::error::Error for $t {}
    )*};
}
err!(SerializeError, DeserializeError);
pub fn to_string<'f, T: facet::Facet<'f> + ?Sized>(_value: &T) -> Result<String, SerializeError> {
    unimplemented!("signature only")
}
pub fn from_str<'f, T: facet::Facet<'f>>(_s: &str) -> Result<T, DeserializeError> {
    unimplemented!("signature only")
}
