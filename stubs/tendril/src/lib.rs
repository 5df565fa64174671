//! A shared string under tendril's names.
use std::ops::Deref;
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct StrTendril(Arc<str>);
impl StrTendril {
    pub fn new() -> Self { Self::default() }
    pub fn from_slice(s: &str) -> Self { Self(s.into()) }
    pub fn push_slice(&mut self, s: &str) { self.0 = [&self.0, s].concat().into() }
    pub fn push_tendril(&mut self, t: &StrTendril) { self.push_slice(&t.0) }
    pub fn push_char(&mut self, c: char) { self.push_slice(c.encode_utf8(&mut [0; 4])) }
    pub fn len32(&self) -> u32 { self.0.len() as u32 }
    pub fn clear(&mut self) { *self = Self::default() }
}
impl Deref for StrTendril {
    type Target = str;
    fn deref(&self) -> &str { &self.0 }
}
impl AsRef<str> for StrTendril {
    fn as_ref(&self) -> &str { &self.0 }
}
impl From<&str> for StrTendril {
    fn from(s: &str) -> Self { Self(s.into()) }
}
impl From<String> for StrTendril {
    fn from(s: String) -> Self { Self(s.into()) }
}
impl std::fmt::Debug for StrTendril {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&*self.0, f) }
}
impl std::fmt::Display for StrTendril {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(&*self.0, f) }
}
pub trait TendrilSink {
    type Output;
    fn process(&mut self, t: StrTendril);
    fn finish(self) -> Self::Output;
    fn one<T: Into<StrTendril>>(mut self, t: T) -> Self::Output
    where
        Self: Sized,
    {
        self.process(t.into());
        self.finish()
    }
}
