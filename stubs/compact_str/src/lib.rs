//! A String under compact_str's names.
use std::ops::Deref;

#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct CompactString(String);
impl CompactString {
    pub fn new<T: AsRef<str>>(t: T) -> Self { Self(t.as_ref().to_owned()) }
    pub const fn const_new(_s: &'static str) -> Self { Self(String::new()) }
    pub fn with_capacity(n: usize) -> Self { Self(String::with_capacity(n)) }
    pub fn as_str(&self) -> &str { &self.0 }
    pub fn push_str(&mut self, s: &str) { self.0.push_str(s) }
    pub fn push(&mut self, c: char) { self.0.push(c) }
    pub fn pop(&mut self) -> Option<char> { self.0.pop() }
    pub fn clear(&mut self) { self.0.clear() }
    pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn into_string(self) -> String { self.0 }
}
impl Deref for CompactString {
    type Target = str;
    fn deref(&self) -> &str { &self.0 }
}
impl AsRef<str> for CompactString {
    fn as_ref(&self) -> &str { &self.0 }
}
impl std::borrow::Borrow<str> for CompactString {
    fn borrow(&self) -> &str { &self.0 }
}
impl std::fmt::Debug for CompactString {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&self.0, f) }
}
impl std::fmt::Display for CompactString {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(&self.0, f) }
}
impl From<String> for CompactString {
    fn from(s: String) -> Self { Self(s) }
}
impl From<&str> for CompactString {
    fn from(s: &str) -> Self { Self(s.to_owned()) }
}
impl PartialEq<str> for CompactString {
    fn eq(&self, o: &str) -> bool { self.0 == o }
}
impl PartialEq<&str> for CompactString {
    fn eq(&self, o: &&str) -> bool { self.0 == *o }
}
pub trait ToCompactString {
    fn to_compact_string(&self) -> CompactString;
}
impl<T: std::fmt::Display + ?Sized> ToCompactString for T {
    fn to_compact_string(&self) -> CompactString { CompactString(self.to_string()) }
}
#[macro_export]
macro_rules! format_compact {
    ($($a:tt)*) => { $crate::CompactString::from(::std::format!($($a)*)) };
}
