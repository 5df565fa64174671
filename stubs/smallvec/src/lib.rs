//! A Vec under smallvec's names.
use std::ops::{Deref, DerefMut};

pub trait Array {
    type Item;
}
impl<T, const N: usize> Array for [T; N] {
    type Item = T;
}
pub struct SmallVec<A: Array> {
    v: Vec<A::Item>,
}
impl<A: Array> SmallVec<A> {
    pub fn new() -> Self { Self { v: Vec::new() } }
    pub fn with_capacity(n: usize) -> Self { Self { v: Vec::with_capacity(n) } }
    pub fn from_vec(v: Vec<A::Item>) -> Self { Self { v } }
    pub fn push(&mut self, x: A::Item) { self.v.push(x) }
    pub fn pop(&mut self) -> Option<A::Item> { self.v.pop() }
    pub fn insert(&mut self, i: usize, x: A::Item) { self.v.insert(i, x) }
    pub fn remove(&mut self, i: usize) -> A::Item { self.v.remove(i) }
    pub fn truncate(&mut self, n: usize) { self.v.truncate(n) }
    pub fn clear(&mut self) { self.v.clear() }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn as_slice(&self) -> &[A::Item] { &self.v }
    pub fn as_mut_slice(&mut self) -> &mut [A::Item] { &mut self.v }
    pub fn into_vec(self) -> Vec<A::Item> { self.v }
    pub fn extend_from_slice(&mut self, s: &[A::Item]) where A::Item: Copy { self.v.extend_from_slice(s) }
    pub fn from_slice(s: &[A::Item]) -> Self where A::Item: Copy { Self { v: s.to_vec() } }
}
impl<A: Array> Default for SmallVec<A> {
    fn default() -> Self { Self::new() }
}
impl<A: Array> Deref for SmallVec<A> {
    type Target = [A::Item];
    fn deref(&self) -> &[A::Item] { &self.v }
}
impl<A: Array> DerefMut for SmallVec<A> {
    fn deref_mut(&mut self) -> &mut [A::Item] { &mut self.v }
}
impl<A: Array> AsRef<[A::Item]> for SmallVec<A> {
    fn as_ref(&self) -> &[A::Item] { &self.v }
}
impl<A: Array> Clone for SmallVec<A> where A::Item: Clone {
    fn clone(&self) -> Self { Self { v: self.v.clone() } }
}
impl<A: Array> std::fmt::Debug for SmallVec<A> where A::Item: std::fmt::Debug {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.v.fmt(f) }
}
impl<A: Array, B: Array> PartialEq<SmallVec<B>> for SmallVec<A> where A::Item: PartialEq<B::Item> {
    fn eq(&self, o: &SmallVec<B>) -> bool { self.v[..] == o.v[..] }
}
impl<A: Array> Eq for SmallVec<A> where A::Item: Eq {}
impl<A: Array> std::hash::Hash for SmallVec<A> where A::Item: std::hash::Hash {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.v.hash(h) }
}
impl<A: Array> FromIterator<A::Item> for SmallVec<A> {
    fn from_iter<I: IntoIterator<Item = A::Item>>(i: I) -> Self { Self { v: i.into_iter().collect() } }
}
impl<A: Array> Extend<A::Item> for SmallVec<A> {
    fn extend<I: IntoIterator<Item = A::Item>>(&mut self, i: I) { self.v.extend(i) }
}
impl<A: Array> From<Vec<A::Item>> for SmallVec<A> {
    fn from(v: Vec<A::Item>) -> Self { Self { v } }
}
impl<A: Array> From<A> for SmallVec<A> where A: IntoIterator<Item = <A as Array>::Item> {
    fn from(a: A) -> Self { Self { v: a.into_iter().collect() } }
}
impl<'a, A: Array> From<&'a [A::Item]> for SmallVec<A> where A::Item: Clone {
    fn from(a: &'a [A::Item]) -> Self { Self { v: a.to_vec() } }
}
impl<A: Array> IntoIterator for SmallVec<A> {
    type Item = A::Item;
    type IntoIter = std::vec::IntoIter<A::Item>;
    fn into_iter(self) -> Self::IntoIter { self.v.into_iter() }
}
impl<'a, A: Array> IntoIterator for &'a SmallVec<A> {
    type Item = &'a A::Item;
    type IntoIter = std::slice::Iter<'a, A::Item>;
    fn into_iter(self) -> Self::IntoIter { self.v.iter() }
}
#[macro_export]
macro_rules! smallvec {
    ($e:expr; $n:expr) => { $crate::SmallVec::from_vec(::std::vec![$e; $n]) };
    ($($x:expr),* $(,)?) => { $crate::SmallVec::from_vec(::std::vec![$($x),*]) };
}
