//! Signature-only stand-in: `derive(Facet)` accepts every attribute and says nothing about behaviour.
pub use facet_macros::Facet;
pub trait Facet<'facet> {}
impl<'facet, T: ?Sized> Facet<'facet> for T {}
