//! The part of html5ever's interface hotmeal uses; the parser itself is left out.
pub use tendril;
use std::ops::Deref;
use std::sync::Arc;
use tendril::{StrTendril, TendrilSink};

macro_rules! atom {
    ($($n:ident),*) => {$(
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n(Arc<str>);
        impl $n {
            pub fn is_empty(&self) -> bool { self.0.is_empty() }
        }
        impl Default for $n {
            fn default() -> Self { Self("".into()) }
        }
        impl Deref for $n {
            type Target = str;
            fn deref(&self) -> &str { &self.0 }
        }
        impl AsRef<str> for $n {
            fn as_ref(&self) -> &str { &self.0 }
        }
        impl From<&str> for $n {
            fn from(s: &str) -> Self { Self(s.into()) }
        }
        impl From<String> for $n {
            fn from(s: String) -> Self { Self(s.into()) }
        }
        impl<'a> From<std::borrow::Cow<'a, str>> for $n {
            fn from(s: std::borrow::Cow<'a, str>) -> Self { Self(s.into()) }
        }
        impl PartialEq<str> for $n {
            fn eq(&self, o: &str) -> bool { &*self.0 == o }
        }
        impl std::fmt::Debug for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&*self.0, f) }
        }
        impl std::fmt::Display for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(&*self.0, f) }
        }
    )*};
}
atom!(LocalName, Namespace, Prefix);

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct QualName {
    pub prefix: Option<Prefix>,
    pub ns: Namespace,
    pub local: LocalName,
}
impl QualName {
    pub fn new(prefix: Option<Prefix>, ns: Namespace, local: LocalName) -> Self { Self { prefix, ns, local } }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Attribute {
    pub name: QualName,
    pub value: StrTendril,
}
#[macro_export]
macro_rules! local_name {
    ($s:expr) => { $crate::LocalName::from($s) };
}
#[macro_export]
macro_rules! namespace_url {
    ($s:expr) => { $crate::Namespace::from($s) };
}
#[macro_export]
macro_rules! ns {
    () => { $crate::Namespace::from("") };
    (html) => { $crate::Namespace::from("http://www.w3.org/1999/xhtml") };
    (svg) => { $crate::Namespace::from("http://www.w3.org/2000/svg") };
    (mathml) => { $crate::Namespace::from("http://www.w3.org/1998/Math/MathML") };
    (xlink) => { $crate::Namespace::from("http://www.w3.org/1999/xlink") };
    (xml) => { $crate::Namespace::from("http://www.w3.org/XML/1998/namespace") };
    (xmlns) => { $crate::Namespace::from("http://www.w3.org/2000/xmlns/") };
}

pub mod tree_builder {
    use super::*;
    use std::borrow::Cow;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum QuirksMode { Quirks, LimitedQuirks, NoQuirks }
    pub enum NodeOrText<H> { AppendNode(H), AppendText(StrTendril) }
    #[derive(Default)]
    pub struct ElementFlags {
        pub template: bool,
        pub mathml_annotation_xml_integration_point: bool,
    }
    #[derive(Clone, Copy, Default)]
    pub struct TreeBuilderOpts {
        pub exact_errors: bool,
        pub scripting_enabled: bool,
        pub iframe_srcdoc: bool,
        pub drop_doctype: bool,
    }
    pub trait ElemName: std::fmt::Debug {
        fn ns(&self) -> &Namespace;
        fn local_name(&self) -> &LocalName;
    }
    pub trait TreeSink {
        type Handle: Clone;
        type Output;
        type ElemName<'a>: ElemName where Self: 'a;
        fn finish(self) -> Self::Output;
        fn parse_error(&self, msg: Cow<'static, str>);
        fn get_document(&self) -> Self::Handle;
        fn elem_name<'a>(&'a self, target: &'a Self::Handle) -> Self::ElemName<'a>;
        fn create_element(&self, name: QualName, attrs: Vec<Attribute>, flags: ElementFlags) -> Self::Handle;
        fn create_comment(&self, text: StrTendril) -> Self::Handle;
        fn create_pi(&self, target: StrTendril, data: StrTendril) -> Self::Handle;
        fn append(&self, parent: &Self::Handle, child: NodeOrText<Self::Handle>);
        fn append_based_on_parent_node(&self, element: &Self::Handle, prev_element: &Self::Handle, child: NodeOrText<Self::Handle>);
        fn append_doctype_to_document(&self, name: StrTendril, public_id: StrTendril, system_id: StrTendril);
        fn mark_script_already_started(&self, _node: &Self::Handle) {}
        fn pop(&self, _node: &Self::Handle) {}
        fn get_template_contents(&self, target: &Self::Handle) -> Self::Handle;
        fn same_node(&self, x: &Self::Handle, y: &Self::Handle) -> bool;
        fn set_quirks_mode(&self, mode: QuirksMode);
        fn append_before_sibling(&self, sibling: &Self::Handle, new_node: NodeOrText<Self::Handle>);
        fn add_attrs_if_missing(&self, target: &Self::Handle, attrs: Vec<Attribute>);
        fn associate_with_form(&self, _target: &Self::Handle, _form: &Self::Handle, _nodes: (&Self::Handle, Option<&Self::Handle>)) {}
        fn remove_from_parent(&self, target: &Self::Handle);
        fn reparent_children(&self, node: &Self::Handle, new_parent: &Self::Handle);
        fn is_mathml_annotation_xml_integration_point(&self, _handle: &Self::Handle) -> bool { false }
        fn set_current_line(&self, _line_number: u64) {}
        fn allow_declarative_shadow_roots(&self, _intended_parent: &Self::Handle) -> bool { true }
        fn attach_declarative_shadow(&self, _location: &Self::Handle, _template: &Self::Handle, _attrs: &[Attribute]) -> bool { false }
        fn maybe_clone_an_option_into_selectedcontent(&self, _option: &Self::Handle) {}
    }
}
#[derive(Clone, Default)]
pub struct ParseOpts {
    pub tree_builder: tree_builder::TreeBuilderOpts,
}
pub struct Parser<Sink> {
    sink: Sink,
}
impl<Sink: tree_builder::TreeSink> TendrilSink for Parser<Sink> {
    type Output = Sink::Output;
    fn process(&mut self, _t: StrTendril) {}
    fn finish(self) -> Sink::Output { self.sink.finish() }
}
pub fn parse_document<Sink: tree_builder::TreeSink>(sink: Sink, _opts: ParseOpts) -> Parser<Sink> { Parser { sink } }
pub fn parse_fragment<Sink: tree_builder::TreeSink>(
    sink: Sink,
    _opts: ParseOpts,
    _context_name: QualName,
    _context_attrs: Vec<Attribute>,
    _context_element_allows_scripting: bool,
) -> Parser<Sink> {
    Parser { sink }
}
