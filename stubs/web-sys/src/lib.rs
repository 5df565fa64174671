//! Signatures only.
use js_sys::Object;
use wasm_bindgen::{JsValue, js_class};
js_class!(EventTarget: Object);
js_class!(Node: EventTarget, Object);
js_class!(Element: Node, EventTarget, Object);
js_class!(HtmlElement: Element, Node, EventTarget, Object);
js_class!(HtmlTemplateElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(Document: Node, EventTarget, Object);
js_class!(DocumentFragment: Node, EventTarget, Object);
js_class!(CharacterData: Node, EventTarget, Object);
js_class!(Text: CharacterData, Node, EventTarget, Object);
js_class!(Comment: CharacterData, Node, EventTarget, Object);
js_class!(Attr: Node, EventTarget, Object);
js_class!(NodeList: Object);
js_class!(NamedNodeMap: Object);
js_class!(Window: EventTarget, Object);
js_class!(Location: Object);
js_class!(Event: Object);
js_class!(CustomEvent: Event, Object);
js_class!(CustomEventInit: Object);
pub fn window() -> Option<Window> { unimplemented!("signature only") }
impl Window {
    pub fn document(&self) -> Option<Document> { unimplemented!("signature only") }
    pub fn location(&self) -> Location { unimplemented!("signature only") }
}
impl Location {
    pub fn reload(&self) -> Result<(), JsValue> { unimplemented!("signature only") }
    pub fn pathname(&self) -> Result<String, JsValue> { unimplemented!("signature only") }
}
impl Document {
    pub fn body(&self) -> Option<HtmlElement> { unimplemented!("signature only") }
    pub fn document_element(&self) -> Option<Element> { unimplemented!("signature only") }
    pub fn query_selector(&self, _s: &str) -> Result<Option<Element>, JsValue> { unimplemented!("signature only") }
    pub fn get_element_by_id(&self, _s: &str) -> Option<Element> { unimplemented!("signature only") }
    pub fn create_element(&self, _tag: &str) -> Result<Element, JsValue> { unimplemented!("signature only") }
    pub fn create_text_node(&self, _s: &str) -> Text { unimplemented!("signature only") }
    pub fn create_comment(&self, _s: &str) -> Comment { unimplemented!("signature only") }
    pub fn create_document_fragment(&self) -> DocumentFragment { unimplemented!("signature only") }
}
impl EventTarget {
    pub fn dispatch_event(&self, _e: &Event) -> Result<bool, JsValue> { unimplemented!("signature only") }
}
impl Node {
    pub const ELEMENT_NODE: u16 = 1;
    pub const ATTRIBUTE_NODE: u16 = 2;
    pub const TEXT_NODE: u16 = 3;
    pub const COMMENT_NODE: u16 = 8;
    pub const DOCUMENT_NODE: u16 = 9;
    pub fn node_type(&self) -> u16 { unimplemented!("signature only") }
    pub fn node_name(&self) -> String { unimplemented!("signature only") }
    pub fn node_value(&self) -> Option<String> { unimplemented!("signature only") }
    pub fn set_node_value(&self, _v: Option<&str>) { unimplemented!("signature only") }
    pub fn text_content(&self) -> Option<String> { unimplemented!("signature only") }
    pub fn set_text_content(&self, _v: Option<&str>) { unimplemented!("signature only") }
    pub fn parent_node(&self) -> Option<Node> { unimplemented!("signature only") }
    pub fn parent_element(&self) -> Option<Element> { unimplemented!("signature only") }
    pub fn child_nodes(&self) -> NodeList { unimplemented!("signature only") }
    pub fn has_child_nodes(&self) -> bool { unimplemented!("signature only") }
    pub fn first_child(&self) -> Option<Node> { unimplemented!("signature only") }
    pub fn last_child(&self) -> Option<Node> { unimplemented!("signature only") }
    pub fn next_sibling(&self) -> Option<Node> { unimplemented!("signature only") }
    pub fn previous_sibling(&self) -> Option<Node> { unimplemented!("signature only") }
    pub fn append_child(&self, _n: &Node) -> Result<Node, JsValue> { unimplemented!("signature only") }
    pub fn insert_before(&self, _n: &Node, _before: Option<&Node>) -> Result<Node, JsValue> { unimplemented!("signature only") }
    pub fn replace_child(&self, _new: &Node, _old: &Node) -> Result<Node, JsValue> { unimplemented!("signature only") }
    pub fn remove_child(&self, _n: &Node) -> Result<Node, JsValue> { unimplemented!("signature only") }
    pub fn clone_node(&self) -> Result<Node, JsValue> { unimplemented!("signature only") }
    pub fn clone_node_with_deep(&self, _deep: bool) -> Result<Node, JsValue> { unimplemented!("signature only") }
    pub fn contains(&self, _n: Option<&Node>) -> bool { unimplemented!("signature only") }
}
impl NodeList {
    pub fn length(&self) -> u32 { unimplemented!("signature only") }
    pub fn item(&self, _i: u32) -> Option<Node> { unimplemented!("signature only") }
    pub fn get(&self, _i: u32) -> Option<Node> { unimplemented!("signature only") }
}
impl NamedNodeMap {
    pub fn length(&self) -> u32 { unimplemented!("signature only") }
    pub fn item(&self, _i: u32) -> Option<Attr> { unimplemented!("signature only") }
    pub fn get_with_index(&self, _i: u32) -> Option<Attr> { unimplemented!("signature only") }
}
impl Attr {
    pub fn name(&self) -> String { unimplemented!("signature only") }
    pub fn local_name(&self) -> String { unimplemented!("signature only") }
    pub fn value(&self) -> String { unimplemented!("signature only") }
    pub fn set_value(&self, _v: &str) { unimplemented!("signature only") }
}
impl Element {
    pub fn tag_name(&self) -> String { unimplemented!("signature only") }
    pub fn local_name(&self) -> String { unimplemented!("signature only") }
    pub fn attributes(&self) -> NamedNodeMap { unimplemented!("signature only") }
    pub fn has_attribute(&self, _n: &str) -> bool { unimplemented!("signature only") }
    pub fn get_attribute(&self, _n: &str) -> Option<String> { unimplemented!("signature only") }
    pub fn set_attribute(&self, _n: &str, _v: &str) -> Result<(), JsValue> { unimplemented!("signature only") }
    pub fn remove_attribute(&self, _n: &str) -> Result<(), JsValue> { unimplemented!("signature only") }
    pub fn inner_html(&self) -> String { unimplemented!("signature only") }
    pub fn set_inner_html(&self, _v: &str) { unimplemented!("signature only") }
    pub fn outer_html(&self) -> String { unimplemented!("signature only") }
    pub fn query_selector(&self, _s: &str) -> Result<Option<Element>, JsValue> { unimplemented!("signature only") }
    pub fn append_with_node_1(&self, _n: &Node) -> Result<(), JsValue> { unimplemented!("signature only") }
    pub fn replace_with_with_node_1(&self, _n: &Node) -> Result<(), JsValue> { unimplemented!("signature only") }
    pub fn remove(&self) { unimplemented!("signature only") }
}
impl CharacterData {
    pub fn data(&self) -> String { unimplemented!("signature only") }
    pub fn set_data(&self, _v: &str) { unimplemented!("signature only") }
}
impl HtmlTemplateElement {
    pub fn content(&self) -> DocumentFragment { unimplemented!("signature only") }
}
impl CustomEventInit {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self { unimplemented!("signature only") }
    pub fn set_bubbles(&self, _v: bool) { unimplemented!("signature only") }
    pub fn set_cancelable(&self, _v: bool) { unimplemented!("signature only") }
    pub fn set_composed(&self, _v: bool) { unimplemented!("signature only") }
    pub fn set_detail(&self, _v: &JsValue) { unimplemented!("signature only") }
}
impl CustomEvent {
    pub fn new(_t: &str) -> Result<CustomEvent, JsValue> { unimplemented!("signature only") }
    pub fn new_with_event_init_dict(_t: &str, _d: &CustomEventInit) -> Result<CustomEvent, JsValue> { unimplemented!("signature only") }
}
pub mod console {
    use wasm_bindgen::JsValue;
    pub fn log_1(_v: &JsValue) { unimplemented!("signature only") }
    pub fn warn_1(_v: &JsValue) { unimplemented!("signature only") }
    pub fn error_1(_v: &JsValue) { unimplemented!("signature only") }
}
