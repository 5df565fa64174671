"""Models of the browser: what hotmeal-wasm does to a page is kept as a list of operations, each with what it was given.

Asking the page changes nothing; what an answer depends on (the operations done so far) is part of its term. A call that can
fail either fails and changes nothing, or is done."""
import re

from term import *
from engine import *
from hot import HOT_API, HRoot, chars, obj_of
from models import split_opt, Some, NONE
import models

PAGE = "page"
OK, ERR = 0, 1
RES = "std::result::Result"


def now(it, st):
    return it.snapshot(st, PAGE)


def do(it, st, node):
    it.push_node(st, PAGE, node)


def op(kind, n, fallible=True, result=None):
    """an operation that changes the page"""
    def f(it, st, args, ctx):
        a = [it.rv(st, x) for x in args[:n]]
        t = mk("op", kind, *[chars(x) if x.tag != "int" else x for x in a])
        res = UNIT if result is None else a[result] if isinstance(result, int) else result(t)
        if not fallible:
            st = st.copy()
            do(it, st, t)
            return [(st, res)]
        out = []
        for s, b in it.fork_bool(st, app("fails", t, now(it, st))):
            if b:
                out.append((s, agg(RES, ERR, app("error", t))))
            else:
                s = s.copy()
                do(it, s, t)
                out.append((s, agg(RES, OK, res)))
        return out
    return f


def new(kind, n, fallible=False):
    """a node that is not in the page yet"""
    def f(it, st, args, ctx):
        t = app("new", mk("str", kind), *[chars(it.rv(st, x)) for x in args[1:1 + n]], mk("str", ctx.site))
        if not fallible:
            return [(st, t)]
        return [(s, agg(RES, ERR, app("error", t)) if b else agg(RES, OK, t)) for s, b in it.fork_bool(st, app("fails", t, now(it, st)))]
    return f


def ask(kind, opt=False):
    """a question about the page as it is now"""
    def f(it, st, args, ctx):
        t = app(kind, *[chars(it.rv(st, x)) for x in args], now(it, st))
        if not opt:
            return [(st, t)]
        return [(s, Some(t) if b else NONE) for s, b in it.fork_bool(st, app("is", t))]
    return f


def pure(kind, opt=False, res=False):
    def f(it, st, args, ctx):
        t = app(kind, *[chars(it.rv(st, x)) for x in args])
        if opt:
            return [(s, Some(t) if b else NONE) for s, b in it.fork_bool(st, app("is", t))]
        if res:
            return [(s, agg(RES, ERR, app("error", t)) if b else agg(RES, OK, t)) for s, b in it.fork_bool(st, app("fails", t))]
        return [(st, t)]
    return f


def same(it, st, args, ctx):
    return [(st, it.rv(st, args[0]))]


def silent(it, st, args, ctx):
    return [(st, UNIT)]


def to_type(it, ctx, ref):
    """the class a cast goes to, by the type of its result"""
    t = it.p.types[ctx.destty] if ctx.destty is not None else {}
    m = re.search(r"(?:Option<&|Result<)([\w:]+)", t.get("s", ""))
    return m[1].split("::")[-1] if m else None


def cast(form):
    def f(it, st, args, ctx):
        x = it.rv(st, args[0])
        k = to_type(it, ctx, form)
        if k is None:
            return None
        out = []
        for s, b in it.fork_bool(st, app("isa", mk("str", k), x)):
            if form == "ref":
                out.append((s, Some(x) if b else NONE))
            elif form == "into":
                out.append((s, agg(RES, OK, x) if b else agg(RES, ERR, x)))
            else:
                out.append((s, TRUE if b else FALSE))
        return out
    return f


N, E, D, C = "web_sys::Node::", "web_sys::Element::", "web_sys::Document::", "wasm_bindgen::JsCast::"
WEB = {
    N + "append_child": op("append", 2, result=1), N + "insert_before": op("insert_before", 3, result=1),
    N + "replace_child": op("replace", 3, result=2), N + "remove_child": op("remove_child", 2, result=1),
    N + "set_text_content": op("text", 2, fallible=False), N + "set_node_value": op("value", 2, fallible=False),
    E + "set_attribute": op("set_attr", 3), E + "remove_attribute": op("rm_attr", 2), E + "set_inner_html": op("html", 2, fallible=False),
    E + "remove": op("remove", 1, fallible=False), E + "append_with_node_1": op("append", 2), E + "replace_with_with_node_1": op("replace_with", 2),
    "web_sys::EventTarget::dispatch_event": op("dispatch", 2, result=lambda t: app("taken", t)),
    "web_sys::CharacterData::set_data": op("value", 2, fallible=False), "web_sys::Attr::set_value": op("attr_value", 2, fallible=False),
    D + "create_element": new("element", 1, True), D + "create_text_node": new("text", 1), D + "create_comment": new("comment", 1),
    D + "create_document_fragment": new("fragment", 0),
    N + "child_nodes": pure("children"), "web_sys::NodeList::length": ask("count"), "web_sys::NodeList::item": ask("child", opt=True), "web_sys::NodeList::get": ask("child", opt=True),
    N + "parent_node": ask("parent", opt=True), N + "parent_element": ask("parent_element", opt=True), N + "first_child": ask("first", opt=True), N + "last_child": ask("last", opt=True),
    N + "next_sibling": ask("next", opt=True), N + "previous_sibling": ask("prev", opt=True), N + "has_child_nodes": ask("has_children"),
    N + "node_type": pure("node_type"), N + "node_name": pure("node_name"), N + "text_content": ask("text_of", opt=True), N + "node_value": ask("value_of", opt=True),
    E + "tag_name": pure("tag_name"), E + "local_name": pure("local_name"), E + "attributes": pure("attrs"), E + "get_attribute": ask("attr_of", opt=True), E + "has_attribute": ask("has_attr"),
    E + "inner_html": ask("html_of"), E + "outer_html": ask("outer_of"), E + "query_selector": ask("found", opt=True),
    "web_sys::NamedNodeMap::length": ask("attr_count"), "web_sys::NamedNodeMap::item": ask("attr", opt=True), "web_sys::NamedNodeMap::get_with_index": ask("attr", opt=True),
    "web_sys::Attr::name": pure("attr_name"), "web_sys::Attr::value": pure("attr_text"), "web_sys::Attr::local_name": pure("attr_local"),
    "web_sys::HtmlTemplateElement::content": pure("content"),
    "web_sys::window": pure("window", opt=True), "web_sys::Window::document": pure("document", opt=True), "web_sys::Window::location": pure("location"),
    D + "body": pure("body", opt=True), D + "document_element": pure("html_element", opt=True), D + "get_element_by_id": ask("by_id", opt=True),
    "web_sys::console::log_1": silent, "web_sys::console::warn_1": silent, "web_sys::console::error_1": silent, "hotmeal_wasm::log": silent,
    "js_sys::Object::new": lambda it, st, args, ctx: [(st, app("new", mk("str", "object"), mk("str", ctx.site)))],
    "web_sys::CustomEventInit::new": lambda it, st, args, ctx: [(st, app("new", mk("str", "init"), mk("str", ctx.site)))],
    "js_sys::Reflect::set": op("field", 3, result=lambda t: TRUE), "js_sys::Reflect::get": pure("field_of", res=True),
    "web_sys::CustomEventInit::set_bubbles": op("bubbles", 2, fallible=False), "web_sys::CustomEventInit::set_detail": op("detail", 2, fallible=False),
    "web_sys::CustomEventInit::set_cancelable": op("cancelable", 2, fallible=False), "web_sys::CustomEventInit::set_composed": op("composed", 2, fallible=False),
    "js_sys::JSON::stringify": pure("json", res=True),
    C + "dyn_ref": cast("ref"), C + "dyn_into": cast("into"), C + "has_type": cast("bool"), C + "is_instance_of": cast("bool"), C + "unchecked_into": same, C + "unchecked_ref": same,
    "wasm_bindgen::JsValue::from_str": pure("js"),
    # only what an error says depends on these
    "wasm_bindgen::JsValue::as_string": lambda it, st, args, ctx: [(st, Some(app("as_string", it.rv(st, args[0]))))],
}


def query(it, st, args, ctx):
    """query_selector: may fail, may find nothing"""
    t = app("found", *[chars(it.rv(st, x)) for x in args], now(it, st))
    out = []
    for s, b in it.fork_bool(st, app("fails", t)):
        if b:
            out.append((s, agg(RES, ERR, app("error", t))))
        else:
            out += [(s2, agg(RES, OK, Some(t) if c else NONE)) for s2, c in it.fork_bool(s, app("is", t))]
    return out


def bare(t):
    while t.tag == "cast":
        t = t.a[0]
    return t


def item(it, st, args, ctx):
    """a child by its number: there is one below the count"""
    t = app("child", *[it.rv(st, x) for x in args], now(it, st))
    for l, u in st.facts.items():
        if l.tag == "lt" and u is True and bare(l.a[0]) is bare(t.a[2]) and bare(l.a[1]) is app("count", t.a[1], t.a[3]):
            return [(st, Some(t))]
    return [(s, Some(t) if b else NONE) for s, b in it.fork_bool(st, app("is", t))]


def new_event(it, st, args, ctx):
    t = app("new", mk("str", "event"), *[chars(it.rv(st, x)) for x in args], mk("str", ctx.site))
    return [(s, agg(RES, ERR, app("error", t)) if b else agg(RES, OK, t)) for s, b in it.fork_bool(st, app("fails", t))]


def become(it, st, args, ctx):
    """a node as one of its base classes; an error as it is"""
    v = it.rv(st, args[0])
    return [(st, v)] if v.tag in ("app", "phi") else None


WEB["web_sys::NodeList::item"] = WEB["web_sys::NodeList::get"] = item
WEB["std::convert::From::from"] = become
WEB[D + "query_selector"] = WEB[E + "query_selector"] = query
WEB["web_sys::CustomEvent::new_with_event_init_dict"] = WEB["web_sys::CustomEvent::new"] = new_event
CLASS = re.compile(r"^<(?:web_sys|js_sys|wasm_bindgen)::[\w:]+ as (?:std|core)::(?:ops::Deref|convert::AsRef|convert::From|clone::Clone|borrow::Borrow).*>::\w+$|"
                          r"^<.* as (?:std|core)::convert::From<web_sys::\w+>>::from$")


def slot(keep):
    """the node put away under a number: looked at, or taken out"""
    def f(it, st, args, ctx):
        k = it.rv(st, args[1])
        t = app("slot", k, now(it, st))
        out = []
        for s, b in it.fork_bool(st, app("is", t)):
            if not keep:
                s = s.copy()
                do(it, s, mk("op", "take", it.rv(st, args[0]), k))
            out.append((s, Some(t) if b else NONE))
        return out
    return f


SLOTS = {"hotmeal_wasm::Slots::new": lambda it, st, args, ctx: [(st, app("new", mk("str", "slots"), mk("str", ctx.site)))],
         "hotmeal_wasm::Slots::get": slot(True), "hotmeal_wasm::Slots::take": slot(False)}


def store(it, st, args, ctx):
    st = st.copy()
    do(it, st, mk("op", "store", it.rv(st, args[0]), it.rv(st, args[1]), it.rv(st, args[2])))
    return [(st, UNIT)]


SLOTS["hotmeal_wasm::Slots::store"] = store
WEB_API = dict(HOT_API)
WEB_API.update(WEB)


class WRoot(HRoot):
    """a function of hotmeal-wasm"""

    def __init__(self, prog, b, args, heap=None, extra=None):
        h = {PAGE: mk("coll", PAGE, (mk("base", "^", PAGE, (), "past"),))}
        h.update(heap or {})
        super().__init__(prog, b, args, matching=False, treeapi=False, heap=h, extra={**WEB_API, **(extra or {})})

    def api(self, ic):
        a = super().api(ic)

        class A(type(a)):
            def get(self, name, default=None):
                if name is not None and name not in self and CLASS.match(name):
                    return same
                return super().get(name, default)
        return A(a)
