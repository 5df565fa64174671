"""Analysis roots and models for the crates above cinereus: hotmeal and hotmeal-server.

Both are type-checked against stubs/ (signatures of the dependencies that are not on this machine); what those dependencies
do is only assumed through the models below."""
import json
import re

from term import *
from engine import *
from roots import Root, P
from arena import ARENA_API, event
from logic import D
from models import obj_of, as_stream, st_, MODELS, m_clone
import models

STRING = "String"


def ident(it, st, args, ctx):
    """the same characters"""
    return [(st, text(it, st, args[0]))]


def text(it, st, v):
    """a string value by its characters: owned, borrowed and converted copies of a text are the same term"""
    return it.rv(st, v)


def s_new(it, st, args, ctx):
    st = st.copy()
    return [(st, it.new_coll(st, ctx.site, STRING))]


def s_push(it, st, args, ctx):
    o = obj_of(it, st, args[0])
    if o is None or st.heap[o.a[0]].a[0] != STRING:
        return None
    st = st.copy()
    x = it.rv(st, args[1])
    it.push_node(st, o.a[0], mk("item", app("chr", x) if ctx.name.endswith("::push") else x, mkfacts(st.facts), ctx.site))
    return [(st, UNIT)]


def s_add(it, st, args, ctx):
    """appending with an operator"""
    r = s_push(it, st, args, ctx)
    if r is None or ctx.name.endswith("add_assign"):
        return r
    return [(s, args[0]) for s, _ in r]


def cut(t, a, b):
    """t[a..b] of a text"""
    k = ("RangeTo", (b,)) if a is None else ("RangeFrom", (a,)) if b is None else ("Range", (a, b))
    return app("std::ops::Index::index@core::str::traits::index", t, agg("std::ops::" + k[0], 0, *k[1]))


def s_split_at(it, st, args, ctx):
    t, k = it.rv(st, args[0]), it.rv(st, args[1])
    return [(st, agg("tuple", 0, cut(t, None, k), cut(t, k, None)))]


def s_insert(it, st, args, ctx):
    """String::insert_str on a text that was not put together here"""
    t = it.rv(st, args[0])
    loc = args[0]
    while loc.tag == "ref" and (v := it.read(st, ("cell", loc.a[0], loc.a[1]))).tag == "ref":
        loc = v
    if loc.tag != "ref" or t.tag == "snap" or it.deref_all(st, args[0]).tag == "obj":
        return None
    st = st.copy()
    o = it.new_coll(st, ctx.site, STRING)
    k = it.rv(st, args[1])
    for x in (cut(t, None, k), it.rv(st, args[2]), cut(t, k, None)):
        it.push_node(st, o.a[0], mk("item", x, mkfacts(st.facts), ctx.site))
    it.write(st, ("cell", loc.a[0], loc.a[1]), o)
    return [(st, UNIT)]


def s_marked(it, st, args, ctx):
    """an argument of format! that is not written as it is"""
    return [(st, app(ctx.name.rsplit("_", 1)[1], it.rv(st, args[0])))]


def s_format(it, st, args, ctx):
    """a new text"""
    st = st.copy()
    o = it.new_coll(st, ctx.site, STRING)
    it.push_node(st, o.a[0], mk("item", app("fmt", it.rv(st, args[0])), mkfacts(st.facts), ctx.site))
    return [(st, o)]


def s_write(it, st, args, ctx):
    """write! on a text: never fails"""
    o = obj_of(it, st, args[0])
    if o is None or st.heap[o.a[0]].a[0] != STRING:
        return None
    st = st.copy()
    it.push_node(st, o.a[0], mk("item", it.rv(st, args[1]), mkfacts(st.facts), ctx.site))
    return [(st, agg("std::result::Result", 0, UNIT))]


def s_concat(it, st, args, ctx):
    """the pieces of a list, one after the other"""
    t = it.rv(st, args[0])
    ns = t.a[1] if t.tag == "snap" else [mk("item", x, (), "") for x in t.a[2:]] if t.tag == "agg" and t.a[0] == "array" else None
    if ns is None or any(n.tag != "item" for n in ns):
        return None
    st = st.copy()
    o = it.new_coll(st, ctx.site, STRING)
    for n in ns:
        it.push_node(st, o.a[0], mk("item", n.a[0], mkfacts(st.facts), ctx.site))
    return [(st, o)]


def s_default(model):
    """the default text is empty"""
    def f(it, st, args, ctx):
        t = it.p.types[ctx.destty] if ctx.destty is not None else {}
        if t.get("p") in ("std::string::String", "alloc::string::String"):
            if not args:
                return s_new(it, st, args, ctx)
            return [(s, mk("str", '""') if v is None else v) for s, v in models.split_opt(it, st, args[0])]
        return model(it, st, args, ctx)
    return f


def s_own(it, st, args, ctx):
    """a fresh copy of the characters"""
    v = it.deref_all(st, args[0])
    if v.tag == "obj":
        return m_clone(it, st, args, ctx)
    return [(st, it.rv(st, v))]


def m_old(it, st, args, ctx):
    """HashMap::insert and remove: what was there before comes back"""
    o = obj_of(it, st, args[0])
    if o is None:
        return None
    k = it.rv(st, args[1])
    t = it.snapshot(st, o.a[0])
    out = []
    for s, b in it.fork_bool(st, models.haskey(it, t, k)):
        s = s.copy()
        v = Some(models.map_value(it, s, o.a[0], k)) if b else NONE
        if ctx.name.endswith("insert"):
            it.push_node(s, o.a[0], mk("ins", k, it.rv(s, args[2]), mkfacts(s.facts), ctx.site))
        else:
            it.push_node(s, o.a[0], mk("del", k, mkfacts(s.facts), ctx.site))
        out.append((s, v))
    return out


def s_is_empty(it, st, args, ctx):
    t = it.rv(st, args[0])
    c = str_lit(t)
    if c is not None:
        return [(st, TRUE if not c else FALSE)]
    return [(st, it.empty_lit(t) if t.tag == "snap" else eq(mk("len", t), Int(0)))]


def str_lit(t):
    """the text of a literal, or None"""
    if t.tag == "str" and t.a[0][:1] == '"' and "\\" not in t.a[0]:
        return t.a[0][1:-1]
    return None


def s_len(it, st, args, ctx):
    t = it.rv(st, args[0])
    if t.tag == "snap":
        return None
    c = str_lit(t)
    return [(st, mk("len", t) if c is None else Int(len(c.encode())))]


def ref_arith(it, st, args, ctx):
    """arithmetic on references to numbers"""
    v = it.binop(st, ctx.name.rsplit("::", 1)[1].capitalize(), it.rv(st, args[0]), it.rv(st, args[1]))
    return [(st, v)]


def same_arg(it, st, args, ctx):
    return [(st, it.rv(st, args[0]))]


STR_API = {"core::str::len": s_len, "std::string::String::len": s_len,
           "core::str::as_bytes": same_arg, "std::string::String::as_bytes": same_arg, "std::string::String::into_bytes": same_arg,
           "std::collections::HashMap::insert": m_old, "std::collections::HashMap::remove": m_old,
           "core::str::is_empty": s_is_empty, "std::str::is_empty": s_is_empty, "std::string::String::is_empty": s_is_empty,
           "compact_str::CompactString::len": s_len, "compact_str::CompactString::is_empty": s_is_empty}
for _n in ("Prefix", "Namespace", "LocalName"):
    STR_API["html5ever::%s::is_empty" % _n] = s_is_empty
    STR_API["html5ever::%s::len" % _n] = s_len
for _n in ("std::string::String::new", "std::string::String::with_capacity"):
    STR_API[_n] = s_new
for _n in ("std::string::String::push_str", "std::string::String::push"):
    STR_API[_n] = s_push
for _n in ("<std::string::String as std::ops::AddAssign>::add_assign", "<std::string::String as std::ops::Add>::add"):
    STR_API[_n] = s_add
for _n in ("core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_lower_hex"):
    STR_API[_n] = s_marked
for _n in ("std::fmt::format", "alloc::fmt::format"):
    STR_API[_n] = s_format
STR_API["std::hint::must_use"] = lambda it, st, args, ctx: [(st, args[0])]
for _n in ("std::fmt::Write::write_fmt", "<std::string::String as std::fmt::Write>::write_fmt"):
    STR_API[_n] = s_write
STR_API["std::string::String::insert_str"] = s_insert
for _n in ("core::str::split_at", "std::str::split_at"):
    STR_API[_n] = s_split_at
for _n in ("core::slice::concat", "std::slice::concat"):
    STR_API[_n] = s_concat
for _n in ("std::option::Option::unwrap_or_default", "std::default::Default::default", "<std::string::String as std::default::Default>::default"):
    STR_API[_n] = s_default(MODELS.get(_n, MODELS["std::default::Default::default"]))
for _n in ("std::string::String::as_str", "std::borrow::ToOwned::to_owned", "std::string::ToString::to_string", "<std::string::String as std::ops::Deref>::deref",
           "std::str::to_owned", "core::str::to_owned", "std::string::String::from", "<std::string::String as std::convert::From>::from",
           "std::str::<impl std::borrow::ToOwned for str>::to_owned", "<T as std::string::ToString>::to_string", "std::string::String::into_boxed_str",
           "<std::string::String as std::clone::Clone>::clone", "<std::string::String as std::convert::AsRef>::as_ref"):
    STR_API[_n] = s_own
for _a in ("&usize", "usize"):
    for _b in ("Add", "Sub", "Mul"):
        STR_API["<%s as std::ops::%s>::%s" % (_a, _b, _b.lower())] = ref_arith


# ---- hotmeal ----------------------------------------------------------------
RENAMES = (("cinereus::indextree", "indextree"), ("cinereus::DiffTree", "cinereus::tree::DiffTree"),
           ("cinereus::Matching::", "cinereus::matching::Matching::"), ("cinereus::Tree::", "cinereus::tree::Tree::"))


def prepare(dump):
    """items re-exported by cinereus under the names the models use"""
    s = json.dumps(dump)
    for a, b in RENAMES:
        s = s.replace(a, b)
    return json.loads(s)


TEXTY = r"(stem::Stem|html5ever::(LocalName|Prefix|Namespace)|tendril::StrTendril|compact_str::CompactString|std::string::String|str)"
CONV = re.compile(r"<%s as std::(convert::(AsRef|From|Into)|ops::Deref|borrow::(Borrow|ToOwned)|clone::Clone|string::ToString)>::\w+$" % TEXTY)
CONV2 = re.compile(r"(compact_str::CompactString::(new|as_str|into_string)|hotmeal::stem::Stem::(as_str|into_owned)|std::convert::Into::into|std::borrow::Cow::(into_owned|to_mut)|"
                   r"<&mut T as std::convert::AsRef>::as_ref)$")
EMPTY = mk("str", '""')


def t_conv(it, st, args, ctx):
    """conversions between string types keep the characters"""
    v = it.deref_all(st, args[0])
    if v.tag == "obj" and st.heap[v.a[0]].tag == "coll":
        return s_own(it, st, args, ctx)
    return [(st, chars(it.rv(st, v)))]


def chars(t):
    """the characters of a string value, however it is held"""
    while t.tag == "agg" and t.a[0].endswith("stem::Stem") and len(t.a) == 3:
        t = t.a[2]
    if t.tag == "snap" and t.a[0] == STRING and not t.a[1]:
        return EMPTY
    return t


class Api(dict):
    """models by name, and by pattern for the many string conversions"""

    def get(self, name, default=None):
        h = dict.get(self, name)
        if h is None and name is not None:
            if CONV.match(name) or CONV2.match(name):
                h = t_conv
            elif HASH.match(name):
                h = h_hash
            elif RAPID.match(name):
                h = h_new
            elif name.startswith("<rapidhash") and name.endswith("Hasher>::finish"):
                h = h_finish
            elif name in ("hotmeal::stem::Stem::new", "<compact_str::CompactString as std::default::Default>::default", "<stem::Stem as std::default::Default>::default"):
                h = lambda it, st, args, ctx: [(st, EMPTY)]                                  # noqa: E731
            if h is not None:
                self[name] = h
        return default if h is None else h


HOT_API = {}
HOT_API.update(ARENA_API)
HOT_API.update(STR_API)


class HRoot(Root):
    """a function of hotmeal"""

    def api(self, ic):
        return Api(ic)


# ---- cinereus' Tree as hotmeal sees it: what its methods do is decided in cinereus (C19..C24) ----
CT = "cinereus::Tree"
CND = "cinereus::NodeData"
TFI = {"arena": 0, "root": 1}


def fidx(prog, adt, name, v=0):
    """position of a field"""
    ad = prog.adts.get(adt) or next((a for n, a in prog.adts.items() if n.endswith("::" + adt)), None)
    if ad is None or name not in ad["v"][v]["f"]:
        raise Unsupported("%s has no field %s" % (adt, name))
    return ad["v"][v]["f"].index(name)


def vidx(prog, adt, name):
    """position of a variant"""
    ad = next((a for n, a in prog.adts.items() if n.endswith("::" + adt)), None)
    for i, v in enumerate(ad["v"] if ad else ()):
        if v["n"] == name:
            return i
    raise Unsupported("%s has no variant %s" % (adt, name))


def whole(it, st, v):
    """the abstract tree a Tree value stands for"""
    t = it.rv(st, v)
    if t.tag == "agg" and t.a[0].endswith("Tree") and len(t.a) == 4:
        a = t.a[2 + fidx(it.p, CT, "arena")]
        return a.a[0] if a.tag == "fld" else a
    return t


def tarena(it, st, v):
    """a mutable Tree's arena object"""
    t = it.deref_all(st, v)
    if t.tag != "agg":
        raise Unsupported("change to a tree that is not a local object: " + show(t, 3))
    return t.a[2 + fidx(it.p, CT, "arena")]


def k_new(it, st, args, ctx):
    st = st.copy()
    o = it.new_coll(st, ctx.site, "arena")
    i = app("fresh", mk("str", ctx.site))
    it.push_node(st, o.a[0], mk("node", i, it.rv(st, args[0])))
    fs = [None, None]
    fs[fidx(it.p, CT, "arena")], fs[fidx(it.p, CT, "root")] = o, i
    return [(st, agg(CT, 0, *fs))]


def k_add_child(it, st, args, ctx):
    st = st.copy()
    a = tarena(it, st, args[0])
    i = app("fresh", mk("str", ctx.site))
    event(it, st, a, mk("node", i, it.rv(st, args[2])))
    event(it, st, a, mk("link", "append", it.rv(st, args[1]), i))
    return [(st, i)]


def k_q(name, stream=False, arity=2):
    def f(it, st, args, ctx):
        t = app(D + name, whole(it, st, args[0]), *[it.rv(st, a) for a in args[1:arity]])
        return [(st, st_("src", t) if stream else t)]
    return f


def k_get(it, st, args, ctx):
    return [(st, app("data", whole(it, st, args[0]), it.rv(st, args[1])))]


def k_data(field):
    def f(it, st, args, ctx):
        return [(st, fld(app("data", whole(it, st, args[0]), it.rv(st, args[1])), 0, fidx(it.p, CND, field)))]
    return f


def k_root(it, st, args, ctx):
    t = it.rv(st, args[0])
    return [(st, fld(t, 0, fidx(it.p, CT, "root")))]


TREE = {"cinereus::tree::Tree::new": k_new, "cinereus::tree::Tree::add_child": k_add_child, "cinereus::tree::Tree::get": k_get}
for _n in ("children", "descendants", "parent", "position", "child_count", "height"):
    TREE["cinereus::tree::Tree::" + _n] = TREE["<cinereus::Tree as cinereus::tree::DiffTree>::" + _n] = k_q(_n, _n in ("children", "descendants"))
for _n in ("post_order", "iter", "node_count"):
    TREE["cinereus::tree::Tree::" + _n] = TREE["<cinereus::Tree as cinereus::tree::DiffTree>::" + _n] = k_q(_n, _n != "node_count", 1)
for _n in ("hash", "kind", "properties", "text"):
    TREE["<cinereus::Tree as cinereus::tree::DiffTree>::" + _n] = k_data(_n)
TREE["<cinereus::Tree as cinereus::tree::DiffTree>::root"] = k_root


# ---- hashing ----------------------------------------------------------------
def h_new(it, st, args, ctx):
    st = st.copy()
    return [(st, it.new_coll(st, ctx.site, "hasher"))]


def h_hash(it, st, args, ctx):
    o = obj_of(it, st, args[1])
    if o is None or st.heap[o.a[0]].a[0] != "hasher":
        return None
    st = st.copy()
    it.push_node(st, o.a[0], mk("item", chars(it.rv(st, args[0])), mkfacts(st.facts), ctx.site))
    return [(st, UNIT)]


def h_write(it, st, args, ctx):
    return h_hash(it, st, [args[1], args[0]], ctx)


def h_finish(it, st, args, ctx):
    return [(st, app("digest", it.rv(st, args[0])))]


HASH = re.compile(r"(<(html5ever::\w+|u\d+|i\d+|usize|isize|str|std::string::String|compact_str::CompactString|bool|std::option::Option|std::vec::Vec) as std::hash::Hash>::hash"
                  r"|std::hash::Hash::hash|core::hash::impls::hash|core::str::traits::hash|core::hash::impls::<impl std::hash::Hash for \w+>::hash|std::hash::impls::<impl std::hash::Hash for \w+>::hash)$")
RAPID = re.compile(r"<?rapidhash::.*RapidHasher.*(Default>::default|default_const|::new)$")


def cell_set(it, st, args, ctx):
    """Cell::set on something the function was given"""
    r = models.m_cell_set(it, st, args, ctx)
    if r is None:
        st = st.copy()
        st.eff = st.eff + (mk("cellset", it.rv(st, args[0]), it.rv(st, args[1])),)
        r = [(st, UNIT)]
    return r


HOT_API["std::cell::Cell::set"] = cell_set

# ---- changing an arena -------------------------------------------------------
def x_cut(it, st, args, ctx):
    st = st.copy()
    event(it, st, args[1], mk("cut", it.rv(st, args[0])))
    return [(st, UNIT)]


def x_edit(it, st, args, ctx):
    """a node to be changed in place; the arena records what is written"""
    i = it.rv(st, args[1])
    o = obj_of(it, st, args[0])
    if o is None:
        raise Unsupported("change to an arena that is not a local object")
    r = app("mutnode", mk("ref", ("E", o.a[0], i), ()))
    return [(st, Some(r) if ctx.name.endswith("get_mut") else r)]


def x_get_mut(it, st, args, ctx):
    n = it.deref_all(st, args[0])
    if n.tag == "app" and n.a[0] == "mutnode":
        return [(st, n.a[1])]
    return None


def x_data(it, st, args, ctx):
    """Node::get: what the node holds"""
    n = it.deref_all(st, args[0])
    if n.tag == "app" and n.a[0] == "mutnode":
        return [(st, n.a[1])]
    n = it.rv(st, n)
    if n.tag != "app" or n.a[0] != "node":
        return None
    t = n.a[1]
    return [(st, it.arena_data(t.a[1], n.a[2]) if t.tag == "snap" and t.a[0] == "arena" else app("data", t, n.a[2]))]


EDIT = {"<indextree::Arena as std::ops::IndexMut>::index_mut": x_edit, "indextree::Arena::get_mut": x_edit,
        "indextree::Node::get_mut": x_get_mut, "indextree::Node::get": x_data, "indextree::NodeId::detach": x_cut}
HOT_API.update(TREE)
HOT_API.update(EDIT)


# ---- lists held by a node -----------------------------------------------------
def in_place(it, st, r):
    """is this a list inside a node that is being changed? its location"""
    while r.tag == "ref":
        if r.a[0][0] == "E" and r.a[1]:
            v = it.read(st, ("cell", r.a[0], r.a[1]))
            return ("cell", r.a[0], r.a[1]) if v.tag not in ("ref", "obj") else None
        r = it.read(st, ("cell", r.a[0], r.a[1]))
    return None


def on_copy(model):
    """a change to such a list is the same change to a copy, which is then written back"""
    def f(it, st, args, ctx):
        loc = in_place(it, st, args[0]) if args else None
        if loc is None:
            return model(it, st, args, ctx)
        v = it.rv(st, it.read(st, loc))
        st = st.copy()
        o = it.new_coll(st, ctx.site + "~in", "Vec")
        st.heap[o.a[0]] = mk("coll", "Vec", v.a[1] if v.tag == "snap" else (mk("copyof", v),))
        out = model(it, st, [o] + list(args[1:]), ctx)
        if out is None:
            return None
        res = []
        for s, x in out:
            s = s.copy()
            it.write(s, loc, it.snapshot(s, o.a[0]))
            res.append((s, x))
        return res
    return f


for _n in ("std::vec::Vec::push", "std::vec::Vec::retain", "std::vec::Vec::insert", "std::vec::Vec::remove", "std::vec::Vec::clear", "std::vec::Vec::truncate",
           "std::vec::Vec::pop", "<std::vec::Vec as std::iter::Extend>::extend", "std::vec::Vec::extend_from_slice", "std::vec::Vec::append"):
    if _n in MODELS:
        HOT_API[_n] = on_copy(MODELS[_n])
for _n in ("len", "is_empty", "clear", "insert", "remove", "pop", "extend_from_slice", "retain", "truncate", "with_capacity"):
    if "std::vec::Vec::" + _n in MODELS:
        HOT_API["smallvec::SmallVec::" + _n] = MODELS["std::vec::Vec::" + _n]


# ---- a list without its first ones is the rest of it ---------------------------



def on_rest(model):
    def f(it, st, args, ctx):
        s = as_stream(it, st, args[0])
        k = it.rv(st, args[1])
        if s.tag == "st" and s.a[0] == "src" and s.a[1].tag in ("app", "fld", "param", "sel") and k.tag == "int":
            return [(st, st_("src", app("std::ops::Index::index@core::slice::index::index", s.a[1], agg("std::ops::RangeFrom", 0, k))))]
        return model(it, st, args, ctx)
    return f


HOT_API["std::iter::Iterator::skip"] = on_rest(MODELS["std::iter::Iterator::skip"])
