"""Models of the indextree arena: structure queries become the abstract tree's terms, changes become recorded events."""
from term import *
from engine import *
from logic import D, dt
from models import st_, obj_of
import models

X = "indextree::"


def tree_of(it, st, v):
    """the abstract tree an arena belongs to"""
    a = it.rv(st, v)
    if a.tag == "fld":
        return a.a[0]
    while a.tag == "snap" and a.a[0] == "arena" and a.a[1] and a.a[1][-1].tag == "set":      # what nodes hold is not how they are linked
        a = snap("arena", a.a[1][:-1])
    return a


def q(name, order=(0, 1)):
    """a query (node, arena) answered by a term of the abstract tree"""
    def f(it, st, args, ctx):
        return [(st, app(name, tree_of(it, st, args[order[1]]), it.rv(st, args[order[0]])))]
    return f


def stream_q(name, rev=False):
    def f(it, st, args, ctx):
        s = st_("src", app(name, tree_of(it, st, args[1]), it.rv(st, args[0])))
        return [(st, st_("rev", s) if rev else s)]
    return f


def x_get(it, st, args, ctx):
    return [(st, Some(app("node", tree_of(it, st, args[0]), it.rv(st, args[1]))))]


def x_index(it, st, args, ctx):
    return [(st, app("node", tree_of(it, st, args[0]), it.rv(st, args[1])))]


def of_node(name):
    def f(it, st, args, ctx):
        n = it.rv(st, args[0])
        if n.tag != "app" or n.a[0] != "node":
            return None
        return [(st, app(name, n.a[1], n.a[2]))]
    return f


def x_count(it, st, args, ctx):
    return [(st, app("arena_count", tree_of(it, st, args[0])))]


def x_new(it, st, args, ctx):
    st = st.copy()
    return [(st, it.new_coll(st, ctx.site, "arena"))]


def event(it, st, v, node):
    o = obj_of(it, st, v)
    if o is None:
        raise Unsupported("change to an arena that is not a local object")
    it.push_node(st, o.a[0], node)


def x_new_node(it, st, args, ctx):
    st = st.copy()
    i = app("fresh", mk("str", ctx.site))
    event(it, st, args[0], mk("node", i, it.rv(st, args[1])))
    return [(st, i)]


def link(how, result):
    def f(it, st, args, ctx):
        if result is UNIT:
            it.note_panic(ctx.body, ctx.frame, ctx.span, "link", app("under", it.rv(st, args[0]), it.rv(st, args[1])), True, st)
        st = st.copy()
        event(it, st, args[2], mk("link", how, it.rv(st, args[0]), it.rv(st, args[1])))
        return [(st, result)]
    return f


def x_append_value(it, st, args, ctx):
    st = st.copy()
    i = app("fresh", mk("str", ctx.site))
    event(it, st, args[2], mk("node", i, it.rv(st, args[1])))
    event(it, st, args[2], mk("link", "append", it.rv(st, args[0]), i))
    return [(st, i)]


OK = agg("std::result::Result", 0, UNIT)
ARENA_API = {
    X + "Arena::get": x_get, X + "Node::get": of_node("data"), X + "Node::parent": of_node(D + "parent"),
    "<indextree::Arena as std::ops::Index>::index": x_index,
    X + "Node::first_child": of_node("first_child"), X + "Node::last_child": of_node("last_child"),
    X + "Node::next_sibling": of_node("next_sibling"), X + "Node::previous_sibling": of_node("previous_sibling"),
    X + "NodeId::children": stream_q(D + "children"), X + "NodeId::reverse_children": stream_q(D + "children", True),
    X + "NodeId::descendants": stream_q(D + "descendants"), X + "NodeId::ancestors": stream_q("ancestors"),
    X + "NodeId::preceding_siblings": stream_q("preceding_siblings"), X + "NodeId::following_siblings": stream_q("following_siblings"),
    X + "NodeId::predecessors": stream_q("predecessors"),
    X + "NodeId::traverse": stream_q("traverse"), X + "NodeId::reverse_traverse": stream_q("reverse_traverse"),
    X + "Arena::count": x_count,
    X + "Arena::new": x_new, X + "Arena::with_capacity": x_new,
    "<indextree::Arena as std::default::Default>::default": x_new,
    X + "Arena::new_node": x_new_node, X + "NodeId::append": link("append", UNIT), X + "NodeId::prepend": link("prepend", UNIT),
    X + "NodeId::checked_append": link("append", OK), X + "NodeId::checked_prepend": link("prepend", OK),
    X + "NodeId::insert_after": link("after", UNIT), X + "NodeId::insert_before": link("before", UNIT),
    X + "NodeId::append_value": x_append_value,
}
