"""Analysis roots: abstract Matching API, argument set-up."""
from term import *
from engine import *
from models import MODELS, st_, as_stream, len_term, empty_lit
import models

C = "cinereus::"
M = C + "matching::Matching::"
D = C + "tree::DiffTree::"


def msnap(it, st, v):
    return it.rv(st, v)


def mobj(it, st, v):
    return models.obj_of(it, st, v)


def i_new(it, st, args, ctx):
    st = st.copy()
    return [(st, it.new_coll(st, ctx.site, "matching"))]


def i_add(it, st, args, ctx):
    o = mobj(it, st, args[0])
    a, b = it.rv(st, args[1]), it.rv(st, args[2])
    if o is None:
        return None
    s = st.copy()
    it.push_node(s, o.a[0], mk("item", tup(a, b), mkfacts(s.facts), ctx.site, it.snapshot(st, o.a[0])))
    return [(s, UNIT)]


def getter(which, contains):
    def f(it, st, args, ctx):
        m = msnap(it, st, args[0])
        x = it.rv(st, args[1])
        if m.tag == "snap":
            if not m.a[1]:
                return [(st, FALSE if contains else NONE)]
            n = m.a[1][-1]
            if n.tag == "item":
                i = 0 if which == "get_b" else 1
                if fld(n.a[0], 0, i) is x:
                    return [(st, TRUE if contains else Some(fld(n.a[0], 0, 1 - i)))]
        t = app(which, m, x)
        return [(st, disceq(t, 1) if contains else t)]
    return f


def i_pairs(it, st, args, ctx):
    return [(st, st_("src", app("pairs", msnap(it, st, args[0]))))]


def i_len(it, st, args, ctx):
    return [(st, mk("len", app("pairs", msnap(it, st, args[0]))))]


def i_empty(it, st, args, ctx):
    return [(st, eq(mk("len", app("pairs", msnap(it, st, args[0]))), Int(0)))]


MATCHING_API = {
    M + "new": i_new, M + "with_capacity": i_new, M + "default": i_new,
    "<" + C + "matching::Matching as std::default::Default>::default": i_new,
    M + "add": i_add, M + "contains_a": getter("get_b", True), M + "contains_b": getter("get_a", True),
    M + "get_b": getter("get_b", False), M + "get_a": getter("get_a", False), M + "pairs": i_pairs,
    M + "len": i_len, M + "is_empty": i_empty,
}


def d_child_count(it, st, args, ctx):
    ra = [it.rv(st, a) for a in args]
    return [(st, mk("len", app(D + "children", *ra)))]


TREE_API = {D + "child_count": d_child_count}


def tree_axiom(lit):
    # descendants() includes the node itself
    if lit.tag == "eq" and any(x.tag == "len" and x.a[0].tag == "app" and x.a[0].a[0] == D + "descendants" for x in lit.a) \
            and any(x is Int(0) for x in lit.a):
        return False
    return None


class Root:
    def api(self, ic):
        return ic

    def __init__(self, prog, name, args, matching=True, treeapi=True, heap=None, extra=None, facts=None):
        self.prog = prog
        self.name = name
        b = prog.fn(name) if isinstance(name, str) else name
        if b is None:
            raise Unsupported("function not found: %s" % name)
        ic = dict(models.TRACE_API)
        if matching:
            ic.update(MATCHING_API)
        if treeapi:
            ic.update(TREE_API)
        if extra:
            ic.update(extra)
        self.it = it = Interp(prog, MODELS, self.api(ic))
        if treeapi:
            it.axiom = tree_axiom
        st = State()
        if heap:
            st.heap.update(heap)
        if facts:
            st.facts.update(facts)
        it.stack.append(b["d"])
        self.body = b
        self.args = list(args)
        it.args_of[b["d"]] = (st, self.args)
        self.outs = it.exec_body(b, list(args), st, it.frame(None, "root", b["d"]))


def P(name):
    return mk("param", name)
