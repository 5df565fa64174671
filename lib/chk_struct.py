"""The Matching container itself: what get/contains/pairs/len answer after any sequence of add()."""
from term import *
from engine import *
from models import MODELS, as_stream, len_term, VEC, SET, MAP, obj_of
import models
from report import *

M = "cinereus::matching::Matching"
COLL = {"Vec": VEC, "HashSet": SET, "HashMap": MAP, "BTreeSet": "BTreeSet", "BTreeMap": "BTreeMap", "VecDeque": "VecDeque"}


class Box:
    """a root object analysed call by call"""

    def __init__(self, prog, adt):
        self.prog = prog
        self.adt = adt
        self.it = Interp(prog, MODELS, dict(models.TRACE_API))
        self.it.zones = True
        self.n = 0

    def fn(self, name):
        bs = [b for b in self.prog.bodies.values() if b["local"] and b.get("self") is not None and b["n"] == name
              and self.prog.types[b["self"]].get("p") == self.adt]
        if not bs:
            bs = [b for b in self.prog.by_name.get(self.adt + "::" + name, [])]
        if len(bs) != 1:
            raise Unsupported("method %s::%s not found" % (self.adt, name))
        return bs[0]

    def generic(self, st):
        """a self object with unknown contents: every collection field has an unknown past"""
        v0 = self.prog.adts[self.adt]["v"][0]
        vs = [self.field(st, f, self.prog.types[t]) for f, t in zip(v0["f"], v0["ft"])]
        oid = "self#%d" % self.n
        self.n += 1
        st.heap[oid] = mk("cell", agg(self.adt, 0, *vs))
        return mk("ref", ("O", oid), ())

    def field(self, st, name, ty):
        last = self.prog.nname(ty["p"]).split("::")[-1] if ty["k"] == "adt" else None
        if last in COLL:
            oid = "self.%s" % name
            st.heap[oid] = mk("coll", COLL[last], (mk("base", "^", oid, (), "past"),))
            return mk("obj", oid)
        return mk("param", "self." + name)

    def own(self, st, v):
        """put a returned value into a cell, so that it can be passed by reference"""
        oid = "own#%d" % self.n
        self.n += 1
        st = st.copy()
        st.heap[oid] = mk("cell", v)
        return st, mk("ref", ("O", oid), ())

    def call(self, st, name, args):
        b = self.fn(name) if isinstance(name, str) else name
        self.it.stack.append(b["d"])
        try:
            outs = self.it.exec_body(b, list(args), st.copy(), self.it.frame(None, "root%d" % self.n, b["d"]))
        finally:
            self.it.stack.pop()
        self.n += 1
        self.it.functions.add(b["d"])
        return [(s, v) for s, v in outs]


def cases(bx, outs):
    return [(s, bx.it.rv(s, v)) for s, v in outs]


def equal(bx, s, x, y):
    """are the two values equal on every refinement of the state?"""
    return all(b for _, b in bx.it.fork_eq(s, bx.it.rv(s, x), bx.it.rv(s, y)))


def truth(bx, s, t):
    """the truth values the term can take"""
    return {b for _, b in bx.it.fork_bool(s, t)}


def chain(t):
    """(adapters, source) of a stream"""
    ad = []
    while t.tag == "st" and t.a[0] != "src":
        ad.append(tuple(x for i, x in enumerate(t.a) if i != 1))
        t = t.a[1]
    return ad, t.a[1] if t.tag == "st" else t


def put_src(t, src):
    if t.tag == "st" and t.a[0] != "src":
        return mk("st", t.a[0], put_src(t.a[1], src), *t.a[2:])
    return mk("st", "src", src)


def ctx0(bx):
    c = Ctx()
    bx.n += 1
    c.site = "q%d" % bx.n
    c.frame = bx.it.frame(None, c.site, "query")
    c.body = bx.fn("pairs")
    c.callee, c.span, c.argtys, c.destty, c.name = None, "", [], None, ""
    return c


SIDES = (("get_b", "contains_a", 0), ("get_a", "contains_b", 1))


def m_container(rep, prog):
    bx = Box(prog, M)
    it = bx.it
    a, b, x, n, n2 = (mk("param", c) for c in ("a", "b", "x", "n", "n2"))
    idx = lambda t: mk("app", "idx_of_node", t)
    W = "Matching::%s"

    def loc(name):
        f = bx.fn(name)
        return "%s (%s)" % (short(f["p"]), f.get("span", ""))
    # a fresh matching answers "no pairs"
    for ctor, args in (("new", []), ("with_capacity", [n, n2]), ("default", [])):
        try:
            bx.fn(ctor)
        except Unsupported:
            if ctor != "default":
                rep.fail("the constructors exist", W % ctor)
            continue
        for s0, v in bx.call(State(), ctor, args):
            s0, m = bx.own(s0, v)
            for g, c, _ in SIDES:
                for s, r in cases(bx, bx.call(s0, g, [m, x])):
                    rep.check(equal(bx, s, r, NONE), "a fresh Matching has no partner for any node", loc(g) + " after " + loc(ctor), show(r, 4))
                for s, r in cases(bx, bx.call(s0, c, [m, x])):
                    rep.check(truth(bx, s, r) == {False}, "a fresh Matching contains no node", loc(c) + " after " + loc(ctor), show(r, 4))
            for s, r in cases(bx, bx.call(s0, "len", [m])):
                rep.check(equal(bx, s, r, Int(0)), "a fresh Matching has length 0", loc("len") + " after " + loc(ctor), show(r, 4))
            for s, r in cases(bx, bx.call(s0, "is_empty", [m])):
                rep.check(truth(bx, s, r) == {True}, "a fresh Matching is empty", loc("is_empty") + " after " + loc(ctor), show(r, 4))
            for s, r in cases(bx, bx.call(s0, "pairs", [m])):
                _, src = chain(as_stream(it, s, r))
                rep.check(src.tag == "snap" and not src.a[1], "a fresh Matching lists no pairs", loc("pairs") + " after " + loc(ctor), show(src, 4))
    st = State()
    m = bx.generic(st)
    # contains_x is get_y.is_some(), in any state
    for g, c, _ in SIDES:
        for s, r in cases(bx, bx.call(st, g, [m, x])):
            for s2, q in cases(bx, bx.call(s, c, [m, x])):
                for s3, q3 in it.fork_bool(s2, q):
                    t = truth(bx, s3, disceq(it.rv(s3, r), 1))
                    rep.check(t == {q3}, "contains_a/contains_b agree with get_b/get_a", loc(c), "contains %s, partner %s" % (q3, show(r, 4)))
    for s, r in cases(bx, bx.call(st, "len", [m])):
        for s2, e in cases(bx, bx.call(s, "is_empty", [m])):
            for s3, e3 in it.fork_bool(s2, e):
                rep.check(truth(bx, s3, eq(r, Int(0))) == {e3}, "is_empty is len() == 0", loc("is_empty"), show(e, 4))
        for s2, p in cases(bx, bx.call(s, "pairs", [m])):
            ad, src = chain(as_stream(it, s2, p))
            ok = equal(bx, s2, r, len_term(src)) and not [z for z in ad if z[0] not in ("map", "copied", "cloned")]
            rep.check(ok, "len() counts the pairs listed by pairs()", loc("len"), "len is %s, pairs() is %s" % (show(r, 4), show(src, 4)))
    # one add changes exactly the answers for its two nodes
    for sa, _ in bx.call(st, "add", [m, a, b]):
        for g, c, i in SIDES:
            me, other = (a, b) if i == 0 else (b, a)
            for s, r in cases(bx, bx.call(sa, g, [m, me])):
                rep.check(equal(bx, s, r, Some(other)), "after add(a, b): get_b(a) = b and get_a(b) = a", loc(g) + " after " + loc("add"), show(r, 4))
        for s, p in cases(bx, bx.call(sa, "pairs", [m])):
            t = as_stream(it, s, p)
            ad, src = chain(t)
            okk = src.tag == "snap" and src.a[1] and src.a[1][-1].tag == "item"
            why = show(src, 5)
            if okk:
                one = it.rv(s, t)
                pre = None
                for s2, p2 in cases(bx, bx.call(st, "pairs", [m])):
                    pre = as_stream(it, s2, p2)
                okk = put_src(t, snap(src.a[0], src.a[1][:-1])) is pre
                why = "pairs() before: %s, after: %s" % (show(pre, 5), show(t, 5))
                if okk:
                    from models import collected
                    for s2, col in collected(it, s, put_src(t, snap(VEC, (src.a[1][-1],))), ctx0(bx)):
                        items = [z for z in col.a[1]]
                        okk = okk and len(items) == 1 and items[0].tag == "item" and it.rv(s2, items[0].a[0]) is tup(a, b)
                        why = show(col, 5)
            rep.check(okk, "after add(a, b): pairs() lists the earlier pairs and then (a, b)", loc("pairs") + " after " + loc("add"), why)
    for g, c, i in SIDES:
        me = a if i == 0 else b
        s0 = it.assume(st, eq(idx(x), idx(me)), False)
        s0 = it.assume(s0, eq(x, me), False)
        for s1, old in cases(bx, bx.call(s0, g, [m, x])):
            for s2, _ in bx.call(s1, "add", [m, a, b]):
                for s3, new in cases(bx, bx.call(s2, g, [m, x])):
                    rep.check(equal(bx, s3, old, new), "add(a, b) leaves the partners of all other nodes alone", loc(g) + " after " + loc("add"),
                              "was %s, is %s" % (show(old, 4), show(new, 4)))
    rep.cover["functions"] |= set(it.functions)
    rep.cover["call_sites"] += len(it.callsites)
    rep.cover["paths"] += it.npaths
    rep.cover["roots"].append("Matching::{new, with_capacity, add, get_a, get_b, contains_a, contains_b, pairs, len, is_empty}")
