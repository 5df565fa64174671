"""The bundled Tree: building it, reading it back, positions, heights and traversals."""
from term import *
from engine import *
from logic import *
from roots import Root, P
from arena import ARENA_API
from models import as_stream, collected, len_term, plain_src
from facts import walk, splice, loop_src
from chk_script import field_index, order_of
import models
from report import *

TR = "cinereus::tree::Tree"
ND = "cinereus::tree::NodeData"
NH = "cinereus::tree::NodeHash"
DT = "cinereus::tree::DiffTree"
T, ID = P("t"), P("id")


def methods(prog, adt, name, trait=False):
    """bodies called `name` implemented for `adt` (inherent ones, or those of trait impls)"""
    out = []
    for b in prog.bodies.values():
        if b["local"] and b["kind"] == "fn" and b["n"] == name and b.get("self") is not None \
                and prog.types[b["self"]].get("p") == adt and b["p"].startswith("<") == bool(trait) \
                and (not trait or trait in b["p"]):
            out.append(b)
    return out


def one(prog, adt, name, trait=False):
    m = methods(prog, adt, name, trait)
    if len(m) != 1:
        raise Unsupported("%s::%s%s not found" % (adt, name, " (%s)" % trait if trait else ""))
    return m[0]


def run(rep, prog, body, args, heap=None):
    r = Root(prog, body, args, matching=False, treeapi=False, extra=ARENA_API, heap=heap)
    rep.use(r)
    return r


def outs(r):
    return [(s, r.it.rv(s, v)) for s, v in r.outs if not inconsistent(s.facts)]


def at(body):
    return "%s (%s)" % (short(body["p"]), body.get("span", ""))


def views(prog, name):
    """the accessor as an inherent method and as the DiffTree method"""
    return methods(prog, TR, name) + methods(prog, TR, name, "DiffTree")


def same(f, x, y):
    return x is y or entails(f, eq(x, y), True)


def size(t):
    """a count of everything a source yields is its length"""
    if t.tag == "len" and t.a[0].tag == "snap":
        ns = splice(t.a[0].a[1])
        if len(ns) == 1 and ns[0].tag == "loop" and ns[0].a[1] == "end" and not ns[0].a[4] and len(ns[0].a[2]) == 1:
            p = ns[0].a[2][0]
            if len(p.a[2]) == 1 and p.a[2][0].tag == "item" and loop_src(p) is not None and len(p.a[3]) == 1:
                return mk("len", loop_src(p))
    return t


# ---- building -------------------------------------------------------------
def t_build(rep, prog):
    for b in methods(prog, TR, "new"):
        data = P("data")
        r = run(rep, prog, b, [data])
        for s, v in outs(r):
            ai, ri = (field_index(prog, TR, "Tree", x)[1] for x in ("arena", "root"))
            ar, root = fld(v, 0, ai), fld(v, 0, ri)
            ev = list(ar.a[1]) if ar.tag == "snap" else None
            ok = ev is not None and len(ev) == 1 and ev[0].tag == "node" and ev[0].a[1] is data and ev[0].a[0] is root
            rep.check(ok, "a new tree has exactly one node, the root, holding the given data", at(b), show(v, 6))
    b = one(prog, TR, "add_child")
    ai, ri = (field_index(prog, TR, "Tree", x)[1] for x in ("arena", "root"))
    fs = [None, None]
    past = mk("base", "^", "arena", (), "past")
    fs[ai], fs[ri] = mk("obj", "arena"), P("root")
    heap = {"arena": mk("coll", "arena", (past,)), "tree": mk("cell", agg(TR, 0, *fs))}
    parent, data = P("parent"), P("data")
    r = run(rep, prog, b, [mk("ref", ("O", "tree"), ()), parent, data], heap)
    os_ = outs(r)
    rep.check(len(os_) > 0, "add_child returns", at(b))
    for s, v in os_:
        t = s.heap["tree"].a[0]
        rep.check(fld(t, 0, ri) is P("root"), "add_child leaves the root alone", at(b), show(fld(t, 0, ri), 4))
        ev = s.heap["arena"].a[1]
        rep.check(fld(t, 0, ai) is mk("obj", "arena") and ev[0] is past, "add_child keeps the existing nodes", at(b), show(ev, 4))
        new = [e for e in ev[1:] if e.tag == "node"]
        lk = [e for e in ev[1:] if e.tag != "node"]
        rep.check(len(new) == 1 and new[0].a[1] is data, "add_child creates exactly one node with the given data", at(b), show(ev[1:], 5))
        rep.check(len(new) == 1 and v is new[0].a[0], "add_child returns the id of the new node", at(b), show(v, 4))
        rep.check(len(lk) == 1 and lk[0].tag == "link" and lk[0].a[0] == "append" and lk[0].a[1] is parent and len(new) == 1
                  and lk[0].a[2] is new[0].a[0], "the new node becomes the last child of the given parent", at(b), show(lk, 5))


# ---- reading back ---------------------------------------------------------
def data_field(prog, name):
    return fld(app("data", T, ID), *field_index(prog, ND, "NodeData", name))


def is_opt_view(f, r, x):
    """r is the Option x seen by reference"""
    if same(f, r, x):
        return True
    if r is NONE:
        return entails(f, disceq(x, 1), False)
    return r.tag == "agg" and r.a[1] == 1 and entails(f, disceq(x, 1), True) and same(f, r.a[2], fld(x, 1, 0))


def src_term(it, s, v):
    """source term of a stream that yields it unchanged"""
    v = as_stream(it, s, v)
    return plain_src(v)


def t_access(rep, prog):
    for name in ("hash", "kind", "properties"):
        for b in methods(prog, TR, name, "DiffTree"):
            r = run(rep, prog, b, [T, ID])
            for s, v in outs(r):
                rep.check(same(s.facts, v, data_field(prog, name)), "%s() answers what the node stores" % name, at(b), show(v, 5))
    for b in methods(prog, TR, "text", "DiffTree"):
        r = run(rep, prog, b, [T, ID])
        for s, v in outs(r):
            rep.check(is_opt_view(s.facts, v, data_field(prog, "text")), "text() answers what the node stores", at(b), show(v, 5))
    for b in methods(prog, TR, "get"):
        r = run(rep, prog, b, [T, ID])
        for s, v in outs(r):
            rep.check(v is app("data", T, ID), "get() answers the data of the node", at(b), show(v, 5))
    root = fld(T, *field_index(prog, TR, "Tree", "root"))
    for b in methods(prog, TR, "root", "DiffTree"):
        r = run(rep, prog, b, [T])
        for s, v in outs(r):
            rep.check(v is root, "root() is the root of the tree", at(b), show(v, 5))
    for b in views(prog, "parent"):
        r = run(rep, prog, b, [T, ID])
        for s, v in outs(r):
            rep.check(is_opt_view(s.facts, v, dt("parent", T, ID)), "parent() is the arena's parent link", at(b), show(v, 5))
    for b in views(prog, "children"):
        r = run(rep, prog, b, [T, ID])
        for s, v in outs(r):
            rep.check(src_term(r.it, s, v) is dt("children", T, ID), "children() lists the children of the node, in order", at(b), show(v, 5))
    for b in views(prog, "descendants"):
        r = run(rep, prog, b, [T, ID])
        for s, v in outs(r):
            rep.check(traversal(r, s, v, ID) == "pre", "descendants() lists the node and everything below it once, parents first", at(b), show(v, 5))
    for b in views(prog, "iter"):
        r = run(rep, prog, b, [T])
        for s, v in outs(r):
            rep.check(traversal(r, s, v, root) == "pre", "iter() lists every node of the tree once, parents first", at(b), show(v, 5))
    for b in views(prog, "node_count"):
        r = run(rep, prog, b, [T])
        for s, v in outs(r):
            n = [app("arena_count", T), mk("len", dt("descendants", T, root))]
            rep.check(any(same(s.facts, size(v), x) for x in n), "node_count() counts the nodes", at(b), show(v, 5))
    for b in methods(prog, TR, "is_opaque", "DiffTree") + [x for x in prog.bodies.values() if x["p"] == DT + "::is_opaque"]:
        r = run(rep, prog, b, [T, ID])
        for s, v in outs(r):
            rep.check(v is FALSE, "nodes are not opaque unless the tree says so", at(b), show(v, 5))
    must(rep, prog, ("hash", "kind", "properties", "text", "parent", "children", "descendants", "iter", "node_count", "root"))


def must(rep, prog, names):
    for n in names:
        rep.check(len(methods(prog, TR, n, "DiffTree")) == 1, "Tree implements DiffTree::" + n, "cinereus::tree")


def traversal(r, s, v, top):
    """'pre' / 'post' / None: the order in which a stream lists the subtree of top"""
    it = r.it
    st = as_stream(it, s, v)
    p = plain_src(st)
    if p is None:
        ctx = Ctx()
        ctx.site, ctx.frame, ctx.body, ctx.callee, ctx.span, ctx.argtys, ctx.destty, ctx.name = "q~trav", it.frame(None, "q~trav", "query"), r.body, None, "", [], None, "collect"
        cs = collected(it, s, st, ctx)
        if len(cs) != 1:
            return None
        p = cs[0][1]
    if p is dt("descendants", T, top):
        return "pre"
    if p.tag == "snap":
        ns = splice(p.a[1])
        if len(ns) == 1 and ns[0].tag == "copyof" and ns[0].a[0] is dt("descendants", T, top):
            return "pre"
        if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4]:
            return None
        got = set()
        for q in ns[0].a[2]:
            src = loop_src(q)
            if src is None or src.tag != "app" or src.a[0] != "traverse" or src.a[2] is not top:
                return None
            es = [e for e in ns[0].a[3] if e.a[1] is src]
            f = factsd(q)
            if len(es) != 1:
                return None
            e = es[0]
            end = f.get(disceq(e, 1))
            if end is None:
                x = f.get(disceq(e, 0))
                end = None if x is None else not x
            items = [n for n in q.a[2]]
            if end is None:
                return None
            if items:
                if len(items) != 1 or items[0].tag != "item" or items[0].a[0] is not fld(e, 1 if end else 0, 0):
                    return None
                got.add(("post" if end else "pre", True))
            else:
                got.add(("post" if end else "pre", False))
        if got == {("post", True), ("pre", False)}:
            return "post"
        if got == {("post", False), ("pre", True)}:
            return "pre"
    return None


def factsd(p):
    return dict(p.a[1].a[0])


# ---- positions ------------------------------------------------------------
def index_of(it, f, r):
    """[(source, element term or None)] when r is the index at which an element sits in a source"""
    if r.tag == "idx" and r.a[0].tag == "elem":
        return r.a[0].a[1], r.a[0]
    return None, None


def counted_before(r, src, x, f):
    """r = number of elements of src before the one equal to x: a loop that counts up to it"""
    if r.tag != "len" or r.a[0].tag != "snap":
        return False
    ns = r.a[0].a[1]
    if len(ns) != 1 or ns[0].tag != "loop":
        return False
    lp = ns[0]
    stops = False
    for p in lp.a[2]:
        if loop_src(p) is not src and not (loop_src(p) is not None and loop_src(p).tag == "sttake_while" and loop_src(p).a[0] is src):
            return False
        cut = loop_src(p) is not src
        es = [e for e in lp.a[3] if e.a[1] is src]
        if len(es) != 1:
            return False
        pf = factsd(p)
        is_x = pf.get(eq(es[0], x))
        if cut:
            stops = True
            if any(l.tag == "cut" and v is True for l, v in pf.items()):
                if p.a[2]:
                    return False
                continue
            if is_x is None or len(p.a[2]) != (0 if is_x else 1):
                return False
        else:
            if is_x is not False or len(p.a[2]) != 1:
                return False
    if not stops:
        for p in lp.a[4]:
            es = [e for e in lp.a[3] if e.a[1] is src]
            if loop_src(p) is not src or factsd(p).get(eq(es[0], x)) is not True:
                return False
    return True


def is_position(it, s, v, t, x, parent):
    """v is the index of x among the children of its parent (given facts: the parent exists)"""
    f = s.facts
    src = dt("children", t, parent)
    es, e = index_of(it, f, v)
    if e is not None and es is src and same(f, e, x):
        return True
    if counted_before(v, src, x, f):
        return True
    # number of siblings in front of it
    ps = app("preceding_siblings", t, x)
    if v.tag == "bin" and v.a[0] == "Sub" and v.a[2] is Int(1) and v.a[1] is mk("len", ps):
        return True
    if v.tag == "len" and v.a[0].tag == "snap" and len(v.a[0].a[1]) == 1 and v.a[0].a[1][0].tag == "loop":
        lp = v.a[0].a[1][0]
        if lp.a[1] == "end" and not lp.a[4] and all(loop_src(p) is not None and loop_src(p).tag == "stskip" and loop_src(p).a[0] is ps for p in lp.a[2]):
            ok = True
            for p in lp.a[2]:
                b = [(l, v2) for l, v2 in factsd(p).items() if l.tag == "beyond"]
                ok = ok and len(b) == 1 and b[0][0].a[1] is Int(1) and len(p.a[2]) == (1 if b[0][1] else 0)
            return ok
    return False


def gone(s, src, x):
    """a finished search over src that passed over every element other than x only: impossible when x is in src"""
    return any(l.tag == "forall" and v is True and l.a[1] and gone_in(l, src, x) for l, v in s.facts.items())


def gone_in(l, src, x):
    return all(loop_src(p) is src and any(k.tag == "eq" and x in k.a and w is False and any(y.tag == "elem" and y.a[1] is src for y in k.a)
                                          for k, w in p.a[1].a[0]) for p in l.a[1])


def t_position(rep, prog):
    par = dt("parent", T, ID)
    PA = fld(par, 1, 0)
    for b in views(prog, "position"):
        r = run(rep, prog, b, [T, ID])
        check_position(rep, r, b, par, PA)
    b = next((x for x in prog.bodies.values() if x["p"] == DT + "::position"), None)
    if b is None:
        raise Unsupported("DiffTree::position not found")
    check_position(rep, Root(prog, b, [T, ID]), b, par, PA)
    for b in views(prog, "child_count"):
        r = run(rep, prog, b, [T, ID])
        for s, v in outs(r):
            rep.check(same(s.facts, size(v), mk("len", dt("children", T, ID))), "child_count() is the number of children", at(b), show(v, 5))
    b = next((x for x in prog.bodies.values() if x["p"] == DT + "::child_count"), None)
    if b is not None:
        r = Root(prog, b, [T, ID], treeapi=False)
        for s, v in outs(r):
            rep.check(same(s.facts, size(v), mk("len", dt("children", T, ID))), "child_count() is the number of children", at(b), show(v, 5))
    must(rep, prog, ("position", "child_count"))


def check_position(rep, r, b, par, PA):
    rep.use(r)
    seen = False
    src = dt("children", T, PA)
    for s, v in outs(r):
        f = s.facts
        if entails(f, disceq(par, 1), False):
            rep.check(same(f, v, Int(0)), "a node without a parent is at position 0", at(b), show(v, 5))
            continue
        if not entails(f, disceq(par, 1), True):
            rep.check(False, "the position depends on whether there is a parent", at(b), show(v, 5))
            continue
        if gone(s, src, ID):
            continue
        seen = True
        rep.check(is_position(r.it, s, v, T, ID, PA), "position() is the index of the node among its parent's children", at(b), show(v, 7))
    rep.check(seen, "position() answers for nodes with a parent", at(b))


# ---- height ---------------------------------------------------------------
def as_max(r, s, v):
    """(source, element, value at the element, floor) when v is a maximum over a whole source (floor: value when empty / lower bound)"""
    it = r.it
    if v.tag == "app" and v.a[0] == "reduce::max" and v.a[1].tag == "snap":
        ns = splice(v.a[1].a[1])
        if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4] or len(ns[0].a[2]) != 1:
            return None
        p = ns[0].a[2][0]
        if len(p.a[2]) != 1 or p.a[2][0].tag != "item":
            return None
        es = [e for e in ns[0].a[3] if e.a[1] is loop_src(p)]
        return (loop_src(p), es[0], p.a[2][0].a[0], None) if len(es) == 1 else None
    if v.tag == "phi" and v in it.phi:
        alts = it.phi[v]
        prev = mk("prev", v)
        s0 = v.a[2]
        vals = {x for x, _ in alts if x is not s0}
        if len(vals) != 1:
            return None
        x = vals.pop()
        for y, f in alts:
            if y is not s0 and not entails(f, lt(prev, y), True) and not entails(f, lt(y, prev), False):
                return None
        # every other iteration keeps the value because it is not smaller
        fin = it.phi_final.get(v, {}).get(s0)
        if fin is None:
            return None
        es = [e for e in variables(x) if e.tag == "elem"]
        lid = v.a[0]
        es = [e for e in es if e.a[0].endswith("'" + lid)]
        if len(es) != 1:
            return None
        e = es[0]
        un = mk("elem", e.a[0][:-len("'" + lid)], e.a[1])
        xv = subst(x, {e.id: un})
        for p in fin.a[1]:
            if loop_src(p) is not un.a[1]:
                return None
            f = factsd(p)
            if not (entails(f, lt(v, xv), False) or entails(f, lt(xv, v), True)):
                return None
        full = any(l.tag == "forall" and l.a[0] == lid and w is True and not l.a[2] for l, w in s.facts.items())
        if not full:
            return None
        return un.a[1], un, xv, s0
    return None


def is_height_of(prog, recs, v, t, x):
    """v is the recursively computed height of x"""
    return v.tag == "app" and v.a[0] in recs and len(v.a) == 3 and v.a[1] is t and v.a[2] is x


def minus1(v):
    if v.tag == "bin" and v.a[0] == "Add":
        for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if b is Int(1):
                return a
    if v.tag == "int":
        return Int(v.a[0] - 1)
    return None


def t_height(rep, prog):
    src = dt("children", T, ID)
    bs = views(prog, "height")
    recs = {"rec:" + b["d"] for b in bs} | {DT + "::height"}
    for b in bs:
        r = run(rep, prog, b, [T, ID])
        for s, v in outs(r):
            f = s.facts
            empty = entails(f, eq(mk("len", src), Int(0)), True)
            some = entails(f, eq(mk("len", src), Int(0)), False)
            if empty:
                m0 = as_max(r, s, v) if v.tag == "phi" else None
                rep.check(v is Int(0) or (m0 is not None and m0[3] is Int(0)), "a leaf has height 0", at(b), show(v, 5))
                continue
            ok = False
            for base, plus in ((v, 0), (minus1(v), 1)):
                if base is None:
                    continue
                m = as_max(r, s, base)
                if m is None or m[0] is not src:
                    continue
                _, e, val, floor = m
                inner = val if plus else minus1(val)
                if inner is None or not is_height_of(prog, recs, inner, T, e):
                    continue
                # without the leaf test the empty maximum must be the leaf's height
                if some:
                    ok = floor is None or (floor.tag == "int" and floor.a[0] <= (0 if plus else 1))
                else:
                    ok = floor is Int(0) and not plus
                if ok:
                    break
            rep.check(ok, "a node with children is one higher than its highest child", at(b), show(v, 8) + " when " + fshow(f, 5))
    must(rep, prog, ("height",))


# ---- post-order -----------------------------------------------------------
def t_post_order(rep, prog):
    root = fld(T, *field_index(prog, TR, "Tree", "root"))
    for b in views(prog, "post_order"):
        r = run(rep, prog, b, [T])
        for s, v in outs(r):
            if v.tag == "agg" and prog.adts.get(v.a[0], {}).get("local"):
                stack_machine(rep, prog, r, s, v, root, b)
            else:
                rep.check(traversal(r, s, v, root) == "post", "post_order() lists every node once, children before their parent", at(b), show(v, 6))
    must(rep, prog, ("post_order",))


def stack_machine(rep, prog, r0, s0, v, root, b, run=None):
    """an iterator struct with a stack of (node, are its children pushed?)"""
    adt = v.a[0]
    nxt = one(prog, adt, "next", "Iterator")
    # the initial stack: the root, not expanded
    k = [i for i, x in enumerate(v.a[2:]) if x.tag == "snap"]
    if len(k) != 1:
        rep.fail("the post-order iterator keeps one stack", at(nxt), show(v, 5))
        return
    k = k[0]
    init = v.a[2 + k].a[1]
    if len(init) != 1 or init[0].tag != "item":
        rep.fail("the traversal starts with the root alone", at(b), show(v, 6))
        return
    sh = Shape(init[0].a[0], root)
    if not sh.ok:
        rep.fail("the traversal starts with the root alone, not yet expanded", at(b), show(v, 6))
        return
    rest = list(v.a[2:])
    rest[k] = mk("obj", "stack")
    past = mk("base", "^", "stack", (), mkfacts({}))
    heap = {"stack": mk("coll", VEC_, (past,)), "iter": mk("cell", agg(adt, 0, *rest))}
    args = [mk("ref", ("O", "iter"), ())]
    r = run(args, heap) if run else globals()["run"](rep, prog, nxt, args, heap)
    it = r.it
    loops = [w for w in it.worklists]
    W = at(nxt)
    steps = collect_steps(r)
    if steps is None:
        rep.fail("next() pops one stack entry at a time", W)
        return
    late = []
    for e, f, pushes, ret, kind in steps:
        if kind == "empty":
            rep.check(ret is NONE, "the traversal ends only when the stack is empty", W, show(ret, 4))
            continue
        is_open = sh.is_open(f, e)
        if is_open is None:
            rep.fail("next() decides by the entry's mark", W, fshow(f, 6))
            continue
        x = sh.node(e, is_open)
        ch = dt("children", T, x) if x is not None else None
        leaf = ch is not None and entails(f, eq(mk("len", ch), Int(0)), True)
        if is_open is False or leaf and ret is not None:
            ok = ret is not None and ret.tag == "agg" and ret.a[1] == 1 and not pushes
            if is_open is False and x is None:
                late.append((e, ret, ok))
                continue
            rep.check(ok and ret.a[2] is x,
                      "a node whose children are done is listed next, and nothing else happens", W,
                      "returns %s, pushes %s" % (show(ret, 4) if ret is not None else "nothing", show(tuple(pushes), 5)))
            continue
        ok = ret is None and len(pushes) >= 1 and pushes[0].tag == "item" and sh.closes(pushes[0].a[0], x)
        rep.check(ok, "an unexpanded node stays on the stack below its children, marked as expanded", W, show(tuple(pushes), 6))
        rest_ = pushes[1:]
        if leaf and not rest_:
            continue
        okc = len(rest_) == 1 and kids_reversed(rest_[0], ch, sh)
        rep.check(okc, "all children are pushed unexpanded, the first child on top", W, show(tuple(rest_), 7))
    for e, ret, ok in late:
        x = sh.node(e, False)
        rep.check(ok and x is not None and ret.a[2] is x, "a node whose children are done is listed next, and nothing else happens", W, show(ret, 4))


VEC_ = "Vec"


class Shape:
    """how a stack entry says which node it is about and whether that node is still to be expanded"""

    def __init__(self, entry, root):
        self.ok = False
        self.closed = None
        if entry.tag != "agg":
            return
        kids = list(entry.a[2:])
        ni = [i for i, x in enumerate(kids) if x is root]
        if len(ni) != 1:
            return
        self.i, self.var = ni[0], entry.a[1]
        self.enum = len(kids) == 1
        if len(kids) == 2:
            self.fi = 1 - ni[0]
            self.opened = kids[self.fi]
            self.ok = self.opened.tag in ("bool", "agg")
        elif self.enum and entry.a[0] not in ("tuple",):
            self.ok = True

    def is_open(self, f, e):
        """True: not expanded; False: expanded; None: unknown"""
        if self.enum:
            d = disceq(e, self.var)
            return True if entails(f, d, True) else False if entails(f, d, False) else None
        fl, opened = fld(e, 0, self.fi), self.opened
        if opened.tag == "bool":
            if fl.tag == "bool":
                return fl is opened
            for w in (True, False):
                if entails(f, fl, w):
                    return opened.a[0] is w
            return None
        if fl.tag == "agg":
            return fl.a[1] == opened.a[1]
        if entails(f, disceq(fl, opened.a[1]), True):
            return True
        if entails(f, disceq(fl, opened.a[1]), False) or entails(f, disceq(fl, 1 - opened.a[1]), True):
            return False
        return None

    def node(self, e, is_open):
        if not self.enum:
            return fld(e, 0, self.i)
        if is_open:
            return fld(e, self.var, self.i)
        return fld(e, *self.closed) if self.closed is not None else None

    def opens(self, p, x):
        """p is the unexpanded entry of x"""
        if p.tag != "agg":
            return False
        if self.enum:
            return p.a[1] == self.var and p.a[2 + self.i] is x
        return fld(p, 0, self.i) is x and fld(p, 0, self.fi) is self.opened

    def closes(self, p, x):
        """p is the expanded entry of x"""
        if p.tag != "agg" or x is None:
            return False
        if self.enum:
            js = [j for j, y in enumerate(p.a[2:]) if y is x]
            if p.a[1] == self.var or len(js) != 1 or self.closed not in (None, (p.a[1], js[0])):
                return False
            self.closed = (p.a[1], js[0])
            return True
        fl = fld(p, 0, self.fi)
        return fld(p, 0, self.i) is x and fl.tag == self.opened.tag and fl is not self.opened


def kids_reversed(n, ch, sh):
    if n.tag == "copyof" and n.a[0].tag == "snap" and len(n.a[0].a[1]) == 1:
        n = n.a[0].a[1][0]
    if n.tag != "loop" or n.a[1] != "end" or n.a[4]:
        return False
    for p in n.a[2]:
        src = loop_src(p)
        if src is None or src.tag != "strev" or src.a[0] is not ch:
            return False
        if len(p.a[2]) != 1 or p.a[2][0].tag != "item":
            return False
        x = p.a[2][0].a[0]
        es = [e for e in n.a[3] if e.a[1] is ch]
        if len(es) != 1 or not sh.opens(x, es[0]):
            return False
    return True


def collect_steps(r):
    """[(popped entry, facts, nodes pushed, returned value or None, kind)] for every way through one pop"""
    it = r.it
    hs = [(h, it.work_init[h]) for h in range(len(it.work_init)) if it.work_init[h][0] == "stack" and len(it.work_init[h][1]) == 1 and it.work_init[h][1][0].a[0] == "^"]
    out = []
    seen = set()
    for h, _ in hs:
        for nodes, facts in it.work_push.get(h, []):
            if not nodes or nodes[0].tag != "base":
                return None
            es = {x for l in facts for x in variables(l) if x.tag == "elem" and x.a[1].tag == "work"}
            es |= {x for n in nodes[1:] for x in variables(n) if x.tag == "elem" and x.a[1].tag == "work"}
            es = {x for x in es if x.a[1].a[0] == "stack"}
            if len(es) != 1:
                return None
            e = es.pop()
            if e.a[1].a[1] != "lifo":
                return None
            k = (e, nodes[1:], mkfacts(facts), "go")
            if k not in seen:
                seen.add(k)
                out.append((e, facts, nodes[1:], None, "go"))
    for s, v in outs(r):
        nd = s.heap["stack"].a[1]
        # what happened after the last pop
        es = [x for x in variables(v) if x.tag == "elem" and x.a[1].tag == "work"]
        if v is NONE:
            out.append((None, s.facts, (), v, "empty"))
            if not any(l.tag == "eq" and Int(0) in l.a and w is True for l, w in s.facts.items()):
                return None
            continue
        if len(es) != 1:
            return None
        last = nd[-1]
        pushed = ()
        if last.tag not in ("loop", "base", "popped"):
            i = len(nd)
            while i > 0 and nd[i - 1].tag == "item":
                i -= 1
            pushed = nd[i:]
        out.append((es[0], s.facts, pushed, v, "ret"))
    return out
