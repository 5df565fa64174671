"""Edit-script properties: what generate_edit_script emits, when, and in which order."""
from itertools import product
from term import *
from engine import *
from logic import *
from facts import *
from roots import Root, P
from report import *

TA, TB, M = P("ta"), P("tb"), P("m")
GES = "cinereus::chawathe::generate_edit_script"


def field_index(prog, adt, variant, name):
    for i, v in enumerate(prog.adts[adt]["v"]):
        if v["n"] == variant:
            return i, v["f"].index(name)
    raise Unsupported("no %s::%s.%s" % (adt, variant, name))


def find_public(prog, last, arity=None):
    c = [b for n, bs in prog.by_name.items() for b in bs if n.split("::")[-1] == last and not n.startswith("<")
         and (arity is None or b["argc"] == arity)]
    if len(c) != 1:
        raise Unsupported("function %s not found (or ambiguous)" % last)
    return c[0]


class Script:
    """the analysed generate_edit_script"""

    def __init__(self, prog):
        self.prog = prog
        self.root = Root(prog, find_public(prog, "generate_edit_script"), [TA, TB, M])
        self.it = self.root.it
        self.adt = next(k for k in prog.adts if k.endswith("::EditOp"))
        self.vi = {v["n"]: i for i, v in enumerate(prog.adts[self.adt]["v"])}
        self.outs = []
        for s, v in self.root.outs:
            v = self.it.rv(s, v)
            facts = normalise(s.facts, [TA, TB])
            if v.tag != "snap":
                raise Unsupported("the returned edit script is not a collection built here: " + show(v, 3))
            nodes = splice(v.a[1])
            recs = []
            for r in walk(nodes):
                r.facts = normalise(r.facts, [TA, TB])
                recs.append(r)
            self.outs.append((facts, nodes, recs))

    def kind(self, r):
        v = r.val
        if v is None or v.tag != "agg" or not v.a[0].endswith("::EditOp"):
            return None
        for n, i in self.vi.items():
            if i == v.a[1]:
                return n
        return None

    def f(self, r, name):
        vn = self.kind(r)
        i, j = field_index(self.prog, self.adt, vn, name)
        return fld(r.val, i, j)


def same(facts, x, y):
    return x is y or entails(facts, eq(x, y), True)


def order_of(src):
    """(base source, 'fwd'|'rev'|None)"""
    d = "fwd"
    while src is not None and src.tag == "st" and src.a[0] == "rev":
        src = src.a[1]
        d = "rev" if d == "fwd" else "fwd"
    return src, d


def is_pairs(src):
    return src.tag == "app" and src.a[0] == "pairs" and src.a[1] is M


def domain_elem(loop):
    """(class, element) of the outermost draw of a loop"""
    srcs = {loop_src(p) for p in loop.a[2]} | {loop_src(p) for p in loop.a[4]}
    srcs.discard(None)
    if len(srcs) != 1:
        return None, None, None
    src0 = srcs.pop()
    src, d = order_of(src0)
    if src.tag == "unord":
        return "unordered", None, None
    es = [e for e in loop.a[3] if order_of(e.a[1])[0] is src]
    if not es:
        return None, None, None
    e = es[0]
    if is_pairs(src):
        return "pairs", e, d
    for t, n in ((TA, "a"), (TB, "b")):
        if all_nodes_src(src, t):
            if is_dt(src, "post_order"):
                return n, e, "post" if d == "fwd" else "post-rev"
            return n, e, "pre" if d == "fwd" else "pre-rev"
    return None, e, d


def subject(cls, e):
    """the (a, b) a domain element stands for and the literals that make it a subject"""
    if cls == "pairs":
        return fld(e, 0, 0), fld(e, 0, 1), []
    if cls == "a":
        g = app("get_b", M, e)
        return e, fld(g, 1, 0), [(disceq(g, 1), True)]
    if cls == "b":
        g = app("get_a", M, e)
        return fld(g, 1, 0), e, [(disceq(g, 1), True)]


def pred_pair(a, b):
    pa, pb = dt("parent", TA, a), dt("parent", TB, b)
    PA, PB = fld(pa, 1, 0), fld(pb, 1, 0)
    g = app("get_b", M, PA)
    return pa, pb, PA, PB, eq(g, Some(PB)), eq(dt("position", TA, a), dt("position", TB, b))


class Spec:
    """need: list of disjunctions the emission facts must force; excuse: list of conjunctions, one of which must hold
    on any path that does not emit"""

    def __init__(self, kind, domains, need, fields, excuses, dom_lits):
        self.kind, self.domains, self.need, self.fields, self.excuses, self.dom_lits = kind, domains, need, fields, excuses, dom_lits


def spec_insert():
    def need(x, b=None):
        return [("an unmatched node of tree B", [(disceq(app("get_a", M, x), 1), False)]),
                ("a node with a parent", [(disceq(dt("parent", TB, x), 1), True)]),
                ("not a strict descendant of an opaque node", [(opq(TB, x), False)])]

    def fields(x):
        return {"node_b": x, "parent_b": fld(dt("parent", TB, x), 1, 0), "position": dt("position", TB, x), "kind": dt("kind", TB, x)}

    def excuses(x):
        return [[(disceq(app("get_a", M, x), 1), True)], [(disceq(dt("parent", TB, x), 1), False)], [(opq(TB, x), True)]]
    return need, fields, excuses


def spec_delete():
    def need(x):
        return [("an unmatched node of tree A", [(disceq(app("get_b", M, x), 1), False)]),
                ("not a strict descendant of an opaque node", [(opq(TA, x), False)])]

    def fields(x):
        return {"node_a": x}

    def excuses(x):
        return [[(disceq(app("get_b", M, x), 1), True)], [(opq(TA, x), True)]]
    return need, fields, excuses


def pair_common(a, b):
    return [("node_a is not a strict descendant of an opaque node", [(opq(TA, a), False)]),
            ("node_b is not a strict descendant of an opaque node", [(opq(TB, b), False)])]


def spec_move():
    def need(a, b):
        pa, pb, PA, PB, sp, pos = pred_pair(a, b)
        return pair_common(a, b) + [
            ("node_a has a parent", [(disceq(pa, 1), True)]), ("node_b has a parent", [(disceq(pb, 1), True)]),
            ("the parents are not matched to each other or the sibling positions differ", [(sp, False), (pos, False)])]

    def fields(a, b):
        pb = dt("parent", TB, b)
        return {"node_a": a, "node_b": b, "new_parent_b": fld(pb, 1, 0), "new_position": dt("position", TB, b)}

    def excuses(a, b):
        pa, pb, PA, PB, sp, pos = pred_pair(a, b)
        return [[(disceq(pa, 1), False)], [(disceq(pb, 1), False)], [(sp, True), (pos, True)], [(opq(TA, a), True)], [(opq(TB, b), True)]]
    return need, fields, excuses


def spec_settext():
    def need(a, b):
        ta, tb = dt("text", TA, a), dt("text", TB, b)
        return pair_common(a, b) + [("the texts differ", [(eq(ta, tb), False)]), ("node_b has text", [(disceq(tb, 1), True)])]

    def fields(a, b):
        return {"node_a": a, "node_b": b, "text": fld(dt("text", TB, b), 1, 0)}

    def excuses(a, b):
        ta, tb = dt("text", TA, a), dt("text", TB, b)
        return [[(eq(ta, tb), True)], [(disceq(tb, 1), False)], [(opq(TA, a), True)], [(opq(TB, b), True)]]
    return need, fields, excuses


PR = C + "tree::Properties::"


def diff_of(a, b):
    return app(PR + "diff", dt("properties", TA, a), dt("properties", TB, b))


def has_different(facts, prog, d, neg_=False):
    """a fact that some / no element of d carries PropValue::Different"""
    for l, v in facts.items():
        if not neg_:
            if l.tag == "disceq" and v is True and l.a[1] == DIFFV and is_value_of(l.a[0], d):
                return True
            if l.tag == "disceq" and v is False and l.a[1] == 1 - DIFFV and is_value_of(l.a[0], d):
                return True
        elif l.tag == "forall" and v is True:
            if forall_not_different(l, d):
                return True
    return False


DIFFV = 1
VALF = 1


def is_value_of(t, d):
    return t.tag == "fld" and t.a[2] == VALF and t.a[0].tag == "elem" and t.a[0].a[1] is d


def forall_not_different(l, d):
    paths = l.a[1]
    if not paths:
        return False
    for p in paths:
        if p.a[0] == "end":
            continue
        if loop_src(p) is not d:
            return False
        if not any(f.tag == "disceq" and is_value_of(f.a[0], d) and ((f.a[1] == DIFFV and v is False) or (f.a[1] == 1 - DIFFV and v is True))
                   for f, v in p.a[1].a[0]):
            return False
    return True


def joint(loop_paths):
    """combinations of one path per loop, over the same domain element"""
    return product(*loop_paths)


def rename_path(p, e, x):
    if e is x:
        return p
    return subst(p, {e.id: x})


def recs_in(script, nodes, kind, base):
    out = []
    for r in walk(nodes, base):
        if script.kind(r) == kind:
            r.facts = normalise(r.facts, [TA, TB])
            out.append(r)
    return out


def check_kind(rep, sc, kind, spec, domains, custom=None):
    """soundness and completeness of one operation kind; `custom` replaces need/excuse tests for UpdateProperties"""
    need, fields, excuses = spec
    it = sc.it
    label = "EditOp::" + kind
    for ofacts, nodes, recs in sc.outs:
        mine = [r for r in recs if sc.kind(r) == kind]
        # unknown content in the script
        for r in recs:
            if sc.kind(r) is None:
                rep.fail("every element of the returned script is an EditOp constructed here", where(it, r.site), show(r.node, 3))
        loops = []
        for r in mine:
            w = where(it, r.site)
            if len(r.chain) != 1:
                rep.fail("%s is emitted once per %s" % (label, "/".join(domains)), w,
                         "emitted under %d nested loops" % len(r.chain))
                continue
            loop = r.chain[0][0]
            cls, e, d = domain_elem(loop)
            if cls not in domains:
                rep.fail("%s is emitted for the elements of a full enumeration (%s)" % (label, "/".join(domains)), w,
                         "the enclosing loop draws from " + (show(e.a[1], 3) if e is not None else str(cls)))
                continue
            if loop not in [x[0] for x in loops]:
                loops.append((loop, cls, e))
            args = (e,) if cls == domains[0] and domains[0] != "pairs" else subject(cls, e)[:2]
            if rep.prop in ("all",) or True:
                f = dict(ofacts)
                f.update(r.facts)
                for fn, want in fields(*args).items():
                    rep.check(same(f, sc.f(r, fn), want), "%s.%s is %s" % (label, fn, show(want, 5)), w, "it is " + show(sc.f(r, fn), 5))
                for text, lits in need(*args):
                    rep.check(entails_or(f, lits), "%s only for: %s" % (label, text), w, "facts there: " + fshow(f, 8))
                if custom:
                    custom.sound(rep, sc, r, f, args, label, w)
        clss = {c for _, c, _ in loops}
        if not loops:
            if any(domain_empty(ofacts, d) for d in domains):
                continue
            rep.fail("%s is emitted for every element that needs it" % label, short(sc.root.body["p"]), "no loop emits it")
            continue
        if len(clss) != 1:
            rep.fail("%s loops range over one enumeration" % label, short(sc.root.body["p"]), "mixed domains %s" % clss)
            continue
        cls = clss.pop()
        x = loops[0][2]
        paths = []
        for loop, _, e in loops:
            rep.check(loop.a[1] == "end" and not loop.a[4], "the loop emitting %s visits every element" % label,
                      where(it, loop.a[0]), "it can stop early")
            paths.append([rename_path(p, e, x) for p in loop.a[2]])
        args = (x,) if cls == domains[0] and domains[0] != "pairs" else subject(cls, x)[:2]
        doml = [] if len(args) == 1 else subject(cls, x)[2]
        for combo in joint(paths):
            f = dict(ofacts)
            clash = False
            for p in combo:
                for l, v in p.a[1].a[0]:
                    if f.get(l, v) != v:
                        clash = True
                    f[l] = v
            if clash:
                continue
            f = normalise(f, [TA, TB])
            rs = [r for p in combo for r in recs_in(sc, p.a[2], kind, {})]
            fx = dict(f)
            for l, v in doml:
                fx[l] = v
            if Closure(fx).bad:
                continue
            wloop = where(it, loops[0][0].a[0])
            if rs:
                rep.check(len(rs) == 1, "%s is emitted at most once per element" % label, wloop, "%d emissions on one path" % len(rs))
                continue
            ok = any(entails_all(fx, ex) for ex in excuses(*args))
            if not ok:
                ok = split_excuse(fx, excuses(*args))
            if not ok and custom:
                ok = custom.excused(sc, fx, args)
            rep.check(ok, "%s is emitted unless it is not needed" % label, wloop,
                      "a path without it is taken when: " + fshow(f, 8))


def split_excuse(f, exs):
    """disjunctive excuses: the negation of all of them is contradictory (single-literal excuses only)"""
    singles = [ex[0] for ex in exs if len(ex) == 1]
    multi = [ex for ex in exs if len(ex) > 1]
    base = [(l, not v) for l, v in singles]
    if not multi:
        return Closure(f, base).bad
    for choice in product(*multi):
        if not Closure(f, base + [(l, not v) for l, v in choice]).bad:
            return False
    return True


def domain_empty(facts, d):
    for l, v in facts.items():
        if l.tag == "eq" and v is True and Int(0) in l.a:
            o = l.a[0] if l.a[1] is Int(0) else l.a[1]
            if o.tag == "len" and o.a[0].tag == "app":
                s = o.a[0]
                if d == "pairs" and is_pairs(s):
                    return True
                if d == "a" and all_nodes_src(s, TA) or d == "b" and all_nodes_src(s, TB):
                    return True
    return False


class UpdCustom:
    def sound(self, rep, sc, r, f, args, label, w):
        d = diff_of(*args)
        ok = has_different(f, sc.prog, d) or self.removal(f, args, True)
        rep.check(ok, label + " only if the diff has a Different value or drops properties", w, "facts there: " + fshow(f, 8))

    def removal(self, f, args, val):
        a, b = args
        return entails(f, lt(mk("len", diff_of(a, b)), app(PR + "len", dt("properties", TA, a))), val)

    def excused(self, sc, f, args):
        a, b = args
        pa, pb = dt("properties", TA, a), dt("properties", TB, b)
        if entails(f, app(PR + "is_empty", pa), True) and entails(f, app(PR + "is_empty", pb), True):
            return True
        d = diff_of(a, b)
        nodiff = has_different(f, sc.prog, d, True) or entails(f, eq(mk("len", d), Int(0)), True)
        return nodiff and self.removal(f, args, False)


def spec_update():
    def need(a, b):
        return pair_common(a, b)

    def fields(a, b):
        return {"node_a": a, "node_b": b, "changes": diff_of(a, b)}

    def excuses(a, b):
        return [[(opq(TA, a), True)], [(opq(TB, b), True)]]
    return need, fields, excuses


def e_insert(rep, prog):
    sc = Script(prog)
    rep.use(sc.root)
    rep.all_reached(prog, [sc.it], "::EditOp")
    check_kind(rep, sc, "Insert", spec_insert(), ["b"])


def e_delete(rep, prog):
    sc = Script(prog)
    rep.use(sc.root)
    rep.all_reached(prog, [sc.it], "::EditOp")
    check_kind(rep, sc, "Delete", spec_delete(), ["a"])


def e_move(rep, prog):
    sc = Script(prog)
    rep.use(sc.root)
    rep.all_reached(prog, [sc.it], "::EditOp")
    check_kind(rep, sc, "Move", spec_move(), ["pairs", "a", "b"])


def e_settext(rep, prog):
    sc = Script(prog)
    rep.use(sc.root)
    rep.all_reached(prog, [sc.it], "::EditOp")
    check_kind(rep, sc, "SetText", spec_settext(), ["pairs", "a", "b"])


def e_update(rep, prog):
    global DIFFV, VALF
    sc = Script(prog)
    rep.use(sc.root)
    rep.all_reached(prog, [sc.it], "::EditOp")
    DIFFV = [v["n"] for v in prog.adts["cinereus::tree::PropValue"]["v"]].index("Different")
    VALF = prog.adts["cinereus::tree::PropertyInFinalState"]["v"][0]["f"].index("value")
    check_kind(rep, sc, "UpdateProperties", spec_update(), ["pairs", "a", "b"], UpdCustom())


PHASE = {"UpdateProperties": 0, "SetText": 0, "Insert": 1, "Move": 2, "Delete": 3}


def e_order(rep, prog):
    sc = Script(prog)
    rep.use(sc.root)
    rep.all_reached(prog, [sc.it], "::EditOp")
    for _, nodes, recs in sc.outs:
        ks = [(r, sc.kind(r)) for r in recs if sc.kind(r)]
        for n in nodes:
            rep.check(n.tag in ("loop", "item", "once"), "the script is a concatenation of phases", "generate_edit_script", "found " + show(n, 2))
        for r, k in ks:
            for q, k2 in ks:
                if PHASE[k] < PHASE[k2]:
                    rep.check(r.order < q.order, "phase order: every %s precedes every %s" % (k, k2), where(sc.it, q.site),
                              "the %s emitted at %s can come after it" % (k, where(sc.it, r.site)))
        for r, k in ks:
            if not r.chain:
                continue
            cls, e, d = domain_elem(r.chain[0][0])
            rep.check(cls != "unordered", "operations are not emitted in hash order", where(sc.it, r.site))
            if k == "Insert":
                rep.check(cls == "b" and d == "pre", "inserts follow DiffTree::iter of tree B (parents first)", where(sc.it, r.site),
                          "drawn from " + (show(e.a[1], 3) if e is not None else str(cls)))
            if k == "Delete":
                rep.check(cls == "a" and d == "post", "deletes follow DiffTree::post_order of tree A (children first)", where(sc.it, r.site),
                          "drawn from " + (show(e.a[1], 3) if e is not None else str(cls)))


def e_opaque(rep, prog):
    """no operation mentions a strict descendant of an opaque node"""
    sc = Script(prog)
    rep.use(sc.root)
    rep.all_reached(prog, [sc.it], "::EditOp")
    for ofacts, nodes, recs in sc.outs:
        for r in recs:
            k = sc.kind(r)
            if k is None:
                rep.fail("every element of the script is an EditOp constructed here", where(sc.it, r.site), show(r.node, 3))
                continue
            f = dict(ofacts)
            f.update(r.facts)
            for fn in prog.adts[sc.adt]["v"][sc.vi[k]]["f"]:
                if fn == "node_a":
                    rep.check(entails(f, opq(TA, sc.f(r, fn)), False), "EditOp::%s.node_a is outside opaque subtrees" % k, where(sc.it, r.site),
                              "facts there: " + fshow(f, 6))
                elif fn == "node_b":
                    rep.check(entails(f, opq(TB, sc.f(r, fn)), False), "EditOp::%s.node_b is outside opaque subtrees" % k, where(sc.it, r.site),
                              "facts there: " + fshow(f, 6))


def e_determinism(rep, prog):
    sc = Script(prog)
    rep.use(sc.root)
    rep.all_reached(prog, [sc.it], "::EditOp")
    deterministic(rep, sc.it, [r for _, _, rs in sc.outs for r in rs], [f for f, _, _ in sc.outs])


IMPURE = ("std::time::", "std::env::", "std::thread::", "std::process::", "std::fs::", "std::net::", "std::io::", "std::sync::",
          "core::sync::", "rand::", "getrandom::", "std::hash::RandomState", "std::ptr::", "std::alloc::", "std::os::", "core::ptr::",
          "std::any::", "std::panic::Location", "std::backtrace::")


_amb = {}


def ambient(t):
    """does the term read thread-local or static state?"""
    st = [t]
    order = []
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in _amb:
            _amb[x] = False
            order.append(x)
            st.extend(x.a)
    for x in sorted(order, key=lambda x: x.id):       # parts are older than wholes
        _amb[x] = x.tag in ("ambval", "ambient") or _amb_in(x.a)
    return _amb_in((t,))


def _amb_in(a):
    for y in a:
        if isinstance(y, tuple):
            if _amb_in(y):
                return True
        elif isinstance(y, T) and _amb.get(y):
            return True
    return False


def deterministic(rep, it, recs, outs):
    rep.check(True, "collections in hash order are followed by their iterators", "%d loops analysed" % len(it.base_nodes))
    for u in it.unordered:
        site = u[0] if isinstance(u, tuple) else u
        rep.fail("no hash-ordered iteration reaches the result", where(it, site), str(u[1:])[:200] if isinstance(u, tuple) else "")
    for n in sorted(it.uninterp):
        rep.check(not n.startswith(IMPURE), "no call reads the clock, the environment, addresses, randomness or shared state", n,
                  "called from the analysed functions")
    for r in recs:
        bad = [x for x in [r.val, r.node] + list(r.facts) if x is not None and ambient(x)]
        rep.check(not bad, "no recorded result depends on thread-local or static state", where(it, r.site), show(bad[0], 4) if bad else "")
    for facts in outs:
        bad = [x for x in facts if ambient(x)]
        rep.check(not bad, "no branch of the result depends on thread-local or static state", "exit", show(bad[0], 4) if bad else "")
