"""Panic freedom, termination and what the build features may change."""
from term import *
from engine import *
from logic import *
from report import *
from chk_script import find_public
from facts import loop_src
import roots
import chk_match
import chk_script
import chk_struct
import chk_tree
import chk_api

_all = {}


class Collect:
    """runs every analysis once and remembers its roots"""

    def __init__(self, prog):
        self.its = []
        self.names = set()
        self.problems = []
        orig = Interp.__init__
        me = self

        def init(it, *a, **k):
            orig(it, *a, **k)
            me.its.append(it)
        chk_match._mi.pop(id(prog), None)
        Interp.__init__ = init
        try:
            for m in (chk_match, chk_script, chk_struct, chk_tree, chk_api):
                for f in sorted(dir(m)):
                    if f[:2] in ("e_", "m_", "t_") and callable(getattr(m, f)) and getattr(m, f).__module__ == m.__name__:
                        if f in ("t_node_data", "t_defaults"):
                            continue
                        try:
                            getattr(m, f)(Report("x"), prog)
                        except (Unsupported, Limit) as e:
                            self.problems.append((f, str(e)))
        finally:
            Interp.__init__ = orig
        self.extra(prog)

    def extra(self, prog):
        """exported functions no other rule analyses"""
        done = set()
        for it in self.its:
            done |= set(it.functions) | set(it.stack)
        for b in sorted(prog.bodies.values(), key=lambda b: b["d"]):
            if not b["local"] or b["kind"] != "fn" or b["d"] in done or b["p"] in done or "::tests::" in b["p"]:
                continue
            if b.get("impl_of") == "std::iter::Iterator" or b["n"] in ("fmt", "assert_receiver_is_total_eq", "assert_fields_are_eq", "hash"):
                continue
            try:
                r = roots.Root(prog, b, [P_("arg%d" % i) for i in range(b["argc"])], matching=False, treeapi=False, extra=chk_tree.ARENA_API)
            except (Unsupported, Limit) as e:
                self.problems.append((b["p"], str(e)))
                continue
            self.its.append(r.it)


def P_(n):
    return mk("param", n)


def everything(prog):
    k = id(prog)
    if k not in _all:
        _all[k] = Collect(prog)
    return _all[k]


# ---- panics ---------------------------------------------------------------
def countish(it, t, depth=0):
    """a number of things that exist (or a small constant): adding a few of them cannot overflow"""
    if depth > 8:
        return False
    if t.tag == "int":
        return abs(t.a[0]) <= 1 << 16
    if t.tag in ("len", "idx"):
        return True
    if t.tag == "app":
        n = str(t.a[0])
        if n in ("arena_count", "ambval") or n.endswith(("DiffTree::height", "DiffTree::position", "DiffTree::node_count", "DiffTree::child_count",
                                                         "Properties::len")) or n.startswith("rec:") and n.split("::")[-1] in ("height",):
            return True
        if n.startswith("reduce::") and t.a[1].tag == "snap":
            return True
        if n in ("idx_of_node", "usize_from", "std::convert::From::from"):
            return True
        return False
    if t.tag == "ambval":
        return True
    if t.tag == "bin" and t.a[0] in ("Add", "Sub", "Div", "Rem"):
        return countish(it, t.a[1], depth + 1) and countish(it, t.a[2], depth + 1)
    if t.tag == "phi":
        if t.a[2].tag == "int" or countish(it, t.a[2], depth + 1):
            return all(v is t.a[2] or countish(it, subst_prev(v, t), depth + 1) for v, _ in it.phi.get(t, []))
        return False
    if t.tag == "prev":
        return countish(it, t.a[0], depth + 1)
    if t.tag == "fld" and t.a[0].tag == "app" and str(t.a[0].a[0]).endswith("NonZero"):
        return True
    return False


def subst_prev(v, p):
    return subst(v, {mk("prev", p).id: Int(0)})


def ovf_ok(it, cond, facts):
    """the overflow flag `cond` is false under the facts"""
    if cond.tag != "ovf":
        return False
    op, a, b = cond.a
    if op == "Add":
        return countish(it, a) and countish(it, b)
    if op == "Sub":
        if entails(facts, lt(a, b), False):
            return True
        z = zone(facts, lt(a, b)) if lt(a, b).tag in ("lt", "eq") else None
        return z is False or b is Int(1) and entails(facts, eq(a, Int(0)), False)
    if op == "Mul":
        return any(x.tag == "int" and abs(x.a[0]) <= 64 and countish(it, y) for x, y in ((a, b), (b, a)))
    return False


def spot(it, fn, span, frame):
    """the panicking operation, and the calls that led there"""
    out = ["%s (%s)" % (short(fn), span.split("/library/")[-1])]
    s = it.frame_parent.get(frame)
    while s and len(out) < 6:
        s = str(s).split("~")[0].split("@")[0]
        if s in it.sites:
            f, sp = it.sites[s]
            out.append("%s (%s)" % (short(f), sp.split("/library/")[-1]))
        s = it.frame_parent.get(s.split(".")[0])
    return " <- ".join(out)


def contradicts_contract(facts):
    """a finished search among the children of a node's parent that did not come across the node itself"""
    for l, v in facts.items():
        if l.tag == "forall" and v is True and l.a[1]:
            srcs = {loop_src(p) for p in l.a[1]}
            if len(srcs) != 1 or None in srcs:
                continue
            src = srcs.pop()
            if not is_dt(src, "children"):
                continue
            q = src.a[2]
            if q.tag == "fld" and is_dt(q.a[0], "parent") and chk_tree.gone_in(l, src, q.a[0].a[2]):
                return True
    return False


def harmless(it, kind, cond, expected, facts, stack):
    if inconsistent(facts) or contradicts_contract(facts):
        return True
    if cond is TRUE or cond is FALSE:
        if kind.startswith("diverge"):
            return False
        return cond.a[0] == expected
    if kind.startswith("assert:overflow"):
        return ovf_ok(it, cond, facts)
    if kind == "link":
        return cond.a[2].tag == "app" and cond.a[2].a[0] == "fresh"
    if entails(facts, cond, expected):
        return True
    c, v = cond, expected
    while c.tag == "not":
        c, v = c.a[0], not v
    if c.tag in ("lt", "eq"):
        return zone(facts, c) is v
    return False


def x_panic(rep, prog):
    al = everything(prog)
    for f, e in al.problems:
        rep.fail("the code has a form the rules can follow", f, e)
    seen = set()
    fns = set()
    for it in al.its:
        fns |= set(it.functions) | {d for d in it.stack}
        rep.cover["call_sites"] += len(it.callsites)
        rep.cover["paths"] += it.npaths
        for (fn, kind), notes in it.panics.items():
            for span, cond, expected, fx, stack, frame in notes:
                k = (fn, kind, span, cond, fx)
                if k in seen:
                    continue
                seen.add(k)
                f = dict(fx.a[0])
                rep.check(harmless(it, kind, cond, expected, f, stack), "a possible panic is ruled out on every path", spot(it, fn, span, frame),
                          "%s: %s%s when %s" % (kind, "" if expected else "not ", show(cond, 6), fshow(f, 6)))
    rep.cover["functions"] |= fns
    for d in sorted(fns):
        b = prog.bodies.get(d)
        if b is not None and b["local"]:
            rep.check(True, "every way the function can panic is listed", short(b["p"]))


# ---- features -------------------------------------------------------------
import hashlib
import re
SITE = re.compile(r"^\d+\.\d+|^q~|#")


class Canon:
    """a name-free rendering of terms that can be compared between two builds of the same source"""

    def __init__(self, prog, it):
        self.prog = prog
        self.it = it
        self.memo = {}
        self.open = set()

    def h(self, *xs):
        return hashlib.blake2b("\x01".join(xs).encode(), digest_size=12).hexdigest()

    def s(self, xs):
        return self.h("set", *sorted(set(self.t(x) for x in xs)))

    def facts(self, pairs):
        return self.h("facts", *sorted({self.t(l) + "=" + str(v) for l, v in pairs if l.tag not in ("forall", "partial")} |
                                       {self.t(l) for l, v in pairs if l.tag in ("forall", "partial")}))

    def t(self, x):
        if isinstance(x, tuple):
            return self.h("tuple", *[self.t(y) for y in x])
        if not isinstance(x, T):
            x = str(x)
            if x.startswith("rec:"):
                b = self.prog.bodies.get(x[4:])
                return "rec:" + (b["p"] if b else x)
            b = self.prog.bodies.get(x)
            if b is not None:
                return b["p"]
            return "@" if SITE.search(x) else x
        r = self.memo.get(x)
        if r is None:
            r = self._t(x)
            if not self.open:
                self.memo[x] = r
        return r

    def _t(self, x):
        g, a = x.tag, x.a
        if g == "elem":
            return self.h(g, self.t(a[1]))
        if g == "phi":
            if x in self.open:
                return self.h("phi-", self.t(a[2]))
            self.open.add(x)
            r = self.h(g, self.t(a[2]), *sorted({self.t(v) for v, _ in self.it.phi.get(x, [])}))
            self.open.discard(x)
            return r
        if g == "base":
            return self.h(g, str(a[1]).split("#")[-1], self.t(a[2]))
        if g == "item":
            return self.h(g, self.t(a[0]), self.t(a[1]))
        if g == "work":
            return self.h(g, str(a[1]))
        if g == "disc":
            return self.h(g, self.t(a[0]))
        if g == "obj":
            return self.h(g, str(a[0]).split("#")[-1])
        if g == "loop":
            return self.h(g, str(a[1]), self.s(a[2]), self.s(a[4]))
        if g == "path":
            return self.h(g, str(a[0]), self.t(a[1]), self.t(a[2]), self.s(a[3]))
        if g in ("forall", "partial"):
            return self.h(g, self.s(a[1]), self.s(a[2]))
        if g == "facts":
            return self.facts(a[0])
        if g in ("eq",):
            return self.h(g, *sorted(self.t(y) for y in a))
        if g == "rec":
            return self.h(g, self.t(a[0]), self.t(a[1]))
        return self.h(g, *[self.t(y) for y in a])


def summary(prog, it, s, v):
    c = Canon(prog, it)
    return c.h(c.t(it.rv(s, v)), c.facts([(l, w) for l, w in s.facts.items()]),
               *sorted(c.t(x) for k, x in s.heap.items() if not str(k)[0].isdigit()))


def x_neutral(rep, prog):
    """the observable summary of every analysed function, to be compared between feature sets"""
    out = {}
    orig = roots.Root.__init__
    rs = []

    def init(r, *a, **k):
        orig(r, *a, **k)
        rs.append(r)
    roots.Root.__init__ = init
    chk_match._mi.pop(id(prog), None)
    try:
        chk_match.info(prog)
        chk_script.Script(prog)
        for m in (chk_tree, chk_api):
            for f in sorted(dir(m)):
                if f[:2] == "t_" and getattr(m, f).__module__ == m.__name__ and f not in ("t_node_data", "t_defaults"):
                    getattr(m, f)(Report("x"), prog)
    finally:
        roots.Root.__init__ = orig
    for r in rs:
        k = r.body["p"] + "|" + ",".join(show(a, 2) for a in r.args)
        sm = {summary(prog, r.it, s, v) for s, v in r.outs if not inconsistent(s.facts)}
        for h, w in sorted(r.it.work_entries.items(), key=lambda kv: kv[1]):
            if not h[0].split("#")[-1].startswith("Vec"):
                continue
            c = Canon(prog, r.it)
            sm.add(c.h("work", *sorted({c.t(n) for n, f in r.it.work_push.get(w, [])})))
        out.setdefault(k, set()).update(sm)
        rep.use(r)
    rep.summary = {k: sorted(v) for k, v in out.items()}
    for k in sorted(out):
        rep.check(bool(out[k]), "the function is summarised", short(k.split("|")[0]))


# ---- termination ----------------------------------------------------------
ENDLESS = ("repeat", "cycle", "from_fn", "successors", "rangefrom", "repeat_with")


def finite(src):
    return not any(x.tag in ENDLESS or x.tag == "app" and str(x.a[0]).split("::")[-1] in ENDLESS or x.tag.startswith("st") and x.tag[2:] in ENDLESS
                   for x in subterms(src))


def fields(v):
    """the nodes a work entry consists of"""
    return list(v.a[2:]) if v.tag == "agg" else [v]


def below(x, e):
    """x is a child of (part of) e, or something drawn from below it"""
    n = 0
    while x.tag in ("elem", "fld") and n < 12:
        n += 1
        if x.tag == "fld":
            x = x.a[0]
            continue
        s = x.a[1]
        for y in subterms(s):
            if y.tag == "app" and y.a[0] == D + "children" and len(y.a) == 3 and part_of(y.a[2], e):
                return True
        return False
    return False


def part_of(x, e):
    while True:
        if x is e:
            return True
        if x.tag == "fld":
            x = x.a[0]
        elif x.tag == "elem" and x.a[1].tag == "snap":
            return any(part_of(y, e) for y in subterms(x.a[1]) if y.tag == "fld" or y is e)
        else:
            return False


def marked(v, e, facts):
    """the entry itself, put back with its mark changed: the new mark, or None"""
    if v.tag != "agg":
        return None
    if v.a[0] != "tuple" and len(v.a) > 2 and entails(facts, disceq(e, v.a[1]), False):
        return v.a[1] if all(part_of(x, e) for x in v.a[2:]) else None
    same_, new = 0, []
    for i, x in enumerate(v.a[2:]):
        y = fld(e, v.a[1], i)
        if x is y:
            same_ += 1
        elif x.tag == "bool" and entails(facts, y, not x.a[0]):
            new.append((i, x))
        elif x.tag == "agg" and not x.a[2:] and entails(facts, disceq(y, x.a[1]), False):
            new.append((i, x))
        else:
            return None
    return new[0] if same_ >= 1 and len(new) == 1 else None


def x_terminate(rep, prog):
    al = everything(prog)
    for f, e in al.problems:
        rep.fail("the code has a form the rules can follow", f, e)
    for it in al.its:
        rep.cover["functions"] |= set(it.functions)
        rep.cover["paths"] += it.npaths
        works = set()
        for lid, log in it.loop_log.items():
            w = where(it, lid)
            for x in sorted(log, key=str):
                if x[0] == "step":
                    rep.check(finite(x[1]), "every loop draws from something finite", w, show(x[1], 6))
                    works |= {y for y in subterms(x[1]) if y.tag == "work"}
                elif x[0] == "free":
                    rep.fail("every iteration uses up something finite, climbs towards the root, or counts towards a fixed bound", w,
                             "an iteration goes round when " + fshow(x[1].a[0], 6))
                else:
                    rep.check(True, "every iteration uses up something finite, climbs towards the root, or counts towards a fixed bound", w)
        for wk in sorted(works, key=lambda t: t.id):
            marks = set()
            for nodes, facts in it.work_push.get(wk.a[2], []):
                es = {e for l in facts for e in variables(l) if e.tag == "elem" and e.a[1] is wk}
                es |= {e for n in nodes for e in variables(n) if e.tag == "elem" and e.a[1] is wk}
                for v, f, site in pushed(nodes[1:] if nodes and nodes[0].tag == "base" else nodes, facts):
                    ok = any(any(below(x, e) for x in fields(v)) for e in es)
                    if not ok:
                        ms = {marked(v, e, f) for e in es} - {None}
                        marks |= ms
                        ok = bool(ms) and len(marks) == 1
                    rep.check(ok, "a worklist only takes in nodes below the one just taken out", where(it, site), show(v, 6))
        for fn, pa, ra in sorted(it.rec_edges, key=str):
            b = prog.bodies.get(fn)
            if b is None or not b["local"]:
                continue
            ok = pa is not None and any(below(x, p) for x, p in zip(ra, pa))
            rep.check(ok, "recursion only goes to children", short(b["p"]), show(tuple(ra), 5))


def pushed(nodes, facts):
    from facts import walk, splice
    for r in walk(splice(nodes), dict(facts)):
        if r.val is not None:
            yield r.val, r.facts, r.site
