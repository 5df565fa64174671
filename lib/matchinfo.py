"""The analysed compute_matching: insertion records, recursion, worklists, and an induction prover for invariants."""
from term import *
from engine import *
from logic import *
from facts import *
from roots import Root, P
from report import *
from chk_script import find_public, field_index

TA, TB, CFG = P("ta"), P("tb"), P("cfg")
TREES = [TA, TB]


class RecRoot:
    """a recursive helper analysed once for arbitrary arguments"""

    def __init__(self, mi, fn, call_args):
        self.fn = fn
        self.args = []
        heap = {}
        self.vars = {}          # argument index -> parameter
        for i, a in enumerate(call_args):
            if a in (TA, TB, CFG) or (not a._has and a.tag not in ("snap",)):
                self.args.append(a)
            elif a.tag == "snap" and a.a[0] == "matching":
                oid = "R%d" % i
                heap[oid] = mk("coll", "matching", (mk("base", "init:" + fn, oid, (), mkfacts({})),))
                self.oid = oid
                self.args.append(mk("ref", ("O", oid), ()))
            else:
                p = mk("param", "%s#%d" % (fn.split("::")[-1], i))
                self.vars[i] = p
                self.args.append(p)
        self.root = Root(mi.prog, mi.prog.bodies[fn], self.args, heap=heap)
        self.it = self.root.it
        self.outs = []
        for s, v in self.root.outs:
            nodes = s.heap[self.oid].a[1]
            self.outs.append((normalise(s.facts, TREES), splice(nodes), s))


class MatchInfo:
    def __init__(self, prog):
        self.prog = prog
        self.root = Root(prog, find_public(prog, "compute_matching"), [TA, TB, CFG])
        self.it = self.root.it
        cfg = next(k for k in prog.adts if k.endswith("::MatchingConfig"))
        self.TH = fld(CFG, *field_index(prog, cfg, "MatchingConfig", "similarity_threshold"))
        self.MINH = fld(CFG, *field_index(prog, cfg, "MatchingConfig", "min_height"))
        self.outs = []
        self.problems = []
        for s, v in self.root.outs:
            v = self.it.rv(s, v)
            if v.tag != "snap" or v.a[0] != "matching":
                self.problems.append(("the returned Matching is the one the phases filled", short(self.root.body["p"]), show(v, 3)))
                continue
            self.outs.append((normalise(s.facts, TREES), splice(v.a[1]), s))
        self.recs = []          # (owner, Rec)
        self.calls = []         # (owner, node, facts)
        self.rec_roots = {}
        self.owner_of_param = {}
        self._scan(self)
        todo = list(self.calls)
        while todo:
            owner, node, facts = todo.pop()
            fn = node.a[0]
            if fn in self.rec_roots:
                continue
            rr = RecRoot(self, fn, node.a[1])
            self.rec_roots[fn] = rr
            for i, p in rr.vars.items():
                self.owner_of_param[p] = (rr, i)
            n = len(self.calls)
            self._scan(rr)
            todo += self.calls[n:]
        self._proved = {}

    def _scan(self, owner):
        it = owner.it
        for facts, nodes, s in owner.outs:
            for r in walk(nodes):
                r.facts = normalise(r.facts, TREES)
                for l, v in facts.items():
                    if l.tag not in ("forall", "partial"):
                        r.facts.setdefault(l, v)
                if r.val is not None:
                    self.recs.append((owner, r))
                elif r.node.tag == "rec":
                    f = dict(r.facts)
                    f.update(normalise(factsdict(r.node.a[2]), TREES))
                    self.calls.append((owner, r.node, f))
                elif r.node.tag in ("base", "perm"):
                    continue
                else:
                    self.problems.append(("every change to the Matching is an add()", where(it, r.site), show(r.node, 3)))
        # first (inlined) call of a recursive helper is part of the records above

    def work_of(self, src, owner):
        """records of everything ever inserted into the worklist a source draws from"""
        if src.tag != "work":
            return None
        it = owner.it
        oid, init, key = it.work_init[src.a[2]]
        out = []
        for nodes, facts in [(init, factsdict(key))] + it.work_push.get(src.a[2], []):
            for r in walk([n for n in splice(nodes) if not (n.tag == "base" and n.a[1] == oid)], facts):
                if r.val is None and r.node.tag in ("base", "perm"):
                    continue
                r.facts = normalise(r.facts, TREES)
                out.append(r)
        return out

    # ---- induction ------------------------------------------------------
    def call_sites(self, fn):
        """argument tuples (terms, facts) for every recursive call, and for the calls that start the recursion"""
        return [(o, n.a[1], f) for o, n, f in self.calls if n.a[0] == fn]


def resolve(t):
    return t


class Prover:
    """proves predicates about pairs (x in A, y in B) or single nodes by induction over worklists and recursion.
    The initial call of a recursive helper is analysed inline, so its arguments appear as ordinary records."""

    def __init__(self, mi):
        self.mi = mi
        self.memo = {}
        self.open = set()

    def classes(self, facts, x):
        """terms equal to x according to the facts (x first)"""
        out = [x]
        for l, v in facts.items():
            if l.tag == "eq" and v is True:
                if l.a[0] is x:
                    out.append(l.a[1])
                elif l.a[1] is x:
                    out.append(l.a[0])
        return out

    def induct(self, pred, key, terms, owner):
        """terms all come from one worklist element or are parameters of one recursive helper: prove pred for all its origins.
        Returns None when not applicable."""
        mi = self.mi
        k = (pred.__name__, key)
        # worklist element fields
        elems = set()
        for t in terms:
            e = self.base_elem(t)
            elems.add(e)
        if len(elems) == 1 and None not in elems:
            e = elems.pop()
            if e.tag == "elem" and e.a[1].tag == "work":
                hk = (k, tuple(t for t in terms))
                if hk in self.memo:
                    return self.memo[hk]
                if hk in self.open:
                    return True
                self.open.add(hk)
                recs = mi.work_of(e.a[1], owner)
                ok = bool(recs)
                for r in recs:
                    if r.val is None:
                        ok = False
                        break
                    ts = [subst(t, {e.id: r.val}) for t in terms]
                    if not pred(self, ts, r.facts, owner):
                        ok = False
                        break
                self.open.discard(hk)
                if not self.open or not ok:
                    self.memo[hk] = ok
                return ok
        # parameters of a recursive helper
        if all(t in mi.owner_of_param for t in terms):
            rrs = {id(mi.owner_of_param[t][0]) for t in terms}
            if len(rrs) == 1:
                rr = mi.owner_of_param[terms[0]][0]
                hk = (k, tuple(terms))
                if hk in self.memo:
                    return self.memo[hk]
                if hk in self.open:
                    return True
                self.open.add(hk)
                ok = True
                for o, args, f in mi.call_sites(rr.fn):
                    ts = [args[mi.owner_of_param[t][1]] for t in terms]
                    if not pred(self, ts, f, o):
                        ok = False
                        break
                self.open.discard(hk)
                if not self.open or not ok:
                    self.memo[hk] = ok
                return ok
        return None

    def base_elem(self, t):
        while t.tag == "fld":
            t = t.a[0]
        if t.tag == "elem":
            return t
        return None

    # predicates over (x) -------------------------------------------------
    def nop(self, side, x, facts, owner):
        f = nop_a if side == "a" else nop_b
        return f(self, [x], facts, owner)

    def iden(self, x, y, facts, owner):
        return p_iden(self, [x, y], facts, owner)

    def level(self, x, y, facts, owner):
        return p_level(self, [x, y], facts, owner)


def children_parent(t, x):
    """p when x is drawn from children(t, p)"""
    if x.tag == "elem":
        s = x.a[1]
        while s.tag == "st" and s.a[0] in ("rev", "enum", "skip"):
            s = s.a[1]
        if is_dt(s, "children") and s.a[1] is t:
            return s.a[2]
    return None


def _nop(pr, t, x, facts, owner, pred):
    if entails(facts, opq(t, x), False):
        return True
    if entails(facts, eq(x, dt("root", t)), True) or x is dt("root", t):
        return True
    if entails(facts, disceq(dt("parent", t, x), 1), False):
        return True
    for y in pr.classes(facts, x):
        p = children_parent(t, y)
        if p is not None and entails(facts, dt("is_opaque", t, p), False) and pred(pr, [p], facts, owner):
            return True
    r = pr.induct(pred, t.a[0], [x], owner)
    return bool(r)


def nop_a(pr, ts, facts, owner):
    return _nop(pr, TA, ts[0], facts, owner, nop_a)


def nop_b(pr, ts, facts, owner):
    return _nop(pr, TB, ts[0], facts, owner, nop_b)


def hash_equal(facts, a, b):
    return any(entails(facts, eq(x, y), True) for x, y in hash_eq(TA, a, TB, b)[1])


def hash_differs(facts, a, b):
    return any(entails(facts, eq(x, y), False) for x, y in hash_eq(TA, a, TB, b)[1])


def kind_equal(facts, a, b):
    return entails(facts, eq(dt("kind", TA, a), dt("kind", TB, b)), True)


def zipped_parents(facts, a, b):
    """(p, q) when a and b are the i-th children of p and q"""
    for l, v in facts.items():
        if l.tag == "zipped" and v is True:
            for x, y in ((l.a[0], l.a[1]), (l.a[1], l.a[0])):
                if x is a and y is b:
                    p, q = children_parent(TA, a), children_parent(TB, b)
                    if p is not None and q is not None:
                        return p, q
    return None


def p_iden(pr, ts, facts, owner):
    """equal hash and kind, or the i-th children of such a pair"""
    a, b = ts
    if hash_equal(facts, a, b) and kind_equal(facts, a, b):
        return True
    z = zipped_parents(facts, a, b)
    if z and p_iden(pr, list(z), facts, owner):
        return True
    return bool(pr.induct(p_iden, "ab", ts, owner))


def p_level(pr, ts, facts, owner):
    """both roots, or children of a pair on the same level"""
    a, b = ts
    ra, rb = dt("root", TA), dt("root", TB)
    if (a is ra or entails(facts, eq(a, ra), True)) and (b is rb or entails(facts, eq(b, rb), True)):
        return True
    na = entails(facts, disceq(dt("parent", TA, a), 1), False)
    nb = entails(facts, disceq(dt("parent", TB, b), 1), False)
    if na and nb:
        return True
    p, q = children_parent(TA, a), children_parent(TB, b)
    if p is not None and q is not None and p_level(pr, [p, q], facts, owner):
        return True
    return bool(pr.induct(p_level, "ab", ts, owner))


def p_high(pr, ts, facts, owner):
    """at least min_height high, or the i-th children of an identical pair that is"""
    a, b = ts
    mh = pr.mi.MINH
    if entails(facts, lt(dt("height", TA, a), mh), False):
        return True
    if entails(facts, lt(dt("height", TB, b), mh), False) and p_iden(pr, ts, facts, owner):
        return True
    z = zipped_parents(facts, a, b)
    if z and p_iden(pr, list(z), facts, owner) and p_high(pr, list(z), facts, owner):
        return True
    return bool(pr.induct(p_high, "ab", ts, owner))
