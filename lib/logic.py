"""Entailment over path facts: congruence closure plus the documented contracts of DiffTree and Matching.

Purely syntactic closure of the facts a program path establishes; no solver, no search over inputs."""
from term import *
from engine import eq, neg, disceq, lt, WALKS

C = "cinereus::"
D = C + "tree::DiffTree::"
OPTION_APPS = {D + "parent", D + "text", "get_a", "get_b"}
LEAF = ("snap", "loop", "facts", "base", "st", "path", "item", "forall", "partial", "phi", "work", "unord", "bucket")


def dt(meth, *a):
    return app(D + meth, *a)


def is_dt(t, meth):
    return t.tag == "app" and t.a[0] == D + meth


def opq(t, x):
    return mk("opqdesc", t, x)


def hash_(t, x):
    return dt("hash", t, x)


def hash_eq(ta, a, tb, b):
    return ("eqany", [(hash_(ta, a), hash_(tb, b)), (fld(hash_(ta, a), 0, 0), fld(hash_(tb, b), 0, 0))])


class Closure:
    def __init__(self, facts, extra=()):
        self.facts = {}
        self.bad = False
        self.par = {}
        self.univ = {}
        self.pending = []
        self.bools = {}
        for l, v in (facts.items() if isinstance(facts, dict) else facts):
            self.facts[l] = v
        for l, v in extra:
            l, v = strip(l, v)
            if l.tag == "bool":
                if l.a[0] != v:
                    self.bad = True
                continue
            if l in self.facts and self.facts[l] != v:
                self.bad = True
            self.facts[l] = v
        self.build()

    # union-find
    def find(self, t):
        p = self.par.get(t, t)
        if p is t:
            return t
        r = self.find(p)
        self.par[t] = r
        return r

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a is b:
            return False
        # prefer constructors / constants as representatives
        rank = lambda t: 0 if t.tag in ("agg", "int", "flt", "bool", "str") else 1
        if rank(b) < rank(a) or (rank(a) == rank(b) and b.id < a.id):
            a, b = b, a
        self.par[b] = a
        if a.tag == "agg" and b.tag == "agg":
            if a.a[0] != b.a[0] or a.a[1] != b.a[1]:
                self.bad = True
            else:
                for x, y in zip(a.a[2:], b.a[2:]):
                    self.union(x, y)
        elif a.tag in ("int", "flt", "str", "bool") and b.tag == a.tag:
            self.bad = True
        return True

    def add(self, t):
        if not isinstance(t, T) or t in self.univ:
            return
        self.univ[t] = True
        if t.tag == "phi" and WALKS.get(t.a[:2]):
            tr, opt = WALKS[t.a[:2]]
            x = fld(t.a[2], 1, 0) if opt else t.a[2]
            self.add(x)
            self.assert_(mk("indesc", tr, fld(t, 1, 0) if opt else t, x), True)
            return
        if t.tag in LEAF:
            return
        if t.tag == "elem":
            self.contract(t)
            return
        if t.tag == "len":
            x = t.a[0]
            while x.tag in ("unord", "copyof", "snap"):
                if x.tag == "snap":
                    if len(x.a[1]) != 1 or x.a[1][0].tag != "copyof":
                        break
                    x = x.a[1][0]
                x = x.a[0]
            if is_dt(x, "descendants"):         # a node is one of its descendants
                self.assert_(mk("eq", *sorted((t, Int(0)), key=lambda t: t.id)), False)
        if t.tag == "bin" and t.a[0] == "Add":
            for x in t.a[1:]:
                if x.tag == "len":
                    self.add(x)
                    z = mk("eq", *sorted((x, Int(0)), key=lambda t: t.id))
                    if self.facts.get(z) is False:
                        self.assert_(mk("eq", *sorted((t, Int(0)), key=lambda t: t.id)), False)
        for x in t.a:
            if isinstance(x, T):
                self.add(x)
            elif isinstance(x, tuple):
                for y in x:
                    self.add(y)

    def assert_(self, l, v):
        l, v = strip(l, v)
        if l.tag == "bool":
            if l.a[0] != v:
                self.bad = True
            return
        if l.tag == "eq" and v:
            self.add(l.a[0])
            self.add(l.a[1])
            self.pending.append((l.a[0], l.a[1]))
            return
        if l.tag == "disceq" and l.a[0].tag == "agg":
            if (l.a[0].a[1] == l.a[1]) != v:
                self.bad = True
            return
        if l in self.facts:
            if self.facts[l] != v:
                self.bad = True
            return
        self.facts[l] = v
        for x in l.a:
            self.add(x)

    def contract(self, e):
        src = e.a[1]
        for s in (src,):
            if is_dt(s, "children"):
                t, p = s.a[1], s.a[2]
                par = dt("parent", t, e)
                self.assert_(disceq(par, 1), True)
                self.add(fld(par, 1, 0))
                self.pending.append((fld(par, 1, 0), p))
                self.assert_(mk("indesc", t, p, e), True)
                self.add(p)
            elif s.tag == "app" and s.a[0] == "ancestors":
                self.add(s.a[2])
                self.assert_(mk("indesc", s.a[1], e, s.a[2]), True)
            elif is_dt(s, "descendants"):
                self.assert_(mk("indesc", s.a[1], s.a[2], e), True)
            elif s.tag == "app" and s.a[0] == "pairs":
                m = s.a[1]
                a, b = fld(e, 0, 0), fld(e, 0, 1)
                for w, x, y in (("get_b", a, b), ("get_a", b, a)):
                    g = app(w, m, x)
                    self.assert_(disceq(g, 1), True)
                    self.add(fld(g, 1, 0))
                    self.pending.append((fld(g, 1, 0), y))

    def build(self):
        for l, v in list(self.facts.items()):
            if l.tag in ("forall", "partial"):
                continue
            self.add(l)
            if l.tag == "eq" and v is True:
                self.pending.append((l.a[0], l.a[1]))
        n = 0
        while True:
            n += 1
            ch = False
            while self.pending:
                a, b = self.pending.pop()
                if self.union(a, b):
                    ch = True
            # truth of boolean terms by class
            val = {}
            for l, v in list(self.facts.items()):
                if l.tag in ("forall", "partial", "eq"):
                    continue
                k = self.sig(l)
                if val.setdefault(k, v) != v:
                    self.bad = True
            self.val = val
            for l, v in list(self.facts.items()):
                if l.tag == "eq" and v is False and self.find(l.a[0]) is self.find(l.a[1]):
                    self.bad = True
                if l.tag == "lt" and v is True and self.find(l.a[0]) is self.find(l.a[1]):
                    self.bad = True
            if self.bad:
                return
            # congruence
            sigs = {}
            for t in list(self.univ):
                if t.tag in LEAF or t.tag in ("elem", "param", "int", "bool"):
                    continue
                k = self.sig(t)
                o = sigs.get(k)
                if o is None:
                    sigs[k] = t
                elif self.union(o, t):
                    ch = True
                # projection of constructors
                if t.tag == "fld" and isinstance(t.a[0], T):
                    r = self.find(t.a[0])
                    if r.tag == "agg" and (r.a[1] == t.a[1] or r.a[0] == "tuple") and 2 + t.a[2] < len(r.a):
                        if self.union(t, r.a[2 + t.a[2]]):
                            ch = True
            # matching is a bijection (property M2/M1): inverse of a known partner
            for t in list(self.univ):
                if t.tag == "app" and t.a[0] in ("get_a", "get_b") and n < 4:
                    if self.truth(disceq(t, 1)) is True:
                        p = fld(t, 1, 0)
                        inv = app("get_a" if t.a[0] == "get_b" else "get_b", t.a[1], p)
                        rp = self.find(p)
                        if self.truth(disceq(inv, 1)) is not True:
                            self.assert_(disceq(inv, 1), True)
                            ch = True
                        q = fld(inv, 1, 0)
                        self.add(q)
                        if self.find(q) is not self.find(t.a[2]) and self.union(q, t.a[2]):
                            ch = True
                if t.tag == "app" and t.a[0] in OPTION_APPS and n < 6:
                    tr = self.truth(disceq(t, 1))
                    if tr is True:
                        o = Some(fld(t, 1, 0))
                        self.add(o)
                        if self.find(o) is not self.find(t) and self.union(o, t):
                            ch = True
                    elif tr is False and self.find(NONE) is not self.find(t):
                        self.add(NONE)
                        if self.union(NONE, t):
                            ch = True
                if t.tag == "app" and t.a[0] == D + "parent" and self.truth(disceq(t, 1)) is True and n < 3:
                    tt, x = t.a[1], t.a[2]
                    l = mk("indesc", tt, fld(t, 1, 0), x)
                    if l not in self.facts:
                        self.assert_(l, True)
                        ch = True
                if is_dt(t, "root") and n < 3:
                    par = dt("parent", t.a[1], t)
                    if self.truth(disceq(par, 1)) is None:
                        self.assert_(disceq(par, 1), False)
                        ch = True
            if n < 4:
                ds = [l for l, v in self.facts.items() if l.tag == "indesc" and v is True]
                if len(ds) < 24:
                    for l in ds:
                        for k in ds:
                            if l.a[0] is k.a[0] and self.find(l.a[2]) is self.find(k.a[1]):
                                x = mk("indesc", l.a[0], l.a[1], k.a[2])
                                if x not in self.facts:
                                    self.assert_(x, True)
                                    ch = True
            if not ch or n > 12:
                return

    def sig(self, t):
        out = [t.tag]
        for x in t.a:
            if isinstance(x, T):
                out.append(self.find(x).id)
            elif isinstance(x, tuple):
                out.append(tuple(self.find(y).id if isinstance(y, T) else y for y in x))
            else:
                out.append(("k", x))
        return tuple(out)

    def same(self, a, b):
        for x in (a, b):
            if x not in self.univ:
                self.add(x)
                self.build()
        return self.find(a) is self.find(b)

    def truth(self, l):
        v = True
        while l.tag == "not":
            l, v = l.a[0], not v
        if l.tag == "bool":
            return l.a[0] == v
        if l.tag == "eq":
            if self.find(l.a[0]) is self.find(l.a[1]):
                return v
            r = self.facts.get(l)
            return None if r is None else (r == v)
        r = self.facts.get(l)
        if r is None:
            r = getattr(self, "val", {}).get(self.sig(l))
        return None if r is None else (r == v)


def strip(l, v):
    while l.tag == "not":
        l, v = l.a[0], not v
    return l, v


_cl = {}


def entails(facts, lit, val=True):
    """do the path facts force lit == val?"""
    lit, val = strip(lit, val)
    if lit.tag == "bool":
        return lit.a[0] == val
    k = (mkfacts(facts), lit, val)
    r = _cl.get(k)
    if r is None:
        c = Closure(facts, [(lit, not val)])
        r = _cl[k] = c.bad
    return r


def inconsistent(facts):
    return Closure(facts).bad


def entails_or(facts, lits):
    """do the facts force at least one of the literals?"""
    return Closure(facts, [(l, not v) for l, v in lits]).bad


def entails_all(facts, lits):
    return all(entails(facts, l, v) for l, v in lits)
