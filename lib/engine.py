"""A path-sensitive abstract interpreter (dataflow with value numbering, trace partitioning and
generic-iteration loop summaries) over the MIR dumped by mirdump.

It never executes the program and hands nothing to a solver: branch conditions become facts on
uninterpreted terms, loops are analysed once for a generic iteration (cells they modify are havocked to
phi terms), and mutable collections are represented by the tree of guarded insertions that builds them."""
import re
import sys
from term import *

sys.setrecursionlimit(100000)


class Limit(Exception):
    pass


class Unsupported(Exception):
    pass


GEN = re.compile(r"<[^<>]*>")


def norm_name(p):
    """std::vec::Vec::<T, A>::pop -> std::vec::Vec::pop"""
    if p.startswith("<"):
        depth = 0
        for i, c in enumerate(p):
            if c == "<":
                depth += 1
            elif c == ">" and p[i - 1] != "-":
                depth -= 1
                if depth == 0:
                    break
        inner = p[1:i]
        rest = p[i + 1:]
        ty = inner.split(" as ")[0]
        tr = inner.split(" as ")[1] if " as " in inner else ""
        return "<" + norm_name(ty) + (" as " + norm_name(tr) if tr else "") + ">" + rest
    p = p.replace("->", "")
    while True:
        q = GEN.sub("", p)
        if q == p:
            break
        p = q
    p = p.replace("::::", "::")
    while p.endswith("::"):
        p = p[:-2]
    return p


_lenders = {}


def lenders(t):
    """the closures and map entries inside t"""
    r = _lenders.get(t)
    if r is None:
        r = _lenders[t] = tuple(x for x in subterms(t) if x.tag in ("entry", "clo"))
    return r


class Program:
    def __init__(self, dump):
        self.types = dump["types"]
        self.adts = dump["adts"]
        self.impls = dump["impls"]
        self.bodies = {}
        self.consts = {b["d"]: b for b in dump["bodies"] if b["kind"] == "const"}
        for b in dump["bodies"]:
            if b["kind"] != "const":
                self.bodies[b["d"]] = b
            b["norm"] = norm_name(b["p"])
        self.by_name = {}
        for b in self.bodies.values():
            if b["local"] and b["kind"] == "fn":
                self.by_name.setdefault(b["norm"], []).append(b)
        self._loops = {}
        self._norm = {}
        self._upvars = None

    def nname(self, p):
        r = self._norm.get(p)
        if r is None:
            r = self._norm[p] = norm_name(p)
        return r

    def upvars(self, key):
        """the types of what the closure captures"""
        if self._upvars is None:
            self._upvars = {x["d"]: x["u"] for x in self.types if x["k"] == "closure"}
        return self._upvars.get(key, ())

    def fn(self, name):
        bs = self.by_name.get(name, [])
        return bs[0] if len(bs) == 1 else None

    def trait_impl_fn(self, trait, selfty, meth):
        """Local impl of trait::meth whose self type is the ADT path selfty."""
        for b in self.bodies.values():
            if b["local"] and b.get("impl_of") == trait and b["n"] == meth:
                t = self.types[b["self"]]
                if t.get("p") == selfty or t["s"] == selfty:
                    return b
        return None

    def ty(self, i):
        return self.types[i]

    def variants(self, tyi):
        t = self.types[tyi]
        while t["k"] == "ref":
            t = self.types[t["t"]]
        if t["k"] == "adt":
            return self.adts.get(t["p"])
        return None

    # ---- loop structure -------------------------------------------------
    def succs(self, blk):
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def loops(self, body):
        """header -> region(set of blocks), nested included."""
        r = self._loops.get(body["d"])
        if r is not None:
            return r
        n = len(body["blocks"])
        succ = [[s for s in self.succs(b) if not body["blocks"][s]["c"]] for b in body["blocks"]]
        out = {}

        def sccs(nodes, cut):
            index, low, onst, st, res = {}, {}, set(), [], []
            cnt = [0]

            def strong(v):
                work = [(v, iter([w for w in succ[v] if w in nodes and w != cut]))]
                index[v] = low[v] = cnt[0]
                cnt[0] += 1
                st.append(v)
                onst.add(v)
                while work:
                    u, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in index:
                            index[w] = low[w] = cnt[0]
                            cnt[0] += 1
                            st.append(w)
                            onst.add(w)
                            work.append((w, iter([x for x in succ[w] if x in nodes and x != cut])))
                            adv = True
                            break
                        elif w in onst:
                            low[u] = min(low[u], index[w])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[u])
                    if low[u] == index[u]:
                        comp = set()
                        while True:
                            w = st.pop()
                            onst.discard(w)
                            comp.add(w)
                            if w == u:
                                break
                        res.append(comp)
            for v in sorted(nodes):
                if v not in index:
                    strong(v)
            return res

        def rec(nodes, cut):
            for comp in sccs(nodes, cut):
                v = next(iter(comp))
                if len(comp) == 1 and v not in [s for s in succ[v] if s != cut]:
                    continue
                # header: the entry from outside the component
                heads = set()
                for u in range(n):
                    if u not in comp and not body["blocks"][u]["c"]:
                        for w in succ[u]:
                            if w in comp:
                                heads.add(w)
                if cut is not None and cut not in comp:
                    for w in succ[cut]:
                        if w in comp:
                            heads.add(w)
                if 0 in comp:
                    heads.add(0)
                if len(heads) != 1:
                    raise Unsupported("irreducible loop in " + body["p"])
                h = heads.pop()
                out[h] = comp
                rec(comp - {h} | {h}, h)
        rec({i for i in range(n) if not body["blocks"][i]["c"]}, None)
        self._loops[body["d"]] = out
        return out


class State:
    __slots__ = ("env", "heap", "facts", "choice", "loops", "steps", "elems", "outer", "eff")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = {}
        self.choice = {}
        self.loops = ()
        self.steps = ()
        self.elems = frozenset()
        self.outer = frozenset()
        self.eff = ()

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.choice = dict(self.choice)
        s.loops = self.loops
        s.steps = self.steps
        s.elems = self.elems
        s.outer = self.outer
        s.eff = self.eff
        return s


def neg(t):
    if t.tag == "not":
        return t.a[0]
    if t.tag == "bool":
        return Bool(not t.a[0])
    return mk("not", t)


def eq(a, b):
    if a is b:
        return TRUE
    if a.tag in ("int", "str", "flt") and b.tag == a.tag:
        return FALSE
    if a.tag == "bool":
        return b if a.a[0] else neg(b)
    if b.tag == "bool":
        return a if b.a[0] else neg(a)
    return mk("eq", *sorted((a, b), key=lambda t: t.id))


def lt(a, b):
    if a is b:
        return FALSE
    if a.tag == "int" and b.tag == "int":
        return Bool(a.a[0] < b.a[0])
    if a.tag == "flt" and b.tag == "flt":
        return Bool(float(a.a[0]) < float(b.a[0]))
    if a.tag == "int" and a.a[0] == 0:
        return neg(eq(b, a))
    if b.tag == "int" and b.a[0] == 1:
        return eq(a, Int(0))
    if b.tag == "int" and b.a[0] == 0:
        return FALSE
    return mk("lt", a, b)


def disceq(t, v, nv=2):
    while t.tag == "upd" and t.a[1] >= 0:       # writing a part does not change which variant it is
        t = t.a[0]
    if t.tag == "agg":
        return Bool(t.a[1] == v)
    if nv == 2 and v == 0:
        return neg(mk("disceq", t, 1))
    return mk("disceq", t, v)


def content(nodes_or_term):
    return nodes_or_term


def snap(kind, nodes):
    if kind == "Vec" and len(nodes) == 1 and nodes[0].tag == "copyof":
        return nodes[0].a[0]
    return mk("snap", kind, nodes)


def nodes_of(t):
    if t.tag == "snap":
        return t.a[1]
    return (mk("copyof", t),)


class Ctx:
    __slots__ = ("site", "callee", "frame", "body", "span", "argtys", "destty", "name")


def vec_len(nodes):
    """length of a vector built by the nodes"""
    i = len(nodes)
    extra = 0
    while i > 0:
        n = nodes[i - 1]
        if n.tag == "item":
            extra += 1
        elif n.tag == "resize":
            return plus(n.a[0], extra)
        elif n.tag not in ("set", "perm"):
            break
        i -= 1
    if i == 0:
        return Int(extra)
    return plus(mk("len", snap("Vec", nodes[:i])), extra)


def plus(t, k):
    if k == 0:
        return t
    if t.tag == "int":
        return Int(t.a[0] + k)
    return mk("bin", "Add", t, Int(k))


def linear(t):
    """t = atom + constant"""
    if t.tag == "int":
        return None, t.a[0]
    if t.tag == "bin" and t.a[0] == "Add":
        for x, c in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if c.tag == "int":
                a, k = linear(x)
                return a, k + c.a[0]
    if t.tag == "bin" and t.a[0] == "Sub" and t.a[2].tag == "int":
        a, k = linear(t.a[1])
        return a, k - t.a[2].a[0]
    return t, 0


def zone(facts, lit):
    """difference bounds over unsigned atoms: True/False when the literal is decided, else None"""
    edges = []         # x - y <= c
    diff = set()
    atoms = {None}

    def le(x, y, c):
        a, i = linear(x)
        b, j = linear(y)
        atoms.update((a, b))
        edges.append((a, b, c + j - i))
    for l, v in facts.items():
        if l.tag == "lt":
            if v:
                le(l.a[0], l.a[1], -1)
            else:
                le(l.a[1], l.a[0], 0)
        elif l.tag == "eq":
            if v:
                le(l.a[0], l.a[1], 0)
                le(l.a[1], l.a[0], 0)
            else:
                diff.add((l.a[0], l.a[1]))
    p, q = lit.a
    a, i = linear(p)
    b, j = linear(q)
    atoms.update((a, b))
    for x in atoms:
        if x is not None:
            edges.append((None, x, 0))

    def bound(a, b):
        """least c with a - b <= c, or None"""
        dist = {b: 0}
        for _ in range(len(atoms)):
            ch = False
            for x, y, c in edges:
                if y in dist and dist[y] + c < dist.get(x, 1 << 60):
                    dist[x] = dist[y] + c
                    ch = True
            if not ch:
                break
        return dist.get(a)

    def upto(a, i, b, j):
        """p <= q + r: least r"""
        r = bound(a, b)
        return None if r is None else r + i - j
    up, dn = upto(a, i, b, j), upto(b, j, a, i)
    ne = any({x, y} == {p, q} for x, y in diff)
    if not ne and diff:
        for x, y in diff:
            xa, xi = linear(x)
            ya, yi = linear(y)
            if (xa, ya) == (a, b) and xi - yi == i - j or (xa, ya) == (b, a) and xi - yi == j - i:
                ne = True
    if lit.tag == "lt":
        if up is not None and (up < 0 or up == 0 and ne):
            return True
        if dn is not None and dn <= 0:
            return False
        return None
    if up == 0 and dn == 0:
        return True
    if ne or up is not None and up < 0 or dn is not None and dn < 0:
        return False
    return None


WALKS = {}      # (loop, cell) -> (tree, is an Option): the value carried round runs through a node and its ancestors
PARENT = "cinereus::tree::DiffTree::parent"


def parent_walk(p, alts, first):
    """is the loop-carried value `start`, then its parent, and so on?"""
    s0 = p.a[2]
    prev = mk("prev", p)
    if len(alts) < 2:
        return None
    tree = None
    opt = None
    for v, _ in alts:
        if v is s0:
            continue
        # the first round still shows the start value in place of the carried one
        if v.tag == "app" and v.a[0] == PARENT and v.a[2] in (fld(prev, 1, 0), fld(s0, 1, 0) if first else None):
            o, t = True, v.a[1]
        elif v.tag == "fld" and v.a[1] == 1 and v.a[0].tag == "app" and v.a[0].a[0] == PARENT and v.a[0].a[2] in (prev, s0 if first else None):
            o, t = False, v.a[0].a[1]
        else:
            return None
        if tree not in (None, t) or opt not in (None, o):
            return None
        tree, opt = t, o
    return tree, opt


_mention = {}
_EMPTY = frozenset()


def mentions(t):
    """heap objects a term refers to"""
    st = [t]
    order = []
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in _mention:
            _mention[x] = frozenset((x.a[0],)) if x.tag == "obj" else _EMPTY
            order.append(x)
            st.extend(x.a)
    for x in sorted(order, key=lambda x: x.id):       # parts are older than wholes
        r = _mention[x]
        if x.tag == "ref" and x.a[0][0] in ("O", "E", "B", "M"):
            r = r | {x.a[0][1]}
        for y in x.a:
            r = r | _ment_of(y)
        _mention[x] = r
    return _ment_of(t)


def _ment_of(y):
    if isinstance(y, T):
        return _mention[y]
    if isinstance(y, tuple):
        r = _EMPTY
        for z in y:
            if isinstance(z, (T, tuple)):
                q = _ment_of(z)
                if q:
                    r = r | q
        return r
    return _EMPTY


class Interp:
    MAX_STEPS = 1_500_000
    MAX_DEPTH = 40
    tracing = False        # answer of every `is tracing enabled` test

    def __init__(self, prog, models, intercept=None):
        self.p = prog
        self.models = models
        self.intercept = intercept or {}
        self.frames = {}
        self.frame_names = []
        self.frame_parent = {}
        self.phi = {}
        self.phi_final = {}
        self.steps_done = 0
        self.stack = []
        self.panics = {}
        self.functions = set()
        self.callsites = set()
        self.blocks_seen = set()
        self.uninterp = {}
        self.ambient = {}
        self.npaths = 0
        self.rec_calls = {}
        self.rec_edges = set()     # (function, arguments of the running call, arguments of the call it makes)
        self.args_of = {}
        self.phi_iter = {}
        self.alt_src = {}       # loop-carried value -> for each alternative, the iterations (end states) that assign it
        self.new_src = {}
        self.loop_log = {}         # loop -> {how one more iteration is paid for}
        self.skips = []
        self.axiom = None
        self.zones = False       # decide integer comparisons with difference bounds
        self.sites = {}
        self.unordered = []
        self.worklists = {}
        self.base_nodes = {}
        self.work_entries = {}     # (object, initial nodes, facts) -> handle
        self.work_init = []        # handle -> (object, initial nodes, facts)
        self.work_push = {}        # handle -> [(nodes, facts)] pushed by one generic iteration

    # ---- naming ---------------------------------------------------------
    def frame(self, parent, site, fn):
        k = (parent, site, fn)
        r = self.frames.get(k)
        if r is None:
            r = len(self.frame_names)
            self.frames[k] = r
            self.frame_parent[str(r)] = None if parent is None else str(site)
            self.frame_names.append(fn)
        return r

    # ---- facts ----------------------------------------------------------
    def lookup(self, st, lit):
        if lit.tag == "bool":
            return lit.a[0]
        if self.axiom is not None:
            r = self.axiom(lit)
            if r is not None:
                return r
        if lit.tag == "not":
            r = self.lookup(st, lit.a[0])
            return None if r is None else not r
        f = st.facts
        r = f.get(lit)
        if r is not None:
            return r
        if lit.tag == "eq":
            a, b = lit.a
            if f.get(mk("lt", a, b)) or f.get(mk("lt", b, a)):
                return False
            for x, c in ((a, b), (b, a)):
                if c.tag in ("int", "str", "flt"):
                    for l, v in f.items():
                        if v is True and l.tag == "eq" and x in l.a:
                            o = l.a[0] if l.a[1] is x else l.a[1]
                            if o.tag == c.tag and o is not c:
                                return False
        elif lit.tag == "lt":
            a, b = lit.a
            if f.get(mk("lt", b, a)):
                return False
            if f.get(eq(a, b)):
                return False
        elif lit.tag == "disceq":
            t, v = lit.a
            for l, val in f.items():
                if val is True and l.tag == "disceq" and l.a[0] is t and l.a[1] != v:
                    return False
            return None
        if self.zones and lit.tag in ("lt", "eq"):
            return zone(f, lit)
        elif lit.tag == "member":
            s, x = lit.a
            if s.tag == "snap" and not s.a[1]:
                return False
        elif lit.tag == "haskey":
            s, x = lit.a
            if s.tag == "snap" and not s.a[1]:
                return False
        elif lit.tag == "inb":
            s, x = lit.a
            if s.tag == "snap" and not s.a[1]:
                return False
        return None

    def assume(self, st, lit, val):
        """Returns a new state with the fact added, or None when contradictory (st is not modified)."""
        while lit.tag == "not":
            lit, val = lit.a[0], not val
        r = self.lookup(st, lit)
        if r is not None:
            return st if r == val else None
        s = st.copy()
        s.facts[lit] = val
        return s

    def fork_bool(self, st, t):
        """[(state, bool)]"""
        t = self.rv(st, t)
        g = t.tag
        if g == "bool":
            return [(st, t.a[0])]
        if g == "not":
            return [(s, not b) for s, b in self.fork_bool(st, t.a[0])]
        if g == "and":
            out = []
            for s, b in self.fork_bool(st, t.a[0]):
                if b:
                    out += self.fork_bool(s, t.a[1])
                else:
                    out.append((s, False))
            return out
        if g == "or":
            out = []
            for s, b in self.fork_bool(st, t.a[0]):
                if b:
                    out.append((s, True))
                else:
                    out += self.fork_bool(s, t.a[1])
            return out
        if g == "ite":
            out = []
            for s, b in self.fork_bool(st, t.a[0]):
                out += self.fork_bool(s, t.a[1] if b else t.a[2])
            return out
        if g == "eq":
            return self.fork_eq(st, t.a[0], t.a[1])
        if g == "phi" and t in self.phi:
            out = []
            for s, v in self.expand(st, t):
                out += self.fork_bool(s, v)
            return out
        if g == "disceq" and t.a[0].tag == "phi" and t.a[0] in self.phi:
            out = []
            for s, v in self.expand(st, t.a[0]):
                out += self.fork_bool(s, disceq(v, t.a[1]))
            return out
        r = self.lookup(st, t)
        if r is not None:
            return [(st, r)]
        out = []
        for b in (True, False):
            s = self.assume(st, t, b)
            if s is not None:
                out.append((s, b))
        return out

    def is_enum_agg(self, t):
        if t.tag != "agg":
            return False
        ad = self.p.adts.get(t.a[0])
        return bool(ad and ad["kind"] == "enum")

    def nvariants(self, name):
        ad = self.p.adts.get(name)
        if name == OPT:
            return 2
        return len(ad["v"]) if ad else 2

    def fork_eq(self, st, a, b):
        a = self.rv(st, a)
        b = self.rv(st, b)
        if a is b:
            return [(st, True)]
        if a.tag == "disc" and b.tag == "disc":
            ad = self.p.variants(a.a[1])
            if ad is not None and len(ad["v"]) <= 16:
                n = len(ad["v"])
                out = []
                for i in range(n):
                    x = disceq(a.a[0], i, n)
                    s = (st if x.a[0] else None) if x.tag == "bool" else self.assume(st, x, True)
                    if s is not None:
                        out += self.fork_bool(s, disceq(b.a[0], i, n))
                return out
        for x, y in ((a, b), (b, a)):
            if x.tag == "phi" and x in self.phi and (y.tag in ("agg", "bool") or any(v.tag == "agg" for v, _ in self.phi[x])):
                out = []
                for s, v in self.expand(st, x):
                    out += self.fork_eq(s, v, self.rv(s, y))
                return out
        if a.tag == "agg" and b.tag == "agg":
            if a.a[1] != b.a[1] or len(a.a) != len(b.a):
                return [(st, False)]
            return self._eq_fields(st, list(zip(a.a[2:], b.a[2:])))
        for x, y in ((a, b), (b, a)):
            if x.tag == "agg":
                n = len(x.a) - 2
                pairs = [(fld(y, x.a[1], i), x.a[2 + i]) for i in range(n)]
                if x.a[0] == OPT or self.is_enum_agg(x):
                    out = []
                    for s, v in self.fork_bool(st, disceq(y, x.a[1], self.nvariants(x.a[0]))):
                        if v:
                            out += self._eq_fields(s, pairs)
                        else:
                            out.append((s, False))
                    return out
                return self._eq_fields(st, pairs)
        lit = eq(a, b)
        if lit.tag != "eq":
            return self.fork_bool(st, lit)
        r = self.lookup(st, lit)
        if r is not None:
            return [(st, r)]
        out = []
        for v in (True, False):
            s = self.assume(st, lit, v)
            if s is not None:
                out.append((s, v))
        return out

    def _eq_fields(self, st, pairs):
        if not pairs:
            return [(st, True)]
        out = []
        for s, v in self.fork_eq(st, *pairs[0]):
            if v:
                out += self._eq_fields(s, pairs[1:])
            else:
                out.append((s, False))
        return out

    # ---- phi ------------------------------------------------------------
    def expand(self, st, phi):
        """Case split on which loop iteration last assigned the phi: [(state, value)]"""
        if phi in st.choice:
            return [(st, st.choice[phi])]
        out = []
        alts = self.phi[phi]
        alts = self.together(st, phi, alts)
        mates = [q for q in self.alt_src if q is not phi and self.mates(q, phi)]
        if any(l[0] == phi.a[0] for l in st.loops):
            # inside the loop: one alternative per value, with the facts common to all its assignments
            by = {}
            for val, fx in alts:
                if val in by:
                    by[val] = {l: b for l, b in by[val].items() if fx.get(l) is b}
                else:
                    by[val] = dict(fx)
            alts = list(by.items())
        for val, fx in alts:
            m = {phi.id: val}
            memo = {}
            s = st.copy()
            s.choice[phi] = val
            for q in mates:
                if q not in s.choice:
                    v = self.settled(s, q)
                    if v is not None:
                        m[q.id] = v
                        s.choice[q] = v
            s.env = {k: subst(v, m, memo) for k, v in st.env.items()}
            s.heap = {k: (subst(v, m, memo) if v.tag == "cell" else v) for k, v in st.heap.items()}
            ok = True
            for l, b in fx.items():
                r = self.lookup(s, l)
                if r is None:
                    s.facts[l] = b
                elif r != b:
                    ok = False
                    break
            fin = self.phi_final.get(phi)
            if ok and fin is not None:
                which = fin.get(val)
                if which is not None:
                    s.facts[which] = True
            s.elems = s.elems | frozenset(x for x in variables(val) if x.tag == "elem")
            if ok:
                out.append((s, val))
        return out

    def mates(self, q, p):
        """are the two values always assigned together?"""
        a, b = self.alt_src.get(q), self.alt_src.get(p)
        return a is not None and b is not None and q.a[0] is p.a[0] and q.a[3] is p.a[3] and len(a) == len(self.phi.get(q, ())) \
            and len(b) == len(self.phi.get(p, ())) and frozenset().union(*a) == frozenset().union(*b)

    def together(self, st, phi, alts):
        """the alternatives from iterations that also gave its mates the values chosen for them"""
        for q, val in st.choice.items():
            if q is not phi and self.mates(q, phi):
                src = dict(zip(map(id, self.phi[phi]), self.alt_src[phi]))
                ok = frozenset().union(*[x for x, (v, _) in zip(self.alt_src[q], self.phi[q]) if v is val])
                keep = [a for a in alts if src[id(a)] & ok]
                if keep:
                    alts = keep
        return alts

    def settled(self, st, q):
        vs = {v for v, _ in self.together(st, q, self.phi[q])}
        return vs.pop() if len(vs) == 1 else None

    # ---- memory ---------------------------------------------------------
    def read_base(self, st, base):
        k = base[0]
        if k == "L":
            v = st.env.get((base[1], base[2]))
            if v is None:
                return mk("uninit", base[1], base[2])
            return v
        if k == "O":
            h = st.heap.get(base[1])
            if h is None:
                return mk("dead", base[1])
            if h.tag == "cell":
                return h.a[0]
            return mk("obj", base[1])
        if k == "E":
            return self.vec_sel(st, base[1], base[2])
        if k == "B":
            return mk("bucket", self.snapshot(st, base[1]), base[2])
        if k == "M":
            from models import map_value
            h = st.heap[base[1]]
            if any(n.tag == "bitem" for n in self.flat(h.a[1])):
                return mk("bucket", self.snapshot(st, base[1]), base[2])
            return map_value(self, st, base[1], base[2])
        return mk("ambval", base[1])

    def flat(self, nodes):
        for n in nodes:
            yield n
            if n.tag == "loop":
                for p in n.a[2]:
                    yield from self.flat(p.a[2])
            elif n.tag == "once":
                for p in n.a[0]:
                    yield from self.flat(p.a[2])
            elif n.tag == "base":
                yield from self.flat(n.a[2])

    def note_unordered(self, st, site, t):
        self.unordered.append((site, t, tuple(self.stack)))

    def vec_cases(self, st, nodes, idx):
        """walk the writes of an index-addressed vector backwards: ("val", v) | ("ask", literal) | ("rest", nodes)"""
        i = len(nodes)
        while i > 0:
            n = nodes[i - 1]
            if n.tag == "set":
                c = eq(n.a[0], idx)
            elif n.tag == "resize":
                c = lt(idx, vec_len(nodes[:i - 1]))
            elif n.tag == "item" and any(m.tag in ("set", "resize") for m in nodes[:i]):
                c = eq(vec_len(nodes[:i - 1]), idx)
            else:
                break
            r = self.lookup(st, c)
            if r is None:
                return "ask", c
            if n.tag == "resize":
                if not r:
                    return "val", n.a[1]
            elif r:
                return "val", n.a[1] if n.tag == "set" else n.a[0]
            i -= 1
        return "rest", nodes[:i]

    def vec_fork(self, st, oid, idx):
        """decide which write of the vector the index addresses: [state]"""
        k, c = self.vec_cases(st, st.heap[oid].a[1], idx)
        if k != "ask":
            return [st]
        out = []
        for s, b in self.fork_bool(st, c):
            if b or self.lookup(s, c) is not None:
                out += self.vec_fork(s, oid, idx)
            else:
                out.append(s)
        return out

    def vec_sel(self, st, oid, idx):
        h = st.heap[oid]
        nodes = h.a[1]
        if h.a[0] == "arena":
            return self.arena_data(nodes, idx)
        if idx.tag == "int" and all(n.tag == "item" for n in nodes) and 0 <= idx.a[0] < len(nodes):
            return nodes[idx.a[0]].a[0]
        k, v = self.vec_cases(st, nodes, idx)
        if k == "val":
            return v
        return mk("sel", snap(h.a[0], v if k == "rest" else nodes), idx)

    def arena_data(self, nodes, idx):
        """what an arena node holds after these changes"""
        k = len(nodes)
        while k:
            n = nodes[k - 1]
            if n.tag in ("set", "node") and n.a[0] is idx:
                return n.a[1]
            if n.tag not in ("link", "cut"):
                break
            k -= 1
        return app("data", snap("arena", nodes[:k]), idx)

    def project(self, v, p):
        if p[0] == "f":
            return fld(v, p[1], p[2])
        if p[0] == "x":
            return mk("sel", v, p[1])
        return mk("proj", v, str(p))

    def read(self, st, loc):
        if loc[0] == "val":
            return loc[1]
        base, proj = loc[1], loc[2]
        v = self.read_base(st, base)
        for p in proj:
            if p[0] == "x" and v.tag == "obj":
                v = self.vec_sel(st, v.a[0], p[1])
                continue
            v = self.project(v, p)
        return v

    def write(self, st, loc, val):
        """in place on st"""
        if loc[0] == "val":
            v = loc[1]
            if v.tag == "obj":
                h = st.heap.get(v.a[0])
                if h is not None and h.tag == "cell":
                    st.heap[v.a[0]] = mk("cell", val)
                    return
            st.eff = st.eff + (mk("lostwrite", v, self.rv(st, val)),)
            return
        base, proj = loc[1], loc[2]

        def put(old, ps):
            if not ps:
                return val
            p = ps[0]
            if p[0] == "f":
                if old.tag == "uninit":
                    old = mk("new", old)
                return upd(old, p[1], p[2], put(fld(old, p[1], p[2]), ps[1:]))
            if p[0] == "x":
                if old.tag == "obj":
                    h = st.heap[old.a[0]]
                    node = mk("set", p[1], self.rv(st, put(self.vec_sel(st, old.a[0], p[1]), ps[1:])), mkfacts(st.facts))
                    st.heap[old.a[0]] = mk("coll", h.a[0], h.a[1] + (node,))
                    return old
                if old.tag == "agg" and p[1].tag == "int":
                    return upd(old, old.a[1], p[1].a[0], put(fld(old, old.a[1], p[1].a[0]), ps[1:]))
                return mk("upd", old, -1, p[1], put(mk("sel", old, p[1]), ps[1:]))
            return mk("upd", old, -2, str(p), val)

        k = base[0]
        if k == "L":
            key = (base[1], base[2])
            old = st.env.get(key) or mk("uninit", base[1], base[2])
            st.env[key] = put(old, proj)
        elif k == "O":
            h = st.heap.get(base[1])
            old = h.a[0] if h is not None and h.tag == "cell" else mk("obj", base[1])
            if old.tag == "obj" and old.a[0] == base[1]:
                # overwrite of a whole collection object
                nv = put(old, proj)
                if nv.tag == "obj" and nv.a[0] in st.heap:
                    st.heap[base[1]] = st.heap[nv.a[0]]
                return
            st.heap[base[1]] = mk("cell", put(old, proj))
        elif k == "E":
            h = st.heap[base[1]]
            nv = put(self.vec_sel(st, base[1], base[2]), proj)
            node = mk("set", base[2], self.rv(st, nv), mkfacts(st.facts))
            st.heap[base[1]] = mk("coll", h.a[0], h.a[1] + (node,))
        elif k in ("B", "M"):
            h = st.heap[base[1]]
            nv = put(self.read_base(st, base), proj)
            node = mk("kvset", base[2], self.rv(st, nv), mkfacts(st.facts))
            st.heap[base[1]] = mk("coll", h.a[0], h.a[1] + (node,))
        else:
            st.eff = st.eff + (mk("ambwrite", base[1], self.rv(st, val)),)

    def snapshot(self, st, oid):
        h = st.heap.get(oid)
        if h is None:
            return mk("deadobj", oid)
        if h.tag == "cell":
            return mk("cellv", self.rv(st, h.a[0]))
        return snap(h.a[0], h.a[1])

    def rv(self, st, t):
        """Read through references and object handles: the pure value of t in st."""
        def go(x, depth):
            if depth > 60:
                return x
            if isinstance(x, tuple):
                return tuple(go(y, depth + 1) for y in x)
            if not isinstance(x, T):
                return x
            g = x.tag
            if g == "ref":
                return go(self.read(st, ("cell", x.a[0], x.a[1])), depth + 1)
            if g == "obj":
                return self.snapshot(st, x.a[0])
            if g in ("agg", "clo", "st", "not", "and", "or", "eq", "lt", "bin", "un", "cast", "disceq", "ite", "upd"):
                na = tuple(go(y, depth + 1) if isinstance(y, (T, tuple)) else y for y in x.a)
                if all(p is q for p, q in zip(na, x.a)):
                    return x
                if g == "eq":
                    return eq(*na)
                if g == "lt":
                    return lt(*na)
                if g == "not":
                    return neg(na[0])
                return mk(g, *na)
            return x
        return go(t, 0)

    def deref(self, st, v):
        """One level of dereference as a location."""
        if v.tag == "ref":
            return ("cell", v.a[0], v.a[1])
        if v.tag == "obj":
            h = st.heap.get(v.a[0])
            if h is not None and h.tag == "cell":
                return ("cell", ("O", v.a[0]), ())
            return ("val", v)
        return ("val", v)

    def deref_all(self, st, v):
        n = 0
        while v.tag == "ref":
            v = self.read(st, ("cell", v.a[0], v.a[1]))
            n += 1
            if n > 50:
                raise Unsupported("ref cycle")
        return v

    def place(self, st, frame, pl):
        loc = ("cell", ("L", frame, pl[0]), ())
        down = 0
        for e in pl[1]:
            if e == "*":
                loc = self.deref(st, self.read(st, loc))
                down = 0
                continue
            k = e[0]
            if k == "d":
                down = e[1]
                continue
            if k == "f":
                p = ("f", down, e[1])
                # structs wrapped in box objects
                cur = None
                if loc[0] == "cell":
                    cur = self.read(st, loc)
                    if cur.tag == "obj":
                        h = st.heap.get(cur.a[0])
                        if h is not None and h.tag == "cell" and not (h.a[0].tag == "agg"):
                            down = 0
                            continue
                        if h is not None and h.tag == "coll":
                            down = 0
                            continue
                down = 0
            elif k == "i":
                p = ("x", self.rv(st, st.env[(frame, e[1])]))
            elif k == "ci":
                p = ("x", Int(e[1])) if not e[2] else ("x", mk("fromend", Int(e[1])))
            else:
                p = ("o", str(e))
            if loc[0] == "val":
                loc = ("val", self.project(loc[1], p))
            else:
                loc = ("cell", loc[1], loc[2] + (p,))
        return loc

    def mkref(self, st, loc):
        if loc[0] == "val":
            return loc[1]
        if not loc[2] and loc[1][0] == "L":
            pass
        return mk("ref", loc[1], loc[2])

    # ---- operands / rvalues --------------------------------------------
    def operand(self, st, frame, body, o):
        if o[0] in ("c", "m"):
            return self.read(st, self.place(st, frame, o[1]))
        if o[0] == "k":
            c = o[1]
            if "fn" in c:
                return mk("fn", FnRef.get(c["fn"]))
            if "promoted" in c:
                return self.promoted(st, c["of"], c["promoted"])
            if "v" in c:
                t = self.p.types[c["ty"]]
                if t["k"] == "bool":
                    return Bool(bool(c["v"]))
                if t["k"] == "float":
                    return mk("flt", c["v"])
                return Int(c["v"])
            t = self.p.types[c["ty"]]
            if t["k"] == "tuple" and not t["a"]:
                return UNIT
            if t["k"] == "closure":
                return mk("clo", t["d"])
            if t["k"] == "adt" and t["p"] == OPT and re.match(r"(const )?\{transmute\(0x0+\)", c.get("txt", "")):
                return NONE
            if "def" in c:
                v = self.constant(st, c["def"])
                return mk("const", c["def"]) if v is None else v
            return mk("str", c.get("txt", "")) if t["s"] == "&str" else mk("const", c.get("static") or c.get("txt", ""))
        return mk("rt")

    def constant(self, st, name):
        """what a named constant stands for"""
        b = self.p.consts.get(name)
        if b is None or self.p.types[b["locals"][0][0]].get("p", "").endswith("thread::LocalKey"):
            return None
        fr = self.frame("K", name, 0)
        outs = [o for o in self.region(b, fr, 0, st.copy(), None, None) if o[0] == "ret"]
        if len(outs) != 1:
            return None
        s = outs[0][1]
        v = self.rv(s, s.env.get((fr, 0), UNIT))
        return v if v.tag in ("str", "const", "snap", "agg", "int") else None

    def promoted(self, st, of, idx):
        b = self.p.bodies.get("%s#p%d" % (of, idx))
        if b is None:
            return mk("const", "%s#p%d" % (of, idx))
        fr = self.frame("P", of, idx)
        outs = [o for o in self.region(b, fr, 0, st.copy(), None, None) if o[0] == "ret"]
        if len(outs) == 1:
            s = outs[0][1]
            return self.rv(s, s.env.get((fr, 0), UNIT))
        return mk("const", "%s#p%d" % (of, idx))

    def rvalue(self, st, frame, body, r, site):
        k = r[0]
        if k == "use":
            return self.operand(st, frame, body, r[1])
        if k == "ref":
            return self.mkref(st, self.place(st, frame, r[2]))
        if k == "bin":
            a = self.operand(st, frame, body, r[2])
            b = self.operand(st, frame, body, r[3])
            return self.binop(st, r[1], a, b)
        if k == "un":
            a = self.rv(st, self.operand(st, frame, body, r[2]))
            if r[1] == "Not":
                if a.tag == "int":
                    return mk("un", "Not", a)
                return neg(a)
            if r[1] == "PtrMetadata":
                return mk("len", a)
            if r[1] == "Neg" and a.tag == "int":
                return Int(-a.a[0])
            return mk("un", r[1], a)
        if k == "disc":
            v = self.read(st, self.place(st, frame, r[1]))
            v = self.rv_shallow(st, v)
            return mk("disc", v, r[2])
        if k == "agg":
            ops = [self.operand(st, frame, body, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "tuple":
                return tup(*ops)
            if kk[0] == "array":
                return agg("array", 0, *ops)
            if kk[0] == "adt":
                return agg(kk[1], kk[2], *ops)
            if kk[0] == "closure":
                return mk("clo", kk[1], *ops)
            return agg("other", 0, *ops)
        if k == "cast":
            v = self.operand(st, frame, body, r[2])
            if r[1].startswith(("PointerCoercion", "PtrToPtr", "Transmute", "BoxDeref", "Subtype")):
                return v
            x = self.rv(st, v)
            tn = self.p.types[r[3]]["s"]
            if x.tag == "int" and r[1].startswith("IntToInt"):
                return x
            return mk("cast", x, tn)
        if k == "rep":
            return agg("repeat", 0, self.operand(st, frame, body, r[1]))
        if k == "tls":
            return mk("ambcell", r[1])
        return mk("rvx", str(r[1]))

    def rv_shallow(self, st, v):
        while v.tag == "ref":
            v = self.read(st, ("cell", v.a[0], v.a[1]))
        if v.tag == "obj":
            h = st.heap.get(v.a[0])
            if h is not None and h.tag == "cell":
                return self.rv_shallow(st, h.a[0])
        return v

    def binop(self, st, op, a, b):
        a = self.rv(st, a)
        b = self.rv(st, b)
        if op in ("Eq", "Ne"):
            r = eq(a, b)
            for x, y in ((a, b), (b, a)):
                if x.tag == "disc" and y.tag == "disc" and y.a[0].tag == "agg":
                    ad = self.p.variants(x.a[1])
                    r = disceq(x.a[0], y.a[0].a[1], len(ad["v"]) if ad else 0)
                    break
                if x.tag == "disc" and y.tag == "int":
                    ad = self.p.variants(x.a[1])
                    n = len(ad["v"]) if ad else 0
                    vi = next((i for i, v in enumerate(ad["v"]) if v["d"] == y.a[0]), y.a[0]) if ad else y.a[0]
                    r = disceq(x.a[0], vi, n)
            return r if op == "Eq" else neg(r)
        if op == "Lt":
            return lt(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return neg(lt(a, b))
        if op == "Le":
            return neg(lt(b, a))
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        isb = any(x.tag in ("bool", "not", "eq", "lt", "disceq", "and", "or", "member") for x in (a, b))
        if base in ("BitAnd", "BitOr", "BitXor") and isb:
            if base == "BitAnd":
                return mk("and", a, b)
            if base == "BitOr":
                return mk("or", a, b)
            return mk("ite", a, neg(b), b)
        if a.tag == "int" and b.tag == "int" and base in ("Add", "Sub", "Mul"):
            x, y = a.a[0], b.a[0]
            v = Int(x + y if base == "Add" else x - y if base == "Sub" else x * y)
        elif base == "Add" and b.tag == "int" and b.a[0] == 0:
            v = a
        elif base == "Add" and a.tag == "int" and a.a[0] == 0:
            v = b
        else:
            if base in ("Add", "Mul") and b.id < a.id:
                a, b = b, a
            v = mk("bin", base, a, b)
        if op.endswith("WithOverflow"):
            return tup(v, mk("ovf", base, a, b))
        return v

    # ---- bodies ---------------------------------------------------------
    def exec_body(self, body, args, st, frame):
        """[(state, return value)]"""
        self.functions.add(body["d"])
        for i, a in enumerate(args):
            st.env[(frame, i + 1)] = a
        outs = self.region(body, frame, 0, st, None, None)
        res = []
        for o in outs:
            if o[0] == "ret":
                s = o[1]
                v = s.env.get((frame, 0), UNIT)
                # locals of the callee die
                v = self.unlocal(s, v, frame)
                s.env = {k: x for k, x in s.env.items() if k[0] != frame}
                res.append((s, v))
        return self.merge_memo(st, res)

    def merge_memo(self, st, res):
        """join result states that differ only in whether a lookup table already had its entry"""
        if len(res) < 2:
            return res
        groups = {}
        for s, v in res:
            memo = any(l.tag == "haskey" and l not in st.facts for l in s.facts)
            if memo:
                self.collect_garbage(st, s, v)
            skip = ("haskey", "forall", "partial") if memo else ("haskey",)
            core = frozenset((l.id, b) for l, b in s.facts.items() if l.tag not in skip or l in st.facts)
            changed = frozenset(o for o, h in s.heap.items() if h.tag == "coll" and st.heap.get(o) is not h and h.a[0] == "HashMap")
            k = (v.id, core, frozenset((a, b.id) for a, b in s.env.items()), s.steps, s.eff,
                 frozenset((o, h.id) for o, h in s.heap.items() if not (h.tag == "coll" and h.a[0] == "HashMap" and o in st.heap)))
            groups.setdefault(k, []).append((s, v))
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            s0 = g[0][0].copy()
            ok = True
            for o, h in st.heap.items():
                if not (h.tag == "coll" and h.a[0] == "HashMap"):
                    continue
                tails = []
                for s, _ in g:
                    nd = s.heap[o].a[1]
                    if nd[:len(h.a[1])] != h.a[1]:
                        ok = False
                        break
                    tails.append(nd[len(h.a[1]):])
                if not ok:
                    break
                if all(not t for t in tails):
                    continue
                if any(n.tag not in ("ins", "once") for t in tails for n in t):
                    ok = False
                    break
                paths = tuple(sorted({mk("path", "back", mkfacts({}), t, ()) for t in tails}, key=lambda t: t.id))
                if len(paths) == 1:
                    s0.heap[o] = mk("coll", "HashMap", h.a[1] + tails[0])
                else:
                    s0.heap[o] = mk("coll", "HashMap", h.a[1] + (mk("once", paths),))
            if not ok:
                out += g
                continue
            s0.facts = {l: b for l, b in s0.facts.items() if all(s.facts.get(l) is b for s, _ in g)}
            s0.elems = frozenset().union(*[s.elems for s, _ in g])
            out.append((s0, g[0][1]))
        return out

    def collect_garbage(self, st, s, v):
        """drop objects made since st that nothing refers to any more"""
        new = {o for o in s.heap if o not in st.heap}
        if not new:
            return
        live = set(mentions(v))
        for k, x in s.env.items():
            if st.env.get(k) is not x:
                live |= mentions(x)
        for o, h in s.heap.items():
            if o not in new and st.heap[o] is not h:
                live |= mentions(h)
        todo = list(live & new)
        seen = set(todo)
        while todo:
            for o in mentions(s.heap[todo.pop()]):
                if o in new and o not in seen:
                    seen.add(o)
                    todo.append(o)
        s.heap = {o: h for o, h in s.heap.items() if o not in new or o in seen}

    def unlocal(self, st, v, frame):
        """a returned value must not point into the dead frame (it cannot in safe Rust)"""
        return v

    def region(self, body, frame, entry, st, region, header):
        loops = self.p.loops(body)
        work = [(entry, st, True)]
        outs = []
        while work:
            b, s, first = work.pop()
            owned = {id(w[1]) for w in work[-12:]} if len(work) > 0 else ()
            if region is not None and b not in region:
                outs.append(("exit", b, s))
                continue
            if b == header and not first:
                outs.append(("back", s))
                continue
            if b in loops and b != header:
                for o in self.run_loop(body, frame, b, loops[b], s):
                    if o[0] == "exit":
                        work.append((o[1], o[2], False))
                    else:
                        outs.append(o)
                continue
            self.steps_done += 1
            if self.steps_done > self.MAX_STEPS:
                raise Limit("step limit in " + body["p"])
            blk = body["blocks"][b]
            if first or id(s) in owned:
                s = s.copy()
            site = "%s.%d" % (frame, b)
            self.blocks_seen.add((body["d"], b))
            for stm in blk["s"]:
                if stm[0] == "=":
                    v = self.rvalue(s, frame, body, stm[2], site)
                    self.write(s, self.place(s, frame, stm[1]), v)
                elif stm[0] == "dead":
                    s.env.pop((frame, stm[1]), None)
                elif stm[0] == "sd":
                    loc = self.place(s, frame, stm[1])
                    old = self.read(s, loc)
                    self.write(s, loc, mk("setdisc", old, stm[2]))
            t = blk["t"]
            k = t[0]
            if k == "goto":
                work.append((t[1], s, False))
            elif k == "drop":
                work.append((t[2], s, False))
            elif k == "ret":
                self.npaths += 1
                outs.append(("ret", s))
            elif k == "switch":
                v = self.operand(s, frame, body, t[1])
                for b2, s2 in self.switch(s, v, t[2], t[3], body, self.p.types[t[4]].get("s") == "bool"):
                    work.append((b2, s2, False))
            elif k == "assert":
                cond = self.rv(s, self.operand(s, frame, body, t[1]))
                self.note_panic(body, frame, t[5], "assert:" + t[3], cond, t[2], s)
                work.append((t[4], s, False))
            elif k == "call":
                for s2, v2 in self.call_term(s, frame, body, t, site):
                    if t[4] is None:
                        continue
                    self.write(s2, self.place(s2, frame, t[3]), v2)
                    work.append((t[4], s2, False))
            elif k in ("unreach", "resume"):
                pass
            else:
                raise Unsupported("terminator %s in %s" % (t, body["p"]))
        return outs

    def note_panic(self, body, frame, span, kind, cond, expected, st):
        k = (body["p"], kind)
        self.panics.setdefault(k, []).append((span, cond, expected, mkfacts(st.facts), tuple(self.stack), str(frame)))

    def switch(self, st, v, targets, otherwise, body, isbool=True):
        v = self.rv(st, v)
        otherwise_reach = body["blocks"][otherwise]["t"][0] != "unreach"
        if v.tag == "disc":
            t, tyi = v.a
            if t.tag == "phi" and t in self.phi:
                out = []
                for s, x in self.expand(st, t):
                    out += self.switch(s, mk("disc", self.rv_shallow(s, x), tyi), targets, otherwise, body, isbool)
                return out
            ad = self.p.variants(tyi)
            if ad is None:
                vidx = [(val, val) for val, _ in targets]
                nv = 0
            else:
                dmap = {x["d"]: i for i, x in enumerate(ad["v"])}
                vidx = [(val, dmap.get(val, val)) for val, _ in targets]
                nv = len(ad["v"])
            if t.tag == "agg":
                for (val, b), (_, vi) in zip(targets, vidx):
                    if t.a[1] == vi:
                        return [(b, st)]
                return [(otherwise, st)]
            out = []
            rest = st
            alive = True
            for (val, b), (_, vi) in zip(targets, vidx):
                nxt = None
                for s, r in self.fork_bool(rest, disceq(t, vi, nv)):
                    if r:
                        out.append((b, s))
                    else:
                        nxt = s
                if nxt is None:
                    alive = False
                    break
                rest = nxt
            covered = nv and len(targets) >= nv
            if alive and otherwise_reach and not covered:
                if nv and len(targets) == nv - 1 and nv != 2:
                    left = [i for i in range(nv) if i not in [x for _, x in vidx]][0]
                    s = self.assume(rest, disceq(t, left, nv), True)
                    rest = s
                if rest is not None:
                    out.append((otherwise, rest))
            return out
        # bool / int
        if v.tag == "int" or v.tag == "bool":
            n = int(v.a[0])
            for val, b in targets:
                if val == n:
                    return [(b, st)]
            return [(otherwise, st)]
        if isbool and len(targets) == 1 and targets[0][0] in (0, 1):
            out = []
            val, b = targets[0]
            for s, r in self.fork_bool(st, v):
                out.append((b if int(r) == val else otherwise, s))
            return out
        out = []
        rest = [st]
        for val, b in targets:
            nr = []
            for r0 in rest:
                for s, r in self.fork_bool(r0, eq(v, Int(val))):
                    if r:
                        out.append((b, s))
                    else:
                        nr.append(s)
            rest = nr
        if otherwise_reach:
            out += [(otherwise, r) for r in rest]
        return out

    # ---- calls ----------------------------------------------------------
    def call_term(self, st, frame, body, t, site):
        f = self.operand(st, frame, body, t[1])
        args = [self.operand(st, frame, body, a) for a in t[2]]
        ctx = Ctx()
        ctx.site = site
        ctx.frame = frame
        ctx.body = body
        ctx.span = t[5]
        ctx.argtys = []
        for a in t[2]:
            if a[0] in ("c", "m") and not a[1][1]:
                ctx.argtys.append(body["locals"][a[1][0]][0])
            elif a[0] == "k":
                ctx.argtys.append(a[1]["ty"])
            else:
                ctx.argtys.append(None)
        ctx.destty = body["locals"][t[3][0]][0] if not t[3][1] else None
        self.callsites.add((body["d"], site.split(".")[-1]))
        self.sites[site] = (body["p"], t[5])
        outs = self.call_value(st, f, args, ctx)
        if t[4] is None:
            self.note_panic(body, frame, t[5], "diverge:" + (self.p.nname(f.a[0].c["p"]) if f.tag == "fn" else "?"), TRUE, True, st)
            return []
        return outs

    def call_value(self, st, f, args, ctx):
        f = self.deref_all(st, f) if f.tag == "ref" else f
        if f.tag == "fn":
            return self.call_fn(st, f.a[0].c, args, ctx)
        if f.tag == "clo":
            return self.call_closure(st, f, f, args, ctx)
        ctx.name = "indirect"
        return [(st, app("call", self.rv(st, f), *[self.rv(st, a) for a in args]))]

    def call_closure(self, st, clo, selfarg, args, ctx):
        """clo: closure value or ref to it; args: list of actual args"""
        c = self.deref_all(st, clo)
        if c.tag == "fn":
            return self.call_fn(st, c.a[0].c, args, ctx)
        if c.tag == "projfn":
            return [(st, fld(self.rv(st, args[0]), 0, c.a[0]))]
        if c.tag != "clo":
            if c.tag == "const" and c.a[0] in self.p.bodies:
                pass
            return [(st, app("callf", self.rv(st, c), *[self.rv(st, a) for a in args]))]
        b = self.p.bodies.get(c.a[0])
        if b is None:
            return [(st, app("callf", self.rv(st, c), *[self.rv(st, a) for a in args]))]
        return self.inline(st, b, [selfarg] + list(args), ctx)

    def inline(self, st, b, args, ctx):
        if b["d"] in self.stack or len(self.stack) > self.MAX_DEPTH:
            return self.recursive(st, b, args, ctx)
        fr = self.frame(ctx.frame, ctx.site, b["d"])
        self.stack.append(b["d"])
        self.args_of[b["d"]] = (st, args)
        try:
            return self.exec_body(b, args, st.copy(), fr)
        finally:
            self.stack.pop()
            self.args_of.pop(b["d"], None)

    REC_LOG = "page"                            # what a call may change that it is not given: the page of a browser (web.py)

    def recursive(self, st, b, args, ctx):
        s = st.copy()
        ra = [self.rv(st, a) for a in args]
        node = mk("rec", b["d"], tuple(ra), mkfacts(st.facts))
        self.rec_calls.setdefault(b["d"], set()).add(node)
        if b["d"] in self.args_of:
            s0, a0 = self.args_of[b["d"]]
            self.rec_edges.add((b["d"], tuple(self.rv(s0, a) for a in a0), tuple(ra)))
        else:
            self.rec_edges.add((b["d"], None, tuple(ra)))
        self.havoc_args(s, args, [b["locals"][i + 1][0] for i in range(b["argc"])], node)
        if self.REC_LOG in s.heap:
            self.push_node(s, self.REC_LOG, node)
        return [(s, app("rec:" + b["d"], *ra))]

    def havoc_args(self, st, args, tys, node):
        for a, ty in zip(args, tys):
            if ty is None:
                continue
            t = self.p.types[ty]
            if t["k"] == "ref" and t["m"]:
                self.havoc(st, a, node)
        for x in self.lent(args):
            self.havoc(st, x, node)

    def lent(self, args):
        """what unknown code can change although it is not handed a mutable reference: the map behind an entry,
        and whatever a closure among the arguments borrows mutably or shares through a cell"""
        out = []
        for a in args:
            for x in lenders(a):
                if x.tag == "entry":
                    out.append(x.a[0])
                elif x.tag == "clo" and len(x.a) > 1:
                    for v, u in zip(x.a[1:], self.p.upvars(x.a[0])):
                        t = self.p.types[u]
                        if t["k"] != "ref":
                            continue
                        n = self.strip_ref_ty(u)
                        if t["m"] or n["k"] == "adt" and n["p"].split("::")[-1] in ("Cell", "RefCell", "OnceCell", "Mutex", "RwLock"):
                            out.append(v)
        return out

    def havoc(self, st, ref, node):
        v = self.deref_all(st, ref)
        if v.tag == "obj":
            h = st.heap[v.a[0]]
            if h.tag == "coll":
                st.heap[v.a[0]] = mk("coll", h.a[0], h.a[1] + (node,))
            else:
                st.heap[v.a[0]] = mk("cell", mk("havoc", node))
        elif v.tag == "agg" and any(x.tag == "obj" for x in subterms(v)):
            for x in subterms(v):
                if x.tag == "obj":
                    self.havoc(st, x, node)
        elif v.tag == "st":
            pass
        elif ref.tag == "ref":
            loc = ("cell", ref.a[0], ref.a[1])
            self.write(st, loc, mk("havoc", node, self.rv(st, v)))

    def call_fn(self, st, c, args, ctx):
        name = self.p.nname(c["p"])
        ctx.name = name
        ctx.callee = c
        r = c.get("r")
        rkey = r["d"] if r else None
        key = rkey or c["d"]
        rname = self.p.nname(r["p"]) if r else name
        # 1. intercepted API
        h = self.intercept.get(rname)
        if h is not None:
            out = h(self, st, args, ctx)
            if out is not None:
                return out
        if name.startswith(("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")):
            a = args[1]
            spread = list(a.a[2:]) if a.tag == "agg" else []
            return self.call_closure(st, args[0], args[0], spread, ctx)
        if c.get("ctor"):
            return [(st, self.ctor(c, args))]
        if name in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"):
            return self.model_eq(st, c, args, ctx, name.endswith("ne"))
        # 2/3. local bodies
        b = None
        if rkey and rkey in self.p.bodies and self.p.bodies[rkey]["local"]:
            b = self.p.bodies[rkey]
        elif not c.get("tr") and c["d"] in self.p.bodies and self.p.bodies[c["d"]]["local"]:
            b = self.p.bodies[c["d"]]
        if b is not None and r and r["k"] not in ("Item",):
            if r["k"] != "Item" and not r["k"].startswith("Item"):
                b = None
        if b is not None:
            return self.inline(st, b, args, ctx)
        # 4. models
        m = self.models.get(name)
        if m is None and rname != name:
            m = self.models.get(rname)
        if m is not None:
            out = m(self, st, args, ctx)
            if out is not None:
                return out
        # 5. external bodies
        b = self.p.bodies.get(rkey or c["d"])
        if b is not None and not b["local"] and b["kind"] == "fn":
            return self.inline(st, b, args, ctx)
        return self.uninterpreted(st, name, rname, args, ctx)

    def ctor(self, c, args):
        p = c["p"]
        base = self.p.nname(p)
        parts = base.rsplit("::", 1)
        for an, ad in self.p.adts.items():
            if an == parts[0]:
                for i, v in enumerate(ad["v"]):
                    if v["n"] == parts[1]:
                        return agg(an, i, *args)
            if an == base:
                return agg(an, 0, *args)
        if base.endswith("::Some"):
            return Some(args[0])
        if base.endswith("::Ok"):
            return agg("std::result::Result", 0, *args)
        if base.endswith("::Err"):
            return agg("std::result::Result", 1, *args)
        return agg(base, 0, *args)

    def uninterpreted(self, st, name, rname, args, ctx):
        full = name
        if rname != name:
            full = name + "@" + rname
        self.uninterp[full] = self.uninterp.get(full, 0) + 1
        ra = [self.rv(st, a) for a in args]
        mut = False
        s = st
        for a, ty in zip(args, ctx.argtys):
            if ty is None:
                continue
            t = self.p.types[ty]
            if t["k"] == "ref" and t["m"]:
                mut = True
        if mut or self.lent(args):
            s = st.copy()
            node = mk("ext", full, tuple(ra), mkfacts(st.facts))
            self.havoc_args(s, args, ctx.argtys, node)
            return [(s, mk("res", ctx.site, full, tuple(ra)))]
        return [(s, app(full, *ra))]

    def strip_ref_ty(self, i):
        t = self.p.types[i]
        while t["k"] == "ref":
            i = t["t"]
            t = self.p.types[i]
        return t

    def model_eq(self, st, c, args, ctx, ne):
        t = self.strip_ref_ty(c["a"][0]) if c["a"] else {"k": "?"}
        if t["k"] == "adt" and self.p.adts.get(t["p"], {}).get("local"):
            b = self.p.trait_impl_fn("std::cmp::PartialEq", t["p"], "eq")
            if b is not None and b["d"] not in self.stack:
                x = args[0] if args[0].tag != "ref" else args[0]
                outs = self.inline(st, b, [self.shallow_ref(st, args[0]), self.shallow_ref(st, args[1])], ctx)
                if ne:
                    outs = [(s, neg(self.rv(s, v))) for s, v in outs]
                return outs
        a, b2 = self.rv(st, args[0]), self.rv(st, args[1])
        t = eq(a, b2)
        return [(st, neg(t) if ne else t)]

    def shallow_ref(self, st, v):
        """strip extra reference layers: keep one"""
        while v.tag == "ref":
            w = self.read(st, ("cell", v.a[0], v.a[1]))
            if w.tag != "ref":
                return v
            v = w
        return v

    # ---- objects --------------------------------------------------------
    def new_coll(self, st, site, kind, nodes=()):
        """in place on st; returns handle"""
        oid = "%s#%s" % (site, kind)
        n = 0
        # a previous object allocated at this site on this path (e.g. same model used twice)
        while oid in st.heap and (oid in self._live(st)):
            n += 1
            oid = "%s#%s%d" % (site, kind, n)
        st.heap[oid] = mk("coll", kind, tuple(nodes))
        return mk("obj", oid)

    def _live(self, st):
        out = set()
        for v in st.env.values():
            for x in subterms(v):
                if x.tag == "obj":
                    out.add(x.a[0])
        return out

    def push_node(self, st, oid, node):
        h = st.heap[oid]
        st.heap[oid] = mk("coll", h.a[0], h.a[1] + (node,))

    def work_handle(self, oid, nodes, key):
        k = (oid, nodes, key)
        h = self.work_entries.get(k)
        if h is None:
            h = self.work_entries[k] = len(self.work_init)
            self.work_init.append(k)
        return h

    # ---- loops ----------------------------------------------------------
    def run_loop(self, body, frame, header, region, st):
        loopid = "%s.%d" % (frame, header)

        def go(G):
            return self.region(body, frame, header, G, region, header)
        return self.loop_core(st, loopid, go)

    def prime_map(self, elems, loopid, terms):
        m = {}
        ids = {e.id for e in elems}
        vs = {x.id: x for t in terms for x in variables(t)}
        for e in elems:
            vs[e.id] = e
        for i in sorted(vs):        # a source term is older than its element
            x = vs[i]
            if x.tag == "elem" and x.a[0].endswith("'" + loopid):
                m[x.id] = mk("prev", x)
            elif x.tag == "elem" and x.id in ids:
                m[x.id] = mk("elem", x.a[0] + "'" + loopid, subst(x.a[1], m))
            elif x.tag in ("phi", "base") and x.a[0] == loopid:
                m[x.id] = mk("prev", x)
        return m

    def counts_up(self, p, g, cur, s):
        """an integer that grows towards a bound the loop does not move"""
        base, k = linear(cur)
        if base is not g and not (base is None and g.tag == "int"):
            return False
        if base is None:
            k -= g.a[0]
        if k == 0:
            return False
        for l, v in s.facts.items():
            if l.tag == "lt" and (v is True and k > 0 or v is False and k < 0):
                x, y = (l.a[0], l.a[1])
                if linear(x)[0] is g and not any(z.tag in ("phi", "prev", "base") and z.a[0] == p.a[0] for z in variables(y)):
                    return True
            if l.tag == "lt" and (v is True and k < 0 or v is False and k > 0):
                x, y = (l.a[1], l.a[0])
                if linear(x)[0] is g and not any(z.tag in ("phi", "prev", "base") and z.a[0] == p.a[0] for z in variables(y)):
                    return True
            if k == -1 and l.tag == "eq" and v is False and g in l.a and Int(0) in l.a:
                return True
        return False

    def is_old(self, l, loopid):
        """does the fact speak about an earlier iteration of this loop?"""
        suf = "'" + loopid
        for x in variables(l):
            if x.tag == "prev":
                y = x.a[0]
                if y.tag in ("phi", "base") and y.a[0] == loopid:
                    return True
                if y.tag == "elem" and y.a[0].endswith(suf):
                    return True
            elif x.tag == "elem" and x.a[0].endswith(suf):
                return True
        return False

    def loop_core(self, st, loopid, run, forced=()):
        """run(G) -> outcomes: ("back", s) | ("exit", payload, s) | ("ret", s).
        Returns the exit/ret outcomes with loop summaries attached."""
        key = mkfacts(st.facts)
        genv = {}
        gheap = {}
        prev_sig = None
        outs = None
        noted = len(self.unordered)
        for rnd in range(10):
            G = st.copy()
            G.env.update(genv)
            G.heap.update(gheap)
            G.loops = st.loops + ((loopid, frozenset(st.env), frozenset(st.heap)),)
            G.steps = ()
            G.elems = frozenset()
            G.outer = st.outer | st.elems
            self.skips.append([])
            del self.unordered[noted:]        # only the last round counts
            outs = run(G)
            outs += [("back", s) for s in self.skips.pop()]
            backs = [o[1] for o in outs if o[0] == "back"]
            elems = set()
            for o in outs:
                elems |= (o[-1]).elems
            elems -= G.outer
            nenv, nheap, phis = {}, {}, {}
            # primed copies of back-edge values
            for cell, s0 in st.env.items():
                cur = G.env[cell]
                vals = []
                ch = False
                for s in backs:
                    v = s.env.get(cell)
                    if v is None or v is cur:
                        continue
                    vals.append((v, s))
                if not vals and cell not in genv:
                    continue
                nv = self.build_phi(loopid, ("e",) + cell, s0, cur, vals, G, elems, key, phis)
                if nv is not s0:
                    nenv[cell] = nv
            bn = []
            for oid, h0 in st.heap.items():
                cur = G.heap[oid]
                ch = [s for s in backs if s.heap.get(oid) is not None and s.heap[oid] is not cur]
                if h0.tag == "coll":
                    if ch or oid in gheap:
                        ns = tuple(sorted({s.heap[oid].a[1] for s in ch}, key=lambda t: tuple(x.id for x in t)))
                        self.base_nodes[(loopid, oid)] = ns
                        self.work_push[self.work_handle(oid, h0.a[1], key)] = [(s.heap[oid].a[1], s.facts) for s in ch]
                        bn.append((oid, ns))
                        nheap[oid] = mk("coll", h0.a[0], (mk("base", loopid, oid, h0.a[1], key),))
                else:
                    vals = [(s.heap[oid].a[0], s) for s in ch]
                    if not vals and oid not in gheap:
                        continue
                    nv = self.build_phi(loopid, ("h", oid), h0.a[0], cur.a[0], vals, G, elems, key, phis)
                    if nv is not h0.a[0]:
                        nheap[oid] = mk("cell", nv)
            for p, alts in phis.items():
                w = parent_walk(p, alts, rnd < 2)
                if w is not None and WALKS.setdefault(p.a[:2], w) == w:
                    self.phi.pop(p, None)
                else:
                    self.phi[p] = alts
                self.phi_final.pop(p, None)
            self.alt_src.update(self.new_src)
            number = {id(x): i for i, x in enumerate(backs)}
            together = tuple(sorted((p.id, tuple(tuple(sorted(number.get(i, -1) for i in x)) for x in self.alt_src[p])) for p in phis))
            sig = (together, tuple(sorted((repr(k), v.id) for k, v in nenv.items())), tuple(sorted((k, v.id) for k, v in nheap.items())), tuple(bn),
                   tuple(sorted((p.id, tuple(sorted((v.id, mkfacts(f).id) for v, f in alts))) for p, alts in phis.items())))
            if sig == prev_sig:
                for p in phis:
                    if p in self.phi and p.a[:2] in WALKS:
                        WALKS[p.a[:2]] = None
                    elif p not in self.phi and parent_walk(p, phis[p], False) is None:
                        raise Unsupported("value carried round a loop does not settle")
                break
            prev_sig = sig
            genv, gheap = nenv, nheap
        else:
            # alternatives did not stabilise: treat the phis as opaque
            for p in phis:
                self.phi.pop(p, None)
        if len(self.unordered) > noted and self.commutes(G, outs, phis, gheap):
            own = {o[-1].steps[0].a[1] for o in outs if o[-1].steps}
            self.unordered[noted:] = [u for u in self.unordered[noted:] if mk("unord", u[1]) not in own]
        return self.finish_loop(st, loopid, G, outs, gheap, phis, key)

    def commutes(self, G, outs, phis, gheap):
        """does the loop leave the same result in whatever order its elements come? Effects may only be: integer counters,
        flags set to one constant, insertions into sets; a loop that stops early may have none and keep no element."""
        early = [o for o in outs if o[0] != "back" and not (o[-1].steps and o[-1].steps[-1].a[-1] == "end")]
        if early and (phis or gheap):
            return False
        for o in early:
            s = o[-1]
            mine = s.elems - G.outer
            vals = [v for k, v in s.env.items() if G.env.get(k) is not v]
            if isinstance(o[1], T):
                vals.append(o[1])
            if any(variables(v) & mine for v in vals if v.tag not in ("ref", "st")):
                return False
        for p, alts in phis.items():
            prev = mk("prev", p)
            consts = set()
            for v, _ in alts:
                if v is p.a[2]:
                    continue
                if v.tag == "bool":
                    consts.add(v)
                elif p.a[2].tag == "int" and v.tag == "bin" and v.a[0] == "Add" and prev in v.a[1:]:
                    o = v.a[2] if v.a[1] is prev else v.a[1]
                    if any(x.tag in ("prev", "phi") for x in variables(o)):
                        return False
                else:
                    return False
            if len(consts) > 1:
                return False
        for oid in gheap:
            if gheap[oid].tag != "coll" or gheap[oid].a[0] not in ("HashSet", "BTreeSet"):
                return False
            for o in outs:
                nd = o[-1].heap[oid].a[1]
                if o[0] == "back" and (not nd or nd[0].tag != "base" or any(n.tag != "item" for n in nd[1:])):
                    return False
        return True

    def build_phi(self, loopid, name, s0, cur, vals, G, elems, key, phis):
        """vals: [(value, state)] at back edges that differ from cur."""
        if cur.tag == "phi" and cur.a[0] == loopid:
            vals = [(v, s) for v, s in vals if not (s.choice.get(cur) is v)]
            if not vals and cur not in self.phi:
                return s0
        structural = s0.tag == "agg" and s0.a[0] != OPT and not self.is_enum_agg(s0) or s0.tag == "clo"
        if structural and all(v.tag == s0.tag and len(v.a) == len(s0.a) and v.a[0] == s0.a[0] for v, _ in vals) and cur.tag == s0.tag:
            off = 2 if s0.tag == "agg" else 1
            na = list(s0.a)
            for i in range(off, len(s0.a)):
                sub = [(v.a[i], s) for v, s in vals if v.a[i] is not cur.a[i]]
                if not sub and cur.a[i] is s0.a[i]:
                    continue
                na[i] = self.build_phi(loopid, name + (i,), s0.a[i], cur.a[i], sub, G, elems, key, phis)
            return mk(s0.tag, *na)
        if not vals and not (cur.tag == "phi" and cur.a[0] == loopid):
            return s0
        if s0.tag in ("ref", "st", "obj") and not vals:
            return s0
        if s0.tag == "st":
            # iterator advanced inside the loop: generic iteration keeps the stream
            return s0
        p = mk("phi", loopid, name, s0, key)
        alts = [(s0, {})]
        src = [{-1}]
        base = dict(G.facts)
        for v, s in vals:
            fx = {l: b for l, b in s.facts.items() if l not in base and not self.is_old(l, loopid)}
            terms = [v] + list(fx)
            m = self.prime_map(elems, loopid, terms)
            memo = {}
            pv = subst(v, m, memo)
            if pv.tag == "prev" and pv.a[0] is p:
                continue
            pf = {subst(l, m, memo): b for l, b in fx.items()}
            for i, (x, y) in enumerate(alts):
                if pv is x and pf == y:
                    src[i].add(id(s))
                    break
            else:
                alts.append((pv, pf))
                src.append({id(s)})
        self.new_src[p] = [frozenset(x) for x in src]
        if p in self.phi:
            # keep alternatives discovered through earlier rounds only if still produced
            pass
        phis[p] = alts
        return p

    def finish_loop(self, st, loopid, G, outs, gheap, phis, key):
        backs = [o[1] for o in outs if o[0] == "back"]
        gf = G.facts

        def delta(s):
            return mkfacts({l: b for l, b in s.facts.items() if gf.get(l) is not b})
        allelems = (frozenset().union(*[o[-1].elems for o in outs]) if outs else frozenset()) - G.outer
        log = self.loop_log.setdefault(loopid, set())
        for b in backs:
            if b.steps:
                log.update(("step", x.a[1]) for x in b.steps)
                continue
            how = None
            for p in phis:
                g, cur = self.cell_value(G, p.a[1]), self.cell_value(b, p.a[1])
                if cur is None or cur is g:
                    continue
                if WALKS.get(p.a[:2]):
                    how = ("walk",)
                    break
                if self.counts_up(p, g, cur, b):
                    how = ("count",)
                    break
            log.add(how or ("free", delta(b)))
        # iteration paths without nodes, for universal facts
        plain = tuple(sorted({mk("path", "back", delta(s), (), s.steps) for s in backs}, key=lambda t: t.id))
        exits = []
        exit_paths = {}
        for o in outs:
            if o[0] == "back":
                continue
            s = o[-1]
            kind = "end" if s.steps and s.steps[-1].a[-1] == "end" else ("ret" if o[0] == "ret" else "break")
            exits.append((o, kind))
            if kind != "end":
                exit_paths.setdefault(kind, set()).add(mk("path", kind, delta(s), (), s.steps))
        brk = tuple(sorted((p for v in exit_paths.values() for p in v), key=lambda t: t.id))
        # how each iteration treats a carried value: what it was taken to be, what it is afterwards, the facts, the steps
        for p in phis:
            g = self.cell_value(G, p.a[1])
            self.phi_iter[p] = [(s.choice.get(p), None if self.cell_value(s, p.a[1]) in (g, s.choice.get(p)) else self.cell_value(s, p.a[1]),
                                 delta(s), s.steps) for s in backs]
        # final phi alternatives: which iteration paths leave the cell alone
        for p in phis:
            alts = self.phi.get(p)
            if not alts:
                continue
            keep = []
            cellname = p.a[1]
            g = self.cell_value(G, cellname)
            back_to = any(self.cell_value(s, cellname) is p.a[2] and s.choice.get(p) is not p.a[2] for s in backs)
            for s in backs:
                cur = self.cell_value(s, cellname)
                if cur is None or cur is g or s.choice.get(p) is cur:
                    if s.choice.get(p) not in (None, p.a[2]) and not back_to:
                        continue        # a path that finds another value, in a loop that leaves the first one for good
                    keep.append(mk("path", "back", delta(s), (), s.steps))
            keep = tuple(sorted(set(keep), key=lambda t: t.id))
            s0 = p.a[2]
            fin = {s0: mk("forall", loopid, keep, ())}
            if any(v is not s0 for v, _ in alts):
                self.phi_final[p] = fin
        res = []
        for o, kind in exits:
            s = o[-1].copy()
            for oid in gheap:
                h0 = st.heap[oid]
                if h0.tag != "coll":
                    continue
                paths = []
                for b in backs:
                    hb = b.heap.get(oid)
                    if hb is None:
                        continue
                    nd = hb.a[1]
                    if nd and nd[0].tag == "base" and nd[0].a[0] == loopid and nd[0].a[1] == oid:
                        paths.append(mk("path", "back", delta(b), nd[1:], b.steps))
                    else:
                        paths.append(mk("path", "reset", delta(b), nd, b.steps))
                paths = tuple(sorted(set(paths), key=lambda t: t.id))
                ln = mk("loop", loopid, kind, paths, tuple(sorted(allelems, key=lambda t: t.id)), brk)
                if h0.a[0] in ("HashSet", "BTreeSet") and kind == "end" and len(paths) == 1 and not brk:
                    p1 = paths[0]
                    if p1.a[0] == "back" and not p1.a[1].a[0] and len(p1.a[2]) == 1 and p1.a[2][0].tag == "item" and len(p1.a[3]) == 1 \
                            and p1.a[2][0].a[0].tag == "elem" and p1.a[2][0].a[0].a[1] is p1.a[3][0].a[1]:
                        ln = mk("copyof", p1.a[3][0].a[1])        # inserts everything the source yields
                cur = s.heap.get(oid)
                if cur is None:
                    continue
                nd = cur.a[1]
                if nd and nd[0].tag == "base" and nd[0].a[0] == loopid and nd[0].a[1] == oid:
                    s.heap[oid] = mk("coll", h0.a[0], h0.a[1] + (ln,) + nd[1:])
                else:
                    s.heap[oid] = mk("coll", h0.a[0], (mk("reset", ln),) + nd)
            for p in phis:
                self.close_counter(p, s, G, backs, delta, loopid, kind, allelems, brk)
            if plain or brk:
                s.facts[mk("forall", loopid, plain, brk) if kind == "end" else mk("partial", loopid, plain, brk)] = True
            s.steps = st.steps
            s.elems = st.elems | s.elems | allelems
            s.outer = st.outer
            s.loops = st.loops
            res.append(o[:-1] + (s,))
        # merge indistinguishable exits
        seen = {}
        out = []
        for o in res:
            s = o[-1]
            k = (o[0], o[1] if o[0] == "exit" and not isinstance(o[1], T) else (o[1].id if o[0] == "exit" else None),
                 frozenset((k2, v.id) for k2, v in s.env.items()), frozenset((k2, v.id) for k2, v in s.heap.items()),
                 mkfacts(s.facts).id)
            if k in seen:
                continue
            seen[k] = 1
            out.append(o)
        return out

    def close_counter(self, p, s, G, backs, delta, loopid, kind, allelems, brk):
        """an integer that starts at a constant and grows by constants is the length of what the loop would have collected"""
        if p.a[2].tag != "int" or self.cell_value(s, p.a[1]) is not p:
            return
        prev = mk("prev", p)
        for v, _ in self.phi.get(p, ()):
            if v is not p.a[2] and not (v.tag == "bin" and v.a[0] == "Add" and prev in v.a[1:] and any(x.tag == "int" and x.a[0] > 0 for x in v.a[1:])):
                return
        if p not in self.phi:
            return
        paths = []
        for b in backs:
            cur = self.cell_value(b, p.a[1])
            c = 0
            if cur is not p:
                if cur is None or cur.tag != "bin" or p not in cur.a[1:]:
                    return
                k = [x for x in cur.a[1:] if x.tag == "int"]
                if len(k) != 1 or not 0 < k[0].a[0] < 4:
                    return
                c = k[0].a[0]
            paths.append(mk("path", "back", delta(b), (mk("item", UNIT, mkfacts(b.facts), loopid, None),) * c, b.steps))
        paths = tuple(sorted(set(paths), key=lambda t: t.id))
        ln = mk("loop", loopid, kind, paths, tuple(sorted(allelems, key=lambda t: t.id)), brk)
        m = {p.id: plus(mk("len", snap("Vec", (ln,))), p.a[2].a[0])}
        memo = {}
        s.env = {k: subst(v, m, memo) for k, v in s.env.items()}
        s.heap = {k: (subst(v, m, memo) if v.tag == "cell" else v) for k, v in s.heap.items()}

    def cell_value(self, s, name):
        if name[0] == "e":
            v = s.env.get((name[1], name[2]))
            rest = name[3:]
        else:
            h = s.heap.get(name[1])
            v = h.a[0] if h is not None else None
            rest = name[2:]
        for i in rest:
            if v is None or v.tag not in ("agg", "clo") or i >= len(v.a):
                return None
            v = v.a[i]
        return v


class FnRef:
    """Wrapper so that callee JSON can live inside interned terms."""
    _all = {}

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return self.c["p"]

    @staticmethod
    def get(c):
        k = (c["p"], c["d"], tuple(c["a"]), (c.get("r") or {}).get("d"))
        r = FnRef._all.get(k)
        if r is None:
            r = FnRef._all[k] = FnRef(c)
        return r

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o
