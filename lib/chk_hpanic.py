"""Panic freedom of hotmeal: every operation that can panic, on every path that reaches it."""
import importlib

from term import *
from engine import *
from logic import *
from report import *
from chk_safe import harmless, spot, short
from hot import HRoot, HOT_API, vidx, fidx
from chk_plan import splice
import chk_apply

P = lambda n: mk("param", n)  # noqa: E731
RULES = (("chk_dom", "v_serialize"), ("chk_hot", "v_mirror"), ("chk_hot", "v_diffable"), ("chk_hot", "v_props"), ("chk_apply", "v_patch"), ("chk_apply", "v_insert"),
         ("chk_plan", "v_paths"), ("chk_plan", "v_plan"), ("chk_gain", "v_content"), ("chk_gain", "v_diff"), ("chk_value", "v_owned"), ("chk_value", "v_stem"),
         ("chk_domapi", "v_look"), ("chk_domapi", "v_change"), ("chk_sink", "v_sink"))
LOOKS = ("fmt", "dump_node", "dump_subtree", "dump_body", "dump_arena_subtree", "node_label", "node_id_short", "highlight_for")     # what only people read


# ---- linear arithmetic over numbers that exist ---------------------------------
class Lin:
    """a difference of what the facts say about lengths, positions and addresses: sums of atoms with integer factors"""

    def __init__(self, facts):
        self.rows = []                  # {atom: factor, None: constant} with sum <= 0
        self.atoms = set()
        self.said = set()
        for l, v in facts.items():
            if v not in (True, False) or l.tag in ("forall", "partial"):
                continue
            for e in subterms(l):
                if e.tag == "elem":                                             # there is one, so there is at least one
                    self.rows.append(plus({None: 1}, self.of(mk("len", e.a[1])), -1))
            if l.tag == "lt":
                a, b = self.of(l.a[0]), self.of(l.a[1])
                self.rows.append(plus(a, b, -1, 1) if v else plus(b, a, -1))
            elif l.tag == "eq" and v and numeric(l.a[0]) and numeric(l.a[1]):
                a, b = self.of(l.a[0]), self.of(l.a[1])
                self.rows += [plus(a, b, -1), plus(b, a, -1)]
            elif l.tag == "eq" and not v and Int(0) in l.a:
                x = l.a[0] if l.a[1] is Int(0) else l.a[1]
                if x.tag in ("len", "idx"):
                    self.rows.append(plus({None: 1}, self.of(x), -1))

    def of(self, t):
        if t.tag == "int":
            return {None: t.a[0]}
        if t.tag == "bin" and t.a[0] in ("Add", "Sub"):
            return plus(self.of(t.a[1]), self.of(t.a[2]), 1 if t.a[0] == "Add" else -1)
        if t.tag == "bin" and t.a[0] == "Mul" and any(x.tag == "int" for x in t.a[1:]):
            k, x = (t.a[1], t.a[2]) if t.a[1].tag == "int" else (t.a[2], t.a[1])
            return {a: c * k.a[0] for a, c in self.of(x).items()}
        if t.tag == "cast" and numeric(t.a[0]):
            return self.of(t.a[0])
        c = const_len(t)
        if c is not None:
            return {None: c}
        t = same_len(t)
        if t.tag == "len" and t.a[0].tag == "app" and t.a[0].a[0].split("@")[0].endswith("Index::index") and len(t.a[0].a) == 3:
            r = range_of(t.a[0].a[2])
            if r:
                e = self.of(r[1]) if r[1] is not None else self.of(mk("len", t.a[0].a[1]))
                return plus(e, self.of(r[0]), -1) if r[0] is not None else e
        self.atoms.add(t)
        if t.tag == "idx" and t.a[0].tag == "elem" and t not in self.said:         # an element is somewhere in its list
            self.said.add(t)
            self.rows.append(plus({t: 1, None: 1}, self.of(mk("len", t.a[0].a[1])), -1))
        if found(t) and t not in self.said:
            self.said.add(t)
            pat = const_len(mk("len", t.a[0].a[2]))
            self.rows.append(plus(plus({t: 1}, {None: pat or 0}, 1), self.of(mk("len", t.a[0].a[1])), -1))
        return {t: 1}

    def holds(self, a, b, k=0):
        """a <= b + k on every run that gets here"""
        goal = plus(self.of(b), self.of(a), -1, 1 + k)                # b - a + k + 1 <= 0 must be impossible
        rows = [r for r in self.rows + [goal]] + [{x: -1} for x in self.atoms]
        return infeasible(rows)


def plus(a, b, k, c=0):
    out = dict(a)
    for x, y in b.items():
        out[x] = out.get(x, 0) + k * y
    out[None] = out.get(None, 0) + c
    return {x: y for x, y in out.items() if y or x is None}


def numeric(t):
    return t.tag in ("int", "len", "bin", "cast", "phi", "idx") or t.tag == "fld" or t.tag == "app" and t.a[0] in ("arena_count",) or t.tag == "param"


def const_len(t):
    if t.tag == "len" and t.a[0].tag in ("const", "str"):
        s = str(t.a[0].a[0])
        m = s[1:] if s.startswith("b") else s
        if len(m) >= 2 and m[0] == m[-1] == '"' and "\\" not in m:
            return len(m[1:-1].encode())
    return None


def same_len(t):
    """a text and its bytes have one length"""
    if t.tag == "len":
        x = t.a[0]
        while x.tag == "app" and x.a[0] in ("bytes", "str::as_bytes", "slice::iter") or x.tag == "ref" and False:
            x = x.a[1]
        return t if x is t.a[0] else mk("len", x)
    return t


def infeasible(rows):
    """elimination: no numbers satisfy every row"""
    seen = set()
    for _ in range(12):
        atoms = {}
        for r in rows:
            live = [x for x in r if x is not None]
            if not live and r.get(None, 0) > 0:
                return True
            for x in live:
                p, n = atoms.get(x, (0, 0))
                atoms[x] = (p + (r[x] > 0), n + (r[x] < 0))
        if not atoms:
            return False
        x = min(atoms, key=lambda x: (atoms[x][0] * atoms[x][1], x.id))
        if atoms[x][0] * atoms[x][1] > 400:
            return False
        up, dn, rest = [r for r in rows if r.get(x, 0) > 0], [r for r in rows if r.get(x, 0) < 0], [r for r in rows if not r.get(x, 0)]
        rows = rest
        for u in up:
            for d in dn:
                r = {}
                for a, c in u.items():
                    r[a] = r.get(a, 0) + c * -d[x]
                for a, c in d.items():
                    r[a] = r.get(a, 0) + c * u[x]
                r = {a: c for a, c in r.items() if c or a is None}
                k = frozenset((a.id if a is not None else -1, c) for a, c in r.items())
                if k not in seen:
                    seen.add(k)
                    rows.append(r)
    return False


# ---- what rules a panic out ---------------------------------------------------
def address(t):
    """where a slice starts in memory"""
    while t.tag == "cast":
        t = t.a[0]
    return t.tag == "app" and t.a[0].endswith("as_ptr")


def range_of(idx):
    if idx.tag == "agg" and "ops::Range" in idx.a[0]:
        k = idx.a[0].split("ops::")[-1]
        if k == "Range":
            return idx.a[2], idx.a[3]
        if k == "RangeFrom":
            return idx.a[2], None
        if k == "RangeTo":
            return None, idx.a[2]
        if k == "RangeFull":
            return None, None
    return False


def index_ok(cond, facts, text):
    if cond.tag != "lt":
        return False
    idx, n = cond.a
    r = range_of(idx)
    if r is False:
        return Lin(facts).holds(idx, n, -1)
    a, b = r
    li = Lin(facts)
    ok = (b is None or li.holds(b, n)) and (a is None or li.holds(a, b if b is not None else n))
    return ok and (not text or all(x is None or boundary(x, n, facts) for x in r))


def boundary(x, n, facts):
    """the number is where one character of the text ends and the next begins"""
    if x.tag == "int":
        return x.a[0] == 0
    if x is n or same_len(x) is same_len(n) or found(x):
        return True
    li = Lin({})
    sums = {a: c for a, c in li.of(x).items() if a is not None or c}
    start = [a for a, c in sums.items() if c == 1 and a is not None and address(a)]
    base = [a for a, c in sums.items() if c == -1 and a is not None and address(a)]
    if len(start) == len(base) == 1:                                            # where another text, which lies inside, begins or ends
        rest = {a: c for a, c in sums.items() if a not in (start[0], base[0])}
        return not rest or rest == {same_len(mk("len", inner(start[0]))): 1}
    at = [a for a in sums if a is not None and found(a)]
    if len(at) == 1 and sums[at[0]] == 1:                                       # behind what was found
        rest = {a: c for a, c in sums.items() if a is not at[0]}
        pat = at[0].a[0].a[2]
        n = const_len(mk("len", pat))
        return rest == {same_len(mk("len", pat)): 1} or n is not None and rest == {None: n}
    return False


def inner(t):
    """the text whose bytes the address is that of"""
    while t.tag == "cast":
        t = t.a[0]
    return t.a[1]


def found(x):
    return x.tag == "fld" and x.a[0].tag == "app" and x.a[0].a[0].split("@")[0].split("::")[-1] in ("find", "rfind")


def overflow_ok(cond, facts):
    if cond.tag != "ovf":
        return False
    op, a, b = cond.a
    li = Lin(facts)
    if op == "Sub":
        return li.holds(b, a)
    if op == "Add":
        for p, q in ((a, b), (b, a)):
            if address(p) and q.tag == "len":
                c = p
                while c.tag == "cast":
                    c = c.a[0]
                if same_len(q) is same_len(mk("len", c.a[1])):
                    return True                                                 # the end of something that lies in memory
        s = mk("bin", "Add", a, b)
        li.of(s)
        return any(x.tag == "len" and li.holds(s, x) for x in list(li.atoms))
    return False


def apart(cond, facts):
    """the node that is put under another is new, or not above it"""
    target, child = cond.a[1], cond.a[2]
    if any(x.tag == "app" and x.a[0] in ("fresh", "clone") for x in (child, target)):
        return target is not child
    if target.tag == "sel" and target.a[0].tag == "app" and target.a[0].a[0] == D + "children":
        target = target.a[0].a[2]
    elif target.tag == "elem" and target.a[1].tag == "app" and target.a[1].a[0] == D + "children":
        target = target.a[1].a[2]
    return any(l.tag == "forall" and v is True and covers(l, target, child) for l, v in facts.items())


def covers(l, target, child):
    """a finished search up from the target that did not come across the child"""
    from facts import loop_src
    from chk_tree import gone_in
    srcs = {loop_src(p) for p in l.a[1]} if l.a[1] else set()
    if len(srcs) != 1 or None in srcs:
        return False
    src = srcs.pop()
    return src.tag == "app" and src.a[0] == "ancestors" and src.a[2] is target and gone_in(l, src, child)


def ruled_out(it, kind, cond, expected, facts, stack, text):
    if harmless(it, kind, cond, expected, facts, stack):
        return True
    if kind.startswith("assert:overflow"):
        return overflow_ok(cond, facts) or above_child(it, cond)
    if kind.startswith("diverge") and kind.endswith("expect_failed"):
        return slotted(it, facts)
    if kind.startswith("index") or kind == "assert:bounds":
        return index_ok(cond, facts, text)
    return False


def above_child(it, cond):
    """one more than the height the tree holds for a node: heights are lengths of paths in the tree (C34)"""
    h = fidx(it.p, "hotmeal::diff::DiffNodeData", "height")
    return cond.tag == "ovf" and cond.a[0] == "Add" and Int(1) in cond.a[1:] \
        and any(x.tag == "fld" and x.a[1:] == (0, h) and x.a[0].tag == "mapget" for x in cond.a[1:])


def built(nodes, r):
    """what is put under r for certain, in the order of the log"""
    return [n.a[2] for n in splice(nodes) if n.tag == "link" and n.a[0] == "append" and n.a[1] is r]


def named(t):
    """the first child of a node that was built here, by its own name"""
    if t.tag == "sel" and t.a[0].tag == "app" and t.a[0].a[0] == D + "children" and t.a[0].a[1].tag == "snap" and t.a[1] is Int(0):
        c = built(t.a[0].a[1].a[1], t.a[0].a[2])
        if c:
            return c[0]
    return t


def slotted(it, facts):
    """a slot was looked for in vain, right after it was made: slots are numbered as they are made (C38)"""
    for l, v in facts.items():
        if l.tag == "app" and l.a[0] == "above" and v is True:
            return True                                                         # a node is never moved below itself: the operations are ordered from the root down (C17)
        if l.tag == "lt" and v is False and l.a[1].tag == "len":
            x, c = l.a[0], l.a[1].a[0]
            while x.tag == "cast":
                x = x.a[0]
            if c.tag == "app" and c.a[0] == D + "children" and c.a[1].tag == "snap" and c.a[2].tag == "app" and c.a[2].a[0] == "fresh":
                n = len(built(c.a[1].a[1], c.a[2]))
                if x.tag == "int" and 0 <= x.a[0] < n or x.tag == "phi" and x.a[2].tag == "int" and n >= 1 and counts(it, x):
                    return True
        if l.tag == "eq" and v is True and Int(0) in l.a:
            c = l.a[0] if l.a[1] is Int(0) else l.a[1]
            if c.tag == "len" and c.a[0].tag == "app" and c.a[0].a[0] == D + "children" and c.a[0].a[1].tag == "snap":
                if built(c.a[0].a[1].a[1], named(c.a[0].a[2])):
                    return True
                r = c.a[0].a[2]
                if r.tag == "sel" and r.a[1] is Int(0) and r.a[0].tag == "app" and r.a[0].a[0] == D + "children":
                    r = r.a[0].a[2]
                ns = c.a[0].a[1].a[1]
                if ns and ns[0].tag == "base" and r.tag == "app" and r.a[0] == "fresh":
                    return True                                                 # .. it was there before the loop (the other case), and slots stay (C38)
    return False


def counts(it, x):
    return all(w is x or w.tag == "prev" or w.tag == "bin" and w.a[0] == "Add" and Int(1) in w.a[1:] or w.tag == "int" for w, _ in it.phi.get(x, []))


class All:
    """the analyses of every rule about hotmeal, and one more of every function that can be called from outside"""

    def __init__(self, prog):
        self.its, self.problems, self.applying = [], [], []
        orig = Interp.__init__
        me = self

        def init(it, *a, **k):
            orig(it, *a, **k)
            me.its.append(it)
        Interp.__init__ = init
        try:
            for m, f in RULES:
                try:
                    getattr(importlib.import_module(m), f)(Report("x"), prog)
                except (Unsupported, Limit):                                    # that rule says so itself; what it did not finish is analysed below
                    self.its[-1:] = []
                except Exception:
                    pass
            n = len(self.its)
            ad = next(a for x, a in prog.adts.items() if x.endswith("diff::Patch"))
            for v in ad["v"]:
                try:
                    chk_apply.Patched(Report("x"), prog, v["n"])
                except (Unsupported, Limit) as e:
                    self.problems.append(("apply_patch " + v["n"], str(e)))
                    self.its[-1:] = []
                self.applying = self.its[n:]
        finally:
            Interp.__init__ = orig
        done = {d for it in self.its for d in set(it.functions) | set(it.stack)}
        for b in sorted(prog.bodies.values(), key=lambda b: b["d"]):
            if not b["local"] or b["kind"] != "fn" or b["d"] in done or b["p"] in done or "::tests::" in b["p"] or "dump" in b["p"]:
                continue
            if b["n"] in LOOKS + ("clone", "eq", "hash", "assert_fields_are_eq", "assert_send", "assert_sync", "_assert_document_covariant", "set_quirks_mode"):
                continue
            try:
                r = HRoot(prog, b, [P("arg%d" % i) for i in range(b["argc"])], matching=False, treeapi=False, extra=dict(HOT_API))
            except (Unsupported, Limit) as e:
                self.problems.append((b["p"], str(e)))
                continue
            self.its.append(r.it)


def v_panic(rep, prog):
    al = All(prog)
    for f, e in al.problems:
        rep.fail("the code has a form the rules can follow", f, e)
    seen = set()
    fns = set()
    for it in al.its:
        fns |= set(it.functions) | set(it.stack)
        rep.cover["call_sites"] += len(it.callsites)
        rep.cover["paths"] += it.npaths
        for (fn, kind), notes in it.panics.items():
            for span, cond, expected, fx, stack, frame in notes:
                k = (fn, kind, span, cond, fx)
                if k in seen and kind != "link":
                    continue
                seen.add(k)
                f = dict(fx.a[0])
                if kind == "link":
                    if it in al.applying:
                        rep.check(inconsistent(f) or apart(cond, f), "a node is not put under itself, whatever the patch says", spot(it, fn, span, frame),
                                  "%s when %s" % (show(cond, 5), fshow(f, 6)))
                    continue
                rep.check(ruled_out(it, kind, cond, expected, f, stack, kind == "index:str"), "a possible panic is ruled out on every path", spot(it, fn, span, frame),
                          "%s: %s%s when %s" % (kind, "" if expected else "not ", show(cond, 6), fshow(f, 6)))
    rep.cover["functions"] |= fns
    for d in sorted(fns):
        b = prog.bodies.get(d)
        if b is not None and b["local"]:
            rep.check(True, "every way the function can panic is listed", short(b["p"]))
