"""hotmeal's diffing: turning edit operations into patches."""
from term import *
from engine import *
from engine import WALKS
from logic import *
from facts import splice, loop_src
from hot import *
from report import *
from chk_apply import past, counts
from chk_hot import same_list, uncast, at, outs
import models

SHADOW, PATCH = "hotmeal::diff::ShadowTree", "hotmeal::diff::Patch"


def typed(prog, args, ret, name):
    """a function of hotmeal by its name, or else the only one with such a signature"""
    ty = prog.types

    def s(i):
        return ty[i].get("s", "")
    best = []
    for b in prog.bodies.values():
        if not b["local"] or b["kind"] != "fn":
            continue
        if prog.nname(b["p"]).endswith(name):
            return b
        if b["argc"] == len(args) and ret in s(b["locals"][0][0]) and all(a in s(b["locals"][i + 1][0]) for i, a in enumerate(args)):
            best.append(b)
    if len(best) != 1:
        raise Unsupported("function not found: " + name)
    return best[0]


def reversed_(it, st, args, ctx):
    o = models.obj_of(it, st, args[0])
    if o is None:
        return None
    st = st.copy()
    it.push_node(st, o.a[0], mk("perm", ctx.site, "reverse"))
    return [(st, UNIT)]


REVERSE = {n: reversed_ for n in ("core::slice::reverse", "smallvec::SmallVec::reverse")}
for _n in ("push", "extend_from_slice", "extend"):
    REVERSE["smallvec::SmallVec::" + _n] = MODELS.get("std::vec::Vec::" + _n)
REVERSE = {k: v for k, v in REVERSE.items() if v is not None}


# ---- the path of a node --------------------------------------------------------
def shadow(prog):
    fs = next(a for n, a in prog.adts.items() if n.endswith("diff::ShadowTree"))["v"][0]["f"]
    return agg(SHADOW, 0, *[mk("obj", "arena") if f == "arena" else P(f) for f in fs])


class Climb:
    """facts about the nodes above a node, in one state of the arena"""

    def __init__(self, f):
        self.f = f

    def parent(self, x):
        """(is there one, which)"""
        for l, u in self.f.items():
            if l.tag == "disceq" and l.a[0].tag == "app" and l.a[0].a[0] == D + "parent" and l.a[0].a[2] is x and l.a[1] in (0, 1):
                return (u is True) == (l.a[1] == 1), fld(l.a[0], 1, 0), l.a[0].a[1]
            if l.tag == "eq" and u is True:
                for a, b in (l.a, l.a[::-1]):
                    if a.tag == "app" and a.a[0] == D + "parent" and a.a[2] is x and b.tag == "agg":
                        return (True, b.a[2], a.a[1]) if b.a[1] == 1 else (False, None, a.a[1])
        return None, None, None

    def is_root(self, p, sup):
        """p is a slot: its parent is the super root"""
        has, pp, _ = self.parent(p)
        if has is False:
            return False
        for l, u in self.f.items():
            if l.tag == "eq" and sup in l.a:
                o = l.a[0] if l.a[1] is sup else l.a[1]
                if has and o is pp:
                    return u
            if l.tag == "eq" and any(x.tag == "agg" and x.a[-1] is sup for x in l.a) and any(x.tag == "app" and x.a[0] == D + "parent" and x.a[2] is p for x in l.a):
                return u
        return None


def number(f, v, x, par):
    """v is the number of x among the children of par; None if the search for it cannot have failed"""
    v = uncast(v)
    if v.tag == "idx":
        e = v.a[0]
        return e.tag == "elem" and e.a[1].tag == "app" and e.a[1].a[0] == D + "children" and e.a[1].a[2] is par and f.get(eq(x, e)) is True
    for l, u in f.items():            # a node is among its parent's children
        if l.tag == "forall" and u is True and l.a[1]:
            ok = True
            for p in l.a[1]:
                src = loop_src(p)
                if src is None or src.tag != "app" or src.a[0] != D + "children" or src.a[2] is not par or factsdict(p.a[1]).get(eq(x, mk("elem", p.a[3][0].a[0], src))) is not False:
                    ok = False
            if ok:
                return None
    return False


def walkers(terms, start, loop=None):
    """values carried round a loop that begin at start and go up from parent to parent"""
    out = set()
    for t in terms:
        for x in subterms(t):
            if x.tag == "phi" and loop in (None, x.a[0]) and WALKS.get(x.a[:2]):
                opt = WALKS[x.a[:2]][1]
                if not opt and x.a[2] is start:
                    out.add(x)
                elif opt and x.a[2].tag == "agg" and x.a[2].a[1] == 1 and x.a[2].a[2] is start:
                    out.add(fld(x, 1, 0))
    return out


def v_paths(rep, prog):
    b = typed(prog, ["ShadowTree", "NodeId"], "SmallVec<[u32", "ShadowTree::compute_path")
    heap = {"arena": mk("coll", "arena", (past("arena"),)), "sh": mk("cell", shadow(prog))}
    api = dict(HOT_API)
    api.update(REVERSE)
    r = HRoot(prog, b, [mk("ref", ("O", "sh"), ()), P("node")], matching=False, treeapi=False, heap=heap, extra=api)
    rep.use(r)
    w, sup = at(b), P("super_root")

    def say(ok, rule, got):
        rep.check(ok, "the path of a node: " + rule, w, show(got, 6) if isinstance(got, T) else str(got))
    n, slots = 0, 0
    for s, v in outs(r):
        say(splice(s.heap["arena"].a[1]) == [past("arena")] or tuple(splice(s.heap["arena"].a[1])) == (past("arena"),), "asking for it changes nothing", v)
        ns = list(splice(v.a[1])) if v.tag == "snap" else []
        if not ns or ns[-1].tag != "perm" or ns[-1].a[1:] != ("reverse",):
            say(False, "it begins at the slot", v)
            continue
        ns.pop()
        if not ns or ns[0].tag != "loop" or len(ns) > 2:
            say(False, "it has the number of every node on the way", v)
            continue
        n += 1
        L = ns[0]
        cur = walkers([mkfacts(s.facts)] + list(L.a[2]) + list(L.a[4]), P("node"), L.a[0])
        if len(cur) != 1:
            say(False, "the way up begins at the node and goes from a node to its parent", v)
            continue
        cur = cur.pop()
        for p in L.a[2]:
            f = factsdict(p.a[1])
            c = Climb(f)
            has, par, st = c.parent(cur)
            its = splice(p.a[2])
            num = number(f, its[0].a[0], cur, par) if len(its) == 1 and its[0].tag == "item" else False
            if num is None:
                continue
            say(num and has is True and c.is_root(par, sup) is False and p.a[0] == "back", "every node below the slot's content adds its number among its siblings", p)
        c = Climb(s.facts)
        has, par, st = c.parent(cur)
        if len(ns) == 2:
            num = number(s.facts, ns[1].a[0], par, sup) if ns[1].tag == "item" else False
            if num is None:
                continue
            slots += 1
            say(num and has is True and c.is_root(par, sup) is True, "the first number is that of the slot", v)
        else:
            say(has is False, "it ends only at a slot or without a parent", v)
    say(slots > 0, "a path begins with the number of a slot", "")
    v_ancestor(rep, prog)


def strict_ancestors(f, above, node):
    """what is said by a search through the list of nodes above: found, not there, or None"""
    arena = snap("arena", (past("arena"),))

    def is_list(x):
        return x is not None and x.tag == "app" and x.a[0].split("@")[0].endswith("::index") and x.a[2].tag == "agg" and x.a[2].a[0].endswith("RangeFrom") and x.a[2].a[2] is Int(1) \
            and x.a[1].tag == "app" and x.a[1].a[0].endswith("ancestors") and x.a[1].a[1:] == (arena, node)
    for l, u in f.items():
        if u is not True:
            continue
        if l.tag == "eq" and above in l.a and any(x.tag == "elem" and is_list(x.a[1]) for x in l.a):
            return True
        if l.tag == "forall" and l.a[1]:
            back = [p for p in l.a[1] if p.a[0] == "back"]
            if back and all(is_list(loop_src(p)) and factsdict(p.a[1]).get(eq(above, mk("elem", p.a[3][0].a[0], loop_src(p)))) is False for p in back):
                return False
    return None


def v_ancestor(rep, prog):
    b = typed(prog, ["ShadowTree", "NodeId", "NodeId"], "bool", "ShadowTree::is_ancestor")
    heap = {"arena": mk("coll", "arena", (past("arena"),)), "sh": mk("cell", shadow(prog))}
    r = HRoot(prog, b, [mk("ref", ("O", "sh"), ()), P("above"), P("node")], matching=False, treeapi=False, heap=heap, extra=HOT_API)
    rep.use(r)
    w = at(b)
    seen = set()
    for s, v in outs(r):
        listed = strict_ancestors(s.facts, P("above"), P("node"))
        if listed is not None and v in (TRUE, FALSE):
            rep.check(listed is (v is TRUE), "a node is above another if it is met on the way up, and only then", w, show(v, 4) + " given " + fshow(s.facts, 5))
            seen.add(v is TRUE)
            continue
        cur = walkers([mkfacts(s.facts)], P("node"))
        ups = {x for x in subterms(mkfacts(s.facts)) if x.tag == "phi" and (WALKS.get(x.a[:2]) or (0, 0))[1] and x.a[2].tag == "app" and x.a[2].a[0] == D + "parent" and x.a[2].a[2] is P("node")}
        ok = v in (TRUE, FALSE) and len(cur) + len(ups) == 1
        if ok:
            if ups:             # carries the next node above instead of the last one looked at
                cur = ups.pop()
                has, par = s.facts.get(disceq(cur, 1)), fld(cur, 1, 0)
            else:
                cur = cur.pop()
                has, par, _ = Climb(s.facts).parent(cur)
            if v is TRUE:
                ok = ok and has is True and s.facts.get(eq(P("above"), par)) is True
            else:
                before = [q for l, u in s.facts.items() if l.tag in ("partial", "forall") and u is True and any(x.tag == "phi" and x.a[0] == l.a[0] for x in subterms(cur)) for q in l.a[1]]
                ok = ok and has is False and bool(before) and all(factsdict(q.a[1]).get(eq(P("above"), par)) is False for q in before)
            seen.add(v is TRUE)
        rep.check(ok, "a node is above another if it is met on the way up, and only then", w, show(v, 4) + " given " + fshow(s.facts, 5))
    rep.check(seen == {True, False}, "being above is told apart", w, "")


# ---- one operation at a time ---------------------------------------------------
def q_path(it, st, args, ctx):
    t = it.deref_all(st, args[0])
    a = t.a[2 + fidx(it.p, "diff::ShadowTree", "arena")]
    st = st.copy()
    o = it.new_coll(st, ctx.site + "~path", "Vec")
    it.push_node(st, o.a[0], mk("copyof", app("path", it.rv(st, a), it.rv(st, args[1]))))
    return [(st, o)]


def q_above(it, st, args, ctx):
    t = it.deref_all(st, args[0])
    a = t.a[2 + fidx(it.p, "diff::ShadowTree", "arena")]
    return [(st, app("above", it.rv(st, a), it.rv(st, args[1]), it.rv(st, args[2])))]


def q_content(it, st, args, ctx):
    rs = [it.rv(st, a) for a in args]
    return [(st, tup(app("attrs_of", *rs), app("content_of", *rs)))]


def clone_arena(it, st, args, ctx):
    v = it.rv(st, args[0])
    if v is not fld(P("tree_a"), 0, fidx(it.p, CT, "arena")) or "arena" in st.heap:
        return None
    st = st.copy()
    st.heap["arena"] = mk("coll", "arena", (past("arena"),))
    return [(st, mk("obj", "arena"))]


class Plan:
    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog
        b = self.b = typed(prog, ["Vec<cinereus::EditOp", "Vec<(cinereus::indextree::NodeId, stem::Stem", "cinereus::Tree<", "&T", "cinereus::Matching"], "Result<std::vec::Vec<diff::Patch", "convert_ops_with_shadow")
        self.w = at(b)
        tys = [prog.types[b["locals"][i + 1][0]].get("s", "") for i in range(b["argc"])]
        args = []
        for t in tys:
            n = [n for k, n in (("EditOp", "ops"), ("Stem", "opaque"), ("cinereus::Tree<", "tree_a"), ("Matching", "matching")) if k in t]
            args.append(P(n[0] if n else "tree_b"))
        api = dict(HOT_API)
        api.update(REVERSE)
        for a, r, n, m in ((["ShadowTree", "NodeId"], "SmallVec<[u32", "ShadowTree::compute_path", q_path), (["ShadowTree", "NodeId", "NodeId"], "bool", "ShadowTree::is_ancestor", q_above),
                           (["NodeId", "&T", "HashMap", "HashSet"], "InsertContent", "diff::extract_content_from_tree_b", q_content)):
            api[prog.nname(typed(prog, a, r, n)["p"])] = m
        api["<indextree::Arena as std::clone::Clone>::clone"] = clone_arena
        self.r = HRoot(prog, b, args, matching=True, treeapi=True, extra=api)
        rep.use(self.r)
        ad = next(a for n, a in prog.adts.items() if n.endswith("::EditOp"))
        self.ops = {v["n"]: (i, v["f"]) for i, v in enumerate(ad["v"])}
        self.root = fld(P("tree_a"), 0, fidx(prog, CT, "root"))
        self.pad = next(a for n, a in prog.adts.items() if n.endswith("diff::Patch"))
        self.hk = {n: vidx(prog, "HtmlNodeKind", n) for n in ("Element", "Text", "Comment")}

    def say(self, ok, rule, *got):
        return self.rep.check(bool(ok), rule, self.w, " ".join(show(g, 5) if isinstance(g, T) else g if isinstance(g, str) else "[" + ", ".join(show(x, 4) for x in g) + "]" for g in got)[:900])

    def patch(self, t):
        """(kind, fields by name)"""
        if t.tag != "agg" or not t.a[0].endswith("diff::Patch"):
            return None, {}
        v = self.pad["v"][t.a[1]]
        return v["n"], dict(zip(v["f"], t.a[2:]))


class Step:
    """one way through the loop over the operations"""

    def __init__(self, plan, e, f, key, arena, result, partners):
        self.plan, self.e, self.f, self.key = plan, e, f, key
        self.nodes = {n.a[0]: n.a[1] for n in arena if n.tag == "node"}
        self.moves = [n for n in arena if n.tag != "node"]
        self.result, self.partners = result, partners

    def arg(self, op, name):
        i, fs = self.plan.ops[op]
        return fld(self.e, i, fs.index(name))

    def is_op(self, op):
        i = self.plan.ops[op][0]
        return self.f.get(disceq(self.e, i, 5)) is True or all(self.f.get(disceq(self.e, j, 5)) is False for n, (j, _) in self.plan.ops.items() if n != op)

    def state(self, t):
        """the changes made in this round before t was looked at"""
        if t.tag != "snap" or t.a[0] != "arena":
            return None
        ns = splice(t.a[1])
        if not ns or ns[0].tag != "base" or ns[0].a[0] != self.plan.loop:
            return None
        return [n for n in ns[1:] if n.tag != "node"]

    def kids(self, t, par, state):
        return t.tag == "app" and t.a[0] == D + "children" and self.same(t.a[2], par) and (state is None or self.state(t.a[1]) == state)

    def same(self, a, b):
        return a is b or self.name(a) is self.name(b)

    def name(self, t):
        """slots and the content of the first one by one name, however they are looked up"""
        pl = self.plan
        lst, i = None, None
        if t.tag == "sel":
            lst, i = t.a[0], uncast(t.a[1])
        elif t.tag == "elem" and self.f.get(mk("first", t)) is True:
            lst, i = t.a[1], Int(0)
        if lst is None or lst.tag != "app" or lst.a[0] != D + "children":
            return t
        par, st = self.name(lst.a[2]), self.state(lst.a[1])
        if st is None:
            return t
        if par is pl.sup and i is Int(0):
            return pl.slot0
        if par is pl.sup and i in pl.counters:
            made = [n.a[2] for n in st if n.tag == "link" and n.a[0] == "append" and n.a[1] is pl.sup]
            return made[0] if len(made) == 1 else t
        if par is pl.slot0 and i is Int(0):
            return mk("str", "content")
        return t

    def partner(self, b):
        """where b is, or is to be, in the copy"""
        for l, u in self.f.items():
            if l.tag == "haskey" and l.a[1] is b and l.a[0] in self.plan.partner_states:
                return mk("mapget", l.a[0], b) if u else mk("str", "content")
        return None

    def text(self, i):
        """an empty text was made"""
        d = self.nodes.get(i)
        if d is None or d.tag != "agg":
            return False
        k = d.a[2 + fidx(self.plan.prog, CND, "kind")]
        return k.tag == "agg" and k.a[1] == self.plan.hk["Text"]

    def path(self, t):
        """(state, node, further numbers) of a path"""
        while t.tag == "agg" and len(t.a) == 3:
            t = t.a[2]
        ns = splice(t.a[1]) if t.tag == "snap" else (mk("copyof", t),)
        if not ns or ns[0].tag != "copyof" or ns[0].a[0].tag != "app" or ns[0].a[0].a[0] != "path" or any(n.tag != "item" for n in ns[1:]):
            return None, None, None
        x = ns[0].a[0]
        return self.state(x.a[1]), x.a[2], [uncast(n.a[0]) for n in ns[1:]]

    def names(self, t, node, state):
        """t is the path of node in this state of the copy"""
        st, n, more = self.path(t)
        return n is not None and self.same(n, node) and more == [] and st == state

    def place(self, t, par, pos):
        """t is a place among the children of par, whose own path does not change in this round"""
        st, n, more = self.path(t)
        return n is not None and st is not None and self.same(n, par) and more == [pos]

    def slot_made(self):
        return [n.a[2] for n in self.moves if n.tag == "link" and n.a[1] is self.plan.sup and n.a[0] == "append"]


def gap(step, g, par, pos, state):
    """a loop that adds empty texts to par until there are pos children"""
    if g.tag != "loop":
        return False
    it = step.plan.r.it
    for q, src in zip(g.a[2], counts(it, g)):
        its = splice(q.a[2])
        if len(its) != 2 or its[0].tag != "node" or its[1].tag != "link" or its[1].a[0] != "append" or not step.same(its[1].a[1], par) or its[1].a[2] is not its[0].a[0]:
            return False
        k = its[0].a[1].a[2 + fidx(step.plan.prog, CND, "kind")] if its[0].a[1].tag == "agg" else UNIT
        if k.tag != "agg" or k.a[1] != step.plan.hk["Text"]:
            return False
        if src is not None:
            if src[0].tag != "len" or not step.kids(src[0].a[0], par, state) or src[1] is not pos:
                return False
            continue
        # as long as there are fewer
        f = factsdict(q.a[1])
        ok = [l for l, u in f.items() if u is True and fewer(step, g, l, par, pos)]
        if q.a[0] != "back" or g.a[1] != "break" or len(f) != 1 or len(ok) != 1 or not all(factsdict(x.a[1]) == {ok[0]: False} for x in g.a[4]):
            return False
    return bool(g.a[2])


def fewer(step, g, l, par, pos):
    if l.tag != "lt" or l.a[0].tag != "len" or l.a[1] is not pos:
        return False
    t = l.a[0].a[0]
    if t.tag != "app" or t.a[0] != D + "children" or not step.same(t.a[2], par) or t.a[1].tag != "snap":
        return False
    ns = splice(t.a[1].a[1])
    return len(ns) == 1 and ns[0].tag == "base" and ns[0].a[0] == g.a[0]


def put(step, rest, par, pos, new, slot, state):
    """the rest of what happens puts new at the place; what stood there goes to a new slot"""
    f = step.f

    def known(st):
        for l, u in f.items():
            if l.tag == "lt" and l.a[0] is pos and l.a[1].tag == "len" and step.kids(l.a[1].a[0], par, st):
                return u
        return None
    rest, state = list(rest), list(state)
    filled, before = False, known(state)
    if rest and rest[0].tag == "loop":
        if not gap(step, rest[0], par, pos, state):
            return "the gap is filled in another way"
        state.append(rest.pop(0))
        filled = True
    k = known(state)
    if k is None and filled and before is False:          # there was nobody, and the children filled in end right before
        k = False
    if k is None:
        return "what stands at the place is not looked for"
    if not k:
        if not filled and not any(l.tag == "lt" and u is False and l.a[1] is pos and l.a[0].tag == "len" and step.kids(l.a[0].a[0], par, state) for l, u in f.items()):
            return "a gap before the place is not filled"
        if len(rest) != 1 or rest[0].tag != "link" or rest[0].a[0] != "append" or not step.same(rest[0].a[1], par) or rest[0].a[2] is not new:
            return "the node is not put at the end"
        return None if slot is NONE else "a slot is named although nothing stood at the place"
    occ = {n.a[1] for n in rest if n.tag == "link" and n.a[0] == "before" and n.a[2] is new}
    if len(occ) != 1:
        return "the node is not put in front of what stands at the place"
    occ = occ.pop()
    if occ.tag != "sel" or occ.a[1] is not pos or not step.kids(occ.a[0], par, state):
        return "the node is put in front of another one than stands at the place"
    made = step.slot_made()
    if len(made) != 1 or made[0] not in step.nodes:
        return "there is not exactly one new slot"
    todo = [n for n in rest if n.tag not in ("cut",) and not (n.tag == "link" and n.a[0] == "before" and n.a[2] is new) and not (n.tag == "link" and n.a[1] is step.plan.sup)]
    if len(todo) != 1 or todo[0].tag != "link" or todo[0].a[0] != "append" or step.name(todo[0].a[1]) is not made[0] or todo[0].a[2] is not occ:
        return "what stood at the place does not go to the new slot"
    order = [n.tag if n.tag == "cut" else n.a[0] if n.a[1] is not step.plan.sup else "slot" for n in rest]
    cuts = [n for n in rest if n.tag == "cut"]
    if any(n.a[0] is not occ for n in cuts) or rest.index(todo[0]) != len(rest) - 1 or "before" in order[order.index("cut"):] if cuts else rest[-1] is not todo[0]:
        return "what stood at the place is not moved to the new slot after the node is in its place"
    if not (slot.tag == "agg" and slot.a[1] == 1 and uncast(slot.a[2]) in step.plan.counters):
        return "the patch names another slot"
    return None


def o_update(p, st, kind, fs):
    p.say(kind == "UpdateProps" and st.names(fs["path"], st.arg("UpdateProperties", "node_a"), []) and not st.moves and not st.partners, "a change of attributes becomes UpdateProps with the path of the node", [p_ for p_ in st.result])
    if kind == "UpdateProps":
        p.say(changes(p, fs["changes"], st.arg("UpdateProperties", "changes")), "every entry of the final attributes is carried over with its name, and its value if it is a new one", fs["changes"])


def changes(p, t, src):
    ns = splice(t.a[1]) if t.tag == "snap" else ()
    if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4]:
        return False
    pv = {n: vidx(p.prog, "PropValue", n) for n in ("Same", "Different")}
    ck, cv = fidx(p.prog, "PropertyInFinalState", "key"), fidx(p.prog, "PropertyInFinalState", "value")
    nk, nv = fidx(p.prog, "diff::PropChange", "name"), fidx(p.prog, "diff::PropChange", "value")
    seen = set()
    for q in ns[0].a[2]:
        its = splice(q.a[2])
        if loop_src(q) is not src or len(its) != 1 or its[0].tag != "item" or its[0].a[0].tag != "agg":
            return False
        e, x, f = mk("elem", q.a[3][0].a[0], src), its[0].a[0], factsdict(q.a[1])
        if x.a[2 + nk] is not fld(e, 0, ck):
            return False
        old, val = fld(e, 0, cv), x.a[2 + nv]
        which = [n for n, i in pv.items() if entails(f, disceq(old, i, 2), True)]
        if len(which) != 1:
            return False
        if which[0] == "Same" and val is not NONE or which[0] == "Different" and not (val.tag == "agg" and val.a[1] == 1 and val.a[2] is fld(old, pv["Different"], 0)):
            return False
        seen.add(which[0])
    return seen == set(pv)


def o_settext(p, st, kind, fs):
    p.say(kind == "SetText" and st.names(fs["path"], st.arg("SetText", "node_a"), []) and fs["text"] is st.arg("SetText", "text") and not st.moves and not st.partners,
          "a change of text becomes SetText with the path of the node and the text", st.result)


def o_delete(p, st, kind, fs):
    i = st.arg("Delete", "node_a")
    m = st.moves
    ok = kind == "Remove" and st.names(fs["node"], i, []) and not st.partners
    ok = ok and len(m) == 2 and m[0].tag == "link" and m[0].a[0] in ("before", "after") and m[0].a[1] is i and st.text(m[0].a[2]) and m[1].tag == "cut" and m[1].a[0] is i
    p.say(ok, "a deletion becomes Remove with the path of the node, and an empty text takes its place in the copy", st.result, m)


def o_insert(p, st, kind, fs):
    b, par = st.arg("Insert", "node_b"), st.partner(st.arg("Insert", "parent_b"))
    pos, k = st.arg("Insert", "position"), st.arg("Insert", "kind")
    if not p.say(par is not None, "an insertion goes below the counterpart of its parent", st.result):
        return
    new = [x for _, x in st.partners] if len(st.partners) == 1 and st.partners[0][0] is b else []
    if not p.say(len(new) == 1 and new[0] in st.nodes, "an inserted node is remembered as the counterpart of the new document's node", [x for y in st.partners for x in y]):
        return
    slot = fs.get("detach_to_slot", UNIT)
    why = put(st, st.moves, par, pos, new[0], slot, [])
    p.say(why is None, "an insertion changes the copy as its patch changes the document" + ("; " + why if why else ""), st.moves, slot)
    p.say("at" in fs and st.place(fs["at"], par, pos), "an insertion's patch names the place among the children of the counterpart", st.result)
    want = [n for n, i in p.hk.items() if entails(st.f, disceq(k, i, len(p.hk)), True)]
    ok = len(want) == 1 and kind == "Insert" + want[0]
    if ok and want[0] == "Element":
        at_, co = fs["attrs"], fs["children"]
        ok = fs["tag"] is fld(k, p.hk["Element"], 0) and at_.tag == "app" and at_.a[0] == "attrs_of" and at_.a[1] is b and at_.a[2] is P("tree_b") \
            and co.tag == "app" and co.a[0] == "content_of" and co.a[1:] == at_.a[1:] and co.a[3] in p.partner_later and same_set(co.a[4], p.inserts)
    elif ok:
        ok = text_of(st.f, fs["text"], b)
    p.say(ok, "an insertion's patch carries the tag, attributes and content, or the text, of the new document's node", st.result)


def same_set(t, u):
    return t is u


def text_of(f, t, b):
    """t is the text of the new document's node b, or empty if it has none"""
    x = app(D + "text", P("tree_b"), b)
    if chars(t) is chars(fld(x, 1, 0)):
        return entails(f, disceq(x, 1, 2), True)
    return (chars(t) is EMPTY or t.tag == "app" and t.a[0].endswith("Default::default")) and entails(f, disceq(x, 1, 2), False)


def o_move(p, st, kind, fs):
    i, b, par = st.arg("Move", "node_a"), st.arg("Move", "node_b"), st.partner(st.arg("Move", "new_parent_b"))
    pos = st.arg("Move", "new_position")
    if not p.say(par is not None, "a move goes below the counterpart of the new parent", st.result):
        return
    for l, u in st.f.items():
        if l.tag == "app" and l.a[0] == "above" and u is True and l.a[2] is i and st.same(l.a[3], par):
            return              # a node is never moved below itself: the operations are ordered from the root down
        if l.tag == "eq" and u is True and i in l.a:
            o = l.a[0] if l.a[1] is i else l.a[1]
            if o.tag == "sel" and o.a[1] is pos and any(n.tag == "cut" and n.a[0] is i for n in st.state(o.a[0].a[1]) or ()):
                return          # a node that was taken out stands nowhere
    has, up, _ = Climb(st.f).parent(i)
    root = False if has is False else Climb(st.f).is_root(up, p.sup) if has else None
    m = st.moves
    if root:
        pre = m[:1]
        ok = len(pre) == 1 and pre[0].tag == "cut" and pre[0].a[0] is i
    else:
        pre = m[:2]
        ok = root is False and len(pre) == 2 and pre[0].tag == "link" and pre[0].a[0] in ("before", "after") and pre[0].a[1] is i and st.text(pre[0].a[2]) and pre[1].tag == "cut" and pre[1].a[0] is i
    if not p.say(ok, "a moved node leaves an empty text in its place in the copy, unless it is the content of a slot", m):
        return
    slot = fs.get("detach_to_slot", UNIT)
    why = put(st, m[len(pre):], par, pos, i, slot, pre)
    p.say(why is None, "a move changes the copy as its patch changes the document" + ("; " + why if why else ""), m, slot)
    p.say(kind == "Move" and st.names(fs["from"], i, []) and st.place(fs["to"], par, pos), "a move's patch names the node where it was and the place among the children of the counterpart", st.result)
    p.say(all(x[0] is b and x[1] is i for x in st.partners), "a moved node stays the counterpart of its partner", [x for y in st.partners for x in y])


OPS = {"UpdateProperties": o_update, "SetText": o_settext, "Delete": o_delete, "Insert": o_insert, "Move": o_move}


def v_plan(rep, prog):
    p = Plan(rep, prog)
    res = outs(p.r)
    if not p.say(len(res) == 1 and res[0][1].tag == "agg" and res[0][1].a[1] == 0, "a plan is always made", *[v for _, v in res]):
        return
    s, v = res[0]
    ns = list(splice(v.a[2].a[1])) if v.a[2].tag == "snap" else []
    if not p.say(len(ns) == 2 and all(n.tag == "loop" and n.a[1] == "end" and not n.a[4] for n in ns), "the plan has the patches for the operations and then those for opaque nodes", v):
        return
    ops, opq = ns
    p.loop = ops.a[0]
    if not p.say(all(loop_src(q) is P("ops") for q in ops.a[2]), "every operation is turned into patches, in their order", ops):
        return
    # the copy: a root whose children are the slots, the first of which holds the old tree
    ar = list(splice(s.heap["arena"].a[1]))
    i = next((n for n, x in enumerate(ar) if x.tag == "loop"), len(ar))
    made = [x.a[0] for x in ar[:i] if x.tag == "node"]
    links = [x for x in ar[:i] if x.tag in ("link", "cut")]
    ok = len(made) == 2 and len(links) in (2, 3) and links[0].tag == "link" and links[0].a[0] == "append" and set(links[0].a[1:]) == set(made)
    if ok:
        p.sup, p.slot0 = links[0].a[1:]
        ok = links[-1] is mk("link", "append", p.slot0, p.root) and all(x.tag == "cut" and x.a[0] is p.root for x in links[1:-1])
    if not p.say(ok and len(ar) == i + 1 and ar[i].a[0] == p.loop, "the copy is the old tree in slot 0", ar):
        return
    # counterparts
    maps = {}
    for k, h in s.heap.items():
        if h.tag == "coll" and h.a[0] == "HashMap" and any(n.tag == "loop" and n.a[0] == p.loop for n in splice(h.a[1])):
            maps[k] = list(splice(h.a[1]))
    ok = len(maps) == 1
    if ok:
        mp = next(iter(maps.values()))
        mp = [n for n in mp if n.tag != "base"]
        ok = len(mp) == 2 and mp[0].tag == "loop" and mp[0].a[1] == "end" and not mp[0].a[4] and mp[1].tag == "loop"
        for q in mp[0].a[2] if ok else ():
            src, its = loop_src(q), splice(q.a[2])
            ok = ok and src is app("pairs", P("matching")) and len(its) == 1 and its[0].tag == "ins"
            if ok:
                e = mk("elem", q.a[3][0].a[0], src)
                ok = its[0].a[0] is fld(e, 0, 1) and its[0].a[1] is fld(e, 0, 0)
    if not p.say(ok, "the counterparts are at first the matched nodes", *[" ".join(show(n, 3) for n in m) for m in maps.values()]):
        return

    def by_key(loop):
        out = {}
        for q in loop.a[2]:
            out.setdefault(q.a[1], []).append(q)
        return out
    ak, bk, rk = by_key(ar[i]), by_key(mp[1]), by_key(ops)
    p.counters, p.partner_states, p.partner_later = set(), set(), set()
    for q in ops.a[2]:
        for t in [q.a[1]] + list(q.a[2]):
            for x in subterms(t):
                if x.tag == "phi" and x.a[0] == p.loop and x.a[2] is Int(1) and x in p.r.it.phi_iter:
                    p.counters.add(x)
                if x.tag == "snap" and x.a[0] == "HashMap":
                    xs = splice(x.a[1])
                    if xs and xs[0].tag == "base" and xs[0].a[0] == p.loop:
                        p.partner_later.add(x)
                        if len(xs) == 1:
                            p.partner_states.add(x)
    p.inserts = inserted_set(p, s)
    seen = {}
    for key, qs in rk.items():
        if not p.say(len(qs) == 1 and len(ak.get(key, [])) == 1 and len(bk.get(key, [])) == 1, "each way an operation is carried out is known", qs[0]):
            continue
        f = dict(factsdict(key))
        e = mk("elem", qs[0].a[3][0].a[0], P("ops"))
        arena = list(splice(ak[key][0].a[2]))
        partners = [(n.a[0], n.a[1]) if n.tag == "ins" else (n, n) for n in splice(bk[key][0].a[2])]
        st = Step(p, e, f, key, arena, list(splice(qs[0].a[2])), partners)
        op = [n for n in p.ops if st.is_op(n)]
        if not p.say(len(op) == 1, "operations are told apart", fshow(f)):
            continue
        if op[0] == "Move" and any(l.tag == "app" and l.a[0] == "above" and u is True for l, u in f.items()):
            continue            # a node is never moved below itself: the operations are ordered from the root down
        seen[op[0]] = seen.get(op[0], 0) + 1
        if not p.say(len(st.result) == 1 and st.result[0].tag == "item", "every operation becomes one patch", st.result):
            continue
        kind, fs = p.patch(st.result[0].a[0])
        OPS[op[0]](p, st, kind, fs)
        # the number of slots
        grown = len(st.slot_made())
        for c in p.counters:
            for choice, new, dl, _ in p.r.it.phi_iter[c]:
                if dl is key:
                    up = new is not None and new.tag == "bin" and new.a[0] == "Add" and Int(1) in new.a[1:] and c in new.a[1:]
                    p.say(grown == (1 if up else 0) and (up or new is None), "slots are numbered in the order they are made", new or UNIT, st.moves)
    p.say(set(seen) == set(p.ops), "all operations are carried out", str(seen))
    p.say(bool(p.counters), "slots are numbered", "")
    # opaque nodes
    for q in opq.a[2]:
        its = splice(q.a[2])
        src = loop_src(q)
        ok = src is P("opaque") and len(its) == 1 and its[0].tag == "item"
        if ok:
            e = mk("elem", q.a[3][0].a[0], src)
            kind, fs = p.patch(its[0].a[0])
            ok = kind == "OpaqueChanged" and chars(fs["content"]) is chars(fld(e, 0, 1))
            t = fs.get("path", UNIT)
            while t.tag == "agg" and len(t.a) == 3:
                t = t.a[2]
            xs = splice(t.a[1]) if t.tag == "snap" else (mk("copyof", t),)
            ok = ok and len(xs) == 1 and xs[0].tag == "copyof" and xs[0].a[0].tag == "app" and xs[0].a[0].a[0] == "path" and xs[0].a[0].a[2] is fld(e, 0, 0) \
                and list(splice(xs[0].a[0].a[1].a[1])) == ar
        p.say(ok, "every opaque node that changed gets its new content, at the path it has after all operations", q)


def inserted_set(p, s):
    """the set of nodes the operations insert"""
    for k, h in s.heap.items():
        if h.tag != "coll" or h.a[0] != "HashSet":
            continue
        ns = [n for n in splice(h.a[1]) if n.tag != "base"]
        if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4]:
            continue
        i, fs = p.ops["Insert"]
        ok = True
        for q in ns[0].a[2]:
            if loop_src(q) is not P("ops"):
                ok = False
                break
            e, f, its = mk("elem", q.a[3][0].a[0], P("ops")), factsdict(q.a[1]), splice(q.a[2])
            if its:
                ok = ok and len(its) == 1 and (its[0].a[0] is fld(e, i, fs.index("node_b"))) and f.get(disceq(e, i, 5)) is True
            else:
                ok = ok and f.get(disceq(e, i, 5)) is False
        if ok:
            return snap("HashSet", h.a[1])
    return None
