"""hotmeal's diffing: what insertions carry, and how a diff is put together."""
from term import *
from engine import *
from logic import *
from facts import splice, loop_src
from hot import *
from report import *
from roots import M
from chk_hot import Mirror, No, at, outs, same_list, uncast, DD, OAT
from chk_plan import typed, REVERSE

TREE = P("tree_b")
KEPT, PUT = P("counterparts"), P("inserted")


class Gain:
    """content to be inserted for nodes of a document or of a diff tree"""

    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog
        self.m = Mirror(prog)
        self.sh = self.m.sh
        self.k = {n: vidx(prog, "InsertContent", n) for n in ("Element", "Text", "Comment")}
        v = next(a for n, a in prog.adts.items() if n.endswith("diff::InsertContent"))["v"]
        self.f = {n: v[self.k["Element"]]["f"].index(n) for n in ("tag", "attrs", "children")}
        self.hk = self.m.k
        self.calls = set()

    def attrs_ok(self, v, src):
        """v lists the names and values of src in order"""
        an, av = fidx(self.prog, "AttrPair", "name"), fidx(self.prog, "AttrPair", "value")
        if v.tag != "snap":
            return False
        ns = splice(v.a[1])
        if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4] or not ns[0].a[2]:
            return False
        for p in ns[0].a[2]:
            if loop_src(p) is not src or len(p.a[2]) != 1 or p.a[2][0].tag != "item":
                return False
            e, x = mk("elem", p.a[3][0].a[0], src), p.a[2][0].a[0]
            if x.tag != "agg" or len(x.a) != 4 or chars(x.a[2 + an]) is not chars(fld(e, 0, 0)) or chars(x.a[2 + av]) is not chars(fld(e, 0, 1)):
                return False
        return True

    def kids_ok(self, f, v, n):
        """v lists the content of the children of n, in order"""
        src = self.children(n)
        if v.tag != "snap":
            return "the children are " + show(v, 4)
        ns = splice(v.a[1])
        if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4] or not ns[0].a[2]:
            return "not every child is looked at: " + show(v, 5)
        for p in ns[0].a[2]:
            if loop_src(p) is not src:
                return "it is not the node's children that are looked at"
            e = mk("elem", p.a[3][0].a[0], src)
            g = dict(f)
            g.update(factsdict(p.a[1]))
            if inconsistent(g):
                continue
            its = splice(p.a[2])
            if not its:
                if not self.skipped(g, e):
                    return "a child is left out: " + fshow(g, 5)
                continue
            if len(its) == 1 and its[0].tag == "copyof" and self.call(its[0].a[0], e):            # whatever the call gave: one piece, or nothing
                continue
            if len(its) != 1 or its[0].tag != "item" or self.skipped(g, e) is not False:
                return "not one piece of content for a child: " + " ".join(show(x, 4) for x in its)
            why = self.one(g, its[0].a[0], e)
            if why:
                return why
        return None

    def one(self, f, x, e):
        """x is the content that stands for node e"""
        if x.tag == "fld" and self.call(x.a[0], e) and (x.a[1], x.a[2]) == (1, 0):
            return None
        if x.tag != "agg" or not x.a[0].endswith("InsertContent"):
            return "the content of a child is " + show(x, 4)
        k = self.kind(f, e)
        if k is None or x.a[1] != self.k[k]:
            return "the content of a child is of another kind than the child: %s for %s" % (show(x, 3), k)
        if k == "Element":
            return self.element(f, e, *[x.a[2 + self.f[n]] for n in ("tag", "attrs", "children")])
        return None if self.text_ok(f, x.a[2], e, k) else "the text of a child is " + show(x.a[2], 5)


class OfDoc(Gain):
    def children(self, n):
        return app(D + "children", self.sh.doc, n)

    def kind(self, f, e):
        return self.sh.kind_of(f, e)

    def skipped(self, f, e):
        if self.kind(f, e) == "Document":
            return True
        for l, u in f.items():            # the call for it gave nothing
            if l.tag == "disceq" and l.a[1] == 1 and u is False and self.call(l.a[0], e):
                return "by induction"
        return False

    def call(self, t, e):
        if t.tag == "app" and t.a[0].startswith("rec:") and len(t.a) == 3 and t.a[1] is self.sh.doc and t.a[2] is e:
            self.calls.add(t.a[0][4:])
            return True
        return False

    def text_ok(self, f, v, e, k):
        return chars(v) is chars(self.sh.text(e, k))

    def element(self, f, e, tag, attrs, children):
        if chars(tag) is not chars(self.sh.tag(e)):
            return "the tag is " + show(tag, 5)
        if not self.attrs_ok(attrs, self.sh.attrs(e)):
            return "the attributes are " + show(attrs, 6)
        return self.kids_ok(f, children, e)


class OfTree(Gain):
    def q(self, what, n):
        return app(D + what, TREE, n)

    def children(self, n):
        return self.q("children", n)

    def kind(self, f, e):
        t = self.q("kind", e)
        for n, k in self.hk.items():
            if entails(f, disceq(t, k, 3), True):
                return n
        left = [n for n, k in self.hk.items() if not entails(f, disceq(t, k, 3), False)]
        return left[0] if len(left) == 1 else None

    def skipped(self, f, e):
        a, b = f.get(mk("haskey", KEPT, e)), f.get(mk("member", PUT, e))
        return True if a is True or b is True else False if a is False and b is False else None

    def call(self, t, e):
        if t.tag == "app" and t.a[0].startswith("rec:") and list(t.a[1:]) == [e if a is P("n") else a for a in self.args]:
            self.calls.add(t.a[0][4:])
            return True
        return False

    def text_ok(self, f, v, e, k):
        t = self.q("text", e)
        has = f.get(disceq(t, 1))
        if has is False:
            return chars(v) is EMPTY or v.tag == "app" and v.a[0].endswith("default")
        return has is True and chars(v) is chars(fld(t, 1, 0))

    def element(self, f, e, tag, attrs, children):
        if tag is not fld(self.q("kind", e), self.hk["Element"], 0):
            return "the tag is " + show(tag, 5)
        if self.both(attrs, children, e):
            return None
        if not self.attrs_ok(attrs, self.attrs(e)):
            return "the attributes are " + show(attrs, 6)
        return self.kids_ok(f, children, e)

    def attrs(self, e):
        return fld(self.q("properties", e), 0, self.m.attrs)

    def both(self, attrs, children, e):
        return attrs.tag == "fld" and children.tag == "fld" and attrs.a[0] is children.a[0] and self.call(attrs.a[0], e) and (attrs.a[2], children.a[2]) == (0, 1)


def patch_of(prog, t):
    ad = next(a for n, a in prog.adts.items() if n.endswith("diff::Patch"))
    if t.tag != "agg" or not t.a[0].endswith("diff::Patch"):
        return None, {}
    v = ad["v"][t.a[1]]
    return v["n"], dict(zip(v["f"], t.a[2:]))


def numbers(t):
    """the numbers of a path given as a list"""
    while t.tag == "agg" and len(t.a) == 3:
        t = t.a[2]
    if t.tag == "app" and t.a[0].endswith("SmallVec::from_vec"):
        t = t.a[1]
    if t.tag != "snap":
        return None
    ns = splice(t.a[1])
    return [uncast(n.a[0]) for n in ns] if all(n.tag == "item" for n in ns) else None


def v_content(rep, prog):
    # nodes of a document
    g = OfDoc(rep, prog)
    todo, done = ["hotmeal::diff::create_insert_content"], set()
    b = typed(prog, ["Document", "NodeId"], "Option<diff::InsertContent", "diff::create_insert_content")
    todo = [b]
    api = dict(HOT_API)
    while todo:
        b = todo.pop()
        if b["p"] in done:
            continue
        done.add(b["p"])
        r = HRoot(prog, b, [g.sh.doc, P("n")], matching=False, treeapi=False, extra=api)
        rep.use(r)
        kinds = set()
        for s, v in outs(r):
            k = g.kind(s.facts, P("n"))
            if v is NONE:
                rep.check(k == "Document", "content is made for every node but a document", at(b), fshow(s.facts, 4))
                continue
            kinds.add(k)
            why = "there is " + show(v, 3) if v.tag != "agg" or v.a[1] != 1 else g.one(s.facts, v.a[2], P("n"))
            rep.check(why is None, "the content made for a node is its kind, tag, attributes and children, or its text", at(b), why or "")
        rep.check(kinds == {"Element", "Text", "Comment"}, "content is made for every kind of node", at(b), str(kinds))
        for c in g.calls:
            todo += [x for x in prog.bodies.values() if x["local"] and prog.nname(x["p"]).endswith(c) and x["p"] not in done and "InsertContent" in prog.types[x["locals"][0][0]].get("s", "")]
    # a child of the new body
    b = typed(prog, ["Document", "NodeId", "usize"], "Result<diff::Patch", "diff::create_insert_patch")
    r = HRoot(prog, b, [g.sh.doc, P("n"), P("number")], matching=False, treeapi=False, extra=api)
    rep.use(r)
    kinds = set()
    for s, v in outs(r):
        k = g.kind(s.facts, P("n"))
        if v.tag == "agg" and v.a[1] == 1:
            rep.check(k == "Document", "a patch is made for every node but a document", at(b), fshow(s.facts, 4))
            continue
        kinds.add(k)
        p, fs = patch_of(prog, v.a[2]) if v.tag == "agg" else (None, {})
        ok = k is not None and p == "Insert" + k and fs["detach_to_slot"] is NONE and numbers(fs["at"]) == [Int(0), P("number")]
        rep.check(ok, "a child of a new body is put into slot 0 at its number, whatever stands there staying", at(b), show(v, 6))
        if ok:
            why = g.element(s.facts, P("n"), fs["tag"], fs["attrs"], fs["children"]) if k == "Element" else None if g.text_ok(s.facts, fs["text"], P("n"), k) else show(fs["text"], 4)
            rep.check(why is None, "the patch for a child of a new body carries all of it", at(b), why or "")
    rep.check(kinds == {"Element", "Text", "Comment"}, "a patch is made for every kind of node", at(b), str(kinds))
    # nodes of the new diff tree
    g = OfTree(rep, prog)
    b = typed(prog, ["NodeId", "&T", "HashMap", "HashSet"], "InsertContent", "diff::extract_content_from_tree_b")
    tys = [prog.types[b["locals"][i + 1][0]].get("s", "") for i in range(b["argc"])]
    g.args = [KEPT if "HashMap" in t else PUT if "HashSet" in t else P("n") if "NodeId" in t else TREE for t in tys]
    r = HRoot(prog, b, list(g.args), matching=False, treeapi=True, extra=api)
    rep.use(r)
    n = 0
    for s, v in outs(r):
        n += 1
        if not rep.check(v.tag == "agg" and len(v.a) == 4, "a new node's content is its attributes and children", at(b), show(v, 3)):
            continue
        rep.check(g.attrs_ok(v.a[2], g.attrs(P("n"))), "a new node gets its attributes, in order", at(b), show(v.a[2], 6))
        why = g.kids_ok(s.facts, v.a[3], P("n"))
        rep.check(why is None, "a new node gets all children that neither have a counterpart nor an insertion of their own, and no others", at(b), why or "")
    rep.check(n > 0, "content is taken from the new tree", at(b))


# ---- the whole ----------------------------------------------------------------
def asked(name):
    def f(it, st, args, ctx):
        return [(st, app(name, *[it.rv(st, a) for a in args]))]
    return f


def a_matching(it, st, args, ctx):
    rs = [it.rv(st, a) for a in args]
    st = st.copy()
    o = it.new_coll(st, ctx.site, "matching")
    it.push_node(st, o.a[0], mk("copyof", app("matching", *rs)))
    return [(st, o)]


def inner_root(it, st, args, ctx):
    """the root of the tree around it (the accessors have a rule of their own)"""
    return [(st, fld(fld(it.rv(st, args[0]), 0, 0), 0, fidx(it.p, CT, "root")))]


class Whole:
    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog
        b = self.b = typed(prog, ["Document", "Document"], "Result<std::vec::Vec<diff::Patch", "diff::diff")
        api = dict(HOT_API)
        for sig, ret, n, m in ((["Document", "NodeId", "usize"], "Result<diff::Patch", "diff::create_insert_patch", "insertion"),
                               (["Document"], "Tree<", "diff::build_tree_from_arena", "old_tree"),
                               (["Vec<cinereus::EditOp", "Vec<(cinereus::indextree::NodeId, stem::Stem", "cinereus::Tree<", "&T", "cinereus::Matching"], "Result<std::vec::Vec<diff::Patch", "convert_ops_with_shadow", "patches")):
            x = typed(prog, sig, ret, n)
            api[prog.nname(x["p"])] = asked(m)
            if m == "patches":
                tys = [prog.types[x["locals"][i + 1][0]].get("s", "") for i in range(x["argc"])]
                self.order = ["ops" if "EditOp" in t else "opaque" if "Stem" in t else "a" if "cinereus::Tree<" in t else "matching" if "Matching" in t else "b" for t in tys]
        api["hotmeal::dom::Document::body"] = asked("body")
        for x in prog.bodies.values():
            if x["local"] and x["n"] == "serialize_inner_html":
                api[prog.nname(x["p"])] = asked("inner")
            if x["local"] and x["kind"] == "fn" and x.get("self") is not None:
                adt = prog.types[x["self"]].get("p")
                if adt in (DD, OAT) and "DiffTree" in x["p"]:
                    api[prog.nname(x["p"])] = inner_root if adt == OAT and x["n"] == "root" else asked("t:" + x["n"])
                if adt == DD and x["n"] == "new":
                    api[prog.nname(x["p"])] = asked("new_tree")
        api["cinereus::compute_matching"] = a_matching
        api["cinereus::matching::compute_matching"] = a_matching
        for n in ("cinereus::generate_edit_script", "cinereus::chawathe::generate_edit_script"):
            api[n] = asked("script")
        self.r = HRoot(prog, b, [P("old"), P("new")], matching=True, treeapi=True, extra=api)
        rep.use(self.r)
        self.w = at(b)

    def say(self, ok, rule, *got):
        return self.rep.check(bool(ok), rule, self.w, " ".join(show(g, 6) if isinstance(g, T) else str(g) for g in got)[:900])


def v_diff(rep, prog):
    w = Whole(rep, prog)
    ba, bb = app("body", P("old")), app("body", P("new"))
    seen = set()
    for s, v in outs(w.r):
        a, b = s.facts.get(disceq(ba, 1)), s.facts.get(disceq(bb, 1))
        seen.add((a, b))
        ns = list(splice(v.a[2].a[1])) if v.tag == "agg" and v.a[1] == 0 and v.a[2].tag == "snap" else None
        if (a, b) == (True, True):
            together(w, s, v)
        elif a is False and b is False:
            w.say(ns == [], "two documents without a body have no difference", v)
        elif a is False and b is True:
            src = app(D + "children", P("new"), fld(bb, 1, 0))
            if ns is None:          # a child for which there is no patch
                t = next((l.a[0] for l, u in s.facts.items() if l.tag == "disceq" and u is True and l.a[0].tag == "app" and l.a[0].a[0] == "insertion"), None)
                w.say(t is not None and v.tag == "agg" and v.a[1] == 1, "it fails only if there is no patch for a child", v)
                continue
            ok = len(ns) == 1 and ns[0].tag == "loop" and ns[0].a[1] == "end"
            for p in ns[0].a[2] if ok else ():
                e = mk("elem", p.a[3][0].a[0], src)
                t = app("insertion", P("new"), e, mk("idx", e))
                its = splice(p.a[2])
                if p.a[0] == "break" or factsdict(p.a[1]).get(disceq(t, 1)) is True:
                    ok = ok and s.facts.get(disceq(t, 1)) is not True and not its and factsdict(p.a[1]).get(disceq(t, 1)) is True
                else:
                    ok = ok and loop_src(p) is src and len(its) == 1 and its[0].tag == "item" and its[0].a[0] is fld(t, 0, 0)
            w.say(ok, "a document that gets a body gets all of its children, in order", v)
        elif a is True and b is False:
            src = app(D + "children", P("old"), fld(ba, 1, 0))
            ok = bool(ns) and len(ns) == 1 and ns[0].tag == "loop" and ns[0].a[1] == "end" and not ns[0].a[4]
            for p in ns[0].a[2] if ok else ():
                its = splice(p.a[2])
                st = p.a[3][0].a[1]
                ok = ok and st.tag == "strev" and len(its) == 1 and its[0].tag == "item"
                if ok:
                    e = mk("elem", p.a[3][0].a[0], st)
                    k, fs = patch_of(prog, its[0].a[0])
                    nums = numbers(fs["node"]) if k == "Remove" else None
                    ok = nums is not None and len(nums) == 2 and nums[0] is Int(0) and reversed_number(nums[1], st, src, e)
            w.say(ok, "a document that loses its body loses all of its children, from the last to the first", v, *(ns or []))
        else:
            w.say(False, "whether the documents have bodies is looked at", fshow(s.facts, 3))
    w.say(seen == {(a, b) for a in (True, False) for b in (True, False)}, "documents with and without bodies are told apart", seen)
    v_html(rep, prog)


def reversed_number(n, st, src, e):
    """n is e's number in src, which is walked backwards"""
    x = st.a[0]
    if x is src or same_list(x, src):
        return n.tag == "idx" and n.a[0].tag == "elem" and n.a[0].a[0] == e.a[0]
    if x.tag == "range":
        return n is mk("elem", e.a[0], x) and x.a[0] is Int(0) and x.a[1] is mk("len", src)
    return False


def known_kinds(prog, f, ka, kb):
    """True if the kinds are known to be the same, False if known to differ"""
    if f.get(eq(ka, kb)) is not None:
        return f[eq(ka, kb)]

    def var(k, n):
        for i in range(n):
            if entails(f, disceq(k, i, n), True):
                return i
        left = [i for i in range(n) if not entails(f, disceq(k, i, n), False)]
        return left[0] if len(left) == 1 else None

    def same(a, b, n):
        va, vb = var(a, n), var(b, n)
        if None in (va, vb):
            no = [i for i in range(n) if {entails(f, disceq(x, i, n), True) for x in (a, b)} == {True, False} and any(entails(f, disceq(x, i, n), False) for x in (a, b))]
            return False if no else None
        return va == vb
    r = same(ka, kb, 3)
    el = vidx(prog, "HtmlNodeKind", "Element")
    if not r or var(ka, 3) != el:
        return r
    parts = []
    nns = len(next(a for n, a in prog.adts.items() if n.endswith("::Namespace"))["v"])
    for i in range(2):
        u = f.get(eq(fld(ka, el, i), fld(kb, el, i)))
        parts.append(u if u is not None else same(fld(ka, el, i), fld(kb, el, i), nns))
    return False if False in parts else True if None not in parts else None


def together(w, s, v):
    prog, f = w.prog, s.facts
    oat = next((x for x in subterms(v) if x.tag == "agg" and x.a[0] == OAT), None)
    if v.tag == "agg" and v.a[1] == 1:
        w.say(f.get(disceq(app("new_tree", P("new")), 1)) is True, "it fails only if there is no tree of the new document", v)
        return
    if not w.say(v.tag == "app" and v.a[0] == "patches", "the patches are those made of an edit script", v):
        return
    arg = dict(zip(w.order, v.a[1:]))
    ta, tb = app("old_tree", P("old")), fld(app("new_tree", P("new")), 0, 0)
    ok = oat is not None and oat.a[2] is ta and arg["a"] is ta and arg["b"] is tb
    if not w.say(ok, "the trees are those of the old and of the new document", arg["a"], arg["b"]):
        return
    m = arg["matching"]
    ops = arg["ops"]
    w.say(ops.tag == "app" and ops.a[0] == "script" and ops.a[1] is oat and ops.a[2] is tb and ops.a[3] is m, "the edit script is from the old to the new tree, by the matching the patches are made with", ops)
    ns = list(splice(m.a[1])) if m.tag == "snap" else []
    ok = bool(ns) and ns[0].tag == "copyof" and ns[0].a[0].a[0] == "matching" and ns[0].a[0].a[1] is oat and ns[0].a[0].a[2] is tb
    if not w.say(ok, "the matching is that of the old and the new tree", m):
        return
    cfg = ns[0].a[0].a[3]
    w.say(config(prog, cfg), "the smallest subtrees are matched too, everything else being as cinereus has it", cfg)
    ra = fld(ta, 0, fidx(prog, CT, "root"))
    rb = app("t:root", tb)
    ka = [x for x in {y for l in f for y in subterms(l)} if x.tag == "app" and x.a[0] == "t:kind" and x.a[1:] == (oat, ra)
          or x.tag == "fld" and x.a[0].tag == "app" and x.a[0].a[0] == "data" and x.a[0].a[1] is ta and x.a[0].a[2] is ra and x.a[2] == fidx(prog, CND, "kind")]
    same = known_kinds(prog, f, ka[0], app("t:kind", tb, rb)) if ka else None
    before = snap("matching", (ns[0],))
    matched = f.get(disceq(app("get_b", before, ra), 1))
    if len(ns) == 1:
        w.say(matched is True or same is False or f.get(disceq(app("get_a", before, rb), 1)) is True, "the bodies are partners if they are of one kind", fshow(f, 4))
    else:
        pair = ns[1].a[0] if ns[1].tag == "item" else UNIT
        w.say(len(ns) == 2 and pair.tag == "agg" and pair.a[2:] == (ra, rb) and matched is False and same is True, "nothing is added to the matching but the bodies, if they are of one kind and not matched", *ns[1:])
    opaque(w, s, arg["opaque"], oat, tb, m)


def config(prog, c):
    if c.tag == "upd":
        return c.a[2] == fidx(prog, "MatchingConfig", "min_height") and c.a[3] is Int(0) and c.a[0].tag == "app" and c.a[0].a[0].endswith("default")
    if c.tag != "agg":
        return False
    mh = fidx(prog, "MatchingConfig", "min_height")
    for i, x in enumerate(c.a[2:]):
        if i == mh:
            if x is not Int(0):
                return False
        elif not (x.tag == "fld" and x.a[2] == i and x.a[0].tag == "app" and x.a[0].a[0].endswith("default")):
            return False
    return True


def opaque(w, s, v, oat, tb, m):
    """what is sent of the content of opaque nodes"""
    ns = list(splice(v.a[1])) if v.tag == "snap" else []
    if not w.say(len(ns) == 1 and ns[0].tag == "loop" and ns[0].a[1] == "end" and not ns[0].a[4], "every pair of partners is looked at for opaque content", v):
        return
    src = app("pairs", m)
    for p in ns[0].a[2]:
        if not w.say(loop_src(p) is src, "every pair of partners is looked at for opaque content", p):
            continue
        e = mk("elem", p.a[3][0].a[0], src)
        f = factsdict(p.a[1])
        x, y = fld(e, 0, 0), fld(e, 0, 1)
        oa, ob = app("t:is_opaque", oat, x), app("t:is_opaque", tb, y)
        known = lambda t: f.get(t) if f.get(t) is not None else (entails(f, t, True) or (False if entails(f, t, False) else None))   # noqa: E731
        ua, ub = known(oa), known(ob)
        e_ = f.get(eq(oa, ob))
        if e_ is not None:
            ua = ua if ua is not None or ub is None else (ub if e_ else not ub)
            ub = ub if ub is not None or ua is None else (ua if e_ else not ua)
        if e_ is not None and None not in (ua, ub) and e_ is not (ua is ub):
            continue
        ha = f.get(eq(app("t:hash", oat, x), app("t:hash", tb, y)))
        its = splice(p.a[2])
        if not its:
            same = ua is True and ub is True and ha is True and attrs_same(w, p, f, oat, tb, x, y)
            w.say(ua is False and ub is False or same, "content is left out only if the nodes are not opaque, or equal in content and in the attributes below", p)
            continue
        it = its[0].a[0]
        ok = len(its) == 1 and its[0].tag == "item" and it.tag == "agg" and it.a[2] is x and chars(it.a[3]) is app("inner", P("new"), y)
        w.say(ok and (ua is True or ub is True), "what is sent is the new content of an opaque node, or of one that was", p)
        w.say(ua is not ub and None not in (ua, ub) or ha is False or attrs_differ(w, f, oat, tb), "content is sent only if it changed", p)


def strictly_below(t, tree, n):
    """t: the nodes below n in tree, without n"""
    if t.tag == "app" and t.a[0].endswith("index::index"):
        lo = t.a[2]
        return t.a[1] is app("t:descendants", tree, n) and lo.tag == "agg" and len(lo.a) == 3 and lo.a[2] is Int(1)
    if t.tag == "app" and t.a[0] == "t:descendants":
        return t.a[1] is tree and t.a[2] is n
    return False


def zip_of(q, oat, tb, x, y):
    """the two trees if q looks at the nodes below x and y side by side, without x and y themselves"""
    st, below = q.a[3][0].a[1], strictly_below
    if st.tag == "stskip" and st.a[0].tag == "stzip":
        one = [u for l, u in factsdict(q.a[1]).items() if l.tag == "beyond" and l.a[1] is Int(1)]
        if not one:
            return None
        st, below = st.a[0], lambda t, tree, n: t is app("t:descendants", tree, n)
    if st.tag != "stzip":
        return None
    a, b = (q.a[0] if q.tag == "src" else q for q in st.a[:2])
    if below(a, oat, x) and below(b, tb, y):
        return (oat, tb)
    if below(b, oat, x) and below(a, tb, y):
        return (tb, oat)
    return None


def attrs_eq(prog, l, q, zs):
    """l: the attributes of the two nodes are equal"""
    i = fidx(prog, "diff::HtmlProps", "attrs")

    def attrs_of(z, t):
        if z.tag == "fld" and z.a[1:] == (0, i):
            z = z.a[0]
        return z.tag == "app" and z.a[0] == "t:properties" and z.a[1] is t and z.a[2].tag == "elem"
    return l.tag == "eq" and (attrs_of(l.a[0], zs[0]) and attrs_of(l.a[1], zs[1]) or attrs_of(l.a[1], zs[0]) and attrs_of(l.a[0], zs[1]))


def attrs_same(w, p, f, oat, tb, x, y):
    for l, u in f.items():
        if l.tag == "forall" and u is True and l.a[1]:
            ok, n = True, 0
            for q in l.a[1]:
                zs = zip_of(q, oat, tb, x, y)
                g = factsdict(q.a[1])
                if zs is not None and any(l2.tag == "beyond" and u2 is False for l2, u2 in g.items()):
                    continue            # the two nodes themselves
                n += 1
                ok = ok and zs is not None and any(u2 is True and attrs_eq(w.prog, l2, q, zs) for l2, u2 in g.items())
            if ok and n:
                return True
    return False


def attrs_differ(w, f, oat, tb):
    return any(u is False and attrs_eq(w.prog, l, None, (oat, tb)) for l, u in f.items())


def v_html(rep, prog):
    b = typed(prog, ["Tendril", "Tendril"], "Result<std::vec::Vec<diff::Patch", "diff::diff_html")
    d = typed(prog, ["Document", "Document"], "Result<std::vec::Vec<diff::Patch", "diff::diff")
    api = dict(HOT_API)
    api["hotmeal::dom::parse"] = asked("parse")
    api[prog.nname(d["p"])] = asked("diff")
    r = HRoot(prog, b, [P("old"), P("new")], matching=False, treeapi=False, extra=api)
    rep.use(r)
    for s, v in outs(r):
        rep.check(v is app("diff", app("parse", P("old")), app("parse", P("new"))), "texts are parsed and the documents diffed, the old against the new", at(b), show(v, 4))
