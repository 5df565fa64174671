"""hotmeal's diffing: the trees documents are compared as."""
from term import *
from engine import *
from logic import *
from facts import splice, loop_src
from hot import *
from report import *
import chk_tree as CT_
from chk_dom import Shape, No, known_bodies, no_body, merged

HK, HP, DND = "hotmeal::diff::HtmlNodeKind", "hotmeal::diff::HtmlProps", "hotmeal::diff::DiffNodeData"
DIFF = "hotmeal::diff::"


def at(b):
    return "%s (%s)" % (short(b["p"]), b.get("span", ""))


def outs(r):
    return [(s, r.it.rv(s, v)) for s, v in r.outs if not inconsistent(s.facts)]


def fn(prog, name):
    b = prog.fn(DIFF + name)
    if b is None:
        raise Unsupported("function not found: " + name)
    return b


def run(rep, prog, b, args, heap=None, extra=None, facts=None):
    api = dict(HOT_API)
    api.update(extra or {})
    r = HRoot(prog, b, args, matching=False, treeapi=False, heap=heap, extra=api, facts=facts)
    rep.use(r)
    return r


class Mirror:
    """what a diff tree's node must hold for a document's node"""

    def __init__(self, prog):
        self.prog = prog
        self.sh = Shape(prog)
        self.k = {n: vidx(prog, "HtmlNodeKind", n) for n in ("Element", "Text", "Comment")}
        self.attrs = fidx(prog, HP, "attrs")
        self.html = vidx(prog, "Namespace", "Html")

    def names(self, f, kind, i):
        """kind is that of the document's node i"""
        k = self.sh.kind_of(f, i)
        if k not in self.k or kind.tag != "agg" or kind.a[1] != self.k[k]:
            return False
        return k != "Element" or chars(kind.a[2]) is chars(self.sh.tag(i)) and kind.a[3] is fld(self.sh.data(i), 0, self.sh.nsf)

    def props(self, f, props, i):
        if props.tag != "agg":
            return False
        a = props.a[2 + self.attrs]
        if self.sh.kind_of(f, i) == "Element":
            return same_list(a, self.sh.attrs(i))
        return a.tag == "snap" and not a.a[1]

    def text(self, f, text, i):
        k = self.sh.kind_of(f, i)
        if k == "Element":
            return text is NONE
        return text.tag == "agg" and text.a[1] == 1 and chars(text.a[2]) is chars(self.sh.text(i, k))


def same_list(v, src):
    """v lists what src lists, in the same order"""
    if v is src:
        return True
    if v.tag != "snap":
        return False
    ns = splice(v.a[1])
    if len(ns) == 1 and ns[0].tag == "copyof":
        return ns[0].a[0] is src
    if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4] or len(ns[0].a[2]) != 1:
        return False
    p = ns[0].a[2][0]
    if loop_src(p) is not src or len(p.a[2]) != 1 or p.a[2][0].tag != "item":
        return False
    e = mk("elem", p.a[3][0].a[0], src)
    x = p.a[2][0].a[0]
    return x is e or x.tag == "agg" and x.a[0] == "tuple" and all(chars(y) is chars(fld(e, 0, n)) for n, y in enumerate(x.a[2:]))


class Grow:
    """additions to a diff tree: one node per node of the document, in order"""

    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog
        self.m = Mirror(prog)
        self.nd = {n: 2 + fidx(prog, CND, n) for n in ("hash", "kind", "properties", "text")}
        self.todo, self.roles = [], {}

    def data(self, f, d, i):
        if d.tag != "agg" or len(d.a) != 6:
            raise No("a node is made of " + show(d, 4))
        for what, ok in (("kind", self.m.names(f, d.a[self.nd["kind"]], i)), ("attributes", self.m.props(f, d.a[self.nd["properties"]], i)),
                         ("text", self.m.text(f, d.a[self.nd["text"]], i))):
            if not ok:
                raise No("the %s of a node differ from the document's: %s" % (what, show(d, 6)))

    def children(self, f, nodes, i, parent):
        """nodes is what adds the children of the document's node i below parent"""
        if len(nodes) != 1 or nodes[0].tag != "loop" or nodes[0].a[1] != "end" or nodes[0].a[4]:
            raise No("not every child is added: " + " ".join(show(n, 3) for n in nodes)[:300])
        for p in nodes[0].a[2]:
            src = loop_src(p)
            if src is not app(D + "children", self.m.sh.doc, i):
                raise No("what is added is not the children of the node, but " + (show(src, 5) if src is not None else "?"))
            e = mk("elem", p.a[3][0].a[0], src)
            g = merged(f, p)
            k = self.m.sh.kind_of(g, e)
            ns = splice(p.a[2])
            if k == "Document" and not ns:
                continue
            if k is None:
                raise No("what is added does not depend on the kind of node")
            if len(ns) < 2 or ns[0].tag != "node" or ns[1].tag != "link" or ns[1].a[0] != "append" or ns[1].a[1] is not parent or ns[1].a[2] is not ns[0].a[0]:
                raise No("a %s node is not appended to its parent: %s" % (k, " ".join(show(n, 3) for n in ns)[:300]))
            self.data(g, ns[0].a[1], e)
            if k == "Element":
                self.below(g, ns[2:], e, ns[0].a[0])
            elif ns[2:]:
                raise No("something is added below a %s node" % k)

    def below(self, f, ns, e, node):
        if len(ns) == 1 and ns[0].tag == "rec":
            args = ns[0].a[1]
            role = tuple("node" if x is node else "src" if x is e else "doc" if x is self.m.sh.doc else "tree" if x.tag == "agg" and x.a[0].endswith("Tree") else "?" for x in args)
            if sorted(role) != ["doc", "node", "src", "tree"]:
                raise No("the children are added from other nodes: " + ", ".join(show(x, 4) for x in args))
            if (ns[0].a[0], role) not in self.roles:
                self.roles[ns[0].a[0], role] = 1
                self.todo.append((ns[0].a[0], role))
            return
        self.children(f, ns, e, node)

    def finish(self):
        n = 0
        while self.todo:
            name, role = self.todo.pop()
            b = self.prog.fn(name)
            val = {"node": P("node"), "src": P("src"), "doc": self.m.sh.doc, "tree": mk("ref", ("O", "tree"), ())}
            t = [None, None]
            t[fidx(self.prog, CT, "arena")], t[fidx(self.prog, CT, "root")] = mk("obj", "arena"), P("root")
            r = run(self.rep, self.prog, b, [val[x] for x in role],
                    {"arena": mk("coll", "arena", (mk("base", "^", "arena", (), "past"),)), "tree": mk("cell", agg(CT, 0, *t))})
            for s, v in outs(r):
                n += 1
                ns = splice(s.heap["arena"].a[1])
                self.judge("a node's children are added below it, in order, with their kind, attributes and text", at(b),
                           lambda: self.children(s.facts, [x for x in ns if x.tag != "base"], P("src"), P("node")))
        return n

    def judge(self, rule, where, f):
        try:
            f()
            self.rep.check(True, rule, where)
        except No as e:
            self.rep.fail(rule, where, str(e))

    def hashes(self, n, before):
        """n sets the hash of every node, children first, from its kind, its text and its children's hashes"""
        if n.tag != "loop" or n.a[1] != "end" or n.a[4]:
            raise No("not every node gets its hash")
        for p in n.a[2]:
            src = loop_src(p)
            if src is None or src.tag != "app" or src.a[0] != D + "post_order" or not (src.a[1].tag == "snap" and splice(src.a[1].a[1]) == before):
                raise No("hashes are not computed children first: " + (show(src, 5) if src is not None else "?"))
            e = mk("elem", p.a[3][0].a[0], src)
            ns = splice(p.a[2])
            if len(ns) != 1 or ns[0].tag != "set" or ns[0].a[0] is not e:
                raise No("what is set is not the hash of the node: " + " ".join(show(x, 3) for x in ns)[:300])
            d = ns[0].a[1]
            if d.tag != "upd" or d.a[1:3] != (0, self.nd["hash"] - 2) or not node_data(d.a[0], e):
                raise No("something else than the hash of the node is changed: " + show(d, 4))
            self.digest(factsdict(p.a[1]), d.a[3], d.a[0])

    def digest(self, f, h, d):
        t = d.a[1]
        src = app(D + "children", t, d.a[2])
        hash_of = lambda x: fld(fld(x, 0, self.nd["hash"] - 2), 0, 0)           # noqa: E731
        digest(self.m, f, h, fld(d, 0, self.nd["kind"] - 2), fld(d, 0, self.nd["text"] - 2), src,
               lambda e, x: x.tag == "fld" and any(x is hash_of(y) and node_data(y, e) for y in subterms(x) if y.tag == "app"))


def node_data(d, e):
    return d.tag == "app" and d.a[0] == "data" and d.a[2] is e and d.a[1].tag == "snap" and all(x.tag in ("base", "set") for x in d.a[1].a[1])


def digest(m, f, h, kind, text, src, is_child_hash):
    """h digests kind, text (if any) and the children's hashes in order, and nothing else"""
    if h.tag == "agg":
        h = h.a[2]
    if h.tag != "app" or h.a[0] != "digest" or h.a[1].tag != "snap":
        raise No("a hash is " + show(h, 4))
    K = m.k["Element"]
    el = entails(f, disceq(kind, K, 3), True)
    if not el and not entails(f, disceq(kind, K, 3), False):
        raise No("the hash does not depend on the kind")
    want = {"kind"} | ({"tag", "namespace"} if el else set())
    has = entails(f, disceq(text, 1), True)
    if has:
        want.add("text")
    elif not entails(f, disceq(text, 1), False):
        raise No("the hash does not depend on the text")
    got = []
    for n in splice(h.a[1].a[1]):
        if n.tag == "loop" and n.a[1] == "end" and not n.a[4] and all(children_hash(p, src, is_child_hash) for p in n.a[2]):
            got.append("children")
        elif n.tag == "item":
            got.append(part_of(n.a[0], kind, text, K))
        else:
            raise No("the hash depends on " + show(n, 4))
        if got[-1] is None:
            raise No("the hash depends on " + show(n, 6))
    miss = (want | {"children"}) - set(got)
    if miss:
        raise No("the hash does not depend on the %s" % ", ".join(sorted(miss)))


def part_of(x, kind, text, K):
    if x.tag == "disc":
        return "kind" if x.a[0] is kind else "namespace" if x.a[0] is fld(kind, K, 1) else None
    c = chars(x)
    if c is chars(fld(kind, K, 0)):
        return "tag"
    if c is chars(fld(text, 1, 0)):
        return "text"
    return "namespace" if x is fld(kind, K, 1) else None


def children_hash(p, src, is_child_hash):
    if loop_src(p) is src and not p.a[2]:                       # a child that is not in the map has no hash
        return [w for l, w in factsdict(p.a[1]).items() if l.tag == "haskey" and l.a[1].tag == "elem" and l.a[1].a[1] is src] == [False]
    return loop_src(p) is src and len(p.a[2]) == 1 and p.a[2][0].tag == "item" and is_child_hash(mk("elem", p.a[3][0].a[0], src), p.a[2][0].a[0])


def v_mirror(rep, prog):
    g = Grow(rep, prog)
    sh = g.m.sh
    b = fn(prog, "build_tree_from_arena")
    r = run(rep, prog, b, [sh.doc])
    seen = set()
    for s, v in outs(r):
        f = s.facts
        if v.tag != "agg" or not v.a[0].endswith("Tree"):
            rep.fail("a tree is built", at(b), show(v, 4))
            continue
        ar, root = v.a[2 + fidx(prog, CT, "arena")], v.a[2 + fidx(prog, CT, "root")]
        ns = splice(ar.a[1])
        bodies = list(known_bodies(f, sh))

        def top():
            if not ns or ns[0].tag != "node" or ns[0].a[0] is not root:
                raise No("the tree does not start with its root")
            d = ns[0].a[1]
            if bodies:
                seen.add("body")
                g.data(f, d, bodies[0])
                g.below(f, ns[1:-1], bodies[0], root)
            elif no_body(f, sh):
                seen.add("none")
                k = d.a[g.nd["kind"]]
                ok = k.tag == "agg" and k.a[1] == g.m.k["Element"] and chars(k.a[2]) is mk("str", '"body"') and k.a[3].tag == "agg" and k.a[3].a[1] == g.m.html \
                    and d.a[g.nd["text"]] is NONE and d.a[g.nd["properties"]].a[2 + g.m.attrs] is snap("Vec", ())
                if not ok or len(ns) != 2:
                    raise No("a document without a body is not an empty body: " + show(d, 5))
            else:
                raise No("it is not known which body is meant")
        g.judge("the diff tree of a document mirrors its body: one node per node, in order, with its kind, attributes and text", at(b), top)
        g.judge("a node's hash is made of its kind, its text and its children's hashes in order, and of nothing else", at(b),
                lambda: g.hashes(ns[-1], ns[:-1]))
    rep.check(seen == {"body", "none"}, "documents with and without a body are handled", at(b), str(seen))
    n = g.finish()
    rep.check(n >= 1, "the functions that add nodes are judged", at(b))


# ---- the wrappers a diff compares ---------------------------------------------
DD, OAT = "hotmeal::diff::DiffableDocument", "hotmeal::diff::OpaqueAwareTree"
SELF, ID = P("self"), P("id")
OPAQUE = mk("str", '"data-hotmeal-opaque"')


def post_order_of(prog, rep, v, arena, root, w, done={}):
    """v is an iterator over everything from root on, children before their parents"""
    if v.tag == "st":
        return False
    if v.tag != "agg" or not prog.adts.get(v.a[0], {}).get("local"):
        return False
    st = [x for x in v.a[2:] if x.tag == "snap"]
    ok = len(st) == 1 and all(x is st[0] or x is arena for x in v.a[2:])
    if ok:
        b = CT_.one(prog, v.a[0], "next", "Iterator")
        rest = [T_ARENA if x is arena else x for x in v.a[2:]]
        CT_.stack_machine(rep, prog, None, None, subst(agg(v.a[0], 0, *rest), {root.id: ROOT_}), ROOT_, b, run=lambda args, heap: run(rep, prog, b, args, heap))
    return ok


T_ARENA, ROOT_ = fld(CT_.T, 0, 0), P("from")


def rises(it, h, kids, height):
    """h starts at 0 and is raised to one more than the height of every child there is"""
    fin = it.phi_final.get(h, {}).get(h.a[2])
    if h.a[2] is not Int(0) or fin is None or fin.a[2] or not fin.a[1]:
        return False
    prev, lid = mk("prev", h), h.a[0]

    def above(c, x):
        return x.tag == "bin" and x.a[0] == "Add" and Int(1) in x.a[1:] and height(c, x.a[1] if x.a[2] is Int(1) else x.a[2])
    for x, f in it.phi[h]:
        if x is Int(0) and not f:
            continue
        e = mk("elem", lid + "'" + lid, kids)
        has = [w for l, w in f.items() if l.tag == "haskey" and l.a[1] is e]
        up = entails(f, lt(prev, x), True) or x is Int(1) and entails(f, eq(prev, Int(0)), True)
        if not up or not (has == [True] and above(e, x) or has == [False] and x is Int(1)):
            return False
    for p in fin.a[1]:
        if loop_src(p) is not kids:
            return False
        e, f = mk("elem", p.a[3][0].a[0], kids), factsdict(p.a[1])
        has = [w for l, w in f.items() if l.tag == "haskey" and l.a[1] is e]
        if has == [False]:
            continue
        if has != [True] or not any(l.tag == "lt" and (u is False and l.a[0] is h and above(e, l.a[1]) or u is True and l.a[1] is h and above(e, l.a[0])) for l, u in f.items()):
            return False                                                        # it stays as it is although it may be lower
    return True


def height_of(f, h, kids, height, it=None):
    """h is one more than the highest child's height, 0 without children"""
    n = mk("len", kids)
    if it is not None and h.tag == "phi" and h in it.phi:
        return rises(it, h, kids, height)
    if entails(f, eq(n, Int(0)), True):
        return h is Int(0)
    if not entails(f, eq(n, Int(0)), False):
        return False
    if h.tag == "bin" and h.a[0] == "Add" and Int(1) in h.a[1:]:
        m = h.a[1] if h.a[2] is Int(1) else h.a[2]
        if m.tag == "app" and m.a[0] == "reduce::max" and m.a[1].tag == "snap":
            return listed(m.a[1], kids, height)
        return False
    # no child is in the map
    return h is Int(1) and any(l.tag == "eq" and v is True and Int(0) in l.a and any(x.tag == "len" and listed(x.a[0], kids, height) for x in l.a) for l, v in f.items())


def listed(v, kids, height):
    """the heights of the children"""
    if v.tag != "snap":
        return False
    ns = splice(v.a[1])
    if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4]:
        return False
    for p in ns[0].a[2]:
        if loop_src(p) is not kids:
            return False
        e = mk("elem", p.a[3][0].a[0], kids)
        has = [w for l, w in factsdict(p.a[1]).items() if l.tag == "haskey" and l.a[1] is e]
        if has == [False]:
            if p.a[2]:
                return False
        elif len(p.a[2]) != 1 or p.a[2][0].tag != "item" or not height(e, p.a[2][0].a[0]):
            return False
    return True


def v_diffable(rep, prog):
    m = Mirror(prog)
    sh = m.sh
    b = next((x for x in prog.bodies.values() if x["local"] and x["n"] == "new" and x.get("self") is not None and prog.types[x["self"]].get("p") == DD), None)
    if b is None:
        raise Unsupported("DiffableDocument::new not found")
    r = run(rep, prog, b, [sh.doc])
    F = {n: 2 + fidx(prog, DND, n) for n in ("hash", "kind", "props", "text", "height", "position")}
    G = {n: fidx(prog, DD, n) for n in ("doc", "body_id", "nodes")}
    seen = set()
    for s, v in outs(r):
        f = s.facts
        body = next(iter(known_bodies(f, sh)), None)
        if v.tag != "agg" or v.a[1] == 1:
            seen.add("none")
            rep.check(body is None and no_body(f, sh), "an error is only returned for a document without a body", at(b), fshow(f, 4))
            continue
        seen.add("body")
        d = v.a[2]
        if not rep.check(body is not None and d.tag == "agg" and d.a[2 + G["doc"]] is sh.doc and d.a[2 + G["body_id"]] is body, "the tree is the document's, from its body on", at(b), show(v, 4)):
            continue
        nodes = splice(d.a[2 + G["nodes"]].a[1]) if d.a[2 + G["nodes"]].tag == "snap" else ()
        if not rep.check(len(nodes) == 2 and all(n.tag == "loop" and n.a[1] == "end" and not n.a[4] for n in nodes), "all nodes are entered, then all get hash and height", at(b), show(v, 5)):
            continue
        try:
            entered(m, f, nodes[0], body, F)
            rep.check(True, "every node below the body is entered with its kind, attributes and text", at(b))
        except No as e:
            rep.fail("every node below the body is entered with its kind, attributes and text", at(b), str(e))
        for p in nodes[1].a[2]:
            src = loop_src(p)
            if src is None or not post_order_of(prog, rep, src, fld(sh.doc, 0, sh.docf["arena"]), body, at(b)):
                rep.fail("hashes and heights are computed children first", at(b), show(src, 5) if src is not None else "?")
                break
        for p in nodes[1].a[2]:
            try:
                computed(m, factsdict(p.a[1]), p, F, r.it)
                rep.check(True, "hash and height of a node are made of its kind, text and children", at(b))
            except No as e:
                rep.fail("hash and height of a node are made of its kind, text and children", at(b), str(e))
    rep.check(seen == {"none", "body"}, "documents with and without a body are handled", at(b), str(seen))
    accessors(rep, prog, m, F, G)


def entered(m, f, n, body, F):
    for p in n.a[2]:
        src = loop_src(p)
        if src is not app(D + "descendants", m.sh.doc, body):
            raise No("what is entered is not what lies below the body, but " + (show(src, 5) if src is not None else "?"))
        e = mk("elem", p.a[3][0].a[0], src)
        g = merged(f, p)
        k = m.sh.kind_of(g, e)
        ns = splice(p.a[2])
        if k == "Document" and not ns:
            continue
        if k is None or len(ns) != 1 or ns[0].tag != "ins" or ns[0].a[0] is not e or ns[0].a[1].tag != "agg":
            raise No("a %s node is not entered: %s" % (k, " ".join(show(x, 3) for x in ns)[:300]))
        d = ns[0].a[1]
        for what, ok in (("kind", m.names(g, d.a[F["kind"]], e)), ("attributes", m.props(g, d.a[F["props"]], e)), ("text", m.text(g, d.a[F["text"]], e)),
                         ("position", d.a[F["position"]] in (NONE, mk("cellv", NONE)))):
            if not ok:
                raise No("the %s of a node is %s" % (what, show(d, 5)))


def computed(m, f, p, F, it):
    src = loop_src(p)
    e = mk("elem", p.a[3][0].a[0], src)
    ns = splice(p.a[2])
    has = [w for l, w in f.items() if l.tag == "haskey" and l.a[1] is e]
    if not ns:
        if has != [False]:
            raise No("a node gets no hash")
        return
    if any(n.tag != "kvset" or n.a[0] is not e for n in ns):
        raise No("another node is changed: " + " ".join(show(x, 3) for x in ns)[:300])
    d = ns[-1].a[1]
    got = {}
    while d.tag == "upd":
        got.setdefault(2 + d.a[2], d.a[3])
        d = d.a[0]
    if d.tag != "mapget" or d.a[1] is not e or set(got) != {F["hash"], F["height"]}:
        raise No("what is set is not the hash and the height: " + show(ns[-1].a[1], 4))
    kids = app(D + "children", m.sh.doc, e)

    def part(x, name):
        return fld(mk("mapget", d.a[0], x), 0, F[name] - 2)
    if not height_of(f, got[F["height"]], kids, lambda c, x: x is part(c, "height"), it):
        raise No("the height is " + show(got[F["height"]], 6))
    digest(m, f, got[F["hash"]], part(e, "kind"), part(e, "text"), kids, lambda c, x: x is fld(part(c, "hash"), 0, 0))


def accessors(rep, prog, m, F, G):
    doc, body, nodes = (fld(SELF, 0, G[n]) for n in ("doc", "body_id", "nodes"))
    inner = fld(SELF, 0, 0)
    ent = mk("mapget", nodes, ID)
    there = {mk("haskey", nodes, ID): True}
    kids = lambda t, x: app(D + "children", t, x)                        # noqa: E731
    n = 0
    for b in sorted((x for x in prog.bodies.values() if x["local"] and x["kind"] == "fn" and "DiffTree" in x["p"] and x.get("self") is not None), key=lambda x: x["p"]):
        adt = prog.types[b["self"]].get("p")
        if adt not in (DD, OAT) or not b["p"].startswith("<"):
            continue
        dd = adt == DD
        t = doc if dd else inner
        name = b["n"]
        n += 1
        cases = [None] if not (dd and name in ("parent", "position")) else [True, False]
        for is_root in cases:
            facts = dict(there) if dd and b["argc"] == 2 else {}
            me = ID
            if is_root is False:
                facts[eq(ID, body)] = False
                facts[disceq(app(D + "parent", doc, ID), 1)] = True
            args = [SELF, body if is_root else ID][:b["argc"]]
            if is_root:
                facts = {mk("haskey", nodes, body): True}
                me = body
            r = run(rep, prog, b, args, facts=facts)
            rule = "%s() of %s answers what the %s holds" % (name, short(adt.replace("hotmeal::", "")), "document" if dd else "tree")
            some = False
            for s, v in outs(r):
                f = s.facts
                some = True
                if s.eff and not (name == "position" and all(x.tag == "cellset" for x in s.eff)):
                    rep.fail("reading a tree changes nothing", at(b), show(s.eff[0], 4))
                    continue
                if v.tag == "st" and v.a[0] == "src":
                    v = v.a[1]
                if name == "root":
                    ok = v is (body if dd else fld(inner, 0, fidx(prog, CT, "root")))
                elif name == "node_count":
                    ok = v is (mk("len", nodes) if dd else app(D + "node_count", inner))
                elif name in ("hash", "kind", "properties", "text", "height") and dd:
                    ok = v is fld(ent, 0, F[{"properties": "props"}.get(name, name)] - 2) or name == "text" and view(f, v, fld(ent, 0, F["text"] - 2))
                elif name in ("hash", "kind", "properties", "text"):
                    x = fld(app("data", inner, ID), 0, fidx(prog, CND, name))
                    ok = v is x or name == "text" and view(f, v, x)
                elif name == "parent":
                    if is_root:
                        rep.check(v is NONE, "the body is the root of the tree: it has no parent there", at(b), show(v, 4))
                        continue
                    ok = v is app(D + "parent", t, ID) or view(f, v, app(D + "parent", t, ID))
                elif name == "position" and dd:
                    position(rep, r, b, s, v, is_root, fld(mk("mapget", nodes, me), 0, F["position"] - 2), doc, me)
                    continue
                elif name == "child_count":
                    ok = v in (mk("len", kids(t, ID)), app(D + "child_count", t, ID))
                elif name == "iter" and dd:
                    ok = v is app(D + "descendants", doc, body)
                elif name == "post_order" and dd:
                    ok = v is app(D + "post_order", doc, body) or post_order_of(prog, rep, v, fld(doc, 0, m.sh.docf["arena"]), body, at(b))
                elif name in ("iter", "post_order"):
                    ok = v is app(D + name, inner)
                elif name in ("children", "descendants", "height", "position"):
                    ok = v is app(D + name, t, ID)
                elif name == "is_opaque":
                    props = fld(ent, 0, F["props"] - 2) if dd else fld(app("data", inner, ID), 0, fidx(prog, CND, "properties"))
                    for s2, w in r.it.fork_bool(s, v):
                        rep.check(opaque(s2.facts, fld(props, 0, m.attrs), m.sh) is w, "a node is opaque if and only if it has the attribute data-hotmeal-opaque", at(b),
                                  "%s given %s" % (w, fshow(s2.facts, 4)))
                    continue
                else:
                    raise Unsupported("unknown DiffTree method " + name)
                rep.check(ok, rule, at(b), show(v, 6) + " given " + fshow(f, 4))
            rep.check(some, rule, at(b), "no answer")
    rep.check(n >= 26, "all DiffTree methods of both wrappers are looked at", DD, "%d found" % n)


def view(f, v, x):
    """v is the option x, taken apart and put together again"""
    if v is NONE:
        return entails(f, disceq(x, 1), False)
    return v.tag == "agg" and v.a[1] == 1 and v.a[2] is fld(x, 1, 0) and entails(f, disceq(x, 1), True)


def uncast(v):
    while v.tag == "cast":
        v = v.a[0]
    return v


def position(rep, r, b, s, v, is_root, cell, doc, me):
    f = s.facts
    w = at(b)
    known = entails(f, disceq(cell, 1), True)
    for x in s.eff:
        ok = x.a[0] is cell and x.a[1].tag == "agg" and x.a[1].a[1] == 1 and uncast(x.a[1].a[2]) is uncast(v)
        rep.check(ok, "the position remembered is the position answered", w, show(x, 5))
    if known:
        rep.check(uncast(v) is fld(cell, 1, 0) and not s.eff, "a remembered position is answered", w, show(v, 5))
        return
    if is_root:
        rep.check(uncast(v) is Int(0), "the body is at position 0", w, show(v, 5))
        return
    par = fld(app(D + "parent", doc, me), 1, 0)
    if CT_.gone(s, app(D + "children", doc, par), me):
        return
    rep.check(CT_.is_position(r.it, s, uncast(v), doc, me, par), "position() is the index of the node among its parent's children", w, show(v, 6))


def opaque(f, attrs, sh):
    """does one of the attributes mark the node as opaque, on this path?"""
    name = lambda e: fld(fld(e, 0, 0), 0, sh.q["local"])                 # noqa: E731
    for l, v in f.items():
        if l.tag == "eq" and v is True and OPAQUE in l.a and any(x.tag == "elem" and x.a[1] is attrs and chars(name(x)) in l.a for x in subterms(l)):
            return True
        if l.tag == "forall" and v is True and l.a[1] and all(
                loop_src(p) is attrs and factsdict(p.a[1]).get(eq(chars(name(mk("elem", p.a[3][0].a[0], attrs))), OPAQUE)) is False for p in l.a[1]):
            return False
        if l.tag == "eq" and v is True and Int(0) in l.a and mk("len", attrs) in l.a:
            return False
    return None


# ---- attributes as properties ---------------------------------------------------
def prop_fn(prog, name):
    b = next((x for x in prog.bodies.values() if x["local"] and x["n"] == name and x["p"].startswith("<") and "HtmlProps" in x["p"] and "Properties" in x["p"]), None)
    if b is None:
        raise Unsupported("HtmlProps::%s not found" % name)
    return b


def projected(v, src, i=0):
    """v lists (or is the set of) the i-th part of what src lists"""
    if v.tag == "snap":
        ns = splice(v.a[1])
        if len(ns) == 1 and ns[0].tag == "loop" and ns[0].a[1] == "end" and not ns[0].a[4] and len(ns[0].a[2]) == 1:
            p = ns[0].a[2][0]
            return loop_src(p) is src and len(p.a[2]) == 1 and p.a[2][0].tag == "item" and p.a[2][0].a[0] is fld(mk("elem", p.a[3][0].a[0], src), 0, i)
    return False


def common(v, xs, ys, ordered=True):
    """v lists the names in xs that are also names in ys, in the order of xs if that is asked for"""
    if v.tag != "snap":
        return False
    ns = splice(v.a[1])
    if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4]:
        return False
    for p in ns[0].a[2]:
        src = loop_src(p)
        if not ordered and src is not None and src.tag == "unord":
            src = src.a[0]
        es = [e for e in ns[0].a[3] if e.a[1] is xs]
        if src is None or not (src is xs or projected(src, xs)) or len(es) != 1:
            return False
        name = fld(es[0], 0, 0)
        f = factsdict(p.a[1])
        has = [w for l, w in f.items() if l.tag == "member" and projected(l.a[0], ys) and l.a[1] is name] or [any_name(f, ys, name)]
        if has[0] is None or len(p.a[2]) != (1 if has[0] else 0) or (p.a[2] and p.a[2][0].a[0] is not name):
            return False
    return True


def any_name(f, ys, name):
    """is the name one of those of ys, on this path?"""
    for l, v in f.items():
        if v is True and l.tag == "eq" and name in l.a and any(x.tag == "elem" and x.a[1] is ys and fld(x, 0, 0) in l.a for x in subterms(l)):
            return True
        if v is True and l.tag == "forall" and l.a[1] and all(loop_src(p) is ys and factsdict(p.a[1]).get(eq(name, fld(mk("elem", p.a[3][0].a[0], ys), 0, 0))) is False for p in l.a[1]):
            return False
    return None


def renamed(t, lid):
    """the term, about an earlier round of the loop"""
    m = {x.id: mk("elem", x.a[0] + "'" + lid, *x.a[1:]) for x in subterms(t) if x.tag == "elem" and "'" not in x.a[0]}
    return subst(t, m)


def v_props(rep, prog):
    mine, theirs = (fld(P(n), 0, fidx(prog, HP, "attrs")) for n in ("self", "other"))
    b = prop_fn(prog, "diff")
    r = run(rep, prog, b, [P("self"), P("other")])
    attr = vidx(prog, "PropKey", "Attr")
    pif = {n: 2 + fidx(prog, "PropertyInFinalState", n) for n in ("key", "value")}
    diff_ = vidx(prog, "PropValue", "Different")
    w = at(b)
    seen = set()
    for s, v in outs(r):
        ns = splice(v.a[1]) if v.tag == "snap" else ()
        if len(ns) == 0 and entails(s.facts, eq(mk("len", theirs), Int(0)), True):
            continue
        if not rep.check(len(ns) == 1 and ns[0].tag == "loop" and ns[0].a[1] == "end" and not ns[0].a[4] and all(loop_src(p) is theirs for p in ns[0].a[2]),
                         "the diff goes through all attributes of the new node in order", w, show(v, 5)):
            continue
        paths = []
        for p in ns[0].a[2]:
            e = mk("elem", p.a[3][0].a[0], theirs)
            x = p.a[2][0].a[0] if len(p.a[2]) == 1 and p.a[2][0].tag == "item" else None
            ok = x is not None and x.tag == "agg" and len(x.a) == 4
            if ok:
                key, val = x.a[pif["key"]], x.a[pif["value"]]
                ok = key.tag == "agg" and key.a[1] == attr and key.a[2] is fld(e, 0, 0) and val.tag == "agg"
            if not rep.check(ok, "each attribute of the new node is listed once under its name", w, show(x, 5) if x is not None else "nothing listed"):
                continue
            paths.append((p, e, val, factsdict(p.a[1])))
        for p, e, val, f in paths:
            old = [x for l in f for x in subterms(l) if x.tag == "elem" and x.a[1] is mine and "'" not in x.a[0] and f.get(eq(fld(x, 0, 0), fld(e, 0, 0))) is True]
            same = any(f.get(eq(fld(x, 0, 1), fld(e, 0, 1))) is True for x in old)
            other = any(f.get(eq(fld(x, 0, 1), fld(e, 0, 1))) is False for x in old) or any_name(f, mine, fld(e, 0, 0)) is False
            order = order_known(f, mine, theirs)
            if val.a[1] == diff_:
                seen.add("different")
                rep.check(chars(val.a[2]) is chars(fld(e, 0, 1)), "a changed attribute carries its new value", w, show(val, 5))
                rep.check(other or same and order is False, "an attribute is only marked different if it is, or if the order changed", w, fshow(f, 6))
                continue
            seen.add("same")
            rep.check(same, "an attribute is only left as it is if the old node has it with the same value", w, fshow(f, 6))
            marked = order is True or order is False and any(
                v2.a[1] == diff_ and order_known(f2, mine, theirs) is False and any("'" in x.a[0] for l in f for x in variables(l) if x.tag == "elem")
                and all(f.get(renamed(l, p2.a[3][0].a[0])) is u for l, u in f2.items() if l.tag in ("eq", "partial") and any(x is e2 for x in subterms(l)))
                for p2, e2, v2, f2 in paths)
            rep.check(marked, "if the common attributes come in another order, at least one attribute is marked different", w, fshow(f, 6))
    rep.check(seen == {"different", "same"}, "changed and unchanged attributes are told apart", w, str(seen))
    # ---- similarity
    b = prop_fn(prog, "similarity")
    r = run(rep, prog, b, [P("self"), P("other")])
    w = at(b)
    la, lb = mk("len", mine), mk("len", theirs)
    for s, v in outs(r):
        f = s.facts
        none = [entails(f, eq(x, Int(0)), True) for x in (la, lb)]
        if v.tag == "float" or v.tag == "const" or not any(x.tag == "bin" for x in subterms(v)):
            total0 = any(l.tag == "eq" and u is True and Int(0) in l.a and any(total(x, mine, theirs) for x in l.a) for l, u in f.items())
            rep.check(show(v, 3) in ("1.0", "1.0f64", "1") and (all(none) or total0), "two nodes without attributes are alike", w, show(v, 4) + " given " + fshow(f, 4))
            continue
        ok = v.tag == "bin" and v.a[0] == "Div" and total(uncast(v.a[2]), mine, theirs) and twice_common(uncast(v.a[1]), mine, theirs)
        rep.check(ok, "the similarity is 2*common names / all names", w, show(v, 7))
    for name, want in (("len", lambda v: v is la), ("is_empty", lambda v: v is eq(la, Int(0)))):
        b = prop_fn(prog, name)
        r = run(rep, prog, b, [P("self")])
        for s, v in outs(r):
            rep.check(want(v), "%s() counts the attributes" % name, at(b), show(v, 5))


def order_known(f, mine, theirs):
    """True: common names come in the same order; False: they do not; None: not known"""
    for l, v in f.items():
        if l.tag == "eq" and (common(l.a[0], mine, theirs) and common(l.a[1], theirs, mine) or common(l.a[1], mine, theirs) and common(l.a[0], theirs, mine)):
            return v
    return None


def names_set(t, xs):
    return t is xs or projected(t, xs)


def total(t, xs, ys):
    if t.tag != "bin" or t.a[0] != "Add" or any(x.tag != "len" for x in t.a[1:]):
        return False
    p, q = t.a[1].a[0], t.a[2].a[0]
    return names_set(p, xs) and names_set(q, ys) or names_set(q, xs) and names_set(p, ys)


def twice_common(t, xs, ys):
    if t.tag != "bin" or t.a[0] != "Mul":
        return False
    x = t.a[1] if t.a[2] in (Int(2), ) else t.a[2] if t.a[1] is Int(2) else None
    x = uncast(x) if x is not None else None
    if x is None or x.tag != "len":
        return False
    x = x.a[0]
    if x.tag == "app" and x.a[0].split("@")[0].endswith("::intersection"):
        return names_set(x.a[1], xs) and names_set(x.a[2], ys) or names_set(x.a[2], xs) and names_set(x.a[1], ys)
    return common(x, xs, ys, False) or common(x, ys, xs, False)
