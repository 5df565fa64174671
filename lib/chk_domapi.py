"""hotmeal's documents: looking at them and changing them node by node."""
from term import *
from engine import *
from logic import *
from facts import splice, loop_src
from hot import *
from report import *
from roots import P
from chk_apply import Doc, past, replaced, added
from chk_hot import outs

N, SELF = P("n"), Doc.SELF
NOW = snap("arena", (past("arena"),))
ROOT = P("doc_root")


class Api_(Doc):
    def __init__(self, rep, prog, name, args):
        Doc.__init__(self, rep, prog, name, args)
        self.name = name
        self.html = vidx(prog, "dom::Namespace", "Html")

    def say(self, ok, rule, s=None, got=None):
        return self.rep.check(bool(ok), rule, self.w, "%s%s" % (show(got, 6) if isinstance(got, T) else got or "", " where " + fshow(s.facts, 4) if s else ""))

    def untouched(self, s):
        return not self.events(s) and not s.eff and s.heap["doc"].a[0] is self.start()

    def start(self):
        return agg("hotmeal::dom::Document", 0, *[mk("obj", "arena") if f == "arena" else P("doc_" + f) for f in self.fields()])

    def fields(self):
        return next(a for n, a in self.prog.adts.items() if n.endswith("dom::Document"))["v"][0]["f"]

    def data(self, i, state=NOW):
        return app("data", state, i)

    def kind(self, i):
        return fld(self.data(i), 0, self.sh.kindf)

    def elem(self, i):
        return fld(self.kind(i), self.sh.k["Element"], 0)

    def named(self, f, i, tag):
        """is node i an element with the tag? None if that is open"""
        k, n = self.sh.k["Element"], len(self.sh.k)
        t = eq(fld(self.elem(i), 0, self.sh.tagf), mk("str", '"%s"' % tag))
        if entails(f, disceq(self.kind(i), k, n), False) or any(entails(f, disceq(self.kind(i), j, n), True) for j in self.sh.k.values() if j != k) or f.get(t) is False:
            return False
        return True if entails(f, disceq(self.kind(i), k, n), True) and f.get(t) is True else None

    def is_node(self, d, kind, content):
        """the data of a new node"""
        if d.tag != "agg" or fld(d, 0, self.sh.nsf) is not agg(fld(d, 0, self.sh.nsf).a[0], self.html):
            return False
        k = fld(d, 0, self.sh.kindf)
        if k.tag != "agg" or k.a[1] != self.sh.k[kind]:
            return False
        if kind != "Element":
            return chars(k.a[2]) is chars(content)
        e = k.a[2]
        a = fld(e, 0, self.sh.attrsf)
        return chars(fld(e, 0, self.sh.tagf)) is chars(content) and a.tag == "snap" and not splice(a.a[1])


def found(f, v, src, hit, rev=False):
    """v is the first (or last) element of src that meets the condition; hit(facts, element) tells"""
    v = v.a[2] if v.tag == "agg" and v.a[1] == 1 and len(v.a) == 3 else v
    for l, u in f.items():
        if l.tag != "partial" or u is not True or v.tag != "elem" or any(not p.a[3] or p.a[3][0].a[0] != v.a[0] for p in l.a[1] + l.a[2]):
            continue
        ok = True
        for p in l.a[1] + l.a[2]:
            ok = ok and walks(p, src, rev)
            e = mk("elem", p.a[3][0].a[0], src) if ok else None
            ok = ok and (p in l.a[2] or hit(factsdict(p.a[1]), e) is False)
        return ok and v.a[1] is src and hit(f, v) is True
    return False


def none(f, src, hit, rev=False):
    """no element of src meets the condition"""
    for l, u in f.items():
        if l.tag == "forall" and u is True and all(walks(p, src, rev) or walks(p, src, not rev) for p in l.a[1] + l.a[2]):
            if all(hit(factsdict(p.a[1]), mk("elem", p.a[3][0].a[0], src)) is False for p in l.a[1]):
                return True
        if l.tag == "eq" and u is True and l is eq(mk("len", src), Int(0)):
            return True
    return False


def walks(p, src, rev):
    s = p.a[3][0].a[1] if p.a[3] else None
    return s is not None and (s.tag == "strev" and s.a[0] is src if rev else loop_src(p) is src and s.tag != "strev")


def kids(i):
    return app(D + "children", NOW, i)


def at_end(d, s, v, src, last):
    """v is the Option of src's first or last element"""
    yes = lambda f, e: True                                                                          # noqa: E731
    if v is NONE:
        return none(s.facts, src, lambda f, e: None)
    if v is app("last_child" if last else "first_child", NOW, N) or v is app("reduce::last", src) and last:
        return True
    if v.tag == "phi" and last:
        alts = [x for x, _ in d.r.it.phi.get(v, ())]
        return len(alts) == 2 and NONE in alts and all(x is NONE or x.tag == "agg" and x.a[1] == 1 and x.a[2].tag == "elem" and x.a[2].a[0].split("'")[0] == v.a[0] and x.a[2].a[1] is src for x in alts)
    if v.tag != "agg" or v.a[1] != 1:
        return False
    x = v.a[2]
    if last:
        return x is mk("lastof", src) or found(s.facts, x, src, yes, rev=True)
    return x is mk("sel", src, Int(0)) or x.tag == "elem" and x.a[1] is src and s.facts.get(mk("first", x)) is True or found(s.facts, x, src, yes)


def v_look(rep, prog):
    # what can be asked
    same = {"get": app("data", NOW, N), "children": kids(N), "parent": app(D + "parent", NOW, N), "next_sibling": app("next_sibling", NOW, N),
            "prev_sibling": app("previous_sibling", NOW, N), "child_count": mk("len", kids(N))}
    for name, want in same.items():
        d = Api_(rep, prog, name, [SELF, N])
        os = outs(d.r)
        d.say(os, "it answers")
        for s, v in os:
            if v.tag == "st" and v.a[0] == "src":
                v = v.a[1]
            d.say(v is want or counted(v) is want, "asking for the %s of a node gives it" % name.replace("_", " "), s, v)
            d.say(d.untouched(s), "asking changes nothing", s)
    for name in ("first_child", "last_child"):
        d = Api_(rep, prog, name, [SELF, N])
        os = outs(d.r)
        d.say(os, "it answers")
        for s, v in os:
            d.say(at_end(d, s, v, kids(N), name == "last_child"), "the %s of a node is that" % name.replace("_", " "), s, v)
            d.say(d.untouched(s), "asking changes nothing", s)
    for name in ("body", "head"):
        d = Api_(rep, prog, name, [SELF])
        seen = set()
        for s, v in outs(d.r):
            hit = lambda f, e: d.named(f, e, name)                                                   # noqa: E731,B023
            seen.add(v is NONE)
            if v is NONE:
                d.say(none(s.facts, kids(ROOT), hit), "a document has no %s only if no child of its root is one" % name, s, v)
            else:
                d.say(v.tag == "agg" and found(s.facts, v, kids(ROOT), hit), "the %s is the first child of the root that is one" % name, s, v)
            d.say(d.untouched(s), "asking changes nothing", s)
        d.say(seen == {True, False}, "the %s is found or not" % name)
    d = Api_(rep, prog, "get_mut", [SELF, N])
    for s, v in outs(d.r):
        d.say(v is app("data", NOW, N) and d.untouched(s), "the node asked for is the one handed out for changing", s, v)


def counted(t):
    """a count of everything a list has is its length"""
    from chk_tree import size
    return size(t)


def v_change(rep, prog):
    # a new document
    d = Api_(rep, prog, "new", [])
    fs = d.fields()
    for s, v in outs(d.r):
        ok = v.tag == "agg" and len(v.a) == 2 + len(fs)
        part = {f: fld(v, 0, i) for i, f in enumerate(fs)} if ok else {}
        ev = splice(part["arena"].a[1]) if ok and part["arena"].tag == "snap" else []
        nodes = {n.a[0]: n.a[1] for n in ev if n.tag == "node"}
        links = [n.a[:3] for n in ev if n.tag != "node"]
        names = {t: [i for i, x in nodes.items() if d.is_node(x, "Element", mk("str", '"%s"' % t))] for t in ("html", "head", "body")}
        ok = ok and len(nodes) == 3 and all(len(x) == 1 for x in names.values()) and part["root"] is names["html"][0]
        ok = ok and kids_by(links, names["html"][0]) == [names["head"][0], names["body"][0]] and len(links) == 2
        ok = ok and part["doctype"] is NONE and all(blank(part[f]) for f in fs if f not in ("arena", "root", "doctype"))
        d.say(ok, "a new document is an html element with an empty head and an empty body, in this order, without doctype", s, v)
    for b in prog.bodies.values():
        if b["local"] and b["kind"] == "fn" and b["n"] == "default" and "Document" in b["p"]:
            r = HRoot(prog, b, [], matching=False, treeapi=False, extra=dict(HOT_API))
            rep.use(r)
            for s, v in outs(r):
                ns = [n.a[1] for x in subterms(v) if x.tag == "snap" and x.a[0] == "arena" for n in splice(x.a[1]) if n.tag == "node"]
                rep.check(len(ns) == 3 and v.tag == "agg", "the default document is a new one", d.w, show(v, 5))
    # a body where there is none
    d = Api_(rep, prog, "ensure_body", [SELF])
    seen = set()
    hit = lambda f, e: d.named(f, e, "body")                                                         # noqa: E731
    for s, v in outs(d.r):
        ev = d.events(s)
        seen.add(not ev)
        if not ev:
            d.say(found(s.facts, v, kids(ROOT), hit) and d.untouched(s), "the body there is is kept as it is", s, v)
        else:
            ok = len(ev) == 2 and ev[0].tag == "node" and ev[0].a[0] is v and d.is_node(ev[0].a[1], "Element", mk("str", '"body"')) and link_is(ev[1], "append", ROOT, v)
            d.say(ok and none(s.facts, kids(ROOT), hit), "only a document without body gets one, empty and as the root's last child", s, v)
    d.say(seen == {True, False}, "there may or may not be a body")
    # new nodes
    for name, kind in (("create_element", "Element"), ("create_text", "Text"), ("create_comment", "Comment")):
        d = Api_(rep, prog, name, [SELF, P("content")])
        os = outs(d.r)
        d.say(os, "it makes a node")
        for s, v in os:
            ev = d.events(s)
            ok = len(ev) == 1 and ev[0].tag == "node" and ev[0].a[0] is v and d.is_node(ev[0].a[1], kind, P("content")) and not s.eff
            d.say(ok, "a new node is of its kind, has the tag or text given and nothing else, and stands nowhere yet", s, str([show(e, 6) for e in ev]))
    # links
    for name, how in (("append_child", "append"), ("insert_before", "before"), ("insert_after", "after")):
        d = Api_(rep, prog, name, [SELF, P("place"), P("node")])
        os = outs(d.r)
        d.say(os, "it returns")
        for s, v in os:
            ev = d.events(s)
            d.say(len(ev) == 1 and link_is(ev[0], how, P("place"), P("node")) and not s.eff, "the node is put exactly where it is asked for", s, str([show(e, 5) for e in ev]))
    d = Api_(rep, prog, "remove", [SELF, N])
    for s, v in outs(d.r):
        ev = d.events(s)
        d.say(len(ev) == 1 and ev[0].tag == "cut" and ev[0].a[0] is N and not s.eff, "exactly the node is taken out", s, str([show(e, 5) for e in ev]))
    attributes(rep, prog)


def link_is(e, how, a, b):
    return e.tag == "link" and e.a[0] == how and e.a[1] is a and e.a[2] is b


def kids_by(links, par):
    out = []
    for how, a, b in links:
        if how == "append" and a is par:
            out.append(b)
        elif how == "prepend" and a is par:
            out.insert(0, b)
        elif how in ("before", "after") and a in out:
            out.insert(out.index(a) + (how == "after"), b)
        else:
            return None
    return out


def blank(t):
    return t is NONE or t.tag == "snap" and not t.a[1] or t.tag == "app" and t.a[0].endswith("default")


def attributes(rep, prog):
    def content(d, new, kind):
        """what is new in a node's content, or None if something else changed"""
        old = d.data(N)
        k = fld(new, 0, d.sh.kindf)
        if fld(new, 0, d.sh.nsf) is not fld(old, 0, d.sh.nsf) or k.tag == "agg" and k.a[1] != d.sh.k[kind]:
            return None
        x = fld(k, d.sh.k[kind], 0)
        if kind == "Element":
            return fld(x, 0, d.sh.attrsf) if fld(x, 0, d.sh.tagf) is fld(d.elem(N), 0, d.sh.tagf) else None
        return x

    def is_(d, f, kind):
        k, n = d.sh.k[kind], len(d.sh.k)
        if entails(f, disceq(d.kind(N), k, n), True):
            return True
        if entails(f, disceq(d.kind(N), k, n), False) or any(entails(f, disceq(d.kind(N), j, n), True) for j in d.sh.k.values() if j != k):
            return False
        return None

    def one_set(d, s, kind):
        ev = d.events(s)
        return content(d, ev[0].a[1], kind) if len(ev) == 1 and ev[0].tag == "set" and ev[0].a[0] is N and not s.eff else None

    d = Api_(rep, prog, "set_text", [SELF, N, P("value")])
    seen = set()
    for s, v in outs(d.r):
        k = is_(d, s.facts, "Text")
        seen.add(k)
        x = one_set(d, s, "Text") if k else None
        d.say(d.untouched(s) if k is False else k and x is not None and chars(x) is P("value"), "the text of a text node becomes the one given, other nodes stay as they are", s, str([show(e, 6) for e in d.events(s)]))
    d.say(seen == {True, False}, "text nodes are told apart")

    d = Api_(rep, prog, "set_attr", [SELF, N, P("name"), P("value")])
    seen = set()
    for s, v in outs(d.r):
        k = is_(d, s.facts, "Element")
        was = fld(d.elem(N), 0, d.sh.attrsf)
        if k is not True:
            seen.add(k)
            d.say(k is False and d.untouched(s), "only elements get attributes", s)
            continue
        ev = d.events(s)
        hit = lambda f, e: f.get(eq(fld(e, 0, 0), P("name")))                                        # noqa: E731
        if not ev:
            seen.add("old")
            w = s.eff[0] if len(s.eff) == 1 else None
            x = w.a[0].a[0] if w is not None and w.tag == "lostwrite" and w.a[0].tag == "fld" else None
            ok = x is not None and w.a[0] is fld(x, 0, 1) and chars(w.a[1]) is P("value") and found(s.facts, x, was, hit)
        else:
            x = one_set(d, s, "Element")
            if x is not None and replaced(s.facts, x, was, P("name"), P("value")):
                seen.add("old")
                ok = True
            else:
                seen.add("new")
                ok = x is not None and added(x, was, P("name"), P("value")) and none(s.facts, was, hit)
        d.say(ok, "the attribute with the name has the given value afterwards, at its place or else at the end, and nothing else changes", s, str([show(e, 7) for e in list(ev) + list(s.eff)]))
    d.say(seen == {"old", "new", False}, "attributes are changed or added, on elements only", None, str(seen))

    d = Api_(rep, prog, "remove_attr", [SELF, N, P("name")])
    seen = set()
    for s, v in outs(d.r):
        k = is_(d, s.facts, "Element")
        seen.add(k)
        was = fld(d.elem(N), 0, d.sh.attrsf)
        if k is not True:
            d.say(k is False and d.untouched(s), "only elements lose attributes", s)
            continue
        x = one_set(d, s, "Element")
        d.say(x is not None and without(x, was), "exactly the attributes with the name are taken away, the others keep their order", s, str([show(e, 7) for e in d.events(s)]))
    d.say(seen == {True, False}, "elements are told apart")


def without(x, was):
    ns = splice(x.a[1]) if x.tag == "snap" else []
    if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4]:
        return False
    seen = set()
    for p in ns[0].a[2]:
        if not walks(p, was, False):
            return False
        e = mk("elem", p.a[3][0].a[0], was)
        same = factsdict(p.a[1]).get(eq(P("name"), fld(e, 0, 0)))
        its = splice(p.a[2])
        if same is None or (len(its) != 0) == same or its and not (len(its) == 1 and its[0].tag == "item" and its[0].a[0] is e):
            return False
        seen.add(same)
    return seen == {True, False}
