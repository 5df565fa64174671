"""hotmeal's parser side: the tree that the parser's orders build, and what is handed to the parser."""
from term import *
from engine import *
from logic import *
from facts import splice, loop_src
from hot import *
from report import *
from roots import P
from chk_apply import Doc, past, added
from chk_dom import Shape
from chk_hot import at, outs
from chk_value import API as TEXT, pieces, same_bool
from chk_domapi import found, none, walks, link_is

SINK = "hotmeal::dom::ArenaSink"
NOW = snap("arena", (past("arena"),))
OLD = P("old_doctype")


def opaque(it, st, args, ctx):
    """what is only written into the log"""
    return [(st, P("log"))]


def same_text(it, st, args, ctx):
    """the parser's text as ours: the same characters (C42)"""
    return [(st, it.rv(st, args[-1]))]


def extend(it, st, args, ctx):
    """Stem::push_str and push_tendril (C42)"""
    r = args[0]
    while r.tag == "ref":
        v = it.read(st, ("cell", r.a[0], r.a[1]))
        if v.tag != "ref":
            break
        r = v
    if r.tag != "ref":
        return None
    st = st.copy()
    it.write(st, ("cell", r.a[0], r.a[1]), app("cat", it.rv(st, v), it.rv(st, args[1])))
    return [(st, UNIT)]


def helpers(prog):
    """models for helpers, which are known by what they take and give"""
    out = {}
    for b in prog.bodies.values():
        if b["local"] and b["kind"] == "fn":
            tys = [prog.types[b["locals"][i][0]].get("s", "") for i in range(b["argc"] + 1)]
            n = prog.nname(b["p"])
            if tys[0].endswith("string::String") and any("NodeId" in t for t in tys[1:]):
                out[n] = opaque
            elif "stem::Stem" in tys[0] and len(tys) == 3 and "StrTendril" in tys[2]:
                out[n] = same_text
            elif n.endswith(("Stem::push_str", "Stem::push_tendril")):
                out[n] = extend
    return out


S = mk("ref", ("O", "sink"), ())
ARGS = {"new": [P("input")], "finish": [S], "parse_error": [S, P("msg")], "get_document": [S], "same_node": [S, P("a"), P("b")], "elem_name": [S, P("n")],
        "create_element": [S, P("name"), P("attrs"), P("flags")], "create_comment": [S, P("text")], "create_pi": [S, P("a"), P("b")],
        "append": [S, P("parent"), P("child")], "append_before_sibling": [S, P("place"), P("child")], "append_based_on_parent_node": [S, P("place"), P("prev"), P("child")],
        "append_doctype_to_document": [S, P("name"), P("a"), P("b")], "get_template_contents": [S, P("n")], "add_attrs_if_missing": [S, P("n"), P("attrs")],
        "remove_from_parent": [S, P("n")], "reparent_children": [S, P("n"), P("to")]}


class Sink(Doc):
    def __init__(self, rep, prog, name, args, extra=None, heap=None):
        self.rep, self.prog, self.name = rep, prog, name
        self.sh = Shape(prog)
        bs = [b for b in prog.bodies.values() if b["local"] and b["kind"] == "fn" and b["n"] == name and "ArenaSink" in b["p"]]
        if len(bs) != 1:
            raise Unsupported("function not found: ArenaSink::" + name)
        self.b = bs[0]
        self.fields = next(a for n, a in prog.adts.items() if n.endswith("dom::ArenaSink"))["v"][0]["f"]
        whole = agg(SINK, 0, *[mk("obj", f) if f in ("arena", "errors", "doctype") else P("sink_" + f) for f in self.fields])
        hp = {"arena": mk("coll", "arena", (past("arena"),)), "errors": mk("coll", "Vec", (past("errors"),)), "doctype": mk("cell", P("old_doctype")), "sink": mk("cell", whole)}
        hp.update(heap or {})
        api = dict(HOT_API)
        api.update(TEXT)
        api.update(helpers(prog))
        api.update(extra or {})
        self.r = HRoot(prog, self.b, [whole if a is S and name == "finish" else a for a in args], matching=False, treeapi=False, heap=hp, extra=api)
        rep.use(self.r)
        self.w = at(self.b)

    def events(self, s, k="arena"):
        return Doc.events(self, s, k) if s.heap[k].a[1][:1] == (past(k),) else list(splice(s.heap[k].a[1]))

    def say(self, ok, rule, s=None, got=None):
        return self.rep.check(bool(ok), rule, self.w, "%s%s" % (show(got, 6) if isinstance(got, T) else got or "", " where " + fshow(s.facts, 4) if s else ""))

    def only(self, s, *changed):
        """nothing but these parts of the sink has changed"""
        return not s.eff and ("arena" in changed or not self.events(s)) and ("errors" in changed or not self.events(s, "errors")) and ("doctype" in changed or s.heap["doctype"].a[0] is OLD)

    def data(self, i, state=NOW):
        return app("data", state, i)

    def kind(self, i, state=NOW):
        return fld(self.data(i, state), 0, self.sh.kindf)

    def is_(self, f, i, kind, state=NOW):
        k, n, x = self.sh.k[kind], len(self.sh.k), self.kind(i, state)
        if entails(f, disceq(x, k, n), True):
            return True
        if entails(f, disceq(x, k, n), False) or any(entails(f, disceq(x, j, n), True) for j in self.sh.k.values() if j != k):
            return False
        return None

    def content(self, e, i, kind):
        """the content of the new node i, made by e"""
        if e.tag != "node" or e.a[0] is not i:
            return None
        k, ns = fld(e.a[1], 0, self.sh.kindf), fld(e.a[1], 0, self.sh.nsf)
        return k.a[2] if k.tag == "agg" and len(k.a) == 3 and k.a[1] == self.sh.k[kind] and (kind == "Element" or ns.tag == "agg" and ns.a[1] == vidx(self.prog, "dom::Namespace", "Html")) else None


URL = {"Html": '"http://www.w3.org/1999/xhtml"', "Svg": '"http://www.w3.org/2000/svg"', "MathMl": '"http://www.w3.org/1998/Math/MathML"'}


def kids(i):
    return app(D + "children", NOW, i)


def some(f, x):
    """is the Option x there?"""
    return True if entails(f, disceq(x, 1, 2), True) else False if entails(f, disceq(x, 1, 2), False) else None


def put(d, s, where, i, child, prev):
    """a node or text handed over is put in its place; prev(facts) is the node in front of that place, None if there is none, False if that is open"""
    ev = d.events(s)
    if s.facts.get(disceq(child, TEXT_V, 2)) is None and not entails(s.facts, disceq(child, NODE_V, 2), True) and not entails(s.facts, disceq(child, TEXT_V, 2), True):
        return d.say(False, "nodes and texts are told apart", s)
    if not entails(s.facts, disceq(child, TEXT_V, 2), True):
        return d.say(len(ev) == 1 and link_is(ev[0], where, i, fld(child, NODE_V, 0)) and d.only(s, "arena"), "a node is put exactly where the parser wants it", s, str([show(e, 5) for e in ev])) and "node"
    text = fld(child, TEXT_V, 0)
    b = prev(s.facts)
    k = None if b is False else b is not None and d.is_(s.facts, b, "Text")
    if k is None:
        return d.say(False, "it is known whether a text stands in front of the new one", s, str([show(e, 5) for e in ev]))
    if k:
        t = fld(d.kind(b), d.sh.k["Text"], 0)
        ok = len(ev) == 1 and ev[0].tag == "set" and ev[0].a[0] is b
        new = ev[0].a[1] if ok else None
        ok = ok and fld(new, 0, d.sh.nsf) is fld(d.data(b), 0, d.sh.nsf)
        x = fld(new, 0, d.sh.kindf) if ok else None
        ok = ok and (x.tag == "upd" and x.a[0] is d.kind(b) or x.tag == "agg" and x.a[1] == d.sh.k["Text"]) and pieces(fld(x, d.sh.k["Text"], 0)) == [t, text]
        return d.say(ok and d.only(s, "arena"), "a text behind a text becomes part of it", s, str([show(e, 7) for e in ev])) and "join"
    ok = len(ev) == 2 and d.content(ev[0], ev[0].a[0], "Text") is not None and pieces(d.content(ev[0], ev[0].a[0], "Text")) == [text] and link_is(ev[1], where, i, ev[0].a[0])
    return d.say(ok and d.only(s, "arena"), "any other text becomes a text node of its own in its place", s, str([show(e, 6) for e in ev])) and "text"


NODE_V, TEXT_V = 0, 1


def last_of(i):
    """the last child of i"""
    def f(fs):
        if entails(fs, eq(mk("len", kids(i)), Int(0)), True):
            return None
        if entails(fs, eq(mk("len", kids(i)), Int(0)), False):
            return mk("lastof", kids(i))
        for x in (app("last_child", NOW, i), app("reduce::last", kids(i))):
            h = some(fs, x)
            if h is not None:
                return fld(x, 1, 0) if h else None
        return False
    return f


def before(i):
    def f(fs):
        x = app("previous_sibling", NOW, i)
        h = some(fs, x)
        return False if h is None else fld(x, 1, 0) if h else None
    return f


def pairs(d, t, src):
    """t lists name and value of all attributes of src, in order"""
    if t.tag != "snap":
        return False
    ns = splice(t.a[1])
    if not ns:
        return False
    if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4]:
        return False
    for p in ns[0].a[2]:
        its = splice(p.a[2])
        if not walks(p, src, False) or len(its) != 1 or its[0].tag != "item":
            return False
        e = mk("elem", p.a[3][0].a[0], src)
        x = its[0].a[0]
        if x.tag != "agg" or len(x.a) != 4 or x.a[2] is not fld(e, 0, 0) or chars(x.a[3]) is not fld(e, 0, 1):
            return False
    return bool(ns[0].a[2])


def v_nodes(rep, prog):
    """what the sink makes"""
    d = Sink(rep, prog, "new", ARGS["new"])
    fi = {f: i for i, f in enumerate(d.fields)}
    for s, v in outs(d.r):
        ok = v.tag == "agg" and len(v.a) == 2 + len(fi)
        part = {f: fld(v, 0, i) for f, i in fi.items()} if ok else {}
        part = {f: x.a[0] if x.tag == "cellv" else x for f, x in part.items()}
        ns = splice(part["arena"].a[1]) if ok and part["arena"].tag == "snap" else []
        ok = ok and len(ns) == 1 and ns[0].tag == "node" and ns[0].a[0] is part["document"] and fld(ns[0].a[1], 0, d.sh.kindf) is agg(fld(ns[0].a[1], 0, d.sh.kindf).a[0], d.sh.k["Document"])
        ok = ok and part["doctype"] is NONE and (part["errors"].tag == "app" and part["errors"].a[0].endswith("default") or part["errors"].tag == "snap" and not part["errors"].a[1]) and part["input"] is P("input")
        d.say(ok, "parsing begins with an empty document", s, v)
    for n, made in (("create_comment", P("text")), ("create_pi", EMPTY)):
        d = Sink(rep, prog, n, ARGS[n])
        for s, v in outs(d.r):
            ev = d.events(s)
            x = d.content(ev[0], v, "Comment") if len(ev) == 1 else None
            d.say(x is not None and pieces(x) == ([] if made is EMPTY else [made]) and d.only(s, "arena"), "a comment is made of its text, and of a processing instruction an empty one; it stands nowhere yet", s, str([show(e, 6) for e in ev]))
    d = Sink(rep, prog, "create_element", ARGS["create_element"])
    seen = set()
    q = {n: fld(P("name"), 0, i) for n, i in d.sh.q.items()}
    var = {n: vidx(prog, "dom::Namespace", n) for n in URL}
    for s, v in outs(d.r):
        ev = d.events(s)
        x = d.content(ev[0], v, "Element") if len(ev) == 1 else None
        ok = x is not None and d.only(s, "arena") and fld(x, 0, d.sh.tagf) is q["local"] and pairs(d, fld(x, 0, d.sh.attrsf), P("attrs"))
        d.say(ok, "an element has the local name and the attributes the parser found, in their order, and stands nowhere yet", s, str([show(e, 7) for e in ev]))
        got = fld(ev[0].a[1], 0, d.sh.nsf) if x is not None else None
        is_url = {n: s.facts.get(eq(q["ns"], mk("str", u))) for n, u in URL.items()}
        want = next((n for n, w in is_url.items() if w is True), "Html" if is_url["Svg"] is False and is_url["MathMl"] is False else None)
        seen.add(want)
        d.say(want is not None and got is not None and got.tag == "agg" and got.a[1] == var[want], "an element is in the namespace that the parser names by its URL, and in that of HTML if it is another", s, got)
    d.say(seen >= {"Svg", "MathMl", "Html"}, "elements of all three namespaces are made", None, str(seen))
    # asked by the parser
    d = Sink(rep, prog, "elem_name", ARGS["elem_name"])
    seen = set()
    for s, v in outs(d.r):
        k = d.is_(s.facts, P("n"), "Element")
        d.say(k is not None and d.only(s), "elements are told from other nodes", s)
        if not k:
            continue
        ns = fld(d.data(P("n")), 0, d.sh.nsf)
        want = [n for n, i in var.items() if entails(s.facts, disceq(ns, i, len(var)), True)] or [n for n, i in var.items() if not entails(s.facts, disceq(ns, i, len(var)), False)]
        qn = [x for x in subterms(v) if x.tag == "agg" and x.a[0].endswith("QualName")]
        ok = len(want) == 1 and len(qn) == 1 and fld(qn[0], 0, d.sh.q["ns"]) is mk("str", URL[want[0]]) and fld(qn[0], 0, d.sh.q["local"]) is fld(fld(d.kind(P("n")), d.sh.k["Element"], 0), 0, d.sh.tagf)
        seen.add(want[0] if want else None)
        d.say(ok, "the parser is told the local name and the namespace an element has", s, v)
    d.say(seen == set(URL), "elements of all three namespaces are known", None, str(seen))
    for n, want in (("get_document", P("sink_document")), ("get_template_contents", P("n"))):
        d = Sink(rep, prog, n, ARGS[n])
        for s, v in outs(d.r):
            d.say(v is want and d.only(s), "the parser is given the document node, and a template itself for its content", s, v)
    d = Sink(rep, prog, "same_node", ARGS["same_node"])
    for s, v in outs(d.r):
        d.say(same_bool(v, eq(P("a"), P("b")), s.facts) and d.only(s), "nodes are the same if their ids are", s, v)


def v_places(rep, prog):
    """where the sink puts things"""
    c = P("child")
    d = Sink(rep, prog, "append", ARGS["append"])
    seen = {put(d, s, "append", P("parent"), c, last_of(P("parent"))) for s, v in outs(d.r)}
    d.say(seen >= {"node", "join", "text"}, "nodes and texts are appended", None, str(seen))
    d = Sink(rep, prog, "append_before_sibling", ARGS["append_before_sibling"])
    seen = {put(d, s, "before", P("place"), c, before(P("place"))) for s, v in outs(d.r)}
    d.say(seen >= {"node", "join", "text"}, "nodes and texts are put in front of a node", None, str(seen))
    d = Sink(rep, prog, "append_based_on_parent_node", ARGS["append_based_on_parent_node"])
    seen = set()
    for s, v in outs(d.r):
        h = some(s.facts, app(D + "parent", NOW, P("place")))
        d.say(h is not None, "it is known whether the table has a parent", s)
        seen.add((h, put(d, s, "before", P("place"), c, before(P("place"))) if h else put(d, s, "append", P("prev"), c, last_of(P("prev")))))
    d.say(seen >= {(h, x) for h in (True, False) for x in ("node", "join", "text")}, "what may not stand in a table is put in front of it, or at the end of what the parser names if it has no parent", None, str(seen))
    d = Sink(rep, prog, "remove_from_parent", ARGS["remove_from_parent"])
    for s, v in outs(d.r):
        ev = d.events(s)
        d.say(len(ev) == 1 and ev[0].tag == "cut" and ev[0].a[0] is P("n") and d.only(s, "arena"), "exactly the node is taken out", s, str([show(e, 5) for e in ev]))
    d = Sink(rep, prog, "reparent_children", ARGS["reparent_children"])
    for s, v in outs(d.r):
        ev = d.events(s)
        ok = len(ev) == 1 and ev[0].tag == "loop" and d.only(s, "arena")
        one = ok and one_by_one(ev[0])
        ok = ok and (one or ev[0].a[1] == "end" and not ev[0].a[4])
        for p in ev[0].a[2] if ok and not one else ():
            e = mk("elem", p.a[3][0].a[0], kids(P("n"))) if p.a[3] else None
            its = [x for x in splice(p.a[2]) if not (x.tag == "cut" and x.a[0] is e)]
            ok = ok and e is not None and walks(p, kids(P("n")), False) and p.a[0] == "back" and len(its) == 1 and link_is(its[0], "append", P("to"), e)
        d.say(ok and ev[0].a[2], "all children are moved, in their order, to the end of the other node", s, str([show(e, 8) for e in ev]))
    # attributes of html and body tags that come late
    d = Sink(rep, prog, "add_attrs_if_missing", ARGS["add_attrs_if_missing"])
    seen = set()
    for s, v in outs(d.r):
        k = d.is_(s.facts, P("n"), "Element")
        seen.add(k)
        ev = d.events(s)
        ok = k is False and not ev
        if k and len(ev) == 1 and ev[0].tag == "loop" and ev[0].a[1] == "end" and not ev[0].a[4]:
            got = [late(d, p) for p in ev[0].a[2]]
            ok = None not in got and set(got) == {True, False}
        d.say(ok and d.only(s, "arena"), "an element gets those attributes, in their order, whose names it does not have, and keeps the ones it has", s, str([show(p, 9) for e in ev for p in (e.a[2] if e.tag == "loop" else ())]))
    d.say(seen == {True, False}, "elements are told apart", None, str(seen))


def one_by_one(n):
    """as long as there is a first child of n it goes to the end of the other node"""
    def first(x):
        return x.tag == "app" and x.a[0] == "first_child" and x.a[2] is P("n") and x.a[1].tag == "snap" and len(x.a[1].a[1]) == 1 and x.a[1].a[1][0].tag == "base" and x.a[1].a[1][0].a[0] == n.a[0]

    def there(p, want):
        f = factsdict(p.a[1])
        return [l.a[0] for l, u in f.items() if l.tag == "disceq" and l.a[1] == 1 and u is want and first(l.a[0])] if len(f) == 1 else []
    if n.a[1] != "break" or not n.a[2] or not n.a[4] or not all(there(p, False) for p in n.a[4]):
        return False
    for p in n.a[2]:
        x = there(p, True)
        e = fld(x[0], 1, 0) if x else None
        its = [y for y in splice(p.a[2]) if not (y.tag == "cut" and y.a[0] is e)]
        if e is None or p.a[0] != "back" or len(its) != 1 or not link_is(its[0], "append", P("to"), e):
            return False
    return True


def late(d, p):
    """one attribute that may be missing: True if it is added, False if it is not, None if that is wrong"""
    src = loop_src(p)
    if src is None or not (src is P("attrs") or pairs(d, src, P("attrs"))) or p.a[0] != "back":
        return None
    f = factsdict(p.a[1])
    its = splice(p.a[2])
    es = {x for y in [q for l in f for q in subterms(l)] + [q for n in its for q in subterms(n)] for x in [y] if x.tag == "elem" and x.a[1] is P("attrs") and (x.a[0] == p.a[3][0].a[0] or x.a[0].endswith("@" + p.a[3][0].a[0]))}
    if len(es) != 1:
        return None
    e = es.pop()
    name, value = fld(e, 0, 0), fld(e, 0, 1)

    def had(x):
        """x lists the attributes the node has at this point"""
        if x.tag != "fld" or x.a[2] != d.sh.attrsf:
            return False
        y = held(x)
        return y.tag == "app" and y.a[0] == "data" and y.a[2] is P("n") and x is fld(fld(fld(y, 0, d.sh.kindf), d.sh.k["Element"], 0), 0, d.sh.attrsf) \
            and y.a[1].tag == "snap" and len(y.a[1].a[1]) == 1 and y.a[1].a[1][0].tag == "base" and y.a[1].a[1][0].a[0] == p.a[3][0].a[0]

    def held(x):
        while x.tag == "fld":
            x = x.a[0]
        return x
    if not its:
        for l, u in f.items():
            if l.tag == "eq" and u is True and name in l.a:
                o = l.a[0] if l.a[1] is name else l.a[1]
                if o.tag == "fld" and o.a[2] == 0 and o.a[0].tag == "elem" and had(o.a[0].a[1]):
                    return False
        return None
    if len(its) != 1 or its[0].tag != "set" or its[0].a[0] is not P("n"):
        return None
    new = its[0].a[1]
    x = fld(fld(fld(new, 0, d.sh.kindf), d.sh.k["Element"], 0), 0, d.sh.attrsf)
    if x.tag != "snap" or not splice(x.a[1]) or splice(x.a[1])[0].tag != "copyof":
        return None
    was = splice(x.a[1])[0].a[0]
    if not had(was) or not added(x, was, name, value):
        return None
    old = held(was)
    k = d.sh.k["Element"]
    ok = fld(new, 0, d.sh.nsf) is fld(old, 0, d.sh.nsf) and fld(fld(fld(new, 0, d.sh.kindf), k, 0), 0, d.sh.tagf) is fld(fld(fld(old, 0, d.sh.kindf), k, 0), 0, d.sh.tagf)
    return True if ok and none(f, was, lambda g, y: g.get(eq(fld(y, 0, 0), name))) else None


def v_finish(rep, prog):
    """what is left over"""
    d = Sink(rep, prog, "parse_error", ARGS["parse_error"])
    for s, v in outs(d.r):
        ev = d.events(s, "errors")
        d.say(len(ev) == 1 and ev[0].tag == "item" and chars(ev[0].a[0]) is P("msg") and d.only(s, "errors"), "what the parser complains about is noted", s, str([show(e, 5) for e in ev]))
    d = Sink(rep, prog, "append_doctype_to_document", ARGS["append_doctype_to_document"])
    for s, v in outs(d.r):
        x = s.heap["doctype"].a[0]
        d.say(x.tag == "agg" and x.a[1] == 1 and chars(x.a[2]) is P("name") and d.only(s, "doctype"), "the doctype is kept by its name", s, x)
    d = Sink(rep, prog, "finish", ARGS["finish"])
    names = next(a for n, a in prog.adts.items() if n.endswith("dom::Document"))["v"][0]["f"]
    src = kids(P("sink_document"))
    hit = lambda f, e: d.is_(f, e, "Element")                                                        # noqa: E731
    seen = set()
    for s, v in outs(d.r):
        part = {f: fld(v, 0, i) for i, f in enumerate(names)} if v.tag == "agg" else {}
        ok = v.tag == "agg" and part["arena"] is NOW and part["doctype"] is OLD and part["errors"] is snap("Vec", (past("errors"),)) and d.only(s)
        d.say(ok, "the document is the tree built, with the doctype and the complaints", s, v)
        r = part.get("root")
        seen.add(r is P("sink_document"))
        d.say(r is not None and (none(s.facts, src, hit) if r is P("sink_document") else found(s.facts, r, src, hit)), "its root is the first element in it, and the document node only if there is none", s, r)
    d.say(seen == {True, False}, "there may or may not be a root", None, str(seen))
    for b in prog.bodies.values():
        if b["local"] and b["kind"] == "fn" and b["n"] in ("from_url", "url") and "Namespace" in b["p"]:
            url(rep, prog, b)


def url(rep, prog, b):
    r = HRoot(prog, b, [P("x")], matching=False, treeapi=False, extra=dict(HOT_API))
    rep.use(r)
    var = {n: vidx(prog, "dom::Namespace", n) for n in URL}
    seen = set()
    for s, v in outs(r):
        if b["n"] == "url":
            n = [n for n, i in var.items() if entails(s.facts, disceq(P("x"), i, len(var)), True)] or [n for n, i in var.items() if not entails(s.facts, disceq(P("x"), i, len(var)), False)]
            ok = len(n) == 1 and v is mk("str", URL[n[0]])
        else:
            w = {n: s.facts.get(eq(P("x"), mk("str", u))) for n, u in URL.items()}
            n = [n for n, u in w.items() if u] or (["Html"] if w["Svg"] is False and w["MathMl"] is False else [])
            ok = len(n) == 1 and v.tag == "agg" and v.a[1] == var[n[0]]
        seen.update(n)
        rep.check(ok, "a namespace and its URL stand for each other", at(b), show(v, 4) + " where " + fshow(s.facts, 4))
    rep.check(seen == set(URL), "all three namespaces have a URL", at(b), str(seen))


# ---- what is handed to the parser ------------------------------------------------


DOCTYPE = "<!doctype"


class Given:
    """what is known about the text given"""

    def __init__(self, it, f):
        self.it, self.f = it, f
        self.input = P("input")

    def is_text(self, t):
        return t is self.input or t.tag == "app" and t.a[0] == "bytes" and t.a[1] is self.input

    def blanks(self):
        """loops that walk over the blanks in front"""
        for l, u in self.f.items():
            if l.tag in ("partial", "forall") and u is True and l.a[1] and all(p.a[0] == "back" and self.blank(p, True) for p in l.a[1]) and all(self.blank(p, False) for p in (l.a[2] if l.tag == "partial" else ())):
                yield l.a[0]

    def blank(self, p, want):
        """what happens on this path happens at a blank, or not at one"""
        for l, u in factsdict(p.a[1]).items():
            if l.tag == "app" and l.a[0].endswith("is_ascii_whitespace"):
                x = l.a[1]
                at_i = x.tag == "sel" and self.is_text(x.a[0]) and x.a[1].tag == "phi" or x.tag == "elem" and self.is_text(x.a[1])
                if at_i and u is want:
                    return True
            if not want and l.tag == "lt" and l.a[0].tag == "phi" and l.a[1].tag == "len" and self.is_text(l.a[1].a[0]) and u is False:
                return True
        return False

    def start(self, t):
        """t is where the text begins behind the blanks"""
        lids = set(self.blanks())
        if t.tag == "phi":
            alts = [x for x, _ in self.it.phi.get(t, ())]
            return t.a[0] in lids and len(alts) == 2 and Int(0) in alts and any(x.tag == "bin" and x.a[0] == "Add" and x.a[1].tag == "prev" and x.a[2] is Int(1) for x in alts)
        if t.tag == "len" and t.a[0].tag == "snap":
            ns = splice(t.a[0].a[1])
            if len(ns) == 1 and ns[0].tag == "loop" and not ns[0].a[4] and all(self.leading(p) for p in ns[0].a[2]):
                return True
            return len(ns) == 1 and ns[0].tag == "loop" and ns[0].a[0] in lids and all(len(splice(p.a[2])) == 1 for p in ns[0].a[2])
        if t.tag == "idx" and t.a[0].tag == "elem" and self.is_text(t.a[0].a[1]):               # where one that is no blank was found behind them
            return any(l.tag == "partial" and l.a[0] in lids and self.at(l.a[2], t.a[0]) for l in self.f)
        if t.tag == "len" and self.is_text(t.a[0]):                                             # there are only blanks
            return any(l.tag == "forall" and l.a[0] in lids and u is True for l, u in self.f.items())
        return False

    def at(self, paths, e):
        """the loop leaves off at this element"""
        return len(paths) > 0 and all(any(l.tag == "app" and l.a[1] is e for l in factsdict(p.a[1])) for p in paths)

    def leading(self, p):
        """counts what stands in front of the first that is no blank"""
        src = loop_src(p)
        if src is None or src.tag != "sttake_while" and not (src.tag == "st" and src.a[0] == "take_while") or not any(self.is_text(x) for x in src.a if isinstance(x, T)):
            return False
        f = factsdict(p.a[1])
        on = any(l.tag == "app" and l.a[0].endswith("is_ascii_whitespace") and l.a[1].tag == "elem" and self.is_text(l.a[1].a[1]) and u for l, u in f.items())
        go = any(l.tag == "cut" and not u for l, u in f.items())
        return (len(splice(p.a[2])) == 1) == (on and go) and p.a[0] == "back"

    def is_name(self, t):
        return t.tag == "const" and t.a[0] == 'b"%s"' % DOCTYPE or t.tag == "str" and t.a[0].lower() == '"%s"' % DOCTYPE

    def nine(self, t):
        return t is Int(len(DOCTYPE)) or t.tag == "len" and self.is_name(t.a[0])

    def end(self, t):
        return t.tag == "bin" and t.a[0] == "Add" and (self.start(t.a[1]) and self.nine(t.a[2]) or self.nine(t.a[1]) and self.start(t.a[2]))

    def beginning(self, t):
        """the nine characters behind the blanks"""
        if t.tag == "fld":
            t = t.a[0]
        if t.tag != "app" or len(t.a) != 3 or t.a[2].tag != "agg":
            return False
        r = t.a[2].a[0].split("::")[-1]
        if r == "Range" and self.is_text(t.a[1]):
            return self.start(t.a[2].a[2]) and self.end(t.a[2].a[3])
        return r == "RangeTo" and self.nine(t.a[2].a[2]) and self.trimmed(t.a[1])

    def trimmed(self, b):
        return b.tag == "app" and b.a[0].split("@")[0].endswith("trim_ascii_start") and self.is_text(b.a[1])

    def letters(self, l):
        """a comparison of one of these characters with the one of the name at its place"""
        if l.tag != "eq":
            return None
        for a, b in (l.a, l.a[::-1]):
            y = b.a[1] if b.tag == "app" and b.a[0].endswith("to_ascii_lowercase") else None
            if y is not None and a.tag == y.tag == "elem" and self.is_name(a.a[1]) and self.beginning(y.a[1]) and a.a[0][:-1] == y.a[0][:-1]:
                return y, a
        return None

    def doctype(self):
        """does the text begin with a doctype? None if that is open"""
        for l, u in self.f.items():
            if l.tag == "forall" and u is True and l.a[1] and all(any(self.letters(x) and w is True for x, w in factsdict(p.a[1]).items()) for p in l.a[1]):
                return True
            if self.letters(l) and u is False:
                y, a = self.letters(l)
                if any(z.tag == "zipped" and set(z.a) == {y, a} and w is True for z, w in self.f.items()):
                    return False
            if l.tag == "lt" and l.a[0].tag == "len" and self.is_text(l.a[0].a[0]) and u is True and self.end(l.a[1]):
                return False
            if l.tag == "outside" or l.tag == "app" and l.a[0] == "outside":
                x, r = l.a[-2:]
                if u is True and self.is_text(x) and r.tag == "agg" and r.a[0].split("::")[-1] == "Range" and self.start(r.a[2]) and self.end(r.a[3]):
                    return False
            if l.tag == "lt" and u is True and l.a[0].tag == "len" and self.trimmed(l.a[0].a[0]) and self.nine(l.a[1]):
                return False
            if l.tag == "app" and l.a[0].split("@")[0].endswith("eq_ignore_ascii_case") and any(self.is_name(x) and self.beginning(y) for x, y in (l.a[1:], l.a[:0:-1])):
                return u
        return None

    def structure(self):
        """does it have a html or body tag?"""
        w = {}
        lits = dict(self.f)
        for l, u in self.f.items():
            if l.tag == "forall" and u is True and l.a[1]:                # none of a list of tags
                fs = [factsdict(p.a[1]) for p in l.a[1]]
                src = loop_src(l.a[1][0])
                if src is not None and src.tag == "snap" and all(n.tag == "item" for n in splice(src.a[1])) and len(fs) == len(splice(src.a[1])) and all(len(x) == 1 for x in fs):
                    for x in fs:
                        lits.update(x)
        for l, u in lits.items():
            if l.tag == "app" and l.a[0].split("@")[0].endswith("contains") and len(l.a) == 3:
                t = l.a[1]
                if t.tag == "app" and t.a[0].split("@")[0].endswith(("to_ascii_lowercase", "to_lowercase")) and t.a[1] is self.input and l.a[2].tag == "str":
                    w[l.a[2].a[0]] = u
        if True in (w.get('"<html"'), w.get('"<body"')):
            return True
        return False if w.get('"<html"') is w.get('"<body"') is False else None


def v_parse(rep, prog):
    api = dict(HOT_API)
    api.update(TEXT)
    for n in ("tendril::StrTendril::push_tendril", "tendril::StrTendril::push_slice", "tendril::StrTendril::push_char"):
        api[n] = TEXT["std::string::String::push" if n.endswith("char") else "std::string::String::push_str"]
    api["tendril::StrTendril::new"] = TEXT["compact_str::CompactString::with_capacity"]
    names = next(a for n, a in prog.adts.items() if n.endswith("dom::Document"))["v"][0]["f"]
    dt = names.index("doctype")
    for fname in ("parse", "parse_body_fragment"):
        bs = [b for b in prog.bodies.values() if b["local"] and b["kind"] == "fn" and prog.nname(b["p"]).endswith("dom::" + fname)]
        if len(bs) != 1:
            raise Unsupported("function not found: " + fname)
        r = HRoot(prog, bs[0], [P("input")], matching=False, treeapi=False, extra=api)
        rep.use(r)
        w = at(bs[0])
        seen = set()
        for s, v in outs(r):
            reset = None
            while v.tag == "upd" and v.a[1] == 0 and v.a[2] == dt:
                reset, v = v.a[3] if reset is None else reset, v.a[0]
            if v.tag == "agg" and len(v.a) == 2 + len(names):                            # put together anew
                base = fld(v, 0, names.index("arena"))
                base = base.a[0] if base.tag == "fld" else base
                same = all(fld(v, 0, i) is fld(base, 0, i) for i in range(len(names)) if i != dt)
                reset = None if fld(v, 0, dt) is fld(base, 0, dt) else fld(v, 0, dt)
                v = base if same else v
            where = show(v, 5)[:300] + " where " + fshow(s.facts, 3)
            ok = v.tag == "app" and v.a[0].split("@")[0].endswith("::one") and v.a[1].tag == "app" and len(v.a) == 3
            start = v.a[1].a[1:] if ok else ()
            ok = ok and v.a[1].a[0].split("::")[-1] == ("parse_document" if fname == "parse" else "parse_fragment") and start[0].tag == "agg" and start[0].a[0].endswith("ArenaSink") and P("input") in start[0].a[2:]
            ok = ok and start[1].tag == "app" and start[1].a[0].endswith("default")
            if not rep.check(ok, "the text is parsed by html5ever, as it does by itself, into a new sink", w, where):
                continue
            ps = pieces(v.a[2])
            front = "".join(x.a[0][1:-1] for x in ps[:-1] if x.tag == "str").lower()
            if not rep.check(ps[-1:] == [P("input")] and all(x.tag == "str" for x in ps[:-1]), "the text is parsed as it is, with at most some tags in front of it and nothing behind it", w, " ".join(show(x, 4) for x in ps)):
                continue
            if fname != "parse":
                q = start[2]
                body = q.tag == "app" and q.a[0].endswith("QualName::new") and q.a[1:] == (NONE, mk("str", URL["Html"]), mk("str", '"body"')) or \
                    q.tag == "agg" and q.a[0].endswith("QualName") and set(q.a[2:]) == {NONE, mk("str", URL["Html"]), mk("str", '"body"')}
                rep.check(not front and reset is None and body and start[3].tag == "snap" and not start[3].a[1] and start[4] is TRUE, "a fragment is parsed as the content of a body, with scripting, and nothing is added to it", w, show(v.a[1], 5))
                continue
            g = Given(r.it, s.facts)
            doc, html = g.doctype(), g.structure()
            want = None if doc is None else "" if doc else None if html is None else "<!doctype html>" if html else "<!doctype html><html><body>"
            seen.add(want)
            rep.check(front == want, "a doctype goes in front exactly if the text begins with none, and an open body with it exactly if the text has no html or body tag", w, "%r, %r expected, where %s" % (front, want, fshow(s.facts, 5)[:600]))
            rep.check((reset is None) if doc else doc is False and reset is NONE, "a document has a doctype exactly if its text has", w, where)
        if fname == "parse":
            rep.check(seen == {"", "<!doctype html>", "<!doctype html><html><body>"}, "texts with and without doctype and structure are parsed", w, str(seen))


def v_sink(rep, prog):
    v_nodes(rep, prog)
    v_places(rep, prog)
    v_finish(rep, prog)
    v_parse(rep, prog)
