"""hotmeal's documents: what applying a patch changes."""
from term import *
from engine import *
from logic import *
from facts import splice, loop_src
from hot import *
from report import *
from chk_dom import Shape, No, ND, NK, ED, DOC
from chk_hot import same_list, uncast, at, fn, outs

PATCH, IC = "hotmeal::diff::Patch", "hotmeal::diff::InsertContent"


def past(k):
    return mk("base", "^", k, (), "past")


def path_part(t, lo=0, hi=None):
    """(path, first, end): which part of a path a list is; end None is all, else how many are left off"""
    while t.tag == "app" and t.a[0].split("@")[0].endswith("::index") and t.a[2].tag == "agg":
        r = t.a[2]
        n = r.a[0].split("::")[-1]
        parts = {"RangeFrom": (r.a[2], None), "RangeTo": (None, r.a[2]), "Range": r.a[2:4]}.get(n)
        if parts is None:
            return None
        a, b = parts
        if a is not None:
            if a.tag != "int":
                return None
            lo += a.a[0]
        if b is not None:
            if hi is not None or b.tag != "bin" or b.a[0] != "Sub" or b.a[1] is not mk("len", t.a[1]) or b.a[2].tag != "int":
                return None
            hi = b.a[2].a[0]
        t = t.a[1]
    return t, lo, hi or 0


class Doc:
    """the states of a document's arena in the course of a function"""

    def __init__(self, rep, prog, name, args, extra=None):
        self.rep, self.prog = rep, prog
        self.sh = Shape(prog)
        self.b = prog.fn("hotmeal::dom::Document::" + name) or next((b for b in prog.bodies.values() if b["local"] and b["kind"] == "fn" and prog.nname(b["p"]).endswith("Document::" + name)), None)
        if self.b is None:
            raise Unsupported("function not found: " + name)
        fs = next(a for n, a in prog.adts.items() if n.endswith("dom::Document"))["v"][0]["f"]
        heap = {"arena": mk("coll", "arena", (past("arena"),)), "slots": mk("coll", "HashMap", (past("slots"),)),
                "doc": mk("cell", agg(DOC, 0, *[mk("obj", "arena") if f == "arena" else P("doc_" + f) for f in fs]))}
        api = dict(HOT_API)
        api.update(extra or {})
        self.r = HRoot(prog, self.b, args, matching=False, treeapi=False, heap=heap, extra=api)
        rep.use(self.r)
        self.w = at(self.b)

    SELF = mk("ref", ("O", "doc"), ())
    SLOTS = mk("ref", ("O", "slots"), ())

    def events(self, s, k="arena"):
        out = []
        for n in splice(s.heap[k].a[1])[1:]:
            if n.tag == "set" and out and out[-1].tag == "set" and out[-1].a[0] is n.a[0]:         # written over at once
                out.pop()
            out.append(n)
        return out

    def fresh(self, i):
        return i.tag == "app" and i.a[0] in ("fresh", "clone")

    def moves(self, ns):
        """the changes that concern nodes of the document, without those that only prepare new ones"""
        out = []
        for n in ns:
            if n.tag == "base" or n.tag in ("node", "set", "rec") or n.tag == "link" and n.a[0] == "append" and self.fresh(n.a[1]):
                continue
            if n.tag == "loop" and not any(self.moves(p.a[2]) for p in n.a[2]):
                continue
            out.append(n)
        return out

    def state(self, t):
        """the changes made when this state of the arena was looked at"""
        if t.tag != "snap" or t.a[0] != "arena":
            return None
        return self.moves(splice(t.a[1]))

    def kids(self, t, par, state):
        """t lists the children of par in this state"""
        return t.tag == "app" and t.a[0] == D + "children" and t.a[2] is par and self.state(t.a[1]) == state

    def walked(self, f, v, path, left, state):
        """v is what the path leads to, without its last `left` numbers, beginning at the slot its first number names"""
        it = self.r.it
        if v.tag != "phi" or v not in it.phi:
            # a path of one number
            return False
        alts = [x for x, _ in it.phi[v]]
        if len(alts) != 2:
            return False
        ini = [x for x in alts if x.tag == "mapget"]
        nxt = [x for x in alts if x.tag != "mapget"]
        if len(ini) != 1 or len(nxt) != 1 or ini[0].a[0] is not snap("HashMap", (past("slots"),)):
            return False
        k = ini[0].a[1]
        if k.tag != "sel" or k.a[1] is not Int(0) or f.get(app_key(ini[0].a[0], k)) is not True:
            return False
        pp = path_part(k.a[0])
        if pp is None or pp[0] is not path or pp[1] != 0:
            return False
        pick = child_at(nxt[0])
        if pick is None or not self.kids(pick[0], mk("prev", v), state):
            return False
        e = uncast(pick[1])
        if e.tag != "elem" or path_part(e.a[1]) != (path, 1, left):
            return False
        # every number was followed
        return any(l.tag == "forall" and w is True and l.a[0] == v.a[0] for l, w in f.items())

    def reasons(self, f, path):
        """why navigation fails on this path"""
        out = set()
        for l, w in f.items():
            if l.tag == "eq" and w is True and Int(0) in l.a and any(x.tag == "len" and (path_part(x.a[0]) or (None,))[0] in path for x in l.a):
                out.add("empty")
            if l.tag == "lt" and w is True and l.a[0].tag == "len" and l.a[0].a[0] in path and l.a[1].tag == "int" and l.a[1].a[0] <= 2:
                out.add("empty")
            if l.tag == "haskey" and w is False and l.a[1].tag == "sel":
                out.add("slot")
            if l.tag == "disceq" and w is False and l.a[0].tag == "app" and l.a[0].a[0].startswith("reduce::nth"):
                out.add("range")
            if l.tag == "lt" and w is False and l.a[1].tag == "len" and l.a[1].a[0].tag == "app" and l.a[1].a[0].a[0] == D + "children":
                out.add("range")
        return out


def app_key(m, k):
    return mk("haskey", m, k)


def child_at(t):
    """(list, index) if t is a list's element"""
    if t.tag == "fld" and t.a[0].tag == "app" and t.a[0].a[0].startswith("reduce::nth"):
        return t.a[0].a[1], t.a[0].a[2]
    if t.tag == "sel":
        return t.a[0], t.a[1]
    return None


class Patched(Doc):
    """what a patch does"""

    def __init__(self, rep, prog, variant, extra=None):
        i = vidx(prog, "diff::Patch", variant)
        self.variant = variant
        names = next(a for n, a in prog.adts.items() if n.endswith("diff::Patch"))["v"][i]["f"]
        self.arg = {n: P(n) for n in names}
        Doc.__init__(self, rep, prog, "apply_patch", [Doc.SELF, agg(PATCH, i, *[P(n) for n in names]), Doc.SLOTS], extra)

    def path(self, name):
        """the numbers of a path argument: NodePath(numbers) or NodeRef(NodePath(numbers))"""
        t = fld(self.arg[name], 0, 0)
        return fld(t, 0, 0) if name in ("at", "node", "from", "to") else t

    def say(self, ok, rule, s=None, got=None):
        t = "%s: %s" % (self.variant, rule)
        d = []
        if got is not None:
            d.append(show(got, 5) if isinstance(got, T) else " ".join(show(n, 4) for n in got)[:600])
        if s is not None:
            d.append("given " + fshow(s.facts, 5))
        return self.rep.check(ok, t, self.w, " ".join(d))

    def results(self):
        for s, v in outs(self.r):
            if v.tag != "agg" or v.a[1] not in (0, 1):
                self.say(False, "whether it worked is said", s, v)
                continue
            yield s, v, v.a[1] == 0

    def slot_changes(self, s):
        def ops(ns):
            out = []
            for n in splice(ns):
                if n.tag == "base":
                    continue
                if n.tag == "once":
                    alts = {tuple(ops(p.a[2])) for p in n.a[0]}
                    out += list(alts.pop()) if len(alts) == 1 else [("?", n)]
                elif n.tag == "ins":
                    out.append(("ins", n.a[0], n.a[1]))
                else:
                    out.append(("?", n))
            return out
        return ops(s.heap["slots"].a[1])

    def error(self, s, v):
        es = [x for x in subterms(v) if x.tag == "agg" and x.a[0].endswith("diff::DiffError")]
        ad = next(a for n, a in self.prog.adts.items() if n.endswith("diff::DiffError"))
        return ad["v"][es[0].a[1]]["n"] if len(es) == 1 else None

    def failed(self, s, v, allowed, pure=True):
        """an error needs a reason, and is the one that says it"""
        if any(self.fresh(i) for i, _ in self.above(s.facts)):
            return                                                              # a new node is above no other
        e = self.error(s, v)
        why = self.reasons(s.facts, [self.path(n) for n in self.arg if n in ("at", "node", "from", "to", "path")])
        ok = {"EmptyPath": "empty" in why, "SlotMissingRelativePath": "empty" in why, "SlotNotFound": "slot" in why, "PathOutOfBounds": "range" in why}.get(e)
        if ok is None:
            ok = e in allowed and allowed[e](s.facts)
        self.say(ok, "an error is given only for its reason", s, v)
        if pure:
            self.say(not self.moves(self.events(s)) and not [n for n in self.events(s) if n.tag == "set"] and not s.eff, "a patch that fails leaves the document as it is", s, self.events(s))
        self.say(not self.slot_changes(s) or not pure, "a patch that fails leaves the slots as they are", s)

    def above(self, f):
        """(node, node below it or itself)"""
        for l, u in f.items():
            if l.tag == "eq" and u is True:
                for x, y in (l.a, l.a[::-1]):
                    if y.tag == "elem" and y.a[1].tag == "app" and y.a[1].a[0] == "ancestors":
                        yield x, y.a[1].a[2]

    # ---- what nodes hold
    def before(self, f, i, state):
        """the data of node i in a state of the arena"""
        return app("data", state, i)

    def is_kind(self, f, data, names):
        k = fld(data, 0, self.sh.kindf)
        return any(entails(f, disceq(k, self.sh.k[n], len(self.sh.k)), True) for n in names) or \
            all(entails(f, disceq(k, j, len(self.sh.k)), False) for n, j in self.sh.k.items() if n not in names)

    def isnt_kind(self, f, data, names):
        k = fld(data, 0, self.sh.kindf)
        return all(entails(f, disceq(k, self.sh.k[n], len(self.sh.k)), False) for n in names) or \
            any(entails(f, disceq(k, j, len(self.sh.k)), True) for n, j in self.sh.k.items() if n not in names)


def new_text(sh, n):
    """an empty text node is made"""
    if n.tag != "node" or n.a[1].tag != "agg":
        return False
    k = fld(n.a[1], 0, sh.kindf)
    return k.tag == "agg" and k.a[1] == sh.k["Text"] and chars(k.a[2]) is EMPTY


def data_of(f, facts_or_events, i):
    """the data terms of node i mentioned"""
    return {x for l in facts_or_events for x in subterms(l) if x.tag == "app" and x.a[0] == "data" and x.a[2] is i}


def targets(d, s, path):
    """the node the path leads to in the untouched document"""
    out = []
    for x in {x for l in list(s.facts) + list(s.eff) + list(d.events(s)) for x in subterms(l) if x.tag == "phi"}:
        if d.walked(s.facts, x, path, 0, []):
            out.append(x)
    return out


def old_data(d, s, i):
    ds = [x for x in data_of(s.facts, list(s.facts) + list(s.eff) + list(d.events(s)), i) if d.state(x.a[1]) == [] and not any(n.tag == "set" or n.tag == "base" and n.a[0] != "^" for n in splice(x.a[1].a[1]))]
    return ds[0] if ds else app("data", snap("arena", (past("arena"),)), i)


def p_remove(rep, prog):
    d = Patched(rep, prog, "Remove")
    path = d.path("node")
    n = 0
    for s, v, ok in d.results():
        if not ok:
            d.failed(s, v, {})
            continue
        n += 1
        m = d.moves(d.events(s))
        t = targets(d, s, path)
        good = len(t) == 1 and len(m) == 2 and not d.slot_changes(s) and not s.eff
        if good:
            i = t[0]
            news = [e for e in d.events(s) if e.tag == "node"]
            good = len(news) == 1 and new_text(d.sh, news[0])
            if good and m[0].tag == "link" and m[1].tag == "cut":        # placeholder first, then out
                good = m[0].a[0] in ("before", "after") and m[0].a[1] is i and m[0].a[2] is news[0].a[0] and m[1].a[0] is i
            else:
                good = False
        d.say(good, "exactly the node the path leads to is taken out, and an empty text stands in its place", s, m)
    d.say(n > 0, "a node can be removed")


def p_settext(rep, prog):
    d = Patched(rep, prog, "SetText")
    path = d.path("path")
    seen = set()
    for s, v, ok in d.results():
        t = targets(d, s, path)
        old = old_data(d, s, t[0]) if len(t) == 1 else None
        if not ok:
            d.failed(s, v, {"NotATextNode": lambda f: old is not None and d.isnt_kind(f, old, ("Text", "Comment"))})
            continue
        ev = [e for e in d.events(s) if e.tag != "node"]
        good = old is not None and len(ev) == 1 and ev[0].tag == "set" and ev[0].a[0] is t[0] and not s.eff and not d.slot_changes(s)
        if good:
            k = [n for n in ("Text", "Comment") if d.is_kind(s.facts, old, (n,))]
            good = len(k) == 1 and same_data(d, ev[0].a[1], old, {("kind", k[0]): lambda x: chars(x) is P("text")})
            seen |= set(k)
        d.say(good, "the text of the node the path leads to becomes the given one, and nothing else changes", s, d.events(s))
    d.say(seen == {"Text", "Comment"}, "the text of text and comment nodes can be set", None, None)


def same_data(d, new, old, but):
    """a node's data is unchanged except for the one thing"""
    (what, var), test = next(iter(but.items()))
    sh = d.sh
    k = fld(new, 0, sh.kindf)
    if fld(new, 0, sh.nsf) is not fld(old, 0, sh.nsf) or k.tag == "agg" and k.a[1] != sh.k[var]:
        return False
    body, was = fld(k, sh.k[var], 0), fld(fld(old, 0, sh.kindf), sh.k[var], 0)
    if what == "kind":
        return test(body)
    return fld(body, 0, sh.tagf) is fld(was, 0, sh.tagf) and test(fld(body, 0, sh.attrsf), fld(was, 0, sh.attrsf))


def p_setattr(rep, prog):
    d = Patched(rep, prog, "SetAttribute")
    path = d.path("path")
    seen = set()
    for s, v, ok in d.results():
        t = targets(d, s, path)
        old = old_data(d, s, t[0]) if len(t) == 1 else None
        if not ok:
            d.failed(s, v, {"NotAnElement": lambda f: old is not None and d.isnt_kind(f, old, ("Element",))})
            continue
        ev = [e for e in d.events(s) if e.tag != "node"]
        attrs = fld(fld(fld(old, 0, d.sh.kindf), d.sh.k["Element"], 0), 0, d.sh.attrsf) if old is not None else None
        good = attrs is not None and not d.slot_changes(s) and d.is_kind(s.facts, old, ("Element",))
        if good and not ev and len(s.eff) == 1:
            w = s.eff[0]
            seen.add("old")
            good = w.tag == "lostwrite" and chars(w.a[1]) is P("value") and any(
                x.tag == "elem" and x.a[1] is attrs and w.a[0] is fld(x, 0, 1) and s.facts.get(eq(fld(x, 0, 0), P("name"))) is True for x in subterms(w.a[0]))
        elif good and len(ev) == 1 and not s.eff and ev[0].tag == "set" and ev[0].a[0] is t[0] and same_data(d, ev[0].a[1], old, {("attrs", "Element"): lambda x, was: replaced(s.facts, x, was, P("name"), P("value"))}):
            seen.add("old")
        elif good and len(ev) == 1 and not s.eff:
            seen.add("new")
            none = any(l.tag == "forall" and u is True and l.a[1] and all(loop_src(p) is attrs and factsdict(p.a[1]).get(eq(P("name"), fld(mk("elem", p.a[3][0].a[0], attrs), 0, 0))) is False
                                                                         for p in l.a[1]) for l, u in s.facts.items())
            good = none and ev[0].tag == "set" and ev[0].a[0] is t[0] and same_data(d, ev[0].a[1], old, {("attrs", "Element"): lambda x, was: added(x, was, P("name"), P("value"))})
        else:
            good = False
        d.say(good, "the attribute of the element the path leads to has the given value afterwards, at its place or at the end, and nothing else changes", s, d.events(s))
    d.say(seen == {"old", "new"}, "attributes can be changed and added")


def replaced(f, x, was, name, value):
    """an entry that has the name gets the value"""
    if x.tag != "upd" or x.a[0] is not was or x.a[1] != -1 or x.a[3].tag != "upd":
        return False
    at_, y = x.a[2], x.a[3]
    es = [e for l, u in f.items() if u is True and l.tag == "eq" for e in subterms(l) if e.tag == "elem" and e.a[1] is was and at_ is mk("idx", e) and eq(name, fld(e, 0, 0)) is l]
    return bool(es) and y.a[0] is mk("sel", was, at_) and y.a[2] == 1 and chars(y.a[3]) is value


def added(x, was, name, value):
    if x.tag != "snap":
        return False
    ns = splice(x.a[1])
    return len(ns) == 2 and ns[0].tag == "copyof" and ns[0].a[0] is was and ns[1].tag == "item" and ns[1].a[0].tag == "agg" \
        and ns[1].a[0].a[2] is name and chars(ns[1].a[0].a[3]) is value


def p_removeattr(rep, prog):
    d = Patched(rep, prog, "RemoveAttribute")
    path = d.path("path")
    n = 0

    def kept(x, was):
        if x.tag != "snap":
            return False
        ns = splice(x.a[1])
        if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4]:
            return False
        seen = set()
        for p in ns[0].a[2]:
            if loop_src(p) is not was:
                return False
            e = mk("elem", p.a[3][0].a[0], was)
            same = factsdict(p.a[1]).get(eq(P("name"), fld(e, 0, 0)))
            its = splice(p.a[2])
            if same is None or (len(its) != 0) == same or its and not (len(its) == 1 and its[0].tag == "item" and its[0].a[0] is e):
                return False
            seen.add(same)
        return seen == {True, False}
    for s, v, ok in d.results():
        t = targets(d, s, path)
        old = old_data(d, s, t[0]) if len(t) == 1 else None
        if not ok:
            d.failed(s, v, {"NotAnElement": lambda f: old is not None and d.isnt_kind(f, old, ("Element",))})
            continue
        n += 1
        ev = [e for e in d.events(s) if e.tag != "node"]
        good = old is not None and not d.slot_changes(s) and not s.eff and len(ev) == 1 and ev[0].tag == "set" and ev[0].a[0] is t[0] \
            and d.is_kind(s.facts, old, ("Element",)) and same_data(d, ev[0].a[1], old, {("attrs", "Element"): kept})
        d.say(good, "exactly the attributes with the name are taken from the element the path leads to", s, d.events(s))
    d.say(n > 0, "attributes can be removed")


def p_props(rep, prog):
    d = Patched(rep, prog, "UpdateProps")
    path, changes = d.path("path"), P("changes")
    cn, cv = fidx(prog, "PropChange", "name"), fidx(prog, "PropChange", "value")
    text, attr = vidx(prog, "PropKey", "Text"), vidx(prog, "PropKey", "Attr")
    seen = set()

    def is_(f, e, k):
        """is this change about an attribute / the text?"""
        return entails(f, disceq(fld(e, 0, cn), k, 2), True) or entails(f, disceq(fld(e, 0, cn), 1 - k, 2), False)

    def final(f, ev, i, old, was):
        """how the attributes are built: [node]"""
        out = None
        for n in ev:
            if n.tag == "set" and n.a[0] is i:
                new = []
                if not same_data(d, n.a[1], old, {("attrs", "Element"): lambda x, w: new.append(x) or True}):
                    return None
                x = new[0]
                if x.tag != "snap" or any(y.tag == "copyof" for y in splice(x.a[1])):
                    return None
                out = list(splice(x.a[1]))
            elif n.tag == "loop":
                ps = []
                for p in n.a[2]:
                    its = []
                    for y in splice(p.a[2]):
                        if y.tag == "base":
                            continue
                        if y.tag != "set" or y.a[0] is not i or out is None or its:
                            return None
                        new = []
                        # what is pushed onto is what the round found
                        cur = [x for x in data_of(f, [y.a[1]], i) if x.a[1].a[1] and x.a[1].a[1][-1].tag == "base" and x.a[1].a[1][-1].a[0] == n.a[0]]
                        if len(cur) != 1:
                            return None
                        cur = cur[0]
                        if not same_data(d, y.a[1], cur, {("attrs", "Element"): lambda x, w: new.append((x, w)) or True}):
                            return None
                        x, w = new[0]
                        xs = splice(x.a[1]) if x.tag == "snap" else ()
                        if len(xs) != 2 or xs[0].tag != "copyof" or xs[0].a[0] is not w or xs[1].tag != "item":
                            return None
                        its.append(xs[1])
                    ps.append((p, its))
                out = (out or []) + [("loop", n, ps)]
            else:
                return None
        return out

    for s, v, ok in d.results():
        t = targets(d, s, path)
        if not ok:
            d.failed(s, v, {})
            continue
        old = old_data(d, s, t[0]) if len(t) == 1 else None
        if old is None:
            d.say(False, "the changes concern the node the path leads to", s, d.events(s))
            continue
        i, f = t[0], s.facts
        ev = [e for e in d.events(s) if e.tag != "node"]
        if d.slot_changes(s) or s.eff:
            d.say(False, "nothing but the node is changed", s, d.events(s))
            continue
        if d.is_kind(f, old, ("Element",)):
            seen.add("Element")
            how = final(f, ev, i, old, None)
            d.say(how is not None and rebuilt(d, f, how, attrs_of(d, old)), "the element's attributes become those in the changes, in order, with the new value or else the one it had", s, ev)
        elif d.isnt_kind(f, old, ("Element",)):
            es = {x for l in f if l.tag == "disceq" for x in subterms(l) if x.tag == "elem" and x.a[1] is changes and is_(f, x, text)}
            none = any(l.tag == "forall" and u is True and l.a[1] and all(loop_src(p) is changes and is_(factsdict(p.a[1]), mk("elem", p.a[3][0].a[0], changes), attr) for p in l.a[1])
                       for l, u in f.items())
            given = [e for e in es if entails(f, disceq(fld(e, 0, cv), 1), True)]
            notext = [k for k in ("Text", "Comment") if not d.isnt_kind(f, old, (k,))] == []
            if not ev:
                d.say(none or notext or any(entails(f, disceq(fld(e, 0, cv), 1), False) for e in es), "a new text is not left out", s)
                continue
            k = [k for k in ("Text", "Comment") if d.is_kind(f, old, (k,))]
            seen |= set(k)
            d.say(len(k) == 1 and len(ev) == 1 and ev[0].tag == "set" and ev[0].a[0] is i and len(given) == 1
                  and same_data(d, ev[0].a[1], old, {("kind", k[0]): lambda x: chars(x) is chars(fld(fld(given[0], 0, cv), 1, 0))}),
                  "a text or comment takes the new text, and nothing else changes", s, ev)
        else:
            d.say(not ev, "the changes depend on what kind of node it is", s, ev)
    d.say(seen == {"Element", "Text", "Comment"}, "elements, texts and comments can be updated", None, [P(x) for x in sorted(seen)])


def attrs_of(d, data):
    return fld(fld(fld(data, 0, d.sh.kindf), d.sh.k["Element"], 0), 0, d.sh.attrsf)


def rebuilt(d, f, how, old):
    """the list is made of the changes, in order"""
    prog, changes = d.prog, P("changes")
    cn, cv = fidx(prog, "PropChange", "name"), fidx(prog, "PropChange", "value")
    attr = vidx(prog, "PropKey", "Attr")
    if len(how) != 1:
        return False
    n = how[0]
    n, paths = (n[1], n[2]) if isinstance(n, tuple) else (n, [(p, list(splice(p.a[2]))) for p in n.a[2]] if n.tag == "loop" else None)
    if paths is None or n.a[1] != "end" or n.a[4]:
        return False
    seen = set()
    for p, its in paths:
        if loop_src(p) is not changes:
            return False
        e = mk("elem", p.a[3][0].a[0], changes)
        g = dict(f)
        g.update(factsdict(p.a[1]))
        k = disceq(fld(e, 0, cn), attr)
        if entails(g, k, False):
            if its:
                return False
            continue
        if not entails(g, k, True) or len(its) != 1 or its[0].tag != "item":
            return False
        name, x = fld(fld(e, 0, cn), attr, 0), its[0].a[0]
        if x.tag != "agg" or len(x.a) != 4 or x.a[2] is not name:
            return False
        if entails(g, disceq(fld(e, 0, cv), 1), True):
            seen.add("new")
            if chars(x.a[3]) is not chars(fld(fld(e, 0, cv), 1, 0)):
                return False
        elif entails(g, disceq(fld(e, 0, cv), 1), False):
            os = [o for o in variables(x.a[3]) if o.tag == "elem" and o.a[1] is old] if x.a[3].tag == "fld" else []
            if os:
                seen.add("kept")
                if g.get(eq(fld(os[0], 0, 0), name)) is not True or chars(x.a[3]) is not chars(fld(os[0], 0, 1)):
                    return False
            else:
                none = any(l.tag == "forall" and u is True and l.a[1] and all(loop_src(q) is old and factsdict(q.a[1]).get(eq(fld(mk("elem", q.a[3][0].a[0], old), 0, 0), name)) is False
                                                                              for q in l.a[1]) for l, u in g.items())
                if not none:
                    return False
        else:
            return False
    return seen == {"new", "kept"}


def a_parse(it, st, args, ctx):
    return [(st, app("parsed", chars(it.rv(st, args[0]))))]


def a_body(it, st, args, ctx):
    return [(st, app("bodyof", it.rv(st, args[0])))]


def a_clone(it, st, args, ctx):
    return [(st, app("clone", it.rv(st, args[1]), it.rv(st, args[2])))]


def p_opaque(rep, prog):
    d = Patched(rep, prog, "OpaqueChanged", {"hotmeal::dom::parse": a_parse, "hotmeal::dom::Document::body": a_body, "hotmeal::dom::Document::clone_subtree_from": a_clone})
    path = d.path("path")
    n = 0
    for s, v, ok in d.results():
        if not ok:
            d.failed(s, v, {})
            continue
        t = targets(d, s, path)
        m = d.moves(d.events(s))
        good = len(t) == 1 and len(m) in (1, 2) and not d.slot_changes(s) and not s.eff and not [x for x in d.events(s) if x.tag == "set"]
        good = good and each(d, m[0], lambda x: d.kids(x, t[0], []), lambda e, its: len(its) == 1 and its[0].tag == "cut" and its[0].a[0] is e)
        if good and len(m) == 2:
            n += 1
            src = []
            good = each(d, m[1], lambda x: src.append(x) or True, lambda e, its: len(its) == 1 and its[0].tag == "link" and its[0].a[0] == "append" and its[0].a[1] is t[0]
                        and its[0].a[2] is app("clone", src[-1].a[1], e)) and len(set(src)) == 1 and wrapped(src[0], P("content"))
        elif good:
            good = any(l.tag == "disceq" and not u and l.a[0].tag == "app" and l.a[0].a[0] == "bodyof" or l.tag == "eq" and u and Int(0) in l.a
                       and any(x.tag == "len" and x.a[0].tag == "app" and x.a[0].a[0] == D + "children" for x in l.a) for l, u in s.facts.items())
        d.say(good, "all children of the node the path leads to are taken out, and copies of what the content parses to are put in, in order", s, m)
    d.say(n > 0, "new content is put in")


def each(d, n, src, test):
    """a loop through all of a list that does this to every element"""
    if n.tag != "loop" or n.a[1] != "end" or n.a[4]:
        return False
    for p in n.a[2]:
        x = loop_src(p)
        if x is None or not src(x) or not test(mk("elem", p.a[3][0].a[0], x), d.moves(p.a[2])):
            return False
    return bool(n.a[2])


def wrapped(t, content):
    """t lists the children of the element around the content in a page"""
    if t.tag != "app" or t.a[0] != D + "children" or t.a[1].tag != "app" or t.a[1].a[0] != "parsed":
        return False
    page, inner = t.a[1], t.a[2]
    lits = [x.a[0] for x in subterms(page.a[1]) if x.tag == "const"]
    args = [x for x in subterms(page.a[1]) if x.tag == "app" and x.a[0] == "fmt" and chars(x.a[1]) is content]
    if len(lits) != 1 or len(args) != 1 or str(lits[0]).count("\\xc0") != 1:
        return False
    before = str(lits[0]).split("\\xc0")[0]
    depth = 0
    while inner.tag == "elem" and inner.a[1].tag == "app" and inner.a[1].a[0] == D + "children" and inner.a[1].a[1] is page:
        inner, depth = inner.a[1].a[2], depth + 1
    body = app("bodyof", page)
    return inner is fld(body, 1, 0) and before.count("<body>") == 1 and before.split("<body>")[1].count("<") == depth


def last_number(path, t):
    """t is the last number of the path"""
    t = uncast(t)
    return t.tag == "sel" and t.a[0] is path and t.a[1].tag == "bin" and t.a[1].a[0] == "Sub" and t.a[1].a[1] is mk("len", path) and t.a[1].a[2] is Int(1)


def counts(it, g):
    """for each way through a loop, the (first, end) it counts through: a range, or a number that goes up by one"""
    if g.a[1] == "end" and not g.a[4]:
        for p in g.a[2]:
            src = loop_src(p)
            yield src.a[:2] if src is not None and src.tag == "range" else None
        return
    for p in g.a[2]:
        f, got = factsdict(p.a[1]), None
        for l, u in f.items():
            if l.tag == "lt" and u is True and l.a[0].tag == "phi" and l.a[0].a[0] == g.a[0] and l.a[0] in it.phi and g.a[1] == "break":
                v = l.a[0]
                alts = {x for x, _ in it.phi[v]}
                up = {x for x in alts if x.tag == "bin" and x.a[0] == "Add" and set(x.a[1:]) == {mk("prev", v), Int(1)}}
                ini = alts - up
                if up and len(ini) == 1 and p.a[0] == "back" and len(f) == 1 and all(factsdict(q.a[1]) == {l: False} for q in g.a[4]):
                    got = next(iter(ini)), l.a[1]
        yield got


def inserted(d, s, path, slot, new, pre):
    """what happens after `pre` puts `new` at the place the path names; what stood there goes to the slot"""
    f = s.facts
    m = d.moves(d.events(s))
    if m[:len(pre)] != pre:
        return "something else is changed before"
    rest = list(m[len(pre):])
    if not rest:
        return "nothing is put in"
    last = rest.pop()
    # the parent
    ps = {x for x in variables(mkfacts(f)) if x.tag == "phi"} | {x for x in subterms(last) if x.tag == "phi"}
    ps = [x for x in ps if d.walked(f, x, path, 1, pre)]
    if len(ps) != 1:
        return "the parent is not what the path without its last number leads to"
    par = ps[0]

    def below(l, state):
        """is this a comparison of the position with the number of children in this state?"""
        return l.tag == "lt" and last_number(path, l.a[0]) and l.a[1].tag == "len" and d.kids(l.a[1].a[0], par, state)

    def known(state):
        for l, u in f.items():
            if below(l, state):
                return u
        return None
    # what stood there
    state = list(pre)
    gets = entails(f, disceq(slot, 1), True)
    ops = d.slot_changes(s)
    there = known(state)
    if gets and there is not False:
        if there is not True:
            return "what stands at the place is not looked for"
        if not rest or rest[0].tag != "cut":
            return "what stood at the place is not taken out"
        c = rest.pop(0)
        at_ = child_at(c.a[0])
        if at_ is None or not d.kids(at_[0], par, state) or not last_number(path, at_[1]):
            return "something else than what stood at the place is taken out"
        if ops != [("ins", fld(slot, 1, 0), c.a[0])]:
            return "what stood at the place is not put in the slot"
        state.append(c)
    elif ops:
        return "a slot changes"
    elif not gets and not entails(f, disceq(slot, 1), False):
        return "it is not asked whether there is a slot"
    # the gap
    before = known(state)
    if rest:
        g = rest.pop(0)
        if g.tag != "loop" or rest:
            return "something else is changed"
        for p, src in zip(g.a[2], counts(d.r.it, g)):
            its = splice(p.a[2])
            its = [x for x in its if x.tag != "base"]
            if src is None or src[0].tag != "len" or not d.kids(src[0].a[0], par, state) or not last_number(path, src[1]):
                return "the gap is not from the number of children to the position"
            if not (len(its) == 2 and new_text(d.sh, its[0]) and its[1] is mk("link", "append", par, its[0].a[0])):
                return "the gap is not filled with empty texts"
        state.append(g)
    elif known(state) is not True:
        return "a gap before the position is not filled"
    if last.tag != "link" or last.a[2] is not new:
        return "it is not the node that is put in"
    k = known(state)
    if k is None and before is False:                     # there was nobody, and the texts filled in end right before
        k = False
    if last.a[0] == "append":
        return None if last.a[1] is par and k is False else "the node is put at the end although the position is not there"
    if last.a[0] == "before":
        at_ = child_at(last.a[1])
        ok = k is True and at_ is not None and d.kids(at_[0], par, state) and last_number(path, at_[1])
        return None if ok else "the node is put in front of another one than stands at the position"
    return "the node is put somewhere else"


def made(d, f, n, var, text):
    k = fld(n.a[1], 0, d.sh.kindf) if n.a[1].tag == "agg" else None
    return k is not None and k.tag == "agg" and k.a[1] == d.sh.k[var] and chars(k.a[2]) is chars(text)


def p_insert(rep, prog, variant, var):
    d = Patched(rep, prog, variant)
    path = d.path("at")
    n = 0
    for s, v, ok in d.results():
        if not ok:
            d.failed(s, v, {})
            continue
        n += 1
        news = [x for x in d.events(s) if x.tag == "node"]
        if not d.say(len(news) == 1 and made(d, s.facts, news[0], var, P("text")) and not s.eff and not [x for x in d.events(s) if x.tag == "set"],
                     "one node with the text is made", s, d.events(s)):
            continue
        why = inserted(d, s, path, P("detach_to_slot"), news[0].a[0], [])
        d.say(why is None, "the node is put at the position; what stood there goes to the slot if there is one; %s" % (why or "ok"), s, d.moves(d.events(s)))
    d.say(n > 0, "a node can be put in")


def p_move(rep, prog):
    d = Patched(rep, prog, "Move")
    src, dst = d.path("from"), d.path("to")
    seen = set()
    for s, v, ok in d.results():
        if not ok:
            t, pre = targets(d, s, src), d.moves(d.events(s))
            d.failed(s, v, {"MoveIntoItself": lambda f: any(i in t and d.walked(f, x, dst, 1, pre) for i, x in d.above(f))}, pure=False)
            if not targets(d, s, src):
                d.say(not d.moves(d.events(s)), "a node that is not found is not moved", s, d.events(s))
            continue
        t = targets(d, s, src)
        m = d.moves(d.events(s))
        news = [x for x in d.events(s) if x.tag == "node"]
        if not d.say(len(t) == 1 and not s.eff and not [x for x in d.events(s) if x.tag == "set"] and all(new_text(d.sh, x) for x in news), "the node the path leads to is moved, and none is changed", s, m):
            continue
        i = t[0]
        n = mk("len", src)
        one = [l for l in (eq(n, Int(1)), lt(n, Int(2)), neg(lt(Int(1), n)))]
        root, inner = (any(entails(s.facts, l, u) for l in one) for u in (True, False))
        if inner:
            good = len(news) == 1 and len(m) > 2 and m[0].tag == "link" and m[0].a[0] in ("before", "after") and m[0].a[1] is i and m[0].a[2] is news[0].a[0] \
                and m[1] is mk("cut", i)
            d.say(good, "an empty text is left at the place of the node", s, m)
            pre = m[:2]
        else:
            d.say(root and not news and m[0] is mk("cut", i), "the content of a slot is taken as a whole, without a placeholder", s, m)
            pre = m[:1]
        seen.add(inner)
        why = inserted(d, s, dst, P("detach_to_slot"), i, pre)
        d.say(why is None, "the node is put at the position; what stood there goes to the slot if there is one; %s" % (why or "ok"), s, m)
    d.say(seen == {True, False}, "nodes of the document and of slots can be moved")


class Content:
    """content to be inserted, and the nodes it becomes"""

    def __init__(self, d):
        self.d = d
        self.k = {n: vidx(d.prog, "InsertContent", n) for n in ("Element", "Text", "Comment")}
        v = next(a for n, a in d.prog.adts.items() if n.endswith("diff::InsertContent"))["v"]
        self.f = {n: v[self.k["Element"]]["f"].index(n) for n in ("tag", "attrs", "children")}
        self.helpers = {}

    def kind(self, f, e):
        for n, k in self.k.items():
            if entails(f, disceq(e, k, len(self.k)), True):
                return n
        left = [n for n, k in self.k.items() if not entails(f, disceq(e, k, len(self.k)), False)]
        return left[0] if len(left) == 1 else None

    def element(self, f, ns, tag, attrs, children, result):
        """these changes make an element with this name and these attributes and children, and nothing else"""
        d, sh = self.d, self.d.sh
        if not ns or ns[0].tag != "node" or ns[0].a[1].tag != "agg":
            raise No("no element is made")
        i, data = ns[0].a
        k = fld(data, 0, sh.kindf)
        if k.tag != "agg" or k.a[1] != sh.k["Element"] or k.a[2].tag != "agg":
            raise No("what is made is not an element")
        el = k.a[2]
        if chars(fld(el, 0, sh.tagf)) is not chars(tag):
            raise No("the element has another name")
        if not pairs(d, fld(el, 0, sh.attrsf), attrs):
            raise No("the element has other attributes: " + show(fld(el, 0, sh.attrsf), 5))
        rest = ns[1:]
        if result is not None and result is not i:
            raise No("another node is the result")
        self.appended(f, rest, i, children)
        return i

    def appended(self, f, rest, i, children):
        """these changes append what the children become to a node, in order"""
        if len(rest) == 1 and rest[0].tag == "rec":                              # by a helper that calls itself
            key, args = rest[0].a[:2]
            if len(args) != 3 or [a for a in args if a in (i, children)] not in ([i, children], [children, i]):
                raise No("the children are not made one by one")
            self.helpers[key] = [args.index(i), args.index(children)]
            return
        if len(rest) != 1 or rest[0].tag != "loop" or rest[0].a[1] != "end":
            raise No("the children are not made one by one")
        n = rest[0]
        if n.a[4] and not any(l.tag == "forall" and u is True and l.a[0] == n.a[0] for l, u in f.items()):
            raise No("not every child is made")
        for p in n.a[2]:
            src = loop_src(p)
            if src is not children:
                raise No("it is not the children of the content that are made")
            c = mk("elem", p.a[3][0].a[0], src)
            g = dict(f)
            g.update(factsdict(p.a[1]))
            its = [x for x in splice(p.a[2]) if x.tag != "base"]
            if not its or its[-1].tag != "link" or its[-1].a[0] != "append" or its[-1].a[1] is not i:
                raise No("a child is not put at the end of the element")
            ci = its.pop().a[2]
            if len(its) == 1 and its[0].tag == "rec":
                r = app_of(ci)
                if r is None or not r.a[0].startswith("rec:") or r.a[-1] is not c:
                    raise No("a child is made of something else")
                continue
            self.content(g, its, c, ci)

    def content(self, f, ns, e, result):
        k = self.kind(f, e)
        if k is None:
            raise No("what is made does not depend on what the content is")
        if k == "Element":
            self.element(f, ns, *[fld(e, self.k[k], self.f[n]) for n in ("tag", "attrs", "children")], result)
        elif len(ns) != 1 or ns[0].tag != "node" or ns[0].a[0] is not result or not made(self.d, f, ns[0], k, fld(e, self.k[k], 0)):
            raise No("it is not one %s that is made: %s" % (k, " ".join(show(n, 4) for n in ns)[:300]))


def app_of(t):
    """the call whose successful result t is"""
    if t.tag == "fld" and t.a[0].tag == "app":
        return t.a[0]
    return None


def pairs(d, v, attrs):
    """v lists the names and values of these attributes"""
    an, av = fidx(d.prog, "AttrPair", "name"), fidx(d.prog, "AttrPair", "value")
    if v.tag != "snap":
        return False
    ns = splice(v.a[1])
    if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4]:
        return False
    for p in ns[0].a[2]:
        e = mk("elem", p.a[3][0].a[0], attrs)
        if loop_src(p) is not attrs or len(p.a[2]) != 1 or p.a[2][0].tag != "item":
            return False
        x = p.a[2][0].a[0]
        if x.tag != "agg" or len(x.a) != 4 or x.a[2] is not fld(e, 0, an) or chars(x.a[3]) is not chars(fld(e, 0, av)):
            return False
    return bool(ns[0].a[2])


def p_element(rep, prog):
    d = Patched(rep, prog, "InsertElement")
    c = Content(d)
    path = d.path("at")
    n = 0
    for s, v, ok in d.results():
        if not ok:
            bad = any(l.tag == "disceq" and l.a[0].tag == "app" and l.a[0].a[0].startswith("rec:") for l in s.facts)
            if not bad:
                d.failed(s, v, {})
            else:
                d.say(not d.moves(d.events(s)) and not d.slot_changes(s), "content that cannot be made changes nothing", s, d.events(s))
            continue
        n += 1
        m = d.moves(d.events(s))
        ns = d.events(s)
        ns = list(ns[:next((j for j, x in enumerate(ns) if x in m), len(ns))])
        try:
            i = c.element(s.facts, ns, P("tag"), P("attrs"), P("children"), None)
        except No as e:
            d.say(False, "the element is made as the patch says: %s" % e, s, ns)
            continue
        d.say(not s.eff, "the element is made as the patch says")
        why = inserted(d, s, path, P("detach_to_slot"), i, [])
        d.say(why is None, "the node is put at the position; what stood there goes to the slot if there is one; %s" % (why or "ok"), s, m)
    d.say(n > 0, "an element can be put in")
    # content, by induction
    c0 = c
    d = Doc(rep, prog, "create_insert_content", [Doc.SELF, P("content")])
    c = Content(d)
    seen = set()
    for s, v in outs(d.r):
        ok = v.tag == "agg" and v.a[1] == 0
        if v.tag == "agg" and v.a[1] == 1:
            rep.check(any(l.tag == "disceq" and l.a[0].tag == "app" and l.a[0].a[0].startswith("rec:") for l in s.facts), "making content does not fail by itself", d.w, show(v, 4))
            continue
        try:
            c.content(s.facts, d.events(s), P("content"), v.a[2] if ok else v)
            seen.add(c.kind(s.facts, P("content")))
            rep.check(not s.eff and not d.moves(d.events(s)), "content becomes a new subtree that mirrors it", d.w)
        except No as e:
            rep.check(False, "content becomes a new subtree that mirrors it", d.w, str(e))
    rep.check(seen == {"Element", "Text", "Comment"}, "elements, texts and comments can be made", d.w, str(seen))
    todo, done = {**c0.helpers, **c.helpers}, set()
    while todo:
        key, (pi, ci) = todo.popitem()
        if key in done:
            continue
        done.add(key)
        par, kids = P("parent"), P("contents")
        args = [par if j == pi else kids if j == ci else Doc.SELF for j in range(3)]
        d = Doc(rep, prog, prog.nname(prog.bodies[key]["p"]).split("Document::")[-1], args)
        c = Content(d)
        for s, v in outs(d.r):
            if v.tag == "agg" and v.a[1] == 1:
                rep.check(any(l.tag == "disceq" and l.a[0].tag == "app" and l.a[0].a[0].startswith("rec:") for l in s.facts), "making content does not fail by itself", d.w, show(v, 4))
                continue
            try:
                c.appended(s.facts, d.events(s), par, kids)
                rep.check(not s.eff, "contents become new subtrees at the end of a node", d.w)
            except No as e:
                if d.events(s) or not entails(s.facts, eq(mk("len", kids), Int(0)), True):
                    rep.check(False, "contents become new subtrees at the end of a node", d.w, str(e))
        todo.update(c.helpers)


def a_apply(it, st, args, ctx):
    st = st.copy()
    event(it, st, st.heap["doc"].a[0].a[2 + fidx(it.p, "dom::Document", "arena")], mk("applied", it.rv(st, args[1]), it.rv(st, args[2])))
    return [(st, app("result", it.rv(st, args[1])))]


def a_ensure(it, st, args, ctx):
    return [(st, app("ensured", it.rv(st, args[0])))]


def p_all(rep, prog):
    extra = {"hotmeal::dom::Document::apply_patch": a_apply, "hotmeal::dom::Document::body": a_body, "hotmeal::dom::Document::ensure_body": a_ensure}

    def body_slot(d, f, slots):
        """slot 0 holds the body, made if there is none, and there are no others"""
        if slots.tag != "snap":
            return False
        ns = [n for n in splice(slots.a[1])]
        if len(ns) == 1 and ns[0].tag == "once":
            ns = {tuple(y.a[:2] if y.tag == "ins" else (y,) for y in splice(q.a[2])) for q in ns[0].a[0]}
            return all(len(x) == 1 and len(x[0]) == 2 and x[0][0] is Int(0) and is_body(d, f, x[0][1]) for x in ns)
        return len(ns) == 1 and ns[0].tag == "ins" and ns[0].a[0] is Int(0) and is_body(d, f, ns[0].a[1])

    def is_body(d, f, x):
        b = app_of(x) if x.tag == "fld" else x
        if b is None or b.tag != "app":
            return False
        if b.a[0] == "ensured":
            return any(l.tag == "disceq" and not u and l.a[0].tag == "app" and l.a[0].a[0] == "bodyof" for l, u in f.items())
        return x.tag == "fld" and b.a[0] == "bodyof"

    d = Doc(rep, prog, "apply_patches", [Doc.SELF, P("patches")], extra)
    seen = set()
    for s, v in outs(d.r):
        ev = [n for n in d.events(s)]
        good = v.tag == "agg" and not s.eff
        bad = v.a[1] == 1 if good else None
        if good and not ev:
            good = not bad and entails(s.facts, eq(mk("len", P("patches")), Int(0)), True)
            rep.check(good, "all patches are applied", d.w, fshow(s.facts, 4))
            continue
        n = ev[0]
        good = good and n.tag == "loop" and len(ev) == (2 if bad else 1)
        if good and not bad:
            good = n.a[1] == "end" and (not n.a[4] or any(l.tag == "forall" and u is True and l.a[0] == n.a[0] for l, u in s.facts.items()))
        for p in n.a[2] if good else ():
            e = mk("elem", p.a[3][0].a[0], P("patches")) if p.a[3] else None
            its = [x for x in splice(p.a[2]) if x.tag != "base"]
            good = good and loop_src(p) is P("patches") and len(its) == 1 and its[0].tag == "applied" and its[0].a[0] is e and body_slot(d, s.facts, its[0].a[1])
            seen.add(p.a[0])
        if good and bad:
            x = ev[1]
            good = x.tag == "applied" and x.a[0].tag == "elem" and x.a[0].a[1] is P("patches") and body_slot(d, s.facts, x.a[1]) \
                and entails(s.facts, disceq(app("result", x.a[0]), 1), True)
        rep.check(good, "the patches are applied one after the other, each once, beginning with the body as slot 0, until one fails", d.w, " ".join(show(x, 6) for x in ev)[:600])
    rep.check("back" in seen, "patches are applied", d.w)
    d = Doc(rep, prog, "init_patch_slots", [Doc.SELF], extra)
    for s, v in outs(d.r):
        rep.check(body_slot(d, s.facts, v) and not d.events(s) and not s.eff, "slot 0 is the body at the beginning", d.w, show(v, 5))
    d = Doc(rep, prog, "apply_patch_with_slots", [Doc.SELF, P("patch"), Doc.SLOTS], extra)
    for s, v in outs(d.r):
        ev = d.events(s)
        rep.check(len(ev) == 1 and ev[0].tag == "applied" and ev[0].a[0] is P("patch") and ev[0].a[1] is snap("HashMap", (past("slots"),)) and v is app("result", P("patch")),
                  "a single patch is applied with the slots given", d.w, show(v, 5))


def p_clone(rep, prog):
    """clone_subtree_from: a deep copy, by induction"""
    d = Doc(rep, prog, "clone_subtree_from", [Doc.SELF, P("source"), P("id")])
    sh = d.sh
    seen = set()
    old = app("data", P("source"), P("id"))
    for s, v in outs(d.r):
        f = s.facts
        ns = d.events(s)
        k = [n for n in sh.k if d_kind(d, f, old) == n]
        why = None
        if len(k) != 1:
            why = "the copy does not depend on what the node is"
        elif not ns or ns[0].tag != "node" or ns[0].a[0] is not v or ns[0].a[1].tag != "agg":
            why = "not one node is made"
        else:
            k = k[0]
            seen.add(k)
            kind, ok_ = fld(ns[0].a[1], 0, sh.kindf), fld(old, 0, sh.kindf)
            if kind.tag != "agg" or kind.a[1] != sh.k[k] or fld(ns[0].a[1], 0, sh.nsf) is not fld(old, 0, sh.nsf):
                why = "the copy has another kind or namespace"
            elif k == "Element":
                was = fld(ok_, sh.k[k], 0)
                if chars(fld(kind.a[2], 0, sh.tagf)) is not chars(fld(was, 0, sh.tagf)) or not same_list(fld(kind.a[2], 0, sh.attrsf), fld(was, 0, sh.attrsf)):
                    why = "the copy has another name or other attributes"
            elif k in ("Text", "Comment") and chars(kind.a[2]) is not chars(fld(ok_, sh.k[k], 0)):
                why = "the copy has another text"
        if why is None:
            rest = ns[1:]
            if len(rest) != 1 or rest[0].tag != "loop" or rest[0].a[1] != "end" or rest[0].a[4]:
                why = "not every child is copied"
            for p in rest[0].a[2] if why is None else ():
                src = loop_src(p)
                c = mk("elem", p.a[3][0].a[0], src)
                its = [x for x in splice(p.a[2]) if x.tag not in ("base", "rec")]
                if src is not app(D + "children", P("source"), P("id")) or len(its) != 1 or its[0].tag != "link" or its[0].a[0] != "append" or its[0].a[1] is not v \
                        or its[0].a[2].tag != "app" or not its[0].a[2].a[0].startswith("rec:") or its[0].a[2].a[-2:] != (P("source"), c):
                    why = "a child is not copied to the end of the copy"
        rep.check(why is None and not s.eff, "a copied subtree has the same nodes in the same order", d.w, str(why))
    rep.check({"Element", "Text", "Comment"} <= seen, "elements, texts and comments are copied", d.w, str(seen))


def d_kind(d, f, data):
    k = fld(data, 0, d.sh.kindf)
    for n, j in d.sh.k.items():
        if entails(f, disceq(k, j, len(d.sh.k)), True):
            return n
    left = [n for n, j in d.sh.k.items() if not entails(f, disceq(k, j, len(d.sh.k)), False)]
    return left[0] if len(left) == 1 else None


def v_insert(rep, prog):
    p_insert(rep, prog, "InsertText", "Text")
    p_insert(rep, prog, "InsertComment", "Comment")
    p_element(rep, prog)
    p_move(rep, prog)


def v_patch(rep, prog):
    p_all(rep, prog)
    p_opaque(rep, prog)
    p_clone(rep, prog)
    p_props(rep, prog)
    p_remove(rep, prog)
    p_settext(rep, prog)
    p_setattr(rep, prog)
    p_removeattr(rep, prog)
