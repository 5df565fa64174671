"""The browser client: what hotmeal-wasm does to a page for each patch."""
import re
from term import *
from engine import *
from logic import *
from facts import splice, loop_src
from hot import *
from web import *
from report import *
from models import NONE, Some, VEC
from chk_dom import No, merged, tokens, Toks
from chk_value import pieces

P = lambda n: mk("param", n)                                                                     # noqa: E731
READ = {"facet_postcard::from_slice": pure("read", res=True), "facet_json::from_str": pure("read_json", res=True)}


def fn(prog, name, types):
    """the function of this name, or the only one that takes these"""
    bs = [b for b in prog.bodies.values() if b["local"] and b["kind"] == "fn" and prog.nname(b["p"]) == "hotmeal_wasm::" + name]
    if len(bs) != 1:
        raise Unsupported("function not found: " + name)
    return bs[0]


def casts(t):
    while t.tag == "cast" or t.tag == "app" and t.a[0] == "cast":
        t = t.a[0] if t.tag == "cast" else t.a[1]
    return t


COPY = ("SmallVec::from_slice", "SmallVec::from", "to_vec", "Clone>::clone", "from_vec", "From>::from", "SmallVec::from_iter", "to_smallvec", "as_slice")


def rng(t):
    """(list, from, without how many at the end) of a part of a list"""
    if t.tag == "app" and len(t.a) == 2 and t.a[0].split("@")[0].endswith(COPY):
        return rng(t.a[1])
    m = re.fullmatch(r"\('o', \"\['ss', (\d+), (\d+), True\]\"\)", t.a[1]) if t.tag == "proj" else None
    if m:
        b, lo, cut = rng(t.a[0])
        return b, lo + int(m[1]), cut + int(m[2])
    if t.tag == "app" and len(t.a) == 3 and t.a[0].split("@")[0].endswith("::index") and t.a[2].tag == "agg":
        b, lo, cut = rng(t.a[1])
        k = t.a[2].a[0].split("::")[-1]
        frm = t.a[2].a[2] if k in ("Range", "RangeFrom") else Int(0)
        to = t.a[2].a[3] if k == "Range" else t.a[2].a[2] if k == "RangeTo" else None
        if k not in ("Range", "RangeFrom", "RangeTo", "RangeFull") or frm.tag != "int":
            return t, 0, 0
        if to is not None:
            if to.tag != "bin" or to.a[0] != "Sub" or to.a[2] is not Int(1) or to.a[1].tag != "len" or rng(to.a[1].a[0]) != (b, lo, cut):
                return t, 0, 0
            cut += 1
        return b, lo + frm.a[0], cut
    return t, 0, 0


def item(p):
    """(list, element) of a loop's path: over the list itself, or over the numbers of its elements"""
    src = loop_src(p)
    if src is None or len(p.a[3]) != 1:
        return src, None
    e = mk("elem", p.a[3][0].a[0], src)
    if src.tag == "range" and src.a[0] is Int(0) and casts(src.a[1]).tag == "len":
        lst = casts(src.a[1]).a[0]
        return lst, mk("sel", lst, e)
    return src, e


def is_new(t):
    while t.tag == "fld" or t.tag == "app" and t.a[0] in ("content", "first", "last"):
        t = t.a[0] if t.tag == "fld" else t.a[1]
    return t.tag == "app" and (t.a[0] == "new" or t.a[0].startswith("rec:"))


def real(ns):
    """the operations on what is in the page already"""
    out = []
    for n in ns:
        if n.tag == "op":
            if n.a[0] == "dispatch" or not is_new(n.a[1]):
                out.append(n)
        elif n.tag == "loop":
            if any(real(p.a[2]) for p in list(n.a[2]) + list(n.a[4])):
                out.append(n)
        elif n.tag not in ("rec", "base"):
            out.append(n)
    return out


def through(n, f):
    """the loop goes on to the end"""
    return n.tag == "loop" and n.a[1] == "end" and (not n.a[4] or any(l.tag == "forall" and l.a[0] == n.a[0] and u is True for l, u in f.items()))


class Patcher:
    """one patch, on one way through the code"""

    def __init__(self, cl, it, f, root, slots, ops, patch):
        self.cl, self.it, self.f, self.root, self.slots, self.ops, self.p = cl, it, f, root, slots, ops, patch
        self.real, self.set, self.given_up, self.home = real(ops), 0, False, "^"

    # -- paths
    def given(self, v, i):
        return fld(self.p, self.cl.v[v], self.cl.fi[v][i])

    def path(self, v, i):
        t = self.given(v, i)
        if self.cl.wrapped[v, i]:
            t = fld(t, 0, 0)
        return fld(t, 0, 0)

    def number(self, t, path):
        """t is the first number of the path"""
        t = casts(t)
        if t.tag != "sel" or t.a[1] is not Int(0):
            return False
        b, lo, _ = rng(t.a[0])
        return b is path and lo == 0

    def in_place(self, path):
        """is the path one from the root? None if that is open"""
        for l, u in self.f.items():
            if l.tag == "eq" and Int(0) in l.a and any(self.number(x, path) for x in l.a):
                return u
        return None

    def final(self, t, path):
        """t is the last number of the path"""
        t = casts(t)
        if t.tag == "sel" and rng(t.a[0])[0] is path and rng(t.a[0])[2] == 0:
            if t.a[1] is mk("fromend", Int(1)):
                return True
            n = rng(t.a[0])[1]
            return t.a[1] is mk("bin", "Sub", mk("len", t.a[0]), Int(1)) or n == 0 and t.a[1] is mk("bin", "Sub", mk("len", path), Int(1))
        x = t.a[0] if t.tag == "lastof" else None
        return x is not None and rng(x)[0] is path and rng(x)[2] == 0

    def short(self, path, n):
        """the path has exactly n numbers"""
        if entails(self.f, eq(mk("len", path), Int(n)), True):
            return True
        for l, u in self.f.items():
            if l.tag == "eq" and u is True:
                for x, y in (l.a, l.a[::-1]):
                    if x.tag == "len" and y.tag == "int":
                        b, lo, cut = rng(x.a[0])
                        if b is path and lo + cut + y.a[0] == n and (lo or cut):
                            return True
        return False

    def since(self, snap, k):
        """the page as it is after the first k operations"""
        ns = splice(snap.a[1])
        return real(ns) == self.real[:k] and not any(n.tag == "base" and n.a[0] not in ("^", self.home) for n in ns)

    def slot_root(self, t, path, k):
        if t is self.root:
            return self.in_place(path) is True
        return t.tag == "app" and t.a[0] == "slot" and self.number(t.a[1], path) and self.in_place(path) is False and self.since(t.a[2], k)

    def leads(self, t, path, cut, k=0):
        """t is the node the path without its last numbers leads to"""
        if t.tag == "phi":
            alts = [x for x, _ in self.it.phi.get(t, ())]
            step = [x for x in alts if x.tag == "app" and x.a[0] == "child"]
            rest = [x for x in alts if x not in step]
            if not rest or not all(self.slot_root(x, path, k) for x in rest) or len(step) != 1:
                return False
            x = step[0]
            if x.a[1] is not app("children", mk("prev", t)) or not self.since(x.a[3], k) or casts(x.a[2]).tag != "elem" or rng(casts(x.a[2]).a[1]) != (path, 1, cut):
                return False
            return any(l.tag == "forall" and l.a[0] == t.a[0] and u is True and all(self.over(p, path, cut) for p in l.a[1]) for l, u in self.f.items())
        return self.slot_root(t, path, k) and self.short(path, 1 + cut)

    def over(self, p, path, cut):
        src = loop_src(p)
        return p.a[0] == "back" and len(p.a[3]) == 1 and src is not None and rng(src) == (path, 1, cut)

    def need(self, ok, what):
        if not ok:
            raise No(what)

    def element(self, t):
        return entails(self.f, app("isa", mk("str", "Element"), t), True)

    def target(self, n, kind, many):
        """the operation n does this"""
        self.need(n.tag == "op" and n.a[0] == kind and len(n.a) == many, "found: " + show(n, 4))
        return n.a[1]

    def only(self, kind, many):
        self.need(len(self.real) == 1, "%d changes" % len(self.real))
        return self.real[0], self.target(self.real[0], kind, many)

    # -- names
    def name(self, t, q, f=None):
        f = self.f if f is None else f
        prefix, local = fld(q, 0, self.cl.q["prefix"]), fld(q, 0, self.cl.q["local"])
        empty = eq(mk("len", fld(prefix, 1, 0)), Int(0))
        ps = [mk("str", '":"') if x is app("chr", Int(58)) or x.tag == "app" and x.a[0] == "chr" and x.a[1] is Int(58) else x for x in pieces(t)]
        if entails(f, disceq(prefix, 1), False) or entails(f, empty, True):
            return ps == [local]
        return entails(f, disceq(prefix, 1), True) and entails(f, empty, False) and ps == [fld(prefix, 1, 0), mk("str", '":"'), local]

    # -- the kinds
    def settext(self):
        n, t = self.only("text", 3)
        self.need(self.leads(t, self.path("SetText", "path"), 0), "the text is set at " + show(t, 5))
        self.need(n.a[2] is Some(self.given("SetText", "text")), "the text is " + show(n.a[2], 5))

    def setattribute(self):
        n, t = self.only("set_attr", 4)
        self.need(self.leads(t, self.path("SetAttribute", "path"), 0) and self.element(t), "the attribute is set at " + show(t, 5))
        self.need(self.name(n.a[2], self.given("SetAttribute", "name")), "the attribute is called " + show(n.a[2], 5))
        self.need(chars(n.a[3]) is self.given("SetAttribute", "value"), "the attribute becomes " + show(n.a[3], 5))

    def removeattribute(self):
        n, t = self.only("rm_attr", 3)
        self.need(self.leads(t, self.path("RemoveAttribute", "path"), 0) and self.element(t), "the attribute is removed at " + show(t, 5))
        self.need(self.name(n.a[2], self.given("RemoveAttribute", "name")), "the attribute removed is " + show(n.a[2], 5))

    def detached(self, path, k):
        """the node named by the path leaves an empty text behind; the node, and how many changes that took"""
        for l, u in self.f.items():
            if l.tag == "app" and l.a[0] == "is" and l.a[1].tag == "app" and l.a[1].a[0] == "parent" and self.leads(l.a[1].a[1], path, 0) and self.since(l.a[1].a[2], 0):
                x = l.a[1].a[1]
                if u is False:
                    return x, 0
                self.need(len(self.real) > k, "nothing is put in its place")
                n = self.real[k]
                self.need(self.target(n, "replace", 4) is l.a[1], "something else is replaced")
                self.need(n.a[3] is x, "another child is replaced: " + show(n.a[3], 5))
                self.need(self.blank(n.a[2]), "what is left behind is " + show(n.a[2], 5))
                return x, 1
        raise No("the node is not looked for")

    def blank(self, t):
        return t.tag == "app" and t.a[0] == "new" and t.a[1].a[0] == "text" and t.a[2].tag == "str" and t.a[2].a[0] == '""'

    def away(self, path):
        """the node is taken from its slot, or out of the page"""
        if self.real and self.real[0].tag == "op" and self.real[0].a[0] == "take":
            n = self.real[0]
            self.need(self.number(n.a[2], path) and n.a[1] is self.slots and self.short(path, 1), "taken is " + show(n, 4))
            x = next((l.a[1] for l, u in self.f.items() if l.tag == "app" and l.a[0] == "is" and u is True and l.a[1].tag == "app" and l.a[1].a[0] == "slot" and
                      self.number(l.a[1].a[1], path) and self.since(l.a[1].a[2], 0)), None)
            return x, 1
        return self.detached(path, 0)

    def remove(self):
        path = self.path("Remove", "node")
        if self.short(path, 1) and self.in_place(path) is False:
            n, t = self.only("take", 3)
            self.need(self.number(n.a[2], path) and t is self.slots, "taken is " + show(n, 4))
            return
        _, k = self.away(path)
        self.need(len(self.real) == k, "more is changed")

    def put(self, v, at, k, built):
        """the node goes where the path says"""
        path = self.path(v, at)
        where, last = None, None
        for l, u in self.f.items():
            if l.tag == "lt" and casts(l.a[1]).tag == "app" and casts(l.a[1]).a[0] == "count" and self.final(l.a[0], path):
                where, last, room = casts(l.a[1]).a[1], casts(l.a[0]), u
                now = casts(l.a[1]).a[2]
                break
            if l.tag == "app" and l.a[0] == "is" and l.a[1].tag == "app" and l.a[1].a[0] == "child" and self.final(l.a[1].a[2], path):
                where, last, room, now = l.a[1].a[1], casts(l.a[1].a[2]), u, l.a[1].a[3]
                break
        self.need(where is not None, "the place is not looked at")
        self.need(where.tag == "app" and where.a[0] == "children" and self.leads(where.a[1], path, 1, k) and self.element(where.a[1]), "the parent is " + show(where, 5))
        self.need(self.since(now, k), "the children are counted too early or too late")
        parent, rest = where.a[1], self.real[k:]
        slot = self.given(v, "detach_to_slot")
        if room:
            self.need(rest and self.target(rest[0], "replace", 4) is parent, "nothing is replaced")
            old = rest[0].a[3]
            self.need(old.tag == "app" and old.a[0] == "child" and old.a[1] is where and casts(old.a[2]) is last and self.since(old.a[3], k), "replaced is " + show(old, 5))
            built(rest[0].a[2])
            if entails(self.f, disceq(slot, 1), True):
                self.need(len(rest) == 2 and self.target(rest[1], "store", 4) is self.slots and rest[1].a[2] is fld(slot, 1, 0) and rest[1].a[3] is old, "what was there is not put into the slot")
            else:
                self.need(entails(self.f, disceq(slot, 1), False) and len(rest) == 1, "it is not said where what was there goes")
            return
        self.need(1 <= len(rest) <= 2 and self.target(rest[-1], "append", 3) is parent, "nothing is put at the end")
        built(rest[-1].a[2])
        if len(rest) == 2:
            n = rest[0]
            self.need(n.tag == "loop" and n.a[2], "the place is not filled up")
            counted = self.counted(n, where, last)
            self.need(counted or through(n, self.f), "the place is not filled up to the end")
            for p in n.a[2]:
                src = loop_src(p)
                o = real(p.a[2])
                self.need(p.a[0] == "back" and len(o) == 1 and self.target(o[0], "append", 3) is parent and self.blank(o[0].a[2]), "the place is filled with something else")
                self.need(counted or src is not None and src.tag == "range" and self.missing(src, where, last),
                          "it is filled up " + (show(src, 6) if src is not None else "some other way"))
        else:
            self.need(entails(self.f, eq(last, casts(mk("len", where))), True), "the place is not filled up")

    def missing(self, src, where, last):
        """the range has as many numbers as are missing to the position"""
        def count(x):
            return casts(x).tag == "app" and casts(x).a[:2] == ("count", where)
        lo, hi = src.a
        return count(lo) and casts(hi) is last or lo is Int(0) and hi.tag == "bin" and hi.a[0] == "Sub" and count(hi.a[2]) and casts(hi.a[1]) is last

    def counted(self, n, where, last):
        """the loop goes on while a number that begins with the count and grows by one, or the count itself, is below the position"""
        for l, u in self.f.items():
            if l.tag != "lt" or u is not False or casts(l.a[1]) is not last:
                continue
            x = casts(l.a[0])
            if x.tag == "phi" and x.a[0] == n.a[0]:
                alts = [y for y, _ in self.it.phi.get(x, ())]
                first = [y for y in alts if casts(y).tag == "app" and casts(y).a[:2] == ("count", where)]
                more = [y for y in alts if y not in first]
                if len(first) == 1 and more and all(y.tag == "bin" and y.a[0] == "Add" and Int(1) in y.a[1:] and any(z in (x, mk("prev", x)) for z in y.a[1:]) for y in more):
                    return all(any(m.tag == "lt" and v is True and casts(m.a[1]) is last and casts(m.a[0]) in (x, mk("prev", x)) for m, v in factsdict(p.a[1]).items()) for p in n.a[2])
            if x.tag == "app" and x.a[:2] == ("count", where) and any(o is n or o.tag == "base" and o.a[0] == n.a[0] for o in splice(x.a[2].a[1])):
                return all(any(m.tag == "lt" and v is True and casts(m.a[1]) is last and casts(m.a[0]).tag == "app" and casts(m.a[0]).a[:2] == ("count", where)
                               for m, v in factsdict(p.a[1]).items()) for p in n.a[2])
        return False

    # -- new nodes
    def built(self, f, ops, t, tag, attrs, children):
        """t is an element of this name with these attributes and this content"""
        if self.again(t):
            return self.called(f, ops, t, {"tag": tag, "attrs": attrs, "children": children})
        if t.tag == "app" and t.a[0] == "new" and t.a[1].a[0] == "element":
            self.need(chars(t.a[2]) is tag, "the element is called " + show(t.a[2], 5))
            self.filled(f, ops, t, attrs, "the attributes", lambda o, e, g: self.need(
                len(o) == 1 and o[0].tag == "op" and o[0].a[:2] == ("set_attr", t) and self.name(o[0].a[2], fld(e, 0, self.cl.pair["name"]), g) and
                chars(o[0].a[3]) is fld(e, 0, self.cl.pair["value"]), "an attribute is not given on"), "set_attr")
        else:
            self.need(self.given_up or self.refused(f, tag), "nothing was refused: " + show(t, 4))
            self.parsed(f, ops, t, tag, attrs)
        self.filled(f, ops, t, children, "the content", lambda o, e, g: self.child(g, o, t, e), "append")

    def again(self, t):
        return t.tag == "fld" and t.a[1:] == (OK, 0) and t.a[0].tag == "app" and t.a[0].a[0].startswith("rec:")

    def called(self, f, ops, t, given):
        """the node is what a function makes that is looked at by itself"""
        b = self.cl.prog.bodies[t.a[0].a[0][4:]]
        rs = roles(self.cl.prog, b)
        self.need(rs is not None and "node" not in rs, "made by " + b["p"])
        self.need(all(r == "doc" or given.get(r) is chars(x) for r, x in zip(rs, t.a[0].a[1:])), "made from something else")
        self.need("content" in rs or self.refused(f, given["tag"]), "nothing was refused")
        self.need(any(n.tag == "rec" and n.a[1] == t.a[0].a[1:] for n in ops), "made some other time")

    def refused(self, f, tag):
        """making an element of this name, or giving it an attribute"""
        for l, u in f.items():
            if l.tag == "app" and l.a[0] == "fails" and u is True and refused(l.a[1]):
                x = l.a[1] if l.a[1].tag == "app" else l.a[1].a[1]
                if x.tag == "app" and x.a[0] == "new" and chars(x.a[2]) is tag:
                    return True
        return False

    def child(self, f, ops, t, e):
        self.need(ops and ops[-1].tag == "op" and ops[-1].a[:2] == ("append", t), "a child is left out")
        self.content(f, ops[:-1], ops[-1].a[2], e)

    def filled(self, f, ops, t, src, what, each, kind):
        """there is one loop over the whole list that does this to t"""
        for n in ops:
            if n.tag == "rec" and kind == "append":
                rs = roles(self.cl.prog, self.cl.prog.bodies[n.a[0]])
                if rs and sorted(rs) == ["children", "doc", "node"] and n.a[1][rs.index("node")] is t:
                    self.need(n.a[1][rs.index("children")] is src, "the content is another's")
                    self.need(entails(f, disceq(app("rec:" + n.a[0], *n.a[1]), 1), False), "the content may be missing")
                    return
            if n.tag != "loop":
                continue
            mine = [p for p in n.a[2] if any(o.tag == "op" and o.a[0] == kind and o.a[1] is t for o in p.a[2])]
            if not mine:
                continue
            self.need(len(mine) == len(n.a[2]), what + ": some are skipped")
            for p in n.a[2]:
                s, e = item(p)
                self.need(s is src and p.a[0] == "back" and len(p.a[3]) == 1, what + " are not gone through in order")
                each([o for o in splice(p.a[2])], e, merged(f, p))
            self.need(through(n, f), what + " are not gone through to the end")
            return
        self.need(any(l.tag == "eq" and Int(0) in l.a and mk("len", src) in l.a and u is True for l, u in f.items()), what + " are left out")

    def parsed(self, f, ops, t, tag, attrs):
        """the DOM refuses the name of an attribute: the parser is asked to make the element"""
        self.need(t.tag == "app" and t.a[0] == "first" and t.a[1].tag == "app" and t.a[1].a[0] == "content" and t.a[1].a[1].tag == "app" and t.a[1].a[1].a[0] == "new", "made as " + show(t, 5))
        tpl = t.a[1].a[1]
        self.need(chars(tpl.a[2]).tag == "str" and str_lit(chars(tpl.a[2])) == "template", "not parsed as content")
        html = [o for o in ops if o.tag == "op" and o.a[:2] == ("html", tpl)]
        self.need(len(html) == 1, "parsed %d times" % len(html))
        ts = Toks(tokens([mk("item", html[0].a[2], mkfacts({}), "")]))
        ts.lit("<")
        ts.val(tag)
        self.need(ts.t and ts.t[0][0] == "loop", "no attributes: " + ts.head())
        n = ts.t.pop(0)[1]
        self.need(through(n, f), "attributes are skipped")
        for p in n.a[2]:
            src, e = item(p)
            self.need(src is attrs and p.a[0] == "back", "not the attributes")
            g = merged(f, p)
            a = Toks(tokens(p.a[2]))
            a.lit(" ")
            q = fld(e, 0, self.cl.pair["name"])
            prefix = fld(q, 0, self.cl.q["prefix"])
            empty = eq(mk("len", fld(prefix, 1, 0)), Int(0))
            if entails(g, disceq(prefix, 1), True) and not entails(g, empty, True):
                self.need(entails(g, empty, False), "an empty prefix is written as one")
                a.val(fld(prefix, 1, 0))
                a.lit(":")
            a.val(fld(q, 0, self.cl.q["local"]))
            a.lit('="')
            self.need(a.t and a.t[0][0] == "val", "no value")
            self.escaped(a.t.pop(0)[1], fld(e, 0, self.cl.pair["value"]))
            a.lit('"')
            a.end()
        ts.lit("></")
        ts.val(tag)
        ts.lit(">")
        ts.end()

    def escaped(self, t, value):
        """the value as it may stand between quotes"""
        done = []
        while t.tag == "app" and t.a[0].split("@")[0].endswith("str::replace") and len(t.a) == 4:
            c = t.a[2]
            done.append((chr(c.a[0]) if c.tag == "int" else str_lit(c) if c.tag == "str" else None, str_lit(chars(t.a[3])) if chars(t.a[3]).tag == "str" else None))
            t = chars(t.a[1])
        done.reverse()                                                                          # the first one first
        self.need(t is value, "another value: " + show(t, 5))
        self.need(all(x in (("&", "&amp;"), ('"', "&quot;"), ("<", "&lt;"), (">", "&gt;")) for x in done), "escaped as " + str(done))
        self.need(done[:1] == [("&", "&amp;")] and ('"', "&quot;") in done and len(set(done)) == len(done), "not escaped, or twice: " + str(done))

    def content(self, f, ops, t, c):
        """t is the node this content says"""
        v = next((n for n, i in self.cl.c.items() if entails(f, disceq(c, i, 9), True)), None)
        if self.again(t):
            self.need(not real(ops), "something else is done")
            return self.called(f, ops, t, {"content": c, **{x: fld(c, self.cl.c["Element"], self.cl.cf[x]) for x in PARTS}})
        if v is None:
            left = [n for n, i in self.cl.c.items() if not entails(f, disceq(c, i, 9), False)]
            self.need(len(left) == 1, "it is not looked at what it is")
            v = left[0]
        if v == "Element":
            self.built(f, ops, t, *[fld(c, self.cl.c[v], self.cl.cf[x]) for x in ("tag", "attrs", "children")])
        else:
            self.leaf(t, v, fld(c, self.cl.c[v], 0))

    def leaf(self, t, v, text):
        self.need(t.tag == "app" and t.a[0] == "new" and t.a[1].a[0] == v.lower() and chars(t.a[2]) is text, "made as " + show(t, 5))

    def insertelement(self):
        g = lambda i: self.given("InsertElement", i)                                            # noqa: E731
        self.put("InsertElement", "at", 0, lambda t: self.built(self.f, self.ops, t, g("tag"), g("attrs"), g("children")))

    def inserttext(self):
        self.put("InsertText", "at", 0, lambda t: self.leaf(t, "Text", self.given("InsertText", "text")))

    def insertcomment(self):
        self.put("InsertComment", "at", 0, lambda t: self.leaf(t, "Comment", self.given("InsertComment", "text")))

    def move(self):
        x, k = self.away(self.path("Move", "from"))
        self.put("Move", "to", k, lambda t: self.need(t is x, "moved is " + show(t, 5)))

    def opaquechanged(self):
        n, t = self.only("dispatch", 3)
        self.need(self.leads(t, self.path("OpaqueChanged", "path"), 0) and self.element(t), "told is " + show(t, 5))
        e = n.a[2]
        self.need(e.tag == "app" and e.a[0] == "new" and e.a[1].a[0] == "event" and len(e.a) == 5 and str_lit(e.a[2]) == "hotmeal:opaque-changed", "the event is " + show(e, 5))
        mine = [o for o in self.ops if o.tag == "op"]
        detail = [o.a[2] for o in mine if o.a[:2] == ("detail", e.a[3])]
        self.need(len(detail) == 1 and ("op", "bubbles", e.a[3], TRUE) in [(o.tag,) + tuple(o.a) for o in mine], "the event has no detail, or does not bubble")
        fs = {}
        for o in mine:
            if o.a[:2] == ("field", detail[0]):
                k = o.a[2].a[1] if o.a[2].tag == "app" and o.a[2].a[0] == "js" else o.a[2]
                fs[str_lit(k) if k.tag == "str" else None] = o.a[3]
        js = lambda x: app("js", x)                                                             # noqa: E731
        self.need(fs.get("content") is js(self.given("OpaqueChanged", "content")) and fs.get("element") is t, "the event lacks its content or element")
        key = [(l.a[1], u) for l, u in self.f.items() if l.tag == "app" and l.a[0] == "is" and l.a[1].tag == "app" and l.a[1].a[0] == "attr_of" and l.a[1].a[1] is t and
               str_lit(l.a[1].a[2]) == "data-hotmeal-opaque"]
        self.need(len(key) == 1 and fs.get("key") is (js(key[0][0]) if key[0][1] else None) and len(fs) == 2 + key[0][1], "the event's key is not that of the element")

    def updateprops(self):
        f, changes = self.f, self.given("UpdateProps", "changes")
        rest = list(self.real)
        node = next((l.a[2] for l in f if l.tag == "app" and l.a[0] == "isa" and self.leads(l.a[2], self.path("UpdateProps", "path"), 0)), None)
        self.need(node is not None, "the node is not looked for")
        text = self.text_change(changes)
        if text is not None and entails(f, disceq(fld(text, 0, self.cl.ch["value"]), 1), True):
            self.need(rest and rest[0].tag == "op" and rest[0].a == ("text", node, Some(fld(fld(text, 0, self.cl.ch["value"]), 1, 0))), "the text is not set")
            rest.pop(0)
            self.set = 1
        elif text is not None:
            self.need(entails(f, disceq(fld(text, 0, self.cl.ch["value"]), 1), False), "it is not looked whether the text changes")
        if not self.element(node):
            self.need(not rest and entails(f, app("isa", mk("str", "Element"), node), False), "attributes of what has none")
            return
        self.need(len(rest) == 2 and rest[0].tag == rest[1].tag == "loop", "the attributes are not replaced")
        old = self.cleared(node, rest[0])
        n = rest[1]
        self.need(through(n, f), "not all attributes are set")
        for p in n.a[2]:
            src, e = item(p)
            self.need(src is changes and p.a[0] == "back", "not the changes in order")
            g, o = merged(f, p), real(p.a[2])
            key, val = fld(e, 0, self.cl.ch["name"]), fld(e, 0, self.cl.ch["value"])
            if not entails(g, disceq(key, self.cl.k["Attr"]), True):
                self.need(not o and (entails(g, disceq(key, self.cl.k["Attr"]), False)), "a change that is no attribute")
                continue
            self.need(len(o) == 1 and self.target(o[0], "set_attr", 4) is node and self.name(o[0].a[2], fld(key, self.cl.k["Attr"], 0), g), "the attribute set is another")
            v = o[0].a[3]
            if entails(g, disceq(val, 1), True):
                self.need(chars(v) is fld(val, 1, 0), "the attribute becomes " + show(v, 5))
            else:
                self.need(entails(g, disceq(val, 1), False), "it is not looked whether it changes")
                self.need(self.kept(g, v, o[0].a[2], old), "an attribute that stays becomes " + show(v, 5))

    def text_change(self, changes):
        """the change of the text, if there is one"""
        for l, u in self.f.items():
            if l.tag in ("forall", "partial") and u is True and l.a[1] and all(item(p)[0] is changes for p in l.a[1]):
                ps = l.a[1] if l.tag == "forall" else l.a[2]
                for p in ps:
                    e = item(p)[1]
                    is_text = disceq(fld(e, 0, self.cl.ch["name"]), self.cl.k["Text"])
                    g = merged(self.f, p)
                    if l.tag == "forall" and entails(factsdict(p.a[1]), is_text, False):
                        return None
                    if l.tag == "partial" and entails(g, is_text, True):
                        return e
        raise No("no change of the text is looked for")

    def attr(self, x, node):
        """x is an attribute of the node; its number"""
        if x.tag == "app" and x.a[0] == "attr" and x.a[1] is app("attrs", node) and self.since(x.a[3], self.set):
            i = casts(x.a[2])
            if i.tag == "elem" and i.a[1].tag == "range" and i.a[1].a[0] is Int(0) and casts(i.a[1].a[1]).tag == "app" and casts(i.a[1].a[1]).a[:2] == ("attr_count", app("attrs", node)):
                return i
        return None

    def cleared(self, node, n):
        """every attribute is removed; the values they had"""
        self.need(through(n, self.f), "not all attributes are removed")
        src = None
        for p in n.a[2]:
            o, g = real(p.a[2]), factsdict(p.a[1])
            src = loop_src(p)
            if not o:
                self.need(any(l.tag == "app" and l.a[0] == "is" and self.attr(l.a[1], node) is not None and u is False for l, u in g.items()), "an attribute is left")
                continue
            self.need(len(o) == 1 and self.target(o[0], "rm_attr", 3) is node, "removed is something else")
            x = o[0].a[2]
            self.need(x.tag == "app" and x.a[0] == "attr_name" and self.attr(x.a[1], node) is not None, "removed is " + show(x, 5))
        self.need(src is not None and src.tag == "unord" and src.a[0].tag == "snap", "what is removed is not what there was")
        m = src.a[0]
        ns = splice(m.a[1])
        self.need(len(ns) == 1 and through(ns[0], self.f), "the old values are not kept")
        for p in ns[0].a[2]:
            for o in p.a[2]:
                x = o.a[0] if o.tag in ("ins", "item") else None
                k, v = (o.a[0], o.a[1]) if o.tag == "ins" else (x.a[2], x.a[3]) if x is not None and x.tag == "agg" and len(x.a) == 4 else (None, None)
                self.need(k is not None and k.tag == "app" and k.a[0] == "attr_name" and self.attr(k.a[1], node) is not None and v is app("attr_text", k.a[1]), "kept is " + show(o, 5))
            if not p.a[2]:
                self.need(any(l.tag == "app" and l.a[0] == "is" and self.attr(l.a[1], node) is not None and u is False for l, u in factsdict(p.a[1]).items()), "a value is not kept")
        return m

    def kept(self, g, v, name, old):
        """v is the old value of the attribute of this name, or empty when there was none"""
        if v.tag == "app" and v.a[0] == "mapget" or v.tag == "mapget":
            a = v.a[1:] if v.tag == "app" else v.a
            return a[0] is old and pieces(a[1]) == pieces(name)
        return chars(v).tag == "str" and str_lit(chars(v)) == "" and any(
            l.tag == "haskey" and l.a[0] is old and pieces(l.a[1]) == pieces(name) and u is False for l, u in g.items())

    def judge(self):
        vs = [n for n, i in self.cl.v.items() if entails(self.f, disceq(self.p, i, 9), True)]
        if not vs:
            vs = [n for n, i in self.cl.v.items() if not entails(self.f, disceq(self.p, i, 9), False)]
        self.need(len(vs) == 1, "it is not looked at what the patch says")
        getattr(self, vs[0].lower())()
        return vs[0]


def refused(t):
    """making an element or giving it an attribute"""
    return t.tag == "app" and t.a[0] == "new" and t.a[1].a[0] == "element" or t.tag == "op" and t.a[0] == "set_attr" and is_new(t.a[1])


def cause(f):
    """something that makes a patch fail"""
    for l, u in f.items():
        if l.tag == "app" and l.a[0] == "fails" and u is True:
            return True
        if l.tag == "app" and l.a[0] == "is" and u is False and l.a[1].tag == "app" and l.a[1].a[0] in ("child", "slot", "found", "body", "document", "window", "first"):
            return True
        if l.tag == "app" and l.a[0] == "isa" and u is False:
            return True
        if l.tag == "lt" and u is True and l.a[0].tag == "len" and l.a[1] is Int(2) or l.tag == "eq" and u is True and Int(0) in l.a and any(x.tag == "len" for x in l.a):
            return True
        if l.tag == "app" and l.a[0].startswith("rec:") or l.tag in ("disceq", "eq") and any(x.tag == "app" and x.a[0].startswith("rec:") for x in l.a if isinstance(x, T)):
            return True
    return False


PARTS = ("tag", "attrs", "children")


def roles(prog, b):
    """what a function that makes content is given, by the types it takes"""
    out = []
    for i in range(b["argc"]):
        t = prog.types[b["locals"][i + 1][0]]
        while t["k"] == "ref":
            t = prog.types[t["t"]]
        s = t["s"]
        n = s.split("<")[0].split("::")[-1] if t["k"] != "slice" else ""
        out.append("doc" if n == "Document" else "node" if n in ("Node", "Element") else "content" if n == "InsertContent" else
                   "children" if "InsertContent<" in s else "attrs" if "AttrPair<" in s else "tag" if n in ("str", "Stem", "LocalName", "Tendril") else None)
    if None in out or len(set(out)) != len(out):
        return None
    return out if sorted(set(out) - {"doc"}) in (["content"], sorted(PARTS), ["children", "node"]) else None


class Client:
    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog
        ad = lambda n: next((a for k, a in prog.adts.items() if k.endswith("::" + n)), None)    # noqa: E731
        pa, ic = ad("Patch"), ad("InsertContent")
        if pa is None or ic is None:
            raise Unsupported("Patch or InsertContent not found")
        self.v = {v["n"]: i for i, v in enumerate(pa["v"])}
        self.fi = {v["n"]: {n: i for i, n in enumerate(v["f"])} for v in pa["v"]}
        self.wrapped = {(n, i): i in ("at", "node", "from", "to") for n in self.v for i in ("path", "at", "node", "from", "to")}
        self.c = {v["n"]: i for i, v in enumerate(ic["v"])}
        self.cf = {n: i for i, n in enumerate(ic["v"][self.c["Element"]]["f"])}
        self.q = {n: fidx(prog, "QualName", n) for n in ("prefix", "local")}
        self.pair = {n: fidx(prog, "AttrPair", n) for n in ("name", "value")}
        self.ch = {n: fidx(prog, "PropChange", n) for n in ("name", "value")}
        self.k = {n: vidx(prog, "PropKey", n) for n in ("Text", "Attr")}

    def handed_on(self, b, args, patches, to, sel):
        """everything is left to the function that is given slots"""
        r = WRoot(self.prog, b, args, extra={**SLOTS, **READ, "hotmeal_wasm::" + to: op("applied", 3 if sel is not None else 2, result=lambda t: app("done", t.a[1]))})
        if not r.it.callsites:
            return False
        good = 0
        for s, v in r.outs:
            if inconsistent(s.facts):
                continue
            ns = [n for n in s.heap[PAGE].a[1] if n.tag != "base"]
            if v.tag != "agg":
                return False
            if v.a[1] == ERR:
                if ns or not any(l.tag == "app" and l.a[0] == "fails" and u is True for l, u in s.facts.items()):
                    return False
                continue
            if len(ns) != 1 or ns[0].tag != "op" or ns[0].a[0] != "applied" or ns[0].a[1] is not patches or v.a[2] is not app("done", patches):
                return False
            if not (ns[0].a[2].tag == "app" and ns[0].a[2].a[:2] == ("new", mk("str", "slots"))) or sel is not None and ns[0].a[3] is not sel:
                return False
            good += 1
        if good:
            self.rep.use(r)
        return good > 0

    def entry(self, name, args, patches, to, root):
        """a function that applies patches with slots of its own"""
        b = fn(self.prog, name, None)
        if self.handed_on(b, args, patches, to, P("selector") if P("selector") in args else None):
            self.rep.check(True, "patches are applied", "%s (%s)" % (short(b["p"]), b.get("span", "")))
        else:
            self.run(name, args, root, patches)

    def run(self, name, args, root, patches=None):
        """a function that applies patches to the node root says"""
        b = fn(self.prog, name, None)
        r = WRoot(self.prog, b, args, extra={**SLOTS, **READ})
        self.rep.use(r)
        w = "%s (%s)" % (short(b["p"]), b.get("span", ""))
        patches, slots = patches or args[0], args[1] if P("slots") in args else None
        seen, done = set(), False
        for s, v in r.outs:
            if inconsistent(s.facts):
                continue
            ns = [n for n in s.heap[PAGE].a[1] if n.tag != "base"]
            if v.tag == "agg" and v.a[1] == ERR:
                self.rep.check(cause(s.facts), "a patch fails only for a reason", w, fshow(s.facts, 4)[:600])
                continue
            loops = [n for n in ns if n.tag == "loop"]
            top, sl = root(s.facts), slots
            self.rep.check(top is not None, "slot 0 is the node the patches are for", w, fshow(s.facts, 4)[:600])
            self.rep.check(v.tag == "agg" and v.a[1] == OK and v.a[2] is mk("len", patches), "the result is how many patches there are", w, show(v, 5))
            if len(loops) != 1 or len(loops) != len(real(ns)) or top is None:
                self.rep.fail("the patches are applied, and nothing else is done", w, str([show(n, 3)[:80] for n in ns]))
                continue
            done = True
            n = loops[0]
            self.rep.check(through(n, s.facts), "every patch is applied", w)
            for p in n.a[2]:
                src, e = item(p)
                if not self.rep.check(src is patches and p.a[0] == "back" and len(p.a[3]) == 1, "the patches are applied in order", w, show(src, 4) if src is not None else ""):
                    continue
                if sl is None:
                    sl = next((o.a[1] for o in every(p.a[2]) if o.tag == "op" and o.a[0] in ("take", "store") and o.a[1].tag == "app" and o.a[1].a[:2] == ("new", mk("str", "slots"))), None)
                x = Patcher(self, r.it, merged(s.facts, p), top, P("slots") if slots is not None else sl, list(p.a[2]), e)
                x.home = n.a[0]
                if inconsistent(x.f):
                    continue
                try:
                    bad = [l for l, u in x.f.items() if l.tag == "app" and l.a[0] == "fails" and u is True and not refused(l.a[1])]
                    if bad:
                        raise No("what fails is passed over: " + show(bad[0].a[1], 4))
                    seen.add(x.judge())
                    self.rep.check(True, "the page becomes what the patch says", w)
                except No as e:
                    kind = [n for n, i in self.v.items() if entails(x.f, disceq(x.p, i, 9), True)]
                    self.rep.fail("the page becomes what the patch says: %s" % (kind[0] if kind else "?"), w, str(e))
        self.rep.check(done, "patches are applied", w)
        self.rep.check(seen == set(self.v), "every kind of patch is applied", w, "not judged: " + ", ".join(sorted(set(self.v) - seen)))
        return r

    def recursive(self, r):
        """what makes content calls itself for content inside"""
        todo, done = sorted(r.it.rec_calls), set()
        while todo:
            key = todo.pop()
            if key in done:
                continue
            done.add(key)
            b = self.prog.bodies[key]
            w = "%s (%s)" % (short(b["p"]), b.get("span", ""))
            rs = roles(self.prog, b)
            if not self.rep.check(rs is not None, "only what makes content calls itself", w):
                continue
            r2 = WRoot(self.prog, b, [P(x) for x in rs], extra=SLOTS)
            self.rep.use(r2)
            todo += sorted(r2.it.rec_calls)
            kinds = set()
            for s, v in r2.outs:
                if inconsistent(s.facts):
                    continue
                ns = [n for n in s.heap[PAGE].a[1] if n.tag != "base"]
                if v.tag == "agg" and v.a[1] == ERR:
                    self.rep.check(cause(s.facts), "content is refused only for a reason", w, fshow(s.facts, 4)[:600])
                    continue
                x = Patcher(self, r2.it, s.facts, P("root"), P("slots"), ns, P("patch"))
                try:
                    if [n for n in real(ns) if "node" not in rs]:
                        raise No("the page is changed")
                    if "content" in rs:
                        c = P("content")
                        x.content(s.facts, ns, self.result(s.facts, v), c)
                        kinds |= {n for n, i in self.c.items() if entails(s.facts, disceq(c, i, 9), True)}
                    elif "node" in rs:
                        if len([n for n in ns if n.tag != "loop"]) or len(ns) > 1:
                            raise No("something else is done")
                        x.filled(s.facts, ns, P("node"), P("children"), "the content", lambda o, e, g: x.child(g, o, P("node"), e), "append")
                    else:
                        x.given_up = True
                        x.built(s.facts, ns, self.result(s.facts, v), *map(P, PARTS))
                    self.rep.check(True, "the new node is what the content says", w)
                except No as e:
                    self.rep.fail("the new node is what the content says", w, str(e))
            self.rep.check("content" not in rs or len(kinds) >= len(self.c) - 1, "every kind of content is made", w, str(kinds))

    def result(self, f, v):
        """the node in what is returned"""
        if v.tag == "agg":
            return v.a[2]
        if v.tag == "app" and v.a[0].startswith("rec:"):
            return fld(v, OK, 0)
        return v


def every(ns):
    for n in ns:
        yield n
        if n.tag == "loop":
            for p in list(n.a[2]) + list(n.a[4]):
                yield from every(p.a[2])


def v_client(rep, prog):
    Interp.MAX_STEPS = 3_000_000       # 750 000 on the unchanged tree
    cl = Client(rep, prog)
    doc = app("document", app("window"))

    def body(f):
        return app("body", doc) if entails(f, app("is", app("body", doc)), True) else None

    def mount(f):
        sel = P("selector")
        for l, u in f.items():
            if l.tag == "app" and l.a[0] == "is" and u is True and l.a[1].tag == "app" and l.a[1].a[0] == "found" and l.a[1].a[1:3] == (doc, sel):
                return l.a[1]
        if any(l.tag == "eq" and sel in l.a and u is True and any(x.tag == "str" and str_lit(x) == "body" for x in l.a) for l, u in f.items()):
            return body(f)
        return None
    r = cl.run("apply_patches_with_slots", [P("patches"), P("slots")], body)
    cl.recursive(r)
    cl.run("apply_patches_with_slots_on", [P("patches"), P("slots"), P("selector")], mount)
    ps, sel, W = P("patches"), P("selector"), "apply_patches_with_slots"                         # noqa: N806
    cl.entry("apply_patches", [ps], ps, W, body)
    cl.entry("apply_patches_on", [ps, sel], ps, W + "_on", mount)
    cl.entry("apply_patches_postcard", [P("blob")], app("read", P("blob")), W, body)
    cl.entry("apply_patches_postcard_on", [P("blob"), sel], app("read", P("blob")), W + "_on", mount)
    cl.entry("apply_patches_json", [P("json")], app("read_json", P("json")), W, body)


# ---- panics --------------------------------------------------------------------
def v_panic(rep, prog):
    """no operation that can panic is reached with what makes it panic"""
    import chk_hpanic

    def ruled(it, kind, cond, expected, f, stack):
        if cond.tag == "ovf" and cond.a[0] == "Add" and cond.a[1:] in ((Int(1), mk("cast", P("slot"), "usize")), (mk("cast", P("slot"), "usize"), Int(1))):
            return True                                                                         # a u32 and one: memory is short long before
        return chk_hpanic.overflow_ok(cond, f) if kind.startswith("assert:overflow") else chk_hpanic.harmless(it, kind, cond, expected, f, stack) or \
            (kind.startswith("index") or kind == "assert:bounds") and chk_hpanic.index_ok(cond, f, kind == "index:str")
    its = []
    orig = Interp.__init__

    def init(it, *a, **k):
        orig(it, *a, **k)
        its.append(it)
    Interp.__init__ = init
    try:
        for f in (v_client, v_slots):
            try:
                f(Report("x"), prog)
            except (Unsupported, Limit) as e:
                rep.fail("the code has a form the rules can follow", f.__name__, str(e))
    finally:
        Interp.__init__ = orig
    seen, fns = set(), set()
    for it in its:
        fns |= set(it.functions) | set(it.stack)
        rep.cover["call_sites"] += len(it.callsites)
        rep.cover["paths"] += it.npaths
        for (at, kind), notes in it.panics.items():
            for span, cond, expected, fx, stack, frame in notes:
                k = (at, kind, span, cond, fx)
                if k in seen:
                    continue
                seen.add(k)
                f = dict(fx.a[0])
                rep.check(inconsistent(f) or ruled(it, kind, cond, expected, f, stack), "a possible panic is ruled out on every path",
                          chk_hpanic.spot(it, at, span, frame), "%s: %s%s when %s" % (kind, "" if expected else "not ", show(cond, 6), fshow(f, 6)))
    rep.cover["functions"] |= fns
    for d in sorted(fns):
        b = prog.bodies.get(d)
        if b is not None and b["local"]:
            rep.check(True, "every way the function can panic is listed", short(b["p"]))


# ---- the slots -----------------------------------------------------------------
def v_slots(rep, prog):
    """a slot holds what was put there last, until it is taken"""
    k, node = P("slot"), P("node")
    old = P("old")

    def run(name, args):
        b = fn(prog, "Slots::" + name, None)
        heap = {"nodes": mk("coll", VEC, (mk("copyof", old),)), "self": mk("cell", agg("hotmeal_wasm::Slots", 0, mk("obj", "nodes")))}
        r = WRoot(prog, b, ([mk("ref", ("O", "self"), ())] if name not in ("new", "default") else []) + args, heap)
        rep.use(r)
        return r, "%s (%s)" % (short(b["p"]), b.get("span", ""))

    def inside(f):
        ls = [u for l, u in f.items() if l.tag == "lt" and casts(l.a[0]) is k and casts(l.a[1]) is mk("len", old)]
        return ls[0] if len(ls) == 1 else None

    def here(t):
        return t.tag == "sel" and t.a[0] is old and casts(t.a[1]) is k

    def held(f, v):
        """v is what the slot holds: nothing beyond the end"""
        if inside(f) is False:
            return v is NONE
        if inside(f) is not True:
            return False
        x = v if here(v) else next((l.a[0] for l in f if l.tag == "disceq" and here(l.a[0])), None)
        return x is not None and (v is x or v is NONE and entails(f, disceq(x, 1), False) or v is Some(fld(x, 1, 0)) and entails(f, disceq(x, 1), True))

    def nodes(s):
        c = s.heap["nodes"].a[1]
        return list(c[1:]) if c[:1] == (mk("copyof", old),) and s.heap["self"].a[0] is agg("hotmeal_wasm::Slots", 0, mk("obj", "nodes")) else None

    ad = next((a for n, a in prog.adts.items() if n.endswith("hotmeal_wasm::Slots")), None)
    if ad is None or len(ad["v"][0]["f"]) != 1:
        raise Unsupported("the slots are kept some other way")
    for name in ("get", "take", "store"):
        r, w = run(name, [k, node] if name == "store" else [k])
        for s, v in r.outs:
            f = s.facts
            if inconsistent(f):
                continue
            ns, v = nodes(s), r.it.rv(s, v)
            if name == "get":
                rep.check(ns == [] and held(f, v), "what a slot holds is given, and stays", w, show(v, 5))
            elif name == "take":
                one = ns is not None and len(ns) == 1 and ns[0].tag == "set" and casts(ns[0].a[0]) is k and ns[0].a[1] is NONE and inside(f) is True
                empty = ns == [] and (inside(f) is False or v is NONE)
                rep.check(held(f, v) and (one or empty), "what a slot holds is given, and nothing stays there", w, show(v, 5))
            else:
                ok = bool(ns) and ns[-1].tag == "set" and casts(ns[-1].a[0]) is k and ns[-1].a[1] is Some(node)
                if ok and len(ns) == 2 and ns[0].tag == "loop":
                    ok = all(len(p.a[2]) == 1 and p.a[2][0].tag == "item" and p.a[2][0].a[0] is NONE for p in ns[0].a[2])     # a set is inside, or it panics (C48)
                elif ok and len(ns) == 2:
                    n = ns[0].a[0] if ns[0].tag == "resize" else None
                    ok = inside(f) is False and n is not None and n.tag == "bin" and n.a[0] == "Add" and any(casts(x) is k and y.tag == "int" and y.a[0] >= 1 for x, y in (n.a[1:], n.a[:0:-1])) and ns[0].a[1] is NONE
                elif ok:
                    ok = len(ns) == 1 and inside(f) is True
                elif ns and len(ns) == 2 and ns[0].tag == "resize" and casts(ns[0].a[0]) is k and ns[0].a[1] is NONE:
                    ok = inside(f) is False and ns[1].tag == "item" and ns[1].a[0] is Some(node)
                rep.check(ok, "the slot holds the node, and the others what they held", w, str([show(n, 5) for n in ns or ()]))
        rep.check(bool(r.outs), "the slots can be used", w)
    for name in ("new",):
        r, w = run(name, [])
        for s, v in r.outs:
            x = v.a[2] if v.tag == "agg" and len(v.a) == 3 else None
            if x is not None and x.tag == "obj":
                x = r.it.rv(s, x)
            rep.check(x is not None and x.tag == "snap" and not x.a[1], "there is nothing in new slots", w, show(v, 5))
