"""hotmeal's plain values: the text type, patches that outlive their document, names as strings."""
import re

from term import *
from engine import *
from logic import *
from facts import splice, loop_src
from hot import *
from report import *
from roots import P
from chk_hot import at, outs

STEM = "stem::Stem"


class Plain(Api):
    """models of everything but the text type itself"""

    def get(self, name, default=None):
        if name is not None and STEM in name:
            return default
        return Api.get(self, name, default)


class VRoot(HRoot):
    def api(self, ic):
        return Plain(ic)


# ---- strings that are built in place -------------------------------------------
def cell_push(it, st, args, ctx):
    """push and push_str on a string held in a variable"""
    r = args[0]
    if r.tag != "ref":
        return None
    while True:
        v = it.read(st, ("cell", r.a[0], r.a[1]))
        if v.tag != "ref":
            break
        r = v
    if v.tag == "obj":
        return s_push(it, st, [v] + list(args[1:]), ctx)
    st = st.copy()
    x = it.rv(st, args[1])
    it.write(st, ("cell", r.a[0], r.a[1]), app("cat", it.rv(st, v), app("chr", x) if ctx.name.endswith("::push") else x))
    return [(st, UNIT)]


def empty(it, st, args, ctx):
    return [(st, EMPTY)]


def wrap(name):
    def f(it, st, args, ctx):
        return [(st, app(name, *[it.rv(st, a) for a in args]))]
    return f


def first(it, st, args, ctx):
    return [(st, it.rv(st, args[0]))]


API = {"core::str::as_bytes": wrap("bytes"), "std::string::String::as_bytes": wrap("bytes"), "core::fmt::rt::Argument::new_debug": wrap("debug"),
       "compact_str::CompactString::push_str": cell_push, "compact_str::CompactString::push": cell_push,
       "std::string::String::push_str": cell_push, "std::string::String::push": cell_push,
       "compact_str::CompactString::with_capacity": empty, "std::hint::must_use": first, "compact_str::ToCompactString::to_compact_string": first}


def template(t):
    """the pieces of a format template: literals and places for arguments"""
    if t.tag != "const" or not re.match(r'b"(.*)"$', t.a[0], re.S):
        return None
    raw = eval(t.a[0])                                                    # a byte string literal
    out, i = [], 0
    while i < len(raw) and raw[i]:
        n = raw[i]
        if n == 0xc0:
            out.append(None)
            i += 1
        elif n < 0x80:
            out.append(raw[i + 1:i + 1 + n].decode())
            i += 1 + n
        else:
            return None
    return out


def pieces(t):
    """a text as the texts it is put together from"""
    t = chars(t)
    if t is EMPTY:
        return []
    if t.tag == "app" and t.a[0] == "cat":
        return pieces(t.a[1]) + pieces(t.a[2])
    if t.tag == "app" and t.a[0] == "fmt" and len(t.a) == 2:
        return pieces(t.a[1])
    if t.tag == "app" and t.a[0] == "fmt" and len(t.a) == 3 and t.a[2].tag == "agg":
        ts, args = template(t.a[1]), list(t.a[2].a[2:])
        if ts is None or ts.count(None) != len(args):
            return [t]
        out = []
        for p in ts:
            out += [mk("str", '"%s"' % p)] if p is not None else pieces(args.pop(0))
        return out
    if t.tag == "snap" and t.a[0] == STRING:
        out = []
        for n in splice(t.a[1]):
            out += pieces(n.a[0]) if n.tag in ("item", "copyof") else [n]
        return out
    return [t]


# ---- Stem -----------------------------------------------------------------------
class Stem:
    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog
        self.kinds = {n: vidx(prog, "stem::Stem", n) for n in ("Borrowed", "Owned")}
        self.done = 0

    def text(self, f, p):
        """the characters of the value p, known by its variant"""
        known = [v for v in self.kinds.values() if entails(f, disceq(p, v), True)]
        no = [v for v in self.kinds.values() if entails(f, disceq(p, v), False)]
        if not known and len(no) == 1:
            known = [v for v in self.kinds.values() if v not in no]
        return fld(p, known[0], 0) if len(known) == 1 else None

    def of(self, s, p):
        return chars(s.heap[p.a[0][1]].a[0]) if p.tag == "ref" else None

    def is_text(self, f, t, p):
        x = self.text(f, p)
        return x is not None and pieces(t) == [x]

    def fns(self, name, *tys):
        """the functions of that name with such arguments"""
        out = []
        for b in self.prog.bodies.values():
            if b["local"] and b["kind"] == "fn" and b["n"] == name and STEM in b["p"] + self.sig(b) and self.args(b) == list(tys):
                out.append(b)
        return out

    def sig(self, b):
        return "".join(self.prog.types[b["locals"][i][0]].get("s", "") for i in range(b["argc"] + 1))

    def args(self, b):
        return [self.prog.types[b["locals"][i + 1][0]].get("s", "").replace("<'_>", "") for i in range(b["argc"])]

    def ret(self, b):
        return self.prog.types[b["locals"][0][0]].get("s", "").replace("<'_>", "")

    def run(self, b, args, heap=None):
        api = dict(HOT_API)
        api.update(API)
        r = VRoot(self.prog, b, args, matching=False, treeapi=False, heap=heap, extra=api)
        self.rep.use(r)
        self.done += 1
        self.last = r
        return outs(r)

    def each(self, name, tys, rule, ok, need=True):
        """rule ok(facts, value) for every way through the functions of that name and those argument types"""
        ps = [P("self"), P("other")][:len(tys)]
        bs = self.fns(name, *tys)
        for b in bs:
            os = self.run(b, ps)
            self.rep.check(bool(os), "it answers", at(b))
            for s, v in os:
                self.rep.check(ok(s.facts, v), rule, at(b), show(v, 6) + " where " + fshow(s.facts, 3))
        if need:
            self.rep.check(bool(bs), "there is a function %s(%s)" % (name, ", ".join(tys)), "hotmeal/src/stem.rs")

    def is_stem(self, f, v, t):
        """v is a Stem with the characters t"""
        return v.tag == "agg" and v.a[0].endswith(STEM) and len(v.a) == 3 and (pieces(v.a[2]) == ([t] if t is not EMPTY else []) or EMPTY is t and v.a[2] is EMPTY)


def v_stem(rep, prog):
    t = Stem(rep, prog)
    me, p, q = "&stem::Stem", P("self"), P("other")
    for n in ("as_str", "deref", "as_ref", "borrow"):
        t.each(n, [me], "a stem is seen as its characters", lambda f, v: t.is_text(f, v, p))
    t.each("is_empty", [me], "a stem is empty if it has no characters", lambda f, v: same_bool(v, eq(mk("len", t.text(f, p)), Int(0)), f))
    t.each("len", [me], "a stem is as long as its characters", lambda f, v: v is mk("len", t.text(f, p)))
    t.each("eq", [me, me], "stems with the same characters are equal, others are not", lambda f, v: same_bool(v, eq(t.text(f, p), t.text(f, q)), f))
    for o in ("&str", "&&str"):
        t.each("eq", [me, o], "a stem equals the text of its characters, and no other", lambda f, v: same_bool(v, eq(t.text(f, p), q), f))
    t.each("clone", [me], "a copy has the same characters", lambda f, v: t.is_stem(f, v, t.text(f, p)))
    t.each("into_owned", ["stem::Stem"], "an owned stem has the same characters and owns them", lambda f, v: t.is_stem(f, v, t.text(f, p)) and v.a[1] == t.kinds["Owned"])
    for n in ("new", "default"):
        t.each(n, [], "a new stem is empty", lambda f, v: t.is_stem(f, v, EMPTY), need=n == "new")
    for ty in ("&str", "std::string::String", "compact_str::CompactString", "tendril::StrTendril", "&tendril::StrTendril"):
        bs = [b for b in t.fns("from", ty) if t.ret(b) == STEM]
        for b in bs:
            for s, v in t.run(b, [p]):
                rep.check(t.is_stem(s.facts, v, p), "a stem made of a text has its characters", at(b), show(v, 5))
        rep.check(bool(bs), "a stem can be made of a " + ty, "hotmeal/src/stem.rs")
    # Display and Debug
    for b in t.fns("fmt", me, "&mut std::fmt::Formatter"):
        debug = "Debug" in b["p"]
        os = t.run(b, [p, q])
        rep.check(bool(os), "it writes", at(b))
        for s, v in os:
            ok = v.tag == "res" and ("::Debug::fmt" in v.a[1] if debug else "::Display::fmt" in v.a[1] or v.a[1].endswith(("::pad", "::write_str")))
            ok = ok and len(v.a[2]) == 2 and any(t.is_text(s.facts, x, p) for x in v.a[2]) and q in v.a[2]
            rep.check(ok, "a stem is written as its characters", at(b), show(v, 5))
    # Hash: as the text, so that it can be looked up by one
    h = mk("ref", ("O", "hasher"), ())
    bs = [b for b in t.fns("hash", me, "&mut H")]
    for b in bs:
        for s, v in t.run(b, [p, mk("obj", "hasher")], heap={"hasher": mk("coll", "hasher", ())}):
            ns = [n for n in splice(s.heap["hasher"].a[1])]
            rep.check(len(ns) == 1 and ns[0].tag == "item" and t.is_text(s.facts, ns[0].a[0], p), "a stem is hashed as its characters are", at(b), " ".join(show(n, 5) for n in ns))
    rep.check(bool(bs), "a stem can be hashed", "hotmeal/src/stem.rs")
    # appending
    for n, ty in (("push_str", "&str"), ("push_tendril", "&tendril::StrTendril")):
        bs = t.fns(n, "&mut stem::Stem", ty)
        for b in bs:
            os = t.run(b, [mk("ref", ("O", "self"), ()), q], heap={"self": mk("cell", P("self"))})
            for s, _ in os:
                v = t.last.it.rv(s, s.heap["self"].a[0])
                x = v.a[2] if v.tag == "agg" and len(v.a) == 3 else v.a[3] if v.tag == "upd" and v.a[0] is p and t.text(s.facts, p) is fld(p, v.a[1], v.a[2]) else None
                rep.check(x is not None and pieces(x) == [t.text(s.facts, p), q], "appending leaves the old characters followed by the new ones", at(b), show(v, 7))
            rep.check(bool(os), "it appends", at(b))
        rep.check(bool(bs), "there is " + n, "hotmeal/src/stem.rs")
    # text handed over by the parser
    for b in prog.bodies.values():
        if b["local"] and b["kind"] == "fn" and t.ret(b) == STEM and "tendril::StrTendril" in t.args(b) and b["argc"] == 2:
            text = P("text") if t.args(b)[1].endswith("StrTendril") else None
            args = [P("text") if a.endswith("StrTendril") else P("rest") for a in t.args(b)]
            for s, v in t.run(b, args):
                ok = v.tag == "agg" and len(v.a) == 3 and (chars(v) is P("text") or window(s.facts, chars(v), P("text")))
                rep.check(ok, "a text from the parser keeps its characters, and is taken from the input only where it lies in it", at(b), show(v, 7) + " where " + fshow(s.facts, 4))
    rep.check(t.done >= 25, "the text type is covered", "hotmeal/src/stem.rs", str(t.done))


def same_bool(v, want, f):
    if v is want:
        return True
    if v.tag == "bool":
        return entails(f, want, v is TRUE)
    return False


def linear(x, sign=1, out=None):
    """sums and differences of addresses and lengths, as the number of times each occurs"""
    out = {} if out is None else out
    while x.tag == "cast":
        x = x.a[0]
    if x.tag == "bin" and x.a[0] in ("Add", "Sub"):
        linear(x.a[1], sign, out)
        linear(x.a[2], sign if x.a[0] == "Add" else -sign, out)
        return out
    k = ("at", x.a[1]) if x.tag == "app" and x.a[0].endswith("::as_ptr") else x
    out[k] = out.get(k, 0) + sign
    return out


def total(*parts):
    out = {}
    for x, n in parts:
        for k, m in (x if isinstance(x, dict) else {x: 1}).items():
            out[k] = out.get(k, 0) + n * m
    return {k: n for k, n in out.items() if n}


def window(f, v, t):
    """v is the part of another text that t is, going by the addresses"""
    def plain(x):
        for y in {y for y in subterms(x) if y.tag == "app" and y.a[0] == "bytes"}:
            x = subst(x, {y.id: y.a[1]})
        return x
    v, f = plain(v), {plain(l): u for l, u in f.items()}
    if v.tag != "app" or len(v.a) != 3 or not v.a[0].split("@")[0].endswith("index") or v.a[2].tag != "agg" or not v.a[2].a[0].endswith("ops::Range"):
        return False
    whole, (lo, hi) = v.a[1], v.a[2].a[2:]
    before = total((("at", t), 1), (("at", whole), -1))
    after = total((before, -1), (mk("len", whole), 1), (mk("len", t), -1))
    if total((linear(lo), 1)) != before or total((linear(hi), 1)) != total((before, 1), (mk("len", t), 1)):
        return False
    known = []
    for l, u in f.items():
        if l.tag == "lt":
            known.append(total((linear(l.a[0]), 1 if u is False else -1), (linear(l.a[1]), -1 if u is False else 1)))
    return before in known and after in known


# ---- patches that outlive their document ---------------------------------------------
class Owned:
    def __init__(self, rep, prog, names):
        self.rep, self.prog, self.names = rep, prog, names

    def variants(self, t):
        return next((a for n, a in self.prog.adts.items() if n.endswith(t.a[0])), None)

    def same(self, f, x, p):
        """x says what p says; a text may be held differently"""
        if chars(x) is p or x is p:
            return None
        if x.tag == "app" and x.a[0].startswith("rec:") and len(x.a) == 2 and x.a[1] is p and x.a[0].endswith("into_owned"):
            return None
        if x.tag == "snap":
            ns = splice(x.a[1])
            if len(ns) == 1 and ns[0].tag == "copyof" and ns[0].a[0] is p:
                return None
            if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4] or not ns[0].a[2]:
                return "not every element is kept: " + show(x, 4)
            for q in ns[0].a[2]:
                its = splice(q.a[2])
                if loop_src(q) is not p or len(its) != 1 or its[0].tag != "item":
                    return "not one element for one: " + " ".join(show(i, 4) for i in its)
                g = dict(f)
                g.update(factsdict(q.a[1]))
                g.update(factsdict(its[0].a[1]) if len(its[0].a) > 1 and isinstance(its[0].a[1], T) else {})
                why = self.same(g, its[0].a[0], mk("elem", q.a[3][0].a[0], p))
                if why:
                    return why
            return None
        if x.tag == "agg" and isinstance(x.a[1], int):
            if x.a[0] == "tuple" or x.a[0].endswith("stem::Stem"):
                return "another value: " + show(x, 4)
            many = x.a[0].endswith("Option") or len((self.variants(x) or {"v": [0]})["v"]) > 1
            if many and not self.is_variant(f, x, p):
                return "another variant: " + show(x, 3)
            for i, y in enumerate(x.a[2:]):
                why = self.same(f, y, fld(p, x.a[1], i))
                if why:
                    return why
            return None
        return "another value: %s for %s" % (show(x, 4), show(p, 4))

    def is_variant(self, f, x, p):
        n = 2 if x.a[0].endswith("Option") else len(self.variants(x)["v"])
        if entails(f, disceq(p, x.a[1], n), True):
            return True
        return all(entails(f, disceq(p, i, n), False) for i in range(n) if i != x.a[1])


def v_owned(rep, prog):
    t = Stem(rep, prog)
    o = Owned(rep, prog, [])
    n = 0
    want = {"diff::AttrPair", "diff::InsertContent", "diff::PropChange", "diff::Patch"}
    for b in prog.bodies.values():
        if not b["local"] or b["kind"] != "fn" or b["n"] != "into_owned" or t.args(b)[0] not in want or t.ret(b) != t.args(b)[0]:
            continue
        r = HRoot(prog, b, [P("value")], matching=False, treeapi=False, extra=dict(HOT_API))
        rep.use(r)
        want.discard(t.args(b)[0])
        for s, v in outs(r):
            n += 1
            why = o.same(s.facts, v, P("value"))
            rep.check(why is None, "the owned copy says what the original says", at(b), why or "")
    rep.check(not want, "attributes, contents, changes and patches have owned copies", "hotmeal/src/diff.rs", " ".join(sorted(want)))

    # names as strings, and pairs
    def conv(a, z):
        bs = [b for b in prog.bodies.values() if b["local"] and b["kind"] == "fn" and b["argc"] == 1 and b["n"] == "from" and t.args(b) == [a] and t.ret(b) == z]
        rep.check(len(bs) == 1, "there is one conversion from %s to %s" % (a, z), "hotmeal/src/diff.rs")
        return bs[0] if len(bs) == 1 else None

    def step(b, arg, facts=None):
        r = HRoot(prog, b, [arg], matching=False, treeapi=False, extra=dict(HOT_API), facts=facts)
        rep.use(r)
        return outs(r)

    def both(a, z, back, ok, rule):
        x, y = conv(a, z), conv(z, back)
        if x is None or y is None:
            return
        for s, v in step(x, P("value")):
            os = step(y, v, s.facts)
            rep.check(bool(os), rule, at(y), "it does not come back")
            for s2, w in os:
                rep.check(ok(s2.facts, w), rule, at(y), "%s where %s" % (show(w, 7), fshow(s2.facts, 4)))
    p = P("value")
    q = next(a for nm, a in prog.adts.items() if nm.endswith("html5ever::QualName"))["v"][0]["f"]

    def qual(f, w):
        if w.tag != "agg" or len(w.a) != 2 + len(q):
            return False
        for i, nm in enumerate(q):
            x, y = w.a[2 + i], fld(p, 0, i)
            if nm != "prefix":
                if chars(x) is not y:
                    return False
                continue
            none = entails(f, disceq(y, 1), False)
            bare = [u for l, u in f.items() if is_bare(l, fld(y, 1, 0))]
            if x is NONE:
                if not none and True not in bare:
                    return False
            elif x.tag != "agg" or chars(x.a[2]) is not fld(y, 1, 0) or not entails(f, disceq(y, 1), True):
                return False
        return True

    def is_bare(l, t):
        return l.tag == "app" and l.a[0].endswith("::is_empty") and l.a[1] is t or l is eq(mk("len", t), Int(0)) or l is eq(t, EMPTY)
    both("&html5ever::QualName", "diff::QualNameProxy", "html5ever::QualName", qual, "a qualified name sent as strings is the same name again, an empty prefix being none")
    both("&html5ever::LocalName", "diff::LocalNameProxy", "html5ever::LocalName", lambda f, w: chars(w) is p, "a local name sent as a string is the same name again")
    pair = "(html5ever::QualName, stem::Stem)"
    for a, z in ((pair, "diff::AttrPair"), ("diff::AttrPair", pair)):
        b = conv(a, z)
        for s, v in step(b, p) if b else ():
            an, av = fidx(prog, "AttrPair", "name"), fidx(prog, "AttrPair", "value")
            src, dst = ((0, 1), (an, av)) if z == "diff::AttrPair" else ((an, av), (0, 1))
            ok = v.tag == "agg" and len(v.a) == 4 and all(chars(v.a[2 + d]) is fld(p, 0, c) for c, d in zip(src, dst))
            rep.check(ok, "an attribute and the pair of its name and value are the same", at(b), show(v, 5))
    # names received as strings
    b = conv("diff::QualNameProxy", "html5ever::QualName")
    names = next(a for nm, a in prog.adts.items() if nm.endswith("diff::QualNameProxy"))["v"][0]["f"]
    for s, v in step(b, p) if b else ():
        f, ok = s.facts, v.tag == "agg" and len(v.a) == 2 + len(q)
        for nm in names if ok else ():
            x, y = v.a[2 + q.index(nm)], fld(p, 0, names.index(nm))
            if nm != "prefix":
                ok = ok and chars(x) is y
            elif x is NONE:
                ok = ok and (entails(f, disceq(y, 1), False) or any(u for l, u in f.items() if is_bare(l, fld(y, 1, 0))))
            else:
                ok = ok and x.tag == "agg" and chars(x.a[2]) is fld(y, 1, 0) and any(u is False for l, u in f.items() if is_bare(l, fld(y, 1, 0)))
        rep.check(ok, "a name received as strings has these strings, an empty prefix being none", at(b), show(v, 6) + " where " + fshow(s.facts, 4))
