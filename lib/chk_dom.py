"""hotmeal's document: what serialising it writes."""
from term import *
from engine import *
from logic import *
from facts import splice, loop_src
from hot import *
from report import *

DOC = "hotmeal::dom::Document"
ND, NK, ED, QN = "hotmeal::dom::NodeData", "hotmeal::dom::NodeKind", "hotmeal::dom::ElementData", "html5ever::QualName"
OUT = mk("obj", "out")
OUTREF = mk("ref", ("O", "outc"), ())
VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"}
VOID_MAY = VOID | {"param", "basefont", "bgsound", "frame", "keygen"}
RAW = {"script", "style", "noscript", "xmp", "iframe", "noembed", "noframes", "plaintext"}
ENT = {"&amp;": 38, "&lt;": 60, "&gt;": 62, "&quot;": 34, "&nbsp;": 160, "&#39;": 39, "&apos;": 39, "&#34;": 34, "&#38;": 38, "&#60;": 60, "&#62;": 62}


class No(Exception):
    """the output is not what the rule asks for"""


class Shape:
    """where the parts of a node are"""

    def __init__(self, prog):
        def field(adt, name, v=0):
            ad = next(a for n, a in prog.adts.items() if n.endswith(adt))
            return ad["v"][v]["f"].index(name)

        def variants(adt):
            ad = next(a for n, a in prog.adts.items() if n.endswith(adt))
            return {x["n"]: i for i, x in enumerate(ad["v"])}
        self.doc = P("doc")
        self.kindf = field("dom::NodeData", "kind")
        self.nsf = field("dom::NodeData", "ns")
        self.k = variants("dom::NodeKind")
        self.tagf, self.attrsf = field("dom::ElementData", "tag"), field("dom::ElementData", "attrs")
        self.q = {n: field("html5ever::QualName", n) for n in ("prefix", "ns", "local")}
        self.docf = {n: field("dom::Document", n) for n in ("arena", "root", "doctype")}

    def data(self, i):
        return app("data", self.doc, i)

    def kind(self, i):
        return fld(self.data(i), 0, self.kindf)

    def elem(self, i):
        return fld(self.kind(i), self.k["Element"], 0)

    def tag(self, i):
        return fld(self.elem(i), 0, self.tagf)

    def attrs(self, i):
        return fld(self.elem(i), 0, self.attrsf)

    def text(self, i, what="Text"):
        return fld(self.kind(i), self.k[what], 0)

    def kind_of(self, f, i):
        """which kind of node the facts say i is"""
        yes = [n for n, k in self.k.items() if entails(f, disceq(self.kind(i), k, len(self.k)), True)]
        if yes:
            return yes[0]
        left = [n for n, k in self.k.items() if not entails(f, disceq(self.kind(i), k, len(self.k)), False)]
        return left[0] if len(left) == 1 else None


def tokens(nodes):
    """what was written, as literal text, values, loops and recursive calls"""
    out = []

    def lit(s):
        if out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + s)
        elif s:
            out.append(("lit", s))

    def formatted(t):
        """the pieces of a text made by format!"""
        from chk_value import pieces
        ps = pieces(t) if t.tag == "app" and t.a[0] == "fmt" else None
        return None if ps is None or t in ps else ps

    def value(t):
        t = chars(t)
        if t.tag == "str":
            s = str_lit(t)
            if s is None:
                s = t.a[0][1:-1].encode().decode("unicode_escape")
            lit(s)
        elif t.tag == "app" and t.a[0] == "chr" and t.a[1].tag == "int":
            lit(chr(t.a[1].a[0]))
        elif t.tag == "snap" and t.a[0] == STRING:
            go(t.a[1])
        else:
            ps = formatted(t)
            for x in ps or ():
                value(x)
            if ps is None:
                out.append(("val", t))

    def go(ns):
        for n in splice(ns):
            if n.tag == "item":
                value(n.a[0])
            elif n.tag == "base":
                continue
            elif n.tag in ("loop", "rec"):
                out.append((n.tag, n))
            else:
                raise No("the output is changed in an unknown way: " + show(n, 4))
    go(nodes)
    return out


class Toks:
    def __init__(self, toks):
        self.t = list(toks)

    def lit(self, s):
        if not self.t or self.t[0][0] != "lit" or not self.t[0][1].startswith(s):
            raise No("%s expected, found %s" % (repr(s), self.head()))
        rest = self.t[0][1][len(s):]
        self.t[0:1] = [("lit", rest)] if rest else []

    def starts(self, s):
        return bool(self.t) and self.t[0][0] == "lit" and self.t[0][1].startswith(s)

    def val(self, v):
        if not self.t or self.t[0][0] != "val" or chars(self.t[0][1]) is not chars(v):
            raise No("%s expected, found %s" % (show(v, 5), self.head()))
        self.t.pop(0)

    def head(self):
        if not self.t:
            return "the end"
        k, v = self.t[0]
        return repr(v) if k == "lit" else show(v, 5)

    def end(self):
        if self.t:
            raise No("more is written: " + self.head())


class Ser:
    def __init__(self, rep, prog):
        self.rep, self.prog, self.sh = rep, prog, Shape(prog)
        self.roles = {}
        self.todo = []
        self.done = {}

    # -- one function as a root
    def root(self, b):
        args, node, elem = [], None, None
        for i in range(b["argc"]):
            t = self.prog.types[b["locals"][i + 1][0]]
            while t["k"] == "ref":
                t = self.prog.types[t["t"]]
            n = t.get("p", "").split("::")[-1]
            if n == "Document":
                args.append(self.sh.doc)
            elif n == "String":
                args.append(OUTREF)
            elif n == "NodeId":
                node = P("id")
                args.append(node)
            elif n == "ElementData":
                elem = True
                args.append(self.sh.elem(P("id")))
            elif n == "NodeData":
                args.append(self.sh.data(P("id")))
            elif t["k"] == "bool":
                args.append(P("flag%d" % i))
            else:
                raise Unsupported("%s takes a %s" % (short(b["p"]), t.get("s")))
        r = HRoot(self.prog, b, args, matching=False, treeapi=False, extra=HOT_API,
                  heap={"out": mk("coll", STRING, (mk("base", "^", "out", (), "past"),)), "outc": mk("cell", OUT)})
        self.rep.use(r)
        r.has_elem = elem
        return r

    def outs(self, r):
        return [(s, r.it.rv(s, v)) for s, v in r.outs if not inconsistent(s.facts)]

    def written(self, r, s):
        ns = s.heap["out"].a[1]
        if not ns or ns[0] is not mk("base", "^", "out", (), "past"):
            raise No("what was written before is lost")
        return tokens(ns[1:])

    def role(self, key):
        """what a recursive function writes for a node: normal, raw (text as it is) or elem (only elements)"""
        if key not in self.roles:
            b = self.prog.bodies[key]
            r = self.root(b)
            role = "elem" if r.has_elem else None
            for s, v in self.outs(r):
                if role is None and self.sh.kind_of(s.facts, P("id")) == "Text":
                    try:
                        t = self.written(r, s)
                        role = "raw" if t == [("val", self.sh.text(P("id")))] else "normal"
                    except No:
                        role = "normal"
            self.roles[key] = role or "normal"
            self.todo.append((key, r))
        return self.roles[key]

    # -- rules
    def flags(self, r, mode):
        return mode

    def node(self, ts, f, i, mode):
        sh = self.sh
        if len(ts.t) == 1 and ts.t[0][0] == "rec":
            self.rec(ts, f, i, mode)
            return
        k = sh.kind_of(f, i)
        if k == "Text":
            if mode == "raw":
                if ts.t:
                    ts.val(sh.text(i))
                elif not entails(f, eq(mk("len", sh.text(i)), Int(0)), True):
                    raise No("the text is not written")
            else:
                self.escaped(ts, f, sh.text(i), {38, 60}, "the text")
        elif k == "Comment":
            ts.lit("<!--")
            ts.val(sh.text(i, "Comment"))
            ts.lit("-->")
        elif k == "Element":
            self.element(ts, f, i)
        elif k == "Document":
            pass
        else:
            raise No("what is written does not depend on the kind of node")
        ts.end()

    def rec(self, ts, f, i, mode):
        n = ts.t.pop(0)[1]
        role = self.role(n.a[0])
        args = n.a[1]
        ids = [a for a, l in zip(args, self.prog.bodies[n.a[0]]["locals"][1:]) if self.prog.types[l[0]].get("p", "").endswith("NodeId")]
        if ids != [i] or not any(a is OUT or a.tag == "snap" or a.tag == "ref" for a in args):
            raise No("the nested call is about another node: " + show(args, 4))
        es = [a for a, l in zip(args, self.prog.bodies[n.a[0]]["locals"][1:]) if "ElementData" in self.prog.types[l[0]]["s"]]
        if es and es != [self.sh.elem(i)]:
            raise No("the nested call is about another element: " + show(es, 4))
        if role == "elem":
            if self.sh.kind_of(f, i) != "Element":
                raise No("a node that is not an element is written as one")
        elif role != mode:
            raise No("the text below is %s" % ("escaped although it is raw text" if mode == "raw" else "not escaped"))

    def escaped(self, ts, f, text, need, what):
        """every character of text, those in need as entities"""
        if not ts.t:
            if entails(f, eq(mk("len", text), Int(0)), True):
                return
            raise No(what + " is not written")
        k, v = ts.t.pop(0)
        if k == "val":
            done = set()
            order = []
            while v.tag == "app" and len(v.a) == 4 and v.a[0].split("@")[0].endswith("::replace"):
                frm = ord(str_lit(v.a[2])) if v.a[2].tag == "str" and len(str_lit(v.a[2]) or "") == 1 else v.a[2].a[0] if v.a[2].tag == "int" else None
                to = str_lit(v.a[3]) if v.a[3].tag == "str" else None
                if frm is None or ENT.get(to) != frm:
                    raise No("%s has %s replaced by %s" % (what, show(v.a[2]), show(v.a[3])))
                done.add(frm)
                order.append(frm)
                v = v.a[1]
            if chars(v) is not chars(text) or not need <= done or order and order[-1] != 38:
                raise No("%s is not escaped: %s" % (what, show(v, 5)))
            return
        if k != "loop" or v.a[1] != "end" or v.a[4]:
            raise No("%s is not written character by character" % what)
        for p in v.a[2]:
            src = loop_src(p)
            if src is None or not is_chars(src, text):
                raise No("%s is not what is written: %s" % (what, show(src, 5) if src is not None else "?"))
            e = mk("elem", p.a[3][0].a[0], src)
            pf = merged(f, p)
            t = tokens(p.a[2])
            if t == [("val", app("chr", e))] or t == [("val", e)]:
                for c in sorted(need):
                    if not entails(pf, eq(e, Int(c)), False):
                        raise No("%s is written with %s as it is" % (what, repr(chr(c))))
            elif len(t) == 1 and t[0][0] == "lit" and t[0][1] in ENT:
                if not entails(pf, eq(e, Int(ENT[t[0][1]])), True):
                    raise No("%s has %s written for another character" % (what, t[0][1]))
            elif len(t) == 1 and t[0][0] == "lit" and len(t[0][1]) == 1 and ord(t[0][1]) not in need:
                if not entails(pf, eq(e, Int(ord(t[0][1]))), True):
                    raise No("%s has %s written for another character" % (what, repr(t[0][1])))
            else:
                raise No("%s has a character changed or left out: %s" % (what, [x[1] if x[0] == "lit" else show(x[1], 4) for x in t]))

    def element(self, ts, f, i):
        sh = self.sh
        tag = sh.tag(i)
        ts.lit("<")
        ts.val(tag)
        # attributes
        if ts.t and ts.t[0][0] == "loop":
            n = ts.t.pop(0)[1]
            if n.a[1] != "end" or n.a[4]:
                raise No("not every attribute is written")
            for p in n.a[2]:
                src = loop_src(p)
                if src is not sh.attrs(i):
                    raise No("the attributes written are not the element's: " + (show(src, 5) if src is not None else "?"))
                a = mk("elem", p.a[3][0].a[0], src)
                self.attribute(Toks(tokens(p.a[2])), merged(f, p), a)
        elif not entails(f, eq(mk("len", sh.attrs(i)), Int(0)), True):
            raise No("the attributes are not written")
        ts.lit(">")
        void = self.in_set(f, tag, VOID_MAY)
        notvoid = all(entails(f, eq(tag, mk("str", '"%s"' % x)), False) for x in VOID)
        if void and not ts.t:
            return
        if not notvoid:
            raise No("a void element gets an end tag" if ts.t or void else "an element that is not void gets no end tag")
        self.children(ts, f, i, self.mode(f, i))
        ts.lit("</")
        ts.val(tag)
        ts.lit(">")

    def mode(self, f, i):
        """whether text below a node is written as it is"""
        tag = self.sh.tag(i)
        if self.in_set(f, tag, RAW):
            return "raw"
        if self.sh.kind_of(f, i) in ("Text", "Comment", "Document") or entails(f, disceq(self.sh.kind(i), self.sh.k["Element"], len(self.sh.k)), False):
            return "normal"
        missing = [x for x in sorted(RAW) if not entails(f, eq(tag, mk("str", '"%s"' % x)), False)]
        if missing:
            raise No("the content of %s is written escaped although browsers and the parser take it as it is" % ", ".join(missing))
        return "normal"

    def in_set(self, f, tag, names):
        return any(entails(f, eq(tag, mk("str", '"%s"' % x)), True) for x in names)

    def children(self, ts, f, i, mode):
        sh = self.sh
        if not ts.t or ts.t[0][0] != "loop":
            raise No("the children are not written, but %s" % ts.head())
        n = ts.t.pop(0)[1]
        if n.a[1] != "end" or n.a[4]:
            raise No("not every child is written")
        for p in n.a[2]:
            src = loop_src(p)
            if src is not app(D + "children", sh.doc, i):
                raise No("what is written below is not the children: " + (show(src, 5) if src is not None else "?"))
            e = mk("elem", p.a[3][0].a[0], src)
            t = Toks(tokens(p.a[2]))
            self.node(t, merged(f, p), e, mode)

    def attribute(self, ts, f, a):
        sh = self.sh
        name, value = fld(a, 0, 0), fld(a, 0, 1)
        prefix = fld(name, 0, sh.q["prefix"])
        ts.lit(" ")
        empty = eq(mk("len", fld(prefix, 1, 0)), Int(0))                                     # no more than no prefix
        if entails(f, disceq(prefix, 1), True) and not entails(f, empty, True):
            if not entails(f, empty, False):
                raise No("an empty prefix is written as one")
            ts.val(fld(prefix, 1, 0))
            ts.lit(":")
        elif not entails(f, disceq(prefix, 1), False) and not entails(f, empty, True):
            raise No("the prefix of an attribute is not written")
        ts.val(fld(name, 0, sh.q["local"]))
        ts.lit("=\"")
        if ts.starts('"'):
            raise No("the value of an attribute is not written")
        self.escaped(ts, f, value, {38, 34}, "the value of an attribute")
        ts.lit('"')
        ts.end()

    def judge(self, r, role, rule=None):
        for s, v in self.outs(r):
            w = "%s (%s)" % (short(r.body["p"]), r.body.get("span", ""))
            k = self.sh.kind_of(s.facts, P("id"))
            try:
                ts = Toks(self.written(r, s))
                if role == "elem":
                    f = dict(s.facts)
                    f[disceq(self.sh.kind(P("id")), self.sh.k["Element"], len(self.sh.k))] = True
                    self.element(ts, f, P("id"))
                    ts.end()
                else:
                    self.node(ts, s.facts, P("id"), role)
                self.rep.check(True, "%s nodes are written as HTML" % (k or "element"), w)
            except No as e:
                self.rep.fail("%s nodes are written as HTML" % (k or "element"), w, str(e))

    def finish(self):
        n = 0
        while self.todo:
            key, r = self.todo.pop()
            self.judge(r, self.roles[key])
            n += 1
        return n


def merged(f, p):
    d = dict(f)
    d.update(factsdict(p.a[1]))
    return d


def is_chars(src, text):
    return src.tag == "app" and src.a[0].split("@")[0].endswith("str::chars") and chars(src.a[1]) is chars(text)


def v_serialize(rep, prog):
    z = Ser(rep, prog)
    sh = z.sh
    roots = {"to_html": None, "to_html_without_doctype": None, "serialize_inner_html": None, "to_body_html": None}
    doct = fld(sh.doc, 0, sh.docf["doctype"])
    top = fld(sh.doc, 0, sh.docf["root"])
    for name in roots:
        b = prog.fn(DOC + "::" + name)
        if b is None:
            raise Unsupported("function not found: " + name)
        r = HRoot(prog, b, [sh.doc] + ([P("id")] if b["argc"] == 2 else []), matching=False, treeapi=False, extra=HOT_API)
        rep.use(r)
        w = "%s (%s)" % (short(b["p"]), b.get("span", ""))
        for s, v in z.outs(r):
            f = s.facts
            try:
                ts = Toks(tokens([mk("item", v, mkfacts({}), "")]))
                if name == "to_html":
                    has = entails(f, disceq(doct, 1), True)
                    if has:
                        ts.lit("<!DOCTYPE ")
                        ts.val(fld(doct, 1, 0))
                        ts.lit(">")
                    elif not entails(f, disceq(doct, 1), False):
                        raise No("the doctype is not written")
                if name.startswith("to_html"):
                    z.node(ts, f, top, "normal")
                elif name == "serialize_inner_html":
                    z.children(ts, f, P("id"), z.mode(f, P("id")))
                    ts.end()
                else:
                    bodies = [x for x in known_bodies(f, sh)]
                    if not bodies and not ts.t and no_body(f, sh):
                        continue
                    if not bodies:
                        raise No("what is written is not the content of the body")
                    z.children(ts, f, bodies[0], "normal")
                    ts.end()
                rep.check(True, "%s writes the whole document part" % name, w)
            except No as e:
                rep.fail("%s writes the whole document part" % name, w, str(e))
    # every function that writes itself is judged on its own
    n = z.finish()
    rep.check(n >= 1, "nested nodes are written by functions that are judged", "hotmeal/src/dom.rs", "none found")


def body_like(f, e, sh):
    return sh.kind_of(f, e) == "Element" and entails(f, eq(sh.tag(e), mk("str", '"body"')), True)


def known_bodies(f, sh):
    """the child of the root the facts say is the first body"""
    src = app(D + "children", sh.doc, fld(sh.doc, 0, sh.docf["root"]))
    for l, v in f.items():
        for x in subterms(l):
            if x.tag == "elem" and x.a[1] is src and body_like(f, x, sh) and first(f, src):
                yield x


def first(f, src):
    return all_rejected(f, src, ("partial",))


def all_rejected(f, src, tags):
    for l, v in f.items():
        if l.tag in tags and v is True and l.a[1] and all(loop_src(p) is src for p in l.a[1]):
            return True
    return False


def no_body(f, sh):
    src = app(D + "children", sh.doc, fld(sh.doc, 0, sh.docf["root"]))
    return all_rejected(f, src, ("forall",))
