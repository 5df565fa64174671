"""Models of the std / indextree API used by the interpreter: lazy streams, collections, cells."""
import re

from term import *
from engine import (neg, eq, lt, disceq, snap, nodes_of, FnRef, Unsupported, vec_len, PARENT)

VEC, SET, MAP = "Vec", "HashSet", "HashMap"
UNORDERED = (SET, MAP)
MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def st_(op, *a):
    return mk("st", op, *a)


IDX_OK = ("src", "map", "inspect")


def index_preserving(s):
    while s.tag == "st":
        if s.a[0] == "src":
            return True
        if s.a[0] not in ("map", "inspect", "enumerate", "zip"):
            return False
        s = s.a[1]
    return False


def src_of(s):
    while s.tag == "st" and s.a[0] != "src":
        s = s.a[1]
    return s.a[1] if s.tag == "st" else s


def is_coll(t):
    return t.tag in ("snap", "bucket")


def kind_of(it, st, v):
    """collection kind of a value, or None"""
    v = it.deref_all(st, v) if v.tag == "ref" else v
    if v.tag == "obj":
        h = st.heap.get(v.a[0])
        if h is not None and h.tag == "coll":
            return h.a[0]
        if h is not None and h.tag == "cell":
            return kind_of(it, st, h.a[0])
    if v.tag == "snap":
        return v.a[0]
    return None


def obj_of(it, st, v):
    v = it.deref_all(st, v) if v.tag == "ref" else v
    if v.tag == "obj":
        h = st.heap.get(v.a[0])
        if h is not None and h.tag == "cell":
            return obj_of(it, st, h.a[0])
        return v
    return None


def as_stream(it, st, v, by_ref=False):
    x = it.deref_all(st, v) if v.tag == "ref" else v
    if x.tag == "st":
        return x
    if x.tag == "obj":
        h = st.heap.get(x.a[0])
        if h is not None and h.tag == "cell":
            return as_stream(it, st, h.a[0])
        k = h.a[0]
        t = it.snapshot(st, x.a[0])
        return st_("src", t if k == VEC else mk("unord", t) if k in UNORDERED else t)
    if x.tag == "agg":
        n = x.a[0]
        if n == "std::ops::Range":
            return st_("src", mk("range", it.rv(st, x.a[2]), it.rv(st, x.a[3])))
        if n == "std::ops::RangeInclusive":
            return st_("src", mk("rangei", it.rv(st, x.a[2]), it.rv(st, x.a[3])))
        if n == OPT:
            return st_("src", it.rv(st, x))
        if n == "array":
            return st_("src", snap(VEC, tuple(mk("item", it.rv(st, y), mkfacts({}), "arr%d" % i) for i, y in enumerate(x.a[2:]))))
    if x.tag == "snap" and x.a[0] in UNORDERED:
        return st_("src", mk("unord", x))
    return st_("src", it.rv(st, x))


def hash_ordered(it, tyi, depth=0):
    """is this (a reference or owner of) a collection without an order of its own, or an iterator over one?"""
    if tyi is None or depth > 4:
        return False
    t = it.p.types[tyi]
    if t["k"] == "ref":
        return hash_ordered(it, t["t"], depth + 1)
    if t["k"] != "adt":
        return False
    n = t["p"].split("::")[-1]
    if n in ("HashSet", "HashMap"):
        return True
    return n in ("Box", "Ref", "RefMut", "Rc", "Arc", "Cow") and any(hash_ordered(it, x, depth + 1) for x in t.get("a", ()) if isinstance(x, int))


def stream_arg(it, st, args, i, ctx):
    """the i-th argument as a stream; what iterates a hash collection comes in an unknown order, whatever its value is"""
    s = as_stream(it, st, args[i])
    if s.tag == "st" and s.a[0] == "src" and s.a[1].tag not in ("unord", "snap") and i < len(ctx.argtys) and hash_ordered(it, ctx.argtys[i]):
        return st_("src", mk("unord", s.a[1]))
    return s


# ---- element generation ---------------------------------------------------
def note_elem(s, e):
    s.elems = s.elems | {e}
    return e


def tmp_ref(it, s, site, v):
    """a reference to a temporary holding v"""
    if v.tag == "ref":
        key = "%s#tmp" % site
        s.heap[key] = mk("cell", v)
        return mk("ref", ("O", key), ())
    return v


def imp(it, s, facts, m):
    """import facts (after renaming) into a copy of s; None when contradictory"""
    memo = {}
    for l, b in facts:
        l2 = subst(l, m, memo) if m else l
        s2 = it.assume(s, l2, b) if isinstance(b, bool) else s
        if s2 is None:
            return None
        s = s2
    return s


def opaque_nodes(nodes):
    for n in nodes:
        if n.tag in ("item", "copyof", "perm", "bitem", "ins"):
            continue
        if n.tag == "once":
            if any(opaque_nodes(p.a[2]) for p in n.a[0]):
                return True
            continue
        if n.tag == "loop":
            for p in n.a[2]:
                if p.a[0] != "back" or opaque_nodes(p.a[2]):
                    return True
            continue
        return True
    return False


def gen_src(it, s, t, site):
    """[(state, "elem"|"skip", value)]"""
    if t.tag == "unord":
        it.note_unordered(s, site, t.a[0])
        return gen_src(it, s, t.a[0], site)
    if t.tag == "snap" and not opaque_nodes(t.a[1]) and not (t.a[0] == MAP and False):
        return gen_nodes(it, s, t.a[1], site, {})
    if t.tag == "bucket" and t.a[0].tag == "snap" and not opaque_nodes(t.a[0].a[1]):
        return gen_nodes(it, s, t.a[0].a[1], site, {}, bucket=t.a[1])
    if t.tag == "agg" and t.a[0] == OPT:
        return [(s, "elem", t.a[2])] if t.a[1] == 1 else []
    if t.tag in ("range", "rangei"):
        e = mk("elem", site, t)
        s = s.copy()
        note_elem(s, e)
        s2 = it.assume(s, lt(e, t.a[0]), False)
        if s2 is None:
            return []
        s2 = it.assume(s2, lt(e, t.a[1]), True) if t.tag == "range" else it.assume(s2, lt(t.a[1], e), False)
        return [(s2, "elem", e)] if s2 is not None else []
    e = mk("elem", site, t)
    s = s.copy()
    note_elem(s, e)
    return [(s, "elem", e)]


def ren(e, site, m, memo=None):
    return mk("elem", e.a[0] + "@" + site, subst(e.a[1], m))


def gen_nodes(it, s, nodes, site, m, bucket=None, depth=0):
    out = []
    for i, n in enumerate(nodes):
        g = n.tag
        if g == "perm":
            continue
        if g == "copyof":
            if bucket is None:
                out += gen_src(it, s, subst(n.a[0], m), site + (".%d" % i if len(nodes) > 1 else ""))
            continue
        if g == "item":
            if bucket is not None:
                continue
            s2 = imp(it, s, n.a[1].a[0], m)
            if s2 is not None:
                s2 = s2.copy()
                v = subst(n.a[0], m)
                for x in variables(v):
                    if x.tag == "elem":
                        s2.elems = s2.elems | {x}
                out.append((s2, "elem", v))
            continue
        if g in ("bitem", "ins"):
            key = subst(n.a[0], m)
            val = subst(n.a[1], m)
            s2 = imp(it, s, n.a[2].a[0], m)
            if s2 is None:
                continue
            if g == "bitem" and bucket is not None:
                for s3, b in it.fork_eq(s2, key, bucket):
                    if b:
                        out.append((s3, "elem", val))
                    else:
                        out.append((s3, "skip", None))
            elif g == "ins" and bucket is None:
                out.append((s2, "elem", tup(key, val)))
            else:
                out.append((s2, "elem", mk("elem", site, n)))
            continue
        if g == "loop":
            m2 = dict(m)
            es = sorted(n.a[3], key=lambda e: e.id)
            for _ in range(3):
                for e in es:
                    mm = {k: v for k, v in m2.items() if k != e.id}
                    m2[e.id] = ren(e, site, mm)
            for p in n.a[2]:
                s2 = imp(it, s, p.a[1].a[0], m2)
                if s2 is None:
                    continue
                s2 = s2.copy()
                s2.elems = s2.elems | {m2[e.id] for e in es}
                if p.a[2]:
                    out += gen_nodes(it, s2, p.a[2], site, m2, bucket, depth + 1)
                else:
                    out.append((s2, "skip", None))
            continue
        if g == "once":
            for p in n.a[0]:
                s2 = imp(it, s, p.a[1].a[0], m)
                if s2 is not None:
                    out += gen_nodes(it, s2, p.a[2], site, m, bucket, depth + 1)
            continue
        raise Unsupported("gen over " + g)
    return out


def gen(it, s, t, site, ctx):
    if t.tag != "st":
        return gen_src(it, s, t, site)
    op = t.a[0]
    if op == "src":
        return gen_src(it, s, t.a[1], site)
    if op == "filter":
        out = []
        for s1, k, v in gen(it, s, t.a[1], site, ctx):
            if k == "skip":
                out.append((s1, k, v))
                continue
            s1 = s1.copy()
            for s2, r in it.call_closure(s1, t.a[2], t.a[2], [tmp_ref(it, s1, site, v)], ctx):
                for s3, b in it.fork_bool(s2, r):
                    out.append((s3, "elem", v) if b else (s3, "skip", None))
        return out
    if op == "map":
        out = []
        for s1, k, v in gen(it, s, t.a[1], site, ctx):
            if k == "skip":
                out.append((s1, k, v))
                continue
            for s2, r in it.call_closure(s1, t.a[2], t.a[2], [v], ctx):
                out.append((s2, "elem", r))
        return out
    if op == "inspect":
        out = []
        for s1, k, v in gen(it, s, t.a[1], site, ctx):
            if k == "skip":
                out.append((s1, k, v))
                continue
            for s2, r in it.call_closure(s1, t.a[2], t.a[2], [v], ctx):
                out.append((s2, "elem", v))
        return out
    if op == "filter_map":
        out = []
        for s1, k, v in gen(it, s, t.a[1], site, ctx):
            if k == "skip":
                out.append((s1, k, v))
                continue
            for s2, r in it.call_closure(s1, t.a[2], t.a[2], [v], ctx):
                for s3, opt in split_opt(it, s2, r):
                    out.append((s3, "skip", None) if opt is None else (s3, "elem", opt))
        return out
    if op in ("flat_map", "flatten"):
        out = []
        for s1, k, v in gen(it, s, t.a[1], site, ctx):
            if k == "skip":
                out.append((s1, k, v))
                continue
            inner = it.call_closure(s1, t.a[2], t.a[2], [v], ctx) if op == "flat_map" else [(s1, v)]
            for s2, r in inner:
                x = it.rv_shallow(s2, r)
                opt = op == "flat_map" and gives_option(it, t.a[2])
                for s3, y in (split_opt_t(it, s2, x) if looks_option(it, x) else split_opt(it, s2, x) if opt else [(s2, x)]):
                    if opt:
                        out.append((s3, "skip", None) if y is None else (s3, "elem", y))
                        continue
                    ys = as_stream(it, s3, y)
                    if ys.a[0] == "src" and ys.a[1].tag not in ("unord", "snap") and any(hash_ordered(it, a) for a in ctx.callee["a"] if isinstance(a, int)):
                        ys = st_("src", mk("unord", ys.a[1]))
                    out += gen(it, s3, ys, site + "f", ctx)
        return out
    if op == "enumerate":
        out = []
        ok = index_preserving(t.a[1])
        for s1, k, v in gen(it, s, t.a[1], site, ctx):
            if k == "elem":
                v = tup(index_term(it, s1, t.a[1], v, site), v)
            out.append((s1, k, v))
        return out
    if op == "zip":
        out = []
        ok = index_preserving(t.a[1]) and index_preserving(t.a[2])
        for s1, k, v in gen(it, s, t.a[1], site + "l", ctx):
            if k == "skip":
                out.append((s1, k, None))
                continue
            for s2, k2, v2 in gen(it, s1, t.a[2], site + "r", ctx):
                if k2 == "skip":
                    out.append((s2, k2, None))
                    continue
                s3 = s2
                if ok:
                    s3 = it.assume(s2, mk("zipped", it.rv(s2, v), it.rv(s2, v2)), True) or s2
                out.append((s3, "elem", tup(v, v2)))
        return out
    if op == "chain":
        return gen(it, s, t.a[1], site + "a", ctx) + gen(it, s, t.a[2], site + "b", ctx)
    if op in ("rev", "fused", "peekable", "byref"):
        return gen(it, s, t.a[1], site, ctx)
    if op == "skip":
        out = []
        for s1, k, v in gen(it, s, t.a[1], site, ctx):
            if k == "elem":
                l = mk("beyond", index_term(it, s1, t.a[1], v, site), t.a[2])
                for s2, b in it.fork_bool(s1, l):
                    out.append((s2, "elem", v) if b else (s2, "skip", None))
            else:
                out.append((s1, k, v))
        return out
    if op in ("take", "partialsrc"):
        out = []
        for s1, k, v in gen(it, s, t.a[1], site, ctx):
            if k == "elem":
                l = mk("beyond", index_term(it, s1, t.a[1], v, site), t.a[2])
                for s2, b in it.fork_bool(s1, l):
                    out.append((s2, "skip", None) if b else (s2, "elem", v))
            else:
                out.append((s1, k, v))
        return out
    if op in ("take_while", "skip_while", "map_while"):
        # elements for which the predicate once failed are not seen / seen: both outcomes possible
        out = []
        for s1, k, v in gen(it, s, t.a[1], site, ctx):
            if k == "skip":
                out.append((s1, k, v))
                continue
            if op == "map_while":
                raise Unsupported("map_while")
            s1 = s1.copy()
            for s2, r in it.call_closure(s1, t.a[2], t.a[2], [tmp_ref(it, s1, site, v)], ctx):
                for s3, b in it.fork_bool(s2, r):
                    cut = mk("cut", site, op, it.rv(s3, v))
                    if op == "take_while":
                        if b:
                            out.append((it.assume(s3, cut, False), "elem", v))
                            out.append((it.assume(s3, cut, True), "skip", None))
                        else:
                            out.append((s3, "skip", None))
                    else:
                        if b:
                            out.append((it.assume(s3, cut, False), "skip", None))
                            out.append((it.assume(s3, cut, True), "elem", v))
                        else:
                            out.append((s3, "elem", v))
        return [o for o in out if o[0] is not None]
    raise Unsupported("stream " + op)


def index_term(it, s, stream, v, site):
    if index_preserving(stream):
        x = it.rv(s, v)
        y = x
        if stream.a[0] in ("map",):
            return mk("cnt", site)
        return mk("idx", y)
    return mk("cnt", site)


def looks_option(it, x):
    return x.tag == "agg" and x.a[0] == OPT


def gives_option(it, clo):
    """does this closure return an Option?"""
    b = it.p.bodies.get(clo.a[0]) if clo.tag == "clo" else None
    return b is not None and (it.p.types[b["locals"][0][0]].get("p") or "").endswith("option::Option")


def split_opt_t(it, s, x):
    if x.tag == "agg":
        return [(s, x.a[2])] if x.a[1] == 1 else []
    return [(s, x)]


def split_opt(it, s, r):
    """[(state, payload or None)]"""
    x = it.rv_shallow(s, r)
    if x.tag == "phi" and x in it.phi:
        out = []
        for s2, v in it.expand(s, x):
            out += split_opt(it, s2, v)
        return out
    if x.tag == "agg":
        return [(s, x.a[2] if x.a[1] == 1 else None)]
    out = []
    for s2, b in it.fork_bool(s, disceq(x, 1)):
        out.append((s2, fld(x, 1, 0) if b else None))
    return out


def full_empty(it, s, t):
    """literal `stream yields nothing` for index-preserving streams over one source"""
    x = src_of(t)
    if x.tag == "unord":
        x = x.a[0]
    return x


# ---- consumption ----------------------------------------------------------
def consume(it, st, stream, ctx, step, site=None):
    """step(state, value) -> [("go", s) | ("stop", s, payload)].
    Returns [(state, payload|None)], None payload meaning the stream was exhausted."""
    site = site or ctx.site
    loopid = site + "~" + ctx.name.split("::")[-1]
    srcs = stream

    def run(G):
        outs = []
        for s, k, v in gen(it, G, stream, site, ctx):
            s = s.copy()
            s.steps = s.steps + (mk("step", site, stepsrc(stream), "elem"),)
            if k == "skip":
                outs.append(("back", s))
                continue
            for r in step(s, v):
                if r[0] == "go":
                    outs.append(("back", r[1]))
                else:
                    s2 = r[1].copy()
                    s2.env[("ret", loopid)] = r[2]
                    outs.append(("exit", "found", s2))
        e = G.copy()
        e.steps = e.steps + (mk("step", site, stepsrc(stream), "end"),)
        outs.append(("exit", "end", e))
        return outs
    res = []
    for o in it.loop_core(st, loopid, run):
        s = o[-1]
        if o[0] == "ret":
            raise Unsupported("return out of a consumer")
        v = s.env.pop(("ret", loopid), None)
        res.append((s, v if o[1] == "found" else None))
    return res


def stepsrc(stream):
    """the source(s) the stream draws from, with order markers"""
    if stream.tag != "st":
        return stream
    op = stream.a[0]
    if op == "src":
        return stream.a[1]
    if op in ("zip", "chain"):
        return mk("st" + op, stepsrc(stream.a[1]), stepsrc(stream.a[2]))
    if op in ("rev", "skip", "take", "take_while", "skip_while", "partialsrc"):
        return mk("st" + op, stepsrc(stream.a[1]))
    return stepsrc(stream.a[1])


def plain_src(stream):
    """source term when the stream is the whole source unchanged"""
    if stream.tag == "st" and stream.a[0] == "src":
        return stream.a[1]
    return None


def coll_kind_of_ty(it, tyi):
    if tyi is None:
        return None
    t = it.p.types[tyi]
    if t["k"] == "adt":
        n = t["p"].split("::")[-1]
        return {"Vec": VEC, "HashSet": SET, "HashMap": MAP, "BTreeSet": "BTreeSet", "BTreeMap": "BTreeMap",
                "VecDeque": VEC, "SmallVec": VEC, "String": None}.get(n)
    return None


def elem_node(it, s, kind, v, site, ctxfacts):
    d = mkfacts({l: b for l, b in s.facts.items() if ctxfacts.get(l) is not b})
    if kind in (MAP, "BTreeMap"):
        p = it.rv(s, v)
        return mk("ins", fld(p, 0, 0), fld(p, 0, 1), d, site)
    return mk("item", it.rv(s, v), d, site)


def collect_into(it, st, stream, ctx, oid, site=None):
    """append every element of the stream to object oid; [(state)]"""
    kind = st.heap[oid].a[0]
    p = plain_src(stream)
    if p is not None and p.tag not in ("unord",) and kind not in (MAP, "BTreeMap"):
        st = st.copy()
        it.push_node(st, oid, mk("copyof", p))
        return [st]
    if p is not None and p.tag == "unord" and kind in UNORDERED:
        st = st.copy()
        it.push_node(st, oid, mk("copyof", p.a[0]))
        return [st]

    def step(s, v):
        s = s.copy()
        it.push_node(s, oid, elem_node(it, s, kind, v, ctx.site, st.facts))
        return [("go", s)]
    return [s for s, _ in consume(it, st, stream, ctx, step, site)]


def collect_all(it, st, args, ctx, stream, t):
    """into a Result or Option of a collection: the first failure ends it"""
    kind = next((coll_kind_of_ty(it, a) for a in t.get("a", ()) if isinstance(a, int)), None)
    if kind is None:
        return None
    good = 1 if t["p"].endswith("Option") else 0
    st = st.copy()
    h = it.new_coll(st, ctx.site, kind)
    oid = h.a[0]

    def step(s, v):
        x = it.rv(s, v)
        out = []
        for s2, b in it.fork_bool(s, disceq(x, 1)):
            if b == (good == 1):
                s2 = s2.copy()
                it.push_node(s2, oid, elem_node(it, s2, kind, fld(x, good, 0), ctx.site, st.facts))
                out.append(("go", s2))
            else:
                out.append(("stop", s2, NONE if good else agg(t["p"], 1, fld(x, 1, 0))))
        return out
    return [(s, (agg(t["p"], good, h) if v is None else v)) for s, v in consume(it, st, stream, ctx, step)]


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def m_collect(it, st, args, ctx):
    kind = coll_kind_of_ty(it, ctx.destty)
    stream = as_stream(it, st, args[0])
    if kind is None:
        t = it.p.types[ctx.destty] if ctx.destty is not None else None
        if t is not None and t["k"] == "adt" and t["p"].endswith(("Option", "Result")):
            return collect_all(it, st, args, ctx, stream, t)
        if t is not None and t["k"] == "adt" and t["p"].endswith("String"):
            return None
        kind = VEC
    st = st.copy()
    h = it.new_coll(st, ctx.site, kind)
    return [(s, h) for s in collect_into(it, st, stream, ctx, h.a[0])]


@model("std::iter::Extend::extend", "std::vec::Vec::extend_from_slice", "std::vec::Vec::append")
def m_extend(it, st, args, ctx):
    o = obj_of(it, st, args[0])
    if o is None:
        return None
    stream = stream_arg(it, st, args, 1, ctx)
    outs = [(s, UNIT) for s in collect_into(it, st, stream, ctx, o.a[0])]
    if ctx.name.endswith("append"):
        o2 = obj_of(it, st, args[1])
        for i, (s, v) in enumerate(outs):
            s = s.copy()
            if o2 is not None:
                s.heap[o2.a[0]] = mk("coll", s.heap[o2.a[0]].a[0], ())
            outs[i] = (s, v)
    return outs


@model("std::iter::IntoIterator::into_iter", "core::slice::iter", "std::vec::Vec::iter", "core::slice::iter_mut",
       "std::collections::HashSet::iter", "std::collections::HashMap::iter", "std::iter::Iterator::by_ref",
       "std::vec::Vec::into_iter", "std::collections::VecDeque::iter", "std::option::Option::into_iter",
       "std::option::Option::iter", "std::iter::Iterator::copied", "std::iter::Iterator::cloned",
       "std::collections::BTreeSet::iter", "std::collections::BTreeMap::iter", "std::iter::Iterator::fuse")
def m_iter(it, st, args, ctx):
    if ctx.name.endswith("by_ref"):
        return None
    x = it.deref_all(st, args[0])
    if x.tag == "phi":
        pass
    if x.tag != "obj" and x.tag != "st" and args[0].tag == "ref" and ctx.name.endswith("into_iter") and x.tag == "agg" \
            and it.p.adts.get(x.a[0], {}).get("local"):
        return [(st, x)]
    if x.tag == "agg" and it.p.adts.get(x.a[0], {}).get("local"):
        return [(st, x)]
    return [(st, stream_arg(it, st, args, 0, ctx))]


@model("std::collections::HashMap::keys", "std::collections::HashMap::into_keys", "std::collections::BTreeMap::keys")
def m_keys(it, st, args, ctx):
    return [(st, st_("map", stream_arg(it, st, args, 0, ctx), mk("projfn", 0)))]


@model("std::collections::HashMap::values", "std::collections::HashMap::into_values", "std::collections::BTreeMap::values",
       "std::collections::HashMap::values_mut")
def m_values(it, st, args, ctx):
    return [(st, st_("map", stream_arg(it, st, args, 0, ctx), mk("projfn", 1)))]


def adapter(op):
    def f(it, st, args, ctx):
        s = as_stream(it, st, args[0])
        extra = []
        for i, a in enumerate(args[1:], 1):
            v = it.deref_all(st, a) if a.tag == "ref" and it.deref_all(st, a).tag in ("clo", "fn") else a
            if op in ("zip", "chain"):
                v = stream_arg(it, st, args, i, ctx)
            elif op in ("skip", "take", "step_by"):
                v = it.rv(st, a)
            extra.append(v)
        return [(st, st_(op, s, *extra))]
    return f


for _op in ("filter", "map", "filter_map", "flat_map", "flatten", "enumerate", "zip", "chain", "rev", "skip", "take",
            "take_while", "skip_while", "map_while", "peekable", "inspect"):
    MODELS["std::iter::Iterator::" + _op] = adapter(_op)
MODELS["std::iter::zip"] = adapter("zip")
MODELS["std::iter::Iterator::rev"] = adapter("rev")


@model("std::iter::DoubleEndedIterator::rev")
def m_rev(it, st, args, ctx):
    return [(st, st_("rev", as_stream(it, st, args[0])))]


@model("std::iter::once")
def m_once(it, st, args, ctx):
    return [(st, st_("src", Some(it.rv(st, args[0]))))]


@model("std::iter::empty")
def m_empty(it, st, args, ctx):
    return [(st, st_("src", NONE))]


@model("std::iter::Iterator::next")
def m_next(it, st, args, ctx):
    ref = args[0]
    cell = ref
    v = it.deref_all(st, ref)
    if v.tag == "app" and v.a[0].startswith("cinereus::tree::DiffTree::"):
        v = st_("src", v)
    if v.tag != "st":
        return None
    # find the cell that holds the stream
    while True:
        w = it.read(st, ("cell", cell.a[0], cell.a[1]))
        if w.tag == "ref":
            cell = w
        else:
            break
    generic = False
    if st.loops:
        lid, env, heap = st.loops[-1]
        b = cell.a[0]
        generic = (b[0] == "L" and (b[1], b[2]) in env) or (b[0] == "O" and b[1] in heap)
    site = ctx.site
    if generic:
        outs = []
        for s, k, x in gen(it, st, v, site, ctx):
            s = s.copy()
            s.steps = s.steps + (mk("step", site, stepsrc(v), "elem"),)
            if k == "skip":
                it.skips[-1].append(s)
            else:
                outs.append((s, Some(x)))
        e = st.copy()
        e.steps = e.steps + (mk("step", site, stepsrc(v), "end"),)
        outs.append((e, NONE))
        return outs
    # positional
    p = plain_src(v)
    if p is not None and p.tag not in ("snap", "range", "rangei", "bucket", "agg", "unord"):
        out = []
        for s, b in it.fork_bool(st, empty_lit(p)):
            s = s.copy()
            if b:
                out.append((s, NONE))
            else:
                e = note_elem(s, mk("elem", site, p))
                s.facts[mk("first", e)] = True
                it.write(s, ("cell", cell.a[0], cell.a[1]), st_("skip", v, Int(1)))
                out.append((s, Some(e)))
        return out

    def step(s, x):
        return [("stop", s, x)]
    out = []
    for s, x in consume(it, st, v, ctx, step):
        s = s.copy()
        it.write(s, ("cell", cell.a[0], cell.a[1]), st_("skip", v, mk("cnt", site)))
        out.append((s, NONE if x is None else Some(x)))
    return out


@model("std::iter::DoubleEndedIterator::next_back")
def m_next_back(it, st, args, ctx):
    """the last element of a list that nothing was taken from yet"""
    cell = args[0]
    v = it.deref_all(st, cell)
    p = plain_src(v) if v.tag == "st" else None
    if p is None or p.tag not in ("app", "param", "fld") or st.loops:
        return None
    while it.read(st, ("cell", cell.a[0], cell.a[1])).tag == "ref":
        cell = it.read(st, ("cell", cell.a[0], cell.a[1]))
    out = []
    for s, b in it.fork_bool(st, empty_lit(p)):
        if not b:
            s = s.copy()
            it.write(s, ("cell", cell.a[0], cell.a[1]), st_("src", app("butlast", p)))
        out.append((s, NONE if b else Some(mk("lastof", p))))
    return out


@model("std::iter::Iterator::find")
def m_find(it, st, args, ctx):
    stream = as_stream(it, st, args[0])

    def step(s, v):
        out = []
        s = s.copy()
        for s2, r in it.call_closure(s, args[1], args[1], [tmp_ref(it, s, ctx.site, v)], ctx):
            for s3, b in it.fork_bool(s2, r):
                out.append(("stop", s3, v) if b else ("go", s3))
        return out
    return [(s, NONE if v is None else Some(v)) for s, v in consume(it, st, stream, ctx, step)]


@model("std::iter::Iterator::find_map")
def m_find_map(it, st, args, ctx):
    stream = as_stream(it, st, args[0])

    def step(s, v):
        out = []
        for s2, r in it.call_closure(s, args[1], args[1], [v], ctx):
            for s3, p in split_opt(it, s2, r):
                out.append(("go", s3) if p is None else ("stop", s3, p))
        return out
    return [(s, NONE if v is None else Some(v)) for s, v in consume(it, st, stream, ctx, step)]


@model("std::iter::Iterator::any", "std::iter::Iterator::all")
def m_any(it, st, args, ctx):
    stream = as_stream(it, st, args[0])
    anyq = ctx.name.endswith("any")

    def step(s, v):
        out = []
        for s2, r in it.call_closure(s, args[1], args[1], [v], ctx):
            for s3, b in it.fork_bool(s2, r):
                out.append(("stop", s3, TRUE) if b == anyq else ("go", s3))
        return out
    return [(s, Bool((v is not None) == anyq)) for s, v in consume(it, st, stream, ctx, step)]


@model("std::iter::Iterator::position")
def m_position(it, st, args, ctx):
    stream = as_stream(it, st, args[0])

    def step(s, v):
        out = []
        for s2, r in it.call_closure(s, args[1], args[1], [v], ctx):
            for s3, b in it.fork_bool(s2, r):
                out.append(("stop", s3, index_term(it, s3, stream, v, ctx.site)) if b else ("go", s3))
        return out
    return [(s, NONE if v is None else Some(v)) for s, v in consume(it, st, stream, ctx, step)]


@model("std::iter::Iterator::for_each")
def m_for_each(it, st, args, ctx):
    stream = as_stream(it, st, args[0])

    def step(s, v):
        return [("go", s2) for s2, _ in it.call_closure(s, args[1], args[1], [v], ctx)]
    return [(s, UNIT) for s, _ in consume(it, st, stream, ctx, step)]


def collected(it, st, stream, ctx):
    """[(state, snapshot term of the elements)]"""
    p = plain_src(stream)
    if p is not None:
        return [(st, p.a[0] if p.tag == "unord" else p)]
    s0 = st.copy()
    h = it.new_coll(s0, ctx.site + "~c", VEC)
    out = []
    for s in collect_into(it, s0, stream, ctx, h.a[0]):
        out.append((s, it.snapshot(s, h.a[0])))
    return out


def len_term(t):
    if t.tag == "unord":
        t = t.a[0]
    if t.tag == "snap" and all(n.tag in ("item", "perm") for n in t.a[1]) and t.a[0] == VEC:
        return Int(len([n for n in t.a[1] if n.tag == "item"]))
    if t.tag == "range" and t.a[0].tag == "int" and t.a[0].a[0] == 0:
        return t.a[1]
    if t.tag == "snap" and t.a[0] == VEC and any(n.tag in ("resize", "set") for n in t.a[1]):
        return vec_len(t.a[1])
    if t.tag == "st":
        return mk("len", t)
    return mk("len", t)


def empty_lit(t):
    if t.tag == "unord":
        t = t.a[0]
    if t.tag == "snap" and t.a[0] == SET and len(t.a[1]) == 1 and t.a[1][0].tag == "copyof":
        t = t.a[1][0].a[0]
    return eq(len_term(t), Int(0))


@model("std::iter::Iterator::count", "std::iter::ExactSizeIterator::len")
def m_count(it, st, args, ctx):
    stream = as_stream(it, st, args[0])
    x = stream
    while x.tag == "st" and x.a[0] in ("map", "enumerate", "rev"):
        x = x.a[1]
    n = len(it.unordered)
    out = [(s, len_term(t)) for s, t in collected(it, st, x, ctx)]
    del it.unordered[n:]
    return out


def reducer(tag):
    def f(it, st, args, ctx):
        stream = as_stream(it, st, args[0])
        n = len(it.unordered)
        out = []
        for s, t in collected(it, st, stream, ctx):
            r = app("reduce::" + tag, t, *[it.rv(s, a) for a in args[1:]])
            out.append((s, r))
        if tag in ("max", "min", "sum"):
            del it.unordered[n:]
        return out
    return f


for _op in ("sum", "product", "last", "max_by", "min_by", "max_by_key", "min_by_key", "reduce"):
    MODELS["std::iter::Iterator::" + _op] = reducer(_op)
_nth = reducer("nth")


@model("std::iter::Iterator::nth")
def m_nth(it, st, args, ctx):
    """an element by its number: there if the list is long enough"""
    stream = as_stream(it, st, args[0])
    if stream.tag != "st" or stream.a[0] != "src" or stream.a[1].tag not in ("app", "snap", "fld", "param"):
        return _nth(it, st, args, ctx)
    t, n = stream.a[1], it.rv(st, args[1])
    if t.tag == "snap" and t.a[0] in UNORDERED:
        return _nth(it, st, args, ctx)
    return [(s, Some(mk("sel", t, n)) if b else NONE) for s, b in it.fork_bool(st, lt(n, mk("len", t)))]


@model("std::iter::Iterator::max", "std::iter::Iterator::min")
def m_extreme(it, st, args, ctx):
    """NONE for an empty stream, else an element that bounds all others"""
    stream = as_stream(it, st, args[0])
    n = len(it.unordered)
    out = []
    for s, t in collected(it, st, stream, ctx):
        lit = empty_lit(src_of(stream) if index_preserving(stream) else t)
        for s2, b in it.fork_bool(s, lit):
            out.append((s2, NONE if b else Some(app("reduce::" + ctx.name.split("::")[-1], t))))
    del it.unordered[n:]
    return out


@model("std::iter::Iterator::fold")
def m_fold(it, st, args, ctx):
    stream = as_stream(it, st, args[0])
    s0 = st.copy()
    oid = ctx.site + "#acc"
    s0.heap[oid] = mk("cell", args[1])

    def step(s, v):
        out = []
        acc = s.heap[oid].a[0]
        for s2, r in it.call_closure(s, args[2], args[2], [acc, v], ctx):
            s2 = s2.copy()
            s2.heap[oid] = mk("cell", r)
            out.append(("go", s2))
        return out
    res = []
    for s, _ in consume(it, s0, stream, ctx, step):
        v = s.heap[oid].a[0]
        if v.tag != "obj":
            s = s.copy()
            s.heap.pop(oid)
        res.append((s, v))
    return res


@model("std::iter::Iterator::try_fold", "std::iter::Iterator::try_for_each")
def m_try_fold(it, st, args, ctx):
    """a fold that ends with the first value that stops it"""
    stream = as_stream(it, st, args[0])
    fold = ctx.name.endswith("try_fold")
    t = it.p.types[ctx.destty] if ctx.destty is not None else {}
    adt = t.get("p", "")
    go = 1 if adt == OPT else 0
    if adt != OPT and not adt.endswith(("::Result", "::ControlFlow")):
        return None
    s0 = st.copy()
    oid = ctx.site + "#acc"
    s0.heap[oid] = mk("cell", args[1] if fold else UNIT)

    def split(s, r):
        x = it.rv_shallow(s, r)
        if x.tag == "phi" and x in it.phi:
            return [o for s2, v in it.expand(s, x) for o in split(s2, v)]
        if x.tag == "agg":
            return [(s, x.a[1] == go, x.a[2] if len(x.a) > 2 else UNIT)]
        return [(s2, b == (go == 1), fld(x, int(b), 0) if b or adt != OPT else UNIT) for s2, b in it.fork_bool(s, disceq(x, 1))]

    def step(s, v):
        out = []
        for s2, r in it.call_closure(s, args[-1], args[-1], [s.heap[oid].a[0], v] if fold else [v], ctx):
            for s3, on, x in split(s2, r):
                if on:
                    s3 = s3.copy()
                    s3.heap[oid] = mk("cell", x)
                    out.append(("go", s3))
                else:
                    out.append(("stop", s3, NONE if adt == OPT else agg(adt, 1, x)))
        return out
    res = []
    for s, v in consume(it, s0, stream, ctx, step):
        x = s.heap[oid].a[0]
        if x.tag != "obj":
            s = s.copy()
            s.heap.pop(oid)
        res.append((s, v if v is not None else agg(adt, go, x)))
    return res


# ---- vectors --------------------------------------------------------------
def newc(kind):
    def f(it, st, args, ctx):
        st = st.copy()
        return [(st, it.new_coll(st, ctx.site, kind))]
    return f


for _n in ("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::VecDeque::new",
           "std::collections::VecDeque::with_capacity", "smallvec::SmallVec::new"):
    MODELS[_n] = newc(VEC)
for _n in ("new", "with_capacity", "with_hasher", "with_capacity_and_hasher"):
    MODELS["std::collections::HashSet::" + _n] = newc(SET)
    MODELS["std::collections::HashMap::" + _n] = newc(MAP)
    MODELS["std::collections::BTreeSet::" + _n] = newc("BTreeSet")
    MODELS["std::collections::BTreeMap::" + _n] = newc("BTreeMap")


@model("std::default::Default::default")
def m_default(it, st, args, ctx):
    k = coll_kind_of_ty(it, ctx.destty)
    if k:
        return newc(k)(it, st, args, ctx)
    t = it.p.types[ctx.destty] if ctx.destty is not None else {"k": "?"}
    if t["k"] == "bool":
        return [(st, FALSE)]
    if t["k"] in ("int", "uint"):
        return [(st, Int(0))]
    if t["k"] == "adt" and t["p"] == OPT:
        return [(st, NONE)]
    if t["k"] == "adt" and t["p"].endswith("PhantomData"):
        return [(st, agg("PhantomData", 0))]
    if t["k"] == "tuple" and not t["a"]:
        return [(st, UNIT)]
    if t["k"] == "adt" and t["p"].endswith("RefCell"):
        return None
    return None


@model("std::option::Option::unwrap_or_default")
def m_uod(it, st, args, ctx):
    out = []
    for s, v in split_opt(it, st, args[0]):
        if v is not None:
            out.append((s, v))
        else:
            r = m_default(it, s, [], ctx)
            out += r if r is not None else [(s, app("std::default::Default::default"))]
    return out


@model("std::vec::from_elem")
def m_from_elem(it, st, args, ctx):
    st = st.copy()
    h = it.new_coll(st, ctx.site, VEC)
    it.push_node(st, h.a[0], mk("resize", it.rv(st, args[1]), it.rv(st, args[0]), mkfacts(st.facts)))
    return [(st, h)]


@model("std::boxed::Box::new_uninit")
def m_box_uninit(it, st, args, ctx):
    st = st.copy()
    oid = ctx.site + "#box"
    st.heap[oid] = mk("cell", mk("uninit", oid, 0))
    return [(st, mk("obj", oid))]


@model("std::boxed::Box::new")
def m_box_new(it, st, args, ctx):
    st = st.copy()
    oid = ctx.site + "#box"
    st.heap[oid] = mk("cell", args[0])
    return [(st, mk("obj", oid))]


@model("std::boxed::box_assume_init_into_vec_unsafe", "core::slice::into_vec", "std::slice::into_vec")
def m_boxvec(it, st, args, ctx):
    st = st.copy()
    v = it.rv_shallow(st, args[0])
    while v.tag in ("upd", "new"):
        # MaybeUninit / ManuallyDrop wrappers written through projections
        if v.tag == "upd":
            v = v.a[3]
        else:
            break
    h = it.new_coll(st, ctx.site, VEC)
    if v.tag == "agg" and v.a[0] == "array":
        for i, y in enumerate(v.a[2:]):
            it.push_node(st, h.a[0], mk("item", it.rv(st, y), mkfacts(st.facts), "%s.%d" % (ctx.site, i)))
    else:
        it.push_node(st, h.a[0], mk("ext", "vec!", (it.rv(st, v),), mkfacts(st.facts)))
    return [(st, h)]


def bucket_ref(it, st, v):
    """resolve args to a bucket reference ("B"/"M" base) if it is one"""
    while v.tag == "ref":
        if v.a[0][0] in ("B", "M") and not v.a[1]:
            return v.a[0]
        v = it.read(st, ("cell", v.a[0], v.a[1]))
    return None


@model("std::vec::Vec::push", "std::collections::VecDeque::push_back", "smallvec::SmallVec::push",
       "std::collections::VecDeque::push_front")
def m_push(it, st, args, ctx):
    b = bucket_ref(it, st, args[0])
    st = st.copy()
    if b is not None:
        it.push_node(st, b[1], mk("bitem", b[2], it.rv(st, args[1]), mkfacts(st.facts), ctx.site))
        return [(st, UNIT)]
    o = obj_of(it, st, args[0])
    if o is None:
        return None
    it.push_node(st, o.a[0], mk("item", it.rv(st, args[1]), mkfacts(st.facts), ctx.site))
    if ctx.name.endswith("push_front"):
        it.push_node(st, o.a[0], mk("perm", ctx.site))
    return [(st, UNIT)]


@model("std::vec::Vec::insert")
def m_vec_insert(it, st, args, ctx):
    o = obj_of(it, st, args[0])
    if o is None:
        return None
    st = st.copy()
    it.push_node(st, o.a[0], mk("item", it.rv(st, args[2]), mkfacts(st.facts), ctx.site))
    it.push_node(st, o.a[0], mk("perm", ctx.site))
    return [(st, UNIT)]


@model("std::vec::Vec::pop", "std::collections::VecDeque::pop_front", "std::collections::VecDeque::pop_back")
def m_pop(it, st, args, ctx):
    o = obj_of(it, st, args[0])
    if o is None:
        return None
    h = st.heap[o.a[0]]
    nodes = h.a[1]
    generic = bool(st.loops) and o.a[0] in st.loops[-1][2]
    t = it.snapshot(st, o.a[0])
    back = not ctx.name.endswith("pop_front")
    if not generic:
        if not nodes:
            return [(st, NONE)]
        if nodes[-1].tag == "item" and back:
            s = st.copy()
            s.heap[o.a[0]] = mk("coll", h.a[0], nodes[:-1])
            return [(s, Some(nodes[-1].a[0]))]
        out = []
        for s, b in it.fork_bool(st, empty_lit(t)):
            s = s.copy()
            if b:
                s.heap[o.a[0]] = mk("coll", h.a[0], ())
                out.append((s, NONE))
            else:
                e = note_elem(s, mk("elem", ctx.site, t))
                it.push_node(s, o.a[0], mk("popped", ctx.site))
                out.append((s, Some(e)))
        return out
    # worklist iteration: some element inserted earlier, or exhausted
    it.worklists.setdefault(ctx.site, set()).add(o.a[0])
    if nodes and nodes[0].tag == "base" and nodes[0].a[1] == o.a[0]:
        hd = it.work_handle(o.a[0], nodes[0].a[2], nodes[0].a[3])
    else:
        hd = it.work_handle(o.a[0], nodes, mkfacts({}))
    w = mk("work", o.a[0], "lifo" if back else "fifo", hd)
    s = st.copy()
    e = note_elem(s, mk("elem", ctx.site, w))
    s.steps = s.steps + (mk("step", ctx.site, w, "elem"),)
    e2 = st.copy()
    e2.steps = e2.steps + (mk("step", ctx.site, w, "end"),)
    e2.facts[empty_lit(t)] = True
    return [(s, Some(e)), (e2, NONE)]


@model("std::iter::successors", "core::iter::successors")
def m_successors(it, st, args, ctx):
    first = it.rv(st, args[0])
    e = mk("param", "successor@" + ctx.site)
    s = st.copy()
    outs = it.call_closure(s, args[1], args[1], [tmp_ref(it, s, ctx.site, e)], ctx)
    if len(outs) != 1:
        return None
    v = it.rv(*outs[0])
    if v.tag == "app" and v.a[0] == PARENT and v.a[2] is e:
        out = []
        for s, b in it.fork_bool(st, disceq(first, 1)):
            if b:
                out.append((s, st_("src", app("ancestors", v.a[1], fld(first, 1, 0)))))
            else:
                out.append((s, st_("src", snap(VEC, ()))))
        return out
    return None


@model("std::vec::Vec::len", "core::slice::len", "std::collections::HashSet::len", "std::collections::HashMap::len",
       "std::collections::VecDeque::len", "std::collections::BTreeSet::len", "std::collections::BTreeMap::len")
def m_len(it, st, args, ctx):
    t = it.rv(st, args[0])
    if t.tag == "snap" and t.a[0] == SET and len(t.a[1]) == 1 and t.a[1][0].tag == "copyof":
        t = t.a[1][0].a[0]
    return [(st, len_term(t))]


@model("std::vec::Vec::is_empty", "core::slice::is_empty", "std::collections::HashSet::is_empty",
       "std::collections::HashMap::is_empty", "std::collections::VecDeque::is_empty",
       "std::collections::BTreeSet::is_empty", "std::collections::BTreeMap::is_empty")
def m_is_empty(it, st, args, ctx):
    return [(st, empty_lit(it.rv(st, args[0])))]


@model("std::vec::Vec::clear", "std::collections::HashSet::clear", "std::collections::HashMap::clear")
def m_clear(it, st, args, ctx):
    o = obj_of(it, st, args[0])
    if o is None:
        return None
    st = st.copy()
    st.heap[o.a[0]] = mk("coll", st.heap[o.a[0]].a[0], ())
    return [(st, UNIT)]


@model("std::vec::Vec::resize")
def m_resize(it, st, args, ctx):
    o = obj_of(it, st, args[0])
    if o is None:
        return None
    st = st.copy()
    it.push_node(st, o.a[0], mk("resize", it.rv(st, args[1]), it.rv(st, args[2]), mkfacts(st.facts)))
    return [(st, UNIT)]


@model("std::vec::Vec::reserve", "std::vec::Vec::shrink_to_fit", "std::collections::HashMap::reserve",
       "std::collections::HashSet::reserve")
def m_noop(it, st, args, ctx):
    return [(st, UNIT)]


@model("std::vec::Vec::retain", "std::collections::HashSet::retain")
def m_retain(it, st, args, ctx):
    o = obj_of(it, st, args[0])
    if o is None:
        return None
    kind = st.heap[o.a[0]].a[0]
    stream = st_("filter", st_("src", it.snapshot(st, o.a[0])), args[1])
    st = st.copy()
    h = it.new_coll(st, ctx.site + "~r", kind)
    out = []
    for s in collect_into(it, st, stream, ctx, h.a[0]):
        s = s.copy()
        s.heap[o.a[0]] = s.heap.pop(h.a[0])
        out.append((s, UNIT))
    return out


@model("core::slice::sort_by", "core::slice::sort", "core::slice::sort_by_key", "core::slice::sort_unstable",
       "core::slice::sort_unstable_by", "core::slice::sort_unstable_by_key", "core::slice::reverse", "core::slice::swap",
       "std::slice::sort_by", "std::slice::sort", "std::slice::sort_by_key", "core::slice::sort_by_cached_key",
       "std::slice::sort_by_cached_key")
def m_perm(it, st, args, ctx):
    o = obj_of(it, st, args[0])
    if o is None:
        return None
    h = st.heap[o.a[0]]
    if len(h.a[1]) == 0 or (len(h.a[1]) == 1 and h.a[1][0].tag == "item"):
        return [(st, UNIT)]
    st = st.copy()
    it.push_node(st, o.a[0], mk("perm", ctx.site))
    return [(st, UNIT)]


@model("core::slice::first", "std::collections::VecDeque::front")
def m_first(it, st, args, ctx):
    t = it.rv(st, args[0])
    if t.tag == "snap" and t.a[1] and all(n.tag == "item" for n in t.a[1]):
        return [(st, Some(t.a[1][0].a[0]))]
    if t.tag == "snap" and not t.a[1]:
        return [(st, NONE)]

    def step(s, x):
        return [("stop", s, x)]
    return [(s, NONE if v is None else Some(v)) for s, v in consume(it, st, st_("src", t), ctx, step)]


@model("core::slice::split_first", "core::slice::split_last")
def m_split_end(it, st, args, ctx):
    """the first or last element, and the rest"""
    t = it.rv(st, args[0])
    if t.tag == "snap" and t.a[0] in UNORDERED:
        return None
    n = len_term(t)
    last = it.binop(st, "Sub", n, Int(1))
    if ctx.name.endswith("last"):
        i, rest = last, agg("std::ops::RangeTo", 0, last)
    else:
        i, rest = Int(0), agg("std::ops::RangeFrom", 0, Int(1))
    out = []
    for s, b in it.fork_bool(st, empty_lit(t)):
        if b:
            out.append((s, NONE))
        else:
            for s2, e in m_index(it, s, [args[0], i], ctx):
                out.append((s2, Some(agg("tuple", 0, e, app("std::ops::Index::index@core::slice::index::index", t, rest)))))
    return out


@model("core::slice::last", "std::collections::VecDeque::back")
def m_last(it, st, args, ctx):
    t = it.rv(st, args[0])
    out = []
    for s, b in it.fork_bool(st, empty_lit(t)):
        out.append((s, NONE if b else Some(mk("lastof", t))))
    return out


@model("core::slice::get", "core::slice::get_mut", "std::collections::VecDeque::get")
def m_get(it, st, args, ctx):
    idx = it.rv(st, args[1])
    o = obj_of(it, st, args[0])
    base = args[0]
    t = it.rv(st, args[0])
    out = []
    if idx.tag == "agg" and "ops::Range" in idx.a[0]:                         # a part, if it lies within
        part = app("std::ops::Index::index@core::slice::index::index", t, idx)
        short = lt(len_term(t), idx.a[2]) if idx.a[0].endswith(("RangeTo", "RangeFrom")) else app("outside", t, idx)
        return [(s, NONE if b else Some(part)) for s, b in it.fork_bool(st, short)]
    for s, b in it.fork_bool(st, lt(idx, len_term(t))):
        if not b:
            out.append((s, NONE))
        elif o is not None:
            for s in it.vec_fork(s, o.a[0], idx):
                out.append((s, Some(mk("ref", ("E", o.a[0], idx), ()))))
        else:
            v = it.deref_all(s, args[0])
            if args[0].tag == "ref":
                # keep the cell identity: params such as self.a_to_b
                c = args[0]
                while True:
                    w = it.read(s, ("cell", c.a[0], c.a[1]))
                    if w.tag != "ref":
                        break
                    c = w
                out.append((s, Some(mk("ref", c.a[0], c.a[1] + (("x", idx),)))))
            else:
                out.append((s, Some(mk("sel", t, idx))))
    return out


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(it, st, args, ctx):
    idx = it.rv(st, args[1])
    b = bucket_ref(it, st, args[0])
    t = it.rv(st, args[0])
    k = kind_of(it, st, args[0])
    if k in (MAP, "BTreeMap"):
        o = obj_of(it, st, args[0])
        it.note_panic(ctx.body, ctx.frame, ctx.span, "index", mk("haskey", t, idx), True, st)
        s = it.assume(st, mk("haskey", t, idx), True)
        return [] if s is None else [(s, mk("ref", ("M", o.a[0], idx), ()))]
    it.note_panic(ctx.body, ctx.frame, ctx.span, "index:str" if re.search(r"\bstr\b|::String as", str(ctx.callee)) else "index", lt(idx, len_term(t)), True, st)
    o = obj_of(it, st, args[0])
    if idx.tag == "agg":
        return None
    s = it.assume(st, lt(idx, len_term(t)), True)
    if s is None:
        return []
    if o is not None:
        return [(s2, mk("ref", ("E", o.a[0], idx), ())) for s2 in it.vec_fork(s, o.a[0], idx)]
    if args[0].tag == "ref":
        c = args[0]
        while True:
            w = it.read(s, ("cell", c.a[0], c.a[1]))
            if w.tag != "ref":
                break
            c = w
        return [(s, mk("ref", c.a[0], c.a[1] + (("x", idx),)))]
    return [(s, mk("sel", t, idx))]


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
       "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "std::borrow::ToOwned::to_owned", "core::slice::to_vec",
       "std::slice::to_vec")
def m_deref(it, st, args, ctx):
    if ctx.name.endswith(("to_vec", "to_owned")):
        return m_clone(it, st, args, ctx)
    v = args[0]
    if v.tag == "ref":
        w = it.read(st, ("cell", v.a[0], v.a[1]))
        if w.tag == "ref":
            return [(st, w)]
        if w.tag == "obj":
            h = st.heap.get(w.a[0])
            if h is not None and h.tag == "cell":
                return [(st, mk("ref", ("O", w.a[0]), ()))]
            return [(st, w)]
    return [(st, v)]


@model("std::clone::Clone::clone")
def m_clone(it, st, args, ctx):
    v = it.deref_all(st, args[0])
    if v.tag == "st":
        return [(st, v)]
    if v.tag == "obj":
        h = st.heap[v.a[0]]
        if h.tag == "coll":
            st = st.copy()
            x = it.new_coll(st, ctx.site, h.a[0], h.a[1])
            return [(st, x)]
    x = it.rv(st, v)
    k = coll_kind_of_ty(it, ctx.destty)
    if x.tag in ("snap", "bucket"):
        st = st.copy()
        kind = x.a[0] if x.tag == "snap" else VEC
        return [(st, it.new_coll(st, ctx.site, kind, x.a[1] if x.tag == "snap" else (mk("copyof", x),)))]
    if k and x.tag not in ("agg",):
        st = st.copy()
        return [(st, it.new_coll(st, ctx.site, k, (mk("copyof", x),)))]
    return [(st, x)]


@model("std::mem::take", "std::mem::replace")
def m_take(it, st, args, ctx):
    v = it.deref_all(st, args[0])
    st = st.copy()
    if v.tag == "obj" and st.heap[v.a[0]].tag == "coll":
        h = st.heap[v.a[0]]
        n = it.new_coll(st, ctx.site, h.a[0], h.a[1])
        if ctx.name.endswith("take"):
            st.heap[v.a[0]] = mk("coll", h.a[0], ())
        else:
            w = obj_of(it, st, args[1])
            if w is None:
                return None
            st.heap[v.a[0]] = st.heap[w.a[0]]
        return [(st, n)]
    if args[0].tag != "ref":
        return None
    if ctx.name.endswith("take"):
        r = m_default(it, st, [], ctx)
        if r is None:
            return None
        st, nv = r[0]
    else:
        nv = args[1]
    it.write(st, ("cell", args[0].a[0], args[0].a[1]), nv)
    return [(st, v)]


@model("std::option::Option::take")
def m_opt_take(it, st, args, ctx):
    if args[0].tag != "ref":
        return None
    v = it.read(st, ("cell", args[0].a[0], args[0].a[1]))
    st = st.copy()
    it.write(st, ("cell", args[0].a[0], args[0].a[1]), NONE)
    return [(st, v)]


@model("std::mem::drop", "core::mem::drop", "std::mem::forget")
def m_drop(it, st, args, ctx):
    return [(st, UNIT)]


@model("std::convert::From::from", "std::convert::Into::into")
def m_from(it, st, args, ctx):
    x = it.rv(st, args[0])
    r = ctx.callee.get("r")
    nm = it.p.nname(r["p"]) if r else ctx.name
    t = it.p.types[ctx.callee["a"][0]] if ctx.callee["a"] else {"s": "?"}
    if r is None and ctx.argtys and ctx.argtys[0] is not None and ctx.argtys[0] == ctx.destty:
        return [(st, x)]
    if nm == "indextree::id::from":
        return [(st, app("idx_of_node", x))]
    return None


# ---- comparison -----------------------------------------------------------
def cmp_model(op):
    def f(it, st, args, ctx):
        a, b = it.rv(st, args[0]), it.rv(st, args[1])
        t = {"lt": lambda: lt(a, b), "gt": lambda: lt(b, a), "le": lambda: neg(lt(b, a)), "ge": lambda: neg(lt(a, b))}[op]()
        return [(st, t)]
    return f


for _op in ("lt", "gt", "le", "ge"):
    MODELS["std::cmp::PartialOrd::" + _op] = cmp_model(_op)


@model("std::cmp::Ord::max", "std::cmp::Ord::min", "std::cmp::max", "std::cmp::min")
def m_max(it, st, args, ctx):
    a, b = it.rv(st, args[0]), it.rv(st, args[1])
    big = ctx.name.endswith("max")
    out = []
    for s, r in it.fork_bool(st, lt(a, b)):
        out.append((s, b if r == big else a))
    return out


@model("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def m_cmp(it, st, args, ctx):
    a, b = it.rv(st, args[0]), it.rv(st, args[1])
    o = "std::cmp::Ordering"
    out = []
    for s, r in it.fork_bool(st, lt(a, b)):
        if r:
            out.append((s, agg(o, 0)))
            continue
        for s2, e in it.fork_eq(s, a, b):
            out.append((s2, agg(o, 1 if e else 2)))
    if ctx.name.endswith("partial_cmp"):
        out = [(s, Some(v)) for s, v in out]
    return out


@model("core::bool::then_some", "std::bool::then_some")
def m_then_some(it, st, args, ctx):
    return [(s, Some(args[1]) if b else NONE) for s, b in it.fork_bool(st, args[0])]


@model("core::bool::then", "std::bool::then")
def m_then(it, st, args, ctx):
    out = []
    for s, b in it.fork_bool(st, args[0]):
        if not b:
            out.append((s, NONE))
        else:
            out += [(s2, Some(v)) for s2, v in it.call_closure(s, args[1], args[1], [], ctx)]
    return out


# ---- sets and maps --------------------------------------------------------
def member(t, x):
    if t.tag == "unord":
        t = t.a[0]
    return mk("member", t, x)


@model("std::collections::HashSet::contains", "core::slice::contains", "std::collections::BTreeSet::contains",
       "std::collections::VecDeque::contains")
def m_contains(it, st, args, ctx):
    t = it.rv(st, args[0])
    x = it.rv(st, args[1])
    return [(st, set_member(it, st, t, x))]


def set_member(it, st, t, x):
    if t.tag == "snap":
        for n in reversed(t.a[1]):
            if n.tag == "item" and n.a[0] is x:
                return TRUE
        if not t.a[1]:
            return FALSE
        if len(t.a[1]) == 1 and t.a[1][0].tag == "copyof":
            t = t.a[1][0].a[0]
    return member(t, x)


@model("std::collections::HashSet::insert", "std::collections::BTreeSet::insert")
def m_set_insert(it, st, args, ctx):
    o = obj_of(it, st, args[0])
    if o is None:
        return None
    x = it.rv(st, args[1])
    t = it.snapshot(st, o.a[0])
    used = True
    r = neg(set_member(it, st, t, x))
    s = st.copy()
    it.push_node(s, o.a[0], mk("item", x, mkfacts(s.facts), ctx.site))
    return [(s, r)]


@model("std::ops::RangeInclusive::new")
def m_range_inclusive(it, st, args, ctx):
    return [(st, agg("std::ops::RangeInclusive", 0, it.rv(st, args[0]), it.rv(st, args[1])))]


@model("std::ops::Range::contains", "std::ops::RangeInclusive::contains", "std::ops::range::Range::contains", "core::ops::range::RangeInclusive::contains")
def m_range_contains(it, st, args, ctx):
    r, x = it.rv(st, args[0]), it.rv(st, args[1])
    if r.tag != "agg" or not r.a[0].endswith(("ops::Range", "ops::RangeInclusive")):
        return None
    out = []
    for s, b in it.fork_bool(st, lt(x, r.a[2])):
        out.append((s, FALSE if b else lt(x, r.a[3]) if r.a[0].endswith("ops::Range") else neg(lt(r.a[3], x))))
    return out


@model("std::collections::HashMap::contains_key", "std::collections::BTreeMap::contains_key")
def m_contains_key(it, st, args, ctx):
    t = it.rv(st, args[0])
    return [(st, haskey(it, t, it.rv(st, args[1])))]


def haskey(it, t, k):
    if t.tag == "snap":
        for n in reversed(t.a[1]):
            if n.tag in ("ins", "bitem", "kvset") and n.a[0] is k:
                return TRUE
        if not t.a[1]:
            return FALSE
    return mk("haskey", t, k)


@model("std::collections::HashMap::insert", "std::collections::BTreeMap::insert")
def m_map_insert(it, st, args, ctx):
    o = obj_of(it, st, args[0])
    if o is None:
        return None
    k = it.rv(st, args[1])
    t = it.snapshot(st, o.a[0])
    s = st.copy()
    it.push_node(s, o.a[0], mk("ins", k, it.rv(s, args[2]), mkfacts(s.facts), ctx.site))
    return [(s, mk("oldval", t, k))]


@model("std::collections::HashMap::get", "std::collections::HashMap::get_mut", "std::collections::BTreeMap::get")
def m_map_get(it, st, args, ctx):
    t = it.rv(st, args[0])
    k = it.rv(st, args[1])
    o = obj_of(it, st, args[0])
    out = []
    for s, b in it.fork_bool(st, haskey(it, t, k)):
        if not b:
            out.append((s, NONE))
        elif o is not None:
            out.append((s, Some(mk("ref", ("M", o.a[0], k), ()))))
        else:
            out.append((s, Some(mk("mapget", t, k))))
    return out


@model("std::collections::HashMap::entry", "std::collections::BTreeMap::entry")
def m_entry(it, st, args, ctx):
    o = obj_of(it, st, args[0])
    if o is None:
        return None
    return [(st, mk("entry", o, it.rv(st, args[1])))]


@model("std::collections::hash_map::Entry::or_default", "std::collections::hash_map::Entry::or_insert_with",
       "std::collections::hash_map::Entry::or_insert", "std::collections::btree_map::Entry::or_default")
def m_or_default(it, st, args, ctx):
    e = args[0]
    if e.tag != "entry":
        return None
    o, k = e.a
    t = ctx.destty
    tt = it.p.types[t] if t is not None else {"k": "?"}
    if tt["k"] == "ref" and coll_kind_of_ty(it, tt["t"]) == VEC:
        if ctx.name.endswith("or_insert_with"):
            outs = it.call_closure(st, args[1], args[1], [], ctx)
            if not all(kind_of(it, s, v) == VEC and not s.heap[obj_of(it, s, v).a[0]].a[1] for s, v in outs):
                return None
        elif ctx.name.endswith("or_insert"):
            oo = obj_of(it, st, args[1])
            if oo is None or st.heap[oo.a[0]].a[1]:
                return None
        return [(st, mk("ref", ("B", o.a[0], k), ()))]
    snapt = it.snapshot(st, o.a[0])
    out = []
    for s, b in it.fork_bool(st, haskey(it, snapt, k)):
        if b:
            out.append((s, mk("ref", ("M", o.a[0], k), ())))
            continue
        if ctx.name.endswith("or_insert"):
            vs = [(s, args[1])]
        elif ctx.name.endswith("or_insert_with"):
            vs = it.call_closure(s, args[1], args[1], [], ctx)
        else:
            return None
        for s2, v in vs:
            s2 = s2.copy()
            it.push_node(s2, o.a[0], mk("ins", k, it.rv(s2, v), mkfacts(s2.facts), ctx.site))
            out.append((s2, mk("ref", ("M", o.a[0], k), ())))
    return out


KAPPA = mk("kappa")


def map_value(it, st, oid, key):
    """value stored under key, when every insertion stores the same function of its key"""
    h = st.heap[oid]
    recs = []
    seen = set()

    def walk(nodes):
        for n in nodes:
            if n.tag == "ins" or n.tag == "kvset":
                recs.append((n.a[0], n.a[1]))
            elif n.tag == "loop":
                for p in n.a[2]:
                    walk(p.a[2])
                for p in n.a[4]:
                    walk(p.a[2])
            elif n.tag == "once":
                for p in n.a[0]:
                    walk(p.a[2])
            elif n.tag == "base":
                if n in seen:
                    continue
                seen.add(n)
                walk(n.a[2])
                for extra in it.base_nodes.get((n.a[0], n.a[1]), ()):
                    walk(extra)
            else:
                recs.append(None)
    for n in reversed(h.a[1]):
        if n.tag in ("ins", "kvset") and n.a[0] is key:
            return n.a[1]
        if n.tag != "ins":
            break
    walk(h.a[1])
    if any(r is None for r in recs):
        return mk("mapget", it.snapshot(st, oid), key)
    fs = set()
    for k, v in recs:
        f = subst(v, {k.id: KAPPA})
        fs.add(f)
    if len(fs) == 1:
        f = fs.pop()
        if any(x is KAPPA for x in subterms(f)) and not any(x.tag in ("elem", "phi", "base") for x in subterms(f)):
            return subst(f, {KAPPA.id: key})
    return mk("mapget", it.snapshot(st, oid), key)


# ---- cells ----------------------------------------------------------------
@model("std::cell::RefCell::new", "std::cell::Cell::new", "std::rc::Rc::new", "std::sync::Arc::new")
def m_refcell_new(it, st, args, ctx):
    st = st.copy()
    oid = ctx.site + "#cell"
    st.heap[oid] = mk("cell", args[0])
    return [(st, mk("obj", oid))]


@model("std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut", "std::cell::RefCell::get_mut")
def m_borrow(it, st, args, ctx):
    v = it.deref_all(st, args[0])
    if v.tag == "obj":
        return [(st, mk("ref", ("O", v.a[0]), ()))]
    if args[0].tag == "ref":
        return [(st, args[0])]
    return [(st, v)]


@model("std::cell::RefCell::replace", "std::cell::RefCell::take", "std::cell::Cell::replace", "std::cell::Cell::take")
def m_cell_replace(it, st, args, ctx):
    v = it.deref_all(st, args[0])
    if v.tag != "obj" or st.heap[v.a[0]].tag != "cell":
        return None
    old = st.heap[v.a[0]].a[0]
    new = args[1] if len(args) > 1 else NONE if old.tag == "agg" and old.a[0] == OPT else None
    if new is None:
        return None
    st = st.copy()
    st.heap[v.a[0]] = mk("cell", it.rv(st, new))
    return [(st, old)]


@model("std::cell::Ref::map", "std::cell::RefMut::map")
def m_ref_map(it, st, args, ctx):
    return it.call_closure(st, args[1], args[1], [args[0]], ctx)


@model("std::cell::RefCell::into_inner", "std::cell::Cell::into_inner")
def m_into_inner(it, st, args, ctx):
    v = it.deref_all(st, args[0])
    if v.tag == "obj" and st.heap[v.a[0]].tag == "cell":
        return [(st, st.heap[v.a[0]].a[0])]
    return [(st, v)]


@model("std::cell::Cell::get")
def m_cell_get(it, st, args, ctx):
    v = args[0]
    if v.tag == "ref":
        w = it.read(st, ("cell", v.a[0], v.a[1]))
        if w.tag == "obj":
            return [(st, st.heap[w.a[0]].a[0])]
        return [(st, w)]
    if v.tag == "obj":
        return [(st, st.heap[v.a[0]].a[0])]
    return [(st, v)]


@model("std::cell::Cell::set")
def m_cell_set(it, st, args, ctx):
    v = args[0]
    st = st.copy()
    if v.tag == "ref":
        w = it.read(st, ("cell", v.a[0], v.a[1]))
        if w.tag == "obj":
            st.heap[w.a[0]] = mk("cell", args[1])
        else:
            it.write(st, ("cell", v.a[0], v.a[1]), it.rv(st, args[1]))
        return [(st, UNIT)]
    if v.tag == "obj":
        st.heap[v.a[0]] = mk("cell", args[1])
        return [(st, UNIT)]
    return None


@model("std::thread::LocalKey::with")
def m_tls_with(it, st, args, ctx):
    k = it.rv(st, args[0])
    name = show(k)
    it.ambient.setdefault(name, set()).add((ctx.body["p"], ctx.span))
    return it.call_closure(st, args[1], args[1], [mk("ref", ("A", name), ())], ctx)


# ---- formatting: no effect on results --------------------------------------
@model("std::fmt::Arguments::new", "core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug",
       "std::fmt::Arguments::from_str", "core::fmt::rt::Argument::new_lower_hex", "std::fmt::format", "alloc::fmt::format")
def m_fmt(it, st, args, ctx):
    return [(st, app("fmt", *[it.rv(st, a) for a in args]))]


# ---- tracing: both answers of the level tests are analysed (Interp.tracing) ----
@model("tracing::__macro_support::__is_enabled")
def m_trace_on(it, st, args, ctx):
    return [(st, Bool(it.tracing))]


@model("tracing::subscriber::Interest::is_never")
def m_trace_never(it, st, args, ctx):
    return [(st, Bool(not it.tracing))]


@model("tracing::level_filters::LevelFilter::current", "tracing::callsite::DefaultCallsite::interest", "tracing::Metadata::fields",
       "tracing::callsite::Callsite::metadata", "tracing::field::display", "tracing::field::debug",
       "tracing::field::FieldSet::value_set_all", "tracing::field::FieldSet::value_set", "tracing::Event::dispatch")
def m_trace(it, st, args, ctx):
    return [(st, app("fmt", mk("str", ctx.name)))]


TRACE_API = {"<tracing::Level as std::cmp::PartialOrd>::le": m_trace_on}
