"""The public entry points and the library's value types."""
from term import *
from engine import *
from logic import *
from roots import Root, P
from chk_script import find_public, field_index
from chk_tree import methods, same, at, ND, NH, TR
from report import *

CR = "cinereus::"
CM, GS = CR + "matching::compute_matching", CR + "chawathe::generate_edit_script"


def recorded(name):
    def f(it, st, args, ctx):
        return [(st, app(name, *[it.rv(st, a) for a in args]))]
    return f


def t_compose(rep, prog):
    """diff_trees(_with_matching): match once, then script, with the same trees in the same roles"""
    cm, gs = find_public(prog, "compute_matching"), find_public(prog, "generate_edit_script")
    ic = {cm["norm"]: recorded("compute_matching"), gs["norm"]: recorded("generate_edit_script")}
    A, B, C = P("ta"), P("tb"), P("cfg")
    m = app("compute_matching", A, B, C)
    s = app("generate_edit_script", A, B, m)
    for name, want in (("diff_trees", s), ("diff_trees_with_matching", tup(s, m))):
        b = find_public(prog, name)
        r = Root(prog, b, [A, B, C], extra=ic)
        rep.use(r)
        n = 0
        for st, v in r.outs:
            if inconsistent(st.facts):
                continue
            n += 1
            v = r.it.rv(st, v)
            rep.check(same(st.facts, v, want), "%s is the edit script of the matching of the same two trees under the given configuration" % name,
                      at(b), show(v, 6))
        rep.check(n > 0, "%s returns" % name, at(b))


# ---- values ---------------------------------------------------------------
def local_adts(prog):
    return {k: v for k, v in prog.adts.items() if k.startswith(CR) and v.get("local")}


def uninteresting(prog, adt, vi, fi):
    """a PhantomData field carries nothing"""
    ty = prog.types[prog.adts[adt]["v"][vi]["ft"][fi]]
    return ty.get("p", "").endswith("PhantomData")


def nfields(prog, adt, vi):
    return len(prog.adts[adt]["v"][vi]["f"])


def variant_of(f, x, n):
    if n == 1:
        return 0
    for i in range(n):
        if entails(f, disceq(x, i, n), True):
            return i
    return None


def run(rep, prog, b, args):
    r = Root(prog, b, args, matching=False, treeapi=False)
    rep.use(r)
    return r, [(s, r.it.rv(s, v)) for s, v in r.outs if not inconsistent(s.facts)]


def t_values(rep, prog):
    A = local_adts(prog)
    X, Y = P("x"), P("y")
    for adt in sorted(A):
        nv = len(A[adt]["v"])
        for b in methods(prog, adt, "eq", "PartialEq"):
            r, os_ = run(rep, prog, b, [X, Y])
            rule = "equality of %s compares every part" % short(adt)
            rep.check(bool(os_), rule, at(b))
            for s0, v0 in os_:
                for s, v in r.it.fork_bool(s0, v0):
                    f = s.facts
                    if inconsistent(f):
                        continue
                    ok = equal_parts(prog, f, X, Y, adt) if v else unequal_parts(prog, f, X, Y, adt)
                    rep.check(ok, rule, at(b), ("equal" if v else "different") + " when " + fshow(f, 8))
        for b in methods(prog, adt, "clone", "Clone"):
            r, os_ = run(rep, prog, b, [X])
            rule = "cloning a %s gives an equal value" % short(adt)
            rep.check(bool(os_), rule, at(b))
            for s, v in os_:
                rep.check(clone_of(prog, s.facts, v, X, adt), rule, at(b), show(v, 6))
    t_node_data(rep, prog)
    t_defaults(rep, prog)


def adt_of(prog, adt, vi, fi):
    ty = prog.types[prog.adts[adt]["v"][vi]["ft"][fi]]
    return ty.get("p") if ty.get("k") == "adt" and ty.get("p") in prog.adts and prog.adts[ty["p"]].get("local") else None


def equal_parts(prog, f, x, y, adt):
    """the facts force x and y to be equal in every part"""
    if entails(f, eq(x, y), True):
        return True
    if adt is None:
        return False
    nv = len(prog.adts[adt]["v"])
    i, j = variant_of(f, x, nv), variant_of(f, y, nv)
    if i is None or i != j:
        return False
    return all(uninteresting(prog, adt, i, n) or equal_parts(prog, f, fld(x, i, n), fld(y, i, n), adt_of(prog, adt, i, n))
               for n in range(nfields(prog, adt, i)))


def unequal_parts(prog, f, x, y, adt):
    """the facts force x and y to differ in some part"""
    if entails(f, eq(x, y), False):
        return True
    if adt is None:
        return False
    nv = len(prog.adts[adt]["v"])
    if nv > 1 and any(entails(f, disceq(p, i, nv), True) and entails(f, disceq(q, i, nv), False) for i in range(nv) for p, q in ((x, y), (y, x))):
        return True
    i = variant_of(f, x, nv)
    if i is None or variant_of(f, y, nv) not in (None, i):
        return False
    fs = [n for n in range(nfields(prog, adt, i)) if not uninteresting(prog, adt, i, n)]
    return any(unequal_parts(prog, f, fld(x, i, n), fld(y, i, n), adt_of(prog, adt, i, n)) for n in fs) or \
        bool(fs) and entails_or(f, [(eq(fld(x, i, n), fld(y, i, n)), False) for n in fs])


def clone_of(prog, f, v, x, adt):
    if same(f, v, x):
        return True
    if adt is None:
        if v is NONE:
            return entails(f, disceq(x, 1), False)
        return v.tag == "agg" and v.a[0] == OPT and v.a[1] == 1 and entails(f, disceq(x, 1), True) and same(f, v.a[2], fld(x, 1, 0))
    if v.tag != "agg":
        return len(prog.adts[adt]["v"]) == 1 and nfields(prog, adt, 0) == 0
    k = v.a[1]
    nv = len(prog.adts[adt]["v"])
    if nv > 1 and variant_of(f, x, nv) != k:
        return False
    return all(uninteresting(prog, adt, k, n) or clone_of(prog, f, y, fld(x, k, n), adt_of(prog, adt, k, n)) for n, y in enumerate(v.a[2:]))


def t_node_data(rep, prog):
    h, k, p, t = P("hash"), P("kind"), P("props"), P("text")

    def want(b, args, **fields):
        r, os_ = run(rep, prog, b, args)
        rep.check(bool(os_), "NodeData::%s returns" % b["n"], at(b))
        for s, v in os_:
            for name, w in fields.items():
                x = fld(v, *field_index(prog, ND, "NodeData", name))
                ok = w(x) if callable(w) else same(s.facts, x, w)
                rep.check(ok, "NodeData::%s stores the %s it is given (or the documented default)" % (b["n"], name), at(b), show(x, 5))

    def default_props(x):
        return x.tag == "app" and "Default" in str(x.a[0]) and len(x.a) == 1

    def no_props(x):
        return x.tag == "agg" and x.a[0].endswith("::NoProps")
    forms = {"new": ([h, k, p, t], dict(hash=h, kind=k, properties=p, text=t)),
             "element": ([h, k, p], dict(hash=h, kind=k, properties=p, text=NONE)),
             "text_node": ([h, k, t], dict(hash=h, kind=k, properties=default_props, text=Some(t))),
             "simple": ([h, k], dict(hash=h, kind=k, properties=no_props, text=NONE)),
             "simple_u64": ([h, k], dict(hash=agg(NH, 0, h), kind=k, properties=no_props, text=NONE))}
    for name, (args, fields) in forms.items():
        bs = methods(prog, ND, name)
        rep.check(len(bs) == 1, "NodeData::%s exists" % name, "cinereus::tree")
        for b in bs:
            want(b, args, **fields)
    for b in methods(prog, NH, "from", "From"):
        for s, v in run(rep, prog, b, [h])[1]:
            rep.check(same(s.facts, v, agg(NH, 0, h)), "a NodeHash made from a number holds that number", at(b), show(v, 5))
    for b in prog.bodies.values():
        if b["local"] and b["kind"] == "fn" and b["n"] == "from" and b["p"].startswith(CR + "tree::<impl std::convert::From<") and "NodeHash" in b["p"]:
            for s, v in run(rep, prog, b, [h])[1]:
                rep.check(same(s.facts, v, fld(h, 0, 0)), "a number made from a NodeHash is the one it holds", at(b), show(v, 5))


def t_defaults(rep, prog):
    np = CR + "tree::NoProps"
    X, Y = P("x"), P("y")

    def each(name, args, ok, rule):
        bs = methods(prog, np, name, "Properties")
        rep.check(len(bs) == 1, "NoProps implements Properties::" + name, "cinereus::tree")
        for b in bs:
            for s, v in run(rep, prog, b, args)[1]:
                rep.check(ok(v), rule, at(b), show(v, 5))
    each("similarity", [X, Y], lambda v: v.tag == "flt" and float(v.a[0]) == 1.0, "nodes without properties have similarity 1")
    each("diff", [X, Y], lambda v: v.tag == "snap" and not v.a[1], "nodes without properties have no property changes")
    each("is_empty", [X], lambda v: v is TRUE, "nodes without properties have none")
    each("len", [X], lambda v: v is Int(0), "nodes without properties have none")
    mc = CR + "matching::MatchingConfig"
    for b in methods(prog, mc, "default", "Default"):
        for s, v in run(rep, prog, b, [])[1]:
            th = fld(v, *field_index(prog, mc, "MatchingConfig", "similarity_threshold"))
            mh = fld(v, *field_index(prog, mc, "MatchingConfig", "min_height"))
            rep.check(th.tag == "flt" and float(th.a[0]) == 0.5, "the default similarity threshold is 0.5", at(b), show(th, 4))
            rep.check(mh is Int(1), "the default minimum height is 1", at(b), show(mh, 4))
