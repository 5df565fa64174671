"""Walking insertion trees and normalising the facts that guard them."""
from term import *
from engine import eq, neg, disceq, lt
from logic import *

FULL_ITERS = ("iter", "post_order")


def all_nodes_src(src, t):
    """does the source enumerate every node of tree t exactly once?"""
    return src.tag == "app" and len(src.a) >= 2 and src.a[1] is t and (
        src.a[0] in (D + "iter", D + "post_order") or (is_dt(src, "descendants") and is_dt(src.a[2], "root") and src.a[2].a[1] is t))


class Rec:
    """one insertion: value, all facts at the insertion, site, version of the container, loops around it"""
    __slots__ = ("node", "val", "facts", "site", "ver", "chain", "order")


def pathfacts(ctx, p):
    d = dict(ctx)
    for l, b in p.a[1].a[0]:
        d[l] = b
    return d


def walk(nodes, ctx=None, chain=(), top=None):
    """yield Rec for every item-like node in an insertion tree, in order"""
    ctx = ctx or {}
    for i, n in enumerate(nodes):
        pos = chain_pos = (top if top is not None else i)
        if n.tag == "item":
            r = Rec()
            r.node = n
            r.val = n.a[0]
            r.facts = dict(ctx)
            r.facts.update(factsdict(n.a[1]))
            r.site = n.a[2]
            r.ver = n.a[3] if len(n.a) > 3 else None
            r.chain = chain
            r.order = pos
            yield r
        elif n.tag in ("loop",):
            for p in n.a[2]:
                yield from walk(p.a[2], pathfacts(ctx, p), chain + ((n, p),), pos)
            for p in n.a[4]:
                yield from walk(p.a[2], pathfacts(ctx, p), chain + ((n, p),), pos)
        elif n.tag == "once":
            for p in n.a[0]:
                yield from walk(p.a[2], pathfacts(ctx, p), chain, pos)
        elif n.tag == "copyof" and n.a[0].tag == "snap":
            yield from walk(n.a[0].a[1], ctx, chain, pos)
        elif n.tag in ("base",) and n.a[2]:
            yield from walk(n.a[2], ctx, chain, pos)
        elif n.tag in ("base", "perm"):
            continue
        else:
            r = Rec()
            r.node = n
            r.val = None
            r.facts = dict(ctx)
            r.site = None
            r.ver = None
            r.chain = chain
            r.order = pos
            yield r


def splice(nodes):
    """flatten copies of collected vectors at the top level"""
    out = []
    for n in nodes:
        if n.tag == "copyof" and n.a[0].tag == "snap":
            out += splice(n.a[0].a[1])
        else:
            out.append(n)
    return out


def loop_src(p):
    """the stream a loop path draws from (first step), or None"""
    if p.a[3]:
        return p.a[3][0].a[1]
    return None


def loop_elem_srcs(n):
    return [e.a[1] for e in n.a[3]]


_setcache = {}


def opaque_set_tree(s, trees):
    """if the set term is exactly {d | e in all nodes of t, is_opaque(t,e), d in descendants(t,e), d != e}
    return t, else None"""
    k = (s, tuple(trees))
    if k in _setcache:
        return _setcache[k]
    r = None
    for t in trees:
        if is_opaque_set(s, t):
            r = t
            break
    _setcache[k] = r
    return r


def neq_fact(facts, d, e):
    if facts.get(eq(d, e)) is False:
        return True
    b = facts.get(mk("beyond", mk("idx", d), Int(1)))
    return b is True


def eq_fact(facts, d, e):
    if facts.get(eq(d, e)) is True:
        return True
    return facts.get(mk("beyond", mk("idx", d), Int(1))) is False


def is_opaque_set(s, t):
    if s.tag != "snap":
        return False
    nodes = splice(s.a[1])
    if not nodes:
        return False
    full = False
    for n in nodes:
        if n.tag != "loop" or n.a[1] != "end":
            return False
        srcs = {loop_src(p) for p in n.a[2]}
        if len(srcs) != 1:
            return False
        src = srcs.pop()
        if src is None or not all_nodes_src(src, t):
            return False
        cov = _opaque_outer(n, t, src)
        if cov is None:
            return False
        full = full or cov
    return full


def _opaque_outer(n, t, src):
    """None: unsound; else whether it covers everything"""
    cov = True
    if n.a[4]:
        return None if any(True for _ in ()) else False
    es = [e for e in n.a[3] if e.a[1] is src]
    for p in n.a[2]:
        pf = factsdict(p.a[1])
        opfacts = {l.a[2]: v for l, v in pf.items() if is_dt(l, "is_opaque") and l.a[1] is t}
        e = next((x for x in es if x in opfacts), None)
        items = list(walk(p.a[2], pf))
        # fused (flat_map) form: items directly below
        for r in items:
            d = r.val
            if d is None or d.tag != "elem":
                return None
            ds = d.a[1]
            if not (is_dt(ds, "descendants") and ds.a[1] is t):
                return None
            e2 = ds.a[2]
            if r.facts.get(dt("is_opaque", t, e2)) is not True or e2 not in es:
                return None
            if not neq_fact(r.facts, d, e2):
                return None
        if e is not None and opfacts[e] is False:
            continue
        if not p.a[2]:
            # fused form: skip paths for the element itself
            ok = False
            for x in n.a[3]:
                if is_dt(x.a[1], "descendants") and x.a[1].a[2] in es and eq_fact(pf, x, x.a[1].a[2]):
                    ok = True
            if not ok:
                cov = False
            continue
        for c in p.a[2]:
            if c.tag == "item":
                continue
            if c.tag == "copyof":
                return None
            if c.tag != "loop" or c.a[1] != "end":
                cov = False
                continue
            for q in c.a[2]:
                if q.a[2]:
                    continue
                qf = pathfacts(pf, q)
                if not any(is_dt(x.a[1], "descendants") and eq_fact(qf, x, x.a[1].a[2]) for x in c.a[3]):
                    # already a member?
                    cov = False
            if not any(is_dt(loop_src(q), "descendants") for q in c.a[2] if loop_src(q) is not None):
                cov = False
    return cov


def normalise(facts, trees):
    """rewrite membership in recognised sets to their meaning"""
    out = {}
    for l, v in facts.items():
        if l.tag == "member":
            t = opaque_set_tree(l.a[0], trees)
            if t is not None:
                out[opq(t, l.a[1])] = v
                continue
        out[l] = v
    return out
