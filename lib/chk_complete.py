"""What compute_matching must pair: descendant overlap of global candidates, completeness of both phases."""
from chk_match import *
from facts import *
from engine import WALKS


def alone(t):
    """the enumeration behind copies, sets and reorderings of it"""
    while True:
        if t.tag == "unord":
            t = t.a[0]
        elif t.tag == "copyof":
            t = t.a[0]
        elif t.tag == "st" and t.a[0] in ("rev", "enum"):
            t = t.a[1]
        elif t.tag == "snap" and len(t.a[1]) == 1 and t.a[1][0].tag == "copyof":
            t = t.a[1][0].a[0]
        else:
            return t


# ---- the Dice coefficient ----------------------------------------------------
def lin(t, k=1.0, out=None):
    """a sum of multiples of counts: {count: factor}, or None"""
    out = {} if out is None else out
    if t.tag == "cast":
        return lin(t.a[0], k, out)
    if t.tag == "bin" and t.a[0] == "Add":
        return lin(t.a[1], k, out) if lin(t.a[2], k, out) is not None else None
    if t.tag == "bin" and t.a[0] == "Mul":
        for c, x in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            while c.tag == "cast":
                c = c.a[0]
            v = number(c)
            if v is not None:
                return lin(x, k * v, out)
        return None
    v = number(t)
    if v is not None:
        if v != 0:
            return None
        return out
    out[t] = out.get(t, 0) + k
    return out


def number(c):
    if c.tag == "int":
        return float(c.a[0])
    if c.tag == "flt":
        try:
            return float(c.a[0])
        except ValueError:
            return None
    return None


def count_of(t, src):
    """t is the number of elements src yields"""
    return t.tag == "len" and alone(t.a[0]) is src


def is_common(t, a, b, ver):
    """t counts the descendants of a that are paired with a descendant of b"""
    if t.tag != "len" or t.a[0].tag != "snap":
        return False
    da, db = dt("descendants", TA, a), dt("descendants", TB, b)
    ns = splice(t.a[0].a[1])
    if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4]:
        return False
    n = ns[0]
    for mine, other, get in ((da, db, "get_b"), (db, da, "get_a")):
        ok = bool(n.a[2])
        for p in n.a[2]:
            src = loop_src(p)
            es = [e for e in n.a[3] if e.a[1] is mine]
            if src is None or alone(src) is not mine or len(p.a[3]) != 1 or not es:
                ok = False
                break
            f = factsdict(p.a[1])
            good = False
            for e in es:
                g = app(get, ver, e)
                y = fld(g, 1, 0)
                inn = [mk("member", s, y) for s in sets_of(f, other)] + [mk("indesc", TB if get == "get_b" else TA, other.a[2], y)]
                if len(p.a[2]) == 1 and p.a[2][0].tag == "item":
                    good = good or (entails(f, disceq(g, 1), True) and any(entails(f, m, True) for m in inn))
                elif not p.a[2]:
                    good = good or entails(f, disceq(g, 1), False) or any(entails_or(f, [(disceq(g, 1), False), (m, False)]) for m in inn)
            if not good:
                ok = False
                break
        if ok and any(p.a[2] for p in n.a[2]):
            return True
    return False


def sets_of(f, src):
    """terms used in membership facts that stand for the set of everything src yields"""
    out = {l.a[0] for l in f if l.tag == "member" and alone(l.a[0]) is src}
    out.add(src)
    return sorted(out, key=lambda t: t.id)


def is_dice(t, a, b, ver):
    """2 * (descendants of a paired with descendants of b) / (descendants of a + descendants of b)"""
    if t.tag != "bin" or t.a[0] != "Div":
        return False
    n, d = lin(t.a[1]), lin(t.a[2])
    if not n or not d or len(n) != 1 or len(d) != 2:
        return False
    (c, k), = n.items()
    da, db = dt("descendants", TA, a), dt("descendants", TB, b)
    ds = list(d.items())
    for (x, i), (y, j) in ((ds[0], ds[1]), (ds[1], ds[0])):
        if count_of(x, da) and count_of(y, db):
            return i == j and k == 2 * i and is_common(c, a, b, ver)
    return False


def dice_terms(f, a, b, ver):
    out = set()
    for l in f:
        if l.tag == "lt":
            for t in l.a:
                if t not in out and is_dice(t, a, b, ver):
                    out.add(t)
    return sorted(out, key=lambda t: t.id)


def dice_ok(mi, f, a, b, ver):
    return any(entails(f, lt(t, mi.TH), False) for t in dice_terms(f, a, b, ver))


def leaf(f, t, x):
    return entails(f, eq(mk("len", dt("children", t, x)), Int(0)), True)


def partner_of_parent(f, a, ver):
    """the node paired with a's parent, when the facts say there is one"""
    pa = dt("parent", TA, a)
    if not entails(f, disceq(pa, 1), True):
        return None
    g = app("get_b", ver, fld(pa, 1, 0))
    return fld(g, 1, 0) if entails(f, disceq(g, 1), True) else None


def in_place(f, a, b, ver):
    """same position below paired parents"""
    q = partner_of_parent(f, a, ver)
    if q is None:
        return False
    p = children_parent(TB, b)
    child = p is not None and (p is q or entails(f, eq(p, q), True)) or entails(f, eq(dt("parent", TB, b), Some(q)), True)
    return child and entails(f, eq(dt("position", TA, a), dt("position", TB, b)), True)


def both_roots(f, a, b):
    return entails(f, disceq(dt("parent", TA, a), 1), False) and entails(f, disceq(dt("parent", TB, b), 1), False)


def ineligible(mi, f, a, b, ver):
    """b cannot be paired with a by overlap"""
    return not_free(f, b) or entails(f, opq(TB, b), True) or entails(f, eq(dt("kind", TA, a), dt("kind", TB, b)), False) \
        or leaf(f, TB, b) or not_sim(mi, f, a, b) or incompatible(f, a, b) \
        or any(entails(f, lt(t, mi.TH), True) for t in dice_terms(f, a, b, ver))


def not_free(f, b, get="get_a"):
    return any(l.tag == "disceq" and l.a[0].tag == "app" and l.a[0].a[0] == get and l.a[0].a[2] is b and v is True and l.a[1] == 1
               for l, v in f.items()) or \
        any(entails(f, disceq(g, 1), True) for g in {x for l in f for x in apps(l) if x.a[0] == get and x.a[2] is b})


_apps = {}


def apps(l):
    r = _apps.get(l)
    if r is None:
        r = []
        if l.tag not in ("forall", "partial", "member"):
            todo = [l]
            while todo:
                t = todo.pop()
                if isinstance(t, T):
                    if t.tag == "app":
                        r.append(t)
                    if t.tag not in ("snap", "elem"):
                        todo += [x for x in t.a if isinstance(x, (T, tuple))]
                elif isinstance(t, tuple):
                    todo += [x for x in t if isinstance(x, (T, tuple))]
        _apps[l] = r
    return r


def own_elems(l):
    """the elements a fact is about (not those its containers were built from)"""
    out, todo = set(), [l]
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo += [x for x in t if isinstance(x, (T, tuple))]
        elif t.tag == "elem":
            out.add(t)
        elif t.tag not in ("snap", "base"):
            todo += [x for x in t.a if isinstance(x, (T, tuple))]
    return out


def not_sim(mi, f, a, b):
    return entails(f, lt(sim(a, b), mi.TH), True)


def incompatible(f, a, b):
    """a's parent is paired with a node b does not lie under, or the other way round"""
    for t, y, x, tx, get in ((TB, b, a, TA, "get_b"), (TA, a, b, TB, "get_a")):
        p = dt("parent", tx, x)
        for l, v in f.items():
            if l.tag == "forall" and v is True and l.a[1]:
                src = l.a[1][0].a[3][0].a[1] if l.a[1][0].a[3] else None
                if src is None or not is_dt(alone(src), "descendants"):
                    continue
                g = alone(src).a[2]
                if g.tag == "fld" and g.a[0].tag == "app" and g.a[0].a[0] == get and g is fld(g.a[0], 1, 0) and g.a[0].a[2] is fld(p, 1, 0) \
                        and all(any(entails(factsdict(q.a[1]), eq(y, e), False) for e in variables(q.a[1]) if e.tag == "elem" and e.a[1] is alone(src))
                                for q in l.a[1]) and entails(f, disceq(g.a[0], 1), True) and entails(f, disceq(p, 1), True):
                    return True
        for g in {z for l in f for z in apps(l) if z.a[0] == get}:
            if g.a[2] is fld(p, 1, 0) and (any(entails(f, m, False) for m in
                                               [mk("indesc", t, fld(g, 1, 0), y)] + [mk("member", s, y) for s in sets_of(f, dt("descendants", t, fld(g, 1, 0)))])
                                           or walked_past(f, t, fld(g, 1, 0), y)):
                return True
    return False


def walked_past(f, t, q, y):
    """a walk from y up to the root has not met q"""
    def misses(p, c):
        return any(entails(factsdict(p.a[1]), eq(x, c), False) and (x is q or entails(f, eq(x, q), True)) for x in others(p.a[1], c))

    def none_met(ph):
        return any(k.tag in ("forall", "partial") and kv is True and k.a[0] == ph.a[0] and all(misses(p, val(ph)) for p in k.a[1]) for k, kv in f.items())

    def val(ph):
        return fld(ph, 1, 0) if WALKS[ph.a[:2]][1] else ph
    up = dt("parent", t, y)
    for l, v in f.items():
        if l.tag == "disceq" and v is False and l.a[1] == 1:
            ph = l.a[0]
            if ph.tag == "phi" and WALKS.get(ph.a[:2]) == (t, True):
                if (ph.a[2] is Some(y) or ph.a[2] is up and entails(f, eq(q, y), False)) and none_met(ph):
                    return True
            elif is_dt(ph, "parent") and ph.a[1] is t and ph.a[2].tag == "phi" and WALKS.get(ph.a[2].a[:2]) == (t, False):
                ph = ph.a[2]
                if (ph.a[2] is y or ph.a[2] is fld(up, 1, 0) and entails(f, eq(q, y), False)) and none_met(ph) and entails(f, eq(ph, q), False):
                    return True
        if l.tag == "forall" and v is True and l.a[1]:
            s = steps_src(l.a[1][0])
            s = s and alone(s)
            if s is not None and s.tag == "app" and s.a[0] == "ancestors" and s.a[1] is t and s.a[2] is y and \
                    all(steps_src(p) is not None and alone(steps_src(p)) is s and any(misses(p, e) for e in elems_of((p.a[1],), s)) for p in l.a[1]):
                return True
    return False


def others(fs, c):
    """what c is compared with"""
    for l, _ in fs.a[0]:
        if l.tag == "eq" and c in l.a:
            yield l.a[1] if l.a[0] is c else l.a[0]


def m_dice(rep, prog):
    mi, pr = begin(rep, prog)
    for o, r in mi.recs:
        a, b = pair(r)
        f = r.facts
        w = where(o.it, r.site)
        other = pr.iden(a, b, f, o) or hash_equal(f, a, b) or (is_opaque_pair(f, a, b) and pr.level(a, b, f, o)) \
            or in_place(f, a, b, r.ver) or leaf(f, TA, a) and leaf(f, TB, b) or both_roots(f, a, b)
        ok = other or dice_ok(mi, f, a, b, r.ver)
        rep.check(ok, "two inner nodes that are not identical, not in the same place and not both roots share enough paired descendants (Dice >= threshold)",
                  w, "facts there: " + fshow(f, 10))
        if ok and dice_terms(f, a, b, r.ver) and dice_ok(mi, f, a, b, r.ver):
            best(rep, mi, o, r, a, b, w)
    dice_pass(rep, mi)


def dice_pass(rep, mi):
    some_pass(rep, mi, "an inner node that has an eligible candidate with a coefficient at or above the threshold is paired",
              lambda f, a: leaf(f, TA, a), dice_refuted, anywhere)


def carries(v, b):
    return v is b or v.tag == "agg" and any(isinstance(x, T) and carries(x, b) for x in v.a[2:])


def best(rep, mi, o, r, a, b, w):
    """no candidate the loop saw has a higher coefficient"""
    rule = "among the candidates the one with the highest coefficient is taken"
    it = o.it
    loops = [p for p in it.phi_iter if p in it.phi and any(carries(v, b) for v, _ in it.phi[p])
             and any(x.a[1] is r.ver for _, _, f, _ in it.phi_iter[p] for l, _ in f.a[0] for x in apps(l) if x.a[0] in ("get_a", "get_b"))]
    if not loops:
        rep.fail(rule, w, "the chosen node is not carried round a loop over the candidates")
        return
    known = {l: v for l, v in r.facts.items() if l.tag not in ("forall", "partial") and own_elems(l) <= variables(a)}
    for p in loops:
        back = it.phi_iter[p]
        ends = [l for l, v in r.facts.items() if l.tag == "forall" and v is True and l.a[0] == p.a[0] and l.a[1]]
        srcs = {alone(x.a[1]) for x in variables(b) | {b} if x.tag == "elem"}
        rep.check(any(not [k for k in l.a[2] if k.a[0] != "ret"] and all(len(q.a[3]) == 1 and any(
            all_nodes_src(src, TB) and covered(steps_src(q), src, known, lambda g, e: ineligible(mi, g, a, e, r.ver)) for src in srcs) for q in l.a[1])
            for l in ends), "every node of the other tree that is free, of the same kind, similar and compatible is a candidate", w, fshow(known, 8))
        before = normalise(factsdict(p.a[3]), TREES)
        if any(before.get(l, v) is not v for l, v in known.items()):
            continue
        for c, new, f, steps in back:
            fd = dict(known)
            fd.update(normalise(factsdict(f), TREES))
            if inconsistent(fd):
                continue
            if new is None and c is None and not steps:
                continue
            e = {x for x in variables((f,) if new is None else (new, f)) if x.tag == "elem" and all_nodes_src(alone(x.a[1]), TB) or
                 x.tag == "elem" and is_dt(alone(x.a[1]), "children") and alone(x.a[1]).a[1] is TB}
            cur = sorted((x for x in e if "'" not in x.a[0]), key=lambda t: t.id)
            if any(ineligible(mi, fd, a, x, r.ver) for x in cur) and new is None:
                continue
            old = sorted((x for x in e if "'" in x.a[0]), key=lambda t: t.id)
            none = c is NONE or c is not None and c.tag == "agg" and c.a[0] == OPT and c.a[1] == 0
            ok = False
            for x in cur:
                tx = dice_terms(fd, a, x, r.ver)
                if new is not None and none and carries(new, x):
                    ok = True
                for y in old:
                    for s in dice_terms(fd, a, y, r.ver):
                        for t in tx:
                            if new is None:
                                ok = ok or entails(fd, lt(s, t), False)
                            elif carries(new, x):
                                ok = ok or entails(fd, lt(s, t), True)
            rep.check(ok, rule, w, "one iteration %s: %s" % ("keeps the earlier candidate" if new is None else "takes the new candidate", fshow(fd, 8)))


# ---- every element of a source is ruled out ------------------------------------
def steps_src(p):
    return p.a[3][0].a[1] if p.a[3] else None


def path_facts(p, outer):
    d = dict(outer)
    d.update(normalise(factsdict(p.a[1]), TREES))
    return d


def elems_of(terms, src):
    return sorted({e for e in variables(terms) if e.tag == "elem" and alone(e.a[1]) is src}, key=lambda t: t.id)


def covered(s, src, outer, pred):
    """every element of src is either ruled out by pred or among the elements of the stream s"""
    s = alone(s)
    if s is src:
        return True
    if s.tag == "snap":
        ns = splice(s.a[1])
        if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or not ns[0].a[2]:
            return False
        n = ns[0]
        for p in n.a[2]:
            if len(p.a[3]) != 1:
                return False
            if not covered(steps_src(p), src, outer, pred):
                return False
            es = elems_of(tuple(n.a[3]), src)
            if p.a[2] and len(p.a[2]) == 1 and p.a[2][0].tag == "item" and p.a[2][0].a[0] in es:
                continue
            if not any(pred(path_facts(p, outer), e) for e in es):
                return False
        return True
    if s.tag == "bucket":
        ns = splice(s.a[0].a[1]) if s.a[0].tag == "snap" else ()
        if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end":
            return False
        for p in ns[0].a[2]:
            es = elems_of(tuple(ns[0].a[3]), src)
            f = path_facts(p, outer)
            if len(p.a[3]) != 1 or alone(steps_src(p)) is not src:
                return False
            if p.a[2]:
                it_ = p.a[2][0]
                if len(p.a[2]) != 1:
                    return False
                k = key_of(it_)
                if k is None:
                    return False
                f2 = dict(f)
                f2[eq(k[0], s.a[1])] = False
                if k[1] in es and pred(f2, k[1]):
                    continue
                return False
            if not any(pred(f, e) for e in es):
                return False
        return True
    return False


def key_of(n):
    """(key, value) of an insertion into the bucket of a map"""
    if n.tag == "bitem":
        return n.a[0], n.a[1]
    if n.tag == "item" and n.a[0].tag == "agg" and len(n.a[0].a) == 4:
        return n.a[0].a[2], n.a[0].a[3]
    return None


def ruled_out(f, src, pred):
    """some exhausted loop on the path shows that pred rules out every element of src"""
    for l, v in f.items():
        if l.tag == "haskey" and v is False and covered(mk("bucket", l.a[0], l.a[1]), src, f, pred):
            return True
        if l.tag != "forall" or v is not True:
            continue
        if not l.a[1]:
            continue
        ok = True
        for p in l.a[1]:
            s = steps_src(p)
            if s is None or len(p.a[3]) != 1 or not covered(s, src, f, pred):
                ok = False
                break
            es = elems_of((p.a[1],), src)
            if not any(pred(path_facts(p, f), e) for e in es):
                ok = False
                break
        if ok:
            return True
    return entails(f, eq(mk("len", src), Int(0)), True)


def adds(nodes, a):
    """the path pairs a"""
    for n in nodes:
        if n.tag == "item" and fld(n.a[0], 0, 0) is a:
            return True
        if n.tag == "once" and n.a[0] and all(adds(p.a[2], a) for p in n.a[0]):
            return True
        if n.tag == "copyof" and n.a[0].tag == "snap" and adds(n.a[0].a[1], a):
            return True
    return False


def taken(f, x, get):
    return not_free(f, x, get)


def place_refuted(mi, f, a):
    """no free child of the partner of a's parent has a's kind and position and is similar enough"""
    def pred(g, b):
        return not_free(g, b) or entails(g, opq(TB, b), True) or entails(g, eq(dt("kind", TA, a), dt("kind", TB, b)), False) \
            or entails(g, eq(dt("position", TA, a), dt("position", TB, b)), False) or not_sim(mi, g, a, b)
    return pred


def leaf_refuted(mi, f, a):
    """no free leaf below the partner of a's parent has a's kind and hash"""
    def pred(g, b):
        return not_free(g, b) or entails(g, opq(TB, b), True) or entails(g, eq(dt("kind", TA, a), dt("kind", TB, b)), False) \
            or hash_differs(g, a, b) or not_leaf(g, TB, b)
    return pred


def not_leaf(f, t, x):
    return entails(f, eq(mk("len", dt("children", t, x)), Int(0)), False)


def below_partner(f, a):
    q = free_parent(f, a)
    return q if q is None or q is True else [dt("children", TB, q)]


def anywhere(f, a):
    return [dt("iter", TB), dt("post_order", TB), dt("descendants", TB, dt("root", TB))]


def dice_refuted(mi, f, a):
    """no free node of a's kind that is an inner node, similar, compatible and shares enough paired descendants"""
    def pred(g, b):
        vers = {x.a[1] for l in g for x in apps(l) if x.a[0] in ("get_a", "get_b")}
        return any(ineligible(mi, g, a, b, v) for v in sorted(vers, key=lambda t: t.id))
    return pred


def some_pass(rep, mi, rule, excuse, goal, where=below_partner):
    """one loop over all nodes of A pairs each node, or shows on every other path that the goal's candidates are ruled out"""
    w = short(mi.root.body["p"])
    last = None
    for facts, nodes, s in mi.outs:
        found = False
        for n in nodes:
            for lp in loops_in(n):
                es = [e for e in lp.a[3] if all_nodes_src(alone(e.a[1]), TA) and "'" not in e.a[0]]
                if lp.a[1] != "end" or lp.a[4] or not lp.a[2] or not es:
                    continue
                bad = None
                for p in lp.a[2]:
                    s0 = steps_src(p)
                    if s0 is None or not all_nodes_src(alone(s0), TA):
                        bad = (p, "source")
                        break
                    f = path_facts(p, {})
                    ok = False
                    for a in es:
                        if alone(a.a[1]) is not alone(s0):
                            continue
                        if adds(p.a[2], a) or taken(f, a, "get_b") or entails(f, opq(TA, a), True) or excuse(f, a):
                            ok = True
                            break
                        q = where(f, a)
                        if q is True or q is not None and any(ruled_out(f, c, goal(mi, f, a)) for c in q):
                            ok = True
                            break
                    if not ok:
                        bad = (p, fshow(f, 8))
                        break
                if bad is None:
                    found = True
                    break
                last = last or bad[1]
            if found:
                break
        rep.check(found, rule, w, "a path leaves the node alone without ruling out the candidates: %s" % last)


def loops_in(n):
    if n.tag == "loop":
        yield n


def free_parent(f, a):
    """True: a has no parent, or its parent has no partner; else the partner; None when unknown"""
    pa = dt("parent", TA, a)
    if entails(f, disceq(pa, 1), False):
        return True
    gs = {x for l in f for x in apps(l) if x.a[0] == "get_b" and x.a[2] is fld(pa, 1, 0)}
    for g in sorted(gs, key=lambda t: t.id):
        if entails_or(f, [(disceq(pa, 1), False), (disceq(g, 1), False)]):
            return True
    for g in sorted(gs, key=lambda t: t.id):
        if entails(f, disceq(g, 1), True):
            return fld(g, 1, 0)
    return None


def m_bottom_up(rep, prog):
    mi, pr = begin(rep, prog)
    some_pass(rep, mi, "a node whose parent is paired is paired with the free child of that partner that has its kind and position and is similar enough",
              lambda f, a: False, place_refuted)
    some_pass(rep, mi, "a leaf whose parent is paired is paired when that partner has a free leaf child of the same kind and hash",
              lambda f, a: not_leaf(f, TA, a), leaf_refuted)


# ---- top-down ------------------------------------------------------------------
def flat(nodes):
    for n in splice(nodes):
        if n.tag == "once" and len(n.a[0]) == 1:
            yield from flat(n.a[0][0].a[2])
        else:
            yield n


def is_opaque_known(f, x, y):
    return entails_or(f, [(dt("is_opaque", TA, x), True), (dt("is_opaque", TB, y), True)])


class Walker:
    """who visits the pairs of a subtree: a recursive helper, or a worklist"""

    def __init__(self, mi, owner):
        self.mi, self.owner = mi, owner
        self.done = {}

    # both: does the code on this path pair x with y and all their descendants?
    def subtree(self, owner, nodes, facts, x, y, work=None):
        if taken(facts, x, "get_b") or taken(facts, y, "get_a"):
            return True
        ns = list(flat(nodes))
        if any(n.tag == "item" and n.a[0] is tup(x, y) for n in ns):
            if is_opaque_known(facts, x, y):
                return True
            if work is not None:
                return True         # the pushes are looked at separately
            return any(self.kids(owner, n, facts, x, y) for n in ns if n.tag == "loop")
        for n in ns:
            if n.tag == "loop":
                for h, pair_ in self.works(owner, n, x, y):
                    if self.worker(owner, n, h, pair_):
                        return True
        return False

    def kids(self, owner, n, facts, x, y):
        """the loop visits the children of x and y pairwise"""
        if n.a[1] != "end" or n.a[4] or not n.a[2]:
            return False
        for p in n.a[2]:
            f = path_facts(p, facts)
            ok = False
            for c in flat(p.a[2]):
                if c.tag == "rec":
                    args = c.a[1]
                    for i, l in enumerate(args):
                        for j, r in enumerate(args):
                            if zipped_parents(f, l, r) == (x, y) and self.helper(c.a[0], i, j):
                                ok = True
            if not ok:
                return False
        return True

    def helper(self, fn, i, j):
        k = (fn, i, j)
        if k in self.done:
            return self.done[k]
        self.done[k] = True
        rr = self.mi.rec_roots.get(fn)
        ok = rr is not None and i in rr.vars and j in rr.vars
        if ok:
            for facts, nodes, s in rr.outs:
                if not inconsistent(facts) and not self.subtree(rr, nodes, facts, rr.vars[i], rr.vars[j]):
                    ok = False
        self.done[k] = ok
        return ok

    def works(self, owner, n, x, y):
        """worklists the loop draws from that start with the pair (x, y): (handle, field of x, field of y)"""
        for p in n.a[2]:
            s = steps_src(p)
            if s is not None and s.tag == "work":
                oid, init, key = owner.it.work_init[s.a[2]]
                for r in flat(init):
                    if r.tag == "item" and r.a[0].tag == "agg":
                        fs = list(r.a[0].a[2:])
                        if x in fs and y in fs and fs.index(x) != fs.index(y):
                            yield s, (fs.index(x), fs.index(y))
            break

    def worker(self, owner, n, work, ij):
        k = (work, ij)
        if k in self.done:
            return self.done[k]
        self.done[k] = True
        ok = n.a[1] == "end" and not n.a[4]
        for p in n.a[2]:
            es = elems_of(tuple(n.a[3]), work)
            e = es[0]
            x, y = fld(e, 0, ij[0]), fld(e, 0, ij[1])
            ok = ok and self.subtree(owner, p.a[2], path_facts(p, {}), x, y, work)
        for nodes, facts in owner.it.work_push.get(work.a[2], []):
            f = normalise(facts, TREES)
            if taken(f, x, "get_b") or taken(f, y, "get_a") or is_opaque_known(f, x, y) or inconsistent(f):
                continue
            ok = ok and any(pushes_kids(c, f, x, y, ij) for c in flat(nodes) if c.tag == "loop")
        self.done[k] = ok
        return ok


def pushes_kids(n, facts, x, y, ij):
    if n.a[1] != "end" or n.a[4] or not n.a[2]:
        return False
    for p in n.a[2]:
        f = path_facts(p, facts)
        if not any(c.tag == "item" and c.a[0].tag == "agg" and zipped_parents(f, fld(c.a[0], 0, ij[0]), fld(c.a[0], 0, ij[1])) == (x, y)
                   for c in flat(p.a[2])):
            return False
    return True


def all_pairs(nodes, facts, x, y, ij, ea=None, eb=None):
    """every child of x with every child of y is put on the worklist, unless they have neither kind nor hash in common or one is taken"""
    ca, cb = dt("children", TA, x), dt("children", TB, y)
    for n in flat(nodes):
        if n.tag != "loop" or n.a[1] != "end" or n.a[4] or not n.a[2]:
            continue
        good = True
        for p in n.a[2]:
            f = path_facts(p, facts)
            a, b = ea, eb
            for st in p.a[3]:
                s = alone(st.a[1])
                for e in n.a[3]:
                    if alone(e.a[1]) is ca and covered(s, ca, f, lambda g, z: False):
                        a = e
                    elif alone(e.a[1]) is cb and covered(s, cb, f, lambda g, z: False):
                        b = e
            if a is not None and taken(f, a, "get_b") or b is not None and taken(f, b, "get_a"):
                continue
            if a is not None and b is not None:
                if any(c.tag == "item" and c.a[0].tag == "agg" and fld(c.a[0], 0, ij[0]) is a and fld(c.a[0], 0, ij[1]) is b for c in flat(p.a[2])):
                    continue
                if hash_differs(f, a, b) and entails(f, eq(dt("kind", TA, a), dt("kind", TB, b)), False):
                    continue
            if (a is None or b is None) and (a is not None or b is not None) and all_pairs(p.a[2], f, x, y, ij, a, b):
                continue
            good = False
            break
        if good:
            return True
    return False


def m_top_down(rep, prog):
    mi, pr = begin(rep, prog)
    ra, rb = dt("root", TA), dt("root", TB)
    w0 = short(mi.root.body["p"])
    wk = Walker(mi, mi)
    n_seen = 0
    for facts, nodes, s in mi.outs:
        tops = [(n, h, ij) for n in flat(nodes) if n.tag == "loop" for h, ij in wk.works(mi, n, ra, rb)]
        rep.check(len(tops) == 1, "the top-down phase starts by comparing the roots", w0)
        for n, h, ij in tops:
            n_seen += 1
            e = elems_of(tuple(n.a[3]), h)[0]
            x, y = fld(e, 0, ij[0]), fld(e, 0, ij[1])
            rep.check(n.a[1] == "end" and not n.a[4], "the top-down phase goes on until no pair is left to compare", w0)
            for p in n.a[2]:
                f = path_facts(p, {})
                if taken(f, x, "get_b") or taken(f, y, "get_a") or too_low(mi, f, x, y) or inconsistent(f):
                    continue
                kd = entails(f, eq(dt("kind", TA, x), dt("kind", TB, y)), False)
                if not hash_differs(f, x, y) and not kd:
                    rep.check(wk.subtree(mi, p.a[2], f, x, y), "identical subtrees that are compared are paired node by node", w0, fshow(f, 8))
                if not kd and not no_opaque(f, x, y):
                    rep.check(any(c.tag == "item" and c.a[0] is tup(x, y) for c in flat(p.a[2])) or
                              not hash_differs(f, x, y) and wk.subtree(mi, p.a[2], f, x, y),
                              "an opaque node that is compared with a node of its kind is paired", w0, fshow(f, 8))
            for pn, pf in mi.it.work_push.get(h.a[2], []):
                f = normalise(pf, TREES)
                if taken(f, x, "get_b") or taken(f, y, "get_a") or too_low(mi, f, x, y) or inconsistent(f):
                    continue
                if is_opaque_known(f, x, y) or hash_equal(f, x, y) and kind_equal(f, x, y):
                    continue
                rep.check(all_pairs(pn, f, x, y, ij), "when two nodes differ, their children of the same kind or hash are compared", w0, fshow(f, 8))
    rep.check(n_seen > 0, "the top-down phase starts by comparing the roots", w0)


def too_low(mi, f, x, y):
    return entails(f, lt(dt("height", TA, x), mi.MINH), True) or hash_equal(f, x, y) and entails(f, lt(dt("height", TB, y), mi.MINH), True)


def no_opaque(f, x, y):
    return entails(f, dt("is_opaque", TA, x), False) and entails(f, dt("is_opaque", TB, y), False)
