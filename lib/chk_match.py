"""Matching properties: which pairs compute_matching may add, and which it must add."""
from matchinfo import *


def pair(r):
    return fld(r.val, 0, 0), fld(r.val, 0, 1)


_mi = {}


def info(prog):
    k = id(prog)
    if k not in _mi:
        _mi[k] = MatchInfo(prog)
    return _mi[k]


def begin(rep, prog):
    mi = info(prog)
    rep.use(mi.root)
    for rr in mi.rec_roots.values():
        rep.use(rr.root)
    for p in mi.problems:
        rep.fail(*p)
    rep.all_reached(prog, [mi.it] + [rr.it for rr in mi.rec_roots.values()], "Matching::add")
    rep.check(len(mi.recs) > 0 or mi.problems, "compute_matching adds pairs", short(mi.root.body["p"]))
    return mi, Prover(mi)


def unmatched(r, which, x):
    v = r.ver
    if v is not None and v.tag == "snap" and not v.a[1]:
        return True
    return entails(r.facts, disceq(app(which, v, x), 1), False)


def m_one_to_one(rep, prog):
    mi, pr = begin(rep, prog)
    for o, r in mi.recs:
        a, b = pair(r)
        w = where(o.it, r.site)
        rep.check(unmatched(r, "get_b", a), "add(a, b) only while a is unmatched", w, "facts there: " + fshow(r.facts, 8))
        rep.check(unmatched(r, "get_a", b), "add(a, b) only while b is unmatched", w, "facts there: " + fshow(r.facts, 8))


def m_kind(rep, prog):
    mi, pr = begin(rep, prog)
    for o, r in mi.recs:
        a, b = pair(r)
        ok = kind_equal(r.facts, a, b) or pr.iden(a, b, r.facts, o)
        rep.check(ok, "only nodes of the same kind are paired", where(o.it, r.site), "facts there: " + fshow(r.facts, 8))


def m_opaque(rep, prog):
    mi, pr = begin(rep, prog)
    for o, r in mi.recs:
        a, b = pair(r)
        w = where(o.it, r.site)
        rep.check(pr.nop("a", a, r.facts, o), "a strict descendant of an opaque node of tree A is never paired", w, "facts there: " + fshow(r.facts, 8))
        rep.check(pr.nop("b", b, r.facts, o), "a strict descendant of an opaque node of tree B is never paired", w, "facts there: " + fshow(r.facts, 8))


def sim(a, b):
    return app(C + "tree::Properties::similarity", dt("properties", TA, a), dt("properties", TB, b))


def sim_ok(mi, f, a, b):
    return entails(f, lt(sim(a, b), mi.TH), False)


def is_opaque_pair(f, a, b):
    return entails_or(f, [(dt("is_opaque", TA, a), True), (dt("is_opaque", TB, b), True)])


def m_justified(rep, prog):
    mi, pr = begin(rep, prog)
    for o, r in mi.recs:
        a, b = pair(r)
        f = r.facts
        ok = pr.iden(a, b, f, o) or hash_equal(f, a, b) or sim_ok(mi, f, a, b) or \
            (is_opaque_pair(f, a, b) and pr.level(a, b, f, o))
        rep.check(ok, "a pair has equal hashes, similarity >= similarity_threshold, or an opaque node",
                  where(o.it, r.site), "facts there: " + fshow(f, 10))


def ancestry_ok(f, ver, a, b):
    pa, pb = dt("parent", TA, a), dt("parent", TB, b)
    PA, PB = fld(pa, 1, 0), fld(pb, 1, 0)
    ga, gb = app("get_b", ver, PA), app("get_a", ver, PB)
    if ver.tag == "snap" and not ver.a[1]:
        return True, True
    x = entails_or(f, [(disceq(pa, 1), False), (disceq(ga, 1), False), (mk("indesc", TB, fld(ga, 1, 0), b), True)])
    y = entails_or(f, [(disceq(pb, 1), False), (disceq(gb, 1), False), (mk("indesc", TA, fld(gb, 1, 0), a), True)])
    return x, y


def m_ancestry(rep, prog):
    mi, pr = begin(rep, prog)
    for o, r in mi.recs:
        a, b = pair(r)
        f = r.facts
        x, y = ancestry_ok(f, r.ver, a, b)
        w = where(o.it, r.site)
        lv = None
        if not (x and y):
            lv = pr.level(a, b, f, o)
        rep.check(x or lv, "if a's parent is already paired, b lies under that partner (or the pair is compared level by level)", w, "facts there: " + fshow(f, 10))
        rep.check(y or lv, "if b's parent is already paired, a lies under that partner (or the pair is compared level by level)", w, "facts there: " + fshow(f, 10))


def m_min_height(rep, prog):
    """a pair found by comparing two nodes in the top-down phase is at least min_height high"""
    mi, pr = begin(rep, prog)
    for o, r in mi.recs:
        a, b = pair(r)
        ea, eb = pr.base_elem(a), pr.base_elem(b)
        topdown = ea is not None and ea is eb and ea.a[1].tag == "work" or a in mi.owner_of_param or zipped_parents(r.facts, a, b)
        if topdown:
            rep.check(p_high(pr, [a, b], r.facts, o), "a top-down pair is at least min_height high, or lies below an identical pair that is",
                      where(o.it, r.site), "facts there: " + fshow(r.facts, 8))


def m_determinism(rep, prog):
    from chk_script import deterministic
    mi, pr = begin(rep, prog)
    for ow in [mi] + list(mi.rec_roots.values()):
        deterministic(rep, ow.it, [r for o, r in mi.recs if o is ow], [f for f, _, _ in ow.outs])
