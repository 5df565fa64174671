"""hotmeal-server: the per-route caches, the events produced from them, and head injection."""
from term import *
from engine import *
from logic import *
from facts import splice, loop_src
from hot import *
from report import *
from chk_value import pieces

LS = "hotmeal_server::LiveReloadServer"
EV = "hotmeal_server::LiveReloadEvent"
SELF = mk("ref", ("O", "srv"), ())
ROUTE, NEW, HEAD = P("route"), P("new"), P("head")


def fn(prog, name):
    b = prog.fn(name)
    if b is None:
        raise Unsupported("function not found: " + name)
    return b


def run(rep, prog, name, args, heap=True):
    """the root on a server whose maps hold anything"""
    ad = prog.adts[LS]["v"][0]
    h, fs, maps = {}, [], []
    for i, ft in enumerate(ad["ft"]):
        t = prog.types[ft]
        if t.get("p", "").split("::")[-1] in ("HashMap", "BTreeMap"):
            o = "map%d" % i
            h[o] = mk("coll", "HashMap", (mk("base", "^", o, (), "past"),))
            fs.append(mk("obj", o))
            maps.append(o)
        else:
            fs.append(P("field%d" % i))
    h["srv"] = mk("cell", agg(LS, 0, *fs))
    r = Root(prog, fn(prog, LS + "::" + name if "::" not in name else name), args, matching=False, treeapi=False, heap=h if heap else None, extra=STR_API)
    rep.use(r)
    r.maps = maps
    return r


def outs(r):
    return [(s, r.it.rv(s, v)) for s, v in r.outs if not inconsistent(s.facts)]


def at(r):
    return "%s (%s)" % (short(r.body["p"]), r.body.get("span", ""))


def past(o):
    return mk("snap", "HashMap", (mk("base", "^", o, (), "past"),))


def changes(s, o):
    """what happened to a map, oldest first, or None when it is not known"""
    h = s.heap[o]
    ns = h.a[1]
    if not ns:
        return [mk("cleared")]
    if ns[0] is not mk("base", "^", o, (), "past"):
        return None
    out = []

    def flat(ns):
        for n in ns:
            if n.tag == "once":
                seqs = {tuple(m if m.tag not in ("ins", "del") else mk(m.tag, *(m.a[:2] if m.tag == "ins" else m.a[:1])) for m in p.a[2]) for p in n.a[0]}
                if len(seqs) != 1:
                    return False
                if not flat(seqs.pop()):
                    return False
            else:
                out.append(n)
        return True
    return out if flat(ns[1:]) else None


def same(f, x, y):
    return x is y or entails(f, eq(x, y), True)


def holds(s, o, key, val):
    """the map has val under key afterwards, and no other key was touched"""
    c = changes(s, o)
    if c is None:
        return False
    if not c:
        return entails(s.facts, mk("haskey", past(o), key), True) and same(s.facts, mk("mapget", past(o), key), val)
    return all(n.tag == "ins" and n.a[0] is key for n in c) and same(s.facts, c[-1].a[1], val)


def untouched(s, o):
    return changes(s, o) == []


def roles(rep, prog):
    """which map holds pages and which holds head injections: the ones cache_html and cache_head_injections write"""
    r = run(rep, prog, "cache_html", [SELF, ROUTE, NEW])
    page = {o for s, _ in outs(r) for o in r.maps if changes(s, o) != []}
    r2 = run(rep, prog, "cache_head_injections", [SELF, ROUTE, HEAD])
    head = {o for s, _ in outs(r2) for o in r.maps if changes(s, o) != []}
    if len(page) != 1 or len(head) != 1 or page == head:
        raise Unsupported("the caches of pages and of head injections are not two maps")
    return page.pop(), head.pop(), r, r2


def v_cache(rep, prog):
    page, head, r, r2 = roles(rep, prog)
    for s, v in outs(r):
        rep.check(holds(s, page, ROUTE, NEW) and untouched(s, head), "cache_html stores the page under its route and nothing else", at(r), show(s.heap[page], 5))
        had = v is Some(mk("mapget", past(page), ROUTE)) and entails(s.facts, mk("haskey", past(page), ROUTE), True) \
            or v is NONE and entails(s.facts, mk("haskey", past(page), ROUTE), False)
        rep.check(had, "cache_html returns the page it replaces", at(r), show(v, 5))
    for s, v in outs(r2):
        rep.check(holds(s, head, ROUTE, HEAD) and untouched(s, page), "cache_head_injections stores the injections under their route and nothing else", at(r2), show(s.heap[head], 5))
    r = run(rep, prog, "diff_route", [SELF, ROUTE, NEW])
    for s, v in outs(r):
        rep.check(holds(s, page, ROUTE, NEW), "after diff_route the cache holds the page clients were brought to", at(r), show(s.heap[page], 6))
        rep.check(untouched(s, head), "diff_route leaves the head injections alone", at(r), show(s.heap[head], 5))
    r = run(rep, prog, "diff_route_with_head", [SELF, ROUTE, NEW, HEAD])
    for s, v in outs(r):
        rep.check(holds(s, page, ROUTE, NEW), "after diff_route_with_head the cache holds the page clients were brought to", at(r), show(s.heap[page], 6))
        rep.check(holds(s, head, ROUTE, HEAD), "after diff_route_with_head the cache holds the head injections", at(r), show(s.heap[head], 6))
    r = run(rep, prog, "remove_route", [SELF, ROUTE])
    for s, v in outs(r):
        for o in (page, head):
            c = changes(s, o)
            rep.check(c is not None and len(c) == 1 and c[0].tag == "del" and c[0].a[0] is ROUTE, "remove_route forgets the route, and only it, in both caches", at(r), show(s.heap[o], 5))
        had = [entails(s.facts, mk("haskey", past(o), ROUTE), True) for o in (page, head)]
        not_ = [entails(s.facts, mk("haskey", past(o), ROUTE), False) for o in (page, head)]
        for s2, b in r.it.fork_bool(s, v):
            had = [entails(s2.facts, mk("haskey", past(o), ROUTE), True) for o in (page, head)]
            not_ = [entails(s2.facts, mk("haskey", past(o), ROUTE), False) for o in (page, head)]
            rep.check(any(had) if b else all(not_), "remove_route says whether anything was cached for the route", at(r), "answers %s" % b)
    r = run(rep, prog, "clear", [SELF])
    for s, v in outs(r):
        for o in (page, head):
            rep.check(s.heap[o].a[1] == (), "clear empties both caches", at(r), show(s.heap[o], 5))
    r = run(rep, prog, "cached_routes", [SELF])
    for s, v in outs(r):
        ns = splice(v.a[1]) if v.tag == "snap" else ()
        ok = len(ns) == 1 and ns[0].tag == "loop" and not ns[0].a[4] and len(ns[0].a[2]) == 1
        if ok:
            p = ns[0].a[2][0]
            src = loop_src(p)
            e = [x for x in ns[0].a[3] if x.a[1] is src or src is not None and src.tag == "unord" and x.a[1] is src.a[0]]
            ok = src is not None and any(x is past(page) for x in subterms(src)) and len(p.a[2]) == 1 and len(e) == 1 \
                and p.a[2][0].tag == "item" and p.a[2][0].a[0] in (e[0], fld(e[0], 0, 0))
        elif len(ns) == 1 and ns[0].tag == "copyof":
            ok = any(x is past(page) for x in subterms(ns[0].a[0]))
        rep.check(ok, "cached_routes lists the routes with a cached page", at(r), show(v, 6))


def v_events(rep, prog):
    page, head, _, r2 = roles(rep, prog)
    NONE_EV, ev = None, [v["n"] for v in prog.adts[EV]["v"]]
    RELOAD, PATCHES, HEADC = ev.index("Reload"), ev.index("Patches"), ev.index("HeadChanged")
    pf = prog.adts[EV]["v"][PATCHES]["f"]
    ro, bl = 2 + pf.index("route"), 2 + pf.index("patches_blob")
    old, cached = mk("mapget", past(page), ROUTE), mk("haskey", past(page), ROUTE)
    oldh, cachedh = mk("mapget", past(head), ROUTE), mk("haskey", past(head), ROUTE)

    def changed(f):
        """have the head injections changed, on this path?"""
        for v in (True, False):
            if entails(f, cachedh, True) and entails(f, eq(oldh, HEAD), v) or entails(f, cachedh, False) and (entails(f, empty(HEAD), v) or entails(f, eq(HEAD, EMPTY), v)):
                return not v
        return None

    for s, v in outs(r2):
        for s2, b in r2.it.fork_bool(s, v):
            if not inconsistent(s2.facts):
                rep.check(changed(s2.facts) is b, "cache_head_injections says whether the injections changed", at(r2), fshow(s2.facts, 6))
    for name, args in (("diff_route", [SELF, ROUTE, NEW]), ("diff_route_with_head", [SELF, ROUTE, NEW, HEAD])):
        r = run(rep, prog, name, args)
        got = set()
        for s, v in outs(r):
            f = s.facts
            w = at(r)
            diffs = {x for l in f for x in subterms(l) if x.tag == "app" and x.a[0].split("@")[0].endswith("hotmeal::diff_html")}
            diff = next(iter(diffs)) if len(diffs) == 1 else None
            if diffs:
                rep.check(diff is not None and chars(diff.a[1]) is old and chars(diff.a[2]) is NEW, "the diff goes from the cached page to the new one", w, show(diff, 6) if diff else "several diffs")
            failed = diff is not None and entails(f, disceq(diff, 1), True)
            okd = diff is not None and entails(f, disceq(diff, 1), False)
            none = okd and entails(f, empty(fld(diff, 0, 0)), True)
            some = okd and entails(f, empty(fld(diff, 0, 0)), False)
            if name.endswith("head"):
                ch = changed(f)
                is_h = v.tag == "agg" and v.a[1] == 1 and v.a[2].tag == "agg" and v.a[2].a[0] == EV and v.a[2].a[1] == HEADC
                rep.check(ch is not None and ch == is_h, "HeadChanged is sent exactly when the head injections changed", w, fshow(f, 6))
                if is_h:
                    got.add("head")
                    rep.check(v.a[2].a[2] is ROUTE, "an event names the route it is about", w, show(v, 5))
                    continue
            if v is NONE:
                got.add("none")
                rep.check(entails(f, cached, True) and (entails(f, eq(old, NEW), True) or none),
                          "nothing is sent only when the page is unchanged or the diff found no patch", w, fshow(f, 6))
                continue
            e = v.a[2] if v.tag == "agg" and v.a[1] == 1 else v
            if e.tag != "agg" or e.a[0] != EV:
                rep.fail("diff_route answers an event", w, show(v, 6))
                continue
            if e.a[1] == RELOAD:
                got.add("reload")
                rep.check(entails(f, cached, False) or failed, "a reload is only asked for when no page was cached or the diff failed", w, fshow(f, 6))
            elif e.a[1] == PATCHES:
                got.add("patches")
                rep.check(some, "patches are sent only when the diff found some", w, fshow(f, 6))
                rep.check(e.a[ro] is ROUTE, "an event names the route it is about", w, show(e.a[ro], 5))
                rep.check(diff is not None and is_blob(prog, e.a[bl], fld(diff, 0, 0)), "the patches sent are all those the diff found, in order", w, show(e.a[bl], 8))
            else:
                rep.fail("HeadChanged is only sent for the head", w, show(v, 5))
        want = {"none", "reload", "patches"} | ({"head"} if name.endswith("head") else set())
        rep.check(got == want, "every kind of event has a path", at(r), "found " + ", ".join(sorted(got)))


def empty(t):
    return eq(mk("len", t), Int(0))


def chars(t):
    """the characters a converted string holds"""
    while t.tag == "app" and len(t.a) == 2 and (t.a[0].split("@")[0] in ("std::convert::From::from", "std::convert::Into::into") or t.a[0].endswith(("::as_str", "::as_ref", "::deref"))):
        t = t.a[1]
    return t


def is_blob(prog, t, patches):
    """to_vec over every patch in order, each made owned"""
    while t.tag == "fld" and t.a[1:] == (0, 0):
        t = t.a[0]
    if t.tag != "app" or not t.a[0].split("@")[0].endswith("facet_postcard::to_vec"):
        return False
    v = t.a[1]
    if v is patches:
        return True
    if v.tag != "snap":
        return False
    ns = splice(v.a[1])
    if len(ns) != 1 or ns[0].tag != "loop" or ns[0].a[1] != "end" or ns[0].a[4] or len(ns[0].a[2]) != 1:
        return False
    p = ns[0].a[2][0]
    if loop_src(p) is not patches or len(p.a[2]) != 1 or p.a[2][0].tag != "item" or len(p.a[3]) != 1:
        return False
    x = p.a[2][0].a[0]
    e = [y for y in ns[0].a[3] if y.a[1] is patches]
    return len(e) == 1 and (x is e[0] or x.tag == "app" and x.a[0].split("@")[0].endswith("::into_owned") and x.a[1] is e[0])


def v_inject(rep, prog):
    b = fn(prog, "hotmeal_server::inject_into_head")
    html, content = P("html"), P("content")
    r = Root(prog, b, [html, content], matching=False, treeapi=False, extra=STR_API)
    rep.use(r)
    kinds = set()
    for s, v in outs(r):
        w = "%s (%s)" % (short(b["p"]), b.get("span", ""))
        ps = formatted(v)
        if ps == [content, html]:
            kinds.add("front")
            rep.check(none_found(html, s.facts), "the content is only put in front when there is no <head> tag, or none that ends", w, fshow(s.facts, 4))
            continue
        ok = ps is not None and len(ps) == 3 and ps[1] is content
        cut = [part(x, html) for x in (ps[0], ps[2])] if ok else [None, None]
        ok = ok and cut[0] is not None and cut[1] is not None and cut[0][0] is None and cut[1][1] is None and cut[0][1] is cut[1][0]
        rep.check(ok, "the result is the page with the content inserted once and nothing lost", w, show(v, 7))
        if not ok:
            continue
        kinds.add("inside")
        p = cut[0][1]
        start = after_gt(p, html, s.facts)
        rep.check(start is not None, "the content goes right behind a '>' found from the start of the tag on", w, show(p, 8))
        if start is None:
            continue
        rep.check(head_tag(start, html, s.facts), "the tag is a <head> tag: `<head` is matched without regard to case and its name ends there", w,
                  show(start, 6) + " given " + fshow(s.facts, 6))
    rep.check(kinds == {"front", "inside"}, "the content is put behind <head>, or in front of a page without one", "%s (%s)" % (short(b["p"]), b.get("span", "")), str(kinds))


def formatted(t):
    """the pieces a new text is put together from"""
    return pieces(t) if t.tag == "snap" and t.a[0] == STRING or t.tag == "app" and t.a[0] == "fmt" else None


def part(x, html):
    """(from, to) when x is html[from..to]"""
    if x.tag == "app" and len(x.a) == 3 and x.a[0].split("@")[0].endswith("::index") and x.a[1] is html and x.a[2].tag == "agg":
        n = x.a[2].a[0].split("::")[-1]
        if n == "RangeTo":
            return None, x.a[2].a[2]
        if n == "RangeFrom":
            return x.a[2].a[2], None
    return None


def after_gt(p, html, f):
    """the tag start when p = start + find(html[start..], '>') + 1"""
    fs, const = [], 0

    def go(t):
        nonlocal const
        if t.tag == "bin" and t.a[0] == "Add":
            return go(t.a[1]) and go(t.a[2])
        if t.tag == "int":
            const += t.a[0]
            return True
        fs.append(t)
        return True
    go(p)
    if const != 1 or len(fs) != 2:
        return None
    for x, y in (fs, fs[::-1]):
        if y.tag == "fld" and y.a[1:] == (1, 0) and y.a[0].tag == "app" and y.a[0].a[0].split("@")[0].endswith("str::find") and y.a[0].a[2] is Int(62) \
                and part(y.a[0].a[1], html) == (x, None):
            return x
    return None


def lowered(t, html):
    return t.tag == "app" and t.a[0].split("@")[0].endswith("::to_ascii_lowercase") and t.a[1] is html


ENDS = {62, 47, 32, 9, 10, 12, 13}


def candidates(html, f, kind):
    """elements tried as the start of a <head> tag and found not to be one, on the rounds of a search that did not stop"""
    for l, v in f.items():
        if l.tag in kind and v is True:
            for p in l.a[1]:
                srcs = [x.a[1] for x in p.a[3] if x.tag == "step" and x.a[2] == "elem"]
                if len(srcs) == 1 and occurrences(srcs[0], html):
                    yield l, p, mk("elem", p.a[3][0].a[0], srcs[0])


def occurrences(src, html):
    return src.tag == "app" and src.a[0].split("@")[0].endswith("::match_indices") and lowered(src.a[1], html) \
        and src.a[2].tag == "str" and src.a[2].a[0] in ('"<head"', "<head")


def rejected(p, start, html):
    """the facts of a search round show that no <head> tag starts there"""
    f = factsdict(p.a[1])
    out = set()
    for l, v in f.items():
        if v is False and l.tag == "lt" and is_pos(l.a[0], start) and l.a[1].tag == "len" and (lowered(l.a[1].a[0], html) or l.a[1].a[0] is html):
            return True
        if v is False and l.tag == "eq":
            for a, b in (l.a, l.a[::-1]):
                if b.tag == "int" and next_byte(a, start, html):
                    out.add(b.a[0])
    return out >= ENDS


def earlier_rejected(html, f, kind):
    by = {}
    for l, p, e in candidates(html, f, kind):
        by.setdefault(l, []).append(rejected(p, fld(e, 0, 0), html))
    return bool(by) and all(all(x) for x in by.values())


def none_found(html, f):
    """no <head> tag occurs, or the first one has no '>' behind it"""
    if earlier_rejected(html, f, ("forall",)):
        return True
    for l, v in f.items():
        if l.tag == "disceq" and l.a[1] == 1 and v is False:
            x = l.a[0]
            if x.tag == "app" and x.a[0].split("@")[0].endswith("str::find") and x.a[2] is Int(62):
                c = part(x.a[1], html)
                if c is not None and c[1] is None and head_tag(c[0], html, f):
                    return True
    return False


def is_pos(t, start):
    return t in (mk("bin", "Add", start, Int(5)), mk("bin", "Add", Int(5), start))


def head_tag(start, html, f):
    """start is where "<head" first occurs in the lower-cased page with a byte behind it that ends a tag name"""
    if start.tag != "fld" or start.a[1:] != (0, 0) or start.a[0].tag != "elem" or not occurrences(start.a[0].a[1], html):
        return False
    if not earlier_rejected(html, f, ("partial",)):
        return False
    return any(v is True and l.tag == "eq" and b.tag == "int" and b.a[0] in ENDS and next_byte(a, start, html)
               for l, v in f.items() for a, b in ((l.a, l.a[::-1]) if l.tag == "eq" else ()))


def next_byte(t, start, html):
    """t is the byte of the page five past start"""
    return t.tag == "sel" and (lowered(t.a[0], html) or t.a[0] is html) and is_pos(t.a[1], start)
