"""Hash-consed terms: the value-numbering domain of the abstract interpreter."""


class T:
    __slots__ = ("tag", "a", "id", "_elems", "_has")

    def __repr__(self):
        return show(self)


_table = {}


VARS = ("elem", "phi", "base", "prev", "kappa")
_EMPTY = frozenset()


def _vars(x):
    if isinstance(x, T):
        return x._has
    if isinstance(x, tuple):
        r = _EMPTY
        for y in x:
            v = _vars(y)
            if v:
                r = r | v if r else v
        return r
    return _EMPTY


def mk(tag, *a):
    k = (tag, a)
    t = _table.get(k)
    if t is None:
        t = T()
        t.tag = tag
        t.a = a
        t.id = len(_table)
        t._elems = None
        r = _vars(a)
        if tag in VARS:
            r = r | {t}
        t._has = r
        _table[k] = t
    return t


UNIT = mk("agg", "tuple", 0)
TRUE = mk("bool", True)
FALSE = mk("bool", False)


def Bool(b):
    return TRUE if b else FALSE


def Int(n):
    return mk("int", n)


def agg(name, variant, *fields):
    return mk("agg", name, variant, *fields)


OPT = "std::option::Option"
NONE = agg(OPT, 0)


def Some(x):
    return agg(OPT, 1, x)


def tup(*xs):
    return agg("tuple", 0, *xs)


def app(f, *args):
    return mk("app", f, *args)


def fld(t, v, i):
    """Field i of variant v of t."""
    if t.tag == "agg":
        if t.a[1] == v or t.a[0] == "tuple":
            if 2 + i < len(t.a):
                return t.a[2 + i]
        return mk("badfld", t, v, i)
    if t.tag == "clo":
        return t.a[1 + i]
    if t.tag == "upd" :
        if (t.a[1], t.a[2]) == (v, i):
            return t.a[3]
        return fld(t.a[0], v, i)
    if t.tag in ("obj",):
        return t
    return mk("fld", t, v, i)


def upd(t, v, i, val):
    if t.tag == "agg" and 2 + i < len(t.a):
        a = list(t.a)
        a[2 + i] = val
        return mk("agg", *a)
    if t.tag == "clo":
        a = list(t.a)
        a[1 + i] = val
        return mk("clo", *a)
    return mk("upd", t, v, i, val)


def _walk(x, f):
    if isinstance(x, T):
        f(x)
    elif isinstance(x, tuple):
        for y in x:
            _walk(y, f)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)


_tags_cache = {}


def variables(t):
    """the elem/phi/base/prev subterms of t"""
    return _vars(t)


def subst(t, m, memo=None):
    """Replace terms by the mapping m: {id: T}."""
    if memo is None:
        memo = {}
    if not m:
        return t
    ids = memo.get("ids")
    if ids is None:
        ids = memo["ids"] = set(m)
        memo["slow"] = any(_by_id(i) for i in ids)
    slow = memo["slow"]

    def hit(h):
        for v in h:
            if v.id in ids:
                return True
        return False

    def go(x):
        if isinstance(x, tuple):
            return tuple([go(y) for y in x])
        if not isinstance(x, T):
            return x
        r = m.get(x.id)
        if r is not None:
            return r
        r = memo.get(x.id)
        if r is not None:
            return r
        if not slow and not (x._has and hit(x._has)):
            memo[x.id] = x
            return x
        na = tuple([go(y) for y in x.a])
        if all(p is q for p, q in zip(na, x.a)):
            r = x
        elif x.tag == "fld":
            r = fld(*na) if isinstance(na[0], T) else mk("fld", *na)
        elif x.tag == "facts":
            r = mk("facts", tuple(sorted(set(na[0]), key=lambda p: (p[0].id, p[1]))))
        else:
            r = mk(x.tag, *na)
        memo[x.id] = r
        return r
    return go(t)


_ids = {}


def _by_id(i):
    """is the term with this id something other than a variable?"""
    if len(_ids) != len(_table):
        for t in list(_table.values())[len(_ids):]:
            _ids[t.id] = t.tag not in VARS
    return _ids[i]


def mkfacts(d):
    return mk("facts", tuple(sorted(d.items(), key=lambda p: p[0].id)))


def factsdict(t):
    return dict(t.a[0])


def show(t, depth=6):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    g = t.tag
    if g in ("int", "bool", "flt", "str"):
        return str(t.a[0])
    if g == "param":
        return str(t.a[0])
    if g == "app":
        n = t.a[0].split("::")
        return "::".join(n[-2:]) + "(" + ", ".join(show(x, d) for x in t.a[1:]) + ")"
    if g == "agg":
        n = t.a[0].split("::")[-1]
        return n + "#" + str(t.a[1]) + "(" + ", ".join(show(x, d) for x in t.a[2:]) + ")"
    if g == "fld":
        return show(t.a[0], d) + "." + (("%d:" % t.a[1]) if t.a[1] else "") + str(t.a[2])
    if g == "elem":
        return "<e@" + str(t.a[0])[-14:] + " in " + show(t.a[1], d) + ">"
    if g == "snap":
        return "{" + t.a[0] + ":" + ";".join(show(x, d - 1) for x in t.a[1]) + "}"
    if g == "loop":
        return "Loop[%s %s %d paths]" % (str(t.a[0])[-16:], t.a[1], len(t.a[2]))
    if g == "facts":
        return "&".join(("" if v is True else "!" if v is False else str(v) + "=") + show(k, d) for k, v in t.a[0])
    if g == "base":
        return "^"
    if g == "item":
        return "item " + show(t.a[0], d)
    return g + "(" + ", ".join(show(x, d) for x in t.a) + ")"
