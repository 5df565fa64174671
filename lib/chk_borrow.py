"""Guards of RefCells: which are alive where. A forward dataflow over the compiler's intermediate representation with a summary per function."""
import re

from report import *

GUARD = re.compile(r"\bcell::(Ref|RefMut)<")
BORROW = {"borrow": "r", "borrow_mut": "w", "replace": "W", "replace_with": "W", "swap": "W", "take": "W", "try_borrow": "tr", "try_borrow_mut": "tw"}
CELL = re.compile(r"^(?:std|core)::cell::RefCell::<T>::(\w+)$|^<(?:std|core)::cell::RefCell<T> as std::clone::Clone>::(clone)$")
DEPTH = 4


def local_of(op):
    """the place an operand names"""
    return op[1] if op[0] in ("c", "m") else None


class Fn:
    """one function: what it borrows, what it hands out, what it holds while it borrows"""

    def __init__(self, an, b):
        self.an, self.b, self.prog = an, b, an.prog
        self.acq, self.ret, self.clash = set(), set(), {}
        self.defs = {}
        for bb in b["blocks"]:
            if bb["c"]:
                continue
            for s in bb["s"]:
                if s[0] == "=" and not s[1][1]:
                    self.defs.setdefault(s[1][0], []).append(s[2])
            t = bb["t"]
            if t[0] == "call" and not t[3][1]:
                self.defs.setdefault(t[3][0], []).append(("call", t))

    def ty(self, l):
        return self.prog.types[self.b["locals"][l][0]].get("s", "")

    def path(self, place, depth=0):
        """where a place is, counted from parameters, statics and variables of its own"""
        l, pr = place
        proj = tuple(p if isinstance(p, str) else tuple(p[:2]) for p in pr)
        if l == 2 and self.b["d"] in self.an.tls:
            return norm((("tls", self.an.tls[self.b["d"]]),) + proj)
        if 1 <= l <= self.b["argc"]:
            return norm((("p", l),) + proj)
        ds = self.defs.get(l, [])
        if len(ds) == 1 and depth < 24:
            d = ds[0]
            if d[0] == "use" and d[1][0] in ("c", "m"):
                return norm(self.path(d[1][1], depth + 1) + proj)
            if d[0] == "ref":
                inner = self.path(d[2], depth + 1)
                return norm(inner + ("&",) + proj)
            if d[0] == "call":
                n = callee(d[1])
                if n and n.split("::")[-1] in ("deref", "deref_mut", "as_ref", "borrow", "clone", "as_mut", "unwrap", "expect") and d[1][2] and local_of(d[1][2][0]) and not CELL.match(n):
                    return norm(self.path(local_of(d[1][2][0]), depth + 1) + ("~",) + proj)
            if d[0] == "cast" and d[2][0] in ("c", "m"):
                return norm(self.path(d[2][1], depth + 1) + proj)
        return norm((("v", self.b["d"], l),) + proj)

    def closure(self, op):
        """(closure function, captured paths) of an operand that is, or contains, a closure of this body"""
        pl = local_of(op)
        out = []
        if pl is None:
            return out
        for d in self.an.closures_in(self.b["locals"][pl[0]][0]):
            caps = None
            for l, ds in self.defs.items():
                for x in ds:
                    if x[0] == "agg" and x[1][0] == "closure" and x[1][1] == d:
                        caps = [self.path(local_of(o)) if local_of(o) else None for o in x[2]]
            out.append((d, caps))
        return out

    def subst(self, p, args):
        """a callee's path as seen here"""
        if p and p[0] and p[0][0] == "p":
            a = args.get(p[0][1])
            return norm(a + p[1:]) if a is not None else (("?",),) + p[1:]
        return p

    def calls(self, t):
        """the functions a call runs, each with its arguments as paths"""
        f = t[1]
        out = []
        if f[0] == "k" and "fn" in f[1]:
            r = f[1]["fn"].get("r") or f[1]["fn"]
            b = self.prog.bodies.get(r.get("d")) or self.prog.bodies.get(f[1]["fn"].get("d"))
            if b is not None and b["local"]:
                out.append((b["d"], {i + 1: self.path(local_of(o)) for i, o in enumerate(t[2]) if local_of(o)}, True))
        n = callee(t)
        for o in t[2]:
            for d, caps in self.closure(o):
                args = {}
                env = norm((("env", d),))
                args[1] = env
                out.append((d, args, False, caps))
        return out

    def run(self):
        self.acq0, self.ret0 = set(), set()
        self.clash = {}
        n = len(self.b["blocks"])
        inn = [None] * n
        inn[0] = frozenset()
        work = [0]
        while work:
            i = work.pop()
            out = self.block(self.b["blocks"][i], inn[i])
            for j in self.prog.succs(self.b["blocks"][i]):
                new = out if inn[j] is None else inn[j] | out
                if new != inn[j]:
                    inn[j] = new
                    work.append(j)
        ch = (self.acq0, self.ret0) != (self.acq, self.ret)
        self.acq, self.ret = self.acq0, self.ret0
        return ch

    def move(self, st, src, dst):
        return frozenset((dst if h == src else h, c, k, w) for h, c, k, w in st)

    def free(self, st, l):
        return frozenset(x for x in st if x[0] != l)

    def rvalue(self, st, dst, rv):
        ops = []
        if rv[0] in ("use",):
            ops = [rv[1]]
        elif rv[0] == "agg":
            ops = rv[2]
        elif rv[0] == "cast":
            ops = [rv[2]]
        for o in ops:
            if o[0] == "m":
                st = self.move(st, o[1][0], dst)
        return st

    def touch(self, st, cell, kind, where, via=None):
        """the cell is borrowed here while these guards are alive"""
        self.an.borrows.add((self.b["d"], where))
        for h, c, k, w in st:
            if kind in ("tr", "tw"):
                continue
            if kind == "r" and k == "r":
                continue
            if self.an.same(c, cell):
                self.clash[(where, show_path(cell), w)] = via or self.b["p"]
        self.acq0.add((cell, kind))

    def block(self, bb, st):
        for s in bb["s"]:
            if s[0] == "=":
                st = self.rvalue(st, s[1][0], s[2])
            elif s[0] == "dead":
                st = self.free(st, s[1])
        t = bb["t"]
        if t[0] == "drop":
            return self.free(st, t[1][0])
        if t[0] == "ret":
            for h, c, k, w in st:
                if h == 0:
                    self.ret0.add((c, k))
            return st
        if t[0] != "call":
            return st
        where = t[5] if len(t) > 5 else ""
        n = callee(t)
        dst = t[3][0]
        m = CELL.match(n) if n else None
        if m and (m.group(1) or m.group(2)) in BORROW or m and m.group(2):
            kind = "r" if m.group(2) else BORROW[m.group(1)]
            cell = self.path(local_of(t[2][0])) if local_of(t[2][0]) else (("?",),)
            self.touch(st, cell, "w" if kind == "W" else kind, where)
            if not m.group(2) and kind != "W":
                st = st | {(dst, cell, kind[-1], where)}
            return st
        new = set()
        for c in self.calls(t):
            d, args = c[0], c[1]
            f = self.an.fns.get(d)
            if f is None:
                continue
            caps = c[3] if len(c) > 3 else None

            def here(p):
                if caps is not None and p and p[0] == ("p", 1):
                    q = [x for x in p[1:] if x != "*"]
                    if q and isinstance(q[0], tuple) and q[0][0] == "f" and q[0][1] < len(caps) and caps[q[0][1]] is not None:
                        rest = p[list(p).index(q[0]) + 1:]
                        return norm(caps[q[0][1]] + rest)
                return self.subst(p, args)
            for cell, kind in sorted(f.acq, key=str):
                self.touch(st, here(cell), kind, where, f.b["p"])
            for cell, kind in f.ret:
                new.add((dst, here(cell), kind, where))
        for o in t[2]:
            if o[0] == "m" and any(x[0] == o[1][0] for x in st):
                if GUARD.search(self.ty(dst)) or "impl " in self.ty(dst) and "Deref" in self.ty(dst):
                    st = self.move(st, o[1][0], dst)
                else:
                    st = self.free(st, o[1][0])
        return st | new


def callee(t):
    f = t[1]
    if f[0] == "k" and "fn" in f[1]:
        return (f[1]["fn"].get("r") or f[1]["fn"]).get("p") or f[1]["fn"]["p"]
    return None


def key_of(fn, op):
    """which thread local"""
    pl = local_of(op)
    k = op[1] if op[0] == "k" else None
    while k is None and pl is not None:
        ds = fn.defs.get(pl[0], [])
        if len(ds) != 1:
            return None
        d = ds[0]
        if d[0] == "use" and d[1][0] == "k":
            k = d[1][1]
        else:
            pl = local_of(d[1]) if d[0] == "use" else d[2] if d[0] == "ref" else None
    if k is None:
        return None
    if "promoted" in k:
        b = fn.prog.bodies.get("%s#p%d" % (k["of"], k["promoted"]))
        for bb in b["blocks"] if b else ():
            for s in bb["s"]:
                if s[0] == "=" and s[2][0] == "use" and s[2][1][0] == "k" and "def" in s[2][1][1]:
                    return s[2][1][1]["def"]
        return None
    return k.get("def") or k.get("static")


def norm(p):
    """& and * cancel out"""
    out = []
    for x in p:
        if x == "*" and out and out[-1] in ("&",):
            out.pop()
        else:
            out.append(x)
    return tuple(out)


def bare(p):
    """the path without the references on the way"""
    return tuple(x for x in p if x not in ("*", "&", "~"))


def show_path(p):
    return ".".join(str(x[1]) if isinstance(x, tuple) and len(x) > 1 else str(x[0]) if isinstance(x, tuple) else x for x in bare(p))


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.borrows = set()
        self._cl = {}
        self.fns = {b["d"]: Fn(self, b) for b in prog.bodies.values() if b["local"] and b.get("blocks") and "::tests::" not in b["p"]}
        self.tls = {}
        for f in self.fns.values():
            for bb in f.b["blocks"]:
                t = bb["t"]
                n = callee(t) if t[0] == "call" else None
                if n and n.startswith("std::thread::LocalKey::<") and n.endswith("::with"):
                    k = key_of(f, t[2][0])
                    for d, _ in f.closure(t[2][1]):
                        if k:
                            self.tls[d] = k
        for _ in range(30):
            ch = [f.run() for f in self.fns.values()]
            if not any(ch):
                break
        else:
            raise RuntimeError("no fixpoint")

    def closures_in(self, ty, depth=0):
        k = ty
        if k in self._cl:
            return self._cl[k]
        self._cl[k] = ()
        out = []
        t = self.prog.types[ty]
        if t["k"] == "closure":
            out.append(t["d"])
        if depth < DEPTH:
            for x in list(t.get("a", ())) + ([t["t"]] if "t" in t else []):
                if isinstance(x, int):
                    out += self.closures_in(x, depth + 1)
        self._cl[k] = tuple(dict.fromkeys(out))
        return self._cl[k]

    def same(self, a, b):
        a, b = bare(a), bare(b)
        if a == b:
            return True
        if ("?",) in (a[:1] and a[0], b[:1] and b[0]):
            return a[1:] == b[1:] and a[1:] != ()
        return False


def x_borrow(rep, prog):
    an = Analysis(prog)
    for d, f in sorted(an.fns.items()):
        for (where, cell, since), via in sorted(f.clash.items()):
            rep.check(False, "no RefCell is borrowed again while a guard of it is alive that rules this out", "%s (%s)" % (f.b["p"], where), "%s is borrowed here (in %s) while the guard taken at %s is alive" % (cell, via, since))
    for d, where in sorted(an.borrows):
        rep.check(True, "a borrow of a RefCell", "%s (%s)" % (an.fns[d].b["p"], where))
    rep.cover["functions"] |= set(an.fns)
    rep.cover["call_sites"] += len(an.borrows)


ADDRESS = re.compile(r"ptr::(?:const_ptr|mut_ptr|non_null)?.*::(addr|expose_provenance|expose_addr|offset_from|byte_offset_from|align_offset|is_aligned)$|cmp::(?:Partial)?Ord for \*|<\*(?:const|mut) .* as std::(?:cmp::(?:Partial)?Ord|hash::Hash|fmt::Pointer)>|^(?:std|core)::ptr::hash$|as std::fmt::Pointer>::fmt$|::new_pointer$")


def x_address(rep, prog):
    """where something lives in memory never becomes a value"""
    n = 0
    for b in prog.bodies.values():
        if not b["local"] or not b.get("blocks") or "::tests::" in b["p"]:
            continue
        n += 1
        rep.cover["functions"].add(b["d"])
        for bb in b["blocks"]:
            if bb["c"]:
                continue
            for s in bb["s"]:
                if s[0] != "=":
                    continue
                rv, at = s[2], "%s (%s)" % (b["p"], s[3] if len(s) > 3 else "")
                if rv[0] == "cast":
                    src = optype(prog, b, rv[2])
                    dst = prog.types[rv[3]].get("s", "") if len(rv) > 3 and isinstance(rv[3], int) else ""
                    made = "PointerExpose" in str(rv[1]) or "Transmute" in str(rv[1]) and pointer(src) and re.fullmatch(r"[iu](?:8|16|32|64|128|size)", dst)
                    rep.check(not made, "no address is made a number", at, str(rv[1]))
                if rv[0] == "bin" and rv[1] in ("Lt", "Le", "Gt", "Ge", "Cmp"):
                    src = optype(prog, b, rv[2])
                    rep.check(not src.startswith("*"), "no addresses are ordered", at, src)
            t = bb["t"]
            if t[0] == "call":
                c = callee(t)
                g = t[1][1]["fn"].get("a", []) if c else []
                by = any(isinstance(x, int) and prog.types[x].get("s", "").startswith("*") for x in g) and re.search(r"(_by_key|::sort\w*|::cmp|::partial_cmp|::hash\w*|::max\w*|::min\w*|::insert|::entry|::collect)$", c)
                if c and (by or ADDRESS.search(c)):
                    rep.check(False, "no address is made a value", "%s (%s)" % (b["p"], t[5] if len(t) > 5 else ""), c)
    rep.check(n > 0, "functions are looked at", "%d functions" % n)


def pointer(s):
    return s.startswith(("*", "&"))


def optype(prog, b, op):
    if op[0] in ("c", "m"):
        l, pr = op[1]
        return prog.types[b["locals"][l][0]].get("s", "") if not pr else ""
    return prog.types[op[1]["ty"]].get("s", "") if isinstance(op[1].get("ty"), int) else ""
