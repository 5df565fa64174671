"""Obligations, violations and their source locations."""
from term import *


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obl = []          # (rule, where, ok)
        self.viol = []         # dict(rule, where, why)
        self.cover = {"functions": set(), "call_sites": 0, "paths": 0, "roots": []}
        self.samples = []
        self.assumptions = []
        self.rules = []

    def use(self, root, label=None):
        it = root.it
        self.cover["functions"] |= set(it.functions) | {root.body["d"]}
        self.cover["call_sites"] += len(it.callsites)
        self.cover["paths"] += it.npaths
        self.cover["roots"].append(label or short(root.body["p"]))

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def check(self, ok, rule, where, why=""):
        self.obl.append((rule, where, bool(ok)))
        if not ok:
            self.viol.append({"rule": rule, "where": where, "why": why})
        return ok

    def fail(self, rule, where, why=""):
        return self.check(False, rule, where, why)

    def all_reached(self, prog, its, mark):
        lost = unreached(prog, its, lambda n: n.endswith(mark))
        self.check(not lost, "every %s in the analysed functions lies on an analysed path" % mark.strip(":"),
                   "%s (%s)" % lost[0] if lost else its[0].functions and "all functions", "no analysed path gets there")

    def merge(self, other):
        self.obl += other.obl
        self.viol += other.viol
        self.cover["functions"] |= other.cover["functions"]
        self.cover["call_sites"] += other.cover["call_sites"]
        self.cover["paths"] += other.cover["paths"]
        self.cover["roots"] += other.cover["roots"]
        for x in other.rules:
            self.rule(x)


def short(p):
    return p.split("::", 1)[-1] if isinstance(p, str) else str(p)


def where(it, site):
    """function and line of a site, followed by the call chain that reached it"""
    if site is None:
        return "?"
    s = str(site).split("~")[0].split("@")[0]
    out = []
    seen = 0
    while s and s in it.sites and seen < 8:
        fn, span = it.sites[s]
        out.append("%s (%s)" % (short(fn), span))
        fr = s.split(".")[0]
        s = it.frame_parent.get(fr)
        seen += 1
    return " <- ".join(out) if out else str(site)


def fshow(facts, n=5, depth=6):
    items = facts.items() if isinstance(facts, dict) else facts
    xs = ["%s%s" % ("" if v is True else "!" if v is False else "%s=" % v, show(l, depth)) for l, v in items
          if l.tag not in ("forall", "partial")]
    return " & ".join(xs[:n]) + (" & ..." if len(xs) > n else "")


def unreached(prog, its, marked):
    """Blocks of the analysed functions that no analysed path reaches and from which a marked construct is called or built
    (directly, or in a local function or closure only used there): [(function, span)].  An analysis that loses paths to them
    would have nothing to say about them, so they count as undecided."""
    seen = set()
    for it in its:
        seen |= it.blocks_seen
    fns = {d for d, _ in seen}
    memo = {}

    def uses(bl):
        for s in bl["s"]:
            if s[0] == "=" and s[2][0] == "agg":
                k = s[2][1]
                if k[0] == "adt" and marked(k[1]):
                    return True
                if k[0] == "closure" and body_uses(k[1]):
                    return True
        t = bl["t"]
        if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
            c = t[1][1]["fn"]
            r = c.get("r")
            if marked(prog.nname((r or c)["p"])):
                return True
            return body_uses(r["d"] if r else c["d"])
        return False

    def body_uses(key):
        if key in fns:
            return False
        if key not in memo:
            memo[key] = False
            b = prog.bodies.get(key)
            memo[key] = b is not None and b["local"] and any(uses(bl) for bl in b["blocks"] if not bl["c"])
        return memo[key]

    out = []
    for d in sorted(fns):
        b = prog.bodies.get(d)
        if b is None:                                                # a named constant
            continue
        for i, bl in enumerate(b["blocks"]):
            if not bl["c"] and (d, i) not in seen and uses(bl):
                out.append((b["p"], bl["t"][5] if bl["t"][0] == "call" else b["span"]))
    return out
