#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on /repo's current tree.

Exit 0: every obligation of the property is discharged (or only listed known findings are left).
Exit 1: VIOLATION lines name the constructs that break it."""
import hashlib
import json
import multiprocessing
import os
import re
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.setrecursionlimit(100000)
import extract                                       # noqa: E402
import engine                                        # noqa: E402
import hot                                           # noqa: E402
from engine import Program, Unsupported, Limit       # noqa: E402
from report import Report                            # noqa: E402
from registry import CHECKS                          # noqa: E402


CONFIGS = {"default": ((), False), "all-features": (("tracing", "matching-stats"), True),
           "logged": ((), True), "matching-stats": (("matching-stats",), False), "tracing": (("tracing",), True), "tracing-off": (("tracing",), False)}
QUICK = ["default", "all-features"]
WASM = ["default", "logged"]
UPPER_QUICK = ["default", "tracing"]
UPPER_THOROUGH = ["default", "tracing", "tracing-off"]
THOROUGH = ["default", "all-features", "matching-stats", "tracing", "tracing-off"]


def tree_hash(crate):
    h = hashlib.sha256()
    bases = [os.path.join(extract.REPO, b) for b in ("cinereus", "Cargo.toml", "Cargo.lock")]
    if crate != "cinereus":
        bases += [os.path.join(extract.REPO, "hotmeal/src"), os.path.join(extract.REPO, "hotmeal-server/src"), os.path.join(extract.REPO, "hotmeal-wasm/src"), extract.STUBS]
    for p in bases:
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) if "/target" not in d for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as g:
                h.update(g.read())
    with open(os.path.join(HERE, "driver/src/main.rs"), "rb") as g:
        h.update(g.read())
    with open(os.path.join(HERE, "lib/extract.py"), "rb") as g:
        h.update(g.read())
    return h.hexdigest()[:24]


def load(crate, features, key):
    os.makedirs(extract.CACHE, exist_ok=True)
    f = os.path.join(extract.CACHE, "mir-%s-%s-%s.json" % (key, crate, "+".join(features) or "none"))
    if os.path.exists(f):
        with open(f) as g:
            return json.load(g)
    d = extract.dump_cinereus(features) if crate == "cinereus" else extract.dump_upper(crate, features)
    tmp = f + ".tmp%d" % os.getpid()
    with open(tmp, "w") as g:
        json.dump(d, g)
    os.rename(tmp, f)
    old = sorted((x for x in os.listdir(extract.CACHE) if x.startswith("mir-") and x.endswith(".json")),
                 key=lambda x: os.path.getmtime(os.path.join(extract.CACHE, x)))
    for x in old[:-16]:
        try:
            os.unlink(os.path.join(extract.CACHE, x))
        except OSError:
            pass
    return d


def key_of(v):
    """a violation without line numbers"""
    s = v["rule"] + " | " + re.sub(r":\d+(:\d+)?\)", ")", v["where"])
    return s


JOBS = []


def analyse(i):
    """one property in one feature configuration (in a forked process)"""
    sys.setrecursionlimit(100000)
    prop, c, dump = JOBS[i]
    engine.Interp.tracing = CONFIGS[c][1]
    if CHECKS[prop].get("crate", "cinereus") == "hotmeal":
        dump = hot.prepare(dump)
    prog = Program(dump)
    rep = Report(prop)
    for fn in CHECKS[prop]["run"]:
        try:
            fn(rep, prog)
        except (Unsupported, Limit) as e:
            rep.fail("the code has a form the rules can follow", getattr(fn, "__name__", "?"), str(e)[:400])
        except Exception as e:
            traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.fail("the code has a form the rules can follow", getattr(fn, "__name__", "?"),
                     "%s: %s at %s:%d" % (type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno))
    for v in rep.viol:
        v["config"] = c
    return rep


def run_jobs(jobs):
    JOBS[:] = jobs
    with ProcessPoolExecutor(min(len(jobs), 5), mp_context=multiprocessing.get_context("fork")) as ex:
        return list(ex.map(analyse, range(len(jobs))))


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = CHECKS[prop]
    crate = spec.get("crate", "cinereus")
    configs = {"cinereus": (QUICK, THOROUGH), "hotmeal-wasm": (WASM, WASM)}.get(crate, (UPPER_QUICK, UPPER_THOROUGH))[tier == "thorough"]
    th = tree_hash(crate)
    feats = sorted({CONFIGS[c][0] for c in configs})
    extract.driver()
    with ThreadPoolExecutor(4) as ex:
        dumps = dict(zip(feats, ex.map(lambda f: load(crate, f, th), feats)))
    total = Report(prop)
    per = {}
    jobs = [(prop, c, dumps[CONFIGS[c][0]]) for c in configs]
    for c, rep in zip(configs, run_jobs(jobs)):
        per[c] = rep
        total.merge(rep)
    # summaries must agree between feature sets
    base = getattr(per[configs[0]], "summary", None)
    if base is not None:
        for c in configs[1:]:
            other = per[c].summary
            for k in sorted(set(base) | set(other)):
                ok = base.get(k) == other.get(k)
                total.check(ok, "a function does the same with every feature set", k.split("|")[0].split("::", 1)[-1],
                            "%s and %s differ in %d of %d cases" % (configs[0], c, len(set(base.get(k, [])) ^ set(other.get(k, []))), len(other.get(k, []))))
    for v in total.viol:
        v.setdefault("config", "all")
    # known findings
    known = {}
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        with open(kf) as f:
            for k in json.load(f)["known"]:
                if k["property"] == prop:
                    known[k["key"]] = k
    viol, seen = [], set()
    for v in total.viol:
        k = key_of(v)
        if k in seen:
            continue
        seen.add(k)
        v["key"] = k
        viol.append(v)
    news = [v for v in viol if v["key"] not in known]
    for v in viol:
        if v["key"] in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[v["key"]]["what"]))
    ob = total.obl
    rules = {}
    for r, w, ok in ob:
        x = rules.setdefault(r, [0, 0])
        x[0] += 1
        x[1] += bool(ok)
    floor = spec.get("floor", 1)
    if len(per[configs[0]].obl) < floor and not news:
        v = {"rule": "the rule finds the constructs it is about", "where": crate, "why":
             "only %d obligations, at least %d were confirmed by hand" % (len(per[configs[0]].obl), floor), "config": configs[0]}
        v["key"] = key_of(v)
        news.append(v)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 2),
        "violations": len(news),
        "coverage": {
            "explanation": "Static analysis of the type-checked program (MIR with resolved callees): abstract interpretation of the named "
                           "roots over all paths and loop iterations, one obligation per rule and construct. Analysed: "
                           "%d functions, %d call sites, %d paths in %d feature configurations; %d obligations, %d discharged."
                           % (len(total.cover["functions"]), total.cover["call_sites"], total.cover["paths"], len(configs), len(ob),
                              sum(1 for o in ob if o[2])),
            "rules": {k: {"obligations": a, "discharged": b} for k, (a, b) in sorted(rules.items())},
            "roots": sorted(set(total.cover["roots"])),
            "functions_analysed": sorted(total.cover["functions"]),
            "call_sites": total.cover["call_sites"], "paths": total.cover["paths"],
            "obligations": len(ob), "discharged": sum(1 for o in ob if o[2]),
            "configurations": {c: {"features": list(CONFIGS[c][0]), "obligations": len(per[c].obl), "open": len(per[c].viol)} for c in configs},
            "sites": sorted({w for _, w, _ in ob})[:60],
            "crate": crate,
            "source_hash": th,
        },
        "assumptions": spec.get("assumptions", []),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for c in configs:
        print("%s [%s]: %d obligations, %d open" % (prop, c, len(per[c].obl), len(per[c].viol)))
    rp = os.path.join("evidence", prop + ".violations.json")
    full = os.path.join(HERE, rp)
    if os.path.exists(full):
        os.unlink(full)
    if news:
        with open(full, "w") as f:
            json.dump(news, f, indent=1)
        for v in news[:20]:
            print("  rule: %s\n    at: %s\n    why: %s" % (v["rule"], v["where"], v["why"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s (%.1fs)" % (prop, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except extract.ExtractError as e:
        print("the crate could not be type-checked: %s" % e)
        rc = 2
    sys.exit(rc)
