"""Entry point of every registered check:  python3 -m sa.main C03 --tier quick"""
import argparse, json, multiprocessing as mp, os, re, signal, sys, time, traceback, shutil
from . import build
from .mir import Dump
from .check import analyse

VERIF = build.VERIF
CFG = {
    "all": (["i16", "i32", "i64", "i128", "serde", "parity", "schemars"], True),
    "xml": (["i16", "i32", "i64", "i128", "serde", "quick-xml"], True),
    "nostd": (["i16", "i32", "i64", "i128"], False),
    "rel": (["i16", "i32", "i64", "i128"], True),
    "r_i16": (["i16"], True), "r_i32": (["i32"], True), "r_i64": (["i64"], True), "r_i128": (["i128"], True), "r_i16_i32": (["i16", "i32"], True), "r_i32_i64": (["i32", "i64"], True),
    "n_i16": (["i16"], False), "n_i32": (["i32"], False), "n_i64": (["i64"], False), "n_i128": (["i128"], False),
    "s_i32": (["i32"], True), "s_i64": (["i64"], True), "s_i128": (["i128"], True),
}
PRELUDE = """#![allow(dead_code, unused_imports, clippy::all)]
use fixnum::{*, ops::*, typenum::*};
use fixnum::ops::{Zero, One, Bounded};
use core::cmp::{Ord, PartialOrd};
type R<T> = Result<T, ArithmeticError>;
type C<T> = Result<T, ConvertError>;
"""
TOTAL = float(os.environ.get("SA_TOTAL", "600" if "thorough" not in sys.argv and os.environ.get("VERIF_TIER") != "thorough" else "760"))
DUMPS = {}
CASES = []
T0 = time.time()


class Stuck(BaseException):
    pass


def stuck(*_):
    raise Stuck


def results():
    """(case number, result, error) of every case; whatever doesn't answer in time is not analysed."""
    if os.environ.get("SA_INLINE"):
        yield from map(worker, range(len(CASES)))
        return
    left = set(range(len(CASES)))
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 8)) as pool:
        it = pool.imap_unordered(worker, range(len(CASES)), 1)
        try:
            while left:
                r = it.next(timeout=max(1, TOTAL + 40 - (time.time() - T0)))
                left.discard(r[0])
                yield r
        except mp.TimeoutError:
            pool.terminate()
    for i in sorted(left):
        yield i, None, "not analysed: no answer in time"


def worker(i):
    c = CASES[i]
    left = TOTAL - (time.time() - T0)
    if left < 5:
        return i, None, "not analysed: the time of this check ran out"
    budget = min(left, c.opts.get("budget", 150))
    signal.signal(signal.SIGALRM, stuck)
    signal.alarm(int(budget) + 30)
    try:
        r = analyse(DUMPS[c.cfg], c, budget=budget)
        for k, v in list(r.__dict__.items()):
            if k in ("gaps", "open"):
                r.__dict__[k] = [(str(a)[:300], str(b)[:200]) for a, b in v][:6]
        return i, r, None
    except Stuck:
        return i, None, "not analysed: the analysis of this case doesn't end"
    except Exception:
        return i, None, traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)


def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for f in json.load(open(p))["findings"]:
            if f["property"] == prop:
                out.append(f)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from .props import registry, common
    prop = registry.PROPS[a.prop]
    violations = []         # dicts: what, where, key, ...
    undecided = []
    rules = []
    global CASES
    cases = [c for f in prop.cases for c in f(a.tier) if a.only in c.id]
    seen = {}
    for c in cases:
        seen.setdefault(c.id, c)
    cases = list(seen.values())
    by = {}
    for c in cases:
        by.setdefault(c.cfg, []).append(c)
    for cfg in list(by) + [x for x in prop.cfgs if x not in by]:
        feats, deflt = CFG[cfg]
        srcs = []
        for c in by.get(cfg, []):
            srcs += [x for x in (c.src or "").split("\x00") if x and x not in srcs]
        srcs += prop.sources.get(cfg, [])
        name = "vharness_%s_%s" % (a.prop.lower(), cfg)
        try:
            d = build.dump(name, PRELUDE + "\n".join(sorted(srcs)), feats, default_features=deflt, deps=prop.deps, release=cfg == "rel" or cfg.startswith("r_"))
            DUMPS[cfg] = Dump(d)
        except build.BuildError as e:
            violations.append({"key": "harness", "what": "the analysed entry points do not type-check against the tree (public API changed or const evaluation fails)",
                               "where": [], "detail": str(e)[-3000:]})
    CASES = [c for c in cases if c.cfg in DUMPS]
    CASES.sort(key=lambda c: -c.opts.get("cost", 0))
    stats = {"absent": 0, "cases": len(cases), "proved": 0, "paths": 0, "obligations": 0, "discharged": 0, "lp": 0, "steps": 0}
    fns = set()
    details = []
    if CASES:
        if True:
            for i, r, err in results():
                c = CASES[i]
                if a.v:
                    print(c.id, "ERR" if err else "PROVED" if r.proved else "VIOL" if r.violation else "OPEN",
                          "" if err else "%.1fs paths=%d obl=%d/%d" % (r.time, r.paths, r.ok, r.obl), flush=True)
                    if err:
                        print("   ", err.strip().splitlines()[-1][:300])
                    elif not r.proved:
                        for g in r.gaps[:2]:
                            print("    gap", g)
                        for g in r.open[:3]:
                            print("    open", g)
                        if r.violation:
                            print("    ", r.violation["what"], r.violation["inputs"], r.violation["value"], r.violation["where"][-2:])
                if err:
                    if err.startswith("Traceback") and "is missing" in err and c.fn[0] == "=" and c.id.startswith("c13_"):
                        details.append({"case": c.id, "verdict": "not needed: nothing reachable calls this function"})
                        stats["absent"] += 1
                    elif err.startswith("Traceback") and "is missing" in err and c.fn[0] not in "=~":
                        violations.append({"key": "anchor:" + c.fn, "what": "entry point is missing from the analysed program", "where": [c.fn]})
                    else:
                        undecided.append({"case": c.id, "why": err})
                    continue
                stats["paths"] += r.paths
                stats["obligations"] += r.obl + len(r.gaps)
                stats["discharged"] += r.ok
                stats["lp"] += r.lp
                stats["steps"] += r.steps
                fns |= {x for x in r.fns if "fixnum" in x}
                d = {"case": c.id, "paths": r.paths, "obligations": r.obl, "discharged": r.ok, "seconds": round(r.time, 2)}
                if r.proved:
                    common.COVERED.update((c.cfg, x) for x in r.fns)
                    stats["proved"] += 1
                    d["verdict"] = "proved"
                elif r.violation:
                    v = dict(r.violation)
                    v["key"] = "case:%s:%s" % (c.id, re.sub(r"-?\d+", "N", v["what"]))
                    v["open"] = r.open[:3]
                    violations.append(v)
                    d["verdict"] = "violated"
                else:
                    undecided.append({"case": c.id, "why": (r.gaps + r.open)[:3]})
                    d["verdict"] = "undecided"
                details.append(d)
    for rule in prop.rules:
        try:
            rr = rule(DUMPS, a.tier)
        except Exception:
            undecided.append({"rule": rule.__name__, "why": traceback.format_exc()[-1500:]})
            if a.v:
                print("RULE ERR", rule.__name__, traceback.format_exc())
            continue
        rules.append({"rule": rule.__name__, "about": (rule.__doc__ or "").strip(), "sites": rr.sites[:400], "checked": rr.n, "holding": rr.ok})
        stats["obligations"] += rr.n
        stats["discharged"] += rr.ok
        violations += rr.violations
        undecided += rr.undecided
        if a.v:
            print("RULE", rule.__name__, rr.ok, "/", rr.n, "violations", len(rr.violations), "undecided", len(rr.undecided))
            for x in rr.undecided:
                print("     UNDECIDED", x)
    kf = known(a.prop)
    listed, fresh = [], []
    for v in violations:
        m = [f for f in kf if f.get("key") and re.fullmatch(f["key"], v["key"])]
        (listed if m else fresh).append((v, m[0] if m else None))
    rc = 0
    for f in {m["key"]: m for _, m in listed}.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, f["what"]))
    paths = []
    rdir = os.path.join(VERIF, "work", "replay")
    os.makedirs(rdir, exist_ok=True)
    for n, (v, _) in enumerate(fresh[:5]):
        p = os.path.join(rdir, "%s-%d.json" % (a.prop, n))
        json.dump(dict(v, property=a.prop, how="static analysis of the current tree; 'where' is the call path of the analysed code, 'inputs' the class of inputs that violates"), open(p, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (a.prop, p))
        print("  %s: %s" % (v["key"], v["what"]))
        if v.get("inputs"):
            print("  inputs %s -> %s" % (v["inputs"], v.get("value")))
        for w in v.get("where", [])[-3:]:
            print("  at %s" % (w,))
        for w in v.get("functions", [])[:6]:
            print("  through %s" % (w,))
        paths.append(p)
        rc = 1
    total = max(1, stats["obligations"])
    complete = not undecided and not violations
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": prop.level,
        "coverage": {
            "obligations": stats["obligations"], "discharged": stats["discharged"],
            "checker_cmd": "python3 -m sa.main %s --tier %s" % (a.prop, a.tier),
            "trusted_base": ["rustc nightly front end (type checking, MIR building, constant evaluation)", "driver/mirdump.rs (MIR serialisation)",
                             "sa/interp.py transfer functions and sa/lp.py, sa/poly.py, sa/state.py (exact rational arithmetic)",
                             "models of core/alloc library functions in sa/interp.py"] + prop.trusted,
            "cases": len(cases), "cases_proved": stats["proved"], "lemmas_not_needed": stats["absent"], "paths": stats["paths"], "abstract_steps": stats["steps"], "lp_calls": stats["lp"],
            "functions_analysed": sorted(fns)[:300], "rules": rules, "undecided": undecided[:50], "case_details": details[:600],
            "configurations": {k: CFG[k][0] for k in DUMPS},
            "complete": complete, "violation_details": [{"replay": p, "what": v["what"], "key": v["key"]} for p, (v, _) in zip(paths, fresh)],
        },
        "wall_s": round(time.time() - T0, 1),
        "assumptions": prop.assumptions + ([] if not undecided else ["%d obligations groups stayed undecided in this run and are not claimed (see undecided)" % len(undecided)]),
        "violations": len(fresh),
    }
    if prop.level == "other":
        ev["coverage"]["explanation"] = "; ".join("%s: %d of %d hold. %s" % (x["rule"], x["holding"], x["checked"], x["about"]) for x in rules)
    if rules and not cases:
        ev["coverage"]["cases"] = 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d cases (%d proved), %d/%d obligations discharged, %d rules, %d undecided, %d violations, %.1fs" % (
        a.prop, a.tier, len(cases), stats["proved"], stats["discharged"], stats["obligations"], len(rules), len(undecided), len(fresh), time.time() - T0))
    for u in undecided[:10]:
        print("  undecided:", str(u)[:300])
    return rc


if __name__ == "__main__":
    sys.exit(main())
