"""C18 and C30: the same specifications in other feature configurations and in release builds."""
import copy, re
from .common import *
from .. import strings
from . import arith, arith2, convert, floats, fromf64, roots, text, wide

SINGLE = {"r_i16": ["i16"], "r_i32": ["i32"], "r_i64": ["i64"], "r_i128": ["i128"], "r_i16_i32": ["i16", "i32"], "r_i32_i64": ["i32", "i64"],
          "n_i16": ["i16"], "n_i32": ["i32"], "n_i64": ["i64"], "n_i128": ["i128"], "s_i64": ["i64"], "s_i32": ["i32"], "s_i128": ["i128"]}


def recase(gen, cfg, layouts, keep=lambda lay, p: True, tier="quick"):
    """The cases of a property for these layouts, analysed in another configuration."""
    out = []
    for c in gen(tier):
        used = set(re.findall(r"FixedPoint::<(\w+),", c.src or ""))
        ps = {int(x) for x in re.findall(r"FixedPoint::<\w+, U(\d+)>", c.src or "")}
        if layouts and not used or not used <= set(layouts):
            continue
        if not all(keep(lay, p) for lay in used for p in ps):
            continue
        c = copy.copy(c)
        c.id = cfg + ":" + c.id
        c.cfg = cfg
        out.append(c)
    return out


def ends(lay, p):
    return p in (0, {"i16": 2, "i32": 4, "i64": 9, "i128": 18}[lay], MAXP[lay])


def memory_safe(cx, e, kind, val):
    if kind == "ub":
        cx.fail("undefined behaviour: %s" % val)
        return
    for t in strings.written(cx.st):
        if t.k == "c" and not 0 <= t.v < 128:
            cx.fail("the buffer holds a byte that is not ASCII")
        elif t.k == "p":
            cx.ge(cx.num(t.v), "the buffer holds a byte that is not ASCII")
            cx.ge(P.sub(127, cx.num(t.v)), "the buffer holds a byte that is not ASCII")
    cx.ge(0, "in bounds")


def c18(tier):
    out = []
    for cfg in ("all", "rel", "r_i16", "r_i32", "r_i64", "r_i128", "r_i16_i32", "r_i32_i64"):
        out += recase(text.c17, cfg, SINGLE.get(cfg, list(LAYOUTS)), tier=tier)
    out = [c for c in out if "Debug" not in c.id or tier != "quick"]
    for c in wide.c13(tier):
        if re.search("add|sub|mul_00|mul_11", c.id):
            out.append(copy.copy(c))
    for c in out:
        c.spec = memory_safe
    return out


def c30(tier):
    out = []
    def f64(tier):
        return [c for c in fromf64.c14("quick") if re.search("(102[23]|1075|2046|2047)$", c.id)]

    def root(tier):
        return [c for c in roots.c08("quick") if "rsqrt" in c.id]
    gens = [f64, root, floats.c15, arith2.c02, arith.c01, arith.c03, arith.c04, arith2.c05, arith2.c06, arith2.c07, arith2.c09, arith2.c10, arith2.c12, convert.c11, text.c16, text.c17, arith2.c28]
    for cfg in ("n_i16", "n_i32", "n_i64", "n_i128") + ("s_i64", "s_i32", "s_i128"):
        for g in gens:
            def keep(lay, p, g=g):
                return tier == "thorough" or ends(lay, p) or g in (arith2.c28, f64)
            out += recase(g, cfg, SINGLE[cfg], keep, tier)
    # without debug assertions and overflow checks
    for g in gens:
        out += recase(g, "rel", list(LAYOUTS), lambda lay, p, g=g: tier == "thorough" or ends(lay, p) or g is f64, tier)
    out += recase(wide.c13, "rel", (), tier=tier)
    return out
