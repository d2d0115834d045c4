"""Building blocks shared by the specifications."""
from .. import poly as P
from ..check import *

LAYOUTS = {"i16": 16, "i32": 32, "i64": 64, "i128": 128}
MAXP = {"i16": 4, "i32": 9, "i64": 18, "i128": 38}
QUICKP = {"i16": [0, 1, 2, 4], "i32": [0, 4, 9], "i64": [0, 2, 9, 18], "i128": [0, 9, 18, 38]}
MODES = {"Ceil": CEIL, "Nearest": NEAREST, "Floor": FLOOR}
OVERFLOW, DIVZERO, DOMAIN = 0, 1, 2   # variants of ArithmeticError, checked by enum_names()
COVERED = set()     # (configuration, function) of the proved cases of this run, for rules

PRELUDE = """#![allow(dead_code, unused_imports, clippy::all)]
use fixnum::{*, ops::*, typenum::*};
type R<T> = Result<T, ArithmeticError>;
type C<T> = Result<T, ConvertError>;
"""


def lim(bits):
    return -(1 << (bits - 1)), (1 << (bits - 1)) - 1


def precisions(lay, tier):
    return range(MAXP[lay] + 1) if tier == "thorough" else QUICKP[lay]


def fp(lay, p):
    return "FixedPoint::<%s, U%d>" % (lay, p)


def is_ok(val):
    return isinstance(val, Agg) and val.v == 0


def err_kind(val):
    e = val.f[0]
    return e.v if isinstance(e, Agg) else None


def rounded(cx, r, N, D, mode, what):
    """r is N/D rounded in the given direction (D > 0 on this path)."""
    d = P.sub(N, P.mul(r, D))
    if mode == "Floor":
        cx.ge(d, what + ": result is above the exact value (Floor)")
        cx.ge(P.sub(P.sub(D, 1), d), what + ": result is not the nearest value below (Floor)")
    elif mode == "Ceil":
        cx.ge(P.neg(d), what + ": result is below the exact value (Ceil)")
        cx.ge(P.sub(P.add(d, D), 1), what + ": result is not the nearest value above (Ceil)")
    else:
        d2 = P.scale(d, 2)
        if cx.decide(N):
            # ties away from zero: -D <= 2d <= D-1
            cx.ge(P.add(d2, D), what + ": result is more than half a unit above (Nearest)")
            cx.ge(P.sub(P.sub(D, 1), d2), what + ": result is half a unit or more below (Nearest)")
        else:
            cx.ge(P.sub(D, d2), what + ": result is more than half a unit below (Nearest)")
            cx.ge(P.add(d2, P.sub(D, 1)), what + ": result is half a unit or more above (Nearest)")


def representable(cx, N, D, mode, lo, hi, what):
    """An overflow error is right only if the rounded quotient N/D (D > 0) is outside [lo, hi]:
    obligation that no representable rounded value exists on this path."""
    if mode == "Floor":     # floor(N/D) in [lo,hi]  <=>  lo*D <= N <= hi*D + D-1
        facts = [("ge", P.sub(N, P.scale(D, lo))), ("ge", P.sub(P.sub(P.scale(D, hi + 1), 1), N))]
    elif mode == "Ceil":    # ceil(N/D) in [lo,hi]  <=>  (lo-1)*D < N <= hi*D
        facts = [("ge", P.sub(P.sub(N, P.scale(D, lo - 1)), 1)), ("ge", P.sub(P.scale(D, hi), N))]
    else:                   # half away from zero
        N2 = P.scale(N, 2)
        if cx.decide(N):    # floor((2N+D)/(2D)) <= hi  <=>  2N + D < 2D(hi+1)
            facts = [("ge", P.sub(P.sub(P.scale(D, 2 * hi + 1), 1), N2))]
        else:               # >= lo  <=>  2|N| + D < 2D(|lo|+1)
            facts = [("ge", P.sub(P.add(N2, P.scale(D, -2 * lo + 1)), 1))]
    cx.never(facts, what + ": overflow reported although the result is representable (%s)" % mode)


def no_abnormal(cx, kind, val):
    if kind in ("panic", "ub"):
        default_panic(cx, kind, val)
        return True
    return False
