"""C15: conversion to f64."""
from fractions import Fraction
from .common import *
from ..interp import FExpr

U = Fraction(1, 1 << 53)        # half a unit in the last place, relative
LIMIT = Fraction(1, 1 << 50)


class Unknown(Exception):
    pass


def ideal(cx, x):
    """(numerator polynomial, denominator > 0, relative error): the computed float differs from the quotient by at
    most the error times its absolute value.  No operation underflows or overflows: the values are bounded below
    by 10^-38 and above by 2^127 in magnitude, or zero."""
    st = cx.st
    if isinstance(x, float):
        if x == 0:
            return 0, 1, Fraction(0)
        if x != x or x in (float("inf"), float("-inf")):
            raise Unknown()
        f = Fraction(x)
        for k in range(-40, 41):
            t = Fraction(10) ** k * (1 if x > 0 else -1)
            if f != t and abs(f / t - 1) <= 2 * U:
                return t.numerator, t.denominator, abs(f / t - 1)
        return f.numerator, f.denominator, Fraction(0)
    if not isinstance(x, FExpr):
        raise Unknown()
    if x.op == "i2f":
        v = st.simp(x.args[0])
        l, h = (v, v) if isinstance(v, int) else st.range_of(v)
        exact = l is not None and h is not None and -(1 << 53) <= l and h <= 1 << 53
        return v, 1, Fraction(0) if exact else U
    if x.op == "neg":
        n, d, e = ideal(cx, x.args[0])
        return P.neg(n), d, e
    if x.op in ("Add", "Sub"):
        n1, d1, e1 = ideal(cx, x.args[0])
        n2, d2, e2 = ideal(cx, x.args[1])
        if x.op == "Sub":
            n2 = P.neg(n2)
        if n1 == 0 or n2 == 0:
            return (n2, d2, e2) if n1 == 0 else (n1, d1, e1)
        # no cancellation: terms of one sign
        for s in (1, -1):
            if st.prove(P.scale(n1, s), 2) and st.prove(P.scale(n2, s), 2):
                break
        else:
            raise Unknown()
        return P.add(P.scale(n1, d2), P.scale(n2, d1)), d1 * d2, (1 + max(e1, e2)) * (1 + U) - 1
    if x.op in ("Mul", "Div"):
        n1, d1, e1 = ideal(cx, x.args[0])
        n2, d2, e2 = ideal(cx, x.args[1])
        if x.op == "Div":
            if not isinstance(n2, int) or n2 == 0:
                raise Unknown()
            n2, d2 = (d2, n2) if n2 > 0 else (-d2, -n2)
            e2 = 1 / (1 - e2) - 1
        if isinstance(n1, Poly) and isinstance(n2, Poly):
            raise Unknown()
        n = P.mul(n1, n2)
        if n == 0:
            return 0, 1, Fraction(0)
        one = (n1 == d1 and not e1) or (n2 == d2 and not e2)
        return n, d1 * d2, (1 + e1) * (1 + e2) * (1 if one else 1 + U) - 1
    raise Unknown()


def close(num, den, whole=False):
    """the float is num(env)/den up to the limit; exactly for whole numbers below 2^53"""
    def spec(cx, e, kind, val):
        if no_abnormal(cx, kind, val):
            return
        want = num(e)
        what = "a whole number of at most 53 bits is not converted exactly" if whole else "the float differs from the number by more than 2^-50 of it"
        if isinstance(val, float) and isinstance(cx.st.simp(want), int):
            w = Fraction(cx.st.simp(want), den)
            bad = val != val or abs(val) == float("inf") or abs(Fraction(val) - w) > (0 if whole else LIMIT * abs(w))
            cx.ge(-1 if bad else 0, what)
            return
        try:
            n, d, err = ideal(cx, val)
        except Unknown:
            cx.fail(what)
            return
        if err > (0 if whole else LIMIT):
            cx.fail(what)
            return
        cx.eq(P.sub(P.scale(n, den), P.scale(want, d)), what)
    return spec


def c15(tier):
    out = []
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in precisions(lay, tier):
            F = fp(lay, p)
            c = 10 ** p
            it = [c, c - 1, c // 2, (1 << 53) * c % hi, hi // 3, 3 * c + 1]
            fn = "c15_%s_%d" % (lay, p)
            out.append(Case(fn, fn, "pub fn %s(a: %s) -> f64 { f64::from(%s::from_bits(a)) }" % (fn, lay, F), [sint("a", bits)], close(lambda e: e["a"], c), interesting=it))
            fn = "c15_whole_%s_%d" % (lay, p)
            m = min(hi // c, 1 << 53)
            out.append(Case(fn, fn, "pub fn %s(n: %s) -> f64 { f64::from(%s::from_bits(n * %d)) }" % (fn, lay, F, c), [Int("n", -m, m)], close(lambda e: e["n"], 1, True), interesting=[m, m // 3, 1, 7]))
    return out
