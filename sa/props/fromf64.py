"""C14: conversion from f64."""
import struct
from fractions import Fraction
from .common import *
from ..interp import FSym

SLACK = 49          # relative error 2^-49


class F64(Int):
    """A float of a given sign and binade; its 52 bits of mantissa are the symbol `frac`."""
    def __init__(self, sign, be, lo=0, hi=(1 << 52) - 1):
        self.sign, self.be, self.name, self.lo, self.hi = sign, be, "frac", lo, hi

    def make(self, st, pins, env):
        m = Int.make(self, st, pins, env)
        if isinstance(m, int):
            return struct.unpack("<d", struct.pack("<Q", (self.sign << 63) | (self.be << 52) | m))[0]
        return FSym(self.sign, self.be, m)


def log10floor(x):
    k = len(str(x.numerator)) - len(str(x.denominator))
    while Fraction(10) ** k > x:
        k -= 1
    while Fraction(10) ** (k + 1) <= x:
        k += 1
    return k


def spec(sign, be, p, bits):
    E = max(be, 1) - 1075                   # |x| = M * 2^E
    hid = (1 << 52) if be else 0
    A, B = 10 ** p << max(E, 0), 1 << max(-E, 0)     # |x| = (M * A / B) units
    lim = (1 << (bits - 1)) - (0 if sign else 1)

    def f(cx, e, kind, val):
        M = P.add(e["frac"], hid)
        if kind != "ret":
            default_panic(cx, kind, val)
            return
        MA = P.scale(M, A)
        err = val.v == 1
        if err:
            # |x| <= lim * (1 - 2^-49) - 5/9 must not be an error
            cx.never([("ge", P.sub(9 * lim * B * ((1 << SLACK) - 1) - 5 * B * (1 << SLACK), P.scale(MA, 9 << SLACK)))], "a representable number is rejected")
        else:
            r = cx.num(val.f[0].f[0])
            if sign:
                r = P.neg(r)
            d = P.sub(P.scale(r, B), MA)
            tol = P.add(P.scale(MA, 9), 5 * B << SLACK)
            for s in (1, -1):
                cx.ge(P.sub(tol, P.scale(d, s * (9 << SLACK))), "the result is not close to the float")

        def exact(n, unit, facts, what):
            """the float denotes (or is nearest to) n, which is n * unit raw units"""
            fit = [("ge", P.sub(lim, P.scale(n, unit)))]
            if err:
                cx.never(facts + fit, "%s is rejected" % what)
            else:
                for s in (1, -1):
                    cx.never(facts + [("ge", P.sub(P.scale(P.sub(r, P.scale(n, unit)), s), 1))], "%s is not converted exactly" % what)
        if E >= 0:
            exact(M, A, [], "a whole number")
        elif -E <= 52:
            n = cx.st.fresh("whole", 0, 1 << 53)
            exact(n, 10 ** p, [("eq", P.sub(M, P.scale(n, 1 << -E)))], "a whole number")
        if E < 0 and be:
            lo, hi = Fraction(1 << 52) * Fraction(2) ** E, Fraction(1 << 53) * Fraction(2) ** E
            if p <= 14 - log10floor(hi):
                # a decimal with p digits after the point and at most 15 in all: n * 10^-k2
                k2 = p
                n = cx.st.fresh("decimal", 1, 10 ** 15 - 1)
                # |M 2^E - n 10^-k2| <= 2^E / 2
                dd = P.sub(P.scale(M, 2 * 10 ** k2), P.scale(n, 2 << -E))
                exact(n, 10 ** (p - k2), [("ge", P.sub(10 ** k2, dd)), ("ge", P.add(10 ** k2, dd))], "a decimal of 15 digits")
    return f


OPTS = {"max_visits": 1300, "max_steps": 40000000}


def special(cx, e, kind, val):
    if kind != "ret":
        default_panic(cx, kind, val)
    else:
        cx.ge(0 if val.v == 1 else -1, "an infinity or NaN is accepted")


def case(lay, bits, p, sign, be, lo=0, hi=(1 << 52) - 1, tag=""):
    fn = "c14_%s_%d" % (lay, p)
    src = "pub fn %s(x: f64) -> C<%s> { %s::try_from(x) }" % (fn, fp(lay, p).replace("::<", "<"), fp(lay, p))
    hid = (1 << 52) if be else 0
    E = max(be, 1) - 1075
    inter = [0, 1, (1 << 52) - 1, 1 << 51, 0x999999999999a, 0x3333333333333, 0x5555555555555, 0x123456789abcd, 0xfedcba9876543, 0xfffffffffffff - 0x10101]
    return Case("%s_%s%d%s" % (fn, "n" if sign else "p", be, tag), fn, src, [F64(sign, be, lo, hi)], special if be == 2047 else spec(sign, be, p, bits),
                opts={"ratio": ("fixnum", (5, 10, 2), lambda env: (P.add(env["frac"], hid), Fraction(2) ** E), 76 if E >= 0 else 0), "max_visits": 1300, "max_steps": 40000000, "max_paths": 200000, "confirm_s": 30}, interesting=inter)


def binades(bits, p):
    """(first binade that can round to a unit, last binade with a representable number)"""
    import math
    return 1022 + math.floor(-p * math.log2(10)), 1023 + math.floor(bits - 1 - p * math.log2(10))


def c14(tier):
    out = []

    def add(lay, p, sign, be, lo=0, hi=(1 << 52) - 1):
        if 0 <= be <= 2047:
            c = case(lay, int(lay[1:]), p, sign, be, lo, hi, "_%x" % lo if lo else "")
            if all(x.id != c.id for x in out):
                out.append(c)
    quick = [("i64", 9), ("i128", 18), ("i32", 4), ("i16", 2), ("i64", 0), ("i128", 38), ("i64", 18)]
    if tier == "quick":
        for n, (lay, p) in enumerate(quick):
            a, z = binades(int(lay[1:]), p)
            add(lay, p, n & 1, 2047)
            add(lay, p, 1 - (n & 1), 2046)
            for s in (0, 1):
                add(lay, p, s, z)
            add(lay, p, n & 1, z - 1)
            add(lay, p, n & 1, z + 1)
            add(lay, p, n & 1, a)
            add(lay, p, 1 - (n & 1), 1023)
            if n < 4:
                add(lay, p, n & 1, (a + 1023) // 2)
                add(lay, p, n & 1, (z + 1023) // 2)
                add(lay, p, 0, 0, 0, 1)
                add(lay, p, n & 1, 1075)
                add(lay, p, n & 1, 1084)
            if n < 2:
                add(lay, p, n & 1, 1)
                add(lay, p, n & 1, a - 60)
                for be in (a - 1, a + 2, 1018, 1022, 1033, 1040, 1055, 1076):
                    add(lay, p, n & 1, be)
        a, z = binades(128, 18)             # every entry of the tables
        for be in list(range(a + 5, 1019, 6)) + list(range(1019, 1078)):
            if all(x.id != "c14_i128_18_%s%d" % ("pn"[s], be) for x in out for s in (0, 1)):
                add("i128", 18, be & 1, be)
        for p in range(39):                 # every scale: whole numbers are multiplied by 10^p
            if ("i128", p) not in quick:
                add("i128", p, p & 1, min(binades(128, p)[1] - 1, 1075))
        return out
    types = quick + [("i16", 0), ("i16", 4), ("i32", 0), ("i32", 9), ("i64", 2), ("i64", 6), ("i64", 15), ("i128", 0), ("i128", 9), ("i128", 27), ("i128", 36)]
    for lay, p in types:
        a, z = binades(int(lay[1:]), p)
        for s in (0, 1):
            for be in (a - 1, a, a + 1, 1022, 1023, 1075, 1076, 1084, z - 1, z, z + 1, 2046, 2047):
                add(lay, p, s, be)
    for k in range(200):                    # every binade between the first and the last, nearest to 1 first
        for n, (lay, p) in enumerate(types):
            a, z = binades(int(lay[1:]), p)
            for be in (1023 + k, 1022 - k):
                if a - 3 <= be <= z + 2 and (k < 30 or (n + k) % 3 == 0):
                    add(lay, p, (n + k) & 1, be)
    for lay, p in types[:4]:
        add(lay, p, 0, 0, 0, 1)
        for k in range(1, 52, 10):          # denormals
            add(lay, p, 0, 0, 1 << k, (2 << k) - 1)
        for be in list(range(1, 960, 120)) + list(range(1160, 2046, 90)):
            add(lay, p, be & 1, be)
    return out
