"""C01 C02 C03 C04 C05: checked, saturating and rounding arithmetic."""
from .common import *
from ..contracts import MODELS


def exact_or_overflow(expr, lo, hi):
    def spec(cx, e, kind, val):
        if no_abnormal(cx, kind, val):
            return
        x = expr(e)
        if is_ok(val):
            cx.eq(P.sub(val.f[0], x), "result differs from the exact value")
        else:
            if err_kind(val) != OVERFLOW:
                cx.fail("wrong error kind")
            cx.never([("ge", P.sub(x, lo)), ("ge", P.sub(hi, x))], "overflow reported although the exact result is representable")
    return spec


def quotient(num, den, mode, lo, hi, what):
    def spec(cx, e, kind, val):
        if no_abnormal(cx, kind, val):
            return
        N, D = num(e), den(e)
        if not isinstance(D, int):
            if cx.truth(cx.it.cond(cx.st, "eq", D)):
                D = 0
            elif not cx.decide(D):
                N, D = P.neg(N), P.neg(D)
        elif D < 0:
            N, D = P.neg(N), -D
        if D == 0:
            if is_ok(val) or err_kind(val) != DIVZERO:
                cx.fail(what + ": a zero divisor is not reported as DivisionByZero")
            return
        if is_ok(val):
            r = val.f[0]
            rounded(cx, r, N, D, mode, what)
        else:
            if err_kind(val) != OVERFLOW:
                cx.fail(what + ": wrong error kind")
            representable(cx, N, D, mode, lo, hi, what)
    return spec


def c01(tier):
    out = []
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in ([0, MAXP[lay]] if tier == "quick" else precisions(lay, tier)):
            F = fp(lay, p)
            for op, tr, ex in (("cadd", "+", lambda e: P.add(e["a"], e["b"])), ("csub", "-", lambda e: P.sub(e["a"], e["b"]))):
                fn = "c01_%s_%s_%d" % (op, lay, p)
                out.append(Case(fn, fn, "pub fn %s(a: %s, b: %s) -> R<%s> { %s::from_bits(a).%s(FixedPoint::from_bits(b)).map(|x| x.into_bits()) }" % (fn, lay, lay, lay, F, op),
                                [sint("a", bits), sint("b", bits)], exact_or_overflow(ex, lo, hi)))
            mul = lambda e: P.mul(e["a"], e["b"])
            fn = "c01_cmul_fi_%s_%d" % (lay, p)
            out.append(Case(fn, fn, "pub fn %s(a: %s, b: %s) -> R<%s> { %s::from_bits(a).cmul(b).map(|x| x.into_bits()) }" % (fn, lay, lay, lay, F),
                            [sint("a", bits), sint("b", bits)], exact_or_overflow(mul, lo, hi)))
            fn = "c01_cmul_if_%s_%d" % (lay, p)
            out.append(Case(fn, fn, "pub fn %s(a: %s, b: %s) -> R<%s> { a.cmul(%s::from_bits(b)).map(|x| x.into_bits()) }" % (fn, lay, lay, lay, F),
                            [sint("a", bits), sint("b", bits)], exact_or_overflow(mul, lo, hi)))
            fn = "c01_cneg_%s_%d" % (lay, p)
            out.append(Case(fn, fn, "pub fn %s(a: %s) -> R<%s> { %s::from_bits(a).cneg().map(|x| x.into_bits()) }" % (fn, lay, lay, F),
                            [sint("a", bits)], exact_or_overflow(lambda e: P.neg(e["a"]), lo, hi)))
            fn = "c01_abs_%s_%d" % (lay, p)

            def absspec(cx, e, kind, val, lo=lo, hi=hi):
                if no_abnormal(cx, kind, val):
                    return
                x = e["a"] if cx.decide(e["a"]) else P.neg(e["a"])
                exact_or_overflow(lambda _: x, lo, hi)(cx, e, kind, val)
            out.append(Case(fn, fn, "pub fn %s(a: %s) -> R<%s> { %s::from_bits(a).abs().map(|x| x.into_bits()) }" % (fn, lay, lay, F),
                            [sint("a", bits)], absspec))
    for lay, bits in dict(LAYOUTS, i8=8).items():
        lo, hi = lim(bits)
        for op, ex in (("cadd", lambda e: P.add(e["a"], e["b"])), ("csub", lambda e: P.sub(e["a"], e["b"])), ("cmul", lambda e: P.mul(e["a"], e["b"]))):
            fn = "c01_int_%s_%s" % (op, lay)
            out.append(Case(fn, fn, "pub fn %s(a: %s, b: %s) -> R<%s> { a.%s(b) }" % (fn, lay, lay, lay, op),
                            [sint("a", bits), sint("b", bits)], exact_or_overflow(ex, lo, hi)))
    return out


def inter(coef, hi):
    return [coef, coef // 2, hi // coef, hi // 2, coef * 2, 3 * coef // 2 + 1, int((hi * coef) ** 0.5) if hi * coef < 10 ** 300 else 1]


def c03(tier):
    out = []
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in precisions(lay, tier):
            coef = 10 ** p
            for m, mv in MODES.items():
                fn = "c03_rmul_%s_%d" % (lay, p)
                out.append(Case(fn + "_" + m, fn, "pub fn %s(a: %s, b: %s, m: RoundMode) -> R<%s> { %s::from_bits(a).rmul(FixedPoint::from_bits(b), m).map(|x| x.into_bits()) }" % (fn, lay, lay, lay, fp(lay, p)),
                                [sint("a", bits), sint("b", bits), Const(mv)],
                                quotient(lambda e: P.mul(e["a"], e["b"]), lambda e, coef=coef: coef, m, lo, hi, "rmul"), interesting=inter(coef, hi), models=MODELS if lay == "i128" else None))
    return out


def c04(tier):
    out = []
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in precisions(lay, tier):
            coef = 10 ** p
            for m, mv in MODES.items():
                fn = "c04_rdiv_%s_%d" % (lay, p)
                out.append(Case(fn + "_" + m, fn, "pub fn %s(a: %s, b: %s, m: RoundMode) -> R<%s> { %s::from_bits(a).rdiv(FixedPoint::from_bits(b), m).map(|x| x.into_bits()) }" % (fn, lay, lay, lay, fp(lay, p)),
                                [sint("a", bits), sint("b", bits), Const(mv)],
                                quotient(lambda e, coef=coef: P.scale(e["a"], coef), lambda e: e["b"], m, lo, hi, "rdiv"), interesting=inter(coef, hi), models=MODELS if lay == "i128" else None))
    return out
