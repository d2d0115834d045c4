"""C11: conversions from and to decimal mantissa and exponent."""
from .common import *


def c11(tier):
    out = []
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in precisions(lay, tier):
            F = fp(lay, p)
            what = "from_decimal"

            def outside(cx, e, kind, val):
                if no_abnormal(cx, kind, val):
                    return
                if is_ok(val):
                    cx.fail(what + ": accepts an exponent outside [-precision, 10]")
                else:
                    cx.ge(0, "error")

            for side, a, b in (("below", -(1 << 31), -p - 1), ("above", 11, (1 << 31) - 1)):
                fn = "c11_from_%s_%d" % (lay, p)
                src = "pub fn %s(m: %s, e: i32) -> C<%s> { %s::from_decimal(m, e).map(|x| x.into_bits()) }" % (fn, lay, lay, F)
                out.append(Case(fn + "_" + side, fn, src, [sint("m", bits), Int("e", a, b)], outside, interesting=[a, b]))
            es = range(-p, 11)
            if tier == "quick" and len(es) > 14:
                es = [x for x in es if x in (-p, -p + 1, -p // 2, -1, 0, 1, 9, 10) or 10 ** (x + p) * 10 > hi >= 10 ** (x + p - 1)]
            for x in es:
                mult = 10 ** (x + p)

                def inside(cx, e, kind, val, mult=mult, lo=lo, hi=hi):
                    if no_abnormal(cx, kind, val):
                        return
                    v = P.scale(e["m"], mult)
                    if is_ok(val):
                        cx.eq(P.sub(val.f[0], v), what + ": differs from mantissa * 10^exponent")
                    elif mult > hi:
                        # no mantissa but zero is representable with this exponent
                        cx.ge(0, "unsupported exponent")
                    else:
                        cx.never([("ge", P.sub(hi, v)), ("ge", P.sub(v, lo))], what + ": error although the value is representable")
                out.append(Case("%s_e%d" % (fn, x), fn, src, [sint("m", bits), Int("e", x, x)], inside, interesting=[hi // mult, -(lo // mult)]))

            def todec(cx, e, kind, val, p=p):
                w = "to_decimal"
                if kind == "panic":
                    cx.never([("ge", P.add(e["e"], p))], w + ": panics although max_exponent >= -precision")
                    return
                if no_abnormal(cx, kind, val):
                    return
                m, x = val.f
                x = cx.num(x)
                m = cx.num(m)
                cx.ge(P.add(e["e"], p), w + ": does not panic for max_exponent below -precision")
                cx.ge(P.add(x, p), w + ": exponent below -precision")
                cx.ge(P.sub(e["e"], x), w + ": exponent above max_exponent")
                if not isinstance(x, int):
                    # the exponent may only depend on max_exponent when the number is zero
                    cx.eq(m, w + ": exponent unrelated to the digits")
                    cx.eq(e["a"], w + ": differs from the number")
                    cx.ge(P.neg(x), w + ": zero has a positive exponent")
                    return
                cx.eq(P.sub(e["a"], P.scale(m, 10 ** (x + p))) if x + p >= 0 else 1, w + ": mantissa * 10^exponent differs from the number")
                if isinstance(m, int) and m == 0:
                    cx.eq(P.sub(x, 0) if x >= 0 else P.sub(e["e"], x), w + ": exponent of zero is not min(0, max_exponent)")
                elif cx.decide(P.sub(P.sub(e["e"], x), 1)):
                    # a larger exponent was allowed: the last digit of the mantissa is not zero
                    q, r = cx.it.tdiv(cx.st, m, 10)
                    cx.never([("eq", r)], w + ": trailing zero left although a larger exponent was allowed")
            fn = "c11_to_%s_%d" % (lay, p)
            out.append(Case(fn, fn, "pub fn %s(a: %s, e: i32) -> (%s, i32) { %s::from_bits(a).to_decimal(e) }" % (fn, lay, lay, F),
                            [sint("a", bits), sint("e", 32)], todec, interesting=[10, 100, 1000, 120, -p, -p - 1], opts={"cost": bits}))
    return out
