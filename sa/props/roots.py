"""C08: the rounding square root, and the integer square roots behind it (also C13)."""
import re
from math import isqrt
from .common import *
from ..contracts import *
from .arith import inter
from .wide import Bits, words_of, sval

ROOTS = "\n".join("pub fn root_%s(a: %s, m: RoundMode) -> R<%s> { %s::from_bits(a).rsqrt(m).map(|x| x.into_bits()) }" % (l, l, l, fp(l, 1)) for l in LAYOUTS)
SQRT = "<%s as fixnum::ops::sqrt::Sqrt>::sqrt"


def rootspec(cx, e, kind, val):
    if no_abnormal(cx, kind, val):
        return
    if not is_ok(val):
        cx.fail("integer square root: error for a non-negative number")
        return
    r = cx.it.num(cx.st, val.f[0]) if not isinstance(val.f[0], Agg) else sval(words_of(val.f[0]))
    d = P.sub(r, e["s"])
    n = e["n"]
    if isinstance(d, Poly) and not (cx.decide(d) and cx.decide(P.neg(d))):
        cx.ge(r, "integer square root: negative")
        cx.ge(P.sub(n, P.mul(r, r)), "integer square root: too large")
        cx.ge(P.sub(P.add(P.mul(r, r), P.scale(r, 2)), n), "integer square root: too small")
        return
    cx.ge(P.neg(d), "integer square root: too large")
    cx.ge(d, "integer square root: too small")


def ghost(it, st, e):
    n = e["n"]
    if isinstance(n, int):
        e["s"] = isqrt(n)
        return
    l, h = st.interval(n)
    s = st.fresh("isqrt", isqrt(l), isqrt(h))
    e["s"] = s
    if isinstance(s, Poly):
        st.assume("ge", P.sub(n, P.mul(s, s)))
        st.assume("ge", P.sub(P.add(P.mul(s, s), P.scale(s, 2)), n))


def exactly(n):
    return re.compile("^" + re.escape(n) + "$")


def m_isqrt(ty, rec=None):
    """The integer square root of a smaller type, or (induction) of a smaller number of this type."""
    def f(it, st, fr, fn, vals, t):
        v = vals[0]
        big = isinstance(v, Agg)
        p = sval([it.num(st, x) for x in words_of(v)]) if big else it.num(st, v)
        if isinstance(p, int):
            return NotImplemented
        if not st.decide(p, 2):
            raise Gap("square root of a possibly negative value")
        if rec is not None and not st.decide(P.sub(P.sub(rec(st), p), 1), 2):
            raise Gap("the argument of the recursive square root is not smaller")
        r = isqrt_sym(it, st, p)
        if not big:
            return Agg(0, (r,))
        return Agg(0, (Agg(None, (Agg(None, tuple(fresh_words(st, r, 4, "r"))),)),))
    return f


def m_umul(it, st, fr, fn, vals, t):
    """U256::overflowing_mul of factors of at most two words: the exact product, no overflow."""
    a, b = ([it.num(st, x) for x in words_of(v)] for v in vals)
    if any(x != 0 for x in a[2:] + b[2:]):
        raise Gap("256-bit product of two wide factors")
    p = P.mul(sval(a), sval(b))
    if isinstance(p, int):
        return NotImplemented
    return Agg(None, (Agg(None, (Agg(None, tuple(fresh_words(st, p, 4, "m"))),)), 0))


def umulspec(cx, e, kind, val):
    if no_abnormal(cx, kind, val):
        return
    w = [cx.it.num(cx.st, x) for x in words_of(val.f[0])]
    cx.eq(P.sub(sval(w), P.mul(e["a"], e["b"])), "U256 product: wrong value")
    cx.never([("eq", 0)] if cx.truth(val.f[1]) else [("ge", -1)], "U256 product: overflow reported")


def c13_root(tier):
    out = []

    def case(id, ty, bits, lo, hi, cfg="all", cost=0, **kw):
        def ghosts(st, e, bits=bits):
            s = e["s"]
            return [1, s, P.add(s, 1), 1 << (bits - 2), 3 << (bits - 2), 1 << (bits // 2 + 1)]
        o = {"setup": ghost, "loops": ("ops::sqrt::", ghosts), "roots": lambda e: [e["s"]], "cost": cost}
        out.append(Case(id, "=" + SQRT % ty, ROOTS, [Int("n", lo, hi)], rootspec, cfg=cfg, opts=o, **kw))
    for ty, bits, hi in (("i32", 32, (1 << 31) - 1), ("i64", 64, (1 << 63) - 1), ("u64", 64, (1 << 64) - 1)):
        case("root_%s_small" % ty, ty, bits, 0, 3)
        case("root_%s" % ty, ty, bits, 4, hi, cost=1)
        # without the standard library the first guess depends on the length of the number
        case("nostd_root_%s_small" % ty, ty, bits, 0, 3, cfg="nostd")
        for k in range(2, hi.bit_length()):
            case("nostd_root_%s_%d" % (ty, k), ty, bits, 1 << k, (2 << k) - 1, cfg="nostd")

    def setup(it, st, e):
        ghost(it, st, e)
        st.divs["n"] = e["n"]
    U = "fixnum::i256::u256::U256"
    M = {exactly(SQRT % "u64"): m_isqrt("u64"), exactly(SQRT % "i128"): m_isqrt("i128", lambda st: st.divs["n"]), exactly(SQRT % "u128"): m_isqrt("u128", lambda st: st.divs["n"])}
    for ty, hi in (("i128", (1 << 126) - 1), ("u128", (1 << 128) - 1)):
        out.append(Case("root_" + ty, "=" + SQRT % ty, ROOTS, [Int("n", 0, hi)], rootspec, models=M, opts={"setup": setup}))
    M = {exactly(SQRT % "u128"): m_isqrt("u128"), exactly(SQRT % U): m_isqrt(U, lambda st: st.divs["n"]), exactly(U + "::overflowing_mul"): m_umul}
    for k in range(4):
        out.append(Case("root_u256_%d" % k, "=" + SQRT % U, ROOTS, [Bits("n", k, 1 if k else 0, B64 - 1)], rootspec, models=M, opts={"setup": setup, "lazy_lz": True}))
    for j in range(2):
        for k in range(2):
            out.append(Case("umul_%d%d" % (j, k), "=" + U + "::overflowing_mul", ROOTS, [Bits("a", j, 1 if j else 0, B64 - 1), Bits("b", k, 1 if k else 0, B64 - 1)], umulspec))
    return out


def rsqrtspec(coef, mode):
    def spec(cx, e, kind, val):
        if no_abnormal(cx, kind, val):
            return
        a = e["a"]
        if not cx.decide(a):
            if is_ok(val) or err_kind(val) != DOMAIN:
                cx.fail("rsqrt: a negative number is not reported as DomainViolation")
            return
        if not is_ok(val):
            cx.fail("rsqrt: error for a non-negative number")
            return
        r, n = cx.it.num(cx.st, val.f[0]), P.scale(a, coef)
        r2 = P.mul(r, r)
        cx.ge(r, "rsqrt: negative root")
        if mode == "Floor":
            cx.ge(P.sub(n, r2), "rsqrt: result is above the root (Floor)")
            cx.ge(P.sub(P.add(r2, P.scale(r, 2)), n), "rsqrt: result is not the nearest value below (Floor)")
        elif mode == "Ceil":
            cx.ge(P.sub(r2, n), "rsqrt: result is below the root (Ceil)")
            if cx.decide(P.sub(r, 1)):
                cx.ge(P.sub(P.sub(n, P.add(P.sub(r2, P.scale(r, 2)), 1)), 1), "rsqrt: result is not the nearest value above (Ceil)")
        else:
            cx.ge(P.sub(P.add(r2, r), n), "rsqrt: result is more than half a unit below (Nearest)")
            if cx.decide(P.sub(r, 1)):
                cx.ge(P.sub(P.sub(n, P.sub(r2, r)), 1), "rsqrt: result is more than half a unit above (Nearest)")
    return spec


def small(st):
    return 1 << 126


def m_isqrt128():
    f = m_isqrt("i128")

    def g(it, st, fr, fn, vals, t):
        p = it.num(st, vals[0])
        if not isinstance(p, int) and not st.decide(P.sub((1 << 126) - 1, p), 2):
            raise Gap("128-bit square root of a wide number")
        return f(it, st, fr, fn, vals, t)
    return g


INT_MODELS = {exactly(SQRT % "i32"): m_isqrt("i32"), exactly(SQRT % "i64"): m_isqrt("i64"), exactly(SQRT % "i128"): m_isqrt128()}


def c08(tier, cfgs=("all", "nostd")):
    out = []
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in precisions(lay, tier):
            coef = 10 ** p
            for m, mv in MODES.items():
                fn = "c08_rsqrt_%s_%d" % (lay, p)
                out.append(Case(fn + "_" + m, fn, "pub fn %s(a: %s, m: RoundMode) -> R<%s> { %s::from_bits(a).rsqrt(m).map(|x| x.into_bits()) }" % (fn, lay, lay, fp(lay, p)),
                                [sint("a", bits), Const(mv)], rsqrtspec(coef, m), interesting=inter(coef, hi), models=MODELS if lay == "i128" else INT_MODELS))
    return out + c13_root(tier)
