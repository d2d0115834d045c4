"""C16 C17 C18: parsing, formatting and the formatting buffer."""
from .common import *
from .. import strings
from ..strings import Tok, Seq, sptr, lit
from ..mir import Top
from ..state import Infeasible


ISIZE_MAX = (1 << 63) - 1


class Str:
    """A string argument: parts are literal text, ("d", name, n, lo) runs of digits (n int, or None for
    any positive number of digits), ("w", name) any white space run, ("x", name, ranges) one character."""

    def __init__(self, *parts):
        self.parts = parts

    def make(self, st, pins, env):
        toks = []
        for p in self.parts:
            if isinstance(p, str):
                toks += lit(p)
            elif p[0] == "d":
                n = p[2]
                if n is None:
                    n = st.fresh("len_" + p[1], *pinned(pins, "len_" + p[1], p[3] if len(p) > 3 else 1, ISIZE_MAX))
                    hi = 10 ** n - 1 if isinstance(n, int) else None
                else:
                    hi = 10 ** n - 1
                lo, hi = pinned(pins, p[1], 0, hi)
                if isinstance(n, int) and (lo or 0) >= 10 ** n and n:
                    raise Infeasible()
                v = st.fresh(p[1], lo, hi) if n != 0 else 0
                env[p[1]] = v
                if p[2] is None:
                    env["len_" + p[1]] = n
                toks.append(Tok("d", v, n))
            elif p[0] == "w":
                n = env["len_" + p[1]] = st.fresh("len_" + p[1], *pinned(pins, "len_" + p[1], p[2] if len(p) > 2 else 0, ISIZE_MAX))
                toks.append(Tok("w", None, n))
            elif p[0] == "x":
                lo, hi = pinned(pins, p[1], *p[2])
                v = st.fresh(p[1], lo, hi)
                env[p[1]] = v
                toks.append(Tok("x", v, 1 if hi < 128 else st.fresh("bytes", 1, 4)))
        # no object is bigger than isize::MAX
        total = 0
        for t in toks:
            total = P.add(total, t.n)
        if not isinstance(total, int):
            st.assume("ge", P.sub(ISIZE_MAX, total))
        return sptr(toks)


def value_spec(num, lo, hi, what, maybe_err=False):
    """Ok(v) iff v = num(env) is representable."""
    def spec(cx, e, kind, val):
        if no_abnormal(cx, kind, val):
            return
        v = num(e)
        if is_ok(val):
            cx.eq(P.sub(val.f[0], v), what + ": the result is not the denoted number")
        elif maybe_err:
            cx.ge(0, "error allowed")
        else:
            cx.never([("ge", P.sub(hi, v)), ("ge", P.sub(v, lo))], what + ": error although the number is representable")
    return spec


def error_spec(what):
    def spec(cx, e, kind, val):
        if no_abnormal(cx, kind, val):
            return
        if is_ok(val):
            cx.fail(what + ": malformed text is accepted")
        else:
            cx.ge(0, "error")
    return spec


# characters that can stand neither for a digit nor for a sign, a point or white space
OTHER = [("ctl", (0, 8)), ("ctm", (0x0E, 0x1F)), ("v", (0x1681, 0x1FFF)), ("vv", (0x200B, 0x2027)), ("vh", (0x3001, 0xD7FF)), ("top", (0xE000, 0x10FFFF)), ("x", (0x21, 0x2A)), ("comma", (0x2C, 0x2C)), ("slash", (0x2F, 0x2F)), ("colon", (0x3A, 0x84)), ("high", (0xA1, 0x167F))]


def c16(tier):
    out = []
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in precisions(lay, tier):
            F = fp(lay, p)
            for exact in (False, True):
                fn = "c16_%s_%s_%d" % ("exact" if exact else "parse", lay, p)
                src = "pub fn %s(s: &str) -> C<%s> { %s }" % (fn, lay, "%s::from_str_exact(s).map(|x| x.into_bits())" % F if exact else "s.parse::<%s>().map(|x| x.into_bits())" % F)
                what = "from_str_exact" if exact else "from_str"

                def case(id, parts, spec, fn=fn, src=src, **kw):
                    out.append(Case(fn + "_" + id, fn, src, [Str(*parts)], spec, models=strings.MODELS, **kw))

                ks = range(1, p + 1)
                if tier == "quick":
                    ks = sorted({k for k in (1, 2, p // 2, p - 1, p) if 1 <= k <= p})
                for sname, sg in (("", 1), ("+", 1), ("-", -1)):
                    nm = {"": "n", "+": "p", "-": "m"}[sname]
                    V = ("d", "V", None)
                    case(nm + "_int", [sname, V], value_spec(lambda e, sg=sg, p=p: P.scale(e["V"], sg * 10 ** p), lo, hi, what))
                    for k in ks:
                        case("%s_frac%d" % (nm, k), [sname, V, ".", ("d", "F", k)],
                             value_spec(lambda e, sg=sg, p=p, k=k: P.scale(P.add(P.scale(e["V"], 10 ** p), P.scale(e["F"], 10 ** (p - k))), sg), lo, hi, what))
                    # more digits than the precision

                    def rounded_value(e, sg=sg, p=p):
                        up = e["up"]
                        return P.scale(P.add(P.add(P.scale(e["V"], 10 ** p), e["F"]), up), sg)
                    for half, rng in (("lo", (0, 4)), ("hi", (5, 9))):
                        parts = [sname, V, "."] + ([("d", "F", p)] if p else []) + [("x", "D", (48 + rng[0], 48 + rng[1])), ("d", "R", None, 0)]

                        def num(e, sg=sg, p=p, up=int(half == "hi")):
                            return P.scale(P.add(P.add(P.scale(e["V"], 10 ** p), e.get("F", 0)), up), sg)
                        if exact:
                            def spec(cx, e, kind, val, sg=sg, p=p):
                                if no_abnormal(cx, kind, val):
                                    return
                                if is_ok(val):
                                    # only if the excess digits are zeros
                                    cx.eq(P.sub(e["D"], 48), "from_str_exact: excess digits are dropped")
                                    cx.eq(e["R"], "from_str_exact: excess digits are dropped")
                                    cx.eq(P.sub(val.f[0], P.scale(P.add(P.scale(e["V"], 10 ** p), e.get("F", 0)), sg)), "from_str_exact: the result is not the denoted number")
                                else:
                                    cx.ge(0, "error")
                            case("%s_more_%s" % (nm, half), parts, spec)
                        else:
                            case("%s_more_%s" % (nm, half), parts, value_spec(num, lo, hi, what))
                bad = error_spec(what)
                D = ("d", "V", None)
                # each white space character by itself
                pairs = [(0x0B, 0x85), (0xA0, 0x2003), (0x20, 0x3000)]
                if tier != "quick":
                    pairs = [(w, strings.WS[-1 - i]) for i, w in enumerate(strings.WS)]
                for a, b in pairs:
                    case("ws_%x_%x" % (a, b), [("x", "A", (a, a)), D, ("x", "B", (b, b))], value_spec(lambda e, p=p: P.scale(e["V"], 10 ** p), lo, hi, what))
                G = ("d", "G", None, 0)
                f1 = ("d", "F", None)
                w1, w2 = ("w", "W"), ("w", "U")
                for nm, sname, sg in (("n", "", 1), ("m", "-", -1), ("p", "+", 1)):
                    if nm != "p" or tier != "quick":
                        case(nm + "_wsint", [w1, sname, D, w2], value_spec(lambda e, sg=sg, p=p: P.scale(e["V"], sg * 10 ** p), lo, hi, what))
                        if p:
                            case(nm + "_wsfrac", [w1, sname, D, ".", ("d", "F", p), w2], value_spec(lambda e, sg=sg, p=p: P.scale(P.add(P.scale(e["V"], 10 ** p), e["F"]), sg), lo, hi, what))
                    wi = ("w", "W", 1)
                    if sname:
                        case(nm + "_wsin", [sname, wi, D, ".", f1], bad)
                        case(nm + "_wsini", [sname, wi, D], bad)
                    case(nm + "_wsbefore", [sname, D, wi, ".", f1], bad)
                    case(nm + "_wsafter", [sname, D, ".", wi, f1], bad)
                    case(nm + "_wsmid", [sname, D, ".", ("d", "F", 1), wi, f1], bad)
                case("empty", [""], bad)
                for nm, sname in (("m", "-"), ("p", "+"), ("n", "")):
                    if sname:
                        case(nm + "_only", [sname], bad)
                        case(nm + "_inner", [D, ".", sname, f1], bad)
                        case(nm + "_double", [sname, "+", D], bad)
                        case(nm + "_mid", [D, sname, f1], bad)
                        case(nm + "_trail", [D, ".", f1, sname], bad)
                    case(nm + "_noint", [sname, ".", f1], bad)
                    case(nm + "_nofrac", [sname, D, "."], bad)
                    case(nm + "_point", [sname, "."], bad)
                    case(nm + "_two", [sname, D, ".", f1, ".", G], bad)
                for nm, rng in OTHER:
                    x = ("x", "X", rng)
                    if tier == "quick" and nm not in ("x", "colon"):
                        continue
                    case(nm + "_front", [x, D], bad)
                    case(nm + "_int", [D, x], bad)
                    case(nm + "_intfrac", [D, x, G, ".", f1], bad)
                    case(nm + "_frac", [D, ".", f1, x], bad)
                    case(nm + "_frac0", [D, ".", x, f1], bad)
                    case(nm + "_fracmid", [D, ".", ("d", "F", 1), x, G], bad)
    return out


class Fmt:
    """The formatter: text written to it is recorded."""

    def make(self, st, pins, env):
        from ..mir import Ptr
        st.heap["fmt"] = Top("formatter")
        return Ptr(("h", "fmt"), ())


FMT = Fmt()


def canonical(cx, x, p, what):
    """The text written is the canonical decimal form of x / 10^p."""
    toks = strings.join(cx.it, cx.st, strings.written(cx.st))
    neg = False
    i = 0
    if toks and toks[0].k == "c" and toks[0].v == 45:
        neg = True
        i = 1
    t = toks[i:]
    shape = [y.k if y.k != "c" else chr(y.v) for y in t]
    if shape != ["d", ".", "d"]:
        cx.fail(what + ": the text is not [-]digits.digits (%s)" % "".join(["-"] * neg + shape)[:40])
        return
    I, f = t[0], t[2]
    st = cx.st
    if not isinstance(I.n, int) or not isinstance(f.n, int):
        raise Gap("length of the text")
    k = f.n
    if neg:
        cx.ge(P.sub(-1, x), what + ": minus sign for a number that is not negative")
    else:
        cx.ge(x, what + ": no minus sign for a negative number")
    if I.n > 1:
        cx.ge(P.sub(I.v, 10 ** (I.n - 1)), what + ": leading zero")
    if k > p and p:
        cx.fail(what + ": more fractional digits than the precision")
        return
    m = P.neg(x) if neg else x
    if p:
        cx.eq(P.sub(P.add(P.scale(I.v, 10 ** p), P.scale(f.v, 10 ** (p - k))), m), what + ": the text does not denote the number")
    else:
        cx.eq(P.sub(I.v, m), what + ": the text does not denote the number")
        cx.eq(f.v, what + ": fractional digits of a whole number")
    if k > 1 or not p:
        if p == 0:
            cx.ge(1 - k, what + ": superfluous zeros")
        else:
            d = strings.dig_poly(cx.it, st, strings.Dig(f.v, k, k - 1))
            cx.never([("eq", P.sub(d, 48))], what + ": trailing zero")


def c17(tier, more=()):
    out = []
    for lay, bits in LAYOUTS.items():
        for p in sorted({*precisions(lay, tier), *[x for x in more if x <= MAXP[lay]]}):
            F = fp(lay, p)
            for tr in ("Display", "Debug"):
                if tr == "Debug" and tier == "quick" and p not in (0, 9, 18) + tuple(more):
                    continue

                def spec(cx, e, kind, val, p=p, tr=tr):
                    if no_abnormal(cx, kind, val):
                        return
                    if not is_ok(val):
                        cx.fail(tr + ": reports an error although writing succeeded")
                        return
                    canonical(cx, e["a"], p, tr)
                fn = "c17_%s_%s_%d" % (tr, lay, p)
                out.append(Case(fn, fn, "pub fn %s(a: %s, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::%s::fmt(&%s::from_bits(a), f) }" % (fn, lay, tr, F),
                                [sint("a", bits), FMT], spec, models=strings.MODELS, interesting=[10 ** k for k in range(0, 39)] + [10 ** p + 1], opts={"cost": bits}))
    return out
