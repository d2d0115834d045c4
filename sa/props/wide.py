"""C13: the 256-bit intermediate arithmetic is exact."""
from .common import *
from ..contracts import *

M = 1 << 256
ROOTS = """
pub fn c13_roots(a: i128, b: i128, m: RoundMode) -> R<i128> {
    let (x, y) = (FixedPoint::<i128, U18>::from_bits(a), FixedPoint::<i128, U18>::from_bits(b));
    x.rmul(y, m)?; x.rsqrt(m)?;
    x.rdiv(y, m).map(|x| x.into_bits())
}
"""


def addsub(op):
    def spec(cx, e, kind, val):
        if no_abnormal(cx, kind, val):
            return
        a, b = signed(cx, ws(e, "a")), signed(cx, ws(e, "b"))
        x = P.add(a, b) if op == "+" else P.sub(a, b)
        if not cx.it.in_range(cx.st, x, -(1 << 255), (1 << 255) - 1):
            return
        cx.eq(P.sub(signed(cx, words_of(val)), x), "I256 %s: wrong value" % op)
    return spec



def negspec(cx, e, kind, val):
    a = signed(cx, ws(e, "a"))
    if isinstance(a, int):
        if a == -(1 << 255):
            return
    elif not cx.decide(P.add(a, (1 << 255) - 1)):
        return
    if no_abnormal(cx, kind, val):
        return
    cx.eq(P.add(signed(cx, words_of(val)), a), "I256 negation: wrong value")


def mulspec(cx, e, kind, val):
    x = P.mul(e["a"], e["b"])
    if no_abnormal(cx, kind, val):
        return
    cx.eq(P.sub(signed(cx, words_of(val)), x), "I256 multiplication: wrong value")


class Mag(SWords):
    """A signed 256-bit value given by its sign and the words of its magnitude (env: name -> value)."""

    def __init__(self, name, neg, top, depth=2):
        self.name, self.neg, self.depth, self.top = name, neg, depth, top

    def make(self, st, pins, env):
        n = []
        for i in range(4):
            nm = "%s%d" % (self.name, i)
            lo, hi = pinned(pins, nm, 0, B64 - 1)
            n.append(st.fresh(nm, lo, hi))
            env[nm] = n[-1]
        v = sval(n)
        st.assume("ge", P.sub(self.top, v))
        env["|%s|" % self.name] = v
        if self.neg:
            st.assume("ge", P.sub(v, 1))
            n = [st.simp(x) for x in n]
            w = []
            for i in range(4):
                c = 1 if i == 0 else carry
                # word i of the two's complement: (2^64-1 - n_i) + carry-in, minus 2^64 * carry-out
                p = P.add(P.sub(B64 - 1, n[i]), c)
                if isinstance(p, int):
                    carry, p = p >> 64, p & (B64 - 1)
                else:
                    carry = st.fresh("k", 0, 1)
                    p = P.sub(p, P.scale(carry, B64))
                    st.assume("ge", p)
                    st.assume("ge", P.sub(B64 - 1, p))
                w.append(p)
        else:
            w = n
        env[self.name] = P.neg(v) if self.neg else v
        v = Agg(None, tuple(w))
        for _ in range(self.depth):
            v = Agg(None, (v,))
        return v


def cmpspec(rel):
    def spec(cx, e, kind, val):
        if no_abnormal(cx, kind, val):
            return
        a, b = signed(cx, ws(e, "a")), signed(cx, ws(e, "b"))
        d = P.sub(a, b)
        if rel == "cmp":
            got = val.v - 1
        else:
            got = cx.truth(val)
        if rel == "cmp":
            if got == 0:
                cx.eq(d, "I256 comparison: wrong order")
            else:
                cx.ge(P.sub(d if got > 0 else P.neg(d), 1), "I256 comparison: wrong order")
        elif rel == "eq":
            if got:
                cx.eq(d, "I256 equality is wrong")
            else:
                for x, y in reversed(list(zip(ws(e, "a"), ws(e, "b")))):
                    if not cx.st.zero_or_fork(P.sub(x, y)):
                        break
                cx.never([("eq", d)], "I256 equality is wrong")
        else:
            p = {"lt": P.sub(P.neg(d), 1), "le": P.neg(d), "gt": P.sub(d, 1), "ge": d}[rel]
            cx.ge(p if got else P.sub(-1, p), "I256 comparison is wrong")
    return spec


class Ref:
    """A reference to a value."""

    def __init__(self, inner):
        self.inner = inner

    def make(self, st, pins, env):
        v = self.inner.make(st, pins, env)
        k = "arg%d" % len(st.heap)
        st.heap[k] = v
        return Ptr(("h", k), ())


def fromspec(cx, e, kind, val):
    if no_abnormal(cx, kind, val):
        return
    cx.eq(P.sub(signed(cx, words_of(val)), e["a"]), "I256::from(i128): wrong value")


def tryfromspec(cx, e, kind, val):
    if no_abnormal(cx, kind, val):
        return
    a = signed(cx, ws(e, "a"))
    if is_ok(val):
        cx.eq(P.sub(val.f[0], a), "i128::try_from(I256): wrong value")
    else:
        lo, hi = lim(128)
        cx.never([("ge", P.sub(a, lo)), ("ge", P.sub(hi, a))], "i128::try_from(I256): overflow although representable")


def dmwspec(cx, e, kind, val):
    if no_abnormal(cx, kind, val):
        return
    q, r = val.f
    N = P.add(P.scale(e["hi"], B64), e["lo"])
    cx.eq(P.sub(P.add(P.mul(q, e["y"]), r), N), "div_mod_word: q*y + r is not the dividend")
    cx.ge(P.sub(P.sub(e["y"], r), 1), "div_mod_word: remainder is not below the divisor")
    cx.ge(r, "div_mod_word: negative remainder")


def core(tier):
    out = []

    def case(id, fn, args, spec, **kw):
        out.append(Case(id, "=" + fn, ROOTS, args, spec, **kw))
    for op, tr, f in (("+", "Add", "add"), ("-", "Sub", "sub")):
        case("c13_" + f, "<%s as std::ops::%s>::%s" % (I256, tr, f), [SWords("a"), SWords("b")], addsub(op))
    case("c13_neg", "<%s as std::ops::Neg>::neg" % I256, [SWords("a")], negspec)
    case("c13_from", "<%s as std::convert::From<i128>>::from" % I256, [sint("a", 128)], fromspec)
    case("c13_try_from", "fixnum::i256::<impl std::convert::TryFrom<%s> for i128>::try_from" % I256, [SWords("a")], tryfromspec)
    case("c13_cmp", "<%s as std::cmp::Ord>::cmp" % I256, [Ref(SWords("a")), Ref(SWords("b"))], cmpspec("cmp"))
    for r in ("lt", "gt", "ge"):
        case("c13_" + r, "<%s as std::cmp::PartialOrd>::%s" % (I256, r), [Ref(SWords("a")), Ref(SWords("b"))], cmpspec(r))
    case("c13_eq", "<%s as std::cmp::PartialEq>::eq" % I256, [Ref(SWords("a")), Ref(SWords("b"))], cmpspec("eq"))
    for na in (0, 1):
        for nb in (0, 1):
            for ta, tb in ((255, 127), (127, 255)):
                def pre(it, st, e):
                    st.assume("ge", P.sub((1 << 255) - 1, P.mul(e["|a|"], e["|b|"])))
                case("c13_mul_%d%d_%d" % (na, nb, ta), "<%s as std::ops::Mul>::mul" % I256, [Mag("a", na, min(1 << ta, (1 << 255) - 1)), Mag("b", nb, min(1 << tb, (1 << 255) - 1))],
                     mulspec, opts={"setup": pre})
    return out


SHIFTS = (0, 1, 5, 31, 32, 33, 62, 63)


def c13_dmw(tier):
    out = []

    def case(id, fn, args, spec, **kw):
        out.append(Case(id, "=" + fn, ROOTS, args, spec, **kw))
    for z in SHIFTS if tier == "quick" else range(64):
        def pre(it, st, e):
            st.assume("ge", P.sub(P.sub(e["y"], e["hi"]), 1))
        case("c13_dmw_%d" % z, U256 + "::div_mod_word", [uint("hi", 64), uint("lo", 64), Int("y", 1 << (63 - z), (1 << (64 - z)) - 1)], dmwspec, opts={"setup": pre, "tighten": True})
    return out


class Bits:
    """A U256 whose most significant non-zero word is word k, within [lo, hi]."""

    def __init__(self, name, k, lo, hi):
        self.name, self.k, self.lo, self.hi = name, k, lo, hi

    def make(self, st, pins, env):
        w = []
        for i in range(4):
            nm = "%s%d" % (self.name, i)
            if i > self.k:
                w.append(0)
            else:
                w.append(st.fresh(nm, *pinned(pins, nm, *((self.lo, self.hi) if i == self.k else (0, B64 - 1)))))
            env[nm] = w[-1]
        env[self.name] = sval(w)
        return Agg(None, (Agg(None, tuple(w)),))


def divspec(cx, e, kind, val):
    if no_abnormal(cx, kind, val):
        return
    q, rem = (sval(words_of(x)) for x in val.f)
    r = P.sub(e["a"], P.mul(q, e["b"]))
    cx.eq(P.sub(rem, r), "U256 division: the remainder is wrong")
    cx.ge(r, "U256 division: the quotient is too large")
    cx.ge(P.sub(P.sub(e["b"], r), 1), "U256 division: the quotient is too small")


def c13_div(tier):
    out = []

    def case(id, args, **kw):
        out.append(Case(id, "=" + U256 + "::div_mod", ROOTS, args, divspec, models=DMW, **kw))
    T = B64 - 1
    o = {"opts": {"lazy_lz": True}}
    for k in range(4):
        case("c13_div_small_%d" % k, [Bits("a", k, 0 if k == 0 else 1, T), Bits("b", 0, 1, T)], **o)
    for s in (0, 1, 31, 62, 63) if tier == "quick" else range(64):
        b = Bits("b", 1, 1 << (63 - s), (1 << (64 - s)) - 1)
        case("c13_div_%d_less" % s, [Bits("a", 0, 0, T), b], **o)
        if s:
            case("c13_div_%d_short" % s, [Bits("a", 1, 1, (1 << (63 - s)) - 1), b], **o) if s < 63 else None
        case("c13_div_%d_2" % s, [Bits("a", 1, 1 << (63 - s), T), b], **o)
        case("c13_div_%d_3" % s, [Bits("a", 2, 1, T), b], **o)
        if tier != "quick" or s in (0, 31, 63):
            case("c13_div_%d_4" % s, [Bits("a", 3, 1, T), b], opts={"lazy_lz": True, "cost": 9 if 0 < s < 63 else 4})
    return out


class Words:
    """A mutable slice &mut [u64] (or &[u64]) over `size` words in memory, starting at word `off`."""

    def __init__(self, name, size, off, n):
        self.name, self.size, self.off, self.n = name, size, off, n

    def make(self, st, pins, env):
        w = []
        for i in range(self.size):
            nm = "%s%d" % (self.name, i)
            w.append(st.fresh(nm, *pinned(pins, nm, 0, B64 - 1)))
            env[nm] = w[-1]
        k = "arg%d" % len(st.heap)
        st.heap[k] = Agg(None, tuple(w))
        env[self.name] = w
        env["&" + self.name] = k
        return Ptr(("h", k), (), self.off, self.n)


def slicespec(sign, size, off, n):
    def spec(cx, e, kind, val):
        if no_abnormal(cx, kind, val):
            return
        out = [cx.it.num(cx.st, x) for x in cx.st.heap[e["&a"]].f]
        a, b = e["a"], e["b"]
        c = int(cx.truth(val))
        for i in range(size):
            if not off <= i < off + n:
                cx.eq(P.sub(out[i], a[i]), "carry loop: a word outside the operands changes")
        d = P.sub(sval(out[off:off + n]), P.add(sval(a[off:off + n]), P.scale(sval(b[:n]), sign)))
        cx.eq(P.add(d, sign * c * B64 ** n), "carry loop: wrong words or carry")
        for x in out[off:off + n]:
            cx.ge(x, "carry loop: negative word")
            cx.ge(P.sub(B64 - 1, x), "carry loop: word out of range")
    return spec


def fullmulspec(cx, e, kind, val):
    if no_abnormal(cx, kind, val):
        return
    out = [cx.it.num(cx.st, x) for x in words_of(val)]
    cx.eq(P.sub(sval(out), P.mul(sval([e["v%d" % i] for i in range(2)]), e["x"])), "full_mul_u64: wrong product")


def c13_parts(tier):
    out = []

    def case(id, fn, args, spec, **kw):
        out.append(Case(id, "=" + U256 + "::" + fn, ROOTS, args, spec, **kw))
    for j in range(3):
        case("c13_sub_slice_%d" % j, "sub_slice", [Words("a", 5, j, 5 - j), Words("b", 5, 0, 3)], slicespec(-1, 5, j, 3))
        case("c13_add_slice_%d" % j, "add_slice", [Words("a", 5, j, 5 - j), Words("b", 4, 0, 2)], slicespec(1, 5, j, 2))
    case("c13_full_mul", "full_mul_u64", [Bits("v", 1, 1, B64 - 1), uint("x", 64)], fullmulspec)
    return out


def m_udivmod(it, st, fr, fn, vals, t):
    """U256::div_mod: fresh words of the quotient and remainder (proved by c13_div_*)."""
    a, b = ([it.num(st, x) for x in words_of(deref(it, st, v))] for v in vals)
    q = [st.fresh("q", 0, B64 - 1) for _ in range(4)]
    r = [st.fresh("r", 0, B64 - 1) for _ in range(4)]
    st.divs["udiv"] = (sval(a), sval(b), sval(q))
    st.assume("ge", P.sub(sval(a), sval(q)))

    def words(w):
        return Agg(None, (Agg(None, tuple(w)),))
    return Agg(None, (words(q), words(r)))


def sdivspec(na, nb):
    def spec(cx, e, kind, val):
        if no_abnormal(cx, kind, val):
            return
        if "udiv" not in cx.st.divs:
            raise Gap("I256 division does not use U256::div_mod")
        a, b, q = cx.st.divs["udiv"]
        cx.eq(P.sub(a, e["|a|"]), "I256 division: the magnitude of the dividend is wrong")
        cx.eq(P.sub(b, e["|b|"]), "I256 division: the magnitude of the divisor is wrong")
        r = signed(cx, words_of(val))
        cx.eq(P.sub(P.neg(r) if na != nb else r, q), "I256 division: wrong sign or magnitude of the quotient")
    return spec


def c13_sdiv(tier):
    out = []
    for na in (0, 1):
        for nb in (0, 1):
            out.append(Case("c13_sdiv_%d%d" % (na, nb), "=<%s as std::ops::Div>::div" % I256, ROOTS,
                            [Mag("a", na, (1 << 255) - 1), Mag("b", nb, 1 << 127)], sdivspec(na, nb), models={U256 + "::div_mod": m_udivmod}))
    return out


def division(tier):
    return c13_parts(tier) + c13_sdiv(tier) + c13_dmw(tier) + c13_div(tier)


def c13(tier):
    """All of it, at the quick depth (for the properties that rely on it)."""
    return core("quick") + division("quick")


def c13_full(tier):
    return core(tier) + division(tier)
