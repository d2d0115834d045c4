"""Contracts of the 256-bit arithmetic used by the i128 layout, and their word-level proofs (C13).

A contract replaces a call by its specification once the specification is proved for the code of
the current tree; fully constant operands are never abstracted (the real code is analysed)."""
import re
from . import poly as P
from .poly import Poly
from .state import Gap, Fork
from .interp import Big, Outcome
from .mir import Agg, Ptr
from .check import *


def lim(bits):
    return -(1 << (bits - 1)), (1 << (bits - 1)) - 1


OVERFLOW = 0

B64 = 1 << 64
I256 = "fixnum::i256::I256"
U256 = "fixnum::i256::u256::U256"


def sval(words):
    v = 0
    for i, w in enumerate(words):
        v = P.add(v, P.scale(w, 1 << (64 * i)))
    return v


def words_of(v):
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, Agg) and len(v.f) >= 4:
        return v.f
    raise Gap("words of %r" % (v,))


def signed(cx, words):
    """Signed value of four words (splits on the sign)."""
    v = sval(words)
    if isinstance(v, int):
        return v - (1 << 256) if v >> 255 else v
    if cx.decide(P.sub(words[3], 1 << 63)):
        return P.sub(v, 1 << 256)
    return v


class SWords:
    """A signed 256-bit value in words, restricted to one class: magnitude below 2^(64*n) and sign."""

    def __init__(self, name, depth=2):
        self.name, self.depth = name, depth

    def make(self, st, pins, env):
        ws = []
        for i in range(4):
            nm = "%s%d" % (self.name, i)
            lo, hi = pins.get(nm, (0, B64 - 1))
            w = st.fresh(nm, lo, hi)
            env[nm] = w
            ws.append(w)
        v = Agg(None, tuple(ws))
        for _ in range(self.depth):
            v = Agg(None, (v,))
        return v


def ws(e, n, k=4):
    return [e["%s%d" % (n, i)] for i in range(k)]


# ---------------------------------------------------------------------- contract models
TOP255 = 1 << 255


def big(st, v):
    """The signed value of an I256 argument; None when it is only known by abstract words."""
    if isinstance(v, Big):
        return st.simp(v.p)
    try:
        w = words_of(v)
    except Gap:
        return None
    if all(isinstance(x, int) for x in w):
        x = sval(w)
        return x - (1 << 256) if x >> 255 else x
    return None


def deref(it, st, v):
    from .mir import Ptr
    if isinstance(v, Ptr):
        return it.load(st, v.base, v.path)
    return v


def operands(it, st, vals):
    ps = [big(st, deref(it, st, v)) for v in vals]
    if any(p is None for p in ps):
        return None
    if all(isinstance(p, int) for p in ps) and not any(isinstance(deref(it, st, v), Big) for v in vals):
        return None         # fully constant: analyse the code itself
    return ps


def in255(it, st, p, what):
    if isinstance(p, int):
        if not -TOP255 < p < TOP255:
            raise Gap("256-bit overflow in " + what)
        return
    if not (st.decide(P.sub(TOP255 - 1, p)) and st.decide(P.add(p, TOP255 - 1))):
        raise Gap("256-bit overflow not excluded in " + what)


def m_add(it, st, fr, fn, vals, t):
    ps = operands(it, st, vals)
    if ps is None:
        return NotImplemented
    p = P.add(*ps)
    in255(it, st, p, "addition")
    return Big(p)


def m_sub(it, st, fr, fn, vals, t):
    ps = operands(it, st, vals)
    if ps is None:
        return NotImplemented
    p = P.sub(*ps)
    in255(it, st, p, "subtraction")
    return Big(p)


def m_neg(it, st, fr, fn, vals, t):
    ps = operands(it, st, vals)
    if ps is None:
        return NotImplemented
    in255(it, st, ps[0], "negation")
    return Big(P.neg(ps[0]))


def m_mul(it, st, fr, fn, vals, t):
    ps = operands(it, st, vals)
    if ps is None:
        return NotImplemented
    if not any(all(st.decide(q) for q in (P.sub(1 << 127, p), P.add(p, 1 << 127))) for p in ps):
        raise Gap("256-bit product of two wide factors")
    p = P.mul(*ps)
    in255(it, st, p, "multiplication")
    return Big(p)


def m_div(it, st, fr, fn, vals, t):
    ps = operands(it, st, vals)
    if ps is None:
        return NotImplemented
    a, b = ps
    in255(it, st, a, "division")
    if it.truth(st, it.cond(st, "eq", b)):
        raise Outcome("panic", "division by zero")
    if not all(st.decide(q) for q in (P.sub(1 << 127, b), P.add(b, 1 << 127))):
        raise Gap("256-bit division by a wide divisor")
    return Big(it.tdiv(st, a, b)[0])


def m_from(it, st, fr, fn, vals, t):
    if isinstance(vals[0], int):
        return NotImplemented
    return Big(it.num(st, vals[0]))


def m_try(it, st, fr, fn, vals, t):
    v = vals[0]
    if not isinstance(v, Big):
        return NotImplemented
    lo, hi = lim(128)
    if it.in_range(st, st.simp(v.p), lo, hi):
        return Agg(0, (st.simp(v.p),))
    return Agg(1, (Agg(OVERFLOW, ()),))


def m_cmp(rel):
    def f(it, st, fr, fn, vals, t):
        ps = operands(it, st, vals)
        if ps is None:
            return NotImplemented
        r = it.compare(st, rel, ps[0], ps[1])
        return Agg(1, (r,)) if rel == "PCmp" else r
    return f


def m_pcmp(it, st, fr, fn, vals, t):
    ps = operands(it, st, vals)
    if ps is None:
        return NotImplemented
    return Agg(1, (it.compare(st, "Cmp", ps[0], ps[1]),))


def m_sqrt(it, st, fr, fn, vals, t):
    ps = operands(it, st, vals)
    if ps is None:
        return NotImplemented
    a = ps[0]
    if not st.decide(a):
        raise Gap("square root of a possibly negative value")
    r = isqrt_sym(it, st, a)
    return Agg(0, (Big(r),))


def isqrt_sym(it, st, a):
    """r = floor(sqrt(a)) for a >= 0."""
    if isinstance(a, int):
        from math import isqrt
        return isqrt(a)
    key = ("isqrt", a)
    r = st.divs.get(key)
    if r is None:
        from math import isqrt
        l, h = st.interval(a)
        r = st.fresh("sqrt", isqrt(max(0, l or 0)), None if h is None else isqrt(h))
        st.divs[key] = r
        st.assume("ge", P.sub(a, P.mul(r, r)))
        st.assume("ge", P.sub(P.add(P.add(P.mul(r, r), P.scale(r, 2)), 0), a))
    return r


def m_dmw(it, st, fr, fn, vals, t):
    """div_mod_word(hi, lo, y) for hi < y: the quotient and remainder of hi * 2^64 + lo by y."""
    hi, lo, y = (it.num(st, v) for v in vals)
    if all(isinstance(x, int) for x in (hi, lo, y)):
        return NotImplemented
    if not st.decide(P.sub(P.sub(y, hi), 1), 2):
        raise Gap("div_mod_word: the high word is not below the divisor")
    N = P.add(P.scale(hi, B64), lo)
    key = ("dmw", N, y)
    r = st.divs.get(key)
    if r is None:
        q = st.fresh("qw", 0, B64 - 1)
        rem = P.sub(N, P.mul(q, y))
        st.divs[key] = r = q
        st.assume("ge", rem)
        st.assume("ge", P.sub(P.sub(y, 1), rem))
    return Agg(None, (r, P.sub(N, P.mul(r, y))))


def slice_words(it, st, p):
    if not isinstance(p, Ptr) or not isinstance(p.off, int) or not isinstance(p.len, int):
        raise Gap("slice with unknown bounds")
    return [it.num(st, it.load(st, p.base, p.path + (p.off + i,))) for i in range(p.len)]


def fresh_words(st, total, n, name):
    """n fresh words with the given (exact) value."""
    zero = 0
    while n > 1 and st.decide(P.sub(B64 ** (n - 1) - 1, total), 2):
        n -= 1
        zero += 1
    w = [st.fresh(name, 0, B64 - 1) for _ in range(n)]
    st.assume("eq", P.sub(sval(w), total))
    return [st.simp(x) for x in w] + [0] * zero


def m_slice(sign):
    def f(it, st, fr, fn, vals, t):
        """add_slice / sub_slice: a[..n] = a[..n] +- b modulo 2^(64 n), n the shorter length; the carry out."""
        a, b = slice_words(it, st, vals[0]), slice_words(it, st, vals[1])
        n = min(len(a), len(b))
        x = P.add(sval(a[:n]), P.scale(sval(b[:n]), sign))
        if isinstance(x, int):
            return NotImplemented
        out = P.sub(x, B64 ** n) if sign > 0 else P.sub(-1, x)      # >= 0: carry
        c = int(st.decide_or_fork(out))
        w = fresh_words(st, P.sub(x, P.scale(c, sign * B64 ** n)), n, "w")
        p = vals[0]
        for i in range(n):
            it.store(st, p.base, p.path + (p.off + i,), w[i])
        return c
    return f


def m_full_mul(it, st, fr, fn, vals, t):
    """full_mul_u64(v, x): the words of v * x."""
    v, x = [it.num(st, w) for w in words_of(vals[0])], it.num(st, vals[1])
    n = 4
    while n and v[n - 1] == 0:
        n -= 1
    p = P.mul(sval(v), x)
    if isinstance(p, int) or n > 2:
        return NotImplemented
    return Agg(None, tuple(fresh_words(st, p, n + 1, "p") + [0] * (4 - n)))


def m_pair_cmp(it, st, fr, fn, vals, t):
    """Lexicographic comparison of pairs of words: the comparison of hi * 2^64 + lo."""
    x, y = ([it.num(st, w) for w in deref(it, st, v).f] for v in vals)
    d = P.sub(P.add(P.scale(y[0], B64), y[1]), P.add(P.scale(x[0], B64), x[1]))
    op = fn["n"].rsplit("::", 1)[1]
    return it.cond(st, "ge", {"le": d, "lt": P.sub(d, 1), "ge": P.neg(d), "gt": P.sub(P.neg(d), 1)}[op])


DMW = {re.compile(r"^core::tuple::<impl std::cmp::PartialOrd for \(u64, u64\)>::(lt|le|gt|ge)$"): m_pair_cmp,
       U256 + "::div_mod_word": m_dmw, U256 + "::add_slice": m_slice(1), U256 + "::sub_slice": m_slice(-1), U256 + "::full_mul_u64": m_full_mul}

I = "<%s as std::" % I256
MODELS = {
    I + "ops::Add>::add": m_add,
    I + "ops::Sub>::sub": m_sub,
    I + "ops::Neg>::neg": m_neg,
    I + "ops::Mul>::mul": m_mul,
    I + "ops::Div>::div": m_div,
    I + "convert::From<i128>>::from": m_from,
    "fixnum::i256::<impl std::convert::TryFrom<%s> for i128>::try_from" % I256: m_try,
    I + "cmp::PartialOrd>::lt": m_cmp("Lt"),
    I + "cmp::PartialOrd>::le": m_cmp("Le"),
    I + "cmp::PartialOrd>::gt": m_cmp("Gt"),
    I + "cmp::PartialOrd>::ge": m_cmp("Ge"),
    I + "cmp::PartialEq>::eq": m_cmp("Eq"),
    I + "cmp::PartialEq>::ne": m_cmp("Ne"),
    I + "cmp::Ord>::cmp": m_cmp("Cmp"),
    I + "cmp::PartialOrd>::partial_cmp": m_pcmp,
    "<%s as fixnum::ops::sqrt::Sqrt>::sqrt" % I256: m_sqrt,
}
