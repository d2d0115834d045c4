"""Abstract strings: sequences of tokens (single bytes, runs of decimal digits denoting an abstract
number, runs of white space, other characters), and the transfer functions of the string functions
of core and of itoa over them.  A run of digits is (value, length); the length may be symbolic."""
from . import poly as P, cover
from .poly import Poly
from .state import Fork, Gap
from .mir import Agg, Ptr, UNIT
from .interp import Cond, Outcome, Dig

WS = (9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680) + tuple(range(0x2000, 0x200B)) + (0x2028, 0x2029, 0x202F, 0x205F, 0x3000)


class Tok:
    """k: 'c' one byte b; 'd' n digits of the number v; 'w' n >= 1 white space characters;
    'x' one character (code point p: abstract, n bytes); 'p' one byte known as an expression."""
    __slots__ = ("k", "v", "n")

    def __init__(self, k, v, n=1):
        self.k, self.v, self.n = k, v, n

    def __repr__(self):
        if self.k == "c":
            return "'%s'" % chr(self.v)
        return "%s(%s;%s)" % (self.k, P.show(self.v) if isinstance(self.v, (int, Poly)) else self.v, P.show(self.n))


class Seq:
    """An immutable string object."""
    __slots__ = ("toks", "len")

    def __init__(self, toks):
        self.toks = tuple(toks)
        n = 0
        for t in self.toks:
            n = P.add(n, t.n)
        self.len = n

    def __repr__(self):
        return "str" + repr(list(self.toks))


def lit(s):
    return [Tok("c", b) for b in s.encode()]


def sptr(toks):
    s = Seq(toks)
    return Ptr(("t", s), (), 0, s.len)


def digits(it, st, v, n, j0, j1):
    """Token for the digits j0 .. j1 (exclusive, from the left) of the n-digit number v."""
    m = j1 - j0
    if m == 0:
        return None
    lo = it.fdiv(st, v, 10 ** (n - j1), "dg") if n - j1 else v
    if j0 == 0:
        return Tok("d", st.simp(lo), m)
    hi = it.fdiv(st, v, 10 ** (n - j0), "dg")
    return Tok("d", st.simp(P.sub(lo, P.scale(hi, 10 ** m))), m)


def dig_poly(it, st, d):
    """The byte of one digit as a number."""
    if isinstance(d.v, int):
        return 48 + d.v // 10 ** (d.n - 1 - d.j) % 10
    key = ("digit", d.v, d.n - 1 - d.j)
    s = st.divs.get(key)
    if s is None:
        k = d.n - 1 - d.j
        q = it.fdiv(st, d.v, 10 ** k, "dg") if k else d.v
        q1 = it.fdiv(st, d.v, 10 ** (k + 1), "dg")
        s = st.fresh("digit", 0, 9)
        st.divs[key] = s
        st.assume("eq", P.sub(P.sub(q, P.scale(q1, 10)), s))
    return P.add(s, 48)


def cell(it, st, seq, i):
    """Byte i of a string object."""
    pos = 0
    i = st.simp(i)
    for t in seq.toks:
        d = st.simp(P.sub(i, pos))
        n = st.simp(t.n)
        if isinstance(d, int) and d < 0:
            raise Outcome("ub", "access before the string")
        inside = P.sub(P.sub(n, d), 1)
        if (isinstance(inside, int) and inside >= 0) or st.decide(inside):
            if t.k == "c":
                return t.v
            if t.k == "p":
                return t.v
            if t.k == "d" and isinstance(n, int) and isinstance(d, int):
                return Dig(t.v, n, d)
            if t.k == "x":
                if n == 1 or not st.decide_or_fork(P.sub(d, 1)):
                    return xbyte(it, st, t)
                key = ("inner", t, d)
                s = st.divs.get(key)
                if s is None:
                    s = st.divs[key] = st.fresh("inner", 0x80, 0xBF)
                return s
            if t.k == "d":
                key = ("anydigit", seq, i)
                s = st.divs.get(key)
                if s is None:
                    it.approximates("a digit")
                    s = st.divs[key] = P.add(st.fresh("digit", 0, 9), 48)
                return s
            if t.k == "w":
                # no byte of a white space character is a printable ASCII character
                key = ("wsbyte", seq, i)
                s = st.divs.get(key)
                if s is None:
                    it.approximates("a white space character")
                    s = st.divs[key] = st.fresh("wsbyte", 9, 0xE3)
                lo, hi = st.interval(s)
                if lo < 128 and hi > 32:
                    raise Fork([[("ge", P.sub(32, s))], [("ge", P.sub(s, 128))]])
                return s
            raise Gap("byte of %r" % t)
        if not (isinstance(inside, int) or st.decide(inside) is False):
            raise Fork([[("ge", inside)], [("ge", P.sub(-1, inside))]])
        pos = P.add(pos, n)
    raise Outcome("ub", "access behind the string")


def xbyte(it, st, t):
    key = ("xbyte", t)
    s = st.divs.get(key)
    if s is None:
        # the first byte of the character: itself when it is ASCII, at least 0xC2 otherwise
        if it.truth(st, it.cond(st, "ge", P.sub(127, t.v))):
            s = t.v
        else:
            s = st.fresh("lead", 0xC2, 0xF4)
        st.divs[key] = s
    return s


def merge(it, st, cells):
    """Tokens of a run of memory cells."""
    out = []
    i = 0
    while i < len(cells):
        c = cells[i]
        if isinstance(c, Agg):
            c = it.strip(c)
        if isinstance(c, int):
            out.append(Tok("c", c))
            i += 1
        elif isinstance(c, Dig):
            j = i + 1
            while j < len(cells) and isinstance(cells[j], Dig) and cells[j].v == c.v and cells[j].n == c.n and cells[j].j == c.j + j - i:
                j += 1
            out.append(digits(it, st, c.v, c.n, c.j, c.j + j - i))
            i = j
        elif isinstance(c, Poly):
            x = st.simp(c)
            out.append(Tok("c", x) if isinstance(x, int) else Tok("p", x))
            i += 1
        else:
            raise Gap("string byte %r" % (c,))
    return out


def view(it, st, p):
    """The tokens of a &str / &[u8]."""
    if not isinstance(p, Ptr):
        raise Gap("string %r" % (p,))
    if p.base[0] == "dangling":
        return []
    if p.base[0] == "t":
        return subseq(it, st, p.base[1], p.off if p.off is not None else 0, p.len if p.off is not None else p.base[1].len)
    n = st.simp(p.len)
    off = st.simp(p.off)
    if not isinstance(n, int) or not isinstance(off, int):
        raise Gap("memory slice of unknown length")
    return merge(it, st, [it.load(st, p.base, p.path + (off + i,)) for i in range(n)])


def subseq(it, st, seq, off, n):
    off, n = st.simp(off), st.simp(n)
    out = []
    pos = 0
    end = P.add(off, n)
    for t in seq.toks:
        tn = st.simp(t.n)
        a, b = pos, P.add(pos, tn)
        pos = b
        # part of [a, b) inside [off, end)
        x = clip(st, P.sub(off, a), tn)          # skipped at the front
        y = clip(st, P.sub(end, a), tn)          # end of the part
        if y == x or (not isinstance(y, int) and st.simp(P.sub(y, x)) == 0):
            continue
        m = st.simp(P.sub(y, x))
        if x == 0 and m == tn:
            out.append(t)
        elif t.k == "d" and isinstance(x, int) and isinstance(m, int) and isinstance(tn, int):
            out.append(digits(it, st, t.v, tn, x, x + m))
        elif t.k == "d":
            # part of a run of unknown length: some digits
            key = ("part", seq, t, x, m)
            v = st.divs.get(key)
            if v is None:
                it.approximates("part of a number")
                v = st.divs[key] = st.fresh("part", 0, None if not isinstance(m, int) else 10 ** m - 1)
            out.append(Tok("d", v, m))
        elif t.k == "w":
            out.append(Tok("w", t.v, m))
        else:
            raise Gap("part of %r" % t)
    return out


def clip(st, x, n):
    """min(max(x, 0), n)"""
    x = st.simp(x)
    if isinstance(x, int) and x <= 0:
        return 0
    d = P.sub(x, n)
    if isinstance(d, int):
        return n if d >= 0 else x
    if st.decide_or_fork(d):
        return n
    if isinstance(x, int) or st.decide_or_fork(x):
        return x
    return 0


def advance(p, k, n=None):
    """Substring of p: skip k bytes, n bytes long."""
    return Ptr(p.base, p.path, P.add(p.off, k), P.sub(p.len, k) if n is None else n)


def total(toks):
    n = 0
    for t in toks:
        n = P.add(n, t.n)
    return n


# ------------------------------------------------------------------ classes of characters
def is_ws(it, st, t):
    if t.k == "c":
        return t.v in WS
    if t.k == "d":
        return False
    if t.k == "w":
        return True
    if t.k in ("x", "p"):
        for w in WS:
            if it.truth(st, it.cond(st, "eq", P.sub(t.v, w))):
                return True
        return False
    raise Gap("white space test of %r" % t)


def is_char(it, st, t, ch):
    """Does every character of the token equal ch / can none of them?  True, False or 'mixed'."""
    if t.k == "c":
        return t.v == ch
    if t.k == "d":
        return "mixed" if 48 <= ch <= 57 else False
    if t.k == "x":
        return it.truth(st, it.cond(st, "eq", P.sub(t.v, ch)))
    if t.k == "p":
        return it.truth(st, it.cond(st, "eq", P.sub(t.v, ch)))
    if t.k == "w":
        if ch in WS:
            raise Gap("search for white space")
        return False
    raise Gap("character test")


# ------------------------------------------------------------------ transfer functions
def m_trim(left, right):
    def f(it, st, fr, fn, vals, t):
        p = vals[0]
        v = view(it, st, p)
        a = 0
        if left:
            while v and is_ws(it, st, v[0]):
                a = P.add(a, v.pop(0).n)
        if right:
            while v and is_ws(it, st, v[-1]):
                v.pop()
        return advance(p, a, total(v)) if v or p.off is not None else p
    return f


def pattern(it, st, v):
    if isinstance(v, int):
        return v
    if isinstance(v, Poly):
        v = st.simp(v)
        if isinstance(v, int):
            return v
    raise Gap("search pattern %r" % (v,))


def str_pattern(it, st, v):
    toks = view(it, st, v)
    if len(toks) == 1 and toks[0].k == "c":
        return toks[0].v
    raise Gap("search for a string")


def find(it, st, p, ch, last=False):
    """Offset of the first (last) occurrence of a non-digit character; None if absent."""
    v = view(it, st, p)
    pos = 0
    offs = []
    for t in v:
        c = is_char(it, st, t, ch)
        if c == "mixed":
            raise Gap("search for a digit")
        if c:
            if not last:
                return pos
            offs.append(pos)
        pos = P.add(pos, t.n)
    return offs[-1] if offs else None


def some(x):
    return Agg(1, (x,))


NONE = Agg(0, ())


def m_split_once(pat, last=False):
    def f(it, st, fr, fn, vals, t):
        p = vals[0]
        if not isinstance(p, Ptr) or p.base[0] == "dangling":
            return NotImplemented
        i = find(it, st, p, pat(it, st, vals[1]), last)
        if i is None:
            return NONE
        return some(Agg(None, (advance(p, 0, i), advance(p, P.add(i, 1)))))
    return f


def m_find(pat, last=False):
    def f(it, st, fr, fn, vals, t):
        i = find(it, st, vals[0], pat(it, st, vals[1]), last)
        return NONE if i is None else some(i)
    return f


def m_contains(pat):
    def f(it, st, fr, fn, vals, t):
        return int(find(it, st, vals[0], pat(it, st, vals[1])) is not None)
    return f


def next_item(code):
    """Chars::next / Bytes::next on a run: one of its characters, then any shorter run.  A state that
    differs from the one of an earlier iteration in the names of its symbols only is not followed again."""
    def f(it, st, fr, fn, vals, t):
        p = vals[0]
        if not isinstance(p, Ptr):
            return NotImplemented
        itr = it.load(st, p.base, p.path)
        ptrs = []

        def walk(v):
            if isinstance(v, Ptr):
                ptrs.append(v)
            elif isinstance(v, Agg):
                for x in v.f:
                    walk(x)
        walk(itr)
        if len(ptrs) != 2 or ptrs[0].base[0] != "t" or ptrs[0].base != ptrs[1].base or not ptrs[0].path or not ptrs[1].path:
            return NotImplemented
        toks, a = item_tokens(it, st, itr)
        toks = [x for x in toks if st.simp(x.n) != 0]
        if not toks:
            return NotImplemented
        x = toks[0]
        n = st.simp(x.n)
        whole = code and x.k == "x"
        if whole and n == 1:
            return NotImplemented
        if isinstance(n, int) and x.k != "w" and not whole:
            return NotImplemented
        if not isinstance(n, int) and not st.decide_or_fork(P.sub(n, 1)):
            toks.pop(0)
            if not toks:
                return NONE
            raise Gap("next after an empty run")
        rest = toks[1:]
        if whole:
            c = x.v
        elif x.k == "d" or x.k == "w":
            it.approximates("a run of characters")
            mark = ("covered", fr.uid, fr.b, x)
            if mark not in st.visits:
                cover.check(it, st)
                st.visits[mark] = 1
            if x.k == "w":
                # any white space character (any byte of one)
                key = ("wschar", x)
                if key not in st.divs:
                    st.divs[key] = st.fresh("space", 0, 0x3000)
                c = st.divs[key]
                every = sorted(WS) if code else sorted({b for w in WS for b in chr(w).encode()})
                runs = []
                for w in every:
                    if runs and runs[-1][1] == w - 1:
                        runs[-1][1] = w
                    else:
                        runs.append([w, w])
                lo, hi = st.interval(c)
                if not any(l <= lo and hi <= h for l, h in runs):
                    raise Fork([[("ge", P.sub(c, l)), ("ge", P.sub(h, c))] for l, h in runs])
            last = n == 1 if isinstance(n, int) else not st.decide_or_fork(P.sub(n, 2))
            if x.k == "w":
                st.divs.pop(key)
            if x.k == "d":
                c = P.add(st.fresh("digit", 0, 9), 48)
            if not last:
                st.visits["runs"] = st.visits.get("runs", 0) + 1
                m = st.fresh("left", 1, None)
                st.assume("ge", P.sub(P.sub(n, 1), m))
                rest = [Tok(x.k, st.fresh("tail", 0, None) if x.k == "d" else None, m)] + rest
        else:
            return NotImplemented
        q = sptr(rest)
        new = [Ptr(q.base, a.path[:-1] + (0,)), Ptr(q.base, a.path[:-1] + (q.len,))]

        def rebuild(v):
            if isinstance(v, Ptr):
                return new.pop(0)
            if isinstance(v, Agg):
                return Agg(v.v, tuple(rebuild(y) for y in v.f))
            return v
        it.store(st, p.base, p.path, rebuild(itr))
        return some(c)
    return f


def edge(it, st, p, ch, last):
    v = view(it, st, p)
    if not v:
        return False
    c = is_char(it, st, v[-1 if last else 0], ch)
    if c == "mixed":
        raise Gap("digit pattern")
    return c


def m_edge(pat, last, strip):
    def f(it, st, fr, fn, vals, t):
        p = vals[0]
        r = edge(it, st, p, pat(it, st, vals[1]), last)
        if not strip:
            return int(r)
        if not r:
            return NONE
        return some(advance(p, 0 if last else 1, P.sub(p.len, 1)))
    return f


def m_trim_matches(left, right):
    def f(it, st, fr, fn, vals, t):
        p, ch = vals[0], pattern(it, st, vals[1])
        v = view(it, st, p)
        cut = 0
        front = 0
        while right and v:
            x = v[-1]
            c = is_char(it, st, x, ch)
            if c is False:
                break
            if c is True:
                cut = P.add(cut, v.pop().n)
                continue
            n = st.simp(x.n)
            if not isinstance(n, int):
                raise Gap("trimming a run of unknown length")
            # peel one digit after the other
            k = 0
            while k < n:
                d = dig_poly(it, st, Dig(x.v, n, n - 1 - k))
                if not it.truth(st, it.cond(st, "eq", P.sub(d, ch))):
                    break
                k += 1
            cut = P.add(cut, k)
            if k < n:
                break
            v.pop()
        while left and v:
            x = v[0]
            c = is_char(it, st, x, ch)
            if c is False:
                break
            if c is True:
                front = P.add(front, v.pop(0).n)
                continue
            n = st.simp(x.n)
            if not isinstance(n, int):
                raise Gap("trimming a run of unknown length")
            k = 0
            while k < n:
                d = dig_poly(it, st, Dig(x.v, n, k))
                if not it.truth(st, it.cond(st, "eq", P.sub(d, ch))):
                    break
                k += 1
            front = P.add(front, k)
            if k < n:
                break
            v.pop(0)
        return advance(p, front, P.sub(P.sub(p.len, cut), front))
    return f


EMPTY, INVALID, POSOVER, NEGOVER = 0, 1, 2, 3


def perr(kind):
    return Agg(1, (Agg(None, (Agg(kind, ()),)),))


def m_parse(it, st, fr, fn, vals, t):
    """<iN as FromStr>::from_str"""
    ty = it.d.ty(t[6])
    rty = ty["variants"][0]["fields"][0]
    lo, hi = it.rng(rty)
    v = view(it, st, vals[0])
    v = [x for x in v if st.simp(x.n) != 0]
    if not v:
        return perr(EMPTY)
    neg = False
    # an empty run may hide what follows it: settle the lengths first
    for x in v:
        n = st.simp(x.n)
        if not isinstance(n, int):
            if not st.decide_or_fork(P.sub(n, 1)):
                raise Fork([[("eq", n)]])
    if v[0].k == "c" and v[0].v in (43, 45):
        neg = v[0].v == 45
        v = v[1:]
        if not v or (neg and lo == 0):
            return perr(INVALID)
    elif v[0].k == "x":
        # a sign character?
        for s in (43, 45):
            if it.truth(st, it.cond(st, "eq", P.sub(v[0].v, s))):
                raise Gap("abstract sign character")
    val = 0
    rest = []
    for x in v:
        if x.k == "d":
            rest.append(x)
        elif x.k == "c":
            if not 48 <= x.v <= 57:
                return self_err(v)
            rest.append(Tok("d", x.v - 48, 1))
        elif x.k in ("x", "p"):
            if it.truth(st, it.cond(st, "ge", P.sub(x.v, 48))) and it.truth(st, it.cond(st, "ge", P.sub(57, x.v))):
                rest.append(Tok("d", P.sub(x.v, 48), 1))
            else:
                return self_err(v)
        elif x.k == "w":
            return self_err(v)
    for i, x in enumerate(rest):
        n = st.simp(x.n)
        if i and not isinstance(n, int):
            if val == 0:
                val = x.v
                continue
            raise Gap("digits of unknown number behind digits")
        val = P.add(P.scale(val, 10 ** n) if i else 0, x.v)
    if neg:
        val = P.neg(val)
    val = st.simp(val)
    if isinstance(val, int):
        if val > hi:
            return perr(POSOVER)
        if val < lo:
            return perr(NEGOVER)
        return Agg(0, (val,))
    if it.in_range(st, val, lo, hi):
        return Agg(0, (val,))
    return perr(NEGOVER if neg else POSOVER)


def self_err(v):
    # InvalidDigit, or an overflow noticed before the invalid character
    return perr(INVALID)


def closure_of(it, m, argty):
    """The body of the closure (or function item) of this type used below function m."""
    t = it.d.ty(argty)
    if t["k"] == "fndef":
        return t["inst"], False
    if t["k"] != "closure":
        raise Gap("predicate of type " + t["s"])
    seen, work = set(), [m]
    while work:
        f = it.d.fn(work.pop())
        if f is None or f["body"] is None:
            continue
        for b in f["body"]:
            if b["t"][0] != "call" or not isinstance(b["t"][1], str):
                continue
            c = b["t"][1]
            if c in seen:
                continue
            seen.add(c)
            g = it.d.fn(c)
            if g is None:
                continue
            if "{closure" in g["n"].rsplit("::", 1)[-1] and g["argc"] >= 1:
                ty = g["locals"][1]
                if ty == argty:
                    return c, False
                rt = it.d.ty(ty)
                if rt["k"] == "ref" and rt["to"] == argty:
                    return c, True
            work.append(c)
    raise Gap("body of " + t["s"])


def subcall(it, st, inst, args, split=None):
    """Analyse a call to the end and return its only possible value; the state must not split."""
    from .interp import Frame
    s = st.copy()
    fn = it.d.fn(inst)
    if fn is None or fn["body"] is None:
        raise Gap("predicate without a body")
    nf = Frame(fn, len(fn["locals"]), None, None, fn["span"])
    if fn["argc"] != len(args):
        raise Gap("arity of predicate")
    for i, a in enumerate(args):
        nf.loc[1 + i] = a
    keep = s.frames
    s.frames = [nf]
    for i, a in enumerate(args):
        pass
    vals = []
    for kind, v, s2 in it.run(s):
        if kind != "ret":
            raise Gap("predicate: %s %s" % (kind, v))
        if not isinstance(v, int):
            # decide inside this outcome
            c = v
            v = None
            if isinstance(c, Cond):
                if c.k == "ge":
                    v = s2.decide(c.p)
                else:
                    v = s2.zero(c.p)
                    if v is not None and c.k == "ne":
                        v = not v
                if v is None and split is not None and set(c.p.syms()) <= set(split.syms()):
                    # the character decides
                    it.truth(st, c)
                v = None if v is None else int(v)
        vals.append((v, s2))
    if split is not None and len({v for v, _ in vals}) > 1:
        # outcomes differ: split the character at a border between them
        lo, hi = st.interval(split)
        for v, s2 in vals:
            l, h = s2.interval(split)
            for k in (l, None if h is None else h + 1):
                if k is not None and lo < k <= hi:
                    raise Fork([[("ge", P.sub(split, k))], [("ge", P.sub(k - 1, split))]])
    vals = [v for v, _ in vals]
    if not vals or any(x is None or x != vals[0] for x in vals):
        return None
    return vals[0]


def item_tokens(it, st, itr):
    """Remaining tokens of a Chars / Bytes / slice::Iter value, and the item kind."""
    ptrs = []

    def walk(v):
        if isinstance(v, Ptr):
            ptrs.append(v)
        elif isinstance(v, Agg):
            for x in v.f:
                walk(x)
    walk(itr)
    if len(ptrs) != 2:
        raise Gap("iterator %r" % (itr,))
    a, b = ptrs
    if a.base[0] == "dangling":
        return [], a
    if a.base != b.base or not a.path or not b.path:
        if a.base == b.base and a.path == b.path:
            return [], a
        raise Gap("iterator bounds")
    off = a.path[-1]
    return view(it, st, Ptr(a.base, a.path[:-1], off, P.sub(b.path[-1], off))), a


def holds(it, st, fn, t, clo, x, ref=False, byte=False):
    """Whether the predicate (a closure or function of one character) holds for every / for no character
    of token x: True, False or None."""
    inst, byref = closure_of(it, t[1], t[4][1])
    if x.k in ("c", "p", "x"):
        ch = x.v
    elif x.k == "d":
        key = ("somedigit", x)
        ch = st.divs.get(key)
        if ch is None:
            ch = st.divs[key] = P.add(st.fresh("digit", 0, 9), 48)
    else:
        ch = None
    cands = [ch]
    if x.k == "w":
        # every white space character must give the same answer
        cands = sorted({b for w in WS for b in chr(w).encode()}) if byte else list(WS)
    elif byte and x.k == "x" and st.simp(x.n) != 1:
        # some bytes of a character outside of ASCII
        cands = [st.fresh("byte", 0x80, 0xF4)]
    rs = set()
    for ch in cands:
        a = ch
        if ref:
            st.heap[("item", x)] = ch
            a = Ptr(("h", ("item", x)), ())
        c = clo
        if byref:
            st.heap[("clo", fn["n"])] = clo
            c = Ptr(("h", ("clo", fn["n"])), ())
        args = [c, a] if it.d.ty(t[4][1])["k"] == "closure" else [a]
        rs.add(subcall(it, st, inst, args, ch if isinstance(ch, Poly) and x.k not in ("d", "w") else None))
    r = rs.pop() if len(rs) == 1 else None
    return None if r is None else bool(r)


def m_all(any_, ref, byte=False):
    def f(it, st, fr, fn, vals, t):
        itr = vals[0]
        if isinstance(itr, Ptr):
            itr = it.load(st, itr.base, itr.path)
        toks, _ = item_tokens(it, st, itr)
        for x in toks:
            n = st.simp(x.n)
            if n == 0:
                continue
            if not isinstance(n, int) and not st.decide_or_fork(P.sub(n, 1)):
                continue
            r = holds(it, st, fn, t, vals[1], x, ref, byte)
            if r is None:
                raise Gap("predicate undecided on %r" % x)
            if any_ and r:
                return 1
            if not any_ and not r:
                return 0
        return 0 if any_ else 1
    return f


def m_position(ref, byte):
    """Iterator::position over bytes"""
    def f(it, st, fr, fn, vals, t):
        itr = vals[0]
        if isinstance(itr, Ptr):
            itr = it.load(st, itr.base, itr.path)
        toks, _ = item_tokens(it, st, itr)
        pos = 0
        for x in toks:
            n = st.simp(x.n)
            if n == 0:
                continue
            if not isinstance(n, int) and not st.decide_or_fork(P.sub(n, 1)):
                continue
            if not byte and n != 1 and x.k != "d":
                raise Gap("number of characters of %r" % x)
            r = holds(it, st, fn, t, vals[1], x, ref, byte)
            if r is None:
                raise Gap("predicate undecided on %r" % x)
            if r:
                return some(pos)
            pos = P.add(pos, n)
        return NONE
    return f


def m_search(kind, last=False):
    """str methods that take a predicate as their pattern"""
    def f(it, st, fr, fn, vals, t):
        p = vals[0]
        if not isinstance(p, Ptr) or p.base[0] == "dangling":
            return NotImplemented
        toks = []
        for x in view(it, st, p):
            n = st.simp(x.n)
            if n == 0:
                continue
            if not isinstance(n, int) and not st.decide_or_fork(P.sub(n, 1)):
                continue
            toks.append(x)
        pos = p.len if last else 0
        if last:
            toks.reverse()
        while toks:
            x = toks.pop(0)
            r = holds(it, st, fn, t, vals[1], x)
            if r is None and x.k == "d" and isinstance(st.simp(x.n), int):
                # one digit after the other
                n = st.simp(x.n)
                ds = [Tok("p", dig_poly(it, st, Dig(x.v, n, i)), 1) for i in range(n)]
                toks = (ds[::-1] if last else ds) + toks
                continue
            if r is None:
                raise Gap("predicate undecided on %r" % x)
            one = st.simp(x.n) == 1 or x.k == "x"
            if last:
                pos = P.sub(pos, x.n)
            if kind in ("starts", "strip"):
                if kind == "starts":
                    return int(r)
                if not r:
                    return NONE
                if x.k == "w":
                    raise Gap("length of one white space character")
                k = 1 if x.k == "d" else x.n
                return some(advance(p, 0 if last else k, P.sub(p.len, k)))
            if kind == "trim":
                if not r:
                    return advance(p, 0, P.add(pos, x.n)) if last else advance(p, pos)
            elif r:
                if kind == "contains":
                    return 1
                at = pos if not last or one else P.sub(P.add(pos, x.n), 1)
                if last and not one and x.k != "d":
                    raise Gap("length of one white space character")
                if kind == "find":
                    return some(at)
                if x.k == "w":
                    raise Gap("length of one white space character")
                return some(Agg(None, (advance(p, 0, at), advance(p, P.add(at, 1 if x.k == "d" else x.n)))))
            if not last:
                pos = P.add(pos, x.n)
        if kind in ("contains", "starts"):
            return 0
        if kind == "trim":
            return advance(p, 0, 0) if last else advance(p, p.len)
        return NONE
    return f


def m_trim_both():
    """str::trim_matches with a predicate"""
    left, right = m_search("trim"), m_search("trim", True)

    def f(it, st, fr, fn, vals, t):
        p = left(it, st, fr, fn, vals, t)
        return p if p is NotImplemented else right(it, st, fr, fn, [p] + list(vals[1:]), t)
    return f


def m_char_searcher(back):
    """CharSearcher::next_match / next_match_back"""
    def f(it, st, fr, fn, vals, t):
        p = vals[0]
        v = it.load(st, p.base, p.path)
        hay, lo, hi, ch = v.f[0], it.num(st, v.f[1]), it.num(st, v.f[2]), pattern(it, st, v.f[3])
        if hay.base[0] == "dangling":
            return NotImplemented
        if ch >= 128:
            raise Gap("search for a character outside of ASCII")
        i = find(it, st, advance(hay, lo, P.sub(hi, lo)), ch, back)
        if i is None:
            new = (lo, lo) if back else (hi, hi)
        else:
            i = P.add(lo, i)
            new = (lo, i) if back else (P.add(i, 1), hi)
        it.store(st, p.base, p.path, Agg(v.v, (v.f[0],) + new + v.f[3:]))
        return NONE if i is None else some(Agg(None, (i, P.add(i, 1))))
    return f


def m_nth(it, st, fr, fn, vals, t):
    """Chars::nth"""
    p = vals[0]
    itr = it.load(st, p.base, p.path)
    toks, a = item_tokens(it, st, itr)
    k = it.num(st, vals[1])
    pos = 0
    got = None
    for x in toks:
        n = st.simp(x.n)
        if n == 0:
            continue
        if x.k in ("c", "p", "x"):
            if st.decide_or_fork(P.sub(k, 1)):
                k = P.sub(k, 1)
                pos = P.add(pos, n)
                continue
            got, pos = x.v, P.add(pos, n)
            break
        if x.k != "d":
            raise Gap("number of characters of %r" % x)
        if st.decide_or_fork(P.sub(k, n)):
            k = P.sub(k, n)
            pos = P.add(pos, n)
            continue
        at = P.add(pos, k)
        got, pos = it.load(st, a.base, a.path[:-1] + (P.add(a.path[-1], at),)), P.add(at, 1)
        break
    done = []

    def rebuild(v):
        if isinstance(v, Ptr):
            done.append(v)
            return Ptr(a.base, a.path[:-1] + (P.add(a.path[-1], pos),)) if len(done) == 1 else v
        if isinstance(v, Agg):
            return Agg(v.v, tuple(rebuild(y) for y in v.f))
        return v
    it.store(st, p.base, p.path, rebuild(itr))
    return NONE if got is None else some(got)


_points = {}


def change_points(name, pred):
    if name not in _points:
        out, last = [], pred(0)
        for c in range(1, 0x110000):
            if 0xD800 <= c < 0xE000:
                continue
            r = pred(c)
            if r != last:
                out.append(c)
                last = r
        _points[name] = out
    return _points[name]


def split_char(it, st, v, pts):
    """A representative of the character after splitting at the change points of a predicate."""
    lo, hi = st.interval(v)
    pts = [c for c in pts if (lo is None or c > lo) and (hi is None or c <= hi)]
    if pts:
        c = pts[len(pts) // 2]
        raise Fork([[("ge", P.sub(v, c))], [("ge", P.sub(c - 1, v))]])
    return lo


def m_char(name, pred):
    def f(it, st, fr, fn, vals, t):
        v = vals[0]
        if isinstance(v, Ptr):
            v = it.load(st, v.base, v.path)
        v = it.num(st, v)
        if isinstance(v, int):
            return int(pred(v))
        return int(pred(split_char(it, st, v, change_points(name, pred))))
    return f


def digit_of(c, radix):
    if 48 <= c <= 57:
        d = c - 48
    elif 65 <= c <= 90:
        d = c - 55
    elif 97 <= c <= 122:
        d = c - 87
    else:
        return None
    return d if d < radix else None


DIGIT_POINTS = (48, 58, 65, 91, 97, 123)


def m_digit(full):
    def f(it, st, fr, fn, vals, t):
        v = vals[0]
        if isinstance(v, Ptr):
            v = it.load(st, v.base, v.path)
        v, radix = it.num(st, v), it.num(st, vals[1])
        if not isinstance(radix, int) or not 2 <= radix <= 36:
            raise Gap("radix")
        if isinstance(v, int):
            d = digit_of(v, radix)
            return int(d is not None) if not full else Agg(0, ()) if d is None else Agg(1, (d,))
        c = split_char(it, st, v, sorted({48, 48 + min(10, radix), 65, 97} | ({55 + radix, 87 + radix} if radix > 10 else set())))
        d = digit_of(c, radix)
        if not full:
            return int(d is not None)
        return Agg(0, ()) if d is None else Agg(1, (P.add(v, d - c),))
    return f


def ndigits(x):
    return len(str(x))


def m_itoa(it, st, fr, fn, vals, t):
    v = it.num(st, vals[1])
    neg = False
    if isinstance(v, int):
        return sptr(lit(str(v)))
    if not st.decide_or_fork(v):
        neg = True
        v = P.neg(v)
    l, h = st.interval(v)
    l = max(0, l or 0)
    if h is None:
        raise Gap("unbounded number")
    alts = []
    for n in range(ndigits(l), ndigits(h) + 1):
        lo, hi = (0 if n == 1 else 10 ** (n - 1)), 10 ** n - 1
        a, b = st.decide(P.sub(v, lo)), st.decide(P.sub(hi, v))
        if a is False or b is False:
            continue
        if a and b:
            return sptr((lit("-") if neg else []) + [Tok("d", v, n)])
        alts.append([("ge", P.sub(v, lo)), ("ge", P.sub(hi, v))])
    if not alts:
        raise Gap("digits")
    raise Fork(alts)


def m_write_str(it, st, fr, fn, vals, t):
    st.effects = st.effects + (("str", tuple(view(it, st, vals[1]))),)
    return Agg(0, (UNIT,))


def m_write_char(it, st, fr, fn, vals, t):
    c = it.num(st, vals[1])
    st.effects = st.effects + (("str", (Tok("c", c) if isinstance(c, int) else Tok("p", c),)),)
    return Agg(0, (UNIT,))


def m_boundary(it, st, fr, fn, vals, t):
    """str::is_char_boundary"""
    p, i = vals[0], it.num(st, vals[1])
    v = view(it, st, p)
    if all(x.k in ("c", "d") and (x.k == "d" or x.v < 128) for x in v):
        # ASCII only: every index up to the length is a boundary
        return int(it.in_range(st, i, 0, 1 << 62) and st.decide_or_fork(P.sub(p.len, i)) if not (isinstance(i, int) and isinstance(p.len, int)) else 0 <= i <= p.len)
    return NotImplemented


def cut_at(it, st, v, i):
    """Number of the token that begins at byte i (len(v) for the end); None if that isn't evident."""
    pos = 0
    for k in range(len(v) + 1):
        if st.simp(P.sub(i, pos)) == 0:
            return k
        if k < len(v):
            pos = P.add(pos, v[k].n)
    return None


def m_slice(kind, opt):
    """str[a..b] for bounds that separate two tokens: those are character boundaries"""
    def f(it, st, fr, fn, vals, t):
        r, p = vals
        if not isinstance(p, Ptr) or p.base[0] == "dangling" or not isinstance(r, Agg):
            return NotImplemented
        v = view(it, st, p)
        a = 0 if kind == "to" else it.num(st, r.f[0])
        b = p.len if kind == "from" else it.num(st, r.f[-1])
        i, j = cut_at(it, st, v, a), len(v) if kind == "from" else cut_at(it, st, v, b)
        if i is None or j is None or i > j:
            return NotImplemented
        s = advance(p, a, P.sub(b, a))
        return some(s) if opt else s
    return f


S = "core::str::<impl str>::"
import re
import unicodedata
MODELS = {
    re.compile(r"^core::str::<impl str>::trim$"): m_trim(True, True),
    re.compile(r"^core::str::<impl str>::trim_(start|left)$"): m_trim(True, False),
    re.compile(r"^core::str::<impl str>::trim_(end|right)$"): m_trim(False, True),
    S + "split_once::<char>": m_split_once(pattern),
    S + "rsplit_once::<char>": m_split_once(pattern, True),
    S + "split_once::<&str>": m_split_once(str_pattern),
    S + "find::<char>": m_find(pattern),
    S + "rfind::<char>": m_find(pattern, True),
    S + "contains::<char>": m_contains(pattern),
    S + "starts_with::<char>": m_edge(pattern, False, False),
    S + "ends_with::<char>": m_edge(pattern, True, False),
    S + "strip_prefix::<char>": m_edge(pattern, False, True),
    S + "strip_suffix::<char>": m_edge(pattern, True, True),
    S + "starts_with::<&str>": m_edge(str_pattern, False, False),
    S + "trim_end_matches::<char>": m_trim_matches(False, True),
    S + "trim_start_matches::<char>": m_trim_matches(True, False),
    S + "trim_matches::<char>": m_trim_matches(True, True),
    S + "is_char_boundary": m_boundary,
    re.compile(r"^core::str::<impl str>::find::<(?!char>|&|\[)"): m_search("find"),
    re.compile(r"^core::str::<impl str>::rfind::<(?!char>|&|\[)"): m_search("find", True),
    re.compile(r"^core::str::<impl str>::contains::<(?!char>|&|\[)"): m_search("contains"),
    re.compile(r"^core::str::<impl str>::starts_with::<(?!char>|&|\[)"): m_search("starts"),
    re.compile(r"^core::str::<impl str>::ends_with::<(?!char>|&|\[)"): m_search("starts", True),
    re.compile(r"^core::str::<impl str>::strip_prefix::<(?!char>|&|\[)"): m_search("strip"),
    re.compile(r"^core::str::<impl str>::strip_suffix::<(?!char>|&|\[)"): m_search("strip", True),
    re.compile(r"^core::str::<impl str>::split_once::<(?!char>|&|\[)"): m_search("split"),
    re.compile(r"^core::str::<impl str>::rsplit_once::<(?!char>|&|\[)"): m_search("split", True),
    re.compile(r"^core::str::<impl str>::trim_(start|left)_matches::<(?!char>|&|\[)"): m_search("trim"),
    re.compile(r"^core::str::<impl str>::trim_(end|right)_matches::<(?!char>|&|\[)"): m_search("trim", True),
    re.compile(r"^core::str::<impl str>::trim_matches::<(?!char>|&|\[)"): m_trim_both(),
    re.compile(r"^<std::str::Bytes<'_> as std::iter::Iterator>::position::<"): m_position(False, True),
    re.compile(r"^<std::slice::Iter<'_, u8> as std::iter::Iterator>::position::<"): m_position(True, True),
    re.compile(r"^<std::str::Chars<'_> as std::iter::Iterator>::position::<"): m_position(False, False),
    re.compile(r"^core::str::next_code_point::<'_, std::slice::Iter<'_, u8>>$"): next_item(True),
    re.compile(r"^<std::str::Chars<'_> as std::iter::Iterator>::next$"): next_item(True),
    re.compile(r"^<std::str::Bytes<'_> as std::iter::Iterator>::next$"): next_item(False),
    re.compile(r"SliceIndex<str> for std::ops::Range<usize>>::get$"): m_slice("", True),
    re.compile(r"SliceIndex<str> for std::ops::RangeFrom<usize>>::get$"): m_slice("from", True),
    re.compile(r"SliceIndex<str> for std::ops::RangeTo<usize>>::get$"): m_slice("to", True),
    re.compile(r"SliceIndex<str> for std::ops::Range<usize>>::index$"): m_slice("", False),
    re.compile(r"SliceIndex<str> for std::ops::RangeFrom<usize>>::index$"): m_slice("from", False),
    re.compile(r"SliceIndex<str> for std::ops::RangeTo<usize>>::index$"): m_slice("to", False),
    re.compile(r"<impl std::str::FromStr for [iu](8|16|32|64|128|size)>::from_str$"): m_parse,
    re.compile(r"^<[iu](8|16|32|64|128|size) as (std|core)::str::FromStr>::from_str$"): m_parse,
    re.compile(r"^<std::str::Chars<'_> as std::iter::Iterator>::all::<"): m_all(False, False),
    re.compile(r"^<std::str::Chars<'_> as std::iter::Iterator>::any::<"): m_all(True, False),
    re.compile(r"^<std::str::Bytes<'_> as std::iter::Iterator>::all::<"): m_all(False, False, True),
    re.compile(r"^<std::str::Bytes<'_> as std::iter::Iterator>::any::<"): m_all(True, False, True),
    re.compile(r"^<std::slice::Iter<'_, u8> as std::iter::Iterator>::all::<"): m_all(False, True, True),
    re.compile(r"^<std::slice::Iter<'_, u8> as std::iter::Iterator>::any::<"): m_all(True, True, True),
    re.compile(r"^<std::str::Chars<'_> as std::iter::Iterator>::nth$"): m_nth,
    re.compile(r"CharSearcher<'_> as .*Searcher<'_>>::next_match$"): m_char_searcher(False),
    re.compile(r"CharSearcher<'_> as .*Searcher<'_>>::next_match_back$"): m_char_searcher(True),
    re.compile(r"<impl char>::is_digit$"): m_digit(False),
    re.compile(r"<impl char>::to_digit$"): m_digit(True),
    re.compile(r"^itoa::Buffer::format::<"): m_itoa,
    re.compile(r"^std::fmt::Formatter::<'_>::write_str$|^<std::fmt::Formatter<'_> as std::fmt::Write>::write_str$"): m_write_str,
    re.compile(r"^<std::fmt::Formatter<'_> as std::fmt::Write>::write_char$"): m_write_char,
}
for _n, _p in {
    "is_numeric": lambda c: unicodedata.category(chr(c)) in ("Nd", "Nl", "No"),
    "is_alphabetic": lambda c: chr(c).isalpha(),
    "is_whitespace": lambda c: c in WS,
    "is_ascii": lambda c: c < 128,
    "is_ascii_digit": lambda c: 48 <= c <= 57,
    "is_ascii_hexdigit": lambda c: digit_of(c, 16) is not None,
    "is_ascii_alphabetic": lambda c: 65 <= c <= 90 or 97 <= c <= 122,
    "is_ascii_alphanumeric": lambda c: digit_of(c, 36) is not None,
    "is_ascii_punctuation": lambda c: 33 <= c <= 47 or 58 <= c <= 64 or 91 <= c <= 96 or 123 <= c <= 126,
    "is_ascii_whitespace": lambda c: c in (9, 10, 12, 13, 32),
    "is_control": lambda c: unicodedata.category(chr(c)) == "Cc",
    "is_ascii_control": lambda c: c < 32 or c == 127,
    "is_ascii_graphic": lambda c: 33 <= c <= 126,
}.items():
    MODELS[re.compile(r"<impl char>::%s$" % _n)] = m_char(_n, _p)
    if "ascii" in _n:
        MODELS[re.compile(r"<impl u8>::%s$" % _n)] = m_char(_n, _p)


def written(st):
    """The tokens written to the formatter."""
    return [x for k, ts in st.effects if k == "str" for x in ts]


def join(it, st, toks):
    """Single digit characters next to each other become one run; empty runs disappear."""
    out = []
    for t in toks:
        n = st.simp(t.n)
        if n == 0:
            continue
        if t.k in ("p", "x"):
            v = st.simp(t.v) if isinstance(t.v, Poly) else t.v
            if isinstance(v, int):
                t = Tok("c", v, n)
            elif isinstance(v, Poly) and t.k == "p" and st.prove(P.sub(v, 48)) and st.prove(P.sub(57, v)):
                t, n = Tok("d", P.sub(v, 48), 1), 1
        if t.k == "c" and 48 <= t.v <= 57:
            t = Tok("d", t.v - 48, 1)
            n = 1
        if t.k == "d" and out and out[-1].k == "d" and isinstance(n, int) and isinstance(out[-1].n, int):
            p = out.pop()
            t = Tok("d", P.add(P.scale(p.v, 10 ** n), t.v), p.n + n)
        out.append(t)
    return out
