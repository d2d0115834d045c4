"""Abstract interpreter over the dumped MIR (relational numerical abstract interpretation with
trace partitioning).  Values: Python ints (constants), polynomials over symbols (relational
abstract values), aggregates, pointers; booleans may be undecided conditions."""
import struct
from math import gcd
from . import poly as P
from . import loops
from .poly import Poly
from .state import State, Fork, Gap, Infeasible
from .mir import Ptr, Agg, FnVal, Top, UNIT

MASK64 = (1 << 64) - 1


class Cond:
    """An undecided boolean: p >= 0 / p == 0 / p != 0."""
    __slots__ = ("k", "p")

    def __init__(self, k, p):
        self.k, self.p = k, p

    def __repr__(self):
        return "[%s %s]" % (P.show(self.p), {"ge": ">= 0", "eq": "== 0", "ne": "!= 0"}[self.k])

    def neg(self):
        if self.k == "ge":
            return Cond("ge", P.sub(-1, self.p))
        return Cond("ne" if self.k == "eq" else "eq", self.p)


class Addr:
    """The address of a pointer, as an integer (only its alignment and nullness are known)."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


def f32(x):
    """x rounded to single precision"""
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


class FSym:
    """A symbolic f64 given by its bits: sign in {0,1}, biased exponent and mantissa."""
    __slots__ = ("sign", "exp", "man")

    def __init__(self, sign, exp, man):
        self.sign, self.exp, self.man = sign, exp, man


class FExpr:
    """An f64 computed by a floating-point operation on abstract operands (term)."""
    __slots__ = ("op", "args")

    def __init__(self, op, args):
        self.op, self.args = op, args

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


class Big:
    """A 256-bit signed integer known by its value (contract mode)."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "Big(%s)" % P.show(self.p)


class Dig:
    """The byte of decimal digit j (from the left) of the n-digit rendering of v."""
    __slots__ = ("v", "n", "j")

    def __init__(self, v, n, j):
        self.v, self.n, self.j = v, n, j

    def __repr__(self):
        return "digit %d of %s(%d)" % (self.j, P.show(self.v), self.n)


class Outcome(Exception):
    def __init__(self, kind, info, span=None):
        self.kind, self.info, self.span = kind, info, span


_uid = [0]


class Frame:
    __slots__ = ("uid", "fn", "loc", "b", "i", "dest", "target", "span", "hook", "tag")

    def __init__(self, fn, n, dest, target, span):
        _uid[0] += 1
        self.uid = _uid[0]
        self.fn = fn
        self.loc = [None] * n
        self.b = 0
        self.i = 0
        self.dest = dest
        self.target = target
        self.span = span
        self.hook = None
        self.tag = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.uid, f.fn, f.b, f.i, f.dest, f.target, f.span, f.hook, f.tag = self.uid, self.fn, self.b, self.i, self.dest, self.target, self.span, self.hook, self.tag
        f.loc = list(self.loc)
        return f


class Limit(Exception):
    pass


class Interp:
    def __init__(self, dump, max_paths=4000, max_steps=200000, models=None, repo_src="fixnum", max_visits=600, deadline=None):
        self.d = dump
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.max_visits = max_visits
        self.models = models or {}
        self.fns_seen = set()
        self.total_steps = 0
        self.forks = 0
        self.deadline = deadline
        self.modelcache = {}
        self.subst = None
        self.lazy_lz = False
        self.tighten = False
        self.loops = None
        self.ratio = None
        self.roots = None
        self.exact = False          # approximations are gaps
        self.covers = {}            # states at the heads of loops over runs of unknown length
        self.lens = ()              # the symbols of the unknown lengths
        self.inputs = frozenset()   # the symbols of the inputs

    # ------------------------------------------------------------------ types
    def rng(self, tyid):
        t = self.d.ty(tyid)
        k = t["k"]
        if k == "int":
            n = t["bits"]
            return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if t["signed"] else (0, (1 << n) - 1)
        if k == "bool":
            return 0, 1
        if k == "char":
            return 0, 0x10FFFF
        if k in ("ptr", "ref"):
            return 0, MASK64
        if k == "adt" and len(t["variants"]) == 1 and len(t["variants"][0]["fields"]) == 1:
            return self.rng(t["variants"][0]["fields"][0])
        if k == "pat":
            return self.rng(t["to"])
        raise Gap("integer range of type %s" % t["s"])

    # ------------------------------------------------------------------ booleans
    def cond(self, st, k, p):
        p = st.simp(p)
        if isinstance(p, int):
            return int(p >= 0) if k == "ge" else int(p == 0) if k == "eq" else int(p != 0)
        if k == "ge":
            lo, hi = st.interval(p)
            if lo is not None and lo >= 0:
                return 1
            if hi is not None and hi < 0:
                return 0
        else:
            lo, hi = st.interval(p)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return int(k == "ne")
        return Cond(k, p)

    def truth(self, st, v):
        """Decide a boolean, forking the state when it is undecided."""
        if isinstance(v, int):
            return bool(v)
        if isinstance(v, Cond):
            if v.k == "ge":
                return st.decide_or_fork(v.p)
            z = st.zero_or_fork(v.p)
            return z if v.k == "eq" else not z
        if isinstance(v, Poly):
            return not st.zero_or_fork(v)
        raise Gap("boolean %r" % (v,))

    def bool_int(self, st, v):
        if isinstance(v, Cond):
            if v.k == "ge":
                q = P.add(v.p, 1)
                if st.interval(q) == (0, 1) or st.interval(v.p) == (-1, 0):
                    return q
            else:
                if st.interval(v.p) == (0, 1):
                    return v.p if v.k == "ne" else P.sub(1, v.p)
            return int(self.truth(st, v))
        return v

    # ------------------------------------------------------------------ integer operations
    def num(self, st, v):
        if isinstance(v, (int, Poly)):
            return st.simp(v)
        if isinstance(v, Cond):
            return self.bool_int(st, v)
        if isinstance(v, Agg) and len(v.f) == 1:
            return self.num(st, v.f[0])
        if isinstance(v, Dig):
            from . import strings
            return strings.dig_poly(self, st, v)
        raise Gap("number expected, got %r" % (v,))

    def wrap(self, st, p, lo, hi, tag="w"):
        """p reduced into [lo, hi] modulo the size of the range (no fork)."""
        if isinstance(p, int):
            return (p - lo) % (hi - lo + 1) + lo
        p = st.simp(p)
        if isinstance(p, int):
            return (p - lo) % (hi - lo + 1) + lo
        L = 2 if self.tighten else 1
        n = hi - lo + 1

        def fits(p):
            if isinstance(p, int):
                return lo <= p <= hi
            l, h = st.interval(p)
            if l is not None and h is not None and lo <= l and h <= hi:
                return True
            if st.facts and st.decide(P.sub(p, lo), L) and st.decide(P.sub(hi, p), L):
                st.learn(P.sub(p, lo))
                st.learn(P.sub(hi, p))
                return True
            return False
        if fits(p):
            return p
        # any polynomial congruent modulo n will do: first without the wraps so far ...
        marks = st.divs.get("wraps", frozenset())
        p3 = P.norm({m: c for m, c in p.t.items() if c % n or len(m) != 1 or m[0] not in marks}) if marks else p
        if p3 != p and fits(p3):
            return p3
        # ... then without any monomial whose coefficient is divisible by n
        p2 = P.norm({m: c for m, c in p.t.items() if c % n})
        gone = st.divs.get("gone", ())
        if p2 != p and len(gone) < 4 and (n, P.sub(p, p2)) not in gone:
            st.divs["gone"] = gone + ((n, P.sub(p, p2)),)
        if isinstance(p2, int):
            return (p2 - lo) % n + lo
        if p2 != p3 and fits(p2):
            return p2
        if not self.tighten:
            p3 = p2
        else:       # ... or with multiples of n that an earlier wrap dropped
            for k, v in gone:
                for b in (p, p3):
                    if k == n and fits(P.add(b, v)):
                        return P.add(b, v)
        key = ("wrap", p3, lo, n)
        r = st.divs.get(key)
        if r is None:
            if self.tighten:
                self.linearize(st, p2)
            q = self.fdiv(st, P.sub(p2, lo), n, tag)
            if p3 != p2:
                # keep the terms that vanish modulo n visible in the result
                o = st.fresh(tag, *st.range_of(P.add(q, P.exact(P.sub(p3, p2), n))))
                if isinstance(o, Poly):
                    st.assume("eq", P.sub(o, P.add(q, P.exact(P.sub(p3, p2), n))))
                q = o
            if isinstance(q, Poly) and len(q.t) == 1:
                (m, c), = q.t.items()
                if len(m) == 1:
                    st.divs["wraps"] = marks | {m[0]}
            r = P.sub(p3, P.scale(q, n))
            st.divs[key] = r
        return r

    def linearize(self, st, p):
        """Split on a two-valued factor of a non-linear term."""
        for m in p.t:
            if len(m) > 1:
                for s in m:
                    l, h = st.bounds[s]
                    if l is not None and h is not None and 0 < h - l <= 2:
                        raise Fork([[("ge", P.sub(P.sym(s), v)), ("ge", P.sub(v, P.sym(s)))] for v in range(l, h + 1)])

    def in_range(self, st, p, lo, hi):
        """True/False if decided, else fork into below / inside / above."""
        if isinstance(p, int):
            return lo <= p <= hi
        a = st.decide(P.sub(p, lo))
        b = st.decide(P.sub(hi, p))
        if a and b:
            return True
        if self.tighten:
            self.linearize(st, p)
        if a is False or b is False:
            return False
        alts = []
        ins = []
        if a is None:
            ins.append(("ge", P.sub(p, lo)))
        if b is None:
            ins.append(("ge", P.sub(hi, p)))
        alts.append(ins)
        if a is None:
            alts.append([("ge", P.sub(lo - 1, p))])
        if b is None:
            alts.append([("ge", P.sub(p, hi + 1))])
        raise Fork(alts)

    def fdiv(self, st, A, B, why="q"):
        """Floor division of A by B > 0 (any sign of A): quotient polynomial."""
        A, B = st.simp(A), st.simp(B)
        if isinstance(A, int) and isinstance(B, int):
            return A // B
        if B == 1:
            return A
        if isinstance(B, int) and ("tz", A) in st.divs and B & (B - 1) == 0:
            z, w = st.divs[("tz", A)]
            if B.bit_length() - 1 <= z:
                return P.scale(w, (1 << z) // B)
        if isinstance(B, int):
            X, Y = {}, {}
            for m, c in A.t.items():
                q, r = divmod(c, B)
                if m and r == 0:
                    X[m] = q
                elif not m:
                    if q:
                        X[m] = q
                    if r:
                        Y[m] = r
                else:
                    Y[m] = c
            X, Y = P.norm(X), P.norm(Y)
            if isinstance(Y, int):
                return P.add(X, Y // B)
            l, h = st.interval(Y)
            if l is not None and h is not None and l // B == h // B:
                return P.add(X, l // B)
            if st.facts and st.decide(Y) and st.decide(P.sub(B - 1, Y)):
                return X
            A = Y
            g = B
            for m, c in A.t.items():
                if m:
                    g = gcd(g, c)
            if g > 1:       # floor(gA / gB) == floor(A / B), and a constant below g does not matter
                A, B = P.norm({m: c // g for m, c in A.t.items() if c // g}), B // g
                if B == 1:
                    return P.add(X, A)
            if len(A.t) == 1:
                src = st.divs.get(("quotient", A))
                if src is not None:          # nested floor division by constants
                    return P.add(X, self.fdiv(st, src[0], src[1] * B, why))
        else:
            X = 0
            q = self.exact_quotient(A, B)
            if q is not None:
                return q
        key = ("fdiv", A, B)
        q = st.divs.get(key)
        if q is None:
            below = None
            if self.roots is not None and isinstance(B, Poly):
                for s in self.roots():
                    if st.decide(P.sub(A, P.mul(s, s))) and st.decide(P.sub(P.add(P.mul(s, s), P.scale(s, 2)), A)):
                        below = st.decide_or_fork(P.sub(s, B))
            l, h = st.range_of(A)
            bl, bh = st.range_of(B)
            ql = qh = None
            if l is not None:
                if l >= 0:
                    ql = 0 if bh is None else l // bh
                else:
                    ql = l // max(bl, 1)
            if h is not None:
                if h >= 0:
                    qh = h // max(bl, 1)
                else:
                    qh = -1 if bh is None else h // bh
            q = st.fresh(why, ql, qh)
            st.divs[key] = q
            if isinstance(B, int) and isinstance(q, Poly):
                st.divs[("quotient", q)] = (A, B)
            r = P.sub(A, P.mul(q, B))
            st.assume("ge", r)
            st.assume("ge", P.sub(P.sub(B, 1), r))
            if self.tighten and isinstance(B, Poly) and isinstance(q, Poly):
                self.tighten_bounds(st, q)
            if self.roots is not None and isinstance(B, Poly):
                # s^2 <= A implies floor(A / B) >= 2 s - B, as s^2 >= B (2 s - B); and with A < (s + 1)^2,
                # floor(A / B) >= s when B <= s, and floor(A / B) <= s when B > s
                for s in self.roots():
                    if st.decide(P.sub(A, P.mul(s, s))):
                        st.assume("ge", P.sub(P.add(q, B), P.scale(s, 2)))
                        if below is not None:
                            st.assume("ge", P.sub(q, s) if below else P.sub(s, q))
        return P.add(X, q)

    @staticmethod
    def tighten_bounds(st, q):
        """Narrow the interval of a quotient by bisection on entailed bounds."""
        (m, _), = q.t.items()
        s = m[0]
        lo, hi = st.bounds[s]
        if lo is None or hi is None:
            return
        a, b = lo, hi
        while b - a > 0 and (b - a) > (hi - lo) >> 40:
            mid = (a + b) // 2
            if st.prove(P.sub(mid, q), 2):
                b = mid
            else:
                a = mid + 1
        if b < hi:
            st.assume("ge", P.sub(b, q))

    @staticmethod
    def exact_quotient(A, B):
        """A = B*q with q a polynomial, for single-term B."""
        if isinstance(A, int):
            return 0 if A == 0 else None
        if len(B.t) != 1:
            if A == B:
                return 1
            return None
        (mb, cb), = B.t.items()
        t = {}
        for m, c in A.t.items():
            r = list(m)
            for s in mb:
                if s in r:
                    r.remove(s)
                else:
                    return None
            if c % cb:
                return None
            t[tuple(r)] = c // cb
        return P.norm(t)

    def tdiv(self, st, a, b):
        """Truncating division; b known nonzero.  Returns (q, r)."""
        a, b = st.simp(a), st.simp(b)
        if isinstance(a, int) and isinstance(b, int):
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return q, a - q * b
        if isinstance(b, Poly):
            if st.decide(P.sub(b, 1)):
                sb = 1
            elif st.decide(P.sub(-1, b)):
                sb = -1
            else:
                raise Fork([[("ge", P.sub(b, 1))], [("ge", P.sub(-1, b))]])
        else:
            sb = 1 if b > 0 else -1
        sa = 1 if st.decide_or_fork(a) else -1
        A = a if sa > 0 else P.neg(a)
        B = b if sb > 0 else P.neg(b)
        q = self.fdiv(st, A, B)
        if sa * sb < 0:
            q = P.neg(q)
        return q, P.sub(a, P.mul(q, b))

    def binop(self, st, op, a, b, ta, tb):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            return self.compare(st, op, a, b)
        if op == "Offset":
            return self.ptr_offset(st, a, b)
        if isinstance(a, Addr) and op == "BitAnd" and isinstance(b, int) and b < 16:
            # pointers formed by element offsets inside an allocation of the element type are aligned
            if a.p.vt is not None and a.p.vt[0] == "raw":
                raise Gap("alignment of a cast pointer")
            return 0
        lo, hi = self.rng(ta)
        isbool = self.d.ty(ta)["k"] == "bool"
        if op in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(st, op, a, b, lo, hi, isbool)
        a, b = self.num(st, a), self.num(st, b)
        if op in ("Add", "AddUnchecked"):
            return self.wrap(st, P.add(a, b), lo, hi)
        if op in ("Sub", "SubUnchecked"):
            return self.wrap(st, P.sub(a, b), lo, hi)
        if op in ("Mul", "MulUnchecked"):
            return self.wrap(st, P.mul(a, b), lo, hi)
        if op in ("Div", "Rem"):
            if self.truth(st, self.cond(st, "eq", b)):
                raise Outcome("ub", "division by zero")
            q, r = self.tdiv(st, a, b)
            v = q if op == "Div" else r
            if lo < 0 and op == "Div" and not self.in_range(st, v, lo, hi):
                raise Outcome("ub", "division overflow")
            return v
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            bits = (hi - lo + 1).bit_length() - 1
            if not isinstance(b, int):
                b = st.fork_values(b, 300, "shift amount")
            if not 0 <= b < bits:
                if "Unchecked" in op:
                    raise Outcome("ub", "shift amount out of range")
                b &= bits - 1
            if op.startswith("Shl"):
                return self.wrap(st, P.scale(a, 1 << b), lo, hi)
            return self.fdiv(st, a, 1 << b, "shr")
        raise Gap("binary operation " + op)

    def compare(self, st, op, a, b):
        if isinstance(a, Addr) and b == 0 and op in ("Eq", "Ne"):
            return int(op == "Ne") if a.p.base[0] != "dangling" or a.p.base[1] else int(op == "Eq")
        if isinstance(a, (Ptr, FnVal)) or isinstance(b, (Ptr, FnVal)):
            return self.ptr_compare(st, op, a, b)
        if isinstance(a, (float, FExpr, FSym)) or isinstance(b, (float, FExpr, FSym)):
            if isinstance(a, float) and isinstance(b, float):
                return int({"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op])
            x, y = self.float_key(st, a), self.float_key(st, b)
            if x == "nan" or y == "nan":
                return int(op == "Ne")
            if x is not None and y is not None:
                return self.compare(st, op, x, y)
            raise Gap("float comparison %r %s %r" % (a, op, b))
        if op in ("Eq", "Ne") and (isinstance(a, Cond) or isinstance(b, Cond)):
            if isinstance(b, int):
                return a if bool(b) == (op == "Eq") else a.neg()
            if isinstance(a, int):
                return b if bool(a) == (op == "Eq") else b.neg()
        a, b = self.num(st, a), self.num(st, b)
        d = P.sub(a, b)
        if op == "Eq":
            return self.cond(st, "eq", d)
        if op == "Ne":
            return self.cond(st, "ne", d)
        if op == "Ge":
            return self.cond(st, "ge", d)
        if op == "Gt":
            return self.cond(st, "ge", P.sub(d, 1))
        if op == "Le":
            return self.cond(st, "ge", P.neg(d))
        if op == "Lt":
            return self.cond(st, "ge", P.sub(P.neg(d), 1))
        if op == "Cmp":
            if isinstance(d, int):
                return Agg((d > 0) - (d < 0) + 1, ())
            z = st.zero_or_fork(d)
            if z:
                return Agg(1, ())
            return Agg(2 if st.decide_or_fork(d) else 0, ())
        raise Gap(op)

    def float_key(self, st, x):
        """An integer that orders floats as their values do ("nan" for NaN, None if not known)."""
        if isinstance(x, FExpr) and x.op in ("fabs", "neg"):
            k = self.float_key(st, x.args[0])
            if k is None or k == "nan":
                return k
            if x.op == "neg":
                return P.neg(k)
            y = x.args[0]
            if isinstance(y, FSym) and isinstance(y.sign, int):
                return P.neg(k) if y.sign else k
            return None
        if isinstance(x, float):
            b = struct.unpack("<Q", struct.pack("<d", x))[0]
            x = FSym(b >> 63, (b >> 52) & 2047, b & ((1 << 52) - 1))
        if not isinstance(x, FSym) or not isinstance(x.sign, int) or not isinstance(x.exp, int):
            return None
        if x.exp == 2047 and not (isinstance(x.man, int) and x.man == 0):
            z = st.zero_or_fork(x.man)
            if not z:
                return "nan"
        k = P.add(x.exp << 52, x.man)
        return P.neg(k) if x.sign else k

    def approximates(self, what):
        """A value is about to be replaced by an over-approximation: no violation may be concluded from it."""
        if self.exact:
            raise Gap("approximation of " + what)

    def bitop(self, st, op, a, b, lo, hi, isbool):
        if isbool:
            if isinstance(a, int) and isinstance(b, int):
                return (a & b) if op == "BitAnd" else (a | b) if op == "BitOr" else (a ^ b)
            if isinstance(b, int):
                a, b = b, a
            if isinstance(a, int):
                if op == "BitAnd":
                    return b if a else 0
                if op == "BitOr":
                    return 1 if a else b
                return self.lnot(b) if a else b
            x, y = self.small_bool(st, a), self.small_bool(st, b)
            if x is not None and y is not None:
                if op == "BitOr":
                    s = P.add(x, y)
                    if st.prove(P.sub(1, s), 1):
                        return self.cond(st, "ge", P.sub(s, 1))
                    z = st.fresh("or", 0, 1)
                    for f in (P.sub(z, x), P.sub(z, y), P.sub(s, z)):
                        st.assume("ge", f)
                    return self.cond(st, "ge", P.sub(z, 1))
                if op == "BitAnd":
                    s = P.add(x, y)
                    z = st.fresh("and", 0, 1)
                    for f in (P.sub(x, z), P.sub(y, z), P.sub(z, P.sub(s, 1))):
                        st.assume("ge", f)
                    return self.cond(st, "ge", P.sub(z, 1))
            x = self.truth(st, a)
            return self.bitop(st, op, int(x), b, lo, hi, True)
        a, b = self.num(st, a), self.num(st, b)
        n = (hi - lo + 1).bit_length() - 1
        if isinstance(a, int) and isinstance(b, int):
            return (a & b) if op == "BitAnd" else (a | b) if op == "BitOr" else (a ^ b)
        if isinstance(a, int):
            a, b = b, a
        full = (1 << n) - 1
        if isinstance(b, int):
            m = b & full
            if op == "BitAnd":
                if m == 0:
                    return 0
                if m == full:
                    return a
                tz = (m & -m).bit_length() - 1
                w = m >> tz
                if w & (w + 1) == 0:          # a contiguous run of ones at tz .. tz+k
                    k = w.bit_length()
                    if tz + k == n:           # high mask: a - (a mod 2^tz)
                        if tz == n - 1:       # the sign bit
                            if lo < 0:
                                neg = not st.decide_or_fork(a)
                                return lo if neg else 0
                            top = st.decide(P.sub(a, 1 << (n - 1)))
                            if top is None:
                                q = self.fdiv(st, a, 1 << (n - 1), "msb")
                                return P.scale(q, 1 << (n - 1))
                            return (1 << (n - 1)) if top else 0
                        q = self.fdiv(st, a, 1 << tz, "hi")
                        return P.scale(q, 1 << tz)
                    # a >> tz, low k bits, << tz
                    h = self.fdiv(st, a, 1 << tz, "hi") if tz else a
                    q = self.fdiv(st, h, 1 << k, "hi")
                    return P.scale(P.sub(h, P.scale(q, 1 << k)), 1 << tz)
                l, h = st.interval(a)
                if l is not None and h is not None and 0 <= l:
                    v = st.fork_values(a, 300, "bit mask")
                    return v & b
                raise Gap("bit mask %x" % m)
            if op == "BitOr":
                if m == 0:
                    return a
                # disjoint or full overlap with a low mask
                l, h = st.interval(a)
                tz = (m & -m).bit_length() - 1
                if l is not None and l >= 0 and h is not None and h < (1 << tz):
                    return P.add(a, b)
                if st.decide(a) and st.decide(P.sub((1 << tz) - 1, a)):
                    return P.add(a, b)
                w = m >> tz
                if w & (w + 1) == 0:
                    # set a run of bits: a - (a & m) + m
                    cur = self.bitop(st, "BitAnd", a, b, lo, hi, False)
                    return P.add(P.sub(a, cur), b)
                raise Gap("bitor constant")
            if op == "BitXor":
                if m == full:
                    return P.sub(-1 if lo < 0 else full, a)
                if m == 0:
                    return a
                tz = (m & -m).bit_length() - 1
                w = m >> tz
                if w & (w + 1) == 0:
                    cur = self.bitop(st, "BitAnd", a, b, lo, hi, False)
                    if not (lo < 0 and tz + w.bit_length() == n):
                        return P.add(P.sub(a, P.scale(cur, 2)), m)
        # both symbolic
        if op in ("BitOr", "BitXor"):
            r = self.disjoint(st, a, b)
            if r:
                return P.add(a, b)
        la, ha = st.interval(a)
        lb, hb = st.interval(b)
        if None not in (la, ha, lb, hb) and (ha - la) <= 1 and la >= 0 and ha <= 1 and 0 <= lb and hb <= 1:
            x = self.truth(st, self.cond(st, "ne", a))
            y = self.truth(st, self.cond(st, "ne", b))
            return int(x and y) if op == "BitAnd" else int(x or y) if op == "BitOr" else int(x != y)
        self.approximates("a bit operation")
        if op == "BitAnd" and la is not None and lb is not None and la >= 0 and lb >= 0:
            r = st.fresh("and", 0, min(x for x in (ha, hb) if x is not None) if (ha is not None or hb is not None) else None)
            st.assume("ge", P.sub(a, r))
            st.assume("ge", P.sub(b, r))
            return r
        if op == "BitOr" and la is not None and lb is not None and la >= 0 and lb >= 0 and ha is not None and hb is not None:
            r = st.fresh("or", max(la, lb), (1 << max(ha.bit_length(), hb.bit_length())) - 1)
            st.assume("ge", P.sub(r, a))
            st.assume("ge", P.sub(r, b))
            st.assume("ge", P.sub(P.add(a, b), r))
            return r
        if lo < 0 and (la is None or lb is None or la < 0 or lb < 0):
            # fold the signs away: !x = -1 - x is not negative for a negative x
            na, nb = not st.decide_or_fork(a), not st.decide_or_fork(b)
            if na or nb:
                x, y = P.sub(-1, a) if na else a, P.sub(-1, b) if nb else b
                if op == "BitXor":
                    r = self.bitop(st, "BitXor", x, y, lo, hi, False)
                    return P.sub(-1, r) if na != nb else r
                if op == "BitAnd":
                    if na and nb:
                        return P.sub(-1, self.bitop(st, "BitOr", x, y, lo, hi, False))
                    r = self.bitop(st, "BitAnd", x, y, lo, hi, False)
                    return P.sub(y, r) if na else P.sub(x, r)
                if na and nb:
                    return P.sub(-1, self.bitop(st, "BitAnd", x, y, lo, hi, False))
                r = self.bitop(st, "BitAnd", x, y, lo, hi, False)
                return P.sub(-1, P.sub(x, r) if na else P.sub(y, r))
        if op == "BitXor" and ((la is not None and lb is not None and la >= 0 and lb >= 0) or lo < 0):
            if st.simp(P.sub(a, b)) == 0:
                return 0
            (la, ha), (lb, hb) = st.interval(a), st.interval(b)
            if None in (ha, hb):
                ha = hb = hi
            r = st.fresh("xor", 0, (1 << max(ha.bit_length(), hb.bit_length())) - 1)
            st.assume("ge", P.sub(P.add(a, b), r))
            st.assume("ge", P.sub(r, P.sub(a, b)))
            st.assume("ge", P.sub(r, P.sub(b, a)))
            return r
        raise Gap("bit operation %s on two abstract values" % op)

    def disjoint(self, st, a, b):
        """a is a multiple of 2^k and 0 <= b < 2^k (or the other way round)."""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int):
                continue
            g = 0
            for c in x.t.values():
                g |= c & -c if c > 0 else (-c) & c if False else (abs(c) & -abs(c))
            tz = (g & -g) if g else 1
            if tz > 1 and st.decide(y) and st.decide(P.sub(tz - 1, y)):
                return True
        return False

    def small_bool(self, st, v):
        if isinstance(v, Cond):
            if v.k == "ge":
                q = P.add(v.p, 1)
                l, h = st.interval(q)
                if l is not None and l >= 0 and h is not None and h <= 1:
                    return q
        return None

    def lnot(self, v):
        return 1 - v if isinstance(v, int) else v.neg()

    def cbin(self, st, op, a, b, t):
        lo, hi = self.rng(t)
        a, b = self.num(st, a), self.num(st, b)
        p = P.add(a, b) if op == "Add" else P.sub(a, b) if op == "Sub" else P.mul(a, b) if op == "Mul" else None
        if p is None:
            raise Gap("checked " + op)
        if isinstance(p, int):
            return Agg(None, (self.wrap(st, p, lo, hi), int(not lo <= p <= hi)))
        l, h = st.interval(p)
        if l is not None and h is not None and lo <= l and h <= hi:
            return Agg(None, (p, 0))
        if op == "Mul":
            (al, ah), (bl, bh) = st.range_of(a), st.range_of(b)
            if None not in (al, ah, bl, bh):
                c = [x * y for x in (al, ah) for y in (bl, bh)]
                if lo <= min(c) and max(c) <= hi:
                    st.learn(P.sub(p, min(c)))
                    st.learn(P.sub(max(c), p))
                    return Agg(None, (p, 0))
        if lo == 0 and op in ("Add", "Sub"):
            A = st.decide(P.sub(hi, p)) if op == "Add" else st.decide(p)
            if A:
                return Agg(None, (p, 0))
            if A is False:
                return Agg(None, (P.sub(p, hi + 1) if op == "Add" else P.add(p, hi + 1), 1))
            r = self.wrap(st, p, lo, hi, "c")
            # p = r + (hi+1)*o with o in {0,1} (add) or {-1,0} (sub)
            o = P.sub(p, r)
            o = P.norm({m: c // (hi + 1) for m, c in P.terms(o).items()})
            if isinstance(o, Poly):
                st.assume("ge", o if op == "Add" else P.neg(o))
                st.assume("ge", P.sub(1, o) if op == "Add" else P.add(o, 1))
            return Agg(None, (r, self.cond(st, "ge", P.sub(o, 1) if op == "Add" else P.sub(-1, o))))
        if self.in_range(st, p, lo, hi):
            return Agg(None, (p, 0))
        return Agg(None, (self.wrap(st, p, lo, hi), 1))

    # ------------------------------------------------------------------ memory
    def frame(self, st, uid):
        for f in reversed(st.frames):
            if f.uid == uid:
                return f
        raise Gap("pointer to a dead frame")

    def root_get(self, st, base):
        k = base[0]
        if k == "l":
            return self.frame(st, base[1]).loc[base[2]]
        if k == "h":
            return st.heap[base[1]]
        if k == "g":
            if base[2] is not None and isinstance(base[2], tuple):
                return self.d.slice_global(base[1], base[2][1])
            a = self.d.allocs[base[1]]
            return self.d.global_value(base[1], base[2])
        raise Outcome("ub", "access through a dangling pointer")

    def root_set(self, st, base, v):
        k = base[0]
        if k == "l":
            self.frame(st, base[1]).loc[base[2]] = v
        elif k == "h":
            st.heap[base[1]] = v
        else:
            raise Gap("write to constant memory")

    def field(self, st, v, i):
        if isinstance(v, Agg):
            if 0 <= i < len(v.f):
                return v.f[i]
            if v.v == "u":
                return v.f[0]
            raise Outcome("ub", "access outside the object (index %s of %d)" % (i, len(v.f)))
        if isinstance(v, Top):
            return v
        if isinstance(v, Big):
            return self.words(st, v)
        if i == 0 and v is not None:
            return v
        if v is None:
            return None
        raise Gap("field %s of %r" % (i, v))

    def words(self, st, big):
        raise Gap("words of an abstract 256-bit value")

    def load(self, st, base, path):
        if base[0] == "t":
            from . import strings
            if len(path) != 1:
                raise Gap("string object")
            return strings.cell(self, st, base[1], path[0])
        v = self.root_get(st, base)
        for i in path:
            if isinstance(i, Poly):
                i = st.fork_values(i, 400, "index")
            v = self.field(st, v, i)
        return v

    def store(self, st, base, path, val):
        if not path:
            self.root_set(st, base, val)
            return
        path = tuple(st.fork_values(i, 400, "index") if isinstance(i, Poly) else i for i in path)

        def put(v, k):
            if k == len(path):
                return val
            i = path[k]
            if v is None:
                v = Agg(None, (None,) * (i + 1))
            if isinstance(v, Agg):
                if v.v == "u":
                    return Agg("u", (put(v.f[0], k + 1),))
                f = list(v.f)
                if i >= len(f):
                    if v.v is None and all(x is None for x in f):
                        f += [None] * (i + 1 - len(f))
                    else:
                        f += [None] * (i + 1 - len(f)) if f and f[-1] is None else []
                if i >= len(f) or i < 0:
                    raise Outcome("ub", "write outside the object (index %d of %d)" % (i, len(f)))
                f[i] = put(f[i], k + 1)
                return Agg(v.v, tuple(f))
            if i == 0:
                return put(v, k + 1)
            if isinstance(v, Top):
                return v
            raise Gap("store into %r" % (v,))
        self.root_set(st, base, put(self.root_get(st, base), 0))

    def place(self, st, fr, pl):
        """-> ('obj', base, path, ty) or ('ptr', Ptr slice/str, ty)"""
        base, path = ("l", fr.uid, pl[0]), ()
        ty = fr.fn["locals"][pl[0]]
        sl = None
        vt = None
        D = self.d
        for e in pl[1:]:
            t = D.ty(ty)
            if e == "*":
                p = self.load(st, base, path)
                if not isinstance(p, Ptr):
                    if isinstance(p, Agg) and len(p.f) >= 1:     # Box-like wrappers
                        while isinstance(p, Agg) and p.f:
                            p = p.f[0]
                    if not isinstance(p, Ptr):
                        raise Gap("deref of %r" % (p,))
                ty = t["to"] if "to" in t else ty
                vt = p.vt
                base, path = p.base, p.path
                if base[0] == "dangling":
                    sl = p if p.len is not None else None
                    if sl is None:
                        return ("obj", base, path, ty, None)
                    continue
                sl = p if p.off is not None else None
            elif e[0] == "f":
                if t["k"] == "adt" and t["adt"] == "union":
                    path = path + (0,)
                else:
                    path = path + (e[1],)
                ty = e[2]
                vt = None
            elif e[0] == "d":
                pass
            elif e[0] in ("i", "ci"):
                if e[0] == "i":
                    ix = self.num(st, fr.loc[e[1]])
                else:
                    ix = e[1]
                    if e[3]:
                        n = sl.len if sl is not None else t["len"]
                        ix = P.sub(n, ix)
                ty = t["elem"]
                if sl is not None:
                    path = sl.path + (P.add(sl.off, ix),)
                    sl = None
                else:
                    path = path + (ix,)
            elif e[0] == "sub":
                n = sl.len if sl is not None else t["len"]
                frm, to, fe = e[1], e[2], e[3]
                end = P.sub(n, to) if fe else to
                if sl is not None:
                    sl = Ptr(sl.base, sl.path, P.add(sl.off, frm), P.sub(end, frm))
                else:
                    sl = Ptr(base, path, frm, P.sub(end, frm))
            else:
                raise Gap("projection %r" % (e,))
        if sl is not None:
            return ("ptr", sl, ty)
        return ("obj", base, path, ty, vt)

    def retype(self, st, v, vt):
        """Reinterpretation of a loaded value: vt = (from_ty, to_ty) integer types."""
        if vt[0] == "raw":
            raise Gap("access through a pointer cast to another type")
        return self.int_cast(st, v, vt[0], vt[1])

    def read(self, st, fr, pl):
        if len(pl) == 1:
            v = fr.loc[pl[0]]
            if v is None:
                t = self.d.ty(fr.fn["locals"][pl[0]])
                if t["layout"] and t["layout"]["size"] == 0:
                    return self.d.zst(fr.fn["locals"][pl[0]])
            return v
        r = self.place(st, fr, pl)
        if r[0] == "ptr":
            raise Gap("read of an unsized place")
        v = self.load(st, r[1], r[2])
        if r[4] is not None:
            v = self.retype(st, v, r[4])
        t = self.d.ty(r[3])
        if t["k"] in ("int", "bool", "char"):
            while isinstance(v, Agg) and len(v.f) == 1:
                v = v.f[0]
            if v is None:
                raise Outcome("ub", "read of uninitialised memory")
        if v is None and t["layout"] and t["layout"]["size"] == 0:
            return self.d.zst(r[3])
        return v

    def write(self, st, fr, pl, v):
        if len(pl) == 1:
            fr.loc[pl[0]] = v
            return
        r = self.place(st, fr, pl)
        if r[0] == "ptr":
            raise Gap("write of an unsized place")
        if r[4] is not None:
            if r[4][0] == "raw":
                raise Gap("access through a pointer cast to another type")
            v = self.int_cast(st, v, r[4][1], r[4][0])
        self.store(st, r[1], r[2], v)

    def operand(self, st, fr, o):
        k = o[0]
        if k == "p":
            return self.read(st, fr, o[1])
        if k == "c":
            v = self.d.const(o[1], o[2])
            return self.subst(self, st, o[1], v) if self.subst else v
        if k == "rc":
            return 0 if o[1] == "UbChecks" else 1
        raise Gap("operand " + k)

    def ptr_offset(self, st, p, n):
        n = self.num(st, n)
        if isinstance(p, Ptr):
            if p.off is not None:
                raise Gap("offset of a wide pointer")
            if n == 0:
                return p
            if p.path and p.path[0] != "byteoff":
                return Ptr(p.base, p.path[:-1] + (P.add(p.path[-1], n),), None, None, p.vt)
            if p.base[0] == "dangling":
                raise Gap("offset of a dangling pointer")
            return Ptr(p.base, (n,), None, None, p.vt) if not p.path else p
        raise Gap("offset of %r" % (p,))

    def ptr_compare(self, st, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.base == b.base:
                x, y = a.path, b.path
                n = max(len(x), len(y))
                x = x + (0,) * (n - len(x))
                y = y + (0,) * (n - len(y))
                if a.off is not None or b.off is not None:
                    x = x + (a.off or 0,)
                    y = y + (b.off or 0,)
                diff = [(p, q) for p, q in zip(x, y) if p != q]
                if not diff:
                    d = 0
                elif len(diff) == 1:
                    d = P.sub(diff[0][0], diff[0][1])
                else:
                    raise Gap("pointer comparison")
                return self.compare(st, op, d, 0)
            if a.base[0] == "dangling" and b.base[0] == "dangling":
                return self.compare(st, op, a.base[1], b.base[1])
            if op in ("Eq", "Ne"):
                return int(op == "Ne")
            raise Gap("ordering of unrelated pointers")
        if isinstance(a, Ptr) and b == 0 or isinstance(b, Ptr) and a == 0:
            if op in ("Eq", "Ne"):
                return int(op == "Ne")
        raise Gap("pointer comparison %r %s %r" % (a, op, b))

    # ------------------------------------------------------------------ casts
    def int_cast(self, st, v, tf, tt):
        if isinstance(v, Agg) and len(v.f) == 1 and v.v is None:
            v = v.f[0]
        if isinstance(v, Top):
            return v
        v = self.num(st, v)
        lo, hi = self.rng(tt)
        return self.wrap(st, v, lo, hi, "cast")

    def is_intlike(self, t):
        return t["k"] in ("int", "bool", "char")

    def unwrap1(self, tyid):
        """Peel single-field structs; returns (tyid, depth)."""
        d = 0
        while True:
            t = self.d.ty(tyid)
            if t["k"] == "pat":
                tyid = t["to"]
                continue
            if t["k"] == "adt" and t["adt"] in ("struct", "union") and t["variants"]:
                fs = [f for f in t["variants"][0]["fields"] if (self.d.size(f) or 0) > 0]
                if len(fs) == 1 and self.d.size(fs[0]) == self.d.size(tyid):
                    tyid = fs[0]
                    d += 1
                    continue
            return tyid

    def strip(self, v):
        while isinstance(v, Agg) and v.v in (None, "u"):
            fs = [x for x in v.f if not (isinstance(x, Agg) and not x.f)]
            if len(fs) == 1:
                v = fs[0]
            else:
                break
        return v

    def leaves(self, st, v, tyid, out):
        t = self.d.ty(tyid)
        k = t["k"]
        if k == "array":
            for i in range(t["len"]):
                self.leaves(st, self.field(st, v, i), t["elem"], out)
        elif k == "tuple":
            offs = t["layout"]["fields"]
            for i in sorted(range(len(offs)), key=lambda i: offs[i]):
                self.leaves(st, self.field(st, v, i), t["fields"][i], out)
        elif k == "adt" and t["adt"] == "struct":
            offs = t["layout"]["fields"]
            fs = t["variants"][0]["fields"]
            for i in sorted(range(len(fs)), key=lambda i: offs[i]):
                if self.d.size(fs[i]):
                    self.leaves(st, self.field(st, v, i), fs[i], out)
        elif k == "adt" and t["adt"] == "union":
            fs = [f for f in t["variants"][0]["fields"] if self.d.size(f) == self.d.size(tyid)]
            self.leaves(st, self.strip(v), fs[0] if fs else -1, out)
        else:
            out.append((v, tyid, self.d.size(tyid)))

    def build(self, st, tyid, it):
        t = self.d.ty(tyid)
        k = t["k"]
        if k == "array":
            return Agg(None, tuple(self.build(st, t["elem"], it) for _ in range(t["len"])))
        if k == "tuple":
            offs = t["layout"]["fields"]
            vals = {}
            for i in sorted(range(len(offs)), key=lambda i: offs[i]):
                vals[i] = self.build(st, t["fields"][i], it)
            return Agg(None, tuple(vals[i] for i in range(len(offs))))
        if k == "adt" and t["adt"] == "struct":
            offs = t["layout"]["fields"]
            fs = t["variants"][0]["fields"]
            vals = {}
            for i in sorted(range(len(fs)), key=lambda i: offs[i]):
                vals[i] = self.build(st, fs[i], it) if self.d.size(fs[i]) else self.d.zst(fs[i])
            return Agg(None, tuple(vals[i] for i in range(len(fs))))
        if k == "adt" and t["adt"] == "union":
            fs = [f for f in t["variants"][0]["fields"] if self.d.size(f) == self.d.size(tyid)]
            return Agg("u", (self.build(st, fs[0], it),))
        return it(tyid)

    def transmute(self, st, v, tf, tt):
        if tf == tt:
            return v
        F, T = self.d.ty(tf), self.d.ty(tt)
        if T["k"] in ("ptr", "ref", "fnptr") or F["k"] in ("ptr", "ref", "fnptr"):
            x = self.strip(v)
            if isinstance(x, (Ptr, FnVal)):
                if T["k"] in ("ptr", "ref") and F["k"] in ("ptr", "ref"):
                    return self.ptr_cast(st, x, F, T)
                if T["k"] in ("ptr", "ref", "fnptr"):
                    return x
                if T["k"] == "adt":
                    # NonNull and friends: rebuild the wrapper
                    def mk(ty):
                        t = self.d.ty(ty)
                        if t["k"] == "adt" and t["adt"] == "struct":
                            return Agg(None, tuple(mk(f) if self.d.size(f) else self.d.zst(f) for f in t["variants"][0]["fields"]))
                        if t["k"] == "pat":
                            return mk(t["to"])
                        return x
                    return mk(tt)
            if isinstance(x, int):
                return Ptr(("dangling", x), ())
            if T["k"] == "int" and isinstance(x, Ptr):
                return Addr(x)
            if isinstance(x, Addr):
                return x.p
            raise Gap("transmute %s -> %s" % (F["s"], T["s"]))
        fe = self.float_bits(st, v, F, T)
        if fe is not None:
            return fe
        if T["k"] == "adt" and T["adt"] == "enum":
            x = self.strip(v)
            if isinstance(x, Agg) and self.d.ty(tf)["k"] == "adt" and F["adt"] == "enum":
                return x
            if isinstance(x, Poly):
                x = st.fork_values(x, 300, "enum tag")
            if isinstance(x, int):
                from .mir import Dump
                n = self.d.size(tt)
                return self.d.decode(tt, (x & ((1 << 8 * n) - 1)).to_bytes(n, "little").hex(), {}, 0)
            raise Gap("transmute to enum")
        if F["k"] == "adt" and F["adt"] == "enum":
            if isinstance(v, Agg) and not v.f:
                n = self.d.size(tf)
                vs = F["layout"]["variants"]
                if vs != "empty" and "enc" in vs and vs["enc"] == "direct":
                    x = int(F["variants"][v.v]["discr"]) & ((1 << 8 * n) - 1)
                    return self.from_int(st, x, n, tt)
            raise Gap("transmute from enum %s to %s" % (F["s"], T["s"]))
        out = []
        self.leaves(st, v, tf, out)
        return self.rebuild(st, out, tt)

    def from_int(self, st, x, n, tt):
        lo, hi = self.rng(tt)
        return self.wrap(st, x, lo, hi)

    def rebuild(self, st, leaves, tt):
        q = list(leaves)

        def it(tyid):
            n = self.d.size(tyid)
            acc = 0
            got = 0
            if q and q[0][2] == n:
                v, ty, _ = q.pop(0)
                if ty == tyid or v is None:
                    return v
                t0, t1 = self.d.ty(ty), self.d.ty(tyid)
                if self.is_intlike(t0) and self.is_intlike(t1):
                    return self.int_cast(st, v, ty, tyid)
                return v
            while got < n:
                if not q:
                    raise Gap("transmute layout")
                v, ty, sz = q.pop(0)
                if not self.is_intlike(self.d.ty(ty)) or v is None:
                    raise Gap("transmute of non-integers")
                v = self.wrap(st, self.num(st, v), 0, (1 << (8 * sz)) - 1)
                if got + sz <= n:
                    acc = P.add(acc, P.scale(v, 1 << (8 * got)))
                    got += sz
                else:
                    take = n - got
                    h = self.fdiv(st, v, 1 << (8 * take), "byte")
                    low = P.sub(v, P.scale(h, 1 << (8 * take)))
                    acc = P.add(acc, P.scale(low, 1 << (8 * got)))
                    got = n
                    u = [i for i, t in self.d.types.items() if t["k"] == "int" and not t["signed"] and t["bits"] == 8]
                    for k in range(sz - take):
                        h2 = self.fdiv(st, h, 256, "byte")
                        q.insert(k, (P.sub(h, P.scale(h2, 256)), u[0], 1))
                        h = h2
            lo, hi = self.rng(tyid)
            return self.wrap(st, acc, lo, hi)
        return self.build(st, tt, it)

    def float_bits(self, st, v, F, T):
        if F["k"] == "float" and T["k"] == "int":
            if isinstance(v, FSym):
                return P.add(P.add(P.scale(v.sign, 1 << 63), P.scale(v.exp, 1 << 52)), v.man)
            if isinstance(v, float):
                import struct
                b = struct.unpack("<Q", struct.pack("<d", v))[0]
                if T["signed"] and b >> 63:
                    b -= 1 << 64
                return b
            raise Gap("bits of %r" % (v,))
        if T["k"] == "float" and F["k"] == "int":
            v = self.num(st, v)
            if isinstance(v, int):
                import struct
                return struct.unpack("<d", struct.pack("<Q", v & MASK64))[0]
            raise Gap("float from abstract bits")
        return None

    def ptr_cast(self, st, p, F, T):
        """F, T: pointer types."""
        if not isinstance(p, Ptr):
            return p
        f, t = self.d.ty(F["to"]), self.d.ty(T["to"])
        if F["to"] == T["to"]:
            return p
        fs, ts = f["k"] in ("slice", "str"), t["k"] in ("slice", "str")
        if fs and ts:
            return p
        if fs and not ts:
            # slice pointer to element pointer (or pointer to the array seen as one object)
            if p.base[0] == "dangling":
                return Ptr(p.base, ())
            if t["k"] == "array":
                if p.off == 0 and p.path == () or True:
                    arr = self.try_load(st, p.base, p.path)
                    if isinstance(p.off, int) and p.off == 0 and isinstance(arr, Agg) and len(arr.f) == t["len"]:
                        return Ptr(p.base, p.path)
                    return Ptr(p.base, p.path + (p.off,), None, None, None)
            return Ptr(p.base, p.path + (p.off,), None, None, None)
        if not fs and not ts:
            if p.off is not None:
                return p
            if f["k"] == "array" and t["k"] != "array":
                e = self.d.ty(f["elem"])
                if f["elem"] == T["to"] or self.d.size(f["elem"]) == self.d.size(T["to"]):
                    q = Ptr(p.base, p.path + (0,), None, None, p.vt)
                    if f["elem"] != T["to"] and self.is_intlike(e) and self.is_intlike(t):
                        q.vt = (f["elem"], T["to"])
                    return q
                if self.d.size(F["to"]) == self.d.size(T["to"]) or t["k"] in ("tuple",) or self.d.size(T["to"]) == 0:
                    return p
                raise Gap("pointer cast %s -> %s" % (F["s"], T["s"]))
            if self.is_intlike(f) and self.is_intlike(t) and f["layout"]["size"] == t["layout"]["size"]:
                orig = p.vt[0] if p.vt else F["to"]
                vt = None if orig == T["to"] else (orig, T["to"])
                return Ptr(p.base, p.path, None, None, vt)
            return p
        raise Gap("pointer cast %s -> %s" % (F["s"], T["s"]))

    def try_load(self, st, base, path):
        try:
            return self.load(st, base, path)
        except (Gap, Outcome, Fork):
            return None

    def cast(self, st, kind, v, tf, tt):
        F, T = self.d.ty(tf), self.d.ty(tt)
        if kind == "IntToInt":
            if isinstance(v, Agg) and F["k"] == "adt" and F["adt"] == "enum":
                x = int(F["variants"][v.v]["discr"])
                return self.from_int(st, x, 0, tt)
            return self.int_cast(st, v, tf, tt)
        if kind == "Transmute" or kind == "Subtype":
            return self.transmute(st, v, tf, tt)
        if kind == "PtrToPtr" or kind.startswith("PointerCoercion(MutToConst") or kind.startswith("PointerCoercion(ArrayToPointer"):
            if isinstance(v, Ptr) and F["k"] in ("ptr", "ref") and T["k"] in ("ptr", "ref"):
                return self.ptr_cast(st, v, F, T)
            return v
        if kind.startswith("PointerCoercion(Unsize"):
            if F["k"] in ("ref", "ptr"):
                f, t = self.d.ty(F["to"]), self.d.ty(T["to"])
                if f["k"] == "array" and t["k"] == "slice":
                    if v.base[0] == "g" and v.base[2] == F["to"]:
                        pass
                    return Ptr(v.base, v.path, 0, f["len"])
                if t["k"] == "dyn":
                    return Ptr(v.base, v.path, None, None, ("dyn", F["to"]))
            return v
        if kind.startswith("PointerCoercion"):
            return v
        if kind == "IntToFloat":
            v = self.num(st, v)
            if isinstance(v, int):
                return float(v) if T["layout"]["size"] == 8 else f32(float(v))
            return FExpr("i2f" if T["layout"]["size"] == 8 else "i2f32", (v,))
        if kind == "FloatToInt":
            if isinstance(v, float):
                lo, hi = self.rng(tt)
                if v != v:
                    return 0
                if v in (float("inf"), float("-inf")):
                    return hi if v > 0 else lo
                return max(lo, min(hi, int(v)))
            return self.float_to_int(st, v, tt)
        if kind.startswith("FloatToFloat"):
            if T["layout"]["size"] == 8:
                return v
            return f32(v) if isinstance(v, float) else FExpr("f32", (v,))
        if kind.startswith("FnPtrToPtr") or kind.startswith("PointerWithExposed") or kind.startswith("PointerExpose"):
            if T["k"] == "int":
                return Top("address")
            return Top("ptr")
        if kind == "BoxDerefTransmute" and isinstance(v, Ptr):
            return v
        raise Gap("cast %s %s -> %s" % (kind, F["s"], T["s"]))

    def float_to_int(self, st, v, tt):
        lo, hi = self.rng(tt)
        if isinstance(v, FExpr) and v.op == "sqrt" and isinstance(v.args[0], FExpr) and v.args[0].op == "i2f":
            # both the conversion and the square root are correctly rounded: with g the truncated root,
            # g^2 <= x (1 + 2^-53)^3 and (g + 1)^2 >= x (1 - 2^-53)^3
            x = v.args[0].args[0]
            l, h = st.range_of(x)
            if l is not None and h is not None and 0 <= l and h < 1 << 1000:
                from math import isqrt
                U = 1 << 51
                gl, gh = max(0, isqrt(l * (U - 1) // U) - 1), isqrt(h * (U + 1) // U + 1)
                if gh <= hi:
                    g = st.fresh("root", gl, gh)
                    st.assume("ge", P.sub(P.scale(x, U + 1), P.scale(P.mul(g, g), U)))
                    g1 = P.add(g, 1)
                    st.assume("ge", P.sub(P.scale(P.mul(g1, g1), U), P.scale(x, U - 1)))
                    return st.simp(g)
        # sound over-approximation: any value of the target type (NaN -> 0, saturating)
        return st.fresh("f2i", lo, hi)

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "addr"):
            pl = self.place(st, fr, r[1])
            if pl[0] == "ptr":
                return pl[1]
            return Ptr(pl[1], pl[2], None, None, pl[4])
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.float_or_bin(st, r[1], a, b, r[4], r[5])
        if k == "cbin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.cbin(st, r[1], a, b, r[4])
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "PtrMetadata":
                if isinstance(a, Ptr):
                    return a.len if a.len is not None else UNIT
                raise Gap("metadata of %r" % (a,))
            if isinstance(a, (float, FExpr, FSym)):
                if isinstance(a, FSym) and isinstance(a.sign, int):
                    return FSym(1 - a.sign, a.exp, a.man)
                return -a if isinstance(a, float) else FExpr("neg", (a,))
            if r[1] == "Not":
                t = self.d.ty(r[3])
                if t["k"] == "bool":
                    return self.lnot(a)
                a = self.num(st, a)
                lo, hi = self.rng(r[3])
                return P.sub(lo + hi, a)
            a = self.num(st, a)
            lo, hi = self.rng(r[3])
            return self.wrap(st, P.neg(a), lo, hi)
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == "agg":
            return self.aggregate(st, fr, r)
        if k == "discr":
            v = self.read(st, fr, r[1])
            t = self.d.ty(r[2])
            if isinstance(v, Top):
                raise Gap("discriminant of an unknown value")
            if not isinstance(v, Agg):
                raise Gap("discriminant of %r" % (v,))
            if t["k"] == "adt" and t["adt"] == "enum":
                x = int(t["variants"][v.v]["discr"])
                if dty is not None:
                    lo, hi = self.rng(dty)
                    x = (x - lo) % (hi - lo + 1) + lo
                return x
            return 0
        if k == "len":
            pl = self.place(st, fr, r[1])
            return pl[1].len if pl[0] == "ptr" else self.d.ty(pl[3])["len"]
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            return Agg(None, (v,) * r[2])
        raise Gap("rvalue " + k)

    def float_or_bin(self, st, op, a, b, ta, tb):
        t = self.d.ty(ta) if ta >= 0 else None
        if t is not None and t["k"] == "float" and op not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, float) and isinstance(b, float):
                r = None
                if op == "Add":
                    r = a + b
                elif op == "Sub":
                    r = a - b
                elif op == "Mul":
                    r = a * b
                elif op == "Div":
                    if b == 0:
                        r = float("nan") if a == 0 or a != a else (float("inf") if (a > 0) else float("-inf"))
                    else:
                        r = a / b
                if r is not None:
                    return r if t["layout"]["size"] == 8 else f32(r)
            return FExpr(op if t["layout"]["size"] == 8 else op + "32", (a, b))
        return self.binop(st, op, a, b, ta, tb)

    def aggregate(self, st, fr, r):
        kind, ty, ops = r[1], r[2], r[3]
        vals = tuple(self.operand(st, fr, o) for o in ops)
        if kind[0] == "adt":
            t = self.d.ty(ty) if ty >= 0 else None
            if t is not None and t["adt"] == "enum":
                return Agg(kind[1], vals)
            if t is not None and t["adt"] == "union":
                return Agg("u", vals)
            return Agg(None, vals)
        if kind[0] == "rawptr":
            p, m = vals
            if isinstance(p, Ptr) and not (isinstance(m, Agg) and not m.f):
                m = self.num(st, m)
                if p.base[0] == "dangling":
                    return Ptr(p.base, (), 0, m)
                if p.off is not None:
                    return Ptr(p.base, p.path, p.off, m)
                if p.path and p.path[0] != "byteoff":
                    return Ptr(p.base, p.path[:-1], p.path[-1], m, p.vt)
                return Ptr(p.base, (), 0, m)
            return p
        return Agg(None, vals)

    # ------------------------------------------------------------------ running
    def start(self, st, mangled, args):
        fn = self.d.fn(mangled)
        fr = Frame(fn, len(fn["locals"]), None, None, fn["span"])
        for i, a in enumerate(args):
            fr.loc[1 + i] = a
        st.frames = [fr]
        self.fns_seen.add(fn["n"])
        return st

    def run(self, st):
        """Generator of (kind, info, state): ('ret', value), ('panic', why), ('ub', why), ('gap', why)."""
        import time
        work = [st]
        n = 0
        while work:
            st = work.pop()
            try:
                while True:
                    st.steps += 1
                    self.total_steps += 1
                    if st.steps > self.max_steps:
                        raise Gap("step limit")
                    if self.deadline is not None and self.total_steps % 256 == 0 and time.time() > self.deadline:
                        raise Gap("time limit")
                    r = self.step(st)
                    if r is not None:
                        n += 1
                        yield r[0], r[1], st
                        break
            except Fork as f:
                self.forks += 1
                live = []
                for alt in f.alts:
                    s = st.copy()
                    try:
                        for k, p in alt:
                            s.assume(k, p)
                    except Infeasible:
                        continue
                    live.append(s)
                work.extend(reversed(live))
            except Infeasible:
                continue
            except loops.Split as f:
                work.extend(reversed(f.states))
            except loops.Back:
                n += 1
                yield "back", None, st
            except Outcome as o:
                n += 1
                yield o.kind, o.info, st
            except Gap as g:
                n += 1
                yield "gap", str(g), st
            if n > self.max_paths:
                yield "gap", "path limit", st
                return

    def where(self, st):
        """Innermost source position inside the repository, and the call chain."""
        out = []
        for f in st.frames:
            sp = None
            if f.fn["body"]:
                b = f.fn["body"][f.b]
                if f.i < len(b["s"]):
                    sp = b["s"][f.i][-1]
                else:
                    t = b["t"]
                    sp = t[-1] if isinstance(t[-1], str) and ":" in str(t[-1]) else f.fn["span"]
            out.append((f.fn["n"], sp or f.fn["span"]))
        return out

    def step(self, st):
        fr = st.frames[-1]
        blk = fr.fn["body"][fr.b]
        if fr.i < len(blk["s"]):
            s = blk["s"][fr.i]
            self.stmt(st, fr, s)
            fr.i += 1
            return None
        return self.term(st, fr, blk["t"])

    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            pl = s[1]
            dty = None
            if s[2][0] == "discr":
                dty = fr.fn["locals"][pl[0]] if len(pl) == 1 else pl[-1][2] if pl[-1][0] == "f" else None
            v = self.rvalue(st, fr, s[2], dty)
            self.write(st, fr, pl, v)
        elif k == "assume":
            v = self.operand(st, fr, s[1])
            if not self.truth(st, v):
                raise Outcome("ub", "assume(false)")
        elif k == "copyno":
            src, dst, n = (self.operand(st, fr, x) for x in s[1:4])
            self.copy_mem(st, src, dst, n)
        elif k == "setd":
            r = self.place(st, fr, s[1])
            v = self.load(st, r[1], r[2])
            f = v.f if isinstance(v, Agg) else ()
            self.store(st, r[1], r[2], Agg(s[2], f))
        else:
            raise Gap("statement " + k)

    def copy_mem(self, st, src, dst, n):
        n = self.num(st, n)
        if not isinstance(n, int):
            n = st.fork_values(n, 300, "copy length")
        if n == 0:
            return
        vals = []
        for i in range(n):
            q = self.ptr_offset(st, src, i)
            vals.append(self.load(st, q.base, q.path))
        for i, v in enumerate(vals):
            q = self.ptr_offset(st, dst, i)
            self.store(st, q.base, q.path, v)

    def jump(self, st, fr, b):
        if self.ratio is not None and self.ratio["fns"].search(fr.fn["n"]):
            loops.ratio_jump(self, st, fr, b)
        if self.loops is not None and self.loops["fns"].search(fr.fn["n"]):
            loops.on_jump(self, st, fr, b)
        if b <= fr.b:
            x, k = b, 0
            while k < 4 and fr.fn["body"][x]["t"][0] == "goto":
                x, k = fr.fn["body"][x]["t"][1], k + 1
                if x == b:
                    raise Outcome("panic", "loops forever")
            key = (fr.uid, b)
            n = st.visits.get(key, 0) + 1
            st.visits[key] = n
            if n > self.max_visits:
                raise Gap("loop bound in " + fr.fn["n"])
            fr.b = b
            fr.i = 0
            if self.lens:
                loops.widen(self, st, fr, b, n)
        fr.b = b
        fr.i = 0

    def term(self, st, fr, t):
        k = t[0]
        if k == "goto":
            self.jump(st, fr, t[1])
        elif k == "switch":
            v = self.operand(st, fr, t[1])
            self.switch(st, fr, v, t)
        elif k == "return":
            rv = fr.loc[0]
            if rv is None:
                ty = self.d.ty(fr.fn["locals"][0])
                if ty["layout"] and ty["layout"]["size"] == 0:
                    rv = self.d.zst(fr.fn["locals"][0])
            if fr.hook is not None:
                rv = fr.hook(self, st, fr, rv)
            if len(st.frames) == 1:
                return ("ret", rv)
            st.frames.pop()
            up = st.frames[-1]
            self.write(st, up, fr.dest, rv)
            self.jump(st, up, fr.target) if fr.target > up.b else self.jump(st, up, fr.target)
        elif k == "assert":
            v = self.operand(st, fr, t[1])
            ok = self.truth(st, v) == bool(t[2])
            if not ok:
                raise Outcome("panic", "assertion %s" % t[3])
            self.jump(st, fr, t[4])
        elif k == "drop":
            self.jump(st, fr, t[2])
        elif k == "call":
            return self.call(st, fr, t)
        elif k == "unreachable":
            raise Outcome("ub", "unreachable code reached")
        elif k == "resume":
            raise Outcome("panic", "unwinding")
        else:
            raise Gap("terminator " + k)
        return None

    def switch(self, st, fr, v, t):
        branches, other, ty = t[2], t[3], t[4]
        if isinstance(v, Cond) or (isinstance(v, Poly) and self.d.ty(ty)["k"] == "bool"):
            v = int(self.truth(st, v))
        if isinstance(v, (Agg, Dig)):
            v = self.num(st, v)
        if isinstance(v, Poly):
            v = st.simp(v)
        if isinstance(v, int):
            lo, hi = self.rng(ty)
            u = v & (hi - lo)
            for val, b in branches:
                if int(val) == u:
                    self.jump(st, fr, b)
                    return
            self.jump(st, fr, other)
            return
        if isinstance(v, Poly):
            lo, hi = self.rng(ty)
            for val, b in branches:
                x = int(val)
                if lo < 0 and x > hi:
                    x -= hi - lo + 1
                if st.zero_or_fork(P.sub(v, x)):
                    self.jump(st, fr, b)
                    return
            self.jump(st, fr, other)
            return
        raise Gap("switch on %r" % (v,))

    def panic_name(self, n):
        return n.startswith(("core::", "std::", "alloc::", "<core::", "<std::", "<alloc::")) and any(x in n for x in ("panicking::", "unwrap_failed", "expect_failed", "panic_fmt", "overflow_panic", "slice_index_fail",
                                    "slice_error_fail", "_panic", "panic_for", "len_mismatch_fail", "panic_"))

    def call(self, st, fr, t):
        _, callee, fo, args, atys, dest, dty, target, span = t
        vals = [self.operand(st, fr, a) for a in args]
        m = callee
        if m is None or (isinstance(m, str) and m.startswith("!")):
            f = self.operand(st, fr, fo)
            if isinstance(f, FnVal) and f.inst:
                m = f.inst
            else:
                raise Gap("unresolved call")
        fn = self.d.fn(m)
        if fn is None:
            raise Gap("call to unknown function " + m)
        name = fn["n"]
        self.fns_seen.add(name)
        # models (verified contracts or effect stand-ins)
        mod = self.modelcache.get(m, 0)
        if mod == 0:
            mod = None
            for pat, f in self.models.items():
                if pat in name if isinstance(pat, str) else pat.search(name):
                    mod = f
                    break
            self.modelcache[m] = mod
        if mod is not None:
            r = mod(self, st, fr, fn, vals, t)
            if r is not NotImplemented:
                self.write(st, fr, dest, r)
                if target is None:
                    raise Outcome("panic", name)
                self.jump(st, fr, target)
                return None
        if self.panic_name(name) or (target is None and fn["body"] is None):
            raise Outcome("panic", name)
        if fn["intr"] is not None or fn["body"] is None:
            r = self.intrinsic(st, fr, fn, vals, t)
            self.write(st, fr, dest, r)
            self.jump(st, fr, target)
            return None
        if len(st.frames) > 200:
            raise Gap("call depth")
        nf = Frame(fn, len(fn["locals"]), dest, target if target is not None else 0, span)
        argc = fn["argc"]
        if fn["spread"] > 0:
            # callee receives a tuple built from the remaining arguments
            k = fn["spread"]
            if len(vals) == argc:
                pass
            else:
                vals = vals[:k - 1] + [Agg(None, tuple(vals[k - 1:]))]
        elif len(vals) != argc or "{closure" in name.rsplit("::", 1)[-1]:
            if "{closure" in name and len(vals) == 2 and isinstance(vals[1], Agg) and len(vals[1].f) == argc - 1:
                vals = [vals[0]] + list(vals[1].f)
        if len(vals) != argc:
            if len(vals) == 2 and isinstance(vals[1], Agg) and len(vals[1].f) == argc - 1:
                vals = [vals[0]] + list(vals[1].f)
            elif len(vals) == 2 and isinstance(vals[1], Agg) and len(vals[1].f) == argc:
                vals = list(vals[1].f)
            else:
                raise Gap("call arity of " + name)
        for i, a in enumerate(vals):
            nf.loc[1 + i] = a
        st.frames.append(nf)
        return None

    def intrinsic(self, st, fr, fn, vals, t):
        n = fn["intr"] or fn["n"].split("::")[-1]
        atys = t[4]
        if n in ("ctlz", "ctlz_nonzero", "cttz", "cttz_nonzero", "ctpop"):
            lo, hi = self.rng(atys[0])
            bits = (hi - lo + 1).bit_length() - 1
            v = self.num(st, vals[0])
            if isinstance(v, int):
                u = v & ((1 << bits) - 1)
                if n.startswith("ctlz"):
                    return bits - u.bit_length()
                if n.startswith("cttz"):
                    return bits if u == 0 else (u & -u).bit_length() - 1
                return bin(u).count("1")
            if n.startswith("ctlz"):
                return self.ctlz(st, v, lo, hi, bits)
            if n.startswith("cttz"):
                return self.cttz(st, v, lo, hi, bits)
            raise Gap("ctpop of an abstract value")
        if n == "raw_eq":
            a, b = vals
            x, y = self.load(st, a.base, a.path), self.load(st, b.base, b.path)
            return self.deep_eq(st, x, y)
        if n == "is_val_statically_known":
            return 0
        if n in ("cold_path", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid"):
            return UNIT
        if n == "fabs" or n.startswith("fabsf64"):
            v = vals[0]
            if isinstance(v, float):
                return abs(v)
            if isinstance(v, FSym):
                return FSym(0, v.exp, v.man)
            return FExpr("fabs", (v,))
        if n in ("sqrtf64", "sqrt"):
            v = vals[0]
            if isinstance(v, float):
                import math
                return math.sqrt(v) if v >= 0 else float("nan")
            return FExpr("sqrt", (v,))
        if n == "ptr_offset_from_unsigned" or n == "ptr_offset_from":
            a, b = vals
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
                x, y = (a.path or (0,)), (b.path or (0,))
                if len(x) < len(y):
                    x = x + (0,)
                if len(y) < len(x):
                    y = y + (0,)
                if x[:-1] == y[:-1]:
                    return P.sub(x[-1], y[-1])
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base[0] == "dangling" == b.base[0]:
                return P.sub(a.base[1], b.base[1])
            raise Gap("pointer difference")
        if n == "compare_bytes":
            a, b, k = vals
            k = self.num(st, k)
            if not isinstance(k, int):
                k = st.fork_values(k, 300, "memcmp length")
            for i in range(k):
                p, q = self.ptr_offset(st, a, i), self.ptr_offset(st, b, i)
                x, y = self.num(st, self.load(st, p.base, p.path)), self.num(st, self.load(st, q.base, q.path))
                d = P.sub(x, y)
                if isinstance(d, int):
                    if d:
                        return -1 if d < 0 else 1
                    continue
                if not st.zero_or_fork(d):
                    return 1 if st.decide_or_fork(d) else -1
            return 0
        if n in ("size_of_val", "size_of"):
            raise Gap(n)
        if n in ("saturating_add", "saturating_sub"):
            lo, hi = self.rng(atys[0])
            a, b = self.num(st, vals[0]), self.num(st, vals[1])
            p = P.add(a, b) if n == "saturating_add" else P.sub(a, b)
            if self.in_range(st, p, lo, hi):
                return p
            return hi if st.decide_or_fork(p) else lo
        if n in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul"):
            lo, hi = self.rng(atys[0])
            a, b = self.num(st, vals[0]), self.num(st, vals[1])
            p = P.add(a, b) if n.endswith("add") else P.sub(a, b) if n.endswith("sub") else P.mul(a, b)
            return self.wrap(st, p, lo, hi)
        if n in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
            return self.cbin(st, {"a": "Add", "s": "Sub", "m": "Mul"}[n[0]], vals[0], vals[1], atys[0])
        if n in ("unchecked_shl", "unchecked_shr", "unchecked_div", "unchecked_rem", "exact_div"):
            op = {"unchecked_shl": "ShlUnchecked", "unchecked_shr": "ShrUnchecked", "unchecked_div": "Div", "unchecked_rem": "Rem", "exact_div": "Div"}[n]
            return self.binop(st, op, vals[0], vals[1], atys[0], atys[1])
        if n == "three_way_compare":
            return self.compare(st, "Cmp", vals[0], vals[1])
        if n in ("likely", "unlikely", "black_box", "select_unpredictable"):
            if n == "select_unpredictable":
                return vals[1] if self.truth(st, vals[0]) else vals[2]
            return vals[0]
        if n == "read_via_copy" or n == "volatile_load" or n == "typed_swap_nonoverlapping":
            p = vals[0]
            v = self.load(st, p.base, p.path)
            return self.retype(st, v, p.vt) if p.vt else v
        if n == "write_via_move":
            p = vals[0]
            self.store(st, p.base, p.path, vals[1])
            return UNIT
        if n == "write_bytes":
            p, b, k = vals
            k = self.num(st, k)
            if isinstance(k, int):
                for i in range(k):
                    q = self.ptr_offset(st, p, i)
                    self.store(st, q.base, q.path, b)
                return UNIT
            raise Gap(n)
        if n == "transmute" or n == "transmute_unchecked":
            return self.transmute(st, vals[0], atys[0], t[6])
        if n == "discriminant_value":
            p = vals[0]
            v = self.load(st, p.base, p.path)
            ty = self.d.ty(self.d.ty(atys[0])["to"])
            if isinstance(v, Agg) and ty["k"] == "adt" and ty["adt"] == "enum":
                x = int(ty["variants"][v.v]["discr"])
                return self.from_int(st, x, 0, t[6])
            return 0
        if n == "bswap":
            lo, hi = self.rng(atys[0])
            k = self.d.size(atys[0])
            v = self.wrap(st, self.num(st, vals[0]), 0, (1 << 8 * k) - 1)
            acc = 0
            for i in range(k):
                h = self.fdiv(st, v, 256, "byte")
                acc = P.add(acc, P.scale(P.sub(v, P.scale(h, 256)), 1 << 8 * (k - 1 - i)))
                v = h
            return self.wrap(st, acc, lo, hi)
        if n == "abort":
            raise Outcome("panic", "abort")
        if n in ("integer_min", "integer_max"):
            a, b = self.num(st, vals[0]), self.num(st, vals[1])
            ge = st.decide_or_fork(P.sub(a, b))
            return a if ge == (n == "integer_max") else b
        dt = self.d.ty(t[6]) if t[6] is not None and t[6] >= 0 else None
        if dt is not None and dt["k"] == "adt" and not fn["intr"]:
            name = fn["n"]
            if name.endswith(">"):      # drop the generic arguments
                k, i = 0, len(name)
                while True:
                    i -= 1
                    k += (name[i] == ">" and name[i - 1] != "-") - (name[i] == "<")
                    if k == 0:
                        break
                name = name[:i]
            last = name.rstrip(":").split("::")[-1]
            for i, v in enumerate(dt["variants"]):
                if v["name"] == last and len(v["fields"]) == len(vals):
                    return Agg(i if dt["adt"] == "enum" else None, tuple(vals))
        raise Gap("intrinsic or bodyless function " + fn["n"])

    def deep_eq(self, st, x, y):
        if isinstance(x, Agg) and isinstance(y, Agg):
            if x.v != y.v or len(x.f) != len(y.f):
                return 0
            for a, b in zip(x.f, y.f):
                c = self.deep_eq(st, a, b)
                if not self.truth(st, c):
                    return 0
            return 1
        if isinstance(x, Big) or isinstance(y, Big):
            return self.compare(st, "Eq", self.bigval(st, x), self.bigval(st, y))
        return self.compare(st, "Eq", x, y)

    def ctlz(self, st, v, lo, hi, bits):
        """Partition by the number of leading zeros."""
        alts = []
        if lo < 0 and not st.decide(v):
            if st.decide(v) is False:
                return 0
            raise Fork([[("ge", v)], [("ge", P.sub(-1, v))]])
        l, h = st.interval(v)
        if h is not None and l is not None and h.bit_length() == l.bit_length():
            return bits - h.bit_length()
        if self.lazy_lz:
            return self.ctlz_lazy(st, v, l, h, bits)
        for z in range(bits, -1, -1):
            a = 0 if z == bits else 1 << (bits - 1 - z)
            b = 0 if z == bits else (1 << (bits - z)) - 1
            if l is not None and b < l or h is not None and a > h:
                continue
            alts.append((z, [("ge", P.sub(v, a)), ("ge", P.sub(b, v))]))
        if len(alts) == 1:
            return alts[0][0]
        live = []
        for z, alt in alts:
            d = all(st.decide(p) for _, p in alt)
            if d:
                return z
            live.append(alt)
        raise Fork(live)

    def ctlz_lazy(self, st, v, l, h, bits):
        """The number of leading zeros as a symbol; order-related to the other such symbols
        (fewer leading zeros means a strictly larger value)."""
        tab = st.ext.get("lz", ())
        for v2, z, b2 in tab:
            if v2 == v and b2 == bits:
                return z
        zl = 0 if h is None else bits - h.bit_length()
        zh = bits if l is None or l <= 0 else bits - l.bit_length()
        if not tab:
            z = st.fresh("lz", zl, zh)
            st.ext["lz"] = tab + ((v, z, bits),)
            return z
        v2, z2, b2 = tab[-1]
        d = st.ext.get(("lzcmp", v))
        if d is None:
            raise Fork([[("ext", (("lzcmp", v), c))] for c in (-1, 0, 1)])
        z = st.fresh("lz", zl, zh)
        st.ext["lz"] = tab + ((v, z, bits),)
        dz = P.sub(z, z2)
        if d == 0:
            st.assume("eq", dz)
        elif d > 0:                       # more leading zeros: smaller
            st.assume("ge", P.sub(dz, 1))
            st.assume("ge", P.sub(P.sub(v2, v), 1))
        else:
            st.assume("ge", P.sub(-1, dz))
            st.assume("ge", P.sub(P.sub(v, v2), 1))
        return z

    def cttz(self, st, v, lo, hi, bits):
        """Partition by the number of trailing zeros: v = 2^z (2q + 1)."""
        if ("tz", v) in st.divs:
            return st.divs[("tz", v)][0]
        if lo < 0:
            raise Gap("cttz of an abstract signed value")
        l, h = st.interval(v)
        z = st.ext.get(("cttz", v))
        if z is None:
            if h is None or l is None:
                raise Gap("cttz of an unbounded value")
            raise Fork([[("ext", (("cttz", v), z))] for z in range(h.bit_length()) if h >> z > (l - 1) >> z] + ([[("ext", (("cttz", v), bits)), ("eq", v)]] if l <= 0 else []))
        if z == bits:
            return z
        q = st.fresh("tzq", max(0, ((l >> z) - 1) // 2), (h >> z) // 2)
        w = P.add(P.scale(q, 2), 1)
        st.assume("eq", P.sub(v, P.scale(w, 1 << z)))
        w = st.simp(w)
        st.divs[("tz", v)] = (z, w)
        return z
