"""Integer polynomials over named symbols: the expressions of the abstract domain."""


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __repr__(self):
        return show(self)

    def const(self):
        """The constant value, or None."""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def syms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s


NAMES = {}
DEBUG = False


def show(p):
    if isinstance(p, int):
        return str(p)
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (len(x[0]), x[0]), reverse=True):
        n = "*".join("%s%d" % (NAMES.get(s, "s"), s) if DEBUG else NAMES.get(s, "s%d" % s) for s in m)
        if not m:
            out.append("%+d" % c)
        elif c == 1:
            out.append("+" + n)
        elif c == -1:
            out.append("-" + n)
        else:
            out.append("%+d*%s" % (c, n))
    return "".join(out) or "0"


def norm(t):
    """dict -> int or Poly"""
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return Poly(t)


def terms(a):
    if isinstance(a, Poly):
        return a.t
    return {(): a} if a else {}


def sym(i):
    return Poly({(i,): 1})


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        t = dict(a.t)
        c = t.get((), 0) + b
        if c:
            t[()] = c
        else:
            del t[()]
        return norm(t)
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0) + c
        if v:
            t[m] = v
        else:
            del t[m]
    return norm(t)


def neg(a):
    if isinstance(a, int):
        return -a
    return Poly({m: -c for m, c in a.t.items()})


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int):
        return add(a, -b)
    return add(a, neg(b))


def scale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Poly({m: c * k for m, c in a.t.items()})


def mul(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a * b
        return scale(b, a)
    if isinstance(b, int):
        return scale(a, b)
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            v = t.get(m, 0) + c1 * c2
            if v:
                t[m] = v
            else:
                t.pop(m, None)
    return norm(t)


def exact(a, n):
    """a / n for a polynomial all of whose coefficients are divisible by n."""
    return a // n if isinstance(a, int) else Poly({m: c // n for m, c in a.t.items()})


def evaluate(a, env):
    if isinstance(a, int):
        return a
    r = 0
    for m, c in a.t.items():
        v = c
        for s in m:
            v *= env[s]
        r += v
    return r


def tighten(p):
    """Integer tightening of p >= 0: divide by the content of the non-constant part, floor the rest."""
    if isinstance(p, int):
        return p
    from math import gcd
    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, c)
            if g == 1:
                return p
    if g <= 1:
        return p
    return norm({m: c // g for m, c in p.t.items() if c // g})
