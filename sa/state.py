"""The abstract state: integer symbols with intervals, polynomial (in)equalities between them, and
the memory of the program.  Entailment is decided by interval evaluation, then by emptiness of the
polyhedron over monomials, strengthened with products of known-nonnegative facts."""
from . import poly as P
from .poly import Poly
from .lp import infeasible, Unknown

_next = [0]


class Infeasible(Exception):
    pass


class Fork(Exception):
    """Re-execute the current step once per alternative; each alternative is a list of
    (kind, poly) facts with kind in 'ge','eq'."""

    def __init__(self, alts):
        self.alts = alts


class Gap(Exception):
    """The analyser does not model this construct: nothing can be concluded on this path."""


class Stats:
    lp = 0
    quick = 0
    paths = 0


def imin(a, b):
    return b if a is None else (a if b is None else min(a, b))


class State:
    __slots__ = ("bounds", "facts", "factset", "frames", "divs", "trace", "heap", "memo", "ext", "known", "steps", "visits", "effects")

    def __init__(self):
        self.bounds = {}
        self.facts = ()          # tuple of (poly, is_eq): poly >= 0 / poly == 0
        self.factset = frozenset()
        self.frames = []
        self.divs = {}
        self.trace = ()
        self.heap = {}
        self.memo = {}
        self.ext = {}
        self.known = {}          # polynomial without constant term -> best known lower bound
        self.steps = 0
        self.visits = {}
        self.effects = ()

    def copy(self):
        s = State.__new__(State)
        s.bounds = dict(self.bounds)
        s.facts = self.facts
        s.factset = self.factset
        s.frames = [f.copy() for f in self.frames]
        s.divs = dict(self.divs)
        s.trace = self.trace
        s.heap = dict(self.heap)
        s.memo = dict(self.memo)
        s.ext = dict(self.ext)
        s.known = dict(self.known)
        s.effects = self.effects
        s.steps = self.steps
        s.visits = dict(self.visits)
        return s

    # ---- symbols
    def fresh(self, name, lo=None, hi=None):
        _next[0] += 1
        i = _next[0]
        P.NAMES[i] = name if name else "s"
        if lo is not None and lo == hi:
            return lo
        self.bounds[i] = (lo, hi)
        return P.sym(i)

    # ---- intervals
    def interval(self, p):
        if isinstance(p, int):
            return p, p
        lo = hi = 0
        B = self.bounds
        for m, c in p.t.items():
            if not m:
                l = h = c
            else:
                l, h = self.mono_interval(m)
                if c < 0:
                    l, h = (None if h is None else h * c), (None if l is None else l * c)
                else:
                    l = None if l is None else l * c
                    h = None if h is None else h * c
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
            if lo is None and hi is None:
                return None, None
        return lo, hi

    def mono_interval(self, m):
        B = self.bounds
        if len(m) == 1:
            return B[m[0]]
        if len(m) == 2 and m[0] == m[1]:
            l, h = B[m[0]]
            if l is not None and l >= 0:
                return l * l, None if h is None else h * h
            if h is not None and h <= 0:
                return h * h, None if l is None else l * l
            return 0, (None if l is None or h is None else max(l * l, h * h))
        l, h = B[m[0]]
        for s in m[1:]:
            l2, h2 = B[s]
            if None in (l, h, l2, h2):
                # only the common sign cases
                if l is not None and l >= 0 and l2 is not None and l2 >= 0:
                    l, h = l * l2, (None if h is None or h2 is None else h * h2)
                elif h is not None and h <= 0 and h2 is not None and h2 <= 0:
                    l, h = h * h2, (None if l is None or l2 is None else l * l2)
                elif l is not None and l >= 0 and h2 is not None and h2 <= 0:
                    l, h = (None if h is None or l2 is None else h * l2), l * h2
                elif h is not None and h <= 0 and l2 is not None and l2 >= 0:
                    l, h = (None if l is None or h2 is None else l * h2), h * l2
                else:
                    return None, None
            else:
                c = (l * l2, l * h2, h * l2, h * h2)
                l, h = min(c), max(c)
        return l, h

    # ---- facts
    def simp(self, p):
        """Replace symbols whose interval is a single value."""
        if isinstance(p, int):
            return p
        B = self.bounds
        for m in p.t:
            for s in m:
                b = B[s]
                if b[0] is not None and b[0] == b[1]:
                    break
            else:
                continue
            break
        else:
            return p
        t = {}
        for m, c in p.t.items():
            r = []
            for s in m:
                b = B[s]
                if b[0] is not None and b[0] == b[1]:
                    c *= b[0]
                else:
                    r.append(s)
            r = tuple(r)
            v = t.get(r, 0) + c
            if v:
                t[r] = v
            else:
                t.pop(r, None)
        return P.norm(t)

    def assume(self, kind, p):
        """Add p >= 0 ('ge'), p == 0 ('eq'); raises Infeasible if that is contradictory.
        ('val', (q, v)) is q == v, remembered so that q is the constant v from now on."""
        if kind == "val":
            q, v = p
            self.ext[("val", q)] = v
            return self.assume("eq", P.sub(q, v))
        if kind == "ext":
            self.ext[p[0]] = p[1]
            return
        if kind == "ge":
            p = P.tighten(p)
        if isinstance(p, int):
            if (kind == "ge" and p < 0) or (kind == "eq" and p != 0):
                raise Infeasible()
            return
        lo, hi = self.interval(p)
        if kind == "ge":
            if lo is not None and lo >= 0:
                return
            if hi is not None and hi < 0:
                raise Infeasible()
        else:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                raise Infeasible()
        f = (p, kind == "eq")
        if f in self.factset:
            return
        if len(p.t) > 1 or () not in p.t:
            self.learn(p)
            if kind == "eq":
                self.learn(P.neg(p))
        self.facts = self.facts + (f,)
        self.factset = self.factset | {f}
        self.memo = {}
        self.propagate([f])

    def propagate(self, work):
        n = 0
        B = self.bounds
        work = list(work)
        while work and n < 200:
            n += 1
            p, eq = work.pop()
            for sgn in ((1, -1) if eq else (1,)):
                ivs = {}
                lo = hi = 0
                unb = []
                for m, c in p.t.items():
                    c = c * sgn
                    if not m:
                        h = c
                    else:
                        l, h = self.mono_interval(m)
                        h = (None if h is None else h * c) if c > 0 else (None if l is None else l * c)
                    ivs[m] = h
                    if h is None:
                        unb.append(m)
                    else:
                        hi += h
                if len(unb) > 1:
                    continue
                if not unb and hi < 0:
                    raise Infeasible()
                for m, c in p.t.items():
                    if len(m) != 1 or (unb and unb[0] != m):
                        continue
                    c = c * sgn
                    rest = hi if unb else hi - ivs[m]
                    # c*x + rest >= 0
                    s = m[0]
                    l, h = B[s]
                    if c > 0:
                        nl = -(rest // c)      # x >= ceil(-rest/c)
                        if l is None or nl > l:
                            B[s] = (nl, h)
                        else:
                            continue
                    else:
                        nh = rest // (-c)
                        if h is None or nh < h:
                            B[s] = (l, nh)
                        else:
                            continue
                    l, h = B[s]
                    if l is not None and h is not None and l > h:
                        raise Infeasible()
                    if n < 60:
                        for f in self.facts:
                            if f[0] is not p and any(s in mm for mm in f[0].t):
                                work.append(f)

    def learn(self, p):
        c = p.t.get((), 0)
        l = P.add(p, -c)
        if not isinstance(l, int):
            o = self.known.get(l)
            if o is None or o < -c:
                self.known[l] = -c

    def recall(self, p):
        """Syntactic entailment of p >= 0 from a recorded fact with the same non-constant part."""
        c = p.t.get((), 0)
        l = P.add(p, -c)
        if isinstance(l, int):
            return False
        o = self.known.get(l)
        return o is not None and o + c >= 0

    def range_of(self, p):
        """Interval of p, narrowed by recorded facts with the same non-constant part."""
        lo, hi = self.interval(p)
        if isinstance(p, Poly) and self.known:
            c = p.t.get((), 0)
            l = P.add(p, -c)
            o = self.known.get(l)
            if o is not None and (lo is None or o + c > lo):
                lo = o + c
            o = self.known.get(P.neg(l))
            if o is not None and (hi is None or c - o < hi):
                hi = c - o
        return lo, hi

    # ---- entailment
    def relevant(self, syms):
        """Facts connected to the symbols (transitively)."""
        fs = list(self.facts)
        out = []
        syms = set(syms)
        fsy = [(f, f[0].syms()) for f in fs]
        changed = True
        while changed:
            changed = False
            rest = []
            for f, s in fsy:
                if s & syms:
                    if not s <= syms:
                        syms |= s
                        changed = True
                    out.append(f)
                else:
                    rest.append((f, s))
            fsy = rest
        return out, syms

    def empty_with(self, extra, level=1, want_model=False):
        """Is the state conjoined with the extra facts empty?  (True = certainly empty.)"""
        Stats.lp += 1
        syms = set()
        for p, _ in extra:
            if isinstance(p, int):
                continue
            syms |= p.syms()
        facts, syms = self.relevant(syms)
        facts = facts + [e for e in extra if not isinstance(e[0], int)]
        for p, eq in extra:
            if isinstance(p, int) and ((eq and p != 0) or (not eq and p < 0)):
                return True
        monos = set()
        for p, _ in facts:
            monos.update(p.t)
        monos.discard(())
        B = self.bounds
        rows = []

        def addrow(p, eq):
            c = p.t.get((), 0)
            r = {m: k for m, k in p.t.items() if m}
            rows.append((r, -c, -c if eq else None))

        for p, eq in facts:
            addrow(p, eq)
        quad = [m for m in monos if len(m) == 2]
        high = [m for m in monos if len(m) > 2]
        derived = []
        seen = set()

        def derive(q):
            if isinstance(q, int):
                return
            if q in seen:
                return
            seen.add(q)
            derived.append((q, False))

        for m in quad:
            x, y = m
            lx, hx = B[x]
            ly, hy = B[y]
            X, Y = P.sym(x), P.sym(y)
            if x == y:
                if lx is not None:
                    derive(P.mul(P.sub(X, lx), P.sub(X, lx)))
                    if hx is not None:
                        derive(P.mul(P.sub(X, lx), P.sub(hx, X)))
                if hx is not None:
                    derive(P.mul(P.sub(hx, X), P.sub(hx, X)))
                continue
            fx = ([P.sub(X, lx)] if lx is not None else []) + ([P.sub(hx, X)] if hx is not None else [])
            fy = ([P.sub(Y, ly)] if ly is not None else []) + ([P.sub(hy, Y)] if hy is not None else [])
            for a in fx:
                for b in fy:
                    derive(P.mul(a, b))
        for m in high:
            for i in range(len(m)):
                rest = m[:i] + m[i + 1:]
                if rest in monos or len(rest) >= 1:
                    lr, hr = self.mono_interval(rest)
                    x = m[i]
                    lx, hx = B[x]
                    X, R = P.sym(x), Poly({rest: 1})
                    fx = ([P.sub(X, lx)] if lx is not None else []) + ([P.sub(hx, X)] if hx is not None else [])
                    fr = ([P.sub(R, lr)] if lr is not None else []) + ([P.sub(hr, R)] if hr is not None else [])
                    for a in fx:
                        for b in fr:
                            q = P.mul(a, b)
                            if isinstance(q, Poly) and all(mm in monos or len(mm) <= 1 or mm == m for mm in q.t):
                                derive(q)
        if level >= 2 and (quad or high):
            nl = set()
            for m in quad + high:
                nl.update(m)
            cand = []
            for p, eq in facts:
                if all(len(m) <= 1 for m in p.t) and len(p.t) <= 6 and (p.syms() & nl):
                    cand.append((p, eq))
            unit = []
            for s in nl:
                l, h = B[s]
                X = P.sym(s)
                if l is not None:
                    unit.append((P.sub(X, l), False))
                if h is not None:
                    unit.append((P.sub(h, X), False))
            allow = monos | {(s,) for s in syms} | {()}
            allc = cand + unit
            for i, (p, e1) in enumerate(cand):
                for q, e2 in allc[i:]:
                    r = P.mul(p, q)
                    if isinstance(r, int) or r in seen:
                        continue
                    if all(m in allow for m in r.t):
                        seen.add(r)
                        derived.append((r, e1 or e2))
                if level >= 3:
                    pass
            # equality times symbol
            for p, eq in facts:
                if eq and level >= 2:
                    for s in nl:
                        r = P.mul(p, P.sym(s))
                        if isinstance(r, Poly) and r not in seen and all(m in allow for m in r.t):
                            seen.add(r)
                            derived.append((r, True))
        for p, eq in derived:
            addrow(p, eq)
        bounds = {}
        for r, _, _ in rows:
            for m in r:
                if m not in bounds:
                    bounds[m] = self.mono_interval(m)
        try:
            return infeasible(rows, bounds, want_model=want_model)
        except Unknown:
            return False

    def eliminated(self, extra=()):
        """A copy of the facts in which equalities with a unit coefficient are substituted away and
        the inequalities are tightened to integers (parity arguments). May raise Infeasible."""
        facts = list(self.facts) + [e for e in extra if not isinstance(e[0], int)]
        done = set()
        for _ in range(12):
            pick = None
            for p, eq in facts:
                if not eq:
                    continue
                for m, c in p.t.items():
                    if len(m) == 1 and abs(c) == 1 and not any(m[0] in o and o != m for o in p.t):
                        pick = (p, m[0], c)
                        break
                if pick:
                    break
            if not pick:
                break
            p, x, c = pick
            e = P.sub(P.sym(x), P.scale(p, c))      # x == e
            out = []
            for q, eq in facts:
                if q is p:
                    continue
                r = subst(q, x, e)
                out.append((r, eq))
            l, h = self.bounds[x]
            if l is not None:
                out.append((P.sub(e, l), False))
            if h is not None:
                out.append((P.sub(h, e), False))
            facts = [(q, eq) for q, eq in out]
            for q, eq in facts:
                if isinstance(q, int) and ((eq and q != 0) or (not eq and q < 0)):
                    raise Infeasible()
            facts = [(q, eq) for q, eq in facts if not isinstance(q, int)]
            done.add(x)
        if not done:
            return None
        s = self.copy()
        s.facts, s.factset, s.memo, s.known = (), frozenset(), {}, {}
        for q, eq in facts:
            s.assume("eq" if eq else "ge", q)
        return s

    def prove(self, p, level=2):
        """Does the state entail p >= 0 (over the integers)?"""
        p = P.tighten(p)
        if isinstance(p, int):
            return p >= 0
        lo, hi = self.interval(p)
        if lo is not None and lo >= 0:
            Stats.quick += 1
            return True
        if self.recall(p):
            Stats.quick += 1
            return True
        if hi is not None and hi < 0:
            return False
        k = ("ge", p, level)
        r = self.memo.get(k)
        if r is None:
            neg = (P.tighten(P.sub(-1, p)), False)
            r = self.empty_with([neg], 1)
            if not r and level >= 2:
                r = self.empty_with([neg], 2)
            self.memo[k] = r
        return r

    def decide(self, p, level=1):
        """True if p >= 0 is entailed, False if p < 0 is entailed, else None."""
        if isinstance(p, int):
            return p >= 0
        lo, hi = self.interval(p)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        if not self.facts:
            return None
        if self.recall(p):
            return True
        if self.recall(P.sub(-1, p)):
            return False
        if self.prove(p, level):
            self.entailed(p)
            return True
        if self.prove(P.sub(-1, p), level):
            self.entailed(P.sub(-1, p))
            return False
        return None

    def entailed(self, p):
        """p >= 0 was derived: keep it in the intervals if it bounds a single symbol."""
        if len(p.t) - (() in p.t) == 1 and all(len(m) <= 1 for m in p.t):
            self.propagate([(P.tighten(p), False)])

    def decide_or_fork(self, p):
        d = self.decide(p)
        if d is None:
            raise Fork([[("ge", p)], [("ge", P.sub(-1, p))]])
        return d

    def zero(self, p):
        """True / False / None for p == 0."""
        if isinstance(p, int):
            return p == 0
        lo, hi = self.interval(p)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        if lo == 0 and hi == 0:
            return True
        k = ("z", p)
        if k in self.memo:
            return self.memo[k]
        a = self.prove(p, 1)
        b = self.prove(P.neg(p), 1)
        if a and b:
            r = True
        elif self.facts and ((a and self.prove(P.sub(p, 1), 1)) or (b and self.prove(P.sub(P.neg(p), 1), 1))):
            r = False
        elif self.facts and self.empty_with([(p, True)], 1):
            r = False
        else:
            r = None
        self.memo[k] = r
        return r

    def zero_or_fork(self, p):
        z = self.zero(p)
        if z is None:
            raise Fork([[("eq", p)], [("ge", P.sub(p, 1))], [("ge", P.sub(-1, p))]])
        return z

    def fork_values(self, p, limit, why="value"):
        """Make p concrete by splitting on its (bounded) interval."""
        p = self.simp(p)
        if isinstance(p, int):
            return p
        v = self.ext.get(("val", p))
        if v is not None:
            return v
        lo, hi = self.interval(p)
        if lo is None or hi is None or hi - lo > limit:
            raise Gap("unbounded split on %s" % why)
        if lo == hi:
            return lo
        if len(p.t) <= 2:
            for v, z, bits in self.ext.get("lz", ()):
                if not isinstance(z, int) and p.syms() == z.syms():
                    (m, c), = [(m, c) for m, c in p.t.items() if m]
                    k = p.t.get((), 0)
                    alts = []
                    zl, zh = self.interval(z)
                    for x in range(zl, zh + 1):
                        a, b = (0, 0) if x == bits else (1 << (bits - 1 - x), (1 << (bits - x)) - 1)
                        alts.append([("val", (p, c * x + k)), ("ge", P.sub(v, a)), ("ge", P.sub(b, v))])
                    raise Fork(alts)
        raise Fork([[("val", (p, v))] for v in range(lo, hi + 1)])


def subst(q, x, e):
    """q with the symbol x replaced by the polynomial e."""
    if isinstance(q, int) or not any(x in m for m in q.t):
        return q
    r = 0
    for m, c in q.t.items():
        k = m.count(x)
        t = Poly({tuple(s for s in m if s != x): c}) if len(m) > k else c
        for _ in range(k):
            t = P.mul(t, e)
        r = P.add(r, t)
    return r
