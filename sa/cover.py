"""Loops over runs of unknown length: a path whose state is an instance of an earlier state of the same
path, up to the names of symbols, repeats behaviour that is followed anyway."""
from . import poly as P
from .poly import Poly
from .state import Gap, Infeasible

KEEP = 6


class Different(Exception):
    pass


class Match:
    def __init__(self, old, new, fixed, other=False):
        self.old, self.new, self.fixed, self.other = old, new, fixed, other
        self.map = {}
        self.uids = {}
        self.late = []

    def sym(self, s, v):
        if s in self.map:
            if self.map[s] != v:
                raise Different
            return
        if v != P.sym(s) and s in self.fixed:
            raise Different
        self.map[s] = v

    def walk(self, a, b):
        if isinstance(a, Poly) or isinstance(b, Poly):
            if not isinstance(a, (int, Poly)) or not isinstance(b, (int, Poly)):
                raise Different
            a, b = self.old.simp(a), self.new.simp(b)
            if isinstance(a, int):
                if a != b:
                    raise Different
                return
            m = [x for x in a.t if x]
            if len(m) == 1 and len(m[0]) == 1 and a.t[m[0]] in (1, -1):     # c +- x
                self.sym(m[0][0], P.scale(P.sub(b, a.t.get((), 0)), a.t[m[0]]))
            else:
                self.late.append((a, b))
            return
        if a is None or isinstance(a, (int, str, bytes, bool)):
            if type(a) is not type(b) or a != b:
                raise Different
            return
        if type(a) is not type(b):
            raise Different
        if isinstance(a, (tuple, list)):
            if len(a) != len(b):
                raise Different
            if len(a) == 3 and a[0] == "l" and isinstance(a[1], int):
                if self.uids.get(a[1], a[1]) != b[1]:
                    raise Different
                return self.walk(a[2], b[2])
            for x, y in zip(a, b):
                self.walk(x, y)
            return
        if isinstance(a, (set, frozenset)):
            if a != b:
                raise Different
            return
        if isinstance(a, dict):
            if a is b:
                return
            if set(a) != set(b):
                raise Different
            for k in a:
                self.walk(a[k], b[k])
            return
        slots = [s for c in type(a).__mro__ for s in getattr(c, "__slots__", ())]
        if slots:
            for s in slots:
                self.walk(getattr(a, s, None), getattr(b, s, None))
            return
        if hasattr(a, "__dict__"):
            for k in vars(a):
                self.walk(vars(a)[k], vars(b).get(k))
            return
        raise Different

    def project(self, facts):
        """The facts without the symbols that the rest of the state doesn't mention (exact for coefficients +-1)."""
        facts = list(facts)
        while True:
            s = next((s for p, _ in facts for m in p.t for s in m if s not in self.map and s not in self.fixed), None)
            if s is None:
                return facts
            has = [f for f in facts if any(s in m for m in f[0].t)]
            facts = [f for f in facts if f not in has]
            if len(has) > 12 or any(p.t.get((s,)) not in (1, -1) or sum(s in m for m in p.t) != 1 for p, _ in has):
                raise Different
            x = P.sym(s)
            eqs = [p for p, eq in has if eq]
            lo, hi = self.old.bounds[s]
            has += [(P.sub(x, lo), False)] if lo is not None else []
            has += [(P.sub(hi, x), False)] if hi is not None else []
            if eqs:
                p = eqs[0]
                x = P.scale(P.sub(p, P.scale(x, p.t[(s,)])), -p.t[(s,)])
                for q, eq in has:
                    c = q.t[(s,)]
                    q = P.add(P.sub(q, P.scale(P.sym(s), c)), P.scale(x, c))
                    if isinstance(q, Poly):
                        facts.append((q, eq))
                continue
            for q, _ in has:
                for r, _ in has:
                    if q.t[(s,)] == 1 and r.t[(s,)] == -1:
                        y = P.add(q, r)
                        if isinstance(y, Poly) and (y, False) not in facts:
                            facts.append((y, False))

    def subst(self, p):
        """p of the old state in terms of the new one"""
        if isinstance(p, int):
            return p
        out = 0
        for m, c in p.t.items():
            x = c
            for s in m:
                x = P.mul(x, self.map.get(s, P.sym(s)))
            out = P.add(out, x)
        return out

    def run(self):
        o, n = self.old, self.new
        if len(o.frames) != len(n.frames):
            raise Different
        for f, g in zip(o.frames, n.frames):
            if f.fn is not g.fn or f.b != g.b or f.i != g.i or f.target != g.target or f.hook is not g.hook or f.tag != g.tag:
                raise Different
            self.uids[f.uid] = g.uid
        for f, g in zip(o.frames, n.frames):
            self.walk(f.dest, g.dest)
            self.walk(f.loc, g.loc)
        self.walk(o.effects, n.effects)
        for k, v in o.heap.items():
            if k not in n.heap:
                raise Different
            self.walk(v, n.heap[k])
        for a, b in self.late:
            for m in a.t:
                for s in m:
                    self.map.setdefault(s, P.sym(s))
            if n.simp(P.sub(self.subst(a), b)) != 0:
                raise Different
        moved = {s for s, v in self.map.items() if v != P.sym(s)}
        facts = o.facts
        if self.other:
            # another path: whatever it knew must hold here as well
            facts = self.project(facts)
            for p, _ in facts:
                for m in p.t:
                    for s in m:
                        self.map.setdefault(s, P.sym(s))
            for s in o.bounds:
                if s in self.fixed and o.bounds[s] != n.bounds.get(s):
                    self.map.setdefault(s, P.sym(s))
            moved = set(self.map)
            have = set(n.facts)
        elif not moved:
            # literally the same values; the facts only grew
            return
        for s in moved:
            lo, hi = o.bounds[s]
            v = self.map[s]
            if lo is not None and not n.prove(P.sub(v, lo)):
                raise Different
            if hi is not None and not n.prove(P.sub(hi, v)):
                raise Different
        for p, eq in facts:
            if any(s in moved for m in p.t for s in m):
                q = self.subst(p)
                if self.other and (q, eq) in have:
                    continue
                if not n.prove(q) or (eq and not n.prove(P.neg(q))):
                    raise Different


def symbols(v, out):
    if isinstance(v, Poly):
        for m in v.t:
            out.update(m)
    elif isinstance(v, (tuple, list, frozenset, set)):
        for x in v:
            symbols(x, out)
    elif isinstance(v, dict):
        for k, x in v.items():
            symbols(k, out)
            symbols(x, out)
    elif v is not None and not isinstance(v, (int, str, bytes)):
        for c in type(v).__mro__:
            for s in getattr(c, "__slots__", ()):
                symbols(getattr(v, s, None), out)


def clean(st, head):
    """A copy of the state without the locals that are not read again."""
    from .loops import dead
    s = st.copy()
    for f in s.frames:
        if head and f is s.frames[-1]:
            gone = dead(f.fn, f.b)
        else:
            t = f.fn["body"][f.b]["t"]
            if t[0] != "call" or t[7] is None or f.i < len(f.fn["body"][f.b]["s"]):
                continue
            gone = dead(f.fn, t[7]) | ({t[5][0]} if len(t[5]) == 1 else set())
        for x in gone:
            f.loc[x] = None
    return s


def check(it, real, head=False):
    """End this path if it repeats an earlier state of its own; remember the state otherwise."""
    fr = real.frames[-1]
    st = clean(real, head)
    key = ("cover", len(st.frames), fr.fn["n"], fr.b, fr.i)
    past = real.visits.get(key, ())
    n = real.visits[key + ("n",)] = real.visits.get(key + ("n",), 0) + 1
    if n > 30:
        raise Gap("loop over a run of unknown length")
    for old in past:
        fixed = set(it.inputs)
        symbols(old.divs, fixed)        # definitions hold for these very symbols
        symbols(old.ext, fixed)
        try:
            Match(old, st, fixed).run()
        except Different:
            continue
        raise Infeasible()
    for old in it.covers.get(key, ()):
        if any(k not in st.divs or st.divs[k] != v for k, v in old.divs.items()) or any(k not in st.ext or st.ext[k] != v for k, v in old.ext.items()):
            continue
        fixed = set(it.inputs)
        symbols(old.divs, fixed)
        symbols(old.ext, fixed)
        if any(s not in st.bounds for s in fixed):
            continue
        try:
            Match(old, st, fixed, True).run()
        except Different:
            continue
        raise Infeasible()
    every = it.covers.setdefault(key, [])
    if len(every) < 60:
        every.append(st)
    st.visits = {}
    real.visits[key] = (past + (st,))[-KEEP:]
