"""Cases: one analysed entry point, its abstract inputs and its specification; running, proving,
and -- when an obligation is not discharged -- refining the abstract class until it either
certainly violates the specification or the budget ends."""
import re, time
from . import poly as P
from .poly import Poly
from .state import State, Fork, Gap, Infeasible, Stats
from .interp import Interp, Outcome, Cond, Big
from .mir import Agg, Ptr, Top, UNIT


def pinned(pins, name, lo, hi):
    """The range of an input after narrowing; never wider than the declared one."""
    if name not in pins:
        return lo, hi
    a, b = pins[name]
    a = a if lo is None else max(a, lo)
    b = b if hi is None else min(b, hi)
    if a > b:
        raise Infeasible()
    return a, b


class Int:
    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi

    def make(self, st, pins, env):
        lo, hi = pinned(pins, self.name, self.lo, self.hi)
        v = st.fresh(self.name, lo, hi)
        env[self.name] = v
        return v


class Const:
    def __init__(self, v):
        self.v = v

    def make(self, st, pins, env):
        return self.v


class Words:
    """A [u64; n] array (little endian) known by its words; env gets the words and the value."""
    def __init__(self, name, n=4, zero_from=None, wrapdepth=1):
        self.name, self.n, self.wrapdepth = name, n, wrapdepth
        self.zero_from = zero_from

    def make(self, st, pins, env):
        ws = []
        val = 0
        for i in range(self.n):
            nm = "%s%d" % (self.name, i)
            if self.zero_from is not None and i >= self.zero_from:
                w = 0
            else:
                lo, hi = pinned(pins, nm, 0, (1 << 64) - 1)
                w = st.fresh(nm, lo, hi)
            env[nm] = w
            ws.append(w)
            val = P.add(val, P.scale(w, 1 << (64 * i)))
        env[self.name] = val
        v = Agg(None, tuple(ws))
        for _ in range(self.wrapdepth):
            v = Agg(None, (v,))
        return v


def sint(name, bits):
    return Int(name, -(1 << (bits - 1)), (1 << (bits - 1)) - 1)


def uint(name, bits):
    return Int(name, 0, (1 << bits) - 1)


CEIL, NEAREST, FLOOR = Agg(0, ()), Agg(1, ()), Agg(2, ())


class Violated(Exception):
    """A definite violation (used on fully constant states)."""


class Ctx:
    """Handed to a specification: collects obligations about one path's outcome."""

    def __init__(self, st, interp):
        self.st = st
        self.it = interp
        self.n = 0
        self.ok = 0
        self.failed = []

    def _done(self, good, msg, neg):
        self.n += 1
        if good:
            self.ok += 1
        else:
            self.failed.append((msg, neg))

    def pin(self, st, p):
        """Settle the 0/1-like symbols (carries, quotients of small range) that the state determines."""
        rel, syms = st.relevant(p.syms() if isinstance(p, Poly) else ())
        small = [s for s in syms if st.bounds[s][0] is not None and st.bounds[s][1] is not None and 0 < st.bounds[s][1] - st.bounds[s][0] <= 3]
        changed = False
        for s in small[:40]:
            lo, hi = st.bounds[s]
            X = P.sym(s)
            try:
                if st.prove(P.sub(X, lo + 1), 1):
                    st.assume("ge", P.sub(X, lo + 1))
                    changed = True
                elif st.prove(P.sub(hi - 1, X), 1):
                    st.assume("ge", P.sub(hi - 1, X))
                    changed = True
            except Infeasible:
                raise
        if isinstance(p, Poly):
            for m in p.t:
                if len(m) >= 2 and st.mono_interval(m)[0] == 0:
                    M = Poly({m: 1})
                    if (M, True) not in st.factset and st.prove(P.neg(M), 1):
                        st.assume("eq", M)
                        changed = True
        return changed

    def prove(self, p):
        if self.st.prove(p, 2):
            return True
        for _ in range(3):
            if not self.pin(self.st, p):
                return self.refuted(p)
            p = self.st.simp(p)
            if isinstance(p, int):
                return p >= 0
            if self.st.prove(p, 2):
                return True
        return self.refuted(p)

    def refuted(self, p):
        """Last resort: p < 0 is impossible once the equalities are substituted."""
        try:
            r = self.st.eliminated([(P.tighten(P.sub(-1, p)), False)])
        except Infeasible:
            return True
        return r is not None and bool(r.facts) and r.empty_with(list(r.facts), 2)

    def ge(self, p, msg):
        """p >= 0"""
        p = self.st.simp(p)
        if isinstance(p, int):
            self._done(p >= 0, msg, [])
        else:
            self._done(self.prove(p), msg, [("ge", P.sub(-1, p))])

    def eq(self, p, msg):
        p = self.st.simp(p)
        if isinstance(p, int):
            self._done(p == 0, msg, [])
        elif self.prove(p) and self.prove(P.neg(p)):
            self._done(True, msg, [])
        elif self.st.prove(p, 2):
            self._done(False, msg, [("ge", P.sub(p, 1))])
        else:
            self._done(False, msg, [("ge", P.sub(-1, p))])

    def never(self, facts, msg):
        """The facts (list of ('ge'|'eq', poly)) cannot hold together on this path."""
        st = self.st.copy()
        try:
            for k, p in facts:
                st.assume(k, st.simp(p))
        except Infeasible:
            self._done(True, msg, [])
            return
        dead = self._empty(st)
        try:
            k = 0
            while not dead and st.facts and k < 3 and self.pin(st, sum_syms(facts)):
                dead = self._empty(st)
                k += 1
        except Infeasible:
            dead = True
        self._done(dead, msg, facts)

    @staticmethod
    def _empty(st):
        if not st.facts:
            return False
        syms = set()
        for f, _ in st.facts:
            syms |= f.syms()
        seed = [(f, e) for f, e in st.facts]
        if st.empty_with(seed, 1) or st.empty_with(seed, 2):
            return True
        try:
            r = st.eliminated()
        except Infeasible:
            return True
        return r is not None and bool(r.facts) and r.empty_with(list(r.facts), 2)

    def decide(self, p):
        return self.st.decide_or_fork(self.st.simp(p))

    def truth(self, v):
        return self.it.truth(self.st, v)

    def num(self, v):
        return self.it.num(self.st, v)

    def fail(self, msg):
        self.never([], msg)


class Case:
    def __init__(self, id, fn, src, args, spec, tier="quick", cfg="all", models=None, anchors=(), opts=None, interesting=()):
        self.id, self.fn, self.src, self.args, self.spec = id, fn, src, args, spec
        self.tier, self.cfg, self.models = tier, cfg, models
        self.anchors = anchors
        self.opts = opts or {}
        self.interesting = list(interesting)


class Result:
    def __init__(self, id):
        self.id = id
        self.paths = self.obl = self.ok = self.steps = 0
        self.gaps = []
        self.open = []        # undischarged obligations (message, where)
        self.violation = None
        self.fns = set()
        self.time = 0.0
        self.lp = 0

    @property
    def proved(self):
        return not self.gaps and not self.open and self.paths > 0


def start(dump, case, pins, opts):
    it = Interp(dump, models=case.models, max_paths=opts.get("max_paths", 3000), max_steps=opts.get("max_steps", 60000),
                max_visits=opts.get("max_visits", 600), deadline=opts.get("deadline"))
    it.exact = opts.get("confirm", False)      # an approximation is a gap
    st = State()
    env = {}
    args = [a.make(st, pins, env) for a in case.args]
    if case.fn.startswith("~"):     # the only constant of a harness function
        c = [v for k, v in dump.roots.items() if k.startswith(case.fn[1:])]
        m = c[0] if len(c) == 1 else None
    else:
        m = dump.by_name(case.fn[1:]) if case.fn.startswith("=") else dump.roots.get(case.fn)
    if m is None:
        raise KeyError("entry point %s is missing from the harness" % case.fn)
    it.lazy_lz = case.opts.get("lazy_lz", False)
    it.tighten = case.opts.get("tighten", False)
    if opts.get("loops"):
        fns, ghosts = opts["loops"]
        it.roots = opts.get("roots")
        if it.roots:
            roots = it.roots
            it.roots = lambda: roots(env)
        it.loops = {"fns": re.compile(fns), "ghosts": lambda st: ghosts(st, env)}
    if opts.get("ratio"):
        fns, weights, anchor, unroll = opts["ratio"]
        it.ratio = {"fns": re.compile(fns), "weights": weights, "unroll": unroll, "anchor": anchor(env), "done": set(), "proved": {}, "base": st.copy()}
    if case.opts.get("subst"):
        f = case.opts["subst"]
        it.subst = lambda it, st, ty, v: f(it, st, ty, v, env)
    setup = case.opts.get("setup")
    if setup:
        setup(it, st, env)
    it.inputs = frozenset(st.bounds)
    it.lens = tuple(sorted({s for k, v in env.items() if isinstance(k, str) and k.startswith("len_") and isinstance(v, Poly) for s in v.syms()}))
    it.start(st, m, [] if case.opts.get("noargs") else args)
    return it, st, env


def eval_spec(it, st, case, env, kind, val):
    """Run the specification on a path outcome, forking the state where the specification asks."""
    work = [st]
    n = ok = 0
    failed = []
    k = 0
    while work:
        s = work.pop()
        k += 1
        if k > 200:
            failed.append(("specification split limit", [], s))
            n += 1
            break
        cx = Ctx(s, it)
        e = {a: s.simp(b) if isinstance(b, (int, Poly)) else b for a, b in env.items()}
        try:
            case.spec(cx, e, kind, val)
        except Fork as f:
            for alt in f.alts:
                c = s.copy()
                try:
                    for kk, p in alt:
                        c.assume(kk, p)
                except Infeasible:
                    continue
                work.append(c)
            continue
        except Infeasible:
            continue
        except Gap as g:
            n += 1
            failed.append(("gap in specification: %s" % g, [], s))
            continue
        n += cx.n
        ok += cx.ok
        failed += [(m, neg, s) for m, neg in cx.failed]
    return n, ok, failed


def sum_syms(facts):
    t = {}
    for _, p in facts:
        if isinstance(p, Poly):
            for s in p.syms():
                t[(s,)] = 1
    return P.norm(t)


def default_panic(cx, kind, val):
    cx.fail("%s: %s" % ({"panic": "panics", "ub": "undefined behaviour"}[kind], val))


SPENT = [0]         # seconds of this process without a confirmed violation


def analyse(dump, case, pins=None, confirm=True, budget=None):
    t0 = time.time()
    opts = dict(case.opts)
    if budget:
        opts["deadline"] = t0 + budget
    res = Result(case.id)
    lp0 = Stats.lp
    it, st, env = start(dump, case, pins or {}, opts)
    fails = []
    for kind, val, s in it.run(st):
        res.paths += 1
        if kind == "gap":
            if Ctx._empty(s):
                continue
            res.gaps.append((val, it.where(s)[-1], s))
            continue
        n, ok, failed = eval_spec(it, s, case, env, kind, val)
        res.obl += n
        res.ok += ok
        for msg, neg, fs in failed:
            fails.append((msg, neg, fs, kind, val))
        if len(fails) + len(res.gaps) > 12 and confirm:
            break
    res.steps = it.total_steps
    res.fns = set(it.fns_seen)
    res.open = [(m, trail(it, s)) for m, _, s, _, _ in fails]
    if confirm and (fails or res.gaps):
        t1 = time.time()
        # many cases that cannot be decided must not use up the time of the others
        conf = Confirm(dump, case, env, min(opts.get("confirm_s", 40), max(6, 100 - SPENT[0] / 2)))
        for msg, neg, s, kind, val in fails[:8]:
            v = conf.refine(s, neg, env)
            if v:
                res.violation = v
                break
        if res.violation is None:
            for why, _, s in res.gaps[:4]:
                v = conf.refine(s, [], env)
                if v:
                    res.violation = v
                    break
        if res.violation is None:
            SPENT[0] += time.time() - t1
    res.gaps = [(a, b) for a, b, _ in res.gaps]
    res.time = time.time() - t0
    res.lp = Stats.lp - lp0
    return res


def witness(st, neg, tries=40):
    """Integer values of the remaining symbols that satisfy every constraint of the state, if some are found."""
    s = st.copy()
    try:
        for k, p in neg:
            s.assume(k, s.simp(p))
    except Infeasible:
        return None
    if not s.facts:
        return True
    syms = set()
    for p, _ in s.facts:
        syms |= p.syms()
    syms = sorted(syms, key=str)

    def go(s, i):
        nonlocal tries
        if i == len(syms):
            env = {x: s.bounds[x][0] for x in syms}
            return all(P.evaluate(p, env) == 0 if eq else P.evaluate(p, env) >= 0 for p, eq in s.facts)
        lo, hi = s.bounds[syms[i]]
        c = [x for x in (lo, hi) if x is not None]
        try:
            m = s.empty_with(list(s.facts), 1, want_model=True)
        except Exception:
            m = None
        if m is True:
            return False
        if isinstance(m, dict) and (syms[i],) in m:
            x = m[(syms[i],)]
            f = x.numerator // x.denominator if not isinstance(x, int) else x
            c = [f, f + 1] + c
        if not c:
            c = [0, 1]
        for v in dict.fromkeys(c):
            tries -= 1
            if tries < 0:
                return False
            t = s.copy()
            try:
                t.assume("eq", P.sub(P.sym(syms[i]), v))
            except Infeasible:
                continue
            if go(t, i + 1):
                return True
        return False
    return go(s, 0) or None


def trail(it, st):
    w = [x for x in it.where(st) if x[1] and "fixnum" in x[0] or "/src/" in str(x[1])]
    return w[-1] if w else it.where(st)[-1]


def crate_functions(dump, names):
    """Functions of the analysed crate among the names, with their source position."""
    out = []
    for n in sorted(names):
        if "fixnum" not in n or n.startswith("vharness"):
            continue
        m = dump.by_name(n)
        f = dump.fn(m) if m else None
        sp = f.get("span", "") if f else ""
        if "/src/" in sp and "rustlib" not in sp and ".cargo" not in sp:
            out.append("%s (%s)" % (n, sp))
    return out


class Confirm:
    """Narrow an abstract class that escaped the proof until all its inputs are constants, and ask
    the same analysis for its verdict on that class (conditional constant propagation)."""

    def __init__(self, dump, case, env, seconds):
        self.dump, self.case, self.env = dump, case, env
        self.deadline = time.time() + seconds
        self.names = [a for a in env if isinstance(env[a], Poly) and len(env[a].t) == 1 and list(env[a].t.values()) == [1] and len(list(env[a].t)[0]) == 1]
        self.syms = {a: list(env[a].t)[0][0] for a in self.names}
        self.tried = set()

    def point(self, vals):
        key = tuple(vals[n] for n in self.names)
        if key in self.tried:
            return None
        self.tried.add(key)
        opts = dict(self.case.opts)
        opts["max_paths"] = 50
        opts["loops"] = opts["ratio"] = None
        opts["confirm"] = True
        opts["deadline"] = min(self.deadline, time.time() + 5)
        try:
            it, st, env = start(self.dump, self.case, {n: (v, v) for n, v in vals.items()}, opts)
        except Infeasible:
            return None
        for kind, val, s in it.run(st):
            if kind == "gap":
                return None
            n, ok, failed = eval_spec(it, s, self.case, env, kind, val)
            for msg, neg, fs in failed:
                # definite only when what is left of the state is certainly not empty
                if msg.startswith("gap in spec") or not witness(fs, neg):
                    continue
                return {"case": self.case.id, "entry": self.case.fn, "what": msg, "inputs": {k: str(v) for k, v in vals.items()},
                        "outcome": kind, "value": repr(val)[:300], "where": self.blame(it, s), "functions": [y for y in crate_functions(self.dump, it.fns_seen)][:30]}
        return None

    @staticmethod
    def blame(it, s):
        return ["%s at %s" % (n, sp) for n, sp in it.where(s)][-6:]

    def refine(self, st, neg, env):
        s = st.copy()
        try:
            for k, p in neg:
                s.assume(k, s.simp(p))
        except Infeasible:
            return None
        return self.rec(s, list(self.names), {})

    def model(self, s):
        try:
            m = s.empty_with(list(s.facts), 1, want_model=True)
        except Exception:
            return {}
        if m is True:
            return None
        return m if isinstance(m, dict) else {}

    def rec(self, s, names, vals):
        if time.time() > self.deadline:
            return None
        if not names:
            return self.point(vals)
        m = self.model(s)
        if m is None:
            return None
        n = names[0]
        sy = self.syms[n]
        lo, hi = s.bounds[sy]
        c = []
        length = n.startswith("len_")
        if length:          # of a run of digits: at least those of its value
            k = len(str(vals[n[4:]])) if n[4:] in vals else 1
            c += [k, k + 1, k + 2, 0]
        elif (sy,) in m:
            x = m[(sy,)]
            f = x.numerator // x.denominator if not isinstance(x, int) else x
            c += [f, f + 1, f - 1]
        if lo is not None:
            c += [lo, lo + 1]
        if hi is not None:
            c += [hi, hi - 1]
        c += self.case.interesting + [0, 1, -1, 2, -2]
        if lo is not None and hi is not None:
            c += [(lo + hi) // 2, lo + (hi - lo) // 3]
        many = len(names) == 2 and len(self.names) == 2 and not length
        if many:
            # a non-linear class of two inputs: the second one is solved for each of many first ones
            for x in self.case.interesting:
                for d in range(1, 6):
                    c += [x + d, -x - d, x - d]
            if lo is not None and hi is not None:
                c += [lo + (hi - lo) * k // 17 for k in range(1, 17)]
        seen = set()
        width = 3 if length else 90 if many else 14 if len(self.names) <= 2 else 6
        for v in c:
            if v in seen or (lo is not None and v < lo) or (hi is not None and v > hi):
                continue
            seen.add(v)
            if len(seen) > width:
                break
            t = s.copy()
            try:
                t.assume("eq", P.sub(P.sym(sy), v))
            except Infeasible:
                continue
            r = self.rec(t, names[1:], dict(vals, **{n: v}))
            if r:
                return r
        return None
