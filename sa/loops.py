"""Loops by induction.  At the head of a loop of a selected function the run is split by the number
of iterations: executions with fewer than K iterations are followed exactly; every other execution
passes a head state exactly K iterations before the exit, and that state is abstracted by an
inductive invariant (the integers that the body changes are forgotten, and the largest inductive
subset of candidate bounds is kept).  A loop whose iterations do not strictly move one integer in
one direction is not known to terminate."""
from . import poly as P
from .poly import Poly
from .state import Fork, Gap, Infeasible
from .mir import Agg

K = 2
DEBUG = False


class Split(Exception):
    def __init__(self, states):
        self.states = states


def succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "assert":
        return [t[4]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[7]] if t[7] is not None else []
    return []


def loops_of(fn):
    """Loop head -> the blocks of its natural loop."""
    c = fn.get("_loops")
    if c is not None:
        return c
    body = fn["body"]
    state, back, stack = {}, [], [(0, iter(succ(body[0]["t"])))]
    state[0] = 1
    while stack:
        b, it = stack[-1]
        for x in it:
            if state.get(x) == 1:
                back.append((b, x))
            elif x not in state:
                state[x] = 1
                stack.append((x, iter(succ(body[x]["t"]))))
                break
        else:
            state[b] = 2
            stack.pop()
    pred = {}
    for b in state:
        for x in succ(body[b]["t"]):
            pred.setdefault(x, []).append(b)
    out = {}
    for u, h in back:
        nodes, work = out.setdefault(h, {h}), [u]
        while work:
            x = work.pop()
            if x not in nodes:
                nodes.add(x)
                work += pred.get(x, [])
    fn["_loops"] = out
    return out


def differs(a, b, path, out):
    """Paths at which two values of the same place differ."""
    if a is b:
        return
    if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and len(a.f) == len(b.f):
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            differs(x, y, path + (i,), out)
        return
    if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)) and a == b:
        return
    out.append((path, a, b))


def getp(v, path):
    for i in path:
        v = v.f[i]
    return v


def setp(v, path, x):
    if not path:
        return x
    f = list(v.f)
    f[path[0]] = setp(f[path[0]], path[1:], x)
    return Agg(v.v, tuple(f))


def places(st):
    for i, f in enumerate(st.frames):
        for j, v in enumerate(f.loc):
            yield ("l", i, j), v
    for k, v in st.heap.items():
        yield ("h", k), v


def get(st, key):
    return st.frames[key[1]].loc[key[2]] if key[0] == "l" else st.heap.get(key[1])


def put(st, key, v):
    if key[0] == "l":
        st.frames[key[1]].loc[key[2]] = v
    else:
        st.heap[key[1]] = v


class Back(Exception):
    pass


def havoc(it, st, fr, changed, ghosts, live):
    """The head state with the changed places forgotten and the candidate bounds `live` assumed."""
    s = st.copy()
    names = {}
    for key, path in sorted(changed, key=str):
        v = get(st, key)
        cur = getp(v, path)
        new = None
        if isinstance(cur, (int, Poly)) and not (key[0] == "l" and cur is None):
            lo = hi = None
            if key[0] == "l" and not path:
                try:
                    lo, hi = it.rng(st.frames[key[1]].fn["locals"][key[2]])
                except Gap:
                    pass
            new = s.fresh("loop", lo, hi)
            names[(key, path)] = new
        put(s, key, setp(get(s, key), path, new))
    for var, g, up in live:
        if var in names:
            s.assume("ge", P.sub(names[var], ghosts[g]) if up else P.sub(ghosts[g], names[var]))
    return s, names


def invariant(it, st, fr, h, ghosts, trace=None):
    changed, depth = set(), len(st.frames)
    live = None
    for _ in range(40):
        if live is None:
            live = []
            for var in changed:
                x = getp(get(st, var[0]), var[1])
                if isinstance(x, (int, Poly)):
                    for g in range(len(ghosts)):
                        for up in (True, False):
                            if st.decide(P.sub(x, ghosts[g]) if up else P.sub(ghosts[g], x), 2):
                                live.append((var, g, up))
        s, names = havoc(it, st, fr, changed, ghosts, live)
        s.frames[-1].b, s.frames[-1].i = h, 0
        s.visits = dict(s.visits)
        s.visits["inductive"] = (s.frames[-1].uid, h)
        fresh, drop = set(), set()
        moves = {v: {1, -1} for v in names}
        head = s.copy()
        backs = 0
        for kind, val, e in it.run(s):
            if kind == "gap":
                from .check import Ctx
                if Ctx._empty(e):
                    continue
                raise Gap("loop body: %s" % val)
            if kind != "back":
                continue
            backs += 1
            if e.visits.get("inductive") is None or len(e.frames) != depth:
                raise Gap("loop leaves its frame")
            for key, v in places(e):
                if key[0] == "h" and key[1] not in head.heap:
                    continue
                d = []
                old = get(head, key)
                if old is None:
                    continue            # a temporary of the body, set before it is read
                differs(old, v, (), d)
                for path, a, b in d:
                    if (key, path) not in names and not any(k == key and path[:len(p)] == p for k, p in changed):
                        fresh.add((key, path))
            if DEBUG:
                print("   back", {k: (str(names[k]), str(getp(get(e, k[0]), k[1]))) for k in names}, [repr(f[0]) for f in e.facts][-12:])
            for var in names:
                x = getp(get(e, var[0]), var[1])
                if not isinstance(x, (int, Poly)):
                    moves[var] = set()
                    continue
                for sgn in tuple(moves[var]):
                    if not e.decide(P.sub(P.scale(P.sub(x, names[var]), sgn), 1), 2):
                        moves[var].discard(sgn)
            for c in live:
                x = getp(get(e, c[0][0]), c[0][1])
                if c not in drop and not (isinstance(x, (int, Poly)) and e.decide(P.sub(x, ghosts[c[1]]) if c[2] else P.sub(ghosts[c[1]], x), 3)):
                    drop.add(c)
        if fresh:
            changed |= fresh
            live = None
            continue
        if drop:
            live = [c for c in live if c not in drop]
            continue
        if DEBUG:
            print("LOOP", h, {k: (str(v), moves[k]) for k, v in names.items()}, live)
        if backs and not any(moves.values()):
            raise Gap("termination of the loop is not shown")
        return changed, live
    raise Gap("no loop invariant")


def enter(it, st, fr, h):
    """Called when control enters the loop headed by block h of the current frame from outside."""
    ghosts = it.loops["ghosts"](st)
    key = (fr.uid, h)
    fr.b, fr.i = h, 0
    ex = st.copy()
    ex.visits[("loop",) + key] = ("exact", 0)
    out = [ex]
    base = st.copy()
    for k in [k for k in base.visits if k == "inductive"]:
        del base.visits[k]
    changed, live = invariant(it, base, base.frames[-1], h, ghosts)
    last, _ = havoc(it, st, fr, changed, ghosts, live)
    last.frames[-1].b, last.frames[-1].i = h, 0
    last.visits[("loop",) + key] = ("last", 0)
    out.append(last)
    raise Split(out)


def on_jump(it, st, fr, b):
    """True when the jump of the current frame from block fr.b to block b has been dealt with."""
    L = loops_of(fr.fn)
    if not L:
        return
    src = fr.b
    ind = st.visits.get("inductive")
    for h, nodes in L.items():
        key = ("loop", fr.uid, h)
        if b == h and src in nodes:
            if ind == (fr.uid, h):
                fr.b, fr.i = b, 0
                raise Back()
            if key in st.visits:
                mode, n = st.visits[key]
                n += 1
                if n > K or (mode == "exact" and n >= K):
                    raise Infeasible()
                st.visits[key] = (mode, n)
        elif src in nodes and b not in nodes:
            if ind == (fr.uid, h):
                raise Infeasible()
            if key in st.visits:
                mode, n = st.visits.pop(key)
                if mode == "last" and n < K:
                    raise Infeasible()
    if b in L and src not in L[b]:
        enter(it, st, fr, b)


# ---- loops that keep a product: one integer b and counters c_i such that b * w_1^c_1 * w_2^c_2 ... stays the same up to a
# relative error of 2^-100 per iteration, while one of the counters moves by one towards zero and the loop ends at zero.
STEPS, BITS = 3000, 100
_ratio_cache = {}


def ratio_jump(it, st, fr, b):
    L = loops_of(fr.fn)
    if not L:
        return
    src = fr.b
    ind = st.visits.get("ratio")
    for h, nodes in L.items():
        if ind == (fr.uid, h) and src in nodes:
            if b == h:
                fr.b, fr.i = b, 0
                raise Back()
            if b not in nodes:
                fr.b, fr.i = b, 0
                it.ratio["exits"].append(st.copy())
                raise Infeasible()
    if b in L and src not in L[b] and ind is None:
        ratio_enter(it, st, fr, b)


def body_runs(it, st, fr, h, vals):
    """All outcomes of one pass from head h to head h, with the locals `vals` known and every other one unknown."""
    from .mir import Top
    s = st.copy()
    f = s.frames[-1]
    f.loc = [vals.get(i, Top("stale") if v is not None else None) for i, v in enumerate(f.loc)]
    f.b, f.i = h, 0
    s.visits = {"ratio": (f.uid, h)}
    it.ratio["exits"] = []
    out = []
    depth = len(s.frames)
    for kind, val, e in it.run(s):
        if kind == "gap":
            from .check import Ctx
            if Ctx._empty(e):
                continue
        if kind == "back" and len(e.frames) != depth:
            raise Gap("loop leaves its frame")
        out.append((kind, val, e))
    return out, list(it.ratio["exits"])


def ratio_summary(it, st, fr, h):
    from fractions import Fraction
    from itertools import permutations

    base = st.copy()
    base.facts, base.factset, base.memo, base.divs, base.known, base.ext = (), frozenset(), {}, {}, {}, {}
    n = len(fr.loc)
    ints = {}
    for i in range(n):
        if isinstance(fr.loc[i], (int, Poly)):
            try:
                ints[i] = it.rng(fr.fn["locals"][i])
            except Gap:
                pass

    def fresh(live, lim):
        return {i: base.fresh("v%d" % i, *lim.get(i, ints[i])) for i in live}
    # what the body reads: locals that it cannot run without
    live = set(ints)
    outs, _ = body_runs(it, base, fr, h, fresh(live, {}))
    if any(k == "gap" for k, _, _ in outs):
        raise Gap("loop body needs more than integers: %s" % [v for k, v, _ in outs if k == "gap"][0])
    for i in sorted(ints):
        try:
            outs, _ = body_runs(it, base, fr, h, fresh(live - {i}, {}))
        except (TypeError, AttributeError):
            continue
        if outs and not any(k == "gap" for k, _, _ in outs):
            live.discard(i)
    # small counters do not wrap around (without overflow checks nothing else says so)
    lim = {i: (-STEPS, STEPS) for i in live if ints[i][0] < 0}
    for rnd in range(2):
        vals = fresh(live, lim)
        outs, exits = body_runs(it, base, fr, h, vals)
        backs = [e for k, _, e in outs if k == "back"]
        delta = {}
        for i in live:
            d = [P.sub(e.frames[-1].loc[i], vals[i]) if isinstance(e.frames[-1].loc[i], (int, Poly)) else None for e in backs]
            delta[i] = d
        count = [i for i in live if all(isinstance(x, int) for x in delta[i])]
        rest = [i for i in live if i not in count]
        clocks = [i for i in count if len(set(delta[i])) == 1 and abs(delta[i][0]) == 1]
        if len(rest) != 1 or len(clocks) != 1 or len(count) > 3 or not backs:
            raise Gap("not a loop that keeps a product")
        c = clocks[0]
        down = delta[c][0] < 0
        lim = {i: (-STEPS, STEPS) for i in count}
        lim[c] = (0, STEPS) if down else (-STEPS, 0)
    bad = [(k, v) for k, v, _ in outs if k != "back"]
    if bad:
        raise Gap("loop body: %s %s" % bad[0])
    for e in exits:
        if not e.decide(P.neg(vals[c]) if down else vals[c], 2):
            raise Gap("the loop can end early")
    for e in backs:
        if not e.decide(P.sub(vals[c], 1) if down else P.sub(-1, vals[c]), 2):
            raise Gap("the loop can miss its end")
    b = rest[0]
    others = [i for i in count if i != c]
    for ws in permutations(it.ratio["weights"], 1 + len(others)):
        w = dict(zip([c] + others, ws))
        good = True
        for k, e in enumerate(backs):
            rho = Fraction(1)
            for i in w:
                rho *= Fraction(w[i]) ** delta[i][k]
            x = e.frames[-1].loc[b]
            err = P.sub(P.scale(x, rho.numerator), P.scale(vals[b], rho.denominator))
            tol = P.scale(vals[b], rho.denominator)
            for sg in (1, -1):
                good = good and e.decide(P.sub(tol, P.scale(err, sg << BITS)), 3)
            if not good:
                break
        if good:
            return {"b": b, "clock": c, "down": down, "w": w, "moves": {i: (min(delta[i]), max(delta[i])) for i in others}, "rng": ints[b]}
    raise Gap("no product is kept by the loop")


def ratio_enter(it, st, fr, h):
    from fractions import Fraction
    key = (id(it.d), fr.fn["n"], h)
    if key not in _ratio_cache:
        try:
            _ratio_cache[key] = ratio_summary(it, st, fr, h)
        except Gap as g:
            _ratio_cache[key] = str(g)
    S = _ratio_cache[key]
    if isinstance(S, str):
        raise Gap(S)
    b0, t = st.simp(fr.loc[S["b"]]), fr.loc[S["clock"]]
    if isinstance(b0, int) or not isinstance(t, int) or not all(isinstance(fr.loc[i], int) for i in S["w"]):
        if isinstance(b0, int):
            return
        raise Gap("the loop's counters are not constants")
    if t == 0 or (t > 0) != S["down"]:
        return                      # the loop is not entered; its guard decides
    if abs(t) <= it.ratio["unroll"]:
        return                      # few iterations: followed exactly
    if abs(t) > STEPS - 100 or any(abs(fr.loc[i]) > STEPS - abs(t) for i in S["w"] if i != S["clock"]):
        raise Gap("too many iterations")
    M, N = it.ratio["anchor"]       # the value that the product must have: M * N
    w0 = Fraction(1)
    for i, w in S["w"].items():
        w0 *= Fraction(w) ** fr.loc[i]
    d = P.sub(P.scale(b0, (w0 / N).numerator), P.scale(M, (w0 / N).denominator))
    if not (st.decide(d, 2) and st.decide(P.neg(d), 2)):
        raise Gap("the product is not the value at the loop's entry")
    base = it.ratio["base"]
    others = sorted(S["moves"])
    used = mentioned(fr.fn, h)
    sig = []
    for i, v in enumerate(fr.loc):
        if i in used and i != S["b"] and i not in S["w"] and v is not None:
            v = st.simp(v) if isinstance(v, Poly) else v
            sig.append((i, repr(v), tuple((x, st.bounds[x]) for x in sorted(v.syms()) if x not in base.bounds) if isinstance(v, Poly) else ()))
    rngs = [range(fr.loc[i] + abs(t) * min(0, S["moves"][i][0]), fr.loc[i] + abs(t) * max(0, S["moves"][i][1]) + 1) for i in others]
    if len(rngs) > 1:
        raise Gap("more than two counters")
    lo, hi = st.interval(st.simp(M))
    out = []
    for e in (rngs[0] if rngs else [None]):
        W = Fraction(S["w"][others[0]]) ** e if rngs else Fraction(1)
        Q = N / W                   # b is M * Q up to 2^-88
        if hi * Q * 2 < S["rng"][0] or lo * Q > 2 * S["rng"][1] or hi * Q * 2 < 1:
            continue
        k = (fr.fn["n"], h, e, tuple(sig))
        if k in it.ratio["done"]:
            continue
        it.ratio["done"].add(k)
        s = st.copy()
        s.facts, s.factset, s.known, s.divs, s.ext, s.memo = base.facts, base.factset, dict(base.known), dict(base.divs), dict(base.ext), {}
        s.bounds = dict(st.bounds)
        s.bounds.update(base.bounds)
        f = s.frames[-1]
        b = s.fresh("product", *S["rng"])
        f.loc[S["b"]] = b
        f.loc[S["clock"]] = 0
        if rngs:
            f.loc[others[0]] = e
        f.b, f.i = h, 0
        try:
            x, y = P.scale(b, Q.denominator << 88), P.scale(M, Q.numerator)
            s.assume("ge", P.sub(P.scale(y, (1 << 88) + 1), x))
            s.assume("ge", P.sub(x, P.scale(y, (1 << 88) - 1)))
        except Infeasible:
            continue
        out.append(s)
    raise Split(out)


def mentioned(fn, h):
    """Locals that occur in the blocks which can be reached from block h."""
    c = fn.setdefault("_mentioned", {})
    if h in c:
        return c[h]
    seen, work = set(), [h]
    while work:
        x = work.pop()
        if x not in seen:
            seen.add(x)
            work += succ(fn["body"][x]["t"])
    out = set()

    def ints(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                ints(y)
        elif isinstance(x, dict):
            for y in x.values():
                ints(y)
        elif isinstance(x, int) and not isinstance(x, bool) and 0 <= x < len(fn["locals"]):
            out.add(x)              # every number that may be a local: an over-approximation
    for x in seen:
        ints(fn["body"][x]["s"])
        ints(fn["body"][x]["t"])
    c[h] = out
    return out


def dead(fn, h):
    """Locals whose value is certainly not read again after block h is entered."""
    c = fn.get("_dead")
    if c is None:
        c = fn["_dead"] = liveness(fn)
    return c[h]


def liveness(fn):
    body, n = fn["body"], len(fn["locals"])
    taken = set()

    def uses(x, out):
        if isinstance(x, (list, tuple)):
            if not x:
                return
            if x[0] == "c":
                return
            if isinstance(x[0], int) and not isinstance(x[0], bool):
                out.add(x[0])
            if x[0] == "i" and len(x) == 2 and isinstance(x[1], int):
                out.add(x[1])
            if x[0] in ("ref", "addr") and "*" not in x[1]:
                taken.add(x[1][0])
            for y in x:
                uses(y, out)

    gen, kill = [], []
    for blk in body:
        g, k = set(), set()
        for s in blk["s"]:
            u = set()
            if s[0] == "=":
                uses(s[2], u)
                if len(s[1]) > 1:
                    uses(s[1], u)
                d = s[1][0] if len(s[1]) == 1 else None
            else:
                uses(s[1:], u)
                d = None
            g |= u - k
            if d is not None:
                k.add(d)
        t = blk["t"]
        u = set()
        k2 = None
        if t[0] in ("switch", "assert", "drop"):
            uses(t[1], u)
        elif t[0] == "call":
            uses(t[2], u)
            uses(t[3], u)
            if len(t[5]) == 1:
                k2 = t[5][0]
            else:
                uses(t[5], u)
        elif t[0] == "return":
            u.add(0)
        elif t[0] not in ("goto", "resume", "unreachable"):
            u = set(range(n))
        g |= u - k
        if k2 is not None:
            k.add(k2)
        gen.append(g)
        kill.append(k)
    live = [set(g) for g in gen]
    again = True
    while again:
        again = False
        for b in range(len(body) - 1, -1, -1):
            new = set(live[b])
            for x in succ(body[b]["t"]):
                new |= live[x] - kill[b]
            if new != live[b]:
                live[b] = new
                again = True
    return [set(range(n)) - x - taken for x in live]


def lengths(it, st):
    return st.visits.get("runs"), tuple(st.bounds.get(s) for s in it.lens), frozenset(f for f in st.facts if any(s in it.lens for m in f[0].t for s in m))


def widen(it, st, fr, b, n):
    """A loop that learns about the length of a run of characters in each iteration: after some
    iterations, the numbers that change by a constant amount take any later value."""
    from . import cover
    if n < 6:
        return
    for x in dead(fr.fn, b):
        fr.loc[x] = None
    flag, last = ("wide", fr.uid, b), ("head", fr.uid, b)
    since = n - st.visits.get(flag, 0)
    if flag in st.visits:
        cover.check(it, st, True)
    prev = st.visits.get(last)
    now = (list(fr.loc), lengths(it, st))
    st.visits[last] = now
    row = 0 if prev is None or prev[1] == now[1] else st.visits.get(last + ("row",), 0) + 1
    st.visits[last + ("row",)] = row
    if since < 8 or row < 4:
        return
    if n > 60:
        raise Gap("loop over a run of unknown length")
    k = st.fresh("more", 0, None)
    bound = []

    def gen(a, c):
        if a is c:
            return a
        if isinstance(a, Agg) and isinstance(c, Agg) and a.v == c.v and len(a.f) == len(c.f):
            return Agg(a.v, tuple(gen(x, y) for x, y in zip(a.f, c.f)))
        if isinstance(a, (int, Poly)) and isinstance(c, (int, Poly)) and not isinstance(a, bool):
            d = st.simp(P.sub(c, a))
            if d == 0:
                return c
            if isinstance(d, int):
                v = P.add(c, P.scale(k, d))
                for x in it.lens:
                    x = P.sym(x)
                    if d > 0 and st.prove(P.sub(x, c)):
                        bound.append(P.sub(x, v))       # not beyond the end of the run: checked to be inductive
                return v
        if type(a) is type(c) and type(a).__name__ == "Ptr" and a.base == c.base and len(a.path) == len(c.path):
            path = tuple(x if x == y else gen(x, y) for x, y in zip(a.path, c.path))
            off = a.off if a.off == c.off else gen(a.off, c.off)
            ln = a.len if a.len == c.len else gen(a.len, c.len)
            return type(c)(c.base, path, off, ln, c.vt)
        return c
    new = [None if x in dead(fr.fn, b) else gen(p, c) for x, (p, c) in enumerate(zip(prev[0], now[0]))]
    it.approximates("a loop over a run of characters")
    fr.loc[:] = new
    for p in bound:
        st.assume("ge", p)
    st.visits[flag] = n
    cover.check(it, st, True)
