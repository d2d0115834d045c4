"""Exact rational linear arithmetic: emptiness of a polyhedron (Dutertre & de Moura's general
simplex with bounded variables, Bland's rule, integer rows).  Domain operation of the abstract
domain in state.py; no external solver."""
from fractions import Fraction
from math import gcd


class Unknown(Exception):
    pass


def infeasible(rows, bounds, limit=4000, want_model=False):
    """rows: list of (dict var->int, lo, hi) for lo <= sum <= hi (None = unbounded);
    bounds: var -> (lo, hi).  True if the polyhedron is empty, else False (or a model)."""
    vs = set(bounds)
    for r, _, _ in rows:
        vs.update(r)
    idx = {v: i for i, v in enumerate(sorted(vs, key=repr))}
    n = len(idx)
    lo = [None] * n
    hi = [None] * n
    for v, (a, b) in bounds.items():
        i = idx[v]
        lo[i], hi[i] = a, b
        if a is not None and b is not None and a > b:
            return True
    val = [0] * n
    for i in range(n):
        if lo[i] is not None and lo[i] > 0:
            val[i] = lo[i]
        elif hi[i] is not None and hi[i] < 0:
            val[i] = hi[i]
    tab = {}   # basic var -> [den, {nonbasic: coef}]
    cols = [set() for _ in range(n)]
    for r, a, b in rows:
        g = 0
        for c in r.values():
            g = gcd(g, c)
        if g == 0:
            if (a is not None and a > 0) or (b is not None and b < 0):
                return True
            continue
        row = {idx[v]: c // g for v, c in r.items()}
        la = None if a is None else -((-a) // g)   # ceil: the row is integer valued
        hb = None if b is None else b // g
        if la is not None and hb is not None and la > hb:
            return True
        if len(row) == 1:
            (i, c), = row.items()
            # c is +-1 after the gcd division
            l2, h2 = (la, hb) if c == 1 else (None if hb is None else -hb, None if la is None else -la)
            if l2 is not None and (lo[i] is None or l2 > lo[i]):
                lo[i] = l2
            if h2 is not None and (hi[i] is None or h2 < hi[i]):
                hi[i] = h2
            if lo[i] is not None and hi[i] is not None and lo[i] > hi[i]:
                return True
            continue
        k = len(lo)
        lo.append(la)
        hi.append(hb)
        val.append(0)
        cols.append(set())
        tab[k] = [1, row]
    for i in range(n):
        if lo[i] is not None and val[i] < lo[i]:
            val[i] = lo[i]
        elif hi[i] is not None and val[i] > hi[i]:
            val[i] = hi[i]
    for b, (d, row) in tab.items():
        s = 0
        for j, c in row.items():
            s += c * val[j]
            cols[j].add(b)
        val[b] = s
    N = len(lo)
    it = 0
    while True:
        it += 1
        if it > limit:
            raise Unknown()
        bad = None
        if it < limit // 4:
            # largest violation first, Bland later (termination)
            best = 0
            for b in tab:
                v = val[b]
                if lo[b] is not None and v < lo[b]:
                    g = lo[b] - v
                elif hi[b] is not None and v > hi[b]:
                    g = v - hi[b]
                else:
                    continue
                if bad is None or g > best:
                    bad, best = b, g
        else:
            for b in sorted(tab):
                v = val[b]
                if (lo[b] is not None and v < lo[b]) or (hi[b] is not None and v > hi[b]):
                    bad = b
                    break
        if bad is None:
            if want_model:
                return {v: val[i] for v, i in idx.items()}
            return False
        d, row = tab[bad]
        below = lo[bad] is not None and val[bad] < lo[bad]
        target = lo[bad] if below else hi[bad]
        piv = None
        bestlen = None
        for j in sorted(row):
            c = row[j]
            up = (c > 0) == below   # need to increase x_j
            if up:
                ok = hi[j] is None or val[j] < hi[j]
            else:
                ok = lo[j] is None or val[j] > lo[j]
            if ok:
                if it >= limit // 4:
                    piv = j
                    break
                L = len(cols[j])
                if piv is None or L < bestlen:
                    piv, bestlen = j, L
        if piv is None:
            return True
        c = row[piv]
        theta = Fraction((target - val[bad]) * d, c) if not isinstance(val[bad], Fraction) else (target - val[bad]) * d / c
        if isinstance(theta, Fraction) and theta.denominator == 1:
            theta = theta.numerator
        val[bad] = target
        val[piv] = val[piv] + theta
        for b in cols[piv]:
            if b != bad:
                db, rb = tab[b]
                x = val[b] + Fraction(rb[piv], db) * theta
                if x.denominator == 1:
                    x = x.numerator
                val[b] = x
        # pivot: d*bad = c*piv + rest   ->  c*piv = d*bad - rest
        del tab[bad]
        newrow = {bad: d}
        for j, x in row.items():
            cols[j].discard(bad)
            if j != piv:
                newrow[j] = -x
        nd = c
        if nd < 0:
            nd = -nd
            newrow = {j: -x for j, x in newrow.items()}
        g = nd
        for x in newrow.values():
            g = gcd(g, x)
            if g == 1:
                break
        if g > 1:
            nd //= g
            newrow = {j: x // g for j, x in newrow.items()}
        users = cols[piv]
        cols[piv] = set()
        for b in users:
            db, rb = tab[b]
            k = rb.pop(piv)
            # db*b = k*piv + rb ; nd*piv = newrow -> db*nd*b = k*newrow + nd*rb
            if nd != 1:
                for j in rb:
                    rb[j] *= nd
                db *= nd
            for j, x in newrow.items():
                v = rb.get(j, 0) + k * x
                if v:
                    if j not in rb:
                        cols[j].add(b)
                    rb[j] = v
                elif j in rb:
                    del rb[j]
                    cols[j].discard(b)
            g = db
            for x in rb.values():
                g = gcd(g, x)
                if g == 1:
                    break
            if g > 1:
                db //= g
                for j in rb:
                    rb[j] //= g
            tab[b] = [db, rb]
        tab[piv] = [nd, newrow]
        for j in newrow:
            cols[j].add(piv)
