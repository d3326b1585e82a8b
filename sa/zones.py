"""Emptiness of the integer part of a branch: convex polyhedra over the compared quantities.

A branch of a diagram fixes the truth of its integer comparisons.  Each is a linear inequality over
opaque quantities (loop counters, lengths, fields, array elements); the branch is impossible when
eliminating the quantities one by one leaves a contradiction.  Comparisons that are not linear in
anything shared simply stay as quantities of their own."""
from math import gcd
from terms import *


def _tight(row, b):
    """row . x <= b over the integers"""
    g = 0
    for v in row.values():
        if v.denominator != 1:
            return row, b
        g = gcd(g, abs(v.numerator))
    if g > 1:
        row = {k: v / g for k, v in row.items()}
        b = Fraction(b) / g
    return row, Fraction(b.numerator // b.denominator)


def empty(asg, extra=(), limit=4000):
    """asg: atom -> truth.  True when no integers satisfy it"""
    rows = []

    def put(L, hi):
        row = {m: c for m, c in L.a[0]}
        k = row.pop((), Fraction(0))
        rows.append(_tight(row, Fraction(hi) - k))
    for t, v in asg.items():
        if t.op == "ilt":
            L, c = t.a
            if v:
                put(L, c - 1)
            else:
                put(pscale(L, -1), -c)
    if not rows:
        return False
    for row, _ in list(rows):
        for m in row:
            if len(m) == 1 and m[0][1] == 1:
                t = m[0][0]
                lo, hi = atom_lo(t), atom_hi(t)
                if lo is not None:
                    rows.append(({m: Fraction(-1)}, -Fraction(lo)))
                if hi is not None:
                    rows.append(({m: Fraction(1)}, Fraction(hi)))
            else:
                lo, hi = bounds(mk("poly", ((m, Fraction(1)),)))
                if lo is not None:
                    rows.append(({m: Fraction(-1)}, -Fraction(lo)))
                if hi is not None:
                    rows.append(({m: Fraction(1)}, Fraction(hi)))
    return _fm(rows, limit)


def _fm(rows, limit):
    seen = {}
    for row, b in rows:
        k = tuple(sorted(((m, c) for m, c in row.items() if c), key=lambda x: str(x)))
        if not k:
            if b < 0:
                return True
            continue
        if k not in seen or b < seen[k]:
            seen[k] = b
    cur = seen
    while cur:
        e = _equal(cur)
        if e:
            m, row, b = e
            nxt = {}
            for k, kb in cur.items():
                d = dict(k)
                c = d.get(m)
                if c:
                    for x, v in row.items():
                        d[x] = d.get(x, 0) - c * v
                    kb = kb - c * b
                    d = {x: v for x, v in d.items() if v}
                    if not d:
                        if kb < 0:
                            return True
                        continue
                    d, kb = _tight(d, kb)
                    k = tuple(sorted(d.items(), key=lambda x: str(x)))
                if k not in nxt or kb < nxt[k]:
                    nxt[k] = kb
            cur = nxt
            continue
        occ = {}
        for k in cur:
            for m, c in k:
                p = occ.setdefault(m, [0, 0])
                p[c < 0] += 1
        m = min(occ, key=lambda x: occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1])
        pos, neg, nxt = [], [], {}
        for k, b in cur.items():
            c = dict(k).get(m)
            if c is None:
                nxt[k] = min(b, nxt.get(k, b))
            elif c > 0:
                pos.append((dict(k), b, c))
            else:
                neg.append((dict(k), b, -c))
        for r1, b1, c1 in pos:
            for r2, b2, c2 in neg:
                row = {}
                for x, v in r1.items():
                    row[x] = row.get(x, 0) + v * c2
                for x, v in r2.items():
                    row[x] = row.get(x, 0) + v * c1
                row = {x: v for x, v in row.items() if v}
                b = b1 * c2 + b2 * c1
                if not row:
                    if b < 0:
                        return True
                    continue
                row, b = _tight(row, b)
                k = tuple(sorted(row.items(), key=lambda x: str(x)))
                if k not in nxt or b < nxt[k]:
                    nxt[k] = b
        if len(nxt) > limit:
            return False
        cur = nxt
    return False


def _equal(cur):
    """an equality with a unit coefficient: (variable, row with coefficient 1, value)"""
    for k, b in cur.items():
        if any(abs(c) == 1 for _, c in k):
            o = tuple((m, -c) for m, c in k)
            if cur.get(o) == -b:
                for m, c in k:
                    if abs(c) == 1:
                        return m, {x: v / c for x, v in k}, b / c
    return None


def possible(d, limit=20000):
    """a branch of boolean diagram d that can be true, as a diagram, or None"""
    d = prune(d)
    n = [0]

    def go(x, asg):
        if x is DF or x is DBOT:
            return None
        if x.atom is None:
            n[0] += 1
            if n[0] > limit:
                raise Unknown("too many branches")
            return None if empty(asg) else dict(asg)
        at = x.atom
        for val, nx in ((True, x.hi), (False, x.lo)):
            asg[at] = val
            if at.op != "ilt" or nx.atom is None or not empty(asg):
                r = go(nx, asg)
                if r is not None:
                    return r
            del asg[at]
        return None
    r = go(d, {})
    if r is None:
        return None
    return " and ".join(("" if v else "not ") + show(a) for a, v in r.items())
