"""C24: cutting a triangle gives two boxes that together cover it and do not reach over the cut."""
from common import *
from c23 import vec, hooks, TR
from order import Order
from terms import *

EXPLAIN = ("SpatialTriangle::split is reduced to the two boxes it returns, per axis.  The corner points of the two parts of a triangle are its "
           "vertices on that side and the points where edges cross the plane.  With one vertex as base (each in turn) the crossing "
           "points of the two edges at it are exact rational functions; when the other two vertices are on the same side these are "
           "all crossings, so the three runs together cover every triangle.  Order reasoning shows that each box contains the corner "
           "points of its part, does not reach past the plane and is not larger than the box of those points.")
ASSUME = ["real arithmetic; coordinates within the +-1e34 of an empty box"]
SLACK = Fraction("0.01")


def decide(c, p, axis, k):
    path = TR + "split"
    i, j = [x for x in range(3) if x != k]
    v = [None] * 3
    v[k] = vec("b")
    d = {i: vec("d%d" % i), j: vec("d%d" % j)}
    for x in (i, j):
        v[x] = [add(a, b) for a, b in zip(v[k], d[x])]
    E, r = run_as(p, path, ["tri", "axis", "pos"], hooks=hooks(v),
                  setup=lambda E, a: a.__setitem__(1, leaf(const(axis))))
    c.fn(path)
    pos = E.args[2]
    co = lambda n: v[n][axis]
    cross = {}
    for x in (i, j):
        t = div(sub(pos, co(k)), d[x][axis])
        cross[x] = [add(v[k][a], mul(t, d[x][a])) for a in range(3)]
    site = "%s axis %d vertex %d" % (path, axis, k)
    low = {n: lt(co(n), pos) for n in range(3)}
    high = {n: lt(pos, co(n)) for n in range(3)}
    other = dor(dand(low[i], low[j]), dand(high[i], high[j]))
    edge = {x: dor(dand(low[k], high[x]), dand(high[k], low[x])) for x in (i, j)}
    no_edge = {x: dor(dand(low[k], low[x]), dand(high[k], high[x])) for x in (i, j)}
    boxes = [get(E, r, 0), get(E, r, 1)]
    big = leaf(const(Fraction(10) ** 33))
    for a in range(3):
        cand = [v[n][a] for n in range(3)] + [cross[x][a] for x in (i, j)] + [pos]
        fin = DT
        vs = [lf(x) for x in cand] + [ZERO]
        base = [lf(co(n)) for n in range(3)]
        consts = set()
        for b in boxes:
            for m in ("min", "max"):
                f = get(E, b, m, a)
                for l in leaves(f):
                    t = single(l)
                    for x in ((t.a if t is not None and t.op in ("min", "max") else [l])):
                        if is_const(x):
                            consts.add(x)
        slack = []
        if a == axis:
            slack = [padd(lf(pos), const(SLACK)), psub(lf(pos), const(SLACK))]
        O = Order(vs + base + list(consts) + slack)
        for x in consts:
            # an empty box lies outside of all coordinates
            for y in cand:
                fin = dand(fin, lt(leaf(x), y) if cval(x) < 0 else lt(y, leaf(x)))
        g0 = dand(other, fin)
        for side, (b, mine) in enumerate(zip(boxes, (low, high))):
            nm = ("left", "right")[side]
            lo, hi = get(E, b, "min", a), get(E, b, "max", a)
            inside = lambda pt: dand(le(lo, pt), le(pt, hi))
            for n in range(3):
                w = O.implies(dand(g0, mine[n]), inside(v[n][a]))
                c.ob("vertices-are-covered", "%s %s[%d] vertex %d" % (site, nm, a, n), w is None,
                     "a vertex on this side is outside of the box: %s" % (w or "")[:300])
            for x in (i, j):
                pt = pos if a == axis else cross[x][a]
                w = O.implies(dand(g0, edge[x]), inside(pt))
                c.ob("crossings-are-covered", "%s %s[%d] edge to %d" % (site, nm, a, x), w is None,
                     "the point where an edge crosses the plane is outside of the box: %s" % (w or "")[:300])
            some = dor(dor(mine[0], mine[1]), mine[2])
            if a == axis:
                bound = le(hi, leaf(slack[0])) if side == 0 else le(leaf(slack[1]), lo)
                w = O.implies(dand(g0, some), bound)
                c.ob("stays-on-its-side", "%s %s" % (site, nm), w is None, "the box reaches over the plane: %s" % (w or "")[:300])
            else:
                # the corner points of a part: vertices of the side and crossings of crossed edges
                for pt, op, f, cmpf in ((lo, fmin, "min", lambda q, z: le(q, z)), (hi, fmax, "max", lambda q, z: le(z, q))):
                    for cond, pts in corner_sets(v, cross, mine, edge, no_edge, i, j, k, a):
                        ref = pts[0]
                        for q in pts[1:]:
                            ref = op(ref, q)
                        w = O.implies(dand(dand(g0, some), cond), cmpf(ref, pt))
                        c.ob("not-larger-than-the-part", "%s %s.%s[%d]" % (site, nm, f, a), w is None,
                             "the box is larger than the part of the triangle: %s" % (w or "")[:300])
    c.count("cuts")


def corner_sets(v, cross, mine, edge, no_edge, i, j, k, a):
    """(condition, corner coordinates) of one part; vertices i and j are on the same side"""
    r = []
    r.append((dand(dand(edge[i], edge[j]), mine[k]), [v[k][a], cross[i][a], cross[j][a]]))
    r.append((dand(dand(edge[i], edge[j]), dand(mine[i], mine[j])), [v[i][a], v[j][a], cross[i][a], cross[j][a]]))
    r.append((dand(dand(no_edge[i], no_edge[j]), mine[k]), [v[0][a], v[1][a], v[2][a]]))
    return r


def on_plane(c, p, axis, k):
    """the plane goes exactly through vertex k: that vertex belongs to both parts"""
    path = TR + "split"
    i, j = [x for x in range(3) if x != k]
    v = [None] * 3
    v[k] = vec("b")
    for x in (i, j):
        v[x] = [add(a, b) for a, b in zip(v[k], vec("d%d" % x))]
    pos = v[k][axis]

    def setup(E, a):
        a[1], a[2] = leaf(const(axis)), pos
    E, r = run_as(p, path, ["tri", "axis", "pos"], hooks=hooks(v), setup=setup)
    site = "%s axis %d through vertex %d" % (path, axis, k)
    for side in (0, 1):
        nm = ("left", "right")[side]
        b = get(E, r, side)
        mine = [lt(v[n][axis], pos) if side == 0 else lt(pos, v[n][axis]) for n in range(3)]
        for a in range(3):
            lo, hi = get(E, b, "min", a), get(E, b, "max", a)
            big, vs = DT, [lf(x[a]) for x in v] + [lf(x[axis]) for x in v]
            for f in (lo, hi):
                for l in leaves(f):
                    t = single(l)
                    for x in (t.a if t is not None and t.op in ("min", "max") else [l]):
                        vs.append(x)
                        if is_const(x):
                            for y in v:
                                big = dand(big, lt(leaf(x), y[a]) if cval(x) < 0 else lt(y[a], leaf(x)))
            O = Order(vs)
            for n in range(3):
                need = mine[n] if n != k else dor(mine[i], mine[j])
                pt = v[n][a]
                w = O.implies(dand(big, need), dand(le(lo, pt), le(pt, hi)))
                c.ob("corners-on-the-plane-are-covered", "%s %s[%d] vertex %d" % (site, nm, a, n), w is None,
                     "a corner of the part is outside of its box: %s" % (w or "")[:300])
    c.count("cuts through a vertex")


def run(c):
    p = c.prog()
    for axis in range(3):
        for k in range(3):
            c.guard("split", "axis %d vertex %d" % (axis, k), lambda axis=axis, k=k: decide(c, p, axis, k))
            c.guard("split", "axis %d through vertex %d" % (axis, k), lambda axis=axis, k=k: on_plane(c, p, axis, k))
    c.floor("cuts", 9)
    c.floor("cuts through a vertex", 9)
