"""C23: triangle intersection records exactly the nearer hits in front of the start distance."""
from common import *
from order import Order
from terms import *

EXPLAIN = ("The default triangle tests (single ray and packet) are reduced to the condition under which they report a hit and to the "
           "distance they leave behind, per lane, and compared with the definition: with edges e1, e2 from vertex 0, the hit solves "
           "origin + t*direction = vertex0 + u*e1 + v*e2. Rules: a hit needs u >= 0, v >= 0, u + v <= 1 and a distance "
           "between the start distance and the previous hit distance; such a point of a triangle (with its edges) that is "
           "not edge-on is reported; the distance becomes t on a hit and is left alone otherwise; nothing else of the ray changes; "
           "lanes of a packet do not influence each other.")
ASSUME = ["real arithmetic; rays within 0.001 (scaled determinant) of the triangle's plane may be rejected"]
EPS = Fraction("0.001")
TR = "builders::spatial_sah::SpatialTriangle::"


def cross(a, b):
    return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]


def dot(a, b):
    return add(add(mul(a[0], b[0]), mul(a[1], b[1])), mul(a[2], b[2]))


def vec(name):
    return [leaf(atom(mk("v", name, k))) for k in range(3)]


def hooks(v):
    return {TR + "vertex%d" % i: (lambda x, i=i: M.agg(x.dty, v[i])) for i in range(3)}


def solve(o, d, v):
    e1 = [sub(a, b) for a, b in zip(v[1], v[0])]
    e2 = [sub(a, b) for a, b in zip(v[2], v[0])]
    s = [sub(a, b) for a, b in zip(o, v[0])]
    h = cross(d, e2)
    a = dot(e1, h)
    f = div(leaf(ONE), a)
    q = cross(s, e1)
    return a, mul(f, dot(s, h)), mul(f, dot(d, q)), mul(f, dot(e2, q))


def order(F, a, u, v, uv, t, tmin, told):
    """order facts between the quantities of a lane, with every threshold its comparisons use"""
    vs = [lf(x) for x in (a, u, v, uv, t, tmin, told)] + [ZERO, ONE, const(EPS), const(-EPS)]
    for x in (a, u, v, uv):
        x = lf(x)
        for f in F:
            for at in atoms(f):
                if at.op in ("flt", "fgt"):
                    for k in (psub(at.a[0], x), padd(at.a[0], x)):
                        if is_const(k):
                            vs += [k, pscale(k, -1)]
    return Order(vs)


def equals(d, x, y):
    """when d has the value x, where a leaf may be the smaller or larger of x and y"""
    x1, y1 = lf(x), lf(y)
    def one(l):
        if l is x1:
            return DT
        if l is pmin(x1, y1):
            return le(x, y)
        if l is pmax(x1, y1):
            return le(y, x)
        return DF
    out = DF
    for g, l in branches(d):
        out = dor(out, dand(g, one(l)))
    return out


def branches(d):
    """(condition, leaf) pairs of a diagram"""
    r = []
    for l in leaves(d):
        r.append((apply(None, lambda q, l=l: TRUE if q is l else FALSE, d), l))
    return r


def compare(c, E, path, site, hit, o, d, v, tmin, told, tnew):
    zero, one = leaf(ZERO), leaf(ONE)
    a, u, vv, t = solve(o, d, v)
    uv = add(u, vv)
    site = ("%s %s" % (path, site)).strip()
    is_t, is_old = equals(tnew, t, told), equals(tnew, told, t)
    O = order([hit, tnew], a, u, vv, uv, t, tmin, told)
    for rule, bad, what in (("hit-is-in-the-triangle", lt(u, zero), "u below 0"), ("hit-is-in-the-triangle", lt(vv, zero), "v below 0"),
                            ("hit-is-in-the-triangle", lt(one, uv), "u + v above 1"),
                            ("hit-is-behind-the-start", lt(t, tmin), "before the start distance"),
                            ("hit-is-nearer", lt(told, t), "farther than the previous hit")):
        x = O.possible(dand(hit, bad))
        c.ob(rule, "%s: not %s" % (site, what), x is None, "a hit is reported %s" % what)
    flat = dand(lt(a, leaf(const(EPS))), lt(leaf(const(-EPS)), a))
    # with its edges, so that no ray passes between two triangles
    inside = dnot(dor(dor(lt(u, zero), lt(one, u)), dor(dor(lt(vv, zero), lt(one, vv)), dor(lt(uv, zero), lt(one, uv)))))
    inside = dand(inside, dand(lt(tmin, t), lt(t, told)))
    x = O.implies(dand(inside, dnot(flat)), hit)
    c.ob("every-hit-is-reported", site, x is None, "a hit in the triangle is missed when %s" % (x or "")[-300:])
    c.ob("hit-distance-is-recorded", site, O.implies(hit, is_t) is None, "the ray's distance does not become the hit distance")
    c.ob("distance-is-kept-without-a-hit", site, O.implies(dnot(hit), is_old) is None, "the ray's distance changes without a hit")
    c.count("lanes")


def kept(c, E, path, region, tname, v0, v1):
    for n, x in fields(E, v0).items():
        if n != tname:
            c.ob("nothing-else-changes", "%s %s" % (path, n), fields(E, v1)[n] is x or same_agg(E, x, fields(E, v1)[n]), "%s changes" % n)


def same_agg(E, a, b):
    a, b = fresh(E, a), fresh(E, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return len(a.fs) == len(b.fs) and all(same_agg(E, x, y) for x, y in zip(a.fs, b.fs))
    return a is b


def single(c, p):
    path = TR + "intersect"
    s, e1, e2 = vec("s"), vec("e1"), vec("e2")
    v = [None] * 3

    def setup(E, a):
        o = [pre(E, a[1], "origin", k) for k in range(3)]
        v[0] = [sub(x, y) for x, y in zip(o, s)]
        v[1] = [add(x, y) for x, y in zip(v[0], e1)]
        v[2] = [add(x, y) for x, y in zip(v[0], e2)]
    E, r = run_as(p, path, ["tri", "ray"], hooks=hooks(v), setup=setup)
    c.fn(path)
    ray = E.args[1]
    o = [pre(E, ray, "origin", k) for k in range(3)]
    d = [pre(E, ray, "direction", k) for k in range(3)]
    compare(c, E, path, "", r, o, d, v, pre(E, ray, "t_min"), pre(E, ray, "t"), get(E, ray, "t"))
    before = pre_all(E, ray)
    kept(c, E, path, None, "t", before, fresh(E, ray))


def pre_all(E, ref):
    m, E.mem = E.mem, {}
    try:
        return fresh(E, ref)
    finally:
        E.mem = m


def packet(c, p):
    path = TR + "intersect4"
    v = [vec("v0"), vec("v1"), vec("v2")]
    e1, e2 = vec("e1"), vec("e2")
    v[1] = [add(x, y) for x, y in zip(v[0], e1)]
    v[2] = [add(x, y) for x, y in zip(v[0], e2)]
    E, r = run_as(p, path, ["tri", "packet", "tmin"], hooks=hooks(v))
    c.fn(path)
    ray = E.args[1]
    some = is_some(r)
    for l in range(4):
        o = [pre(E, ray, "origin_" + a, l) for a in "xyz"]
        d = [pre(E, ray, "direction_" + a, l) for a in "xyz"]
        hit = dand(some, get(E, r.vs[1][0], l))
        compare(c, E, path, "lane %d" % l, hit, o, d, v, get(E, E.args[2], l), pre(E, ray, "t", l), get(E, ray, "t", l))
    kept(c, E, path, None, "t", pre_all(E, ray), fresh(E, ray))


def run(c):
    p = c.prog()
    c.guard("single", TR + "intersect", lambda: single(c, p))
    c.guard("packet", TR + "intersect4", lambda: packet(c, p))
    c.floor("lanes", 5)
