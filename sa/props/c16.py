"""C16: box algebra."""
import functools
from common import *
from order import Order

EXPLAIN = ("Every constructor, combinator, in-place update and measure of the box type is reduced to the value of each result "
           "coordinate and compared with its definition: componentwise minimum/maximum for unions and growth, the reverse for "
           "intersections, folds over lists, a symmetric offset, the eight corners, extents, centre, areas and volume. In-place "
           "updates must keep the two payload slots of the box.")
ASSUME = ["real arithmetic", "list-built boxes may be padded by at most 0.01"]
A = "aabb::Aabb::<E>::"
PAD = leaf(const("0.01"))


def coords(E, v, part, before=False):
    g = pre if before else get
    return [g(E, v, part, k) for k in range(3)]


def same(c, rule, site, a, b):
    c.ob(rule, site, a is b, "is %s, expected %s" % (show_dd(a)[:200], show_dd(b)[:200]))


def combine(c, p, name, lo, hi, inplace, kind="box"):
    def go():
        E, r = run_as(p, A + name, ["self", "other"])
        c.fn(A + name)
        s, o = E.args
        res = s if inplace else r
        for part, f in (("min", lo), ("max", hi)):
            for k in range(3):
                a = pre(E, s, part, k)
                b = pre(E, o, part, k) if kind == "box" else pre(E, o, k)
                same(c, name, "%s %s[%d]" % (A + name, part, k), get(E, res, part, k), f(a, b))
        if inplace:
            kept(c, E, s, name)
        c.count("box functions")
    c.guard(name, A + name, go)


def kept(c, E, s, name):
    for f in ("extra1", "extra2"):
        x, y = get(E, s, f), pre(E, s, f)
        c.ob("payload-is-kept", "%s %s" % (A + name, f), x is y, "%s changes" % f)


def offset(c, p, name, inplace):
    def go():
        E, r = run_as(p, A + name, ["self", "delta"])
        c.fn(A + name)
        s, d = E.args
        res = s if inplace else r
        for k in range(3):
            same(c, name, "%s min[%d]" % (A + name, k), get(E, res, "min", k), sub(pre(E, s, "min", k), d))
            same(c, name, "%s max[%d]" % (A + name, k), get(E, res, "max", k), add(pre(E, s, "max", k), d))
        for f in ("extra1", "extra2"):
            c.ob("payload-is-kept", "%s %s" % (A + name, f), repr(get(E, res, f)) == repr(pre(E, s, f)), "%s changes" % f)
        c.count("box functions")
    c.guard(name, A + name, go)


def listed(c, p, name, point, inplace):
    """union over a list, possibly padded"""
    def go():
        E, r = run_as(p, A + name, ["self", "list"] if inplace else ["list"])
        c.fn(A + name)
        l = E.args[-1]
        res = E.args[0] if inplace else r
        b = mk("b", 1)
        INT_LO[b] = Fraction(0)
        el = elem_at(E, l, atom(b))
        n = lf(length(E, l))
        some = dnot(apply(None, lambda x: cmp_lt(x, ONE, False), leaf(n)))
        for part, op, f in (("min", "min", fmin), ("max", "max", fmax)):
            for k in range(3):
                body = get(E, el, k) if point else get(E, el, part, k)
                req = leaf(atom(mk("fold", op, n, b, body)))
                if inplace:
                    req = f(req, pre(E, E.args[0], part, k))
                v = get(E, res, part, k)
                lo, hi = (v, req) if part == "min" else (req, v)
                w = dand(some, dnot(le(lo, hi)))
                c.ob(name, "%s contains all %s[%d]" % (A + name, part, k), w is DF, "is %s, misses %s" % (show_dd(v)[:300], show_dd(req)[:300]))
                s = apply(None, strip, v)
                lo, hi = (sub(req, PAD), s) if part == "min" else (s, add(req, PAD))
                w = dand(some, dnot(le(lo, hi)))
                c.ob(name, "%s is tight %s[%d]" % (A + name, part, k), w is DF, "is %s" % show_dd(v)[:300])
        if inplace:
            kept(c, E, E.args[0], name)
        c.count("box functions")
    c.guard(name, A + name, go)


def macro(c):
    """aabb!(..) holds its vertices, and not much more"""
    for fn, names in (("one", "a"), ("three", "abc")):
        site = "aabb! of %d" % len(names)

        def go():
            E, r = run_as(c.prog("rtbvh_macros"), fn, list(names))
            c.fn("aabb!")
            for part, f in (("min", fmin), ("max", fmax)):
                for k in range(3):
                    v = get(E, r, part, k)
                    req = functools.reduce(f, [pre(E, x, k) for x in E.args])
                    pad = sub(apply(None, strip, v), req)
                    k_ = cval(pad.leaf) * (-1 if part == "min" else 1) if pad.atom is None and is_const(pad.leaf) else None
                    c.ob("macro", "%s %s[%d]" % (site, part, k), k_ is not None and 0 <= k_ <= Fraction(1, 100), "is %s, expected %s" % (show_dd(v)[:200], show_dd(req)[:200]))
            c.count("macro uses")
        c.guard("macro", site, go)
    c.floor("macro uses", 2)


def measure(c, p, name, f):
    def go():
        E, r = run_as(p, A + name, ["self"])
        c.fn(A + name)
        lo, hi = coords(E, E.args[0], "min", True), coords(E, E.args[0], "max", True)
        d = [sub(h, l) for h, l in zip(hi, lo)]
        want = f(lo, hi, d)
        got = [get(E, r, k) for k in range(3)] if isinstance(want, list) else [r]
        for k, (g, w) in enumerate(zip(got, want if isinstance(want, list) else [want])):
            same(c, name, "%s%s" % (A + name, "[%d]" % k if len(got) > 1 else ""), g, w)
        c.count("box functions")
    c.guard(name, A + name, go)


def special(c, p):
    def contains():
        E, r = run_as(p, A + "contains", ["self", "pos"])
        c.fn(A + "contains")
        lo, hi = coords(E, E.args[0], "min", True), coords(E, E.args[0], "max", True)
        x = [pre(E, E.args[1], k) for k in range(3)]
        inside, notout = DT, DT
        for k in range(3):
            inside = dand(inside, dand(lt(lo[k], x[k]), lt(x[k], hi[k])))
            notout = dand(notout, dand(le(lo[k], x[k]), le(x[k], hi[k])))
        O = Order([lf(v) for v in lo + hi + x])
        w = O.implies(inside, r)
        c.ob("contains", A + "contains interior", w is None, w or "")
        w = O.implies(r, notout)
        c.ob("contains", A + "contains exterior", w is None, w or "")
        c.count("box functions")
    c.guard("contains", A + "contains", contains)

    def valid():
        E, r = run_as(p, A + "is_valid", ["self"])
        c.fn(A + "is_valid")
        w = DT
        for k in range(3):
            w = dand(w, le(pre(E, E.args[0], "min", k), pre(E, E.args[0], "max", k)))
        O = Order([lf(pre(E, E.args[0], m, k)) for m in ("min", "max") for k in range(3)])
        x = O.implies(w, r) or O.implies(r, w)
        c.ob("is_valid", A + "is_valid", x is None, x or "")
        c.count("box functions")
    c.guard("is_valid", A + "is_valid", valid)

    def longest():
        E, r = run_as(p, A + "longest_axis", ["self"])
        c.fn(A + "longest_axis")
        lo, hi = coords(E, E.args[0], "min", True), coords(E, E.args[0], "max", True)
        d = [sub(h, l) for h, l in zip(hi, lo)]
        O = Order([lf(x) for x in d])
        for k in range(3):
            here = apply(None, lambda x: cmp_eq(x, const(k), False), r)
            big = DT
            for j in range(3):
                big = dand(big, le(d[j], d[k]))
            w = O.implies(here, big)
            c.ob("longest_axis", "%slongest_axis %d" % (A, k), w is None, w or "")
        rng = apply(None, lambda x: dand(cmp_le(ZERO, x, False), cmp_lt(x, const(3), False)), r)
        c.ob("longest_axis", A + "longest_axis range", rng is DT, "is %s" % show_dd(r)[:200])
        c.count("box functions")
    c.guard("longest_axis", A + "longest_axis", longest)

    def corners():
        E, r = run_as(p, A + "all_corners", ["self"])
        c.fn(A + "all_corners")
        lo, hi = coords(E, E.args[0], "min", True), coords(E, E.args[0], "max", True)
        got = {tuple(get(E, r, i, k).id for k in range(3)) for i in range(8)}
        for m in range(8):
            want = tuple((hi if m >> k & 1 else lo)[k].id for k in range(3))
            c.ob("all_corners", "%sall_corners corner %d" % (A, m), want in got, "the corner is not among the eight")
        c.count("box functions")
    c.guard("all_corners", A + "all_corners", corners)

    def transformed(name, inplace):
        def go():
            E, r = run_as(p, A + name, ["self", "m"])
            c.fn(A + name)
            res = E.args[0] if inplace else r
            lo, hi = coords(E, E.args[0], "min", True), coords(E, E.args[0], "max", True)
            # the transformed corners are the mat*vec applications the analysis kept opaque
            corners = {}
            for part in ("min", "max"):
                for k in range(3):
                    for t in patoms(lf(get(E, res, part, k))):
                        if t.op == "call" and "mul" in str(t.a[0]):
                            corners.setdefault(t, None)
            want = set()
            for m in range(8):
                want.add(tuple((hi if m >> k & 1 else lo)[k].leaf for k in range(3)) + (ONE,))
            have = set()
            for t in corners:
                v = [x for x in t.a[1] if isinstance(x, T)]
                last = v[-1]
                if last.op == "agg":
                    have.add(tuple(last.a[0]))
            c.ob(name, A + name + " uses the eight corners", have == want, "uses %d of 8 corners, %d others" % (len(have & want), len(have - want)))
            for part, below in (("min", True), ("max", False)):
                for k in range(3):
                    v = get(E, res, part, k)
                    for n, t in enumerate(sorted(corners, key=lambda x: x.id)):
                        x = leaf(lf(comp(E, t, k)))
                        w = le(v, x) if below else le(x, v)
                        c.ob(name, "%s contains image %d %s[%d]" % (A + name, n, part, k), w is DT, "is %s" % show_dd(v)[:200])
            c.count("box functions")
        c.guard(name, A + name, go)
    transformed("transformed", False)
    transformed("transform", True)


def comp(E, t, k):
    return leaf(atom(mk("fld", t, k)))


def strip(v):
    import c11
    return c11.strip(v)


def consts(c, p):
    for name, lo, hi in (("new", 1, -1), ("empty", 1, -1), ("full", -1, 1)):
        def go():
            E, r = run_as(p, A + name, [])
            c.fn(A + name)
            for part, s in (("min", lo), ("max", hi)):
                for k in range(3):
                    v = get(E, r, part, k)
                    ok = v.atom is None and is_const(v.leaf) and cval(v.leaf) * s >= 10 ** 30
                    c.ob(name, "%s%s %s[%d]" % (A, name, part, k), ok, "is %s" % show_dd(v))
            c.count("box functions")
        c.guard(name, A + name, go)


def views(c, p):
    """conversions and accessors give the box's own corners"""
    box = lambda E, b: [pre(E, b, m, k) for m in ("min", "max") for k in range(3)]

    def go(name, path, args, want, got):
        def f():
            E, r = run_as(p, path, args)
            c.fn(path)
            for i, (g, w) in enumerate(zip(got(E, r), want(E))):
                same(c, name, "%s [%d]" % (path, i), g, w)
            c.count("box functions")
        c.guard(name, path, f)
    pair = lambda E, r: [get(E, r, m, k) for m in (0, 1) for k in range(3)]
    full = lambda E, r: [get(E, r, m, k) for m in ("min", "max") for k in range(3)]
    own = lambda E: box(E, E.args[0])
    T = "<aabb::Aabb<E> as "
    go("points", A + "points", ["self"], own, pair)
    go("conversion", "aabb::<impl std::convert::From<aabb::Aabb<E>> for (glam::Vec3, glam::Vec3)>::from", ["self"], own, pair)
    go("conversion", T + "std::convert::From<(glam::Vec3, glam::Vec3)>>::from", ["pair"], lambda E: [pre(E, E.args[0], m, k) for m in (0, 1) for k in range(3)], full)
    go("conversion", T + "aabb::Bounds<E>>::bounds", ["self"], own, full)
    go("conversion", T + "bvh::Primitive<E>>::aabb", ["self"], own, full)
    half = leaf(const("0.5"))
    go("conversion", T + "bvh::Primitive<E>>::center", ["self"], lambda E: [mul(add(a, b), half) for a, b in zip(coords(E, E.args[0], "min", True), coords(E, E.args[0], "max", True))],
       lambda E, r: [get(E, r, k) for k in range(3)])

    def side():
        path = T + "std::ops::Index<usize>>::index"
        E, r = run_as(p, path, ["self", "i"])
        c.fn(path)
        at0 = apply(None, lambda x: cmp_eq(x, ZERO, False), E.args[1])
        for on, part in ((at0, "min"), (dnot(at0), "max")):
            for k in range(3):
                same(c, "index", "%s %s[%d]" % (path, part, k), restrict(get(E, r, k), on), pre(E, E.args[0], part, k))
        c.count("box functions")
    c.guard("index", "Index", side)

    def axis():
        E, r = run_as(p, A + "extend", ["self", "axis"])
        c.fn(A + "extend")
        lo, hi = coords(E, E.args[0], "min", True), coords(E, E.args[0], "max", True)
        for k in range(3):
            on = apply(None, lambda x: cmp_eq(x, const(k), False), E.args[1])
            want = lf(sub(hi[k], lo[k]))
            differs = prune(dand(on, apply(None, lambda l: FALSE if l is want else TRUE, r)))
            c.ob("extend", "%sextend %d" % (A, k), differs is DF, "is %s" % show_dd(r)[:200])
        E, r = run_as(p, A + "longest_extent", ["self"])
        c.fn(A + "longest_extent")
        lo, hi = coords(E, E.args[0], "min", True), coords(E, E.args[0], "max", True)
        d = [sub(h, l) for h, l in zip(hi, lo)]
        O = Order([lf(x) for x in d])
        # a leaf may be the largest of some of the three
        big = DF
        for l in leaves(r):
            for m in range(1, 8):
                some = [d[k] for k in range(3) if m >> k & 1]
                if l is functools.reduce(pmax, [lf(x) for x in some]):
                    top = DT
                    for x in d:
                        top = dand(top, functools.reduce(dor, [le(x, y) for y in some]))
                    big = dor(big, dand(apply(None, lambda x, l=l: TRUE if x is l else FALSE, r), top))
        w = O.implies(DT, big)
        c.ob("longest_extent", A + "longest_extent", w is None, w or "")
        c.count("box functions", 2)
    c.guard("extend", A + "extend", axis)


def run(c):
    p = c.prog()
    consts(c, p)
    views(c, p)
    combine(c, p, "union_of", fmin, fmax, False)
    combine(c, p, "intersection", fmax, fmin, False)
    combine(c, p, "grow", fmin, fmax, True, "point")
    combine(c, p, "grow_bb", fmin, fmax, True)
    combine(c, p, "shrink", fmax, fmin, True)
    offset(c, p, "offset_by", True)
    offset(c, p, "with_offset", False)
    listed(c, p, "grow_bbs", False, True)
    listed(c, p, "union_of_list", False, False)
    listed(c, p, "from_points", True, False)
    half = leaf(const("0.5"))
    face = lambda d: add(add(mul(d[0], d[1]), mul(d[0], d[2])), mul(d[1], d[2]))
    measure(c, p, "center", lambda l, h, d: [mul(add(a, b), half) for a, b in zip(l, h)])
    measure(c, p, "lengths", lambda l, h, d: d)
    measure(c, p, "diagonal", lambda l, h, d: d)
    measure(c, p, "volume", lambda l, h, d: mul(mul(d[0], d[1]), d[2]))
    measure(c, p, "half_area", lambda l, h, d: face(d))
    measure(c, p, "area", lambda l, h, d: fmax(leaf(ZERO), face(d)))
    special(c, p)
    macro(c)
    c.floor("box functions", 24)
