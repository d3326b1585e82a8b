"""C17: rays and packets carry a consistent inverse direction and sign."""
from common import *

EXPLAIN = ("Every public way to make a ray or packet is reduced to the value of each field. Rules: inverse direction times "
           "direction is one per component and lane; the stored sign of a component is the sign bit of the direction (so that "
           "negative zero selects the planes its infinite inverse needs), origin, direction and distances are passed through to "
           "the right lane, a fresh ray starts with an empty hit distance.")
ASSUME = ["real arithmetic; division by zero is a formal inverse"]
R, P4 = "ray::Ray::", "ray::RayPacket4::"


def eq(c, rule, site, a, b):
    c.ob(rule, site, a is b, "is %s, expected %s" % (show_dd(a)[:200], show_dd(b)[:200]))


def num(x):
    return leaf(ONE if x else ZERO)


def ray_ok(c, E, site, r, origin, direction, under=DT):
    """r: resulting ray; expected origin and direction values"""
    for k in range(3):
        o, d, inv = get(E, r, "origin", k), get(E, r, "direction", k), get(E, r, "inv_direction", k)
        c.ob("origin", "%s[%d]" % (site, k), same_under(under, o, origin[k]), "is %s" % show_dd(o)[:200])
        c.ob("direction", "%s[%d]" % (site, k), same_under(under, d, direction[k]), "is %s" % show_dd(d)[:200])
        c.ob("inverse-direction", "%s[%d]" % (site, k), same_under(under, inv, div(leaf(ONE), direction[k])), "is %s" % show_dd(inv)[:200])
        s = get(E, r, "signs", k)

        def sb(x):
            return batom(mk("signbit", x))
        w1 = apply(None, lambda x: ite(sb(x), num(1), num(0)), direction[k])
        w2 = apply(None, lambda x: ite(sb(x), num(1), num(0)), inv)
        c.ob("sign-is-the-sign-bit", "%s[%d]" % (site, k), same_under(under, s, w1) or same_under(under, s, w2), "is %s" % show_dd(s)[:200])
        c.count("ray components")


def fresh_t(c, E, site, r, t=None):
    tm, tt = get(E, r, "t_min"), get(E, r, "t")
    c.ob("start-distance", site, tm.atom is None and is_const(tm.leaf) and 0 <= cval(tm.leaf) <= Fraction("0.001"), "is %s" % show_dd(tm))
    if t is None:
        c.ob("hit-distance-starts-empty", site, tt.atom is None and is_const(tt.leaf) and cval(tt.leaf) >= 10 ** 33, "is %s" % show_dd(tt))


def run(c):
    p = c.prog()

    def new():
        E, r = run_as(p, R + "new", ["o", "d"])
        c.fn(R + "new")
        ray_ok(c, E, R + "new", r, [pre(E, E.args[0], k) for k in range(3)], [pre(E, E.args[1], k) for k in range(3)])
        fresh_t(c, E, R + "new", r)
    c.guard("ray", R + "new", new)

    fp = "<ray::Ray as std::convert::From<(glam::Vec3, glam::Vec3)>>::from"

    def frm():
        E, r = run_as(p, fp, ["v"])
        c.fn(fp)
        v = E.expand(E.args[0]) if isinstance(E.args[0], Sym) else E.args[0]
        ray_ok(c, E, fp, r, [get(E, v.fs[0], k) for k in range(3)], [get(E, v.fs[1], k) for k in range(3)])
        fresh_t(c, E, fp, r)
    c.guard("ray", fp, frm)

    ip = "ray::<impl std::convert::From<ray::Ray> for (glam::Vec3, glam::Vec3)>::from"

    def back():
        E, r = run_as(p, ip, ["r"])
        c.fn(ip)
        for k in range(3):
            eq(c, "into-pair", "%s origin[%d]" % (ip, k), get(E, r, 0, k), pre(E, E.args[0], "origin", k))
            eq(c, "into-pair", "%s direction[%d]" % (ip, k), get(E, r, 1, k), pre(E, E.args[0], "direction", k))
    c.guard("into-pair", ip, back)

    def reflect():
        E, r = run_as(p, R + "reflect", ["s", "hit", "n", "eps"])
        c.fn(R + "reflect")
        s, h, n, eps = E.args
        d = [pre(E, s, "direction", k) for k in range(3)]
        nn = [pre(E, n, k) for k in range(3)]
        dot = add(add(mul(d[0], nn[0]), mul(d[1], nn[1])), mul(d[2], nn[2]))
        two = leaf(const(2))
        out = [sub(d[k], mul(mul(nn[k], dot), two)) for k in range(3)]
        org = [add(pre(E, h, k), mul(out[k], eps)) for k in range(3)]
        ray_ok(c, E, R + "reflect", r, org, out)
        fresh_t(c, E, R + "reflect", r)
    c.guard("ray", R + "reflect", reflect)

    def pnew():
        E, r = run_as(p, P4 + "new", ["o", "d"])
        c.fn(P4 + "new")
        for l in range(4):
            for k, a in enumerate("xyz"):
                site = "%snew lane %d %s" % (P4, l, a)
                o, d = pre(E, E.args[0], l, k), pre(E, E.args[1], l, k)
                eq(c, "origin", site, get(E, r, "origin_" + a, l), o)
                eq(c, "direction", site, get(E, r, "direction_" + a, l), d)
                eq(c, "inverse-direction", site, mul(get(E, r, "inv_direction_" + a, l), d), leaf(ONE))
                c.count("ray components")
            t = get(E, r, "t", l)
            c.ob("hit-distance-starts-empty", "%snew lane %d" % (P4, l), t.atom is None and is_const(t.leaf) and cval(t.leaf) >= 10 ** 33, "is %s" % show_dd(t))
    c.guard("packet", P4 + "new", pnew)

    def pray():
        E, r = run_as(p, P4 + "ray", ["s", "i"])
        c.fn(P4 + "ray")
        s, i = E.args
        for l in range(4):
            under = apply(None, lambda x: cmp_eq(x, const(l), False), i)
            ray_ok(c, E, "%sray lane %d" % (P4, l), r, [pre(E, s, "origin_" + a, l) for a in "xyz"],
                   [pre(E, s, "direction_" + a, l) for a in "xyz"], under)
            c.ob("lane-distance", "%sray lane %d" % (P4, l), same_under(under, get(E, r, "t"), pre(E, s, "t", l)), "is %s" % show_dd(get(E, r, "t"))[:200])
            m, want = get(E, r, "t_min"), get(*run_as(p, R + "new", ["o", "d"]), "t_min")
            c.ob("lane-start", "%sray lane %d" % (P4, l), same_under(under, m, want), "starts at %s, a new ray at %s" % (show_dd(m)[:80], show_dd(want)[:80]))
        fresh_t(c, E, P4 + "ray", r, True)
        for w, k, fn, ln in panics(E):
            bad = prune(dand(w, apply(None, lambda x: cmp_lt(x, const(4), False), i)))
            c.ob("no-panic-for-a-lane", P4 + "ray", bad is DF, "panics when %s" % show_dd(bad)[:200])
    c.guard("packet", P4 + "ray", pray)

    def resets():
        E, r = run_as(p, R + "reset", ["s"])
        c.fn(R + "reset", P4 + "reset")
        t = get(E, E.args[0], "t")
        c.ob("reset", R + "reset", t.atom is None and is_const(t.leaf) and cval(t.leaf) >= 10 ** 33, "t becomes %s" % show_dd(t))
        for f in ("origin", "direction", "inv_direction", "signs"):
            for k in range(3):
                eq(c, "reset-keeps", "%sreset %s[%d]" % (R, f, k), get(E, E.args[0], f, k), pre(E, E.args[0], f, k))
        E, r = run_as(p, P4 + "reset", ["s"])
        for l in range(4):
            t = get(E, E.args[0], "t", l)
            c.ob("reset", "%sreset lane %d" % (P4, l), t.atom is None and is_const(t.leaf) and cval(t.leaf) >= 10 ** 33, "t becomes %s" % show_dd(t))
            for f in ("origin", "direction", "inv_direction"):
                for a in "xyz":
                    eq(c, "reset-keeps", "%sreset %s_%s lane %d" % (P4, f, a, l), get(E, E.args[0], f + "_" + a, l), pre(E, E.args[0], f + "_" + a, l))
    c.guard("reset", R + "reset", resets)

    def point():
        E, r = run_as(p, R + "get_point_at", ["s", "t"])
        c.fn(R + "get_point_at", R + "is_valid")
        for k in range(3):
            eq(c, "point-at", "%sget_point_at[%d]" % (R, k), get(E, r, k),
               add(pre(E, E.args[0], "origin", k), mul(E.args[1], pre(E, E.args[0], "direction", k))))
        E, r = run_as(p, R + "is_valid", ["s"])
        t = pre(E, E.args[0], "t")
        lo, hi = lt(t, leaf(const(10 ** 30))), lt(t, leaf(const(Fraction(9999 * 10 ** 30))))
        ok = all(ats.op in ("flt", "fgt") for ats in atoms(r)) and len(atoms(r)) == 1
        from order import Order
        O = Order([lf(t), const(10 ** 30), const(Fraction(9999 * 10 ** 30))] + [psub(lf(t), a.a[0]) for a in atoms(r)])
        w = O.implies(lo, r) or O.implies(r, hi)
        c.ob("valid-iff-hit", R + "is_valid", ok and w is None, "is %s" % show_dd(r)[:200])
    c.guard("point-at", R + "get_point_at", point)
    c.floor("ray components", 9 + 12 + 12)
