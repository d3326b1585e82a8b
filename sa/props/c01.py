"""C01: box tests report a hit exactly when the ray interval reaches the box."""
from common import *
from order import Order

EXPLAIN = ("Every box test (Aabb::intersect, intersects, intersect4, the BvhNode forwards and the four-wide "
           "MbvhNode tests) is reduced by gated value-flow analysis of its MIR to a decision diagram over "
           "comparisons of slab distances.  The diagram is compared with the slab definition: every branch of "
           "'must hit but reports a miss', 'slabs are disjoint but reports a hit' and 'reported distance lies "
           "outside of the overlap' has to contradict the laws of a total order; NaN-free real arithmetic.")
ASSUME = ["slab distances are ordered reals (no NaN); rounding is not modelled",
          "a ray's sign field agrees with the sign of its inverse direction (decided by C17)",
          "box minimum <= box maximum on every axis"]

AX = "xyz"


def slabs(E, lo, hi, org, inv):
    """slab distances t1, t2 per axis"""
    t1 = [mul(sub(lo[k], org[k]), inv[k]) for k in range(3)]
    t2 = [mul(sub(hi[k], org[k]), inv[k]) for k in range(3)]
    return t1, t2


def interval(t1, t2):
    n = [fmin(a, b) for a, b in zip(t1, t2)]
    f = [fmax(a, b) for a, b in zip(t1, t2)]
    return fmax(fmax(n[0], n[1]), n[2]), fmin(fmin(f[0], f[1]), f[2])


def rayparts(E, r):
    g = lambda *n: pre(E, r, *n)
    return ([g("origin", a) for a in AX], [g("inv_direction", a) for a in AX], g("t_min"), g("t"))


def sign_facts(E, r, t1, t2):
    """sign == 1 <=> inverse direction < 0 <=> the max plane is hit first"""
    c = DT
    for k, a in enumerate(AX):
        inv = pre(E, r, "inv_direction", a)
        s = pre(E, r, "signs", k)
        if not isinstance(s, DD):
            raise Unknown("sign field")
        neg = lt(inv, leaf(ZERO))
        one = apply(None, lambda x: cmp_eq(x, ONE, False), s)
        zero = apply(None, lambda x: cmp_eq(x, ZERO, False), s)
        c = dand(c, ite(neg, dand(one, le(t2[k], t1[k])), dand(zero, le(t1[k], t2[k]))))
    return c


def report(c, rule, site, w):
    c.ob(rule, site, w is None, "possible branch: %s" % (w or ""))


def single_ray(c, p, path, start, dist):
    """Aabb::intersect / intersects / BvhNode::intersect"""
    def go():
        E, r = run_as(p, path, ["box", "ray"])
        c.fn(path)
        bx, ray = E.args
        if "BvhNode" in path:
            bx = pre(E, bx, "bounds")
        lo = [pre(E, bx, "min", a) for a in AX]
        hi = [pre(E, bx, "max", a) for a in AX]
        org, inv, tmin, t = rayparts(E, ray)
        t1, t2 = slabs(E, lo, hi, org, inv)
        near, far = interval(t1, t2)
        hit = is_some(r) if isinstance(r, Enum) else r
        s0 = tmin if start == "t_min" else leaf(ZERO)
        under = sign_facts(E, ray, t1, t2)
        O = Order([lf(x) for x in t1 + t2] + [lf(tmin), lf(t), ZERO])
        must = dand(le(near, far), dand(lt(s0, far), lt(near, t)))
        may = dand(le(near, far), le(s0, far))
        report(c, "no-culled-hit", path, O.implies(must, hit, under))
        report(c, "no-hit-on-disjoint-slabs", path, O.implies(hit, may, under))
        if dist:
            v = r.vs[1][0] if r.vs[1] else DBOT
            inside = dand(le(near, v), le(v, far))
            report(c, "distance-in-overlap", path, O.implies(hit, inside, under))
        c.count("box tests")
    c.guard("box-test", path, go)


def lanewise(F, lanes, O, must, may, base):
    """F must be the disjunction over the lanes of a per-lane test between must and may.
    Lanes are eliminated one at a time; returns None or a witness."""
    for l in range(lanes):
        # residual of F when lane l does not hit: fix every atom of the lane to a certain miss
        rest = O[l].possible_residual(F, dnot(may[l]), base[l])
        if len(rest) != 1:
            return "lane %d: a miss of the lane changes the result of the others" % l
        F2 = rest[0]
        hits = O[l].possible_residual(F, must[l], base[l])
        if any(x is not DT for x in hits):
            return "lane %d: the packet is rejected although the lane must hit" % l
        band = O[l].possible_residual(F, DT, base[l])
        if any(x is not DT and x is not F2 for x in band):
            return "lane %d: its result is not a plain hit or miss" % l
        F = F2
    if F is not DF:
        return "a hit is reported although no lane hits"
    return None


class LaneOrder(Order):
    def __init__(self, vs):
        Order.__init__(self, vs)

    def mine(self, at):
        return self.facts(at, True) is not None

    def possible_residual(self, F, cond, base):
        """distinct residuals of F over all order types of the lane that satisfy base & cond"""
        d = dand(base, cond)
        out = {}
        st = [(F, d, self.base)]
        n = 0
        seen = set()
        while st:
            f, g, m = st.pop()
            if g is DF:
                continue
            key = (f.id, g.id, tuple(map(tuple, m)))
            if key in seen:
                continue
            seen.add(key)
            n += 1
            if n > 300000:
                raise Unknown("lane analysis exceeds its budget")
            at = None
            for x in (g, f):
                for a in sorted(atoms(x), key=lambda t: t.id):
                    if self.mine(a):
                        at = a
                        break
                if at is not None:
                    break
            if at is None:
                out[f.id] = f
                continue
            for val in (True, False):
                fc = self.facts(at, val)
                m2 = self.add(m, *fc)
                if m2 is None:
                    continue
                st.append((assign(f, {at: val}), assign(g, {at: val}), m2))
        return list(out.values())


def packet(c, p, path):
    """Aabb::intersect4 / BvhNode::intersect4: one box, four rays"""
    def go():
        E, r = run_as(p, path, ["box", "packet"])
        c.fn(path)
        bx, pk = E.args
        if "BvhNode" in path:
            bx = pre(E, bx, "bounds")
        lo = [pre(E, bx, "min", a) for a in AX]
        hi = [pre(E, bx, "max", a) for a in AX]
        Os, must, may, base, near4 = [], [], [], [], []
        for l in range(4):
            org = [pre(E, pk, "origin_" + a, l) for a in AX]
            inv = [pre(E, pk, "inv_direction_" + a, l) for a in AX]
            t = pre(E, pk, "t", l)
            t1, t2 = slabs(E, lo, hi, org, inv)
            near, far = interval(t1, t2)
            near4.append((near, far, t1, t2, t))
            Os.append(LaneOrder([lf(x) for x in t1 + t2] + [lf(t), ZERO]))
            must.append(dand(le(near, far), dand(lt(leaf(ZERO), far), lt(near, t))))
            may.append(le(near, far))
            base.append(DT)
        hit = is_some(r)
        w = lanewise(hit, 4, Os, must, may, base)
        c.ob("packet-hit-iff-some-lane-hits", path, w is None, w or "")
        vs = r.vs[1][0]
        for l in range(4):
            near, far, t1, t2, t = near4[l]
            v = get(E, vs, l)
            inside = dand(le(near, v), le(v, far))
            report(c, "lane-distance-in-overlap", "%s lane %d" % (path, l),
                   Os[l].implies(dand(le(near, far), le(leaf(ZERO), far)), inside))
        c.count("box tests")
    c.guard("box-test", path, go)


def wide(c, p, path, lanes):
    """MbvhNode::intersect / intersect4: four boxes"""
    def go():
        E, r = run_as(p, path, ["node", "ray"])
        c.fn(path)
        nd, ray = E.args
        for ch in range(4):
            lo = [pre(E, nd, "min_" + a, ch) for a in AX]
            hi = [pre(E, nd, "max_" + a, ch) for a in AX]
            F = get(E, r, "result", ch)
            Os, must, may, base = [], [], [], []
            for l in range(lanes):
                if lanes == 1:
                    org, inv, tmin, t = rayparts(E, ray)
                else:
                    org = [pre(E, ray, "origin_" + a, l) for a in AX]
                    inv = [pre(E, ray, "inv_direction_" + a, l) for a in AX]
                    t, tmin = pre(E, ray, "t", l), leaf(ZERO)
                t1, t2 = slabs(E, lo, hi, org, inv)
                near, far = interval(t1, t2)
                Os.append(LaneOrder([lf(x) for x in t1 + t2] + [lf(t), lf(tmin), ZERO]))
                must.append(dand(le(near, far), dand(lt(tmin, far), lt(near, t))))
                may.append(le(near, far))
                base.append(sign_facts(E, ray, t1, t2) if lanes == 1 else DT)
            if lanes == 1:
                report(c, "no-culled-hit", "%s child %d" % (path, ch), Os[0].implies(must[0], F, base[0]))
                report(c, "no-hit-on-disjoint-slabs", "%s child %d" % (path, ch), Os[0].implies(F, may[0], base[0]))
            else:
                w = lanewise(F, lanes, Os, must, may, base)
                c.ob("packet-hit-iff-some-lane-hits", "%s child %d" % (path, ch), w is None, w or "")
            c.count("box tests")
    c.guard("box-test", path, go)


def run(c):
    p = c.prog()
    single_ray(c, p, "aabb::Aabb::<E>::intersect", "t_min", True)
    single_ray(c, p, "aabb::Aabb::<E>::intersects", "zero", False)
    single_ray(c, p, "bvh_node::BvhNode::intersect", "t_min", True)
    packet(c, p, "aabb::Aabb::<E>::intersect4")
    packet(c, p, "bvh_node::BvhNode::intersect4")
    wide(c, p, "mbvh_node::MbvhNode::intersect", 1)
    wide(c, p, "mbvh_node::MbvhNode::intersect4", 4)
    c.floor("box tests", 13)
