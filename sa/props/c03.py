"""C03: traversing a wide tree yields exactly the primitives of the lanes whose boxes are hit."""
from common import *
import c02
from c02 import find, neg, ilt, ieq, off, w

EXPLAIN = ("As C02 for the four-wide iterators: the transition of next()'s loop on (node, lane cursor, primitive cursor, stack). "
           "Every lane of a node is looked at exactly once (the lane order stored with the hits is shown to be a permutation), a hit "
           "leaf lane yields each of its primitives once, a hit inner lane is pushed, a finished node is replaced by the top of the "
           "stack together with that node's own box test, and the end is reported exactly when nothing is pending.")
ASSUME = ["well-formed tree (children and ranges in bounds)", "the traversal stack behaves like an unbounded array (decided by C04)",
          "box tests are those of C01"]
ITERS = {"MbvhIterator": ("ray", True), "MbvhPacketIterator": ("packet", True),
         "MbvhIndexIterator": ("ray", False), "MbvhPacketIndexIterator": ("packet", False)}


def differ(a, b):
    return apply(None, lambda x, y: FALSE if x is y else TRUE, a, b)


def transition(c, p, ty):
    path = find(p, ty, "next")
    kind, prims = ITERS[ty]
    E, r, s = prog.rounds(p, path, ["it"])
    c.fn(path)
    H, N = s.head, s.next
    E.mem = s.headmem
    cur, i, j, sp = (get(E, H, f) for f in ("current", "i", "j", "stack_ptr"))
    S = E.expand(get(E, H, "stack")).arr
    nodes, idx, hit = get(E, H, "nodes"), get(E, H, "indices"), get(E, H, "hit")
    res = [get(E, hit, "result", k) for k in range(4)]
    ids = [get(E, hit, "ids", k) for k in range(4)]
    inside = dand(dnot(neg(cur)), ilt(cur, length(E, nodes)))
    over = dnot(ilt(i, leaf(const(4))))
    # cursor between 0 and 4, lane ids between 0 and 3
    sane = dand(inside, dand(dnot(neg(i)), dnot(ilt(leaf(const(4)), i))))
    for k in range(4):
        sane = dand(sane, dand(dnot(neg(ids[k])), ilt(ids[k], leaf(const(4)))))
    st = s.stay
    q = mk("v", "depth")
    INT_LO[q] = Fraction(0)
    q = leaf(atom(q))

    def state(v):
        return [get(E, v, f) for f in ("current", "i", "j", "stack_ptr")] + [E.expand(get(E, v, "stack")).arr]

    def keeps(g, v, upto):
        S2 = state(v)[4]
        w(c, "stack-is-kept", path, dand(dand(g, ilt(q, off(upto, 1))), differ(rd(E, S2, q), rd(E, S, q))), "a pending node is overwritten")

    def same_hit(g, v):
        h = get(E, v, "hit")
        d = DF
        for k in range(4):
            d = dor(d, dxor(get(E, h, "result", k), res[k]))
            d = dor(d, dnot(ieq(get(E, h, "ids", k), ids[k])))
        w(c, "hits-of-the-node-are-kept", path, dand(g, d), "the lanes change")

    nd = elem_at(E, nodes, cur)
    table = {}
    for order in ("descending", "ascending"):
        bad = []
        table[order] = bad
        ends, yields = DF, DF
        allwork = DF
        for lane in range(4):
            pos = 3 - lane if order == "descending" else lane
            for l in range(4):
                g = dand(sane, dand(ieq(i, leaf(const(lane))), ieq(ids[pos], leaf(const(l)))))
                cnt, lf0 = get(E, nd, "counts", l), get(E, nd, "children", l)
                isleaf = dnot(neg(cnt))
                pid = elem_at(E, idx, apply(None, padd, lf0, j))
                miss = DF
                if prims:
                    pr = get(E, H, "primitives")
                    miss = dnot(ilt(pid, length(E, pr)))
                work = dand(dand(g, res[l]), dand(isleaf, ilt(j, cnt)))
                visit = dand(work, dnot(miss))
                skip = dand(work, miss)
                done = dand(dand(g, res[l]), dand(isleaf, dnot(ilt(j, cnt))))
                push = dand(dand(g, res[l]), dand(dnot(isleaf), dnot(neg(lf0))))
                dead = dand(dand(g, res[l]), dand(dnot(isleaf), neg(lf0)))
                cold = dand(g, dnot(res[l]))
                allwork = dor(allwork, visit)
                site = "lane %d" % l

                def bump(v, gg):
                    """the primitive cursor advanced; or the lane was finished with its last primitive"""
                    c2, i2, j2, sp2, S2 = state(v)
                    kept = dand(ieq(c2, cur), ieq(sp2, sp))
                    a = dand(ieq(i2, i), ieq(j2, off(j, 1)))
                    b = dand(dand(ieq(i2, off(i, 1)), ieq(j2, leaf(ZERO))), dnot(ilt(off(j, 1), cnt)))
                    bad.append(("cursor-advances-by-one", site, dand(gg, dnot(dand(kept, dor(a, b))))))
                for gx, rv, v in s.outs:
                    gy = dand(dand(gx, is_some(rv)), visit)
                    yields = dor(yields, gy)
                    if gy is DF:
                        continue
                    it = rv.vs[1][0]
                    want = E.index_ref(pr, (), pid) if prims else pid
                    bad.append(("yields-the-primitive-at-the-cursor", site, dand(gy, differ(get(E, it, 0), want))))
                    bump(v, gy)
                if skip is not DF:
                    bump(N, skip)
                    bad.append(("skips-only-unknown-ids", site, dand(skip, dnot(st))))
                c2, i2, j2, sp2, S2 = state(N)
                kept = dand(ieq(c2, cur), ieq(i2, off(i, 1)))
                rest = dor(dor(done, push), dor(dead, cold))
                bad.append(("continues-with-the-next-lane", site, dand(rest, dnot(dand(st, kept)))))
                bad.append(("cursor-restarts", site, dand(done, dnot(ieq(j2, leaf(ZERO))))))
                bad.append(("cursor-stays-clear", site, dand(dor(push, dor(dead, cold)), dnot(dor(ieq(j2, j), ieq(j2, leaf(ZERO)))))))
                bad.append(("pushes-the-child", site, dand(push, dnot(dand(ieq(sp2, off(sp, 1)), ieq(rd(E, S2, off(sp, 1)), lf0))))))
                bad.append(("pushes-only-inner-lanes", site, dand(dor(done, dor(dead, cold)), dnot(ieq(sp2, sp)))))
        bad.append(("yields-every-primitive-of-a-hit-lane", "all lanes", dand(allwork, dnot(yields))))
        for gx, rv, v in s.outs:
            bad.append(("yields-only-primitives-of-hit-lanes", "all lanes", dand(dand(dand(sane, gx), is_some(rv)), dnot(allwork))))
            bad.append(("ends-only-when-nothing-is-pending", "all lanes",
                        dand(dand(dand(sane, gx), dnot(is_some(rv))), dnot(dand(over, neg(sp))))))
    res2 = {}
    for order, bad in table.items():
        bad2 = []
        for rule, site, d in bad:
            d = d if d is DF or d is DBOT else prune(d)
            bad2.append((rule, site, d))
        res2[order] = bad2
    best = min(res2.values(), key=lambda b: sum(1 for x in b if x[2] is not DF))
    for rule, site, d in best:
        c.ob(rule, "%s %s" % (path, site), d is DF or d is DBOT, "violated when %s" % show_dd(d)[:300])
    # finished node
    c2, i2, j2, sp2, S2 = state(N)
    end = dand(sane, dand(over, neg(sp)))
    nxt = dand(sane, dand(over, dnot(neg(sp))))
    w(c, "ends-when-nothing-is-pending", path, dand(end, st), "the traversal goes on")
    w(c, "goes-on-with-pending-nodes", path, dand(nxt, dnot(st)), "the traversal ends early")
    topn = rd(E, S, sp)
    w(c, "next-node-is-the-top-of-the-stack", path,
      dand(nxt, dnot(dand(ieq(c2, topn), dand(ieq(sp2, off(sp, -1)), ieq(i2, leaf(ZERO)))))), "another node or lane is visited")
    w(c, "cursor-stays-clear", path + " next node", dand(nxt, dnot(dor(ieq(j2, j), ieq(j2, leaf(ZERO))))), "cursor moves")
    fn = "mbvh_node::MbvhNode::" + ("intersect4" if kind == "packet" else "intersect")
    ray = get(E, H, "ray")
    keep = dict(E.mem)
    h = E.call_body(body(p, fn), [E.index_ref(nodes, (), topn), ray])
    E.mem = keep
    h2 = get(E, N, "hit")
    for k in range(4):
        w(c, "hits-belong-to-the-node", "%s result[%d]" % (path, k), dand(nxt, dxor(get(E, h2, "result", k), get(E, h, "result", k))), "lane differs")
        w(c, "hits-belong-to-the-node", "%s ids[%d]" % (path, k), dand(nxt, dnot(ieq(get(E, h2, "ids", k), get(E, h, "ids", k)))), "lane differs")
    same_hit(dand(st, dand(sane, dnot(over))), N)
    keeps(dand(st, dand(sane, dnot(over))), N, sp)
    keeps(dand(st, nxt), N, off(sp, -1))
    for gx, rv, v in s.outs:
        gy = dand(gx, is_some(rv))
        if gy is DF:
            continue
        same_hit(dand(gy, sane), v)
        keeps(dand(gy, sane), v, sp)
        c.ob("yields-the-ray", path, get(E, rv.vs[1][0], 1) is ray, "yields %s" % show_dd(get(E, rv.vs[1][0], 1)))
    w(c, "ends-without-nodes", path, dand(dnot(inside), dand(st, dnot(neg(cur)))), "the traversal goes on without a node")
    for f in ("nodes", "indices", "ray") + (("primitives",) if prims else ()):
        for nm, v in [("round", N)] + [("return", o[2]) for o in s.outs]:
            c.ob("inputs-are-kept", "%s %s (%s)" % (path, f, nm), get(E, v, f) is get(E, H, f), "%s changes" % f)
    c.count("iterators")


def permutation(c, p, fn):
    """the lane order stored with the hits names every lane exactly once"""
    path = "mbvh_node::MbvhNode::" + fn
    E, r = run_as(p, path, ["node", "ray"])
    c.fn(path)
    ids = [get(E, r, "ids", k) for k in range(4)]
    for k in range(4):
        w(c, "lane-order-in-range", "%s ids[%d]" % (path, k), dor(neg(ids[k]), dnot(ilt(ids[k], leaf(const(4))))), "lane out of range")
        for l in range(k):
            w(c, "lane-order-is-a-permutation", "%s ids[%d] ids[%d]" % (path, l, k), ieq(ids[k], ids[l]), "a lane is named twice")


def run(c):
    p = c.prog()
    for ty, (kind, prims) in ITERS.items():
        c.guard("next", ty, lambda: transition(c, p, ty))
        for bi, path in c02.makers(p, ty):
            c.guard("start", path, lambda: c02.start(c, p, ty, bi, path, True, prims))
    for fn in ("intersect", "intersect4"):
        c.guard("lane-order", fn, lambda: permutation(c, p, fn))
    c.floor("iterators", 4)
    c.floor("entry points", 16)
