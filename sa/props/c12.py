"""C12: turning a binary tree into a wide one keeps every leaf, once, under a box that contains it."""
from common import *
from c02 import neg, ilt, ieq, off, w, ref_field
from c03 import differ

EXPLAIN = ("One step of the collapse is reduced, for a symbolic binary node, to the contents of the wide node it fills and the recursive "
           "calls it makes. The frontier of a node is its two children with inner children replaced by their own two. Rules: every "
           "frontier leaf is in exactly one lane with its range and a box containing its box, every inner frontier node is a lane with "
           "a fresh wide node index for which the collapse is invoked with that node, no other lane is alive, no other wide node is "
           "written. The constructors must start the collapse at the root with a pool of fresh wide nodes that is large enough, keep "
           "the wide nodes it produced and copy nodes and indices; trees of at most four nodes may instead be copied lane by lane.")
ASSUME = ["parent boxes contain child boxes", "well-formed binary tree; a lone leaf root starts at index 0 and is followed by an unused node or none"]
PATH = "mbvh_node::MbvhNode::merge_nodes"
AX = "xyz"


def bare(x):
    """max(-1, t) is t for the values it is compared with here (ranges of leaves and indices of nodes are not negative)"""
    t = single(x) if x.op == "poly" else None
    if t is not None and t.op == "max" and len(t.a) == 2:
        for i in (0, 1):
            if is_const(t.a[i]) and cval(t.a[i]) <= 0:
                return t.a[1 - i]
    return x


def same(a, b):
    return apply(None, lambda x, y: TRUE if x is y or bare(x) is bare(y) else FALSE, a, b)


class Nodes:
    def __init__(self, E, pool):
        self.E, self.pool = E, pool

    def at(self, i):
        n = elem_at(self.E, self.pool, i)
        self.n = n
        return n

    def lf(self, i):
        return get(self.E, self.at(i), "bounds", "extra2")

    def cnt(self, i):
        return get(self.E, self.at(i), "bounds", "extra1")

    def leaf(self, i):
        return dnot(neg(self.cnt(i)))

    def box(self, i):
        n = self.at(i)
        return [get(self.E, n, "bounds", s, k) for s in ("min", "max") for k in range(3)]


def lanebox(E, n, k):
    return [get(E, n, "%s_%s" % (s, a), k) for s in ("min", "max") for a in AX]


def boxes_same(a, b):
    c = DT
    for x, y in zip(a, b):
        c = dand(c, same(x, y))
    return c


def frontier(B, ok, cur, n, items):
    """assumptions about a well-formed inner node; its frontier as (name, when, node, ancestors whose box contains it)"""
    L = B.lf(cur)
    R = off(L, 1)
    inner = dand(ok, dand(dnot(B.leaf(cur)), dand(dnot(neg(L)), ilt(R, n))))
    for ch in (L, R):
        a = B.lf(ch)
        inner = dand(inner, dnot(neg(a)))
        inner = dand(inner, dor(B.leaf(ch), dand(ilt(off(a, 1), n), dand(dnot(neg(B.lf(a))), dnot(neg(B.lf(off(a, 1))))))))
    for nm, ch in (("left", L), ("right", R)):
        items.append((nm, dand(inner, B.leaf(ch)), ch, [ch, cur]))
        a = B.lf(ch)
        for nm2, g2 in (("left", a), ("right", off(a, 1))):
            items.append(("%s.%s" % (nm, nm2), dand(inner, dnot(B.leaf(ch))), g2, [g2, ch, cur]))
    return inner


def step(c, p, alone=False):
    calls = []
    path = PATH + (" of a lone leaf" if alone else "")

    def setup(E, a):
        if alone:
            a[1] = leaf(ZERO)
            lf = field(E, "bvh_node::BvhNode", "bounds") + field(E, "aabb::Aabb", "extra2")
            E.store(E.index_ref(a[2], (), leaf(ZERO)), lf, leaf(ZERO))

    def h(x):
        E = x.E
        n, cur = x.vals[0], x.vals[1]
        ptr = E.load(x.vals[4])
        calls.append((E.guard, n, cur, ptr, x.vals[2], x.vals[3]))
        g = mk("v", "grown%d" % len(calls))
        INT_LO[g] = Fraction(0)
        E.store(x.vals[4], (), apply(None, lambda t: padd(t, atom(g)), ptr))
        return x.E.make(x.dty, mk("unit"))

    E, r = run_as(p, PATH, ["m", "cur", "pool", "mpool", "ptr"], hooks={"rec:" + PATH: h}, setup=setup)
    c.fn(PATH)
    m, cur, pool, mp, ptr = E.args
    B = Nodes(E, pool)
    n = length(E, pool)
    ptr0 = pre_load(E, ptr)
    # the state before
    mem = E.mem
    E.mem = {}
    m0 = elem_at(E, mp, m)
    fresh0 = DT
    for k in range(4):
        for f in ("children", "counts"):
            fresh0 = dand(fresh0, ieq(get(E, m0, f, k), leaf(const(-1))))
    E.mem = mem
    ok = dand(fresh0, dand(ilt(m, ptr0), dand(ilt(m, length(E, mp)), dnot(neg(m)))))
    items = []
    if alone:
        one = leaf(ONE)
        unused = dor(ieq(n, one), dand(ieq(B.cnt(one), leaf(ZERO)), dnot(neg(B.lf(one)))))
        inner = dand(ok, dand(B.leaf(cur), dand(unused, dnot(ilt(n, one)))))
        items.append(("lone root", inner, cur, [cur]))
    else:
        inner = frontier(B, ok, cur, n, items)
    after = elem_at(E, mp, m)
    lanes = []
    for k in range(4):
        lanes.append((get(E, after, "children", k), get(E, after, "counts", k), lanebox(E, after, k)))
    matches = {}
    callmatch = [DF] * len(calls)
    for nm, g, f, up in items:
        lf0, cn = B.lf(f), B.cnt(f)
        ms = []
        for k, (ch, co, bx) in enumerate(lanes):
            box = DF
            for u in up:
                box = dor(box, boxes_same(bx, B.box(u)))
            isl = dand(B.leaf(f), dand(same(ch, lf0), same(co, cn)))
            isn = DF
            for q, (gc, nn, fc, pc, pl, ml) in enumerate(calls):
                t = dand(gc, dand(same(nn, ch), same(fc, f)))
                callmatch[q] = dor(callmatch[q], dand(g, dand(dand(t, neg(co)), dnot(B.leaf(f)))))
                isn = dor(isn, t)
            isn = dand(dnot(B.leaf(f)), dand(neg(co), isn))
            ms.append(dand(box, dor(isl, isn)))
        matches[nm] = ms
        some = DF
        for x in ms:
            some = dor(some, x)
        w(c, "every-frontier-node-has-a-lane", "%s %s" % (path, nm), dand(g, dnot(some)), "lost")
        for k in range(4):
            for l in range(k):
                w(c, "one-lane-per-frontier-node", "%s %s lanes %d %d" % (path, nm, l, k), dand(g, dand(ms[k], ms[l])), "twice")
    for k, (ch, co, bx) in enumerate(lanes):
        alive = dand(dnot(neg(ch)), dnot(ieq(co, leaf(ZERO))))
        some = DF
        for nm, g, f, up in items:
            some = dor(some, dand(g, matches[nm][k]))
        w(c, "no-other-lane-is-alive", "%s lane %d" % (path, k), dand(dand(inner, alive), dnot(some)), "unknown lane")
    last = ptr0
    prev = DF
    for q, (gc, nn, fc, pc, pl, ml) in enumerate(calls):
        site = "%s recursion %d" % (path, q)
        w(c, "recursion-is-for-a-lane", site, dand(dand(gc, inner), dnot(callmatch[q])), "the result is not used by a lane")
        w(c, "fresh-wide-node", site, dand(dand(gc, ok), dor(ilt(nn, ptr0), dnot(ilt(nn, pc)))), "index is not fresh")
        for q2 in range(q):
            w(c, "fresh-wide-node", "%s vs %d" % (site, q2), dand(dand(gc, dand(ok, calls[q2][0])), ilt(nn, calls[q2][3])), "index is used twice")
        c.ob("recursion-on-the-same-trees", site, pl is pool and ml is mp, "other arrays")
    if alone:
        w(c, "no-recursion-for-a-lone-leaf", path, dand(inner, anyof(x[0] for x in calls)), "recursion")
    w(c, "pool-counter-grows", path, dand(ok, ilt(E.load(ptr), ptr0)), "counter shrinks")
    j = mk("v", "other")
    INT_LO[j] = Fraction(0)
    j = atom(j)
    mem = E.mem
    E.mem = {}
    old = elem_at(E, mp, j)
    E.mem = mem
    new = elem_at(E, mp, j)
    oth = dand(ok, dnot(ieq(leaf(j), m)))
    for f in ("children", "counts") + tuple("%s_%s" % (s, a) for s in ("min", "max") for a in AX):
        x = DF
        for k in range(4):
            x = dor(x, differ(get(E, old, f, k), get(E, new, f, k)))
        w(c, "other-wide-nodes-are-kept", "%s %s" % (path, f), dand(oth, x), "changes")
    for wc, k, fn, ln in panics(E):
        if k == "diverge" or k == "unwrap":
            w(c, "no-panic-on-a-well-formed-tree", "%s (%s)" % (path, k), dand(inner, wc), "panics")
    c.count("collapse steps")


def anyof(xs):
    r = DF
    for x in xs:
        r = dor(r, x)
    return r


def pre_load(E, ref):
    m = E.mem
    E.mem = {}
    try:
        return E.load(ref)
    finally:
        E.mem = m


def top(c, p, path, names, n=None, empty_ok=False):
    """constructors: n = None for a large symbolic tree, else the exact number of nodes"""
    calls = []
    site = "%s (%s)" % (path, "many nodes" if n is None else "%d nodes" % n)
    marker = leaf(const(777))

    def hook(x):
        E = x.E
        E.log("merge", x.vals)
        mp = x.vals[3]
        q = atom(mk("v", "probe"))
        calls.append((E.guard, x.vals, E.load(x.vals[4]), length(E, mp), elem_at(E, mp, q)))
        g = mk("v", "grown")
        INT_LO[g] = Fraction(0)
        E.store(E.index_ref(mp, (), leaf(q)), field(E, "mbvh_node::MbvhNode", "children") + (("i", ZERO),), marker)
        E.store(x.vals[4], (), apply(None, lambda t: padd(t, atom(g)), calls[-1][2]))
        return E.make(x.dty, mk("unit"))

    q = mk("v", "probe")
    INT_LO[q] = Fraction(0)
    lens = {}

    def setup(E, a):
        if names[0] == "bvh":
            s = E.slice_of(ref_field(E, a[0], "nodes"))
            ln = lf(length(E, s))
            at = single(ln)
            if n is None:
                INT_LO[at] = Fraction(5)
            lens["nodes"], lens["n"] = s, ln
        else:
            s = a[0]
            if n is None:
                INT_LO[single(s.leaf.a[3])] = Fraction(5)
            else:
                l = s.leaf
                a[0] = leaf(mk("sref", l.a[0], l.a[1], l.a[2], const(n)))
            lens["nodes"], lens["n"] = a[0], a[0].leaf.a[3]

    E, r = run_as(p, path, names, hooks={PATH: hook}, setup=setup)
    c.fn(path)
    nodes, ln = lens["nodes"], lens["n"]
    f = fields(E, r)
    wide = f["m_nodes"]
    # the given arrays are kept
    i = mk("v", "i")
    INT_LO[i] = Fraction(0)
    i = atom(i)
    c.ob("keeps-the-binary-nodes", site, length(E, f["nodes"]) is leaf(ln), "%s nodes" % show_dd(length(E, f["nodes"])))
    for part, keys in (("min", range(3)), ("max", range(3)), ("extra1", [None]), ("extra2", [None])):
        for k in keys:
            sel = ["bounds", part] + ([k] if k is not None else [])
            a, b = get(E, elem_at(E, f["nodes"], i), *sel), get(E, elem_at(E, nodes, i), *sel)
            c.ob("keeps-the-binary-nodes", "%s %s %s" % (site, part, k), same_under(ilt(leaf(i), leaf(ln)), a, b), "node differs")
    src = E.slice_of(ref_field(E, E.args[0], "prim_indices")) if names[0] == "bvh" else E.args[1]
    c.ob("keeps-the-indices", site, length(E, f["prim_indices"]) is length(E, src), "other length")
    c.ob("keeps-the-indices", site + " values", elem_at(E, f["prim_indices"], i) is elem_at(E, src, i), "index differs")
    if calls:
        c.ob("collapses-once", site, len(calls) == 1, "%d times" % len(calls))
        g, v, ptr, mlen, el = calls[0]
        if not c.ob("always-collapses", site, g is DT, "only when %s" % show_dd(g)[:200]):
            return
        c.ob("starts-at-the-root", site, v[0] is leaf(ZERO) and v[1] is leaf(ZERO), "starts at %s, %s" % (show_dd(v[0]), show_dd(v[1])))
        c.ob("collapses-the-given-tree", site, v[2] is nodes or E.slice_of(v[2]) is nodes, "another tree")
        c.ob("next-free-is-one", site, ptr is leaf(ONE), "is %s" % show_dd(ptr))
        c.ob("pool-is-large-enough", site, prune(ilt(mlen, leaf(ln))) is DF, "%s wide nodes" % show_dd(mlen))
        fresh_node(c, E, site, el, dand(ilt(leaf(atom(q)), mlen), DT))
        end = apply(None, lambda t: padd(t, atom(mk("v", "grown"))), ptr)
        wl = length(E, wide)
        fits = dnot(ilt(mlen, end))
        w(c, "keeps-all-wide-nodes", site, dand(fits, ilt(wl, end)), "some are cut off")
        x = get(E, elem_at(E, wide, atom(q)), "children", 0)
        c.ob("keeps-all-wide-nodes", site + " contents", same_under(dand(ilt(leaf(atom(q)), mlen), ilt(leaf(atom(q)), end)), x, marker), "is %s" % show_dd(x)[:200])
    elif n is not None:
        # every node is a lane of the root
        root = elem_at(E, wide, ZERO)
        B = Nodes(E, nodes)
        for k in range(4):
            ch, co, bx = get(E, root, "children", k), get(E, root, "counts", k), lanebox(E, root, k)
            if k < n:
                kk = leaf(const(k))
                c.ob("lane-is-the-node", "%s lane %d" % (site, k), ch is B.lf(kk) and co is B.cnt(kk) and boxes_same(bx, B.box(kk)) is DT,
                     "lane is %s, %s" % (show_dd(ch), show_dd(co)))
            else:
                c.ob("other-lanes-are-dead", "%s lane %d" % (site, k), dor(neg(ch), ieq(co, leaf(ZERO))) is DT, "lane %d is alive" % k)
        el = elem_at(E, wide, atom(q))
        fresh_node(c, E, site, el, dand(ilt(leaf(atom(q)), length(E, wide)), dnot(ilt(leaf(atom(q)), leaf(ONE)))))
        w(c, "inner-lanes-stay-in-range", site, ilt(length(E, wide), leaf(ln)), "too few wide nodes")
    else:
        c.ob("always-collapses", site, False, "never")
    c.count("constructors")


def fresh_node(c, E, site, el, under):
    for f in ("children", "counts"):
        for k in range(4):
            x = get(E, el, f, k)
            c.ob("wide-nodes-start-dead", "%s %s[%d]" % (site, f, k), same_under(under, x, leaf(const(-1))), "is %s" % show_dd(x)[:200])


def field(E, path, name):
    for i, t in enumerate(E.types):
        if t["k"] == "adt" and t["path"] == path:
            fs = t["vs"][0]["f"]
            k = [f[0] for f in fs].index(name)
            return (("f", k, fs[k][1]),)
    raise Missing(path)


def empty(c, p):
    path = "bvh::Mbvh::construct"
    lens = {}

    def setup(E, a):
        s = E.slice_of(ref_field(E, a[0], "nodes"))
        INT_HI[single(lf(length(E, s)))] = Fraction(0)
    hooks = {PATH: lambda x: (x.E.log("merge", x.vals), x.E.make(x.dty, mk("unit")))[1]}
    E, r = run_as(p, path, ["empty_bvh"], hooks=hooks, setup=setup)
    c.ob("empty-tree-is-not-collapsed", path, not any(e[1] == "merge" for e in E.events), "the root of an empty tree is collapsed")
    c.ob("empty-tree-stays-empty", path, length(E, fields(E, r)["m_nodes"]) is leaf(ZERO), "%s wide nodes without a tree" % show_dd(length(E, fields(E, r)["m_nodes"]))[:200])
    c.ob("empty-tree-does-not-panic", path, not panics(E), "panics")


def run(c):
    p = c.prog()
    c.guard("collapse", PATH, lambda: step(c, p))
    c.guard("collapse", PATH + " of a lone leaf", lambda: step(c, p, True))
    c.guard("construct", "Mbvh::construct", lambda: top(c, p, "bvh::Mbvh::construct", ["bvh"]))
    c.guard("construct", "Mbvh::construct_from_raw", lambda: top(c, p, "bvh::Mbvh::construct_from_raw", ["nodes", "indices"]))
    for n in (1, 2, 3, 4):
        c.guard("construct", "Mbvh::construct_from_raw %d" % n, lambda: top(c, p, "bvh::Mbvh::construct_from_raw", ["nodes", "indices"], n))
    c.guard("empty", "Mbvh::construct", lambda: empty(c, p))
    c.floor("collapse steps", 2)
    c.floor("constructors", 6)
