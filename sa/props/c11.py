"""C11: refitting updates every box bottom-up and keeps the tree."""
from common import *

EXPLAIN = ("The refit loop is summarised by its state transition on the node array.  With H the array before an iteration and "
           "N after it, the rules are: the k-th iteration rewrites exactly node n-1-k (so children, which builders place after "
           "their parents, come first); N's box there is below/above the boxes of both children in H, respectively below/above "
           "the fold over all referenced primitives' new boxes, by at most a small padding; count and left_first are kept; "
           "every other node, the primitive indices and the build type are kept.")
ASSUME = ["children are stored after their parent (decided for the builders by C28)", "boxes within +-1e30"]
PATH = "bvh::Bvh::refit"
PAD = 0.01


def strip(v):
    """drop the huge constants an empty box starts from"""
    t = single(v)
    if t is not None and t.op in ("min", "max"):
        xs = [x for x in t.a if not (is_const(x) and abs(cval(x)) >= 10 ** 30)]
        r = xs[0]
        for x in xs[1:]:
            r = (pmin if t.op == "min" else pmax)(r, x)
        return r
    if v.op == "poly" and len(v.a[0]) == 2:
        for m, co in v.a[0]:
            if len(m) == 1 and co == 1 and m[0][0].op in ("min", "max"):
                return padd(strip(atom(m[0][0])), psub(v, atom(m[0][0])))
    return v


def run(c):
    p = c.prog()
    c.guard("refit", PATH, lambda: go(c, p))
    c.floor("refit loops", 1)


def go(c, p):
    E, r = run_as(p, PATH, ["bvh", "boxes"])
    c.fn(PATH)
    bvh = E.args[0]
    nodes = pre(E, bvh, "nodes")
    n = length(E, nodes)
    found = []
    live = set(l for e in E.events for l in e[3])
    for lid, rec in E.loops.items():
        for key, info in rec.mus.items():
            if info[3] == "arr" and key[0].op == "deref" and lid in live:
                found.append((lid, rec, key))
    c.count("refit loops", len(found))
    if len(found) != 1:
        c.ob("one-pass-over-the-nodes", PATH, False, "%d loops write through the tree" % len(found))
        return
    lid, rec, key = found[0]
    H, N = rec.header[key], rec.next[key]
    k = atom(rec.k)
    j = psub(psub(lf(n), ONE), k)
    site = "%s node loop" % PATH
    c.ob("every-node-once-children-first", site, rec.trip is lf(n) and len(rec.exits) == 0,
         "runs %s times of %s" % (rec.trip and show(rec.trip), show_dd(n)))
    old, new = E.arr_read(H, j), E.arr_read(N, j)
    lfst, cnt = get(E, old, "bounds", "extra2"), get(E, old, "bounds", "extra1")
    valid = dnot(apply(None, lambda x: cmp_lt(x, ZERO, False), lfst))
    leafc = dnot(apply(None, lambda x: cmp_lt(x, ZERO, False), cnt))
    for f in ("extra1", "extra2"):
        c.ob("topology-is-kept", "%s %s" % (site, f), get(E, new, "bounds", f) is get(E, old, "bounds", f),
             "becomes %s" % show_dd(get(E, new, "bounds", f))[:200])
    q = mk("v", "q")
    INT_LO[q] = Fraction(0)
    q = atom(q)
    oth = dnot(cmp_eq(q, j, False))
    for f in ("min", "max", "extra1", "extra2"):
        sel = [(k,) for k in range(3)] if f in ("min", "max") else [()]
        aa = [get(E, E.arr_read(H, q), "bounds", f, *s) for s in sel]
        bb = [get(E, E.arr_read(N, q), "bounds", f, *s) for s in sel]
        c.ob("other-nodes-are-kept", "%s %s" % (site, f), all(same_under(oth, x, y) for x, y in zip(aa, bb)),
             "another node's %s changes" % f)
    prims = pre(E, bvh, "prim_indices")
    left, right = E.arr_read(H, lf(lfst)), E.arr_read(H, padd(lf(lfst), ONE))
    b = None
    for part, op in (("min", "min"), ("max", "max")):
        for a in range(3):
            v = get(E, new, "bounds", part, a)
            below = (lambda x, y: le(x, y)) if part == "min" else (lambda x, y: le(y, x))
            padding = leaf(const(Fraction(PAD))) if part == "min" else leaf(const(-Fraction(PAD)))
            # interior
            g = dand(valid, dnot(leafc))
            for nm, ch in (("left", left), ("right", right)):
                w = dand(g, dnot(below(v, get(E, ch, "bounds", part, a))))
                c.ob("contains-children", "%s %s %s[%d]" % (site, nm, part, a), w is DF,
                     "does not cover the %s child: %s" % (nm, show_dd(w)[:300]))
            u = apply(op, pmin if op == "min" else pmax, get(E, left, "bounds", part, a), get(E, right, "bounds", part, a))
            s = apply(None, strip, v)
            w = dand(g, dnot(below(sub(u, padding), s)))
            c.ob("not-larger-than-children", "%s %s[%d]" % (site, part, a), w is DF, "too large: %s" % show_dd(w)[:300])
            # leaf
            g = dand(valid, leafc)
            bv = mk("b", 1)
            INT_LO[bv] = Fraction(0)
            pid = elem_at(E, prims, padd(lf(lfst), atom(bv)))
            box = elem_at(E, E.args[1], lf(pid))
            body = get(E, box, part, a)
            req = leaf(atom(mk("fold", op, lf(cnt), bv, body)))
            w = dand(g, dnot(below(v, req)))
            c.ob("contains-primitives", "%s %s[%d]" % (site, part, a), w is DF,
                 "does not cover the primitives: %s" % show_dd(restrict(v, g))[:400])
            w = dand(g, dnot(below(sub(req, padding), s)))
            c.ob("not-larger-than-primitives", "%s %s[%d]" % (site, part, a), w is DF, "too large: %s" % show_dd(w)[:300])
    for f in ("prim_indices", "build_type"):
        c.ob("indices-are-kept", "%s %s" % (PATH, f), get(E, bvh, f) is pre(E, bvh, f), "%s changes" % f)
    post = get(E, bvh, "nodes")
    c.ob("node-count-is-kept", PATH, length(E, post) is n, "%s nodes" % show_dd(length(E, post)))
