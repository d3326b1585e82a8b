"""C02: traversing a binary tree yields exactly the primitives of the leaves whose boxes are hit."""
from common import *

EXPLAIN = ("Each binary iterator's next() is reduced to the transition of its only loop on (cursor, stack, stack pointer). Rules, "
           "for a symbolic stack, node array and ray: no round or return loses or invents pending work - a leaf round yields the "
           "primitive at the cursor and advances it (skipping ids without a primitive), a finished leaf is popped and the cursor "
           "cleared, an interior round replaces the node by exactly those children whose box test hits; the end is reported "
           "exactly when the stack is empty. The constructors must start with the root alone on the stack unless the input is "
           "empty or the ray is not a number, and every public entry point must build such an iterator from its arguments.")
ASSUME = ["well-formed tree (children and ranges in bounds)", "the traversal stack behaves like an unbounded array (decided by C04)",
          "box tests are those of C01"]

ITERS = {"BvhIterator": ("iter::", "ray", True), "BvhPacketIterator": ("iter::", "packet", True),
         "BvhIndexIterator": ("iter_indices::", "ray", False), "BvhPacketIndexIterator": ("iter_indices::", "packet", False)}


def short(path):
    import re
    return re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", path.split(" as ")[0])).replace("<", "").replace("::::", "::").rstrip(":")


def find(p, ty, fn):
    """identity body of method `fn` of the iterator type"""
    out = []
    for b in p["bodies"]:
        if b["identity"] and b["path"].endswith("::" + fn):
            x = b["path"][:-len(fn) - 2]
            if x.endswith(">") and x.startswith("<"):
                x = x[1:-1].split(" as ")[0]
            x = x.split("<")[0].rstrip(":")
            if x.rsplit("::", 1)[-1] == ty:
                out.append(b["path"])
    if not out:
        raise Missing("%s::%s" % (ty, fn))
    return out[0]


def neg(x):
    return apply(None, lambda t: cmp_lt(t, ZERO, False), x)


def ilt(a, b):
    return apply(None, lambda x, y: cmp_lt(x, y, False), a, b)


def ieq(a, b):
    return apply(None, lambda x, y: cmp_eq(x, y, False), a, b)


def off(x, n):
    return apply(None, lambda t: padd(t, const(n)), x)


def w(c, rule, site, cond, detail=""):
    """cond must be impossible"""
    d = cond if cond is DF or cond is DBOT else prune(cond)
    return c.ob(rule, site, d is DF or d is DBOT, "%s when %s" % (detail, show_dd(d)[:300]))


def transition(c, p, ty):
    path = find(p, ty, "next")
    kind, prims = ITERS[ty][1:]
    E, r, s = prog.rounds(p, path, ["it"])
    c.fn(path)
    H, N = s.head, s.next
    sp, i, S = get(E, H, "stack_ptr"), get(E, H, "i"), E.expand(get(E, H, "stack")).arr
    nodes, idx = get(E, H, "nodes"), get(E, H, "indices")
    E.mem = s.headmem
    top = rd(E, S, sp)
    nd = elem_at(E, nodes, top)
    cnt, lf0 = get(E, nd, "bounds", "extra1"), get(E, nd, "bounds", "extra2")
    empty = neg(sp)
    isleaf = dnot(neg(cnt))
    work = dand(dnot(empty), dand(isleaf, ilt(i, cnt)))
    done = dand(dnot(empty), dand(isleaf, dnot(ilt(i, cnt))))
    inter = dand(dnot(empty), dand(dnot(isleaf), dnot(neg(lf0))))
    dead = dand(dnot(empty), dand(dnot(isleaf), neg(lf0)))
    pos = apply(None, padd, lf0, i)
    pid = elem_at(E, idx, pos)
    miss = DF
    if prims:
        pr = get(E, H, "primitives")
        miss = dnot(ilt(pid, length(E, pr)))
    # pops, pushes
    q = mk("v", "depth")
    INT_LO[q] = Fraction(0)
    q = leaf(atom(q))

    def state(st):
        return get(E, st, "stack_ptr"), get(E, st, "i"), E.expand(get(E, st, "stack")).arr

    def keeps(rule, g, st, upto, detail):
        """stack entries 0..upto of the header are still there"""
        sp2, i2, S2 = state(st)
        low = dand(g, ilt(q, off(upto, 1)))
        x = apply(None, lambda a, b: FALSE if a is b else TRUE, rd(E, S2, q), rd(E, S, q))
        w(c, rule, path, dand(low, x), detail)

    def is_visit(g, st, what):
        """cursor advanced by one on the same top, or the leaf was popped after its last primitive"""
        sp2, i2, S2 = state(st)
        same = dand(ieq(sp2, sp), ieq(i2, off(i, 1)))
        popped = dand(dand(ieq(sp2, off(sp, -1)), ieq(i2, leaf(ZERO))), dnot(ilt(off(i, 1), cnt)))
        w(c, "cursor-advances-by-one", "%s %s" % (path, what), dand(g, dnot(dor(same, popped))), "cursor or stack pointer is wrong")
        keeps("stack-is-kept", g, st, sp2, "a pending node is overwritten")

    # --- returns
    ends = DF
    yields = DF
    for g, rv, st in s.outs:
        some = is_some(rv)
        ends = dor(ends, dand(g, dnot(some)))
        gy = dand(g, some)
        yields = dor(yields, gy)
        if gy is DF:
            continue
        it = rv.vs[1][0]
        what, ray = get(E, it, 0), get(E, it, 1)
        want = pid
        if prims:
            want = E.index_ref(pr, (), pid)
        x = apply(None, lambda a, b: FALSE if a is b else TRUE, what, want)
        w(c, "yields-the-primitive-at-the-cursor", path, dand(dand(gy, dand(work, dnot(miss))), x), "yields something else")
        c.ob("yields-the-ray", path, ray is get(E, H, "ray"), "yields %s" % show_dd(ray))
        is_visit(gy, st, "on return")
    w(c, "ends-only-when-nothing-is-pending", path, dand(ends, dnot(empty)), "the traversal ends early")
    w(c, "ends-when-nothing-is-pending", path, dand(empty, dnot(ends)), "the traversal goes on")
    w(c, "yields-every-primitive-of-a-leaf", path, dand(dand(work, dnot(miss)), dnot(yields)), "a primitive is skipped")
    w(c, "yields-only-primitives-of-the-leaf", path, dand(yields, dnot(dand(work, dnot(miss)))), "yields without a primitive")
    # --- rounds
    sp2, i2, S2 = state(N)
    st = s.stay
    is_visit(dand(st, work), N, "on a skipped id") if dand(st, work) is not DF else None
    g = dand(st, dor(done, dead))
    w(c, "finished-leaf-is-popped", path, dand(g, dnot(ieq(sp2, off(sp, -1)))), "stack pointer is wrong")
    w(c, "cursor-restarts", path, dand(dand(st, done), dnot(ieq(i2, leaf(ZERO)))), "cursor is not cleared")
    g = dand(st, inter)
    w(c, "interior-continues", path, dand(inter, dnot(st)), "an interior node ends the traversal")
    w(c, "cursor-stays-clear", path, dand(g, dnot(dor(ieq(i2, i), ieq(i2, leaf(ZERO))))), "an interior node moves the cursor")
    keeps("stack-is-kept", dand(st, dnot(work)), N, off(sp, -1), "a pending node is overwritten")
    # children
    ray = get(E, H, "ray")
    fn = "bvh_node::BvhNode::" + ("intersect4" if kind == "packet" else "intersect")
    bi = body(p, fn)
    hits = []
    for k in (0, 1):
        E2mem = dict(E.mem)
        h = E.call_body(bi, [E.index_ref(nodes, (), off(lf0, k)), ray])
        E.mem = E2mem
        hits.append(is_some(h))
    L, R = hits
    a, b = rd(E, S2, sp), rd(E, S2, off(sp, 1))
    l, rr = lf0, off(lf0, 1)
    both = dor(dand(ieq(a, l), ieq(b, rr)), dand(ieq(a, rr), ieq(b, l)))
    for nm, cond, ok in (("both", dand(L, R), dand(ieq(sp2, off(sp, 1)), both)),
                         ("left", dand(L, dnot(R)), dand(ieq(sp2, sp), ieq(a, l))),
                         ("right", dand(R, dnot(L)), dand(ieq(sp2, sp), ieq(a, rr))),
                         ("none", dand(dnot(L), dnot(R)), ieq(sp2, off(sp, -1)))):
        w(c, "pushes-exactly-the-hit-children", "%s, %s hit" % (path, nm), dand(dand(g, cond), dnot(ok)), "wrong children are pending")
    # untouched parts
    for f in ("nodes", "indices", "ray") + (("primitives",) if prims else ()):
        for nm, v in [("round", N)] + [("return", o[2]) for o in s.outs]:
            c.ob("inputs-are-kept", "%s %s (%s)" % (path, f, nm), get(E, v, f) is get(E, H, f), "%s changes" % f)
    c.count("iterators")


def args_by_type(E):
    """role -> argument, told by its type"""
    T = E.types
    out = {}
    b = E.bodies[E.entry]
    for a, t in zip(E.args, b["locals"][1:1 + b["argc"]]):
        k = T[t]
        e = T[k["e"]] if k.get("e") is not None else k
        n = e.get("path", "")
        if e["k"] == "slice":
            x = T[e["e"]]
            role = {"bvh_node::BvhNode": "nodes", "mbvh_node::MbvhNode": "nodes"}.get(x.get("path")) or (
                "indices" if x["n"] == "u32" else "primitives")
        else:
            role = {"bvh::Bvh": "tree", "bvh::Mbvh": "tree", "ray::Ray": "ray", "ray::RayPacket4": "ray"}.get(n)
        if role is None or role in out:
            raise Unknown("argument of type %s" % e.get("n"))
        out[role] = a
    return out


def makers(p, ty):
    """every function that hands out an iterator of this type"""
    out = []
    for i, b in enumerate(p["bodies"]):
        t = p["types"][b["locals"][0]]
        if b["identity"] and t["k"] == "adt" and t["path"].rsplit("::", 1)[-1] == ty:
            out.append((i, b["path"]))
    seen = set()
    return [x for x in out if not (x[1] in seen or seen.add(x[1]))]


def ray_fields(E, ray):
    v = E.expand(fresh(E, ray))
    n = len(E.types[v.ty]["vs"][0]["f"])
    names = [f[0] for f in E.types[v.ty]["vs"][0]["f"]]
    return [n for n in names if n.startswith("origin") or n.startswith("direction")]


def not_nan(E, ray):
    c = DT
    for n in ray_fields(E, ray):
        for x in fresh(E, pre(E, ray, n)).fs:
            c = dand(c, dnot(M.dnan(x)))
    return c


def start(c, p, ty, bi, path, wide, prims):
    E = Engine(p)
    b = E.bodies[bi]
    E.entry = bi
    E.args = [E.make(b["locals"][i + 1], mk("v", "arg%d" % i)) for i in range(b["argc"])]
    r = E.call_body(bi, E.args)
    c.fn(path)
    a = args_by_type(E)
    want = {"ray": a["ray"]}
    if "tree" in a:
        f = fields(E, a["tree"])
        want["nodes"] = E.slice_of(ref_field(E, a["tree"], "m_nodes" if wide else "nodes"))
        want["indices"] = E.slice_of(ref_field(E, a["tree"], "prim_indices"))
    else:
        want["nodes"], want["indices"] = a["nodes"], a["indices"]
    if prims:
        want["primitives"] = a["primitives"]
    for k, v in want.items():
        g = get(E, r, k)
        c.ob("starts-with-the-given", "%s %s" % (path, k), g is v, "is %s, not %s" % (show_dd(g)[:100], show_dd(v)[:100]))
    n = length(E, want["nodes"])
    some = dnot(ilt(n, leaf(ONE)))
    sp = get(E, r, "stack_ptr")
    c.ob("starts-at-the-beginning", "%s cursor" % path, get(E, r, "i") is leaf(ZERO), "cursor is %s" % show_dd(get(E, r, "i")))
    if not wide:
        need = dand(some, not_nan(E, a["ray"]))
        if prims:
            need = dand(need, dnot(ilt(length(E, a["primitives"]), leaf(ONE))))
        st = E.expand(get(E, r, "stack")).arr
        root = ieq(rd(E, st, leaf(ZERO)), leaf(ZERO))
        w(c, "starts-at-the-root", path, dand(need, dnot(dand(ieq(sp, leaf(ZERO)), root))), "the root is not visited")
        w(c, "starts-empty-without-nodes", path, dand(dnot(some), dnot(neg(sp))), "a node is visited")
        w(c, "starts-empty-without-a-direction", path, dand(dnot(not_nan(E, a["ray"])), dnot(neg(sp))), "a ray with NaN visits a node")
        w(c, "starts-at-the-root-only", path, dnot(dor(neg(sp), dand(ieq(sp, leaf(ZERO)), root))), "starts elsewhere")
    else:
        for f in ("current", "j"):
            c.ob("starts-at-the-beginning", "%s %s" % (path, f), get(E, r, f) is leaf(ZERO), "is %s" % show_dd(get(E, r, f)))
        c.ob("starts-without-pending-nodes", path, neg(sp) is DT, "stack pointer is %s" % show_dd(sp))
        fn = "mbvh_node::MbvhNode::" + ("intersect4" if "Packet" in ty else "intersect")
        h = E.call_body(body(p, fn), [E.index_ref(want["nodes"], (), leaf(ZERO)), a["ray"]])
        hit = get(E, r, "hit")
        for f in ("ids", "result"):
            for k in range(4):
                c.ob("starts-with-the-hits-of-the-root", "%s %s[%d]" % (path, f, k),
                     same_under(some, get(E, hit, f, k), get(E, h, f, k)), "other lanes are visited")
    c.count("entry points")


def ref_field(E, ref, name):
    t = E.types[fresh(E, ref).ty]
    fs = [f[0] for f in t["vs"][0]["f"]]
    if name not in fs:
        raise Missing("field %s of %s" % (name, t["path"]))
    k = fs.index(name)
    l = lf(ref)
    return leaf(mk("ref", l.a[0], l.a[1] + (("f", k, t["vs"][0]["f"][k][1]),)))


def run(c):
    p = c.prog()
    for ty, (_, _, prims) in ITERS.items():
        c.guard("next", ty, lambda: transition(c, p, ty))
        for bi, path in makers(p, ty):
            c.guard("start", path, lambda: start(c, p, ty, bi, path, False, prims))
    c.floor("iterators", 4)
    c.floor("entry points", 16)
