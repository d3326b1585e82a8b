"""C14: the C intersection functions run the right traversal and hand ray, hits and result codes through."""
from common import *
import c17

EXPLAIN = ("Each exported intersection function is reduced to its result, the ray and slices it gives to the traversal, and the round of its "
           "hit loop (next item, callback, leave or go on). Rules: result is Error for a null tree, Nan when a component is not a "
           "number, else Ok; on an error nothing is written and no callback runs; the traversal gets the ray or packet read from the "
           "caller's arrays with the caller's distances and the caller's node and index arrays with their counts; each item is passed to the callback once "
           "with the address of that ray's distance and the user pointer; the loop ends exactly at the end of the traversal or when the callback returns true; "
           "afterwards the caller's distances equal the ray's.")
ASSUME = ["the traversal's items carry the ray it was made with (C02, C03)", "pointers of the caller are valid for the documented lengths"]
FNS = {"intersect": ("BvhIndexIterator", False), "intersect_packet": ("BvhPacketIndexIterator", True),
       "intersect_mbvh": ("MbvhIndexIterator", False), "intersect_mbvh_packet": ("MbvhPacketIndexIterator", True)}
SINGLE = ["bvh", "origin", "direction", "t", "user", "cb"]
PACKET = ["bvh", "ox", "oy", "oz", "dx", "dy", "dz", "t", "user", "cb"]


def array_ptr(E, ptr, nm):
    """pointer to the first element of the caller's array `nm`"""
    reg = lf(ptr).a[0]
    ety = E.rty[reg]
    ln = mk("len", mk("v", nm))
    INT_LO[ln] = Fraction(0)
    E.caller_arrays = getattr(E, "caller_arrays", {})
    E.caller_arrays[reg] = E.mem[reg] = coll(leaf(atom(ln)), arr(mk("v", nm), ety))
    return leaf(mk("ref", reg, (("i", ZERO),)))


def unchanged(E, a, b):
    a = E.expand(a) if isinstance(a, Sym) else a
    b = E.expand(b) if isinstance(b, Sym) else b
    if isinstance(a, DD) or isinstance(b, DD):
        return a is b
    if isinstance(a, (Agg, Enum)) and type(a) is type(b):
        if isinstance(a, Enum):
            return a.disc is b.disc and len(a.vs) == len(b.vs)
        return len(a.fs) == len(b.fs) and all(unchanged(E, x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, Coll) and isinstance(b, Coll):
        return a.len is b.len and a.arr is b.arr
    return False


def lanes(E, ptr, n):
    return [E.load(E.ptr_add(ptr, leaf(const(k)))) for k in range(n)]


def prelanes(E, ptr, n):
    m = E.mem
    E.mem = dict(E.caller_arrays)
    try:
        return lanes(E, ptr, n)
    finally:
        E.mem = m


def one(c, p, fn, ity, packet):
    names = PACKET if packet else SINGLE
    n = 4 if packet else 1
    made, items, cbs = [], [], []
    mk_hooks = {}

    def from_slices(kind):
        def h(x):
            E = x.E
            made.append((E.guard, kind, x.vals, fresh(E, x.vals[0])))
            return E.make(x.dty, mk("v", "iter"))
        return h

    def nxt(kind):
        def h(x):
            E = x.E
            it = E.load(x.vals[0])
            if not made or made[-1][1] != kind:
                raise Unknown("advances another iterator")
            whole = unchanged(E, it, E.make(it.ty, mk("v", "iter")))
            idx = leaf(atom(mk("v", "index")))
            more = mk("v", "more")
            INT_LO[more], INT_HI[more] = Fraction(0), Fraction(1)
            o = enum(x.dty, leaf(atom(more)), [[], [agg(E.types[x.dty]["args"][0], [idx, made[-1][2][0]])]])
            items.append((E.guard, whole))
            return o
        return h
    for b in p["bodies"]:
        pa = b["path"]
        if pa.endswith("::from_slices") or (pa.endswith("as std::iter::Iterator>::next") and "Iterator<'a> as" in pa and pa.startswith("<rtbvh::")):
            kind = pa.replace("<'a>", "").replace("::from_slices", "").replace("<", "").split(" as ")[0].rstrip(":").rsplit("::", 1)[-1]
            mk_hooks[pa] = from_slices(kind) if pa.endswith("from_slices") else nxt(kind)

    def cb(name, vals, tys, dty):
        E = holder[0]
        ray = fresh(E, made[-1][2][0]) if made else None
        res = batom(mk("v", "stop"))
        cbs.append((E.guard, list(vals), ray, len(items)))
        # the callback may write the distances
        for k in range(n):
            q = atom(mk("v", "newt%d" % k))
            E.store(E.ptr_add(vals[1], leaf(const(k))), (), leaf(q))
        return res
    holder = []
    mk_hooks["value:cb"] = cb

    def setup(E, a):
        holder.append(E)
        for i, nm in enumerate(names):
            if nm not in ("bvh", "user", "cb"):
                a[i] = array_ptr(E, a[i], nm)
    E, r = run_as(p, fn, names, hooks=mk_hooks, setup=setup, raw_loops=True)
    c.fn(fn)
    a = dict(zip(names, E.args))
    f = {k: pre(E, a["bvh"], k) for k in ("nodes", "node_count", "indices", "index_count")}
    vecs = ["ox", "oy", "oz", "dx", "dy", "dz"] if packet else ["origin", "direction"]
    comp = {v: prelanes(E, a[v], 4 if packet else 3) for v in vecs}
    null = dor(M.isnull(f["nodes"]), M.isnull(f["indices"]))
    nan = DF
    for v in vecs:
        for x in comp[v]:
            nan = dor(nan, M.dnan(x))
    good = dand(dnot(null), dnot(nan))
    ty = E.bodies[prog.body(p, fn)]["locals"][0]
    want = ite(null, leaf(const(vidx(E, ty, "Error"))), ite(nan, leaf(const(vidx(E, ty, "Nan"))), leaf(const(vidx(E, ty, "Ok")))))
    c.ob("result-code", fn, r.disc is want, "is %s" % show_dd(r.disc)[:300])
    # traversal
    its = {}
    for g, k, vals, ray in made:
        its[(k, tuple(v.id if isinstance(v, DD) else id(v) for v in vals))] = (g, k, vals, ray)
    c.ob("one-traversal", fn, len(its) == 1, "%d traversals" % len(its))
    g, kind, vals, ray = made[-1]
    c.ob("right-traversal", fn, kind == ity, "uses %s" % kind)
    c.ob("only-for-good-input", fn + " traversal", g is good, "runs when %s" % show_dd(g)[:200])
    for nm, v, cnt in (("nodes", vals[1], "node_count"), ("indices", vals[2], "index_count")):
        s = v.leaf if v.atom is None else None
        b = f[nm].leaf if f[nm].atom is None else None
        ok = s is not None and s.op == "sref" and s.a[2] is ZERO and leaf(s.a[3]) is f[cnt]
        ok = ok and s.a[0] is mk("deref", b)
        c.ob("caller-array", "%s %s" % (fn, nm), ok, "is %s" % show_dd(v)[:200])
    t0 = prelanes(E, a["t"], n)
    if packet:
        for ax, o, d in (("x", "ox", "dx"), ("y", "oy", "dy"), ("z", "oz", "dz")):
            for k in range(4):
                for nm, want in (("origin_" + ax, comp[o][k]), ("direction_" + ax, comp[d][k]), ("inv_direction_" + ax, div(leaf(ONE), comp[d][k]))):
                    got = get(E, ray, nm, k)
                    c.ob("packet-of-the-caller", "%s %s[%d]" % (fn, nm, k), same_under(good, got, want), "is %s" % show_dd(got)[:200])
        for k in range(4):
            got = get(E, ray, "t", k)
            c.ob("starts-at-the-callers-distance", "%s[%d]" % (fn, k), same_under(good, got, t0[k]), "is %s" % show_dd(got)[:200])
    else:
        c17.ray_ok(c, E, fn, ray, comp["origin"], comp["direction"], good)
        got = get(E, ray, "t")
        c.ob("starts-at-the-callers-distance", fn, same_under(good, got, t0[0]), "is %s" % show_dd(got)[:200])
        tm = get(E, ray, "t_min")
        c.ob("start-distance", fn, tm.atom is None and is_const(tm.leaf) and 0 <= cval(tm.leaf) <= Fraction("0.001"), "is %s" % show_dd(tm))
    # the loop
    recs = [x for x in E.loops.values() if x.__dict__.get("gback") is not None]
    if not c.ob("one-hit-loop", fn, len(recs) == 1, "%d loops" % len(recs)):
        return
    rec = recs[0]
    c.ob("advances-the-traversal", fn, items and all(x[1] for x in items), "another iterator or a changed one")
    some = apply(None, lambda x: cmp_eq(x, ONE, False), leaf(atom(mk("v", "more"))))
    stop = batom(mk("v", "stop"))
    gi = restrict(items[-1][0], good)
    c.ob("every-round-advances", fn, gi is DT, "only when %s" % show_dd(gi)[:200])
    cb_last = cbs[-1] if cbs else None
    if not c.ob("calls-back", fn, cb_last is not None, "no callback"):
        return
    rounds = set(x[3] for x in cbs)
    c.ob("one-callback-per-item", fn, len(rounds) == len(cbs), "several callbacks for an item")
    gc = restrict(cb_last[0], good)
    c.ob("callback-for-every-item", fn, gc is some, "when %s" % show_dd(gc)[:200])
    cv = cb_last[1]
    c.ob("callback-index", fn, cv[0] is leaf(atom(mk("v", "index"))), "is %s" % show_dd(cv[0])[:200])
    rref = vals[0]
    tref = field_ref(E, rref, ray, "t", packet)
    c.ob("callback-distance", fn, E.ptr_add(cv[1], leaf(ZERO)) is tref, "is %s" % show_dd(cv[1])[:200])
    c.ob("callback-user-pointer", fn, cv[2] is a["user"], "is %s" % show_dd(cv[2])[:200])
    # nothing else touches the ray between callbacks
    hv = [get(E, cb_last[2], "t", k) if packet else get(E, cb_last[2], "t") for k in range(n)]
    for k in range(n):
        at = hv[k].leaf if hv[k].atom is None else None
        s = single(at) if at is not None else None
        ok = s is not None and s.op == "mu" and any(info[0] is s for info in rec.mus.values())
        c.ob("distances-carry-over", "%s[%d] callback sees the last value" % (fn, k), ok, "sees %s" % show_dd(hv[k])[:200])
        if ok:
            key = [kk for kk, info in rec.mus.items() if info[0] is s][0]
            nv = restrict(rec.next[key], rec.gback)
            c.ob("distances-carry-over", "%s[%d]" % (fn, k), nv is leaf(atom(mk("v", "newt%d" % k))), "next is %s" % show_dd(nv)[:200])
    gb = restrict(rec.gback, good)
    c.ob("goes-on-until-stopped", fn, gb is dand(some, dnot(stop)), "goes on when %s" % show_dd(gb)[:200])
    lv = DF
    for t, g2, m in rec.exits:
        lv = dor(lv, restrict(g2, good))
    c.ob("leaves-when-done", fn, lv is dor(dnot(some), dand(some, stop)), "leaves when %s" % show_dd(lv)[:200])
    # results
    out = lanes(E, a["t"], n)
    m0 = E.mem
    for i, (t, g2, m) in enumerate(rec.exits):
        sub = Subst({mk("brk", rec.id, j): (DT if j == i else DF) for j in range(len(rec.exits))}, E.make)
        E.mem = m
        fin = fresh(E, rref)
        E.mem = m0
        for k in range(n):
            tv = get(E, fin, "t", k) if packet else get(E, fin, "t")
            o = restrict(sub.v(out[k]), good)
            c.ob("caller-gets-the-distances", "%s[%d] way out %d" % (fn, k, i), o is restrict(tv, good), "is %s" % show_dd(o)[:200])
    for k in range(n):
        c.ob("errors-write-nothing", "%s[%d]" % (fn, k), same_under(dnot(good), out[k], t0[k]), "is %s" % show_dd(out[k])[:200])
    for v in vecs:
        after = lanes(E, a[v], 4 if packet else 3)
        c.ob("input-arrays-are-kept", "%s %s" % (fn, v), all(x is y for x, y in zip(after, comp[v])), "changed")
    for wc, k, fnn, ln in panics(E):
        if k == "diverge" or k == "unwrap":
            c.ob("no-panic", "%s (%s)" % (fn, k), False, "when %s" % show_dd(wc)[:200])
    c.count("C intersection functions")


def field_ref(E, ref, v, name, packet):
    t = E.types[v.ty]
    fs = t["vs"][0]["f"]
    k = [x[0] for x in fs].index(name)
    l = lf(ref)
    path = l.a[1] + (("f", k, fs[k][1]),) + ((("i", ZERO),) if packet else ())
    return leaf(mk("ref", l.a[0], path))


def run(c):
    p = c.prog("rtbvh_rs")
    for fn, (ity, packet) in FNS.items():
        c.guard("intersection function", fn, lambda: one(c, p, fn, ity, packet))
    c.floor("C intersection functions", 4)
