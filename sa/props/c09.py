"""C09: the spatial SAH builder keeps every primitive in the leaves of the tree."""
from common import *
from c02 import w, ilt, ieq, off, neg
from sweep import *
import re
import binned, models, c07, c32

P = "builders::spatial_sah::SpatialSahBuildTask::<'a, T>::"
RUN = "<builders::spatial_sah::SpatialSahBuildTask<'a, T> as utils::Task>::run"
BUILD = "<builders::spatial_sah::SpatialSahBuilder<'a, T> as builders::BuildAlgorithm>::build"
MOVE = "utils::move_backward"

EXPLAIN = ("Each method of a spatial SAH task is analysed for a task with symbolic range, space, split and boxes; loops over references get an inductive "
           "invariant about places (linear, found and checked) and about how their order changes (only swaps, or a cut that writes both pieces).  Rules: "
           "allocating children moves the references of both parts without loss and divides the free space so that all ranges stay inside of the task's; "
           "an object split makes the three arrays agree on one permutation of the range; a spatial split keeps every reference or replaces it by two with "
           "its id and boxes that cover the cut primitive within its old box, and only writes inside of the task's space; a task becomes a leaf over all its ids in freshly "
           "reserved slots, or hands both parts to two tasks; the searches only sort their range; the root task has all ids and the space there is.")
ASSUME = ["tasks run once (C19)", "pairs of nodes (C20)", "cut boxes cover the triangle (C24)", "the order of a sort (C18)"]


def opaque(x):
    """a measure of a box, which only steers the heuristic; pure"""
    x.E.nopaque = getattr(x.E, "nopaque", 0) + 1
    return x.E.make(x.dty, mk("v", x.path.rsplit("::", 1)[-1], x.E.nopaque))


def measures(p):
    return dict((b["path"], opaque) for b in p["bodies"] if binned.re_measure(b["path"]))


def place(l):
    """region, path and index of an element pointer"""
    if l.op == "ref" and l.a[1] and l.a[1][-1][0] == "i":
        return l.a[0], l.a[1][:-1], l.a[1][-1][1]
    if l.op == "sref":
        return l.a[0], l.a[1], l.a[2]
    raise Unknown("a pointer to %s" % show(l))


def move_up(x):
    """the block first..last is moved so that it ends at dlast (lemma move_backward)"""
    E = x.E
    g = E.guard
    f, l, d = [restrict(v, g) for v in x.vals]
    done = []
    for a in leaves(f):
        for b in leaves(l):
            for t in leaves(d):
                on = dand(g, dand(paths_to(f, a), dand(paths_to(l, b), paths_to(d, t))))
                if on is DF or poss([on]) is None:
                    continue
                (ra, pa, i), (rb, pb, j), (rt, pt, k) = place(a), place(b), place(t)
                if (ra, pa) != (rb, pb) or (ra, pa) != (rt, pt):
                    raise Unknown("a block move between regions")
                done.append((on, ra, pa, i, psub(j, i), psub(k, psub(j, i)), k))
    for on, r, pt, i, n, k, e in done:
        v = val(E, E.vget(E.region(r), pt))
        a = v.arr
        E.log("moveup", on, r, i, n, k)
        E.mem[r] = E.vset(E.region(r), pt, coll(v.len, arr(a.base, a.ety, a.ents + (("copy", on, k, n, a, i),))))
    return UNITV


def val(E, v):
    v = E.expand(v) if isinstance(v, Sym) else v
    if isinstance(v, Agg):
        v = E.to_coll(v)
    if not isinstance(v, Coll):
        raise Unknown("an array expected, found %r" % (v,))
    return v


PARTS = [("prim_id",)] + [("aabb",) + x for x in AX]


def part(E, v, path):
    return get(E, v, *path)


def source(E, l, path, etys):
    """(base, index) if l is component `path` of element index of the array base"""
    st = [l]
    for t in patoms(l):
        if t.op == "sel" and t.a[0] in etys and get(E, E.make(etys[t.a[0]], t), *path) is leaf(l):
            return t.a[0], t.a[1]
    return None


def named(E, v, path, base, ety, i):
    """condition under which component `path` of v is that of element i of the array base"""
    def f(l):
        s = source(E, l, path, {base: ety})
        return ieq(leaf(s[1]), i) if s else DF
    out = DF
    for l in leaves(v):
        out = dor(out, dand(paths_to(v, l), f(l)))
    return out


def fresh_ints(*names):
    out = []
    for n in names:
        t = mk("v", n)
        INT_LO[t] = Fraction(0)
        out.append(leaf(atom(t)))
    return out


def task_of(E):
    t0 = E.args[0]
    wi = get(E, t0, "work_item")
    return t0, [get(E, wi, x) for x in ("begin", "end", "split_end")]


def three(E, t0):
    """the slices of the three reference arrays"""
    return [E.slice_of(get(E, t0, "references", j, "slice")) for j in range(3)]


def contents(E, mem, s):
    """array value behind a whole slice, in the given state"""
    l = lf(s)
    if l.op != "sref" or l.a[2] is not ZERO:
        raise Unknown("a reference array that does not start at 0")
    m, E.mem = E.mem, dict(mem)
    try:
        return val(E, E.vget(E.region(l.a[0]), l.a[1])).arr
    finally:
        E.mem = m


# ---------------------------------------------------------------- allocate_children
def children(c, p, boxes=False):
    hk = measures(p)
    hk[MOVE] = move_up
    body(p, MOVE)
    path = P + "allocate_children"
    E, r = run_as(p, path, ["task", "rb", "re", "lbox", "rbox", "sorted"], hooks=hk)
    c.fn(path)
    t0 = E.args[0]
    m1, E.mem = E.mem, {}
    _, (b, e, s) = task_of(E)
    rb, re = E.args[1], E.args[2]
    refs = three(E, t0)
    old = [contents(E, {}, x) for x in refs]
    pool = E.slice_of(get(E, t0, "allocator", "nodes", "slice"))
    me = get(E, t0, "work_item", "node")
    dep = get(E, t0, "work_item", "depth")
    parts = [E.args[3], E.args[4]]
    E.mem = m1
    for x in (b, e, s, rb, re):
        for t in patoms(x):
            INT_LO.setdefault(t, Fraction(0))
    inv = [dnot(ilt(rb, b)), dnot(ilt(re, rb)), dnot(ilt(s, re))]
    L, R = [dict((k, v) for k, v in fields(E, get(E, r, k)).items()) for k in (0, 1)]

    def ob(rule, what, bad_, more=()):
        none(c, rule, "%s: %s" % (path, what), inv + list(more) + [bad_], what)
    ne = lambda x, y: dnot(ieq(x, y))
    ob("left-range", "the left part starts at the task's begin", ne(L["begin"], b))
    ob("left-range", "the left part ends where the right part began", ne(L["end"], rb))
    ob("right-range", "the right part keeps its length", ne(apply(None, psub, R["end"], R["begin"]), apply(None, psub, re, rb)))
    ob("space-is-divided", "the left space follows the left part", ilt(L["split_end"], L["end"]))
    ob("space-is-divided", "the right part follows the left space", ilt(R["begin"], L["split_end"]))
    ob("space-is-divided", "the right space follows the right part", ilt(R["split_end"], R["end"]))
    ob("space-is-divided", "the right space ends with the task's", ilt(s, R["split_end"]))
    for nm, k in (("left", L), ("right", R)):
        ob("one-level-deeper", "%s depth" % nm, ne(k["depth"], off(dep, 1)))
    # nodes
    par = fields(E, elem_at(E, pool, lf(me)))
    lfst, cnt = get(E, par["bounds"], "extra2"), get(E, par["bounds"], "extra1")
    E.mem = m1
    apart = [ne(me, L["node"]), ne(me, R["node"])]
    ob("interior-node", "the split node has no count", dnot(neg(cnt)), apart)
    ob("interior-node", "the first child is the left one", ne(L["node"], lfst), apart)
    ob("interior-node", "the second child follows the first", ne(R["node"], off(lfst, 1)), apart)
    fa = [e2[2][-1] for e2 in E.events if e2[1] == "atomic" and e2[2][0] == "fetch_add"]
    c.ob("allocated-pair", path, len(fa) == 1, "%d allocations" % len(fa))
    if fa:
        ob("allocated-pair", "the children are the nodes that were allocated", ne(L["node"], fa[0] if isinstance(fa[0], DD) else leaf(fa[0])))
    if boxes:
        m, E.mem = E.mem, {}
        own = get(E, elem_at(E, pool, lf(me)), "bounds")
        E.mem = m
        now = get(E, elem_at(E, pool, lf(me)), "bounds")
        for kind, a in AX:
            ob("own-box-is-not-shrunk", "the node's box %s%d" % (kind, a), bad(kind, get(E, now, kind, a), pre(E, own, kind, a)), apart)
    for nm, k, bx in (("left", L, parts[0]), ("right", R, parts[1])) if boxes else ():
        nb = get(E, elem_at(E, pool, lf(k["node"])), "bounds")
        for kind, a in AX:
            x, y = get(E, nb, kind, a), pre(E, bx, kind, a)
            ob("child-box", "%s box %s%d covers the box of its part" % (nm, kind, a), bad(kind, x, y), apart)
    # the node pool
    q, = fresh_ints("q")
    v = m1.get(lf(pool).a[0])
    if v is not None:
        for en in val(E, v).arr.ents:
            if en[0] != "w":
                raise Unknown("the nodes are changed by %s" % en[0])
            ob("other-nodes-are-left-alone", "a node other than the task's and its children is written",
               dand(en[1], dand(ne(en[2], me), dand(ne(en[2], L["node"]), ne(en[2], R["node"])))))
    # references
    for j in range(3):
        new = contents(E, m1, refs[j])
        o = old[j]
        def el(a, i):
            return rd(E, a, i)
        for pt in PARTS:
            nm = "references[%d] %s" % (j, ".".join(map(str, pt)))
            at = lambda i: part(E, el(new, i), pt)
            inl = [dnot(ilt(q, b)), ilt(q, rb)]
            ob("left-part-is-kept", nm + " of the left part", dnot(named(E, at(q), pt, o.base, o.ety, q)), inl)
            src = apply(None, padd, q, apply(None, psub, rb, R["begin"]))
            ob("right-part-is-moved", nm + " of the right part", dnot(named(E, at(q), pt, o.base, o.ety, src)), [dnot(ilt(q, R["begin"])), ilt(q, R["end"])])
            ob("nothing-else-is-written", nm + " outside of the task", dnot(named(E, at(q), pt, o.base, o.ety, q)), [dor(ilt(q, b), dnot(ilt(q, s)))])
    ids = E.slice_of(pre(E, t0, "prim_indices", "slice"))
    for nm in ("prim_indices", "accumulated_aabbs"):
        x = E.slice_of(pre(E, t0, nm, "slice"))
        c.ob("nothing-else-is-written", "%s %s" % (path, nm), lf(x).a[0] not in m1 or unchanged(E, m1, x), "%s change" % nm)
    c.count("child allocations")


def unchanged(E, mem, s):
    v = mem.get(lf(s).a[0])
    return v is None or isinstance(v, Sym) or not val(E, v).arr.ents and val(E, v).arr.base is contents(E, {}, s).base


# ---------------------------------------------------------------- splitting a task
def alloc_hook(calls):
    def f(x):
        E = x.E
        calls.append((E.guard, x.vals, dict(E.mem)))
        return E.make(x.dty, mk("v", "kids", len(calls)))
    return f


def pin_axis(k, name="split"):
    """the split's axis is k"""
    def setup(E, a):
        for i, x in enumerate(a):
            v = E.expand(x) if isinstance(x, Sym) else x
            if isinstance(v, Agg) and isinstance(v.ty, int) and E.types[v.ty].get("vs"):
                names = [f[0] for f in E.types[v.ty]["vs"][0]["f"]]
                if "axis" in names and "cost" in names:
                    fs = list(v.fs)
                    fs[names.index("axis")] = leaf(const(k))
                    a[i] = agg(v.ty, fs)
                    return
        raise Unknown("the split's axis")
    return setup


def split_args(E, vals):
    """right_begin, right_end, left box, right box of a call of allocate_children"""
    return vals[1:5]


def keeps(c, rule, site, hyps, new, base, ety, b, r0, r1, note=""):
    """every id among new[b..r1) is one of base[b..r0) and the other way round"""
    E = c.E9
    q, = fresh_ints("q")
    pt = ("prim_id",)
    x = part(E, rd(E, new, q), pt)
    t = apply(None, lambda l: (lambda s: TRUE if s is None else FALSE)(source(E, l, pt, {base: ety})), x)
    none(c, rule, site + " no foreign id", hyps + [dnot(ilt(q, b)), ilt(q, r1), t], note + "an id does not come from this task's references")
    for l in leaves(x):
        s = source(E, l, pt, {base: ety})
        if s:
            i = leaf(s[1])
            none(c, rule, site + " ids from this task: " + show(s[1])[:50], hyps + [dnot(ilt(q, b)), ilt(q, r1), paths_to(x, l), dor(ilt(i, b), dnot(ilt(i, r0)))],
                 note + "an id comes from outside of this task's references")
    # backward: some position holds it
    cand = [q]
    for en in new.ents:
        if en[0] == "w":
            cand.append(en[2])
        elif en[0] == "copy":
            cand.append(apply(None, lambda l: padd(psub(l, en[5]), en[2]), q))
        else:
            raise Unknown("references are changed by %s" % en[0])
    found = DF
    for t in cand:
        m = named(E, part(E, rd(E, new, t), pt), pt, base, ety, q)
        found = dor(found, dand(m, dand(dnot(ilt(t, b)), ilt(t, r1))))
    none(c, rule, site + " no id is lost", hyps + [dnot(ilt(q, b)), ilt(q, r0), dnot(found)], note + "an id is lost")


def pieces(c, rule, site, hyps, new, base, ety, b, r0, r1, k, pos):
    """every reference is kept, or both parts that its triangle is cut into at the split are, where they lie in its box"""
    E = c.E9
    spots = []
    for en in new.ents:
        if en[0] == "w":
            for l in leaves(en[2]):
                x = leaf(l)
                if x not in spots:
                    spots.append(x)
        elif en[0] != "copy":
            raise Unknown("references are changed by %s" % en[0])
    if any(en[0] == "copy" for en in new.ents):
        return
    etys = {base: ety}
    ok = []
    for t in spots:
        own = E.make(ety, mk("sel", base, lf(t)))
        pid = lf(get(E, own, "prim_id"))
        cuts = set()
        for en in new.ents:
            for u in deep(E, en[4]):
                if u.op == "call" and len(u.a) == 2 and isinstance(u.a[1], tuple) and any(x is const(k) for x in u.a[1]) and any(x is pos for x in u.a[1]) \
                        and any(isinstance(x, T) and x.op in ("refto", "ref") and pid in patoms(x) for x in u.a[1]):
                    cuts.add(u)

        def comp(x, kind, a, want):
            """the component covers what is wanted (None: that of the element itself)"""
            w_ = get(E, own, "aabb", kind, a)
            if want is not None:
                w_ = (fmax if kind == "min" else fmin)(w_, want)

            def f(l):
                sr = source(E, l, ("aabb", kind, a), etys)
                d = dnot(bad(kind, leaf(l), w_))
                return dor(d, ieq(leaf(sr[1]), t)) if sr else d
            out = DF
            for l in leaves(x):
                out = dor(out, dand(paths_to(x, l), f(l)))
            return out

        def held(cut=None, side=None):
            out = DF
            for u in spots:
                x = rd(E, new, u)
                g = dand(dand(dnot(ilt(u, b)), ilt(u, r1)), named(E, part(E, x, ("prim_id",)), ("prim_id",), base, ety, t))
                for kind, a in AX:
                    g = dand(g, comp(part(E, x, ("aabb", kind, a)), kind, a, None if cut is None else leaf(cut_part(E, c, cut, side, kind, a))))
                out = dor(out, g)
            return out
        found = held()
        for u in cuts:
            found = dor(found, dand(held(u, 0), held(u, 1)))
        ok.append(found)
    for t in spots:
        found = DF
        for u, f in zip(spots, ok):
            found = dor(found, dand(f, ieq(t, u)))
        none(c, rule, "%s reference at %s" % (site, show_dd(t)[:60]), hyps + [dnot(ilt(t, b)), ilt(t, r0), dnot(found)], "a part of a reference is lost")


def cut_part(E, c, cut, side, kind, a):
    """component of one of the two boxes that cutting a triangle gives"""
    v = E.make(c.cut_ty, cut)
    return lf(get(E, v, side, kind, a))


def deep(E, v):
    out = set()
    for x in flat(E, v):
        if isinstance(x, DD):
            out |= patoms(x)
    return out


def inside(c, rule, site, hyps, new, b, s):
    """writes stay between b and s"""
    for en in new.ents:
        if en[0] == "w":
            none(c, rule, "%s %s" % (site, show_dd(en[2])[:60]), hyps + [en[1], dor(ilt(en[2], b), dnot(ilt(en[2], s)))], "a reference outside of the task is written")
        elif en[0] == "copy":
            lo, n = leaf(en[2]) if isinstance(en[2], T) else en[2], leaf(en[3]) if isinstance(en[3], T) else en[3]
            hi = apply(None, padd, lo, n)
            none(c, rule, "%s %s" % (site, show_dd(lo)[:60]), hyps + [en[1], ilt(leaf(ZERO), n), dor(ilt(lo, b), ilt(s, hi))], "references outside of the task are written")
        else:
            raise Unknown("references are changed by %s" % en[0])


class Split:
    """apply_*_split with the split axis k, as a chain of points: before, each loop header, the call of allocate_children"""

    def __init__(self, p, fn, k, sweep=False):
        self.calls = []
        self.path = P + fn
        hk = {P + "allocate_children": alloc_hook(self.calls)}
        body(p, P + "allocate_children")
        self.E, self.r = run_as(p, self.path, ["task", "split"], setup=pin_axis(k), hooks=hk, raw_loops=True)
        E = self.E
        m, E.mem = E.mem, {}
        self.t0, (self.b, self.e, self.s) = task_of(E)
        self.refs = three(E, self.t0)
        self.old = [contents(E, {}, x) for x in self.refs]
        E.mem = m
        for x in (self.b, self.e, self.s):
            for t in patoms(x):
                INT_LO.setdefault(t, Fraction(0))
        self.inv = [dnot(ilt(self.e, self.b)), dnot(ilt(self.s, self.e))]
        self.S = Sweep(E, self.inv, [self.b, self.e, self.s])
        self.recs = [rec for i, rec in sorted(E.loops.items())]
        self.k = k
        if len(self.calls) != 1:
            raise Unknown("%d calls of allocate_children" % len(self.calls))

    def arrays(self, rec):
        """the arrays of references that change in the loop: (base, before, header, after)"""
        out = []
        for key, m in rec.mus.items():
            if m[3] == "arr":
                out.append((rec.header[key].base, rec.init[key], rec.header[key], rec.next[key]))
        return out


def object_split(c, p, k):
    X = Split(p, "apply_object_split", k)
    E = c.E9 = X.E
    c.fn(X.path)
    site = "%s axis %d" % (X.path, k)
    if X.recs:
        for rec in X.recs:
            if X.arrays(rec):
                raise Unknown("references change in a loop")
    g, vals, mem = X.calls[0]
    rb, re = vals[1], vals[2]
    sp = E.args[1]
    m, E.mem = E.mem, {}
    idx = E.expand(get(E, sp, "index"))
    E.mem = m
    pay = idx.vs[1][0]
    hy = X.inv + [g, is_some(idx)] + [dnot(w) for w, _, _, _ in panics(E)]
    ob = lambda rule, what, bad_: none(c, rule, "%s: %s" % (site, what), hy + [bad_], what)
    ob("split-place", "the right part starts at the chosen index", dnot(ieq(rb, pay)))
    ob("split-place", "the right part starts inside of the task", dor(ilt(rb, X.b), ilt(X.e, rb)))
    ob("split-place", "the right part ends at the task's end", dnot(ieq(re, X.e)))
    for j in range(3):
        a = contents(E, mem, X.refs[j])
        src = X.old[k]
        q, = fresh_ints("q")
        for pt in PARTS:
            x = part(E, rd(E, a, q), pt)
            none(c, "arrays-agree", "%s references[%d] %s" % (site, j, ".".join(map(str, pt))), hy + [dnot(ilt(q, X.b)), ilt(q, X.e), dnot(named(E, x, pt, src.base, src.ety, q))],
                 "an array of references does not follow the split axis")
        inside(c, "nothing-else-is-written", "%s references[%d]" % (site, j), hy, a, X.b, X.s)
    results(c, X, site)
    c.count("split kinds")


def results(c, X, site):
    """the parts that were made are returned and nothing else is shared"""
    E = X.E
    g, vals, mem = X.calls[0]
    kids = mk("v", "kids", 1)
    for n in (0, 1):
        a, b = get(E, X.r, n), get(E, E.make(E.bodyret if hasattr(E, "bodyret") else X.r.ty, kids), n)
        same = all(same_under(g, x, y) for x, y in zip(flat(E, a), flat(E, b)))
        c.ob("parts-are-returned", "%s part %d" % (site, n), same, "other work is returned")
    for nm in ("prim_indices", "accumulated_aabbs"):
        x = E.slice_of(pre(E, X.t0, nm, "slice"))
        c.ob("nothing-else-is-written", "%s %s" % (site, nm), unchanged(E, mem, x), "%s change" % nm)
    x = E.slice_of(pre(E, X.t0, "allocator", "nodes", "slice"))
    c.ob("nothing-else-is-written", "%s nodes" % site, unchanged(E, mem, x), "nodes change")
    wi = lambda m: dict((n, v) for n, v in fields_in(E, m, E.args[0], "work_item").items())
    for n, v in wi(mem).items():
        c.ob("nothing-else-is-written", "%s work_item.%s" % (site, n), same_under(g, v, wi({})[n]), "the task's own range changes")


def fields_in(E, mem, t, name):
    m, E.mem = E.mem, dict(mem)
    try:
        return fields(E, get(E, t, name))
    finally:
        E.mem = m


def flat(E, v):
    v = E.expand(v) if isinstance(v, Sym) else v
    if isinstance(v, Agg):
        return [y for x in v.fs for y in flat(E, x)]
    return [v]


def spatial_split(c, p, k):
    X = Split(p, "apply_spatial_split", k)
    E = c.E9 = X.E
    c.fn(X.path)
    site = "%s axis %d" % (X.path, k)
    S = X.S
    g, vals, mem = X.calls[0]
    rb, re = vals[1], vals[2]
    pos = lf(pre(E, E.args[1], "position"))
    bi = [b_ for b_ in p["bodies"] if b_["path"] == "builders::spatial_sah::SpatialTriangle::split"]
    if not bi:
        raise Missing("SpatialTriangle::split")
    c.cut_ty = bi[0]["locals"][0]
    for rec in X.recs:
        S.learn(rec, [])
    after = S.outer(None)
    # the end of the live references at each point
    ends, R = {}, re
    for rec in reversed(X.recs):
        ini, nxt = S.maps(rec)
        ends[rec.id] = (S.sub(R, ini), R, S.sub(R, nxt))
        R = S.sub(R, ini)
    none(c, "starts-with-all-references", site, X.inv + [dnot(ieq(R, X.e))], "the live references do not start as the task's range")
    at = X.old[k]
    base, ety, r0 = at.base, at.ety, X.e
    for rec in X.recs:
        ar = [a for a in X.arrays(rec)]
        a, h, n = ends[rec.id]
        hyps = X.inv + S.outer(rec)
        # before the loop
        if len(ar) > 1:
            raise Unknown("several arrays change in a loop")
        if ar:
            hb, a0, ah, an = ar[0]
            g0 = [rec.g0] if isinstance(getattr(rec, "g0", None), DD) else []
            nm = "%s loop at %s" % (site, rec.where[1] if hasattr(rec, "where") else rec.id)
            chain(c, nm + " before", hyps + g0, a0, base, ety, X.b, r0, a, X.s, k, pos)
            gb = rec.gback if getattr(rec, "gback", None) is not None else rec.back[0]
            chain(c, nm + " round", hyps + S.order[rec.id] + [gb], an, hb, ety, X.b, h, n, X.s, k, pos)
            base, r0 = hb, h
        else:
            none(c, "live-end-is-kept", "%s loop %s" % (site, rec.id), hyps + [dor(dnot(ieq(h, n)), dnot(ieq(h, a)))], "the end of the references changes")
            r0 = h
        c.count("loops")
    hyps = X.inv + after + [g]
    for j in range(3):
        a = contents(E, mem, X.refs[j])
        chain(c, "%s result %d" % (site, j), hyps, a, base, ety, X.b, r0, re, X.s, k, pos)
    # all three arrays hold the same
    q, = fresh_ints("q")
    lead = contents(E, mem, X.refs[k])
    for j in range(3):
        if j == k:
            continue
        a = contents(E, mem, X.refs[j])
        for pt in PARTS:
            x, y = part(E, rd(E, a, q), pt), part(E, rd(E, lead, q), pt)
            d = agree(E, x, y, pt, {base: ety})
            none(c, "arrays-agree", "%s references[%d] %s" % (site, j, ".".join(map(str, pt))), S.cone(hyps, [re, rb]) + [dnot(ilt(q, X.b)), ilt(q, re), dnot(d)],
                 "an array of references does not follow the split axis")
    ob = lambda what, bad_: none(c, "split-place", "%s: %s" % (site, what), S.cone(hyps, [bad_]) + [bad_], what)
    ob("the right part starts inside of the task", ilt(rb, X.b))
    ob("the right part starts before it ends", ilt(re, rb))
    ob("the right part ends inside of the task's space", ilt(X.s, re))
    results(c, X, site)
    c.count("split kinds")


def agree(E, x, y, pt, etys):
    def f(a, b):
        if a is b:
            return DT
        s, t = source(E, a, pt, etys), source(E, b, pt, etys)
        return ieq(leaf(s[1]), leaf(t[1])) if s and t and s[0] is t[0] else DF
    out = DF
    for a in leaves(x):
        for b in leaves(y):
            out = dor(out, dand(dand(paths_to(x, a), paths_to(y, b)), f(a, b)))
    return out


def chain(c, site, hyps, new, base, ety, b, r0, r1, s, k, pos):
    """from the references base[b..r0) to new[b..r1)"""
    inside(c, "nothing-else-is-written", site, hyps, new, b, s)
    keeps(c, "references-are-kept", site, hyps, new, base, ety, b, r0, r1)
    pieces(c, "pieces-are-kept", site, hyps, new, base, ety, b, r0, r1, k, pos)


# ---------------------------------------------------------------- one task
def task(c, p):
    calls = []
    FIND, APPLY = ("find_object_split", "find_spatial_split"), ("apply_object_split", "apply_spatial_split")

    def hook(x):
        E = x.E
        nm = x.path.rsplit("::", 1)[-1]
        calls.append((nm, E.guard, x.vals, dict(E.mem)))
        n = len(calls)
        if nm in FIND:
            for s in own(E):
                r = lf(s).a[0]
                v = val(E, E.region(r))
                E.mem[r] = coll(v.len, arr(mk("v", "found", n, r), v.arr.ety))
        return E.make(x.dty, mk("v", nm, n))

    def own(E):
        m, E.mem = E.mem, {}
        try:
            return three(E, E.args[0])
        finally:
            E.mem = m
    hk = measures(p)
    for n in FIND + APPLY:
        body(p, P + n)
        hk[P + n] = hook
    E, r = run_as(p, RUN, ["task"], hooks=hk)
    c.fn(RUN)
    site = RUN
    t0 = E.args[0]
    m1, E.mem = E.mem, {}
    _, (b, e, s) = task_of(E)
    refs = three(E, t0)
    f0 = fields(E, t0)
    me = get(E, t0, "work_item", "node")
    pool = E.slice_of(get(E, t0, "allocator", "nodes", "slice"))
    ids = E.slice_of(get(E, t0, "prim_indices", "slice"))
    acc = E.slice_of(get(E, t0, "accumulated_aabbs", "slice"))
    old = [contents(E, {}, x) for x in refs]
    oldid = contents(E, {}, ids)
    node0 = fields(E, elem_at(E, pool, lf(me)))
    E.mem = m1
    for x in (b, e, s):
        for t in patoms(x):
            INT_LO.setdefault(t, Fraction(0))
    inv = dand(dnot(ilt(e, b)), dnot(ilt(s, e)))
    some = is_some(r)
    pan = DT
    n = apply(None, psub, e, b)

    def no(rule, what, *conds):
        none(c, rule, "%s: %s" % (site, what), [inv] + list(conds), what)
    # leaves
    adds = [(ev[0], ev[2]) for ev in E.events if ev[1] == "atomic" and ev[2][0] == "fetch_add"]
    ctr = lf(f0["reference_count"])
    for g, pl in adds:
        c.ob("leaf-slot", site + " counter", lf(pl[1]) is ctr, "another counter")
        no("leaf-slot", "a leaf reserves as many ids as it has references", g, dnot(ieq(pl[2] if isinstance(pl[2], DD) else leaf(pl[2]), n)))
        no("leaf-slot", "ids are reserved without making a leaf", g, some)
    for i, (g, _) in enumerate(adds):
        for h, _ in adds[i + 1:]:
            no("leaf-slot", "ids are reserved twice", g, h)
    anyadd = DF
    for g, _ in adds:
        anyadd = dor(anyadd, g)
    no("leaf-slot", "a task ends without a leaf or children", dnot(some), dnot(anyadd))
    node = fields(E, elem_at(E, pool, lf(me)))
    lfst, cnt = get(E, node["bounds"], "extra2"), get(E, node["bounds"], "extra1")
    no("leaf-over-its-ids", "a leaf has another number of primitives", dnot(some), dnot(ieq(cnt, n)))
    new = contents(E, m1, ids)
    q, = fresh_ints("q")
    etys = dict((a.base, a.ety) for a in old)
    for k, (nm, g, vals, mem) in enumerate(calls):
        if nm in FIND:
            for a, x in zip(old, refs):
                etys[mk("v", "found", k + 1, lf(x).a[0])] = a.ety
    for g, pl in adds:
        res = pl[-1] if isinstance(pl[-1], DD) else leaf(pl[-1])
        for t in patoms(res):
            INT_LO.setdefault(t, Fraction(0))
        no("leaf-over-its-ids", "a leaf starts elsewhere", g, dnot(ieq(lfst, res)))
        x = restrict(rd(E, new, apply(None, padd, res, q)), dand(g, ilt(q, n)))
        for l in leaves(x):
            sr = source(E, l, ("prim_id",), etys)
            on = [g, ilt(q, n), paths_to(x, l)]
            if not sr:
                no("leaf-ids", "a leaf's id is %s" % show(l)[:80], *on)
            else:
                no("leaf-ids", "a leaf's id is that of another reference", *(on + [dnot(ieq(leaf(sr[1]), apply(None, padd, b, q)))]))
        y = rd(E, new, q)
        z = leaf(mk("sel", oldid.base, lf(q)))
        out = dor(ilt(q, res), dnot(ilt(q, apply(None, padd, res, n))))
        no("leaf-ids", "an id outside of the leaf is written", g, out, apply(None, lambda l: FALSE if single(l) is lf(z) or l is lf(z) or idsel(l, oldid.base, lf(q)) else TRUE, y))
    # children
    no("leaf-ids", "a split task writes ids", some, apply(None, lambda l: FALSE if idsel(l, oldid.base, lf(q)) else TRUE, rd(E, new, q)))
    app = [(k + 1, x) for k, x in enumerate(calls) if x[0] in APPLY]
    anya = DF
    for i, (k, x) in enumerate(app):
        anya = dor(anya, x[1])
        no("one-split", "a task is split and made a leaf", x[1], dnot(some))
        for _, y in app[i + 1:]:
            no("one-split", "a task is split twice", x[1], y[1])
    no("one-split", "children without a split", some, dnot(anya))
    pay = r.vs[1][0]
    for k, (nm, g, vals, mem) in app:
        kids = E.make(E.types_of(nm) if hasattr(E, "types_of") else calls_ty(E, p, nm), mk("v", nm, k))
        for i in (0, 1):
            f = fields(E, get(E, pay, i))
            for w_, (x, y) in zip(fields(E, f["work_item"]), zip(flat(E, f["work_item"]), flat(E, get(E, kids, i)))):
                c.ob("child-gets-its-part", "%s %s child %d %s" % (site, nm, i, w_), same_under(g, x, y), "the work of a child is not a part that was split off")
            for fn in ("builder", "allocator", "references", "reference_count", "prim_indices", "accumulated_aabbs"):
                ok = all(same_under(g, x, y) for x, y in zip(flat(E, f[fn]), flat(E, f0[fn])))
                c.ob("child-shares-the-data", "%s %s child %d %s" % (site, nm, i, fn), ok, "another %s" % fn)
        wi = fields_in(E, mem, vals[0], "work_item") if not M.is_ref(vals[0]) else self_item(E, mem, vals[0])
        for fn, v in wi.items():
            c.ob("splits-its-own-range", "%s %s %s" % (site, nm, fn), same_under(g, v, pre(E, t0, "work_item", fn)), "the range changes before the split")
    for k, (nm, g, vals, mem) in enumerate(calls):
        if nm in FIND:
            no("searches-its-own-range", "%s looks at another range" % nm, g, dor(dnot(ieq(vals[1], b)), dnot(ieq(vals[2], e))))
            wi = self_item(E, mem, vals[0])
            for fn, v in wi.items():
                c.ob("searches-its-own-range", "%s %s %s" % (site, nm, fn), same_under(g, v, pre(E, t0, "work_item", fn)), "the range changes before the search")
    # nothing else
    for en in contents(E, m1, pool).ents:
        if en[0] != "w":
            raise Unknown("the nodes are changed by %s" % en[0])
        no("other-nodes-are-left-alone", "a node other than the task's is written", en[1], dnot(ieq(en[2], me)))
        no("other-nodes-are-left-alone", "a split task writes its node", en[1], some)
    for j in range(3):
        v = contents(E, m1, refs[j])
        c.ob("nothing-else-is-written", "%s references[%d]" % (site, j), plain(v, [old[j].base] + [x for x in etys]), "references change")
    c.ob("nothing-else-is-written", site + " accumulated_aabbs", unchanged(E, m1, acc), "accumulated boxes change")
    c.count("tasks")


def plain(a, bases):
    """an array that is one of the bases, maybe by condition, without writes"""
    if a.ents:
        return False
    b = a.base
    if isinstance(b, tuple) and b and b[0] == "ite":
        return all(plain(x, bases) if isinstance(x, Arr) else x in bases for x in b[2:])
    return b in bases


def idsel(l, base, i):
    t = l if l.op == "sel" else single(l)
    return t is not None and t.op == "sel" and t.a[0] is base and t.a[1] is i


def self_item(E, mem, ref):
    m, E.mem = E.mem, dict(mem)
    try:
        return fields(E, get(E, ref, "work_item"))
    finally:
        E.mem = m


def calls_ty(E, p, nm):
    return p["bodies"][body(p, P + nm)]["locals"][0]


# ---------------------------------------------------------------- looking for a split
def searches(c, p, fn):
    """the search only sorts within the task's range and writes nothing but accumulated boxes within it"""
    def setup(E, a):
        E.keep_sorted = True
    names = [x for x in ("task", "begin", "end", "sorted")][:len_args(p, P + fn)]
    E, r = run_as(p, P + fn, names, hooks=measures(p), raw_loops=True, setup=setup)
    path = P + fn
    c.fn(path)
    t0, (b0, e0, s0) = task_of_clean(E)
    b, e = E.args[1], E.args[2]
    for x in (b, e):
        for t in patoms(x):
            INT_LO.setdefault(t, Fraction(0))
    inv = [dnot(ilt(e, b))]
    m, E.mem = E.mem, {}
    refs = three(E, t0)
    ids = E.slice_of(get(E, t0, "prim_indices", "slice"))
    acc = E.slice_of(get(E, t0, "accumulated_aabbs", "slice"))
    pool = E.slice_of(get(E, t0, "allocator", "nodes", "slice"))
    E.mem = m
    own = dict((lf(x).a[0], j) for j, x in enumerate(refs))
    for ev in E.events:
        if ev[1] == "sort":
            l = lf(restrict(ev[2][0], ev[0]))
            ok = l.op == "sref" and l.a[0] in own and l.a[1] == ()
            c.ob("sorts-its-own-range", "%s references[%s]" % (path, own.get(l.a[0]) if ok else "?"), ok, "sorts %s" % show(l)[:200])
            if ok:
                hi = apply(None, padd, leaf(l.a[2]), leaf(l.a[3]) if isinstance(l.a[3], T) else l.a[3])
                none(c, "sorts-its-own-range", "%s references[%d] bounds" % (path, own[l.a[0]]), inv + [ev[0], dor(ilt(leaf(l.a[2]), b), ilt(e, hi))], "other references are sorted")
            c.count("sorts")
    for nm, x in [("references[%d]" % j, x) for j, x in enumerate(refs)] + [("prim_indices", ids), ("nodes", pool)]:
        c.ob("nothing-else-is-written", "%s %s" % (path, nm), unchanged(E, E.mem, x), "%s change" % nm)
    for n, v in self_item(E, E.mem, E.args[0]).items():
        c.ob("nothing-else-is-written", "%s work_item.%s" % (path, n), same_under(DT, v, pre(E, t0, "work_item", n)), "the task's range changes")
    # accumulated boxes
    if not unchanged(E, E.mem, acc):
        S = Sweep(E, [ilt(b, e)], [b, e])
        last = None
        for i, rec in sorted(E.loops.items()):
            S.learn(rec, [])
            gb = rec.gback if getattr(rec, "gback", None) is not None else rec.back[0]
            for key, mu in rec.mus.items():
                if mu[3] == "arr":
                    if key[0] is not lf(acc).a[0]:
                        raise Unknown("another array changes in a loop")
                    nm = "%s loop %s" % (path, rec.where[1] if hasattr(rec, "where") else rec.id)
                    g0 = [rec.g0] if isinstance(getattr(rec, "g0", None), DD) else []
                    inside(c, "nothing-else-is-written", nm + " before", [ilt(b, e)] + S.outer(rec) + g0, rec.init[key], b, e)
                    inside(c, "nothing-else-is-written", nm + " round", [ilt(b, e)] + S.outer(rec) + S.order[rec.id] + [gb], rec.next[key], b, e)
        inside(c, "nothing-else-is-written", path + " accumulated boxes", [ilt(b, e)] + S.outer(None), contents(E, E.mem, acc), b, e)
    c.count("searches")


def shuffles(d, n):
    """a parallel loop over n things visits each of them once"""
    ts = {}
    for t in patoms(d):
        if t.op == "v" and t.a[0] == "shuffle":
            ts.setdefault(t.a[1], set()).add(t)
    out = []
    for g in ts.values():
        g = sorted(g, key=lambda t: t.id)
        for i, t in enumerate(g):
            INT_LO.setdefault(t, Fraction(0))
            if len(g) == n:
                out.append(ilt(leaf(atom(t)), leaf(const(n))))
            out += [dnot(ieq(leaf(atom(t)), leaf(atom(u)))) for u in g[i + 1:]]
    return out


def len_args(p, path):
    return p["bodies"][body(p, path)]["argc"]


def task_of_clean(E):
    m, E.mem = E.mem, {}
    try:
        return task_of(E)
    finally:
        E.mem = m


# ---------------------------------------------------------------- the whole build
def build(c, p, spawner="utils::TaskSpawner::run"):
    calls = []

    def spawn(x):
        E = x.E
        calls.append((E.guard, x.vals[1], dict(E.mem)))
        f = fields(E, x.vals[1])
        for reg in (lf(E.slice_of(get(E, f["allocator"], "nodes", "slice"))).a[0], lf(E.slice_of(get(E, f["prim_indices"], "slice"))).a[0]):
            v = val(E, E.mem[reg])
            E.mem[reg] = coll(v.len, arr(mk("v", "done", len(calls), reg), v.arr.ety))
        E.log("spawned", None)
        return UNITV

    def union(x):
        return x.E.make(x.dty, mk("union", x.vals[0]))
    hk = {spawner: spawn}
    body(p, spawner)
    for b in p["bodies"]:
        if re.search(r"(^|::)Aabb(::<.*>)?::union_of_list$", b["path"]):
            hk[b["path"]] = union
    E, r = run_as(p, BUILD, ["self"], hooks=hk)
    c.fn(BUILD)
    site = BUILD
    s = dict(zip(*binned.field_list(E, E.args[0])))
    if len(calls) != 1:
        raise Unknown("%d task spawners" % len(calls))
    g, t, mem = calls[0]
    n = length(E, s["aabbs"])
    ok = dand(ieq(n, length(E, s["primitives"])), ilt(leaf(ZERO), n))
    never(c, "builds-for-valid-input", site, dand(ok, dnot(g)), "nothing is built")
    never(c, "builds-for-valid-input", site + " only", dand(g, dnot(ok)), "builds from mismatched input")
    f = fields(E, t)
    m2, E.mem = E.mem, dict(mem)
    wi = fields(E, f["work_item"])

    def no(rule, what, *conds):
        none(c, rule, "%s: %s" % (site, what), [g] + list(conds), what)
    ne = lambda a, b: dnot(ieq(a, b))
    no("root-task", "the root task starts elsewhere", ne(wi["begin"], leaf(ZERO)))
    no("root-task", "the root task ends elsewhere", ne(wi["end"], n))
    no("root-task", "the root task starts deeper", ne(wi["depth"], leaf(ZERO)))
    no("root-task", "the root task has another node", ne(wi["node"], leaf(ZERO)))
    space = wi["split_end"]
    no("enough-space", "the root task's space is smaller than its range", ilt(space, n))
    refs = [E.slice_of(get(E, f["references"], j, "slice")) for j in range(3)]
    regs = set(lf(x).a[0] for x in refs)
    c.ob("enough-space", site + " separate arrays", len(regs) == 3, "the reference arrays are not separate")
    pools = {}
    for nm, x in [("references[%d]" % j, x) for j, x in enumerate(refs)] + [(k, E.slice_of(get(E, f[k], "slice"))) for k in ("prim_indices", "accumulated_aabbs")]:
        no("enough-space", "%s is smaller than the root task's space" % nm, ilt(E.slen(x), space))
        no("enough-space", "%s starts elsewhere" % nm, ne(leaf(lf(x).a[2]), leaf(ZERO)))
    pool = E.slice_of(get(E, f["allocator"], "nodes", "slice"))
    ids = E.slice_of(get(E, f["prim_indices"], "slice"))
    no("enough-space", "there are fewer than two nodes for a reference, less one", ilt(E.slen(pool), apply(None, lambda k: psub(pscale(k, 2), ONE), space)))
    # the references
    q, = fresh_ints("q")
    bx = get(E, elem_at(E, s["aabbs"], lf(q)))
    for j in range(3):
        x = elem_at(E, refs[j], lf(q))
        perm = shuffles(get(E, x, "prim_id"), 3)
        no("first-references", "references[%d] does not hold every id" % j, ilt(q, n), *perm, ne(get(E, x, "prim_id"), q))
        for kind, a in AX:
            d = apply(None, lambda u, v: FALSE if u is v else TRUE, get(E, x, "aabb", kind, a), get(E, bx, kind, a))
            no("first-references", "references[%d] has another box (%s%d)" % (j, kind, a), ilt(q, n), *perm, d)
    for nm, v in (("reference_count", 0), ("counter", 1)):
        at = f[nm] if nm in f else fields(E, f["allocator"])[nm]
        x = E.load(at)
        made = [ev[2][1] for ev in E.events if ev[1] == "atomicnew" and isinstance(x, DD) and same_under(g, ev[2][0], x)]
        c.ob("first-slot", "%s %s" % (site, nm), len(made) == 1 and same_under(g, made[0], leaf(const(v))), "starts at %s" % (show_dd(made[0])[:100] if made else x,))
    root = get(E, elem_at(E, pool, ZERO), "bounds")
    want = [a for a in c07.sym_terms(root) if a.op == "union"]
    c.ob("root-box-is-the-union", site, bool(want) and all(same_under(g, E.slice_of(a.a[0]), E.slice_of(s["aabbs"])) for a in want), "the root's box is %s" % (root,))
    E.mem = m2
    # the result
    bn, bi = val(E, get(E, r, "nodes")), val(E, get(E, r, "prim_indices"))
    ir, pr = lf(ids).a[0], lf(pool).a[0]
    x = E.arr_read(bi.arr, lf(q))
    no("returns-the-ids", "other ids are returned", ilt(q, space), apply(None, lambda l: FALSE if c07.is_elem(l, mk("v", "done", 1, ir), lf(q)) else TRUE, x))
    no("returns-the-ids", "fewer ids are returned", ilt(bi.len, space))
    for fld in (("min", 0), ("max", 2), ("extra1",), ("extra2",)):
        a = get(E, E.arr_read(bn.arr, lf(q)), "bounds", *fld)
        b = get(E, E.make(bn.arr.ety, mk("sel", mk("v", "done", 1, pr), lf(q))), "bounds", *fld)
        no("returns-the-nodes", "other nodes are returned (%s)" % fld[0], ilt(q, bn.len), ilt(q, E.slen(pool)), apply(None, lambda x, y: FALSE if x is y else TRUE, a, b))
    ctr = lf(fields(E, f["allocator"])["counter"])
    after = [i for i, ev in enumerate(E.events) if ev[1] == "spawned"]
    loads = [ev[2][-1] for i, ev in enumerate(E.events) if ev[1] == "atomic" and ev[2][0] == "load" and lf(ev[2][1]) is ctr and after and i > after[0]]
    c.ob("returns-all-allocated-nodes", site, any(same_under(g, bn.len, x) or same_under(g, bn.len, apply(None, pmin, x, E.slen(pool))) for x in loads) or same_under(g, bn.len, E.slen(pool)),
         "returns %s nodes" % show_dd(restrict(bn.len, g))[:200])
    c.count("builders")
    return E, r, g


def run(c):
    p = c.prog()
    c.guard("children", P + "allocate_children", lambda: children(c, p))
    c.guard("task", RUN, lambda: task(c, p))
    c.guard("build", BUILD, lambda: build(c, p) and None)
    for fn in ("find_object_split", "find_spatial_split"):
        c.guard("search", P + fn, lambda: searches(c, p, fn))
    c.guard("block-move", MOVE, lambda: c32.move_up(c, p))
    c.floor("searches", 2)
    c.floor("sorts", 3)
    c.floor("builders", 1)
    c.floor("tasks", 1)
    for k in range(3):
        c.guard("object-split", P + "apply_object_split axis %d" % k, lambda: object_split(c, p, k))
        c.guard("spatial-split", P + "apply_spatial_split axis %d" % k, lambda: spatial_split(c, p, k))
    c.floor("split kinds", 6)
    c.floor("child allocations", 1)
