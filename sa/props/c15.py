"""C15: handles of the C interface name exactly one stored tree, for as long as the program runs."""
import re
from common import *
from c01 import *  # noqa
from c02 import ilt, w
from c14 import array_ptr

EXPLAIN = ("Each exported function is reduced to what it does to the registries (the locked vectors of trees behind the global manager). Rules: a build "
           "appends one entry holding the built tree and nothing else, exactly when the build succeeded, and the handle carries that entry's "
           "index and the counts and addresses of that entry's nodes and indices; a failed build reports its cause and stores "
           "nothing; refit and create_mbvh work on the entry of the handle and answer unknown ids with an error; refit reads a box for every "
           "referenced primitive and none beyond; freeing empties that entry only and never shifts, removes or reuses another.")
ASSUME = ["fewer than 2^32 trees are created", "entries are reached through the locks (C31)"]


class Reg:
    """the registries seen by a finished run"""

    def __init__(self, E):
        self.E = E
        self.outer, self.entries, self.static = {}, {}, None
        for r in list(E.mem):
            if not (isinstance(r, T) and r.op == "deref" and isinstance(r.a[0], T) and r.a[0].op == "locked"):
                continue
            t = E.rty.get(r)
            k = E.types[t] if t is not None else {}
            if k.get("k") != "adt":
                continue
            if k["path"] == "std::vec::Vec":
                e = E.types[k["args"][0]]
                if e["k"] == "adt" and "RwLock" in e["path"]:
                    kind = E.types[e["args"][-1]]["path"].rsplit("::", 1)[-1]
                    if kind in self.outer:
                        raise Unknown("two registries of %s" % kind)
                    self.outer[kind] = r
            elif k["path"] in ("rtbvh::Bvh", "rtbvh::Mbvh"):
                self.entries[r] = k["path"].rsplit("::", 1)[-1]

    def vec(self, kind):
        v = self.E.mem[self.outer[kind]]
        return self.E.expand(v) if isinstance(v, Sym) else v

    def vec0(self, kind):
        """before the call"""
        E, r = self.E, self.outer[kind]
        m, E.mem = E.mem, {}
        try:
            v = E.region(r)
            return E.expand(v) if isinstance(v, Sym) else v
        finally:
            E.mem = m

    def entry_region(self, kind, idx):
        return mk("deref", mk("locked", mk("ref", self.outer[kind], (("i", idx),))))


def same_dd(E, c, a, b):
    """values equal wherever c holds; a and b may be opaque"""
    a, b = lift(E, a), lift(E, b)
    return same_under(c, a, b)


def lift(E, v):
    if isinstance(v, DD):
        return v
    return leaf(E.reify(v))


def written(E, region):
    """condition under which a region is stored to"""
    cond = DF
    for g, k, pl, ls, st, ln in E.events:
        if k == "store" and pl and pl[0] is region:
            cond = dor(cond, g)
    return cond


def untouched(c, E, R, site, kind, when):
    """registry vector and every entry of that kind keep their value"""
    if kind in R.outer:
        v, v0 = R.vec(kind), R.vec0(kind)
        c.ob("registry-untouched", "%s %s length" % (site, kind), same_under(when, v.len, v0.len), "is %s" % show_dd(v.len)[:200])
        j = mk("v", "other")
        INT_LO[j] = Fraction(0)
        ok = same_dd(E, dand(when, ilt(leaf(atom(j)), v0.len)), E.arr_read(v.arr, atom(j)), E.arr_read(v0.arr, atom(j)))
        c.ob("registry-untouched", "%s %s entries" % (site, kind), ok, "an entry is replaced")
    for r, k in R.entries.items():
        if k == kind:
            x = prune(dand(written(E, r), when))
            c.ob("entry-untouched", "%s %s" % (site, show(r)[-60:]), x is DF, "written when %s" % show_dd(x)[:200])


def appended(c, E, R, site, kind, when, value):
    """one new entry holding `value` exactly when `when`"""
    if kind not in R.outer:
        c.ob("stored-in-the-registry", site, False, "no registry of %s is used" % kind)
        return None
    v, v0 = R.vec(kind), R.vec0(kind)
    n0 = lf(v0.len)
    c.ob("one-new-entry", site, same_under(when, v.len, add(v0.len, leaf(ONE))), "length is %s" % show_dd(v.len)[:200])
    c.ob("nothing-stored-on-failure", site, same_under(dnot(when), v.len, v0.len), "length is %s" % show_dd(v.len)[:200])
    j = mk("v", "other")
    INT_LO[j] = Fraction(0)
    c.ob("other-entries-kept", site, same_dd(E, ilt(leaf(atom(j)), v0.len), E.arr_read(v.arr, atom(j)), E.arr_read(v0.arr, atom(j))), "an older entry changes")
    got = lift(E, E.arr_read(v.arr, n0))
    want = leaf(mk("lockval", E.reify(value)))
    c.ob("new-entry-is-the-built-tree", site, same_under(when, got, want), "is %s" % show_dd(got)[:200])
    return n0


def handle(c, E, R, site, kind, when, res, n0, fieldsof, value):
    """the handle describes entry n0"""
    reg = R.entry_region(kind, n0)
    # counts and addresses are those of the entry, whose content is the stored tree
    ent = E.region(reg)
    if isinstance(ent, T) or ent is None:
        raise Unknown("entry is not read")
    ty = [i for i, t in enumerate(E.types) if t["k"] == "adt" and t["path"] == "rtbvh::" + kind][0]
    if isinstance(ent, DD):
        ent = E.make(ty, lf(ent))
    f = E.expand(ent) if isinstance(ent, Sym) else ent
    i = get(E, res, "id")
    c.ob("handle-id", site, same_under(when, i, leaf(n0)), "is %s" % show_dd(i)[:200])
    names = [x[0] for x in E.types[f.ty]["vs"][0]["f"]]
    for cnt, ptr, src in fieldsof:
        k = names.index(src)
        n = get(E, res, cnt)
        # (the tree keeps its buffers when it is moved into its entry)
        vec = get(E, value, src)
        good = same_under(when, n, vlen(E, get(E, f, src))) or same_under(when, n, vlen(E, vec))
        c.ob("handle-count", "%s %s" % (site, cnt), good, "is %s" % show_dd(n)[:200])
        q = get(E, res, ptr)
        ok = [l for l in leaves(restrict(q, when)) if l is not BOT]

        def holder(r):
            """the entry itself, or the value on its way there: it keeps its buffers when it is moved"""
            if r is reg:
                return True
            if not (isinstance(r, tuple) and r[0] == "l" and r[1] in E.passed and 1 <= r[2] <= len(E.passed[r[1]])):
                return False
            return E.reify(E.passed[r[1]][r[2] - 1]) is E.reify(value)
        good = bool(ok) and all(l.op == "ref" and holder(l.a[0]) and len(l.a[1]) == 2 and l.a[1][0][0] == "f" and l.a[1][0][1] == k and
                                l.a[1][1] == ("i", ZERO) for l in ok)
        c.ob("handle-address", "%s %s" % (site, ptr), good, "is %s" % show_dd(q)[:200])


def vlen(E, v):
    return (E.expand(v) if isinstance(v, Sym) else v).len


def code_is(E, p, fn, r, name):
    ty = E.bodies[prog.body(p, fn)]["locals"][0]
    r = E.expand(r) if isinstance(r, Sym) else r
    k = vidx(E, ty, name)
    return apply(None, lambda x: cmp_eq(x, const(k), False), r.disc)


def iff(c, rule, site, a, b, what):
    x = prune(ite(a, dnot(b), b))
    c.ob(rule, site, x is DF, "%s differs when %s" % (what, show_dd(x)[:200]))


BVH_HANDLE = [("node_count", "nodes", "nodes"), ("index_count", "indices", "prim_indices")]
MBVH_HANDLE = [("node_count", "nodes", "m_nodes"), ("index_count", "indices", "prim_indices")]


def result_fields(E, a):
    reg = lf(a["result"]).a[0]
    return E.mem.get(reg), reg


def create(c, p, fn, names, need, fix):
    site = fn
    made = []

    def ctor(x):
        x.E.log("ctor", x.E.guard)
        v = x.E.make(x.dty, mk("v", "built%d" % len(made)))
        made.append((x.E.guard, v, x.dty))
        return v
    hooks = {}
    for b in p["bodies"]:
        if "Builder" in b["path"] and "::construct_" in b["path"] and "{closure" not in b["path"]:
            hooks[b["path"]] = ctor

    def setup(E, a):
        for i, nm in enumerate(names):
            if nm in fix:
                a[i] = leaf(const(fix[nm]))
            elif nm == "aabbs":
                a[i] = array_ptr(E, a[i], nm)
        if "kind" in names:
            k = names.index("kind")
            ty = E.bodies[prog.body(p, fn)]["locals"][k + 1]
            a[k] = enum(ty, leaf(const(vidx(E, ty, "BinnedSAH"))), [[] for _ in E.types[ty]["vs"]])
    E, r = run_as(p, fn, names, hooks=hooks, setup=setup)
    c.fn(fn)
    a = dict(zip(names, E.args))
    null = DF
    for nm in need:
        null = dor(null, M.isnull(a[nm]))
    if len(made) != 1:
        raise Unknown("%d build calls" % len(made))
    g, v, ty = made[0]
    ok = dand(dnot(null), disc_is(E, v, "Ok"))
    iff(c, "result-code", site + " Ok", code_is(E, p, fn, r, "Ok"), ok, "result Ok")
    err = payload(E, v, "Err")[0]
    err = E.expand(err) if isinstance(err, Sym) else err
    bad = dand(dnot(null), disc_is(E, v, "Err"))
    for nm in ("NoPrimitives", "InequalAabbsAndPrimitives"):
        iff(c, "result-code", "%s %s" % (site, nm), code_is(E, p, fn, r, nm), dand(bad, disc_is(E, err, nm)), "result " + nm)
    R = Reg(E)
    n0 = appended(c, E, R, site, "Bvh", ok, payload(E, v, "Ok")[0])
    if n0 is not None:
        res, reg = result_fields(E, a)
        handle(c, E, R, site, "Bvh", ok, res, n0, BVH_HANDLE, payload(E, v, "Ok")[0])
        y = prune(dand(written(E, reg), dnot(ok)))
        c.ob("handle-kept-on-failure", site, y is DF, "written when %s" % show_dd(y)[:200])
    untouched(c, E, R, site, "Mbvh", DT)
    for rg, k in R.entries.items():
        if k == "Bvh":
            c.ob("entry-untouched", site, prune(written(E, rg)) is DF, "%s is written" % show(rg)[-80:])
    c.count("exported functions")


def create_wide(c, p):
    fn, site = "create_mbvh", "create_mbvh"
    made = []

    def ctor(x):
        v = x.E.make(x.dty, mk("v", "wide"))
        made.append((x.E.guard, x.vals[0], v))
        return v
    hooks = {b["path"]: ctor for b in p["bodies"] if re.search(r"Mbvh::construct$", b["path"])}
    E, r = run_as(p, fn, ["bvh", "result"], hooks=hooks)
    c.fn(fn)
    a = dict(zip(["bvh", "result"], E.args))
    if len(made) != 1:
        raise Unknown("%d build calls" % len(made))
    g, arg, v = made[0]
    R = Reg(E)
    null = dor(M.isnull(a["result"]), dor(M.isnull(get(E, a["bvh"], "nodes")), M.isnull(get(E, a["bvh"], "indices"))))
    h = get(E, a["bvh"], "id")
    known = ilt(h, R.vec0("Bvh").len)
    ok = dand(dnot(null), known)
    iff(c, "result-code", site + " Ok", code_is(E, p, fn, r, "Ok"), ok, "result Ok")
    iff(c, "result-code", site + " Error", code_is(E, p, fn, r, "Error"), dnot(ok), "result Error")
    own_entry(c, E, R, site, g, arg, h)
    n0 = appended(c, E, R, site, "Mbvh", ok, v)
    if n0 is not None:
        res, reg = result_fields(E, a)
        handle(c, E, R, site, "Mbvh", ok, res, n0, MBVH_HANDLE, v)
    untouched(c, E, R, site, "Bvh", DT)
    c.count("exported functions")


def own_entry(c, E, R, site, g, ref, h):
    for l in leaves(restrict(ref, g)):
        if l is BOT:
            continue
        ok = l.op == "ref" and not l.a[1] and "Bvh" in R.outer and l.a[0] is R.entry_region("Bvh", lf(h))
        c.ob("tree-of-that-handle", site, ok, "works on %s" % show(l)[:200])


def trip(E, rec):
    """number of rounds of a counting loop, as a diagram"""
    k = rec.k

    def f(d):
        if d.atom is None:
            if d is DF:
                return leaf(ZERO)
            raise Unknown("no bound")
        at = d.atom
        if at.op == "ilt" and k in tsyms(at):
            s, Rr = E.linear(at.a[0], k)
            if s in (1, -1):
                # k < n on the near side of the test
                n = leaf(psub(const(at.a[1]), Rr) if s == 1 else padd(psub(Rr, const(at.a[1])), ONE))
                near, far = (d.hi, d.lo) if s == 1 else (d.lo, d.hi)
                if near is DT:
                    return n if far is DF else apply(None, pmax, n, f(far))
                if far is DF:
                    return apply(None, pmin, n, f(near))
            raise Unknown("no bound %s" % show_dd(d))
        return ite(batom(at), f(d.hi), f(d.lo))
    return f(restrict(rec.gback, rec.g0) if rec.g0 is not DT else rec.gback)


def resolve(E, d):
    """replace trip counters by their bounds"""
    for t in list(ddsyms(d)):
        if t.op == "it" and isinstance(t.a[0], int):
            d = E.substv(d, {t: trip(E, E.loops[t.a[0]])})
    return d


def refit(c, p):
    fn = site = "refit"
    calls = []

    def h(x):
        calls.append((x.E.guard, x.vals[0], x.vals[1], x.E))
        s = x.E.slice_of(x.vals[1])
        pi = mk("v", "i")
        INT_LO[pi] = Fraction(0)
        calls[-1] += (x.E.slen(s), elem_at(x.E, s, atom(pi)), atom(pi))
        return UNITV

    def setup(E, a):
        a[0] = array_ptr(E, a[0], "aabbs")
    E, r = run_as(p, fn, ["aabbs", "bvh"], hooks={b["path"]: h for b in p["bodies"] if re.search(r"(^|::)Bvh::refit$", b["path"])}, setup=setup)
    c.fn(fn)
    a = dict(zip(["aabbs", "bvh"], E.args))
    if len(calls) != 1:
        raise Unknown("%d refit calls" % len(calls))
    g, ref, s, _, n, el, pi = calls[0]
    R = Reg(E)
    null = dor(M.isnull(a["aabbs"]), dor(M.isnull(get(E, a["bvh"], "nodes")), M.isnull(get(E, a["bvh"], "indices"))))
    hd = get(E, a["bvh"], "id")
    ok = dand(dnot(null), ilt(hd, R.vec0("Bvh").len))
    iff(c, "result-code", site + " Ok", code_is(E, p, fn, r, "Ok"), ok, "result Ok")
    iff(c, "result-code", site + " Error", code_is(E, p, fn, r, "Error"), dnot(ok), "result Error")
    iff(c, "refits-exactly-known-trees", site, g, ok, "the refit")
    own_entry(c, E, R, site, g, ref, hd)
    # number of boxes: one more than the largest referenced primitive
    reg = R.entry_region("Bvh", lf(hd))
    bt = [i for i, t in enumerate(E.types) if t["k"] == "adt" and t["path"] == "rtbvh::Bvh"][0]
    m, E.mem = E.mem, {}
    try:
        ent = E.region(reg)
        ids = get(E, E.make(bt, ent.leaf) if isinstance(ent, DD) else ent, "prim_indices")
        ids = E.expand(ids) if isinstance(ids, Sym) else ids
        b = mk("b", 1)
        INT_LO[b] = Fraction(0)
        one = E.arr_read(ids.arr, atom(b))
        wants = [leaf(atom(mk("fold", "max", lf(ids.len), b, add(one, leaf(ONE))))), leaf(padd(ONE, atom(mk("fold", "max", lf(ids.len), b, one))))]
        wants += [apply(None, lambda t: pmax(const(k), t), x) for x in wants for k in (0, 1)]
    finally:
        E.mem = m
    n = resolve(E, n)
    some_ = ilt(leaf(ZERO), ids.len)
    good = any(same_under(dand(g, some_), n, x) for x in wants)
    c.ob("boxes-cover-referenced-primitives", site, good, "reads %s boxes" % show_dd(restrict(n, g))[:300])
    c.ob("boxes-cover-referenced-primitives", site + " (no primitives)", same_under(dand(g, dnot(some_)), n, leaf(ZERO)) or good and any(same_under(g, n, wants[k]) for k in (0, 2, 4)), "reads %s boxes" % show_dd(restrict(n, g))[:300])
    src = E.load(E.ptr_add(a["aabbs"], leaf(pi)))
    inb = dand(g, ilt(leaf(pi), n))
    for f, q in (("min", "min"), ("max", "max")):
        for k in range(3):
            x, y = resolve(E, get(E, el, q, k)), get(E, src, f, k)
            c.ob("box-of-that-primitive", "%s %s[%d]" % (site, q, k), same_under(inb, x, y), "is %s" % show_dd(x)[:200])
    R2 = Reg(E)
    untouched(c, E, R2, site, "Mbvh", DT)
    v, v0 = R.vec("Bvh"), R.vec0("Bvh")
    c.ob("registry-untouched", site, v.len is v0.len and v.arr is v0.arr, "the registry changes")
    c.count("exported functions")


def free(c, p, fn, kind, arrays):
    E, r = run_as(p, fn, ["bvh"])
    c.fn(fn)
    R = Reg(E)
    if kind not in R.outer:
        c.ob("frees-that-entry", fn, False, "no registry of %s is used" % kind)
        return
    h = get(E, E.args[0], "id")
    v, v0 = R.vec(kind), R.vec0(kind)
    known = ilt(h, v0.len)
    c.ob("no-handle-is-moved", fn, v.len is v0.len, "registry length is %s" % show_dd(v.len)[:200])
    j = mk("v", "other")
    INT_LO[j] = Fraction(0)
    oth = dnot(apply(None, lambda x: cmp_eq(x, atom(j), False), h))
    inr = ilt(leaf(atom(j)), v0.len)
    c.ob("other-entries-kept", fn, same_dd(E, dand(inr, oth), E.arr_read(v.arr, atom(j)), E.arr_read(v0.arr, atom(j))), "another entry is replaced")
    # content afterwards
    reg = R.entry_region(kind, lf(h))
    ty = [i for i, t in enumerate(E.types) if t["k"] == "adt" and t["path"] == "rtbvh::" + kind][0]
    now = lift(E, E.arr_read(v.arr, lf(h)))
    old = lift(E, E.arr_read(v0.arr, lf(h)))
    if same_under(known, now, old):
        ent = E.mem.get(reg)
        if ent is None:
            c.ob("frees-that-entry", fn, False, "the entry keeps its tree")
            return
        ent = E.expand(ent) if isinstance(ent, Sym) else ent
        for f in arrays:
            x = get(E, ent, f)
            x = E.expand(x) if isinstance(x, Sym) else x
            c.ob("frees-that-entry", "%s %s" % (fn, f), same_under(known, x.len, leaf(ZERO)), "%s entries are left" % show_dd(x.len)[:200])
    else:
        for l in leaves(restrict(now, known)):
            if l is BOT:
                continue
            ok = l.op == "lockval" and l.a[0].op == "agg" and sum(1 for q in l.a[0].a[0] if q.op == "coll" and q.a[0] is leaf(ZERO)) >= 2
            c.ob("frees-that-entry", fn, ok, "replaced by %s" % show(l)[:200])
    for rg, k in R.entries.items():
        if rg is reg:
            continue
        c.ob("other-entries-kept", "%s %s" % (fn, show(rg)[-40:]), prune(written(E, rg)) is DF, "is written")
    other = "Mbvh" if kind == "Bvh" else "Bvh"
    untouched(c, E, R, fn, other, DT)
    for wc, k, f, ln in panics(E):
        x = prune(wc)
        c.ob("no-panic", "%s (%s)" % (fn, k), x is DF, "when %s" % show_dd(x)[:200])
    c.count("exported functions")


def run(c):
    p = c.prog("rtbvh_rs")
    c.guard("build", "create_bvh", lambda: create(c, p, "create_bvh", ["aabbs", "count", "centers", "center_stride", "limit", "kind", "result"],
                                                  ["centers", "result"], {"center_stride": 12}))
    c.guard("build", "create_spatial_Bvh", lambda: create(
        c, p, "create_spatial_Bvh", ["aabbs", "count", "centers", "center_stride", "vertices", "vertex_stride", "triangle_stride", "limit", "result"],
        ["centers", "vertices", "result"], {"center_stride": 12}))
    c.guard("build", "create_mbvh", lambda: create_wide(c, p))
    c.guard("refit", "refit", lambda: refit(c, p))
    c.guard("free", "free_bvh", lambda: free(c, p, "free_bvh", "Bvh", ("nodes", "prim_indices")))
    c.guard("free", "free_mbvh", lambda: free(c, p, "free_mbvh", "Mbvh", ("m_nodes", "prim_indices")))
    c.floor("exported functions", 6)
