"""C07: the binned SAH builder puts every primitive into exactly one leaf."""
from common import *
from c02 import ilt, ieq, off, neg
import binned

EXPLAIN = ("The builder works on tasks (node, ids, begin, end).  Rules: the first task covers the root node and the ids 0..n; a task either makes "
           "its node a leaf over exactly its ids, or makes it an interior node whose two children are the two nodes just allocated and hands "
           "their nodes and two adjoining non-empty parts of its ids, together all of them, to two tasks one level deeper; the ids change only "
           "by the partition, which permutes them (lemma on its loop); what is returned is these nodes and ids, cut to the number of allocated "
           "nodes. By induction over the tasks every id is in exactly one leaf.")
ASSUME = ["every task is run exactly once (C19)", "the allocator hands out each pair of nodes once (C20)", "fewer than 2^31 primitives"]


def eq(c, rule, site, g, a, b, what):
    never(c, rule, site, dand(g, dnot(ieq(a, b))), what)


def slices(E, d):
    return E.slice_of(d)


def task(c, p):
    T = binned.Task(p)
    E, some = T.E, T.some
    c.fn(binned.RUN, binned.PART)
    site = binned.RUN
    t0 = T.t0
    begin, end, depth, ids = t0["begin"], t0["end"], t0["depth"], t0["prim_indices"]
    if isinstance(ids, Sym):
        raise Unknown("prim_indices")
    ids = E.slice_of(ids)
    n = E.slen(ids)
    inv = dand(ieq(n, apply(None, psub, end, begin)), dnot(ilt(end, begin)))
    node = t0["node"]
    lfst, cnt = get(E, node, "bounds", "extra2"), get(E, node, "bounds", "extra1")
    none = dand(inv, dnot(some))
    eq(c, "leaf-over-its-ids", site + " left_first", none, lfst, begin, "a leaf starts elsewhere")
    eq(c, "leaf-over-its-ids", site + " count", none, cnt, n, "a leaf has another number of primitives")
    split = dand(inv, some)
    never(c, "interior-node-has-no-count", site, dand(split, dnot(neg(cnt))), "a split node looks like a leaf")
    # children
    pool = E.slice_of(get(E, t0["allocator"], "nodes", "slice"))
    kid = []
    for k, t in enumerate(T.kids):
        f = fields(E, t)
        nm = "%s child %d" % (site, k)
        x = restrict(f["node"], some)
        idx = []
        for l in leaves(x):
            ok = l.op == "ref" and l.a[0] is lf(pool).a[0] and len(l.a[1]) == 1 and l.a[1][0][0] == "i"
            c.ob("child-is-an-allocated-node", nm, ok, "its node is %s" % show(l)[:200])
            idx.append((l, l.a[1][0][1] if ok else ZERO))
        at = apply(None, lambda l: dict((a, b) for a, b in idx)[l] if l is not ZERO else ZERO, ite(some, f["node"], leaf(ZERO)))
        s = ite(some, E.slice_of(f["prim_indices"]), leaf(ZERO))
        for l in leaves(restrict(s, some)):
            c.ob("child-ids-are-a-part", nm, l.op == "sref" and l.a[0] is lf(ids).a[0] and l.a[1] == lf(ids).a[1], "its ids are %s" % show(l)[:200])
        st = apply(None, lambda l: psub(sr(l)[0], sr(lf(ids))[0]) if l is not ZERO else ZERO, s)
        ln = apply(None, lambda l: sr(l)[1] if l is not ZERO else ZERO, s)
        kid.append((f, at, st, ln))
        eq(c, "child-range-is-its-ids", nm + " start", split, apply(None, psub, f["begin"], begin), st, "the range and the ids differ")
        eq(c, "child-range-is-its-ids", nm + " length", split, apply(None, psub, f["end"], f["begin"]), ln, "the range and the ids differ")
        never(c, "child-is-not-empty", nm, dand(split, dnot(ilt(f["begin"], f["end"]))), "an empty child")
        eq(c, "child-is-one-level-deeper", nm, split, f["depth"], off(depth, 1), "another depth")
        for q in ("builder",):
            c.ob("child-uses-the-same-input", nm, same_under(some, f[q], t0[q]), "another %s" % q)
        same = E.slice_of(get(E, f["allocator"], "nodes", "slice"))
        c.ob("child-uses-the-same-pool", nm, same_under(some, same, pool), "another node pool")
        c.ob("child-uses-the-same-pool", nm + " counter", same_under(some, get_raw(E, f["allocator"], "counter"), get_raw(E, t0["allocator"], "counter")), "another counter")
    (f, a, _, _), (g, b, _, _) = kid
    one = dand(dand(ieq(f["begin"], begin), ieq(f["end"], g["begin"])), ieq(g["end"], end))
    two = dand(dand(ieq(g["begin"], begin), ieq(g["end"], f["begin"])), ieq(f["end"], end))
    never(c, "children-share-all-ids", site, dand(split, dnot(dor(one, two))), "the parts do not adjoin")
    one = dand(ieq(a, lfst), ieq(b, off(lfst, 1)))
    two = dand(ieq(b, lfst), ieq(a, off(lfst, 1)))
    never(c, "children-are-the-allocated-pair", site, dand(split, dnot(dor(one, two))), "left_first does not name the children")
    # the ids are only permuted
    part = T.part
    if part:
        rg = part["range"]
        if rg:
            never(c, "all-ids-are-partitioned", site, dand(dand(part["guard"], inv), dor(dnot(ieq(rg[0], leaf(ZERO))), dnot(ieq(rg[1], n)))), "a part is left out")
        c.ob("all-ids-are-partitioned", site + " slice", same_under(part["guard"], E.slice_of(part["slice"]), ids), "something else is partitioned")
    reg = lf(ids).a[0]
    q = mk("v", "q")
    INT_LO[q] = Fraction(0)
    m0 = E.mem
    E.mem = {}
    old = elem_at(E, t0["prim_indices"], atom(q))
    for what, m in (("before", part["mem"] if part else {}), ("after", m0)):
        E.mem = m
        x = elem_at(E, t0["prim_indices"], atom(q))
        good = lambda l, o: FALSE if l is o or is_elem(l, mk("v", "partitioned"), padd(sr(lf(ids))[0], atom(q))) and what == "after" else TRUE
        never(c, "ids-change-only-by-the-partition", "%s %s it" % (site, what), apply(None, good, x, old), "ids are written")
    E.mem = m0
    # nodes other than the task's own and the two children are left alone
    v = E.mem.get(lf(pool).a[0])
    if v is not None and isinstance(v, Coll):
        q = mk("v", "q")
        INT_LO[q] = Fraction(0)
        for e in v.arr.ents:
            c.ob("other-nodes-are-left-alone", site, e[0] == "w", "writes %s" % (e[0],))
            if e[0] == "w":
                never(c, "other-nodes-are-left-alone", "%s %s" % (site, show_dd(e[2])[:60]),
                      dand(dand(split, e[1]), dnot(dor(ieq(e[2], lfst), ieq(e[2], off(lfst, 1))))), "another node is written")
                never(c, "other-nodes-are-left-alone", "%s leaf %s" % (site, show_dd(e[2])[:60]), dand(none, e[1]), "a leaf writes other nodes")
    c.count("tasks")


def sr(l):
    """start and length of a slice term"""
    return l.a[2], l.a[3]


def get_raw(E, v, name):
    return fields(E, v)[name]


T_ = terms.T


def build(c, p, path, make=None):
    """the root task and the result"""
    calls = []

    def spawn(x):
        E = x.E
        calls.append((E.guard, x.vals[1], dict(E.mem)))
        f = fields(E, x.vals[1])
        for reg in (lf(E.slice_of(get(E, f["allocator"], "nodes", "slice"))).a[0], lf(E.slice_of(f["prim_indices"])).a[0]):
            v = E.mem[reg]
            v = E.expand(v) if isinstance(v, Sym) else v
            E.mem[reg] = coll(v.len, arr(mk("v", "done", len(calls), reg), v.arr.ety))
        E.log("spawned", None)
        return UNITV

    def union(x):
        return x.E.make(x.dty, mk("union", x.vals[0]))
    hk = {"utils::TaskSpawner::run": spawn}
    body(p, "utils::TaskSpawner::run")
    for b in p["bodies"]:
        if re.search(r"(^|::)Aabb(::<.*>)?::union_of_list$", b["path"]):
            hk[b["path"]] = union
    E, r = run_as(p, path, ["self"], hooks=hk)
    c.fn(path)
    site = path
    s = dict(zip(*field_list(E, E.args[0])))
    if len(calls) != 1:
        raise Unknown("%d task spawners" % len(calls))
    g, t, mem = calls[0]
    n = length(E, s["aabbs"])
    ok = dand(ieq(n, length(E, s["primitives"])), ilt(leaf(ZERO), n))
    never(c, "builds-for-valid-input", site, dand(ok, dnot(g)), "nothing is built")
    never(c, "builds-for-valid-input", site + " only", dand(g, dnot(ok)), "builds from mismatched input")
    f = fields(E, t)
    m2, E.mem = E.mem, mem
    eq(c, "root-task", site + " begin", g, f["begin"], leaf(ZERO), "starts elsewhere")
    eq(c, "root-task", site + " end", g, f["end"], n, "ends elsewhere")
    eq(c, "root-task", site + " depth", g, f["depth"], leaf(ZERO), "starts deeper")
    ids = E.slice_of(f["prim_indices"])
    st, ln = sr(lf(ids))
    eq(c, "root-task", site + " ids", g, leaf(st), leaf(ZERO), "ids start elsewhere")
    eq(c, "root-task", site + " ids length", g, leaf(ln) if isinstance(ln, T_) else ln, n, "another number of ids")
    q = mk("v", "q")
    INT_LO[q] = Fraction(0)
    x = elem_at(E, f["prim_indices"], atom(q))
    never(c, "ids-are-0-to-n", site, dand(dand(g, ilt(leaf(atom(q)), n)), dnot(ieq(x, leaf(atom(q))))), "an id is missing or doubled")
    pool = E.slice_of(get(E, f["allocator"], "nodes", "slice"))
    pr = lf(pool).a[0]
    l = lf(f["node"])
    c.ob("root-task", site + " node", l.op == "ref" and l.a[0] is pr and l.a[1] == (("i", ZERO),), "its node is %s" % show(l))
    eq(c, "root-task", site + " pool", g, leaf(sr(lf(pool))[0]), leaf(ZERO), "the pool starts elsewhere")
    never(c, "enough-nodes", site, dand(g, ilt(E.slen(pool), apply(None, lambda k: psub(pscale(k, 2), ONE), n))), "room for %s nodes" % show_dd(E.slen(pool)))
    # the box of the root
    root = get(E, elem_at(E, pool, ZERO), "bounds")
    want = [a for e in [root] for a in sym_terms(e) if a.op == "union"]
    c.ob("root-box-is-the-union", site, bool(want) and all(same_under(g, E.slice_of(a.a[0]), E.slice_of(s["aabbs"])) for a in want), "the root's box is %s" % (root,))
    E.mem = m2
    # result
    bn, bi = get(E, r, "nodes"), get(E, r, "prim_indices")
    bn, bi = [E.expand(v) if isinstance(v, Sym) else v for v in (bn, bi)]
    ir = lf(ids).a[0]
    x = E.arr_read(bi.arr, atom(q))
    never(c, "returns-the-ids", site, dand(dand(g, ilt(leaf(atom(q)), n)), apply(None, lambda l: FALSE if is_elem(l, mk("v", "done", 1, ir), atom(q)) else TRUE, x)), "other ids are returned")
    eq(c, "returns-the-ids", site + " length", g, bi.len, n, "another number of ids")
    for fld in (("min", 0), ("max", 2), ("extra1",), ("extra2",)):
        inr = dand(g, dand(ilt(leaf(atom(q)), bn.len), ilt(leaf(atom(q)), E.slen(pool))))
        a = get(E, E.arr_read(bn.arr, atom(q)), "bounds", *fld)
        b = get(E, E.make(bn.arr.ety, mk("sel", mk("v", "done", 1, pr), atom(q))), "bounds", *fld)
        never(c, "returns-the-nodes", "%s %s" % (site, fld[0]), dand(inr, apply(None, lambda x, y: FALSE if x is y else TRUE, a, b)), "other nodes are returned")
    ctr = lf(get_raw(E, f["allocator"], "counter"))
    ev = [e for e in E.events if e[1] == "atomic" and e[2][0] == "load"]
    after = [i for i, e in enumerate(E.events) if e[1] == "spawned"]
    loads = [e[2][-1] for i, e in enumerate(E.events) if e[1] == "atomic" and e[2][0] == "load" and lf(e[2][1]) is ctr and after and i > after[0]]
    c.ob("returns-all-allocated-nodes", site, any(same_under(g, bn.len, x) or same_under(g, bn.len, apply(None, pmin, x, E.slen(pool))) for x in loads) or same_under(g, bn.len, E.slen(pool)),
         "returns %s nodes" % show_dd(restrict(bn.len, g))[:200])
    c.count("builders")
    return E, r, g


def is_elem(l, base, i):
    l = l if l.op == "sel" else (single(l) or l)
    return l.op == "sel" and l.a[0] is base and l.a[1] is i


def field_list(E, v):
    return binned.field_list(E, v)


def sym_terms(v):
    """atoms in the scalar parts of a value"""
    out = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, Sym):
            out |= set(patoms(x.t if hasattr(x, "t") else x.a))
        elif isinstance(x, Agg):
            st += list(x.fs)
        elif isinstance(x, DD):
            for l in leaves(x):
                out |= set(patoms(l))
    return out


import re


def run(c):
    p = c.prog()
    c.guard("partition", binned.PART, lambda: binned.partition_lemma(c, p))
    c.guard("task", binned.RUN, lambda: task(c, p))
    path = "<builders::binned_sah::BinnedSahBuilder<'a, T> as builders::BuildAlgorithm>::build"
    c.guard("build", path, lambda: build(c, p, path) and None)
    c.floor("tasks", 1)
    c.floor("builders", 1)
    c.floor("partition loops", 1)
