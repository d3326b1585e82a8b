"""C10: locally ordered clustering keeps every node and every primitive."""
from common import *
from c02 import ilt, ieq
import c29, re, zones

EXPLAIN = ("One round of clustering is reduced by value flow to its guarded writes, relative to arbitrary neighbour lists. With the marks of a round being shown to be 1 "
           "exactly on the lower partner of a mutual pair and their inclusive prefix sum P giving ranks, every input node is shown to be moved exactly once, to the slot of its "
           "rank in the next level or, pairwise, to the two child slots of its pair's rank, and the parent of a pair to the upper partner's slot with a box around both; "
           "the build loop is checked by linear invariants of its range, initial leaves element-wise. Slot indices are compared by linear integer reasoning.")
ASSUME = ["neighbours lie in the current range and differ from the node itself (shown by C32)", "ranks given by an inclusive prefix sum of 0/1 marks are bijections onto 0..count",
          "at least one pair is mutual in each round (follows from C32)"]
LB = "builders::locb::LocallyOrderedClusteringBuilder::<'a, T>"
BUILD = "<builders::locb::LocallyOrderedClusteringBuilder<'a, T> as builders::BuildAlgorithm>::build"


def K(n):
    return leaf(const(n))


def plus(*ds):
    r = ds[0]
    for d in ds[1:]:
        r = apply(None, padd, r, d)
    return r


def minus(a, b):
    return apply(None, psub, a, b)


def twice(a):
    return plus(a, a)


def le_(a, b):
    return dnot(ilt(b, a))


def conj(*ds):
    r = DT
    for d in ds:
        r = dand(r, d)
    return r


def possible(d):
    return d is not DF and d is not DBOT and zones.possible(d) is not None


def sums(c, p):
    """prefix_sum: inclusive, in order, over the whole count"""
    path = "utils::prefix_sum"
    bi = [i for i, b in enumerate(p["bodies"]) if b["path"] == path and p["types"][b["locals"][0]]["k"] == "int"]
    E, r = run_as(p, bi[0] if bi else path, ["first", "count", "output"])
    c.fn(path)
    recs = [x for x in E.loops.values() if x.trip is not None]
    if len(recs) != 1:
        raise Unknown("%d counted loops" % len(recs))
    rec = recs[0]
    out = lf(E.slice_of(E.args[2])).a[0]
    n = E.args[1]
    fit = conj(le_(n, E.slen(E.slice_of(E.args[0]))), le_(n, E.slen(E.slice_of(E.args[2]))))
    gb, mb, hdr = rec.back
    # the running sum: the value written at element k after adding first[k]
    k = leafy(rec.k)
    on = conj(fit, ilt(K(0), n), le_(K(0), k))
    never(c, "prefix-sum", path + " count", dand(on, dor(dand(ilt(k, n), dnot(gb)), dand(le_(n, k), gb))), "stops early or late")
    src = E.slice_of(E.args[0])
    gb = dand(fit, gb)
    m = mb.get(out)
    m = E.expand(m) if isinstance(m, Sym) else m
    ents = m.arr.ents
    ws = [e for e in ents if e[0] == "w"]
    if len(ws) != 1:
        raise Unknown("%d writes in one round" % len(ws))
    w = ws[0]
    never(c, "prefix-sum", path + " position", conj(gb, dor(dnot(w[1]), dnot(ieq(leafy(w[2]), k)))), "writes elsewhere")
    v = w[4]
    # find the running sum among the values carried around the loop
    good = []
    cell = E.load(E.index_ref(src, (), k))
    for key, mu in rec.mus.items():
        if mu[3] != "scalar" or len(mu) > 4 or key[1] != ():
            continue
        cur, nxt = leafy(mu[2]), mb.get(key[0])
        if nxt is v and not possible(dand(gb, dnot(ieq(v, plus(cur, cell))))) and not possible(dnot(ieq(leafy(mu[1]), K(0)))):
            good.append(key)
    c.ob("prefix-sum", path + " running sum", len(good) == 1, "element k is %s" % (v,))


def leafy(x):
    return leaf(x) if isinstance(x, T) else x


class Round:
    """one round of clustering as guarded writes"""

    def __init__(self, c, p):
        self.c, self.p = c, p
        path = self.path = LB + "::cluster"
        seen = []

        def prefix(x):
            E = x.E
            first, n, out = x.vals
            s = E.slice_of(out)
            q = mk("b", "q")
            INT_LO.setdefault(q, Fraction(0))
            el = E.load(E.index_ref(E.slice_of(first), (), leaf(atom(q))))
            seen.append((E.guard, E.slice_of(first), n, lf(s), q, el))
            E.havoc(s, mk("v", "P"), None)
            return E.make(x.dty, mk("v", "total"))
        # the neighbour search is C32's: this round is read relative to arbitrary neighbour lists
        near = c29.mir.reaching(p, r"::half_area$")
        cl = sorted(p["bodies"][k]["path"] for k in near if p["bodies"][k]["path"].startswith(path + "::{closure"))

        def searches(bi, cfg, h):
            b = p["bodies"][bi]
            for k in set(cfg.orders[h]) | {h}:
                t = b["blocks"][k]["t"]
                if t and t[0] == "call" and (t[1]["path"].endswith("::half_area") or t[1].get("inst") in near):
                    return True
            return False
        hk = {"utils::prefix_sum": prefix}
        for x in cl:
            hk[x] = lambda E, f, vals: (E.log("neighbour search", vals), UNITV)[1]
        prog.body(p, "utils::prefix_sum")
        E, r = run_as(p, path, ["self", "input", "output", "neighbours", "marks", "begin", "end", "pend"], hooks=hk, skips=searches)
        self.E, self.r = E, r
        for ev in E.events:
            if ev[1] == "skipped" and any(lf(E.slice_of(E.args[k])).a[0] in ev[4] for k in (1, 2, 3, 4)):
                raise Unknown("the neighbour search runs after other writes")
        c.fn(path, *[b["path"] for b in p["bodies"] if b["path"].startswith(path + "::{") and b["path"] not in cl])
        self.b, self.e, self.pe = E.args[5:8]
        self.cnt = minus(self.e, self.b)
        if len(seen) != 1:
            raise Unknown("%d prefix sums" % len(seen))
        self.prefix = seen[0]
        self.F0 = conj(ilt(self.b, self.e), le_(self.e, self.pe), le_(self.pe, E.slen(E.slice_of(E.args[1]))), le_(self.pe, E.slen(E.slice_of(E.args[2]))),
                       le_(self.pe, E.slen(E.slice_of(E.args[3]))), le_(self.pe, E.slen(E.slice_of(E.args[4]))), ieq(self.cnt, plus(self.b, K(1))))
        self.nL = self.P(minus(self.e, K(1)))
        self.F0 = conj(self.F0, le_(K(0), self.nL), le_(twice(self.nL), self.cnt), ilt(self.nL, self.cnt))

    def P(self, idx):
        E = self.E
        v = E.load(E.index_ref(E.slice_of(E.args[4]), (), idx))
        # what the prefix sum left there, for positions of this round
        v = restrict(v, conj(le_(self.b, idx), ilt(idx, self.e)))
        return v

    def nb(self, idx):
        E = self.E
        return self.pre_elem(3, idx)

    def pre_elem(self, a, idx):
        E = self.E
        m = E.mem
        E.mem = {}
        try:
            return E.load(E.index_ref(E.slice_of(E.args[a]), (), idx))
        finally:
            E.mem = m

    def roles(self, i):
        """facts and roles of absolute position i"""
        j = self.nb(i)
        pair = ieq(self.nb(j), i)
        F = conj(self.F0, le_(self.b, i), ilt(i, self.e), le_(self.b, j), ilt(j, self.e), dnot(ieq(i, j)))
        L = dand(pair, ilt(i, j))
        R = dand(pair, ilt(j, i))
        return F, j, L, R, dnot(pair)

    def marks(self):
        c, E = self.c, self.E
        g, first, n, out, q, el = self.prefix
        path = self.path
        c.ob("prefix-sum-of-the-marks", path + " always", g is DT, "only when %s" % show_dd(g))
        never(c, "prefix-sum-of-the-marks", path + " count", dand(self.F0, dnot(ieq(n, self.cnt))), "another count")
        c.ob("prefix-sum-of-the-marks", path + " target", out.op == "sref" and out.a[0] is lf(E.slice_of(E.args[4])).a[0] and out.a[1] == (), "into %s" % show(out))
        never(c, "prefix-sum-of-the-marks", path + " target start", dand(self.F0, dnot(ieq(leafy(out.a[2]), self.b))), "starts elsewhere")
        i = plus(self.b, leaf(atom(q)))
        F, j, L, R, U = self.roles(i)
        never(c, "marks", path + " lower partner", conj(F, L, dnot(ieq(el, K(1)))), "is not marked")
        never(c, "marks", path + " other", conj(F, dor(R, U), dnot(ieq(el, K(0)))), "is marked")

    def moves(self):
        c, E, path = self.c, self.E, self.path
        reg = lf(E.slice_of(E.args[2])).a[0]
        m = E.mem.get(reg)
        m = E.expand(m) if isinstance(m, Sym) else m
        if not isinstance(m, Coll):
            raise Unknown("the output is not written")
        loops = [e for e in m.arr.ents if e[0] == "loop" and plain_copy(e) is None]
        others = [e for e in m.arr.ents if e not in loops]
        if len(loops) != 1:
            raise Unknown("%d loops write the output" % len(loops))
        _, bv, trip, ws = loops[0]
        never(c, "every-node-is-visited", path, dand(self.F0, dnot(ieq(leafy(trip), self.cnt))), "another number of nodes")
        at = m.arr
        # absolute position of a round: the loop counts from the start or from zero
        bvd = leaf(atom(bv))
        i = plus(self.b, bvd)
        F, j, L, R, U = self.roles(i)
        Pi, Pj, nL = self.P(i), self.P(j), self.nL
        n_rest = minus(self.cnt, nL)
        rank_i, rank_j = minus(minus(i, self.b), Pi), minus(minus(j, self.b), Pj)
        FL = conj(F, L, le_(K(1), Pi), le_(Pi, nL), le_(K(0), rank_j), ilt(rank_j, n_rest))
        FU = conj(F, U, le_(K(0), rank_i), ilt(rank_i, n_rest))
        ub = minus(self.b, nL)
        cb = plus(ub, n_rest)
        first = plus(cb, twice(minus(Pi, K(1))))
        slotL, slotU = plus(ub, rank_j), plus(ub, rank_i)
        ety = self.p["types"][self.ety()]
        live = [w for w in ws if w[0] == "w"]
        if len(live) != len(ws):
            raise Unknown("other effects on the output")
        for w in live:
            c.count("writes")

        def node(fact, slot, what):
            """the node a slot holds after the round of i, and whether all writes of the round are accounted for"""
            old = E.expand(E.make(self.ety(), mk("v", "old")))
            hit = False
            for _, g, idx, wp, v in live:
                same = dand(g, ieq(leafy(idx), slot))
                if not possible(dand(fact, same)):
                    continue
                if possible(dand(fact, dnot(same))):
                    raise Unknown("%s: a write that happens only sometimes" % what)
                old = E.vset(old, wp, v)
                hit = True
            return old if hit else None
        # nothing else is written
        bad = None
        for _, g, idx, wp, v in live:
            idx = leafy(idx)
            for fact, slots in ((FL, (slotL, first, plus(first, K(1)))), (FU, (slotU,)), (conj(F, R), ())):
                x = conj(fact, g, *[dnot(ieq(idx, s)) for s in slots])
                if possible(x):
                    bad = bad or "%s when %s" % (idx, zones.possible(x)[:200])
        c.ob("no-other-slot-is-written", path, bad is None, "writes %s" % bad)
        inp = {}

        def src(pos):
            return E.expand(self.pre_elem(1, pos)) if isinstance(self.pre_elem(1, pos), Sym) else self.pre_elem(1, pos)

        def is_input(fact, v, pos):
            w = src(pos)
            return v is not None and same_val(E, fact, v, w)
        u = node(FU, slotU, "unpaired")
        c.ob("unpaired-node-is-kept", path, is_input(FU, u, i), "the slot holds %s" % (u,))
        k0, k1 = node(FL, first, "first child"), node(FL, plus(first, K(1)), "second child")
        c.ob("pair-becomes-children", path, is_input(FL, k0, i) and is_input(FL, k1, j) or is_input(FL, k0, j) and is_input(FL, k1, i), "the child slots hold %s and %s" % (k0, k1))
        par = node(FL, slotL, "parent")
        if par is None:
            c.ob("parent", path, False, "no parent is written")
        else:
            cnt, lfst = get(E, par, "bounds", "extra1"), get(E, par, "bounds", "extra2")
            never(c, "parent", path + " is interior", dand(FL, le_(K(0), cnt)), "is a leaf")
            never(c, "parent", path + " children", dand(FL, dnot(ieq(lfst, first))), "points elsewhere")
            for pos, nm in ((i, "lower"), (j, "upper")):
                ch = src(pos)
                for k in range(3):
                    never(c, "parent-box-contains-children", "%s %s min %d" % (path, nm, k), dand(FL, flt_(get(E, ch, "bounds", "min", k), get(E, par, "bounds", "min", k))), "sticks out")
                    never(c, "parent-box-contains-children", "%s %s max %d" % (path, nm, k), dand(FL, flt_(get(E, par, "bounds", "max", k), get(E, ch, "bounds", "max", k))), "sticks out")
        # the level below
        q = mk("b", "q")
        qd = leaf(atom(q))
        Fq = conj(self.F0, le_(self.e, qd), ilt(qd, self.pe))
        ok = True
        for e in others:
            if e[0] not in ("copy", "w", "loop"):
                ok = False

        def tail():
            """element q after the writes outside of the round's loop"""
            x = E.arr_read(arr(mk("v", "earlier"), m.arr.ety), atom(q))
            for e in others:
                if e[0] == "loop":
                    b, off, g, val = plain_copy(e)
                    d = minus(qd, leafy(off))
                    on = conj(le_(K(0), d), ilt(d, leafy(e[2])), E.substv(g, {b: d}))
                    x = E.ite_v(on, E.substv(val, {b: d}), x)
                else:
                    y = E.arr_read(arr(mk("v", "earlier"), m.arr.ety, (e,)), atom(q))
                    z = E.arr_read(arr(mk("v", "earlier"), m.arr.ety), atom(q))
                    if len(others) > 1 and x is not z:
                        raise Unknown("several writes outside of the loop")
                    x = y
            return x
        v = tail()
        v = E.expand(v) if isinstance(v, Sym) else v
        w = src(qd)
        c.ob("finished-levels-are-copied", path, ok and same_val(E, Fq, v, w), "a node of the level below is %s" % (v,))
        Fz = conj(self.F0, dor(conj(le_(K(0), qd), ilt(qd, self.e)), le_(self.pe, qd)))
        z = tail()
        z = E.expand(z) if isinstance(z, Sym) else z
        o = E.expand(E.arr_read(arr(mk("v", "earlier"), m.arr.ety), atom(q)))
        c.ob("finished-levels-are-copied", path + " only", ok and same_val(E, Fz, z, o), "overwrites other nodes")
        r0, r1 = self.r.fs
        never(c, "next-range", path + " begin", dand(self.F0, dnot(ieq(r0, ub))), "is %s" % (r0,))
        never(c, "next-range", path + " end", dand(self.F0, dnot(ieq(r1, cb))), "is %s" % (r1,))

    def ety(self):
        t = self.p["types"]
        b = self.p["bodies"][prog.body(self.p, self.path)]
        for i in range(1, b["argc"] + 1):
            k = t[b["locals"][i]]
            if k["k"] == "ref" and t[k["e"]]["k"] == "slice" and "BvhNode" in t[k["e"]]["n"]:
                return t[k["e"]]["e"]
        raise Unknown("node type")


def plain_copy(e):
    """(counter, first index, condition, value) of a loop that writes consecutive elements once each"""
    if e[0] != "loop" or len(e[3]) != 1 or e[3][0][0] != "w" or tuple(e[3][0][3]) != ():
        return None
    b, (_, g, idx, _, val) = e[1], e[3][0]
    idx = idx.leaf if isinstance(idx, DD) and idx.atom is None else idx
    off = psub(idx, atom(b)) if isinstance(idx, T) else None
    if off is None or b in tsyms(off):
        return None
    return b, off, g, val


def flt_(a, b):
    return lt(a, b)


def same_val(E, fact, v, w):
    """two node values agree wherever fact holds"""
    v = E.expand(v) if isinstance(v, Sym) else v
    w = E.expand(w) if isinstance(w, Sym) else w
    if v is w:
        return True
    if isinstance(v, DD) and isinstance(w, DD):
        return not possible(dand(fact, apply(None, lambda a, b: FALSE if a is b else TRUE, v, w)))
    if isinstance(v, Agg) and isinstance(w, Agg) and len(v.fs) == len(w.fs):
        return all(same_val(E, fact, a, b) for a, b in zip(v.fs, w.fs))
    return False


def builder(c, p):
    path = BUILD
    calls = []

    def cluster(x):
        E = x.E
        s = [lf(E.slice_of(v)) for v in x.vals[1:5]]
        before = {k.a[0]: E.mem[k.a[0]] for k in s if k.a[0] in E.mem}
        t = tuple(E.reify(v) for v in x.vals[5:8])
        E.havoc(leaf(s[1]), mk("v", "round", t), None)
        for k in s[2:]:
            E.havoc(leaf(k), mk("v", "aux", t, k), None)
        m = leaf(atom(mk("v", "merged", t)))
        b, e = x.vals[5:7]
        nb = minus(b, m)
        calls.append((E.guard, x.vals, s, before, E.mem[s[1].a[0]], m, E))
        E.log("cluster")
        return agg("()", [nb, plus(nb, minus(minus(e, b), m))])
    hk = {LB + "::cluster": cluster,
          "morton::MortonEncoder::get_sorted_indices": lambda x: (x.E.log("sorted", *x.vals), agg("()", [x.E.make(x.E.types[x.dty]["f"][k], mk("v", ("sorted", "codes")[k])) for k in (0, 1)]))[1],
          "morton::MortonEncoder::new": lambda x: x.E.make(x.dty, mk("v", "encoder"))}
    for h in hk:
        prog.body(p, h)
    for b in p["bodies"]:
        if re.search(r"(^|::)Aabb(::<.*>)?::union_of_list$", b["path"]):
            hk[b["path"]] = lambda x: x.E.make(x.dty, mk("union", x.E.reify(x.vals[0])))
    inp = []

    def args(E, bi):
        ni = prog.body(p, LB + "::new")
        b = E.bodies[ni]
        a, q = E.make(b["locals"][1], mk("v", "aabbs")), E.make(b["locals"][2], mk("v", "prims"))
        inp.extend([a, q])
        return [E.call_body(ni, [a, q])]
    E, r = prog.run(p, path, args=args, hooks=hk)
    c.fn(path, LB + "::new")
    n = E.slen(E.slice_of(inp[0]))
    A = conj(ieq(n, E.slen(E.slice_of(inp[1]))), le_(K(1), n))
    # rounds
    if not calls:
        raise Unknown("no clustering round")
    g, vals, s, before, after, m, _ = calls[-1]
    ev = [e for e in E.events if e[1] == "cluster"]
    if len(ev) != 1 or len(ev[0][3]) != 1:
        raise Unknown("clustering does not happen in one loop")
    rec = E.loops[ev[0][3][0]]
    small, big = dand(A, dnot(rec.g0)), dand(A, rec.g0)
    q = mk("b", "q")
    INT_LO.setdefault(q, Fraction(0))
    qd = leaf(atom(q))
    f = fields(E, r)
    nodes, ids = fresh(E, f["nodes"]), fresh(E, f["prim_indices"])
    # small input: one leaf
    never(c, "small-tree", path + " node count", dand(small, dnot(ieq(nodes.len, K(1)))), "not one node")
    root = E.arr_read(nodes.arr, ZERO)
    root = E.expand(root) if isinstance(root, Sym) else root
    never(c, "small-tree", path + " leaf", dand(small, dnot(ieq(get(E, root, "bounds", "extra1"), n))), "holds another number of primitives")
    never(c, "small-tree", path + " first", dand(small, dnot(ieq(get(E, root, "bounds", "extra2"), K(0)))), "starts elsewhere")
    uni = E.expand(E.make(fields(E, root)["bounds"].ty, mk("union", E.reify(inp[0]))))
    for nm in ("min", "max"):
        for k in range(3):
            c.ob("small-tree", "%s %s %d" % (path, nm, k), same_val(E, small, get(E, root, "bounds", nm, k), get(E, uni, nm, k)), "the leaf box is %s" % (get(E, root, "bounds", nm, k),))
    never(c, "small-tree", path + " ids", dand(small, dnot(ieq(ids.len, n))), "another number of ids")
    never(c, "small-tree", path + " identity", conj(small, ilt(qd, n), dnot(ieq(E.arr_read(ids.arr, atom(q)), qd))), "another id")
    regN, regO = s[0].a[0], s[1].a[0]
    c.ob("round-arguments", path + " separate buffers", regN is not regO and all(x.op == "sref" and x.a[1] == () and x.a[2] is ZERO for x in s[:2]), "input and output overlap")
    N = leafy(s[0].a[3])
    never(c, "round-arguments", path + " node count", dand(big, dnot(ieq(N, minus(twice(n), K(1))))), "not 2n-1 nodes")
    never(c, "round-arguments", path + " output", dand(big, dnot(ieq(leafy(s[1].a[3]), N))), "another length")
    for a in s[2:]:
        never(c, "round-arguments", path + " work lists", dand(big, ilt(leafy(a.a[3]), N)), "too short")
    if s[2].a[0] is s[3].a[0]:
        lo, hi = [(leafy(x.a[2]), plus(leafy(x.a[2]), leafy(x.a[3]))) for x in s[2:]]
        never(c, "round-arguments", path + " separate work lists", dand(big, dnot(dor(le_(lo[1], hi[0]), le_(hi[1], lo[0])))), "overlap")
    b, e, pe = vals[5:8]
    mus, keys = {}, {}
    for key, mu in rec.mus.items():
        if mu[3] == "scalar" and key[1] == ():
            for nm, v in (("b", b), ("e", e), ("pe", pe)):
                if lf(v) is atom(mu[0]) or lf(v) is mu[0]:
                    mus[nm] = mu
                    keys[nm] = key
    if set(mus) != {"b", "e", "pe"}:
        raise Unknown("the range of a round is not carried by the loop")
    ib, ie, ipe = (mus[k][1] for k in ("b", "e", "pe"))
    never(c, "first-range", path + " end", dand(big, dnot(ieq(ie, N))), "does not end at the last node")
    never(c, "first-range", path + " begin", dand(big, dnot(ieq(minus(ie, ib), n))), "does not hold all leaves")
    never(c, "first-range", path + " finished", dand(big, dnot(ieq(ipe, ie))), "claims finished levels")
    inv = conj(big, ieq(minus(e, b), plus(b, K(1))), le_(K(1), minus(e, b)), le_(K(1), m), ilt(m, minus(e, b)), le_(e, pe), le_(pe, N))
    gb, mb, hdr = rec.back
    nb, ne, npe = (leafy(mb[keys[k][0]]) for k in ("b", "e", "pe"))
    loopg = conj(inv, g, gb)
    never(c, "range-of-the-next-round", path + " size", dand(loopg, dnot(ieq(minus(ne, nb), plus(nb, K(1))))), "does not match the number of nodes left to make")
    never(c, "range-of-the-next-round", path + " begin", dand(loopg, dnot(ieq(nb, minus(b, m)))), "begins elsewhere")
    never(c, "range-of-the-next-round", path + " finished", dand(loopg, dnot(ieq(npe, e))), "other finished levels")
    never(c, "round-needed", path + " a round", dand(conj(inv, g), le_(minus(e, b), K(1))), "clusters a single node")
    for t, ge, mem in rec.exits:
        never(c, "round-needed", path + " the end", conj(inv, ge, le_(K(2), minus(e, b))), "ends with several nodes")
    x, y = mb.get(regN), mb.get(regO)
    c.ob("buffers-alternate", path, aeq(E, x, after) and aeq(E, y, before.get(regN)), "the next round reads %s" % (x,))
    # result
    c.ob("tree-is-the-last-level", path, result_is(E, rec, nodes, regN, big), "the tree is taken from %s" % (nodes.arr,))
    never(c, "tree-is-the-last-level", path + " length", dand(big, dnot(ieq(nodes.len, N))), "another number of nodes")
    ss = [v for v in E.events if v[1] == "sorted"]
    c.ob("ids", path + " sorted once", len(ss) == 1 and not ss[0][3] and not possible(dand(big, dnot(ss[0][0]))), "sorted %d times" % len(ss))
    if len(ss) == 1:
        c.ob("ids", path + " of the input", lf(E.slice_of(ss[0][2][1])) is lf(E.slice_of(inp[0])) and lf(E.slice_of(ss[0][2][2])) is lf(E.slice_of(inp[1])), "sorts other primitives")
    sid = arr(mk("v", "sorted"), ids.arr.ety)
    c.ob("ids", path, same_val(E, dand(big, ilt(qd, n)), E.arr_read(ids.arr, atom(q)), E.arr_read(sid, atom(q))), "the index list is %s" % (ids.arr,))
    # leaves
    init = None
    for key, mu in rec.mus.items():
        if key[0] is regN or key[0] == regN:
            init = mu[1]
    if init is None or not hasattr(init, "ents"):
        raise Unknown("initial nodes")
    pos = plus(ib, qd)
    v = rd(E, init, pos)
    v = E.expand(v) if isinstance(v, Sym) else v
    Fq = conj(big, ilt(qd, n))
    never(c, "leaves", path + " count", dand(Fq, dnot(ieq(get(E, v, "bounds", "extra1"), K(1)))), "does not hold one primitive")
    never(c, "leaves", path + " first", dand(Fq, dnot(ieq(get(E, v, "bounds", "extra2"), qd))), "holds another entry of the index list")
    bx = E.load(E.index_ref(E.slice_of(inp[0]), (), E.arr_read(sid, atom(q))))
    Fb = conj(Fq, ilt(E.arr_read(sid, atom(q)), n))
    for k in range(3):
        never(c, "leaf-box-contains-primitive", "%s min %d" % (path, k), dand(Fb, lt(get(E, bx, "min", k), get(E, v, "bounds", "min", k))), "sticks out")
        never(c, "leaf-box-contains-primitive", "%s max %d" % (path, k), dand(Fb, lt(get(E, v, "bounds", "max", k), get(E, bx, "max", k))), "sticks out")
    return E, r, conj(A, le_(K(1), E.slen(E.slice_of(inp[1]))))


def aeq(E, a, b):
    if a is None or b is None:
        return False
    a = E.expand(a) if isinstance(a, Sym) else a
    b = E.expand(b) if isinstance(b, Sym) else b
    return a is b or isinstance(a, Coll) and isinstance(b, Coll) and a.arr is b.arr


def result_is(E, rec, nodes, reg, fact):
    """with enough primitives the nodes of the result are what the loop left in the region"""
    a = nodes.arr
    for key, mu in rec.mus.items():
        if key[0] is reg or key[0] == reg:
            want = mu[0]
            q = mk("b", "q")
            return same_val(E, fact, E.arr_read(a, atom(q)), E.arr_read(arr(want, a.ety), atom(q)) if isinstance(want, T) else E.arr_read(want, atom(q)))
    return False


def run(c):
    p = c.prog()
    c.guard("prefix-sum", "utils::prefix_sum", lambda: sums(c, p))
    box = []
    c.guard("round", LB + "::cluster", lambda: box.append(Round(c, p)))
    if box:
        c.guard("marks", LB + "::cluster", box[0].marks)
        c.guard("moves", LB + "::cluster", box[0].moves)
    c.guard("build", BUILD, lambda: builder(c, p) and None)
    c.floor("writes", 1)
