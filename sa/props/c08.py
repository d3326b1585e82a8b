"""C08: the boxes the binned SAH builder gives to nodes contain all primitives below them."""
import re
from common import *
from c02 import ilt, ieq, off, neg
import binned, c07, c15

EXPLAIN = ("Floating point operations are kept as they are (every operation rounds, only identical computations are equal).  The child boxes are "
           "folds over ranges of bins; bins are followed back to the loop that fills them.  Rules: that loop visits every primitive "
           "and makes the box of its bin contain the primitive's box, never shrinking any; whenever the partition predicate puts a primitive on a side, the "
           "bin the fill loop chose for it lies in the range of bins folded for that side, for the same axis; a node's own box is only "
           "enlarged by its task; the root's box is the union of all.")
ASSUME = ["boxes are finite and within +-1e34", "growing and union of boxes (C17)", "ids stay with their task (C07)"]


class Bins:
    def __init__(self, c, T, site):
        self.c, self.T, self.E, self.site = c, T, T.E, site
        self.done = {}

    def parse(self, l):
        """(array, index term, path) of an element read"""
        path = []
        t = l if l.op in ("fld", "sel") else single(l)
        while t is not None and t.op == "fld":
            path.append(t.a[1])
            t = t.a[0]
            if t.op == "poly":
                t = single(t)
        if t is None or t.op != "sel":
            raise Unknown("a box comes from %s" % show(l))
        return t.a[0], t.a[1], tuple(reversed(path))

    def source(self, base, path):
        """the loop that last wrote this part of the array's elements"""
        while isinstance(base, T_) and base.op == "mu":
            rec = self.E.loops[base.a[0]]
            key = [k for k in rec.mus if isinstance(rec.header[k], Arr) and rec.header[k].base is base]
            if len(key) != 1:
                raise Unknown("array of %s" % show(base))
            key = key[0]
            if any(overlaps(e, path) for e in rec.next[key].ents) or rec.next[key].base is not base:
                return rec, key
            init = rec.init[key]
            if init.ents:
                raise Unknown("bins are written between the loops")
            base = init.base
        raise Unknown("bins come from %s" % show(base) if isinstance(base, T_) else "bins come from nowhere")

    def fill(self, rec, key, part, a):
        """the filling loop; returns the bin index it uses for its primitive"""
        k = (rec.id, key, part, a)
        if k in self.done:
            return self.done[k]
        c, E, T = self.c, self.E, self.T
        site = "%s bins%s %s[%d]" % (self.site, [str(x[-1]) for x in key[1] if x[0] == "f"], part, a)
        ids = E.slice_of(T.t0["prim_indices"])
        n = E.slen(ids)
        begin, end = T.t0["begin"], T.t0["end"]
        inv = dand(ieq(n, apply(None, psub, end, begin)), dnot(ilt(end, begin)))
        tr = c15.trip(E, rec)
        never(c, "every-primitive-is-binned", site, dand(dand(rec.g0 if isinstance(rec.g0, DD) else DT, inv), dnot(ieq(tr, n))), "the loop does not visit every primitive")
        c.ob("every-primitive-is-binned", site + " exits", not rec.exits, "the loop can be left early")
        H, N = rec.header[key], rec.next[key]
        at = w = None
        rev = lambda x: psub(psub(x, ONE), atom(rec.k))
        for at in (leaf(atom(rec.k)), apply(None, rev, n), apply(None, lambda x, y: rev(psub(x, y)), end, begin)):
            # front to back or back to front
            m, E.mem = E.mem, {}
            try:
                pid = elem_at(E, T.t0["prim_indices"], lf(at))
                aabbs = fields(E, E.load(T.t0["builder"]))["aabbs"]
                box = get(E, E.load(E.index_ref(aabbs, (), pid)), part, a)
            finally:
                E.mem = m
            for e in N.ents:
                if e[0] != "w":
                    raise Unknown("bins are filled by %s" % e[0])
                new = get(E, rd(E, N, e[2]), "aabb", part, a)
                bad = lt(box, new) if part == "min" else lt(new, box)
                if w is None and zones.possible(dand(dand(rec.gback, inv), bad)) is None:
                    w = e[2]
            if w is not None:
                break
        c.ob("bin-contains-its-primitives", site, w is not None, "no bin is made to contain the primitive's box")
        bad = (lambda new, old: lt(old, new)) if part == "min" else (lambda new, old: lt(new, old))
        q = mk("v", "q")
        INT_LO[q] = Fraction(0)
        q = leaf(atom(q))
        other = DT
        for e in N.ents:
            new, old = [get(E, rd(E, x, e[2]), "aabb", part, a) for x in (N, H)]
            never(c, "bins-never-shrink", "%s at the written bin" % site, dand(rec.gback, bad(new, old)), "a bin's box shrinks")
            other = dand(other, dnot(ieq(q, e[2])))
        new, old = [get(E, rd(E, x, q), "aabb", part, a) for x in (N, H)]
        never(c, "bins-never-shrink", site, dand(dand(rec.gback, other), bad(new, old)), "another bin's box shrinks")
        self.done[k] = (w, at)
        if w is None:
            raise Unknown("no bin contains the primitive")
        return self.done[k]


T_ = terms.T


def overlaps(e, path):
    """a write to elements that may change the part `path`"""
    if e[0] != "w":
        return True
    p = [x[1] for x in e[3] if x[0] == "f"]
    n = min(len(p), len(path))
    return list(p[:n]) == list(path[:n])


def arms(part, t):
    """the terms whose minimum (maximum) t is"""
    s = single(t)
    if s is not None and s.op == part:
        return [y for x in s.a for y in arms(part, x)]
    return [t]


def boxes(c, p):
    T = binned.Task(p, exact=True)
    E, some = T.E, T.some
    site = binned.RUN
    c.fn(site)
    B = Bins(c, T, site)
    part = T.part
    if not part:
        raise Unknown("the ids are not partitioned")
    cnt = leaf(atom(mk("v", "count")))
    ids = E.slice_of(T.t0["prim_indices"])
    n = E.slen(ids)
    begin, end = T.t0["begin"], T.t0["end"]
    inv = dand(ieq(n, apply(None, psub, end, begin)), dnot(ilt(end, begin)))
    nb = fields(E, E.load(T.t0["builder"]))["bin_count"]
    inv = dand(inv, dnot(ilt(nb, leaf(ONE))))
    for b in range(3):
        inv = dand(inv, ieq(T.bins[b], nb))
    split = dand(inv, some)
    for k, t in enumerate(T.kids):
        f = fields(E, t)
        nm = "%s child %d" % (site, k)
        s = ite(some, E.slice_of(f["prim_indices"]), leaf(ZERO))
        s0 = c07.sr(lf(ids))[0]
        st = apply(None, lambda l: psub(c07.sr(l)[0], s0) if l is not ZERO else ZERO, s)
        ln = apply(None, lambda l: c07.sr(l)[1] if l is not ZERO else ZERO, s)
        front = dand(ieq(st, leaf(ZERO)), ieq(ln, cnt))
        back = dand(ieq(st, cnt), ieq(ln, apply(None, psub, n, cnt)))
        if zones.possible(dand(split, dnot(front))) is None:
            side = True
        elif zones.possible(dand(split, dnot(back))) is None:
            side = False
        else:
            c.ob("child-is-one-side", nm, False, "its ids are neither side of the partition")
            continue
        c.ob("child-is-one-side", nm, True)
        nbin = fields(E, E.load(f["builder"]))["bin_count"]
        for b in range(3):
            never(c, "bins-fit-the-builder", "%s bins %d" % (nm, b), dand(split, dnot(ieq(length(E, get(E, f["bins_per_axis"], b)), nbin))), "another number of bins")
        for fld in ("min", "max"):
            for a in range(3):
                v = ite(some, get(E, f["node"], "bounds", fld, a), leaf(ZERO))
                one(c, B, T, "%s %s[%d]" % (nm, fld, a), v, fld, a, side, split, part)
    # a node's own box is only enlarged
    T2 = binned.Task(p)
    E = T2.E
    for fld in ("min", "max"):
        for a in range(3):
            new = get(E, T2.t0["node"], "bounds", fld, a)
            old = pre(E, T2.t0["node"], "bounds", fld, a)
            bad = lt(old, new) if fld == "min" else lt(new, old)
            never(c, "own-box-only-grows", "%s %s[%d]" % (site, fld, a), bad, "the node's box shrinks")
    c.count("tasks")


def one(c, B, T, nm, v, fld, a, side, split, part):
    E = T.E
    found = 0
    for l in leaves(v):
        g = dand(split, binned.paths_to(v, l))
        if l is ZERO:
            if zones.possible(g) is None:
                continue
        folds = [s for s in map(single, arms(fld, l)) if s is not None and s.op == "fold" and s.a[0] == fld]
        if not folds:
            if zones.possible(g) is not None:
                c.ob("box-covers-its-side", nm, False, "the box is %s" % show(l)[:200])
            continue
        if len(folds) > 1:
            raise Unknown("several folds")
        op, n, b, body = folds[0].a
        body = body if isinstance(body, DD) else leaf(body)
        n = n if isinstance(n, DD) else leaf(n)
        n = c15.resolve(E, n)
        good, hit = DF, DF
        for bl in leaves(body):
            gb = binned.paths_to(body, bl)
            if bl.op == "skip" or zones.possible(dand(g, gb)) is None:
                continue
            base, idx, path = B.parse(bl)
            rec, key = B.source(base, path)
            w, at = B.fill(rec, key, fld, a)
            want = get(E, E.make(rec.header[key].ety, mk("sel", base, idx)), "aabb", fld, a)
            c.ob("box-takes-that-side-of-bins", "%s from %s" % (nm, [str(x[-1]) for x in key[1] if x[0] == "f"]), lf(want) is bl, "takes %s" % show(bl)[:200])
            pred = E.substv(part["pred"], {part["i"]: at})
            hit = dor(hit, pred if side else dnot(pred))
            # w = idx(b) for some b in 0..n that is taken
            d = psub(idx, atom(b))
            if b in patoms(d):
                raise Unknown("bins are visited with a stride")
            r = apply(None, lambda x: psub(x, d), w)
            good = dor(good, dand(dand(dnot(neg(r)), ilt(r, n)), E.substv(gb, {b: r})))
            found += 1
        never(c, "bin-of-a-primitive-is-on-its-side", nm, dand(dand(g, hit), dnot(good)), "a primitive's bin is not part of the box")
    c.ob("box-covers-its-side", nm, found > 0, "the box is not made from bins")


def setup(c, p):
    """the builder has bins, and the first task as many as the builder says"""
    path = [b["path"] for b in p["bodies"] if b["identity"] and re.search(r"BinnedSahBuilder::<.*>::new$", b["path"])]
    for x in path:
        b = p["bodies"][body(p, x)]
        E, r = run_as(p, x, ["a%d" % i for i in range(b["argc"])])
        c.fn(x)
        never(c, "has-bins", x, ilt(get(E, r, "bin_count"), leaf(ONE)), "no bins")
        c.count("constructors")
    path = "<builders::binned_sah::BinnedSahBuilder<'a, T> as builders::BuildAlgorithm>::build"
    seen = []

    def spawn(x):
        E = x.E
        f = fields(E, x.vals[1])
        nb = fields(E, E.load(f["builder"]))["bin_count"]
        for b in range(3):
            never(c, "bins-fit-the-builder", "%s bins %d" % (path, b), dand(E.guard, dnot(ieq(length(E, get(E, f["bins_per_axis"], b)), nb))), "another number of bins")
        seen.append(1)
        return UNITV
    hk = {"utils::TaskSpawner::run": spawn}
    for b in p["bodies"]:
        if re.search(r"(^|::)Aabb(::<.*>)?::union_of_list$", b["path"]):
            hk[b["path"]] = lambda x: x.E.make(x.dty, mk("v", "union"))
    run_as(p, path, ["self"], hooks=hk)
    c.fn(path)
    c.count("root tasks", len(seen))


def run(c):
    p = c.prog()
    c.guard("setup", "bins", lambda: setup(c, p))
    c.floor("constructors", 1)
    c.floor("root tasks", 1)
    c.guard("boxes", binned.RUN, lambda: boxes(c, p))
    c.floor("tasks", 1)
