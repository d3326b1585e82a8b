"""One run of the binned builder's task, shared by C07 and C08."""
from common import *
from c02 import w, ilt, ieq, off, neg
import models, c15

RUN = "<builders::binned_sah::BinnedSahBuildTask<'a, T> as utils::Task>::run"
PART = "utils::partition"


class Task:
    """the task after run(); `part` describes the call that partitions the primitive ids"""

    def __init__(self, p, exact=False):
        self.part = None
        opq = [0]

        def opaque(x):
            # measures of a box that only steer the heuristic; pure
            opq[0] += 1
            return x.E.make(x.dty, mk("v", x.path.rsplit("::", 1)[-1], opq[0]))

        def part(x):
            E = x.E
            if self.part:
                raise Unknown("the primitive ids are partitioned twice")
            i = mk("b", "elem")
            INT_LO[i] = Fraction(0)
            sl = E.slice_of(x.vals[0])
            self.part = dict(guard=E.guard, slice=x.vals[0], len=E.slen(sl), mem=dict(E.mem), i=i,
                             range=[lf2(f) for f in E.expand(x.vals[1]).fs] if isinstance(x.vals[1], (Agg, Sym)) and len(x.vals) == 3 else None)
            ref = E.index_ref(x.vals[0], (), leaf(atom(i)))
            self.part["value"] = E.load(ref)
            self.part["pred"] = E.call_value(x.vals[-1], [ref], None, None)
            if any(E.mem.get(k) is not v for k, v in self.part["mem"].items()):
                raise Unknown("the partition predicate has side effects")
            reg = set(l.a[0] for l in leaves(sl))
            for r in reg:
                E.mem[r] = E.make(E.rty[r], mk("v", "partitioned")) if r in E.rty else havoc(E, r)
            n = mk("v", "count")
            INT_LO[n] = Fraction(0)
            return leaf(atom(n))

        def lf2(f):
            return f
        hooks = {PART: part}
        for b in p["bodies"]:
            if re_measure(b["path"]):
                hooks[b["path"]] = opaque
        body(p, PART)
        models.EXACT[0] = exact
        try:
            self.E, self.r = run_as(p, RUN, ["task"], hooks=hooks)
        finally:
            models.EXACT[0] = False
        E = self.E
        self.t0 = dict(zip(*field_list(E, E.args[0])))
        self.some = is_some(self.r)
        m, E.mem = E.mem, {}
        self.bins = [length(E, get(E, self.t0["bins_per_axis"], k)) for k in range(3)]
        E.mem = m
        pay = self.r.vs[1][0]
        self.kids = [get(E, pay, 0), get(E, pay, 1)]


def havoc(E, r):
    v = E.mem.get(r)
    if isinstance(v, Sym):
        return E.make(v.ty, mk("v", "partitioned"))
    if isinstance(v, Coll):
        return coll(v.len, arr(mk("v", "partitioned"), v.arr.ety))
    raise Unknown("cannot forget %r" % (v,))


def field_list(E, v):
    v = E.expand(v) if isinstance(v, Sym) else v
    return [f[0] for f in E.types[v.ty]["vs"][0]["f"]], v.fs


def re_measure(path):
    return path.startswith("aabb::") and path.rsplit("::", 1)[-1] in ("half_area", "area", "volume", "longest_axis")


def partition_lemma(c, p):
    """elements for which the predicate holds end up in front, their number is returned, nothing is lost"""
    def setup(E, a):
        rg = E.expand(a[1]) if isinstance(a[1], Sym) else a[1]
        a[1] = agg(rg.ty, [leaf(ZERO), rg.fs[1]])
    E, r = run_as(p, PART, ["slice", "range", "check"], setup=setup)
    c.fn(PART)
    site = PART
    end = E.args[1].fs[1]
    recs = [x for x in E.loops.values() if x.__dict__.get("gback") is not None]
    if len(recs) != 1:
        raise Unknown("%d loops" % len(recs))
    rec = recs[0]
    arrs = [k for k, i in rec.mus.items() if i[3] == "arr"]
    if len(arrs) != 1:
        raise Unknown("one changing array expected")
    H, N = rec.header[arrs[0]], rec.next[arrs[0]]
    room = dnot(ilt(E.slen(E.slice_of(E.args[0])), end))
    c.ob("whole-range", site + " exits", not rec.exits, "the loop can be left early")
    never(c, "whole-range", site, dand(room, dnot(ieq(leaf(rec.trip) if rec.trip is not None else c15.trip(E, rec), end))), "the loop does not visit the whole range")
    k = leaf(atom(rec.k))
    cnt = [x for x in rec.mus if isinstance(rec.header[x], DD) and x is not arrs[0] and same_under(DT, rec.header[x], r)]
    if len(cnt) != 1:
        raise Unknown("which counter is returned")
    C, C2 = rec.header[cnt[0]], rec.next[cnt[0]]
    for t in ddsyms(C):
        if t.op == "mu":
            INT_LO[t] = Fraction(0)
    inv = dnot(ilt(k, C))
    never(c, "counts-from-zero", site, dnot(ieq(rec.init[cnt[0]], leaf(ZERO))), "the count starts elsewhere")
    never(c, "count-is-at-most-the-position", site, dand(inv, dor(ilt(off(k, 1), C2), ilt(C2, C))), "the count leaves the visited part")
    here = E.arr_read(H, atom(rec.k))
    P = [a for a in set(atoms(C2)) if a.op == "call" and lf(here) in a_terms(a)]
    if len(P) != 1:
        raise Unknown("the count does not depend on the predicate of the current element")
    P = batom(P[0])
    q = mk("v", "q")
    INT_LO[q] = Fraction(0)
    q = leaf(atom(q))
    v = E.arr_read(N, lf(q))
    for l in leaves(v):
        t = l if l.op == "sel" else single(l)
        if t is None or t.op != "sel" or t.a[0] is not H.base:
            raise Unknown("an element becomes %s" % show(l))
        g = dand(inv, paths_to(v, l))
        t = leaf(t.a[1])
        known = lambda lo, hi, pk: dor(dand(ieq(t, k), pk), dand(dnot(ilt(t, lo)), ilt(t, hi)))
        never(c, "front-part-passes", "%s %s" % (site, show_dd(t)), dand(dand(g, ilt(q, C2)), dnot(known(leaf(ZERO), C, P))), "an element in front fails the predicate")
        never(c, "back-part-fails", "%s %s" % (site, show_dd(t)), dand(dand(g, dand(dnot(ilt(q, C2)), dnot(ilt(k, q)))), dnot(known(C, k, dnot(P)))),
          "an element behind passes the predicate")
        back = rd(E, N, t)
        def other(l):
            s = l if l.op == "sel" else single(l)
            return dnot(ieq(leaf(s.a[1]), q)) if s is not None and s.op == "sel" and s.a[0] is H.base else DT
        x = apply(None, other, back)
        never(c, "nothing-is-lost", "%s %s" % (site, show_dd(t)), dand(g, x), "an element is lost or doubled")
    c.count("partition loops")


def a_terms(a):
    return patoms(a)


def paths_to(v, l):
    """condition under which diagram v has leaf l"""
    return apply(None, lambda x: TRUE if x is l else FALSE, v)
