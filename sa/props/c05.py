"""C05: builders report unusable input as errors and build only from usable input."""
from common import *

EXPLAIN = ("The three construct functions are reduced to the decision diagram of their result: the conditions on the "
           "lengths of the primitive and box slices under which each error, with which numbers, or a tree is returned. "
           "The construction itself is kept opaque; rule: the diagram equals the documented error table, and no "
           "panicking branch is reachable before construction.")
ASSUME = []
FNS = {"bvh::Builder::<'a, T>::construct_spatial_sah": "spatial_sah::SpatialSahBuilder",
       "bvh::Builder::<'a, T>::construct_binned_sah": "binned_sah::BinnedSahBuilder",
       "bvh::Builder::<'a, T>::construct_locally_ordered_clustered": "locb::LocallyOrderedClusteringBuilder"}


def construct(p, path, at_build=None):
    hooks = {}
    for b in p["bodies"]:
        if b["path"].endswith("as builders::BuildAlgorithm>::build"):
            def h(x, name=b["path"]):
                x.E.log("built", name)
                if at_build:
                    at_build(x.E, x.vals[0], name)
                return x.E.make(x.dty, mk("built", name))
            hooks[b["path"]] = h
    return run_as(p, path, ["builder"], hooks=hooks)


def facts(E):
    """conditions and lengths of the input, from the public fields of the builder"""
    f = fields(E, E.args[0])
    ab = f["aabbs"]
    ab = E.expand(ab) if isinstance(ab, Sym) else ab
    np = length(E, f["primitives"])
    given = is_some(ab)
    na = length(E, ab.vs[1][0])
    empty = apply(None, lambda x: cmp_eq(x, ZERO, False), np)
    same = apply(None, lambda x, y: cmp_eq(x, y, False), na, np)
    return f, ab, np, na, given, empty, same


def one(c, p, path, bname):
    E, r = construct(p, path)
    c.fn(path)
    f, ab, np, na, given, empty, same = facts(E)
    ok = disc_is(E, r, "Ok")
    err = payload(E, r, "Err")[0]
    none, ineq = disc_is(E, err, "NoPrimitives"), disc_is(E, err, "InequalAabbsAndPrimitives")
    mism = dand(dnot(empty), dand(given, dnot(same)))
    good = dand(dnot(empty), dnot(mism))

    def never(rule, cond, why):
        c.ob(rule, path, cond is DF, "%s when %s" % (why, show_dd(cond)))
    never("empty-input-is-rejected", dand(empty, ok), "returns a tree")
    never("empty-input-error", dand(empty, dnot(none)), "other error")
    never("count-mismatch-is-rejected", dand(mism, ok), "returns a tree")
    never("count-mismatch-error", dand(mism, dnot(ineq)), "other error")
    pay = payload(E, err, "InequalAabbsAndPrimitives")
    for k, (got, want, what) in enumerate(((pay[0], na, "boxes"), (pay[1], np, "primitives"))):
        c.ob("count-mismatch-numbers", "%s field %d" % (path, k), same_under(mism, got, want),
             "reports %s instead of the number of %s" % (show_dd(got), what))
    never("good-input-is-built", dand(good, dnot(ok)), "returns an error")
    built = DF
    kinds = set()
    for g, k, pl, ls, st, ln in E.events:
        if k == "built":
            built = dor(built, g)
            kinds.add(pl[0])
    c.ob("built-exactly-on-good-input", path, built is good, "differs when %s" % show_dd(dxor(built, good)))
    c.ob("construction-kind", path, kinds and all(bname in k for k in kinds), "uses %s" % sorted(kinds))
    for w, k, fn, ln in panics(E):
        never("no-panic-on-unusable-input", dand(w, dnot(good)), "%s in %s fails" % (k, fn))
    c.count("builders")


def run(c):
    p = c.prog()
    for path, bname in FNS.items():
        c.guard("builder-input", path, lambda: one(c, p, path, bname))
    c.floor("builders", 3)
