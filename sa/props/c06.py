"""C06: construction sees the box of primitive i at index i."""
from common import *
import c05

EXPLAIN = ("At the entry of each construction the analysed state of the builder is read: element i of its box slice, "
           "for a symbolic i, must be the result of aabb() on element i of the caller's primitives when no boxes were "
           "given, and element i of the given boxes otherwise; same for the primitive slice and both lengths.  "
           "Unordered collection of a parallel iterator (bridge, channel, sort, reversal) changes the element term.")
ASSUME = ["an indexed parallel iterator collects in order (rayon's documented guarantee)"]


def one(c, p, path):
    got = []

    def at_build(E, b, name):
        f = fields(E, b)
        i = mk("v", "i")
        INT_LO[i] = Fraction(0)
        i = atom(i)
        bx = elem_at(E, f["aabbs"], i)
        bx = E.expand(bx) if isinstance(bx, Sym) else bx
        got.append((E.guard, bx, length(E, f["aabbs"]), E.reify(elem_at(E, f["primitives"], i)),
                    length(E, f["primitives"]), f.get("max_leaf_size")))
    E, r = c05.construct(p, path, at_build)
    c.fn(path)
    f, ab, np, na, given, empty, same = c05.facts(E)
    i = atom(mk("v", "i"))
    prim = elem_at(E, f["primitives"], i)
    pref = E.index_ref(f["primitives"], (), leaf(i))
    call = [e[2][2] for e in E.events if e[1] == "call" and e[2][0] == "bvh::Primitive::aabb"]
    own = E.expand(E.make(aabb_ty(E), mk("call", "bvh::Primitive::aabb", (E.reify(pref),))))
    giv = elem_at(E, ab.vs[1][0], i)
    giv = E.expand(giv) if isinstance(giv, Sym) else giv
    rng = apply(None, lambda n: cmp_lt(i, n, False), np)
    rnga = apply(None, lambda n: cmp_lt(i, n, False), na)
    cov = DF
    for g, bx, bl, pr, pl, mls in got:
        cov = dor(cov, g)
        for cond, want, wl, what in ((dand(g, given), giv, na, "supplied"), (dand(g, dnot(given)), own, np, "computed")):
            if cond is DF:
                continue
            for part in ("min", "max"):
                for k in range(3):
                    a, b = get(E, bx, part, k), get(E, want, part, k)
                    c.ob("box-i-belongs-to-primitive-i", "%s %s %s[%d]" % (path, what, part, k), same_under(dand(cond, rng if what == "computed" else rnga), a, b),
                         "box i is %s, expected %s" % (show_dd(a)[:200], show_dd(b)[:200]))
            c.ob("box-count", "%s %s" % (path, what), same_under(cond, bl, wl), "%s boxes" % show_dd(bl))
            c.ob("primitive-i-is-the-callers", "%s %s" % (path, what), pr is E.reify(prim), "primitive i is %s" % show(pr)[:200])
            c.ob("primitive-count", "%s %s" % (path, what), same_under(cond, pl, np), "%s primitives" % show_dd(pl))
            c.count("construction entries")
            if mls is not None:
                o = f["primitives_per_leaf"]
                o = E.expand(o) if isinstance(o, Sym) else o
                want = ite(is_some(o), o.vs[1][0] if isinstance(o.vs[1][0], DD) else fresh(E, o.vs[1][0]).fs[0], leaf(ONE))
                c.ob("leaf-limit-is-the-callers", "%s %s" % (path, what), same_under(cond, mls, want),
                     "limit is %s" % show_dd(mls))
    c.ob("both-cases", path, dand(cov, given) is not DF and dand(cov, dnot(given)) is not DF, "a case never builds")


def aabb_ty(E):
    for i, t in enumerate(E.types):
        if t["k"] == "adt" and t["path"] == "aabb::Aabb" and t["args"] and E.types[t["args"][0]]["n"] == "i32":
            return i
    raise Missing("aabb::Aabb<i32>")


def run(c):
    p = c.prog()
    for path in c05.FNS:
        c.guard("boxes-in-order", path, lambda: one(c, p, path))
    c.floor("construction entries", 6)
