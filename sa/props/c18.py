"""C18: every ordering used for sorting is a total preorder, whatever the numbers are."""
from common import *
import mir

EXPLAIN = ("Every call of a sorting function is located in the intermediate representation of every crate function. Its comparator is reduced to the decision "
           "diagram of its result on three arbitrary elements, and the diagram is checked against the laws of a total preorder with linear "
           "reasoning over the compared keys: reflexive, antisymmetric, transitive, with transitive equivalence. Floating-point keys have to be compared by a total order of "
           "their representation, as the partial order is not one when a key is NaN; the comparator may not panic.")
ASSUME = ["integer Ord and f32::total_cmp are total orders", "a primitive's center is a function of the primitive"]
SORTS = ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key", "par_sort", "par_sort_by",
                    "par_sort_by_key", "par_sort_unstable", "par_sort_unstable_by", "par_sort_unstable_by_key", "par_sort_by_cached_key", "select_nth_unstable",
                    "select_nth_unstable_by", "select_nth_unstable_by_key", "binary_search_by", "binary_search_by_key", "is_sorted_by", "max_by", "min_by", "max_by_key", "min_by_key")
LESS, EQUAL, GREATER = 0, 1, 2


def partial(d):
    """the diagram compares floating-point quantities by their partial order"""
    seen = set()
    todo = [d]
    while todo:
        x = todo.pop()
        if x.atom is None or id(x) in seen:
            continue
        seen.add(id(x))
        todo += [x.hi, x.lo]
        if x.atom.op in ("flt", "fgt", "nan"):
            return True
    return False


def is_(o, k):
    return apply(None, lambda l: cmp_eq(l, const(k), False), o)


def site(c, p, b, line, nm, cl):
    where = "%s: %s" % (b["path"], nm)
    bi = prog.body(p, cl["path"])
    cb = p["bodies"][bi]
    c.fn(b["path"], cl["path"])
    key = "key" in nm
    syms = [mk("b", "sort", k) for k in range(3)]

    def law(ks):
        E = Engine(p, {})
        env = E.make(cb["locals"][1], mk("v", "env"))
        el = [env]
        for j, k in enumerate(ks):
            t = p["types"][cb["locals"][2 + j]]
            el.append(E.make(cb["locals"][2 + j], syms[k]))
        E.args = el
        r = E.call_body(bi, el)
        r = E.expand(r) if isinstance(r, Sym) else r
        return E, r
    if key:
        E, r = law([0])
        t = p["types"][cb["locals"][0]]
        c.ob("total-order", where, t["k"] in ("int", "bool", "char") or t["k"] == "tuple" and all(p["types"][f]["k"] in ("int", "bool", "char") for f in t["f"]),
             "sorts by a key of type %s" % t["n"])
        no_panic(c, E, where)
        return
    if cb["argc"] != 3:
        raise Unknown("a comparator of %d arguments" % (cb["argc"] - 1))
    res = {}
    for ks in ((0, 1), (1, 2), (0, 2), (1, 0), (0, 0)):
        E, r = law(ks)
        if not isinstance(r, Enum):
            raise Unknown("the comparator gives %s" % (r,))
        res[ks] = ordering(E, r)
    no_panic(c, E, where)
    if any(partial(o) for o in res.values()):
        c.ob("total-order", where, False, "floating-point keys are compared by their partial order")
        return

    def law_ob(rule, cond, what):
        never(c, rule, where, cond, what)
    L = {k: is_(o, LESS) for k, o in res.items()}
    G = {k: is_(o, GREATER) for k, o in res.items()}
    Q = {k: dnot(dor(L[k], G[k])) for k in res}
    law_ob("reflexive", dnot(Q[0, 0]), "an element is not equal to itself")
    law_ob("antisymmetric", dor(dand(L[0, 1], dnot(G[1, 0])), dand(dnot(L[0, 1]), G[1, 0])), "a < b but not b > a")
    law_ob("antisymmetric", dor(dand(G[0, 1], dnot(L[1, 0])), dand(dnot(G[0, 1]), L[1, 0])), "a > b but not b < a")
    law_ob("transitive", dand(dand(L[0, 1], L[1, 2]), dnot(L[0, 2])), "a < b < c but not a < c")
    law_ob("transitive", dand(dand(G[0, 1], G[1, 2]), dnot(G[0, 2])), "a > b > c but not a > c")
    law_ob("equivalence", dand(dand(Q[0, 1], Q[1, 2]), dnot(Q[0, 2])), "a = b = c but not a = c")


def ordering(E, r):
    """diagram over LESS, EQUAL, GREATER of an Ordering value (variants are declared in that order)"""
    return r.disc


def no_panic(c, E, where):
    ok = True
    for w, k, fn, ln in panics(E):
        if k == "assert":
            continue        # bounds of captured tables are another property
        c.ob("comparator-does-not-panic", where, False, "%s in %s line %s when %s" % (k, fn, ln, show_dd(w)[:200]))
        ok = False
    if ok:
        c.ob("comparator-does-not-panic", where, True)


def run(c):
    for name in ("rtbvh",):
        p = c.prog(name)
        seen = set()
        for b in p["bodies"]:
            if not b["local"]:
                continue
            for n, cal, ops, d, line in mir.calls(b):
                nm = cal.get("name") or ""
                if nm not in SORTS or cal.get("crate") not in ("core", "alloc", "std", "rayon"):
                    continue
                cls = [t for t in mir.mentioned_closures(p, cal)]
                k = (b["path"], nm, tuple(t["path"] for t in cls), line)
                if k in seen:
                    continue
                seen.add(k)
                c.count("sorting calls")
                where = "%s: %s" % (b["path"], nm)
                if not cls:
                    tys = [p["types"][a] for a in (cal.get("rargs") or cal.get("args") or []) if isinstance(a, int)]
                    c.ob("total-order", where, tys and all(t["k"] in ("int", "bool", "char") for t in tys), "an order that is not known to be total")
                    continue
                if len(cls) != 1:
                    c.ob("total-order", where, False, "cannot be decided: %d functions" % len(cls))
                    continue
                c.guard("total-order", where, lambda: site(c, p, b, line, nm, cls[0]))
    c.count("sorting calls", 0)
    c.floor("sorting calls", 1)
