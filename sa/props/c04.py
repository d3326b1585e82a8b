"""C04: traversals stay inside the tree, the primitives and their own stack, for every depth of tree."""
from common import *
import c02, c03
from c02 import find, neg, ilt, ieq, off, w

EXPLAIN = ("Every indexed access (checked or not) in the eight iterators, their constructors and what they call is an obligation. With the "
           "invariant 'cursors are not negative and every stack entry up to the stack pointer is a node of the tree', which is shown to hold "
           "initially and to be kept by every round and return of next(), a node access must be a stack entry, the root of a non-empty "
           "tree or a child of the interior node at hand; an index access must lie in the leaf's range; a primitive access needs a length "
           "check; an array access must be in bounds. The stack type is shown to behave as an unbounded array: its writing access "
           "never goes out of bounds, leaves other entries alone and makes the entry readable.")
ASSUME = ["well-formed tree (children and ranges in bounds)", "memory for the stack can be allocated"]
ITERS = list(c02.ITERS) + list(c03.ITERS)
ACCESS = ("index", "unchecked", "stack_index", "assert")


def sref_len(E, s):
    return E.slen(s)


class Where:
    """what is being accessed"""

    def __init__(self, E, nodes, idx, prims, stack):
        self.E, self.nodes, self.idx, self.prims, self.stack = E, nodes, idx, prims, stack

    def of(self, s):
        l = s.leaf if isinstance(s, DD) and s.atom is None else None
        if l is None:
            return None
        for nm in ("nodes", "idx", "prims"):
            x = getattr(self, nm)
            if x is not None and x.atom is None and isinstance(l, T) and l.op == "sref" and l.a[0] is x.leaf.a[0]:
                return nm if l is x.leaf else None
        return "local"


def accesses(c, E, path, pre, ok, wh, loop):
    """one obligation per access; ok maps what -> condition on the index"""
    n = 0
    for g, k, pl, ls, st, ln in E.events:
        if k not in ACCESS or bool(ls) != loop:
            continue
        if len(ls) > 1:
            raise Unknown("access in a nested loop")
        site = "%s (%s:%s)" % (path, (st[-1] if st else "?").rsplit("::", 1)[-1], ln)
        g = dand(g, pre)
        if g is DF:
            continue
        if k == "assert":
            if "BoundsCheck" not in str(pl[0]):
                continue
            n += 1
            w(c, "array-access-in-bounds", site, dand(g, dnot(pl[1])), "index out of bounds")
            continue
        n += 1
        s, i = pl[0], pl[1]
        if k == "stack_index":
            what = "stack" if pl[2].endswith("::index") else "push"
        else:
            what = wh.of(s)
        if what is None:
            c.ob("access-in-bounds", site, False, "cannot tell what is accessed: %s" % show_dd(s)[:200])
        elif what in ok:
            w(c, "%s-access-in-bounds" % {"idx": "index", "nodes": "node", "prims": "primitive"}.get(what, what), site,
              dand(g, dnot(ok[what](i))), "index out of bounds")
        else:
            w(c, "array-access-in-bounds", site, dand(g, dnot(dand(dnot(neg(i)), ilt(i, sref_len(E, s))))), "index out of bounds")
    return n


def setup(p, ty):
    path = find(p, ty, "next")
    E, r, s = prog.rounds(p, path, ["it"])
    E.mem = s.headmem
    return path, E, s


def slot(E, st):
    return get(E, st, "stack_ptr"), E.expand(get(E, st, "stack")).arr


def symq():
    q = mk("v", "depth")
    INT_LO[q] = Fraction(0)
    return leaf(atom(q))


def stack_kept(c, E, path, what, g, st, sp, S, extra):
    """every entry up to the stack pointer is an old one or one of the given new nodes"""
    sp2, S2 = slot(E, st)
    q = symq()
    x = rd(E, S2, q)
    okv = dand(ilt(q, off(sp, 1)), dnot(c03.differ(x, rd(E, S, q))))
    for cond, v in extra:
        okv = dor(okv, dand(cond, ieq(x, v)))
    w(c, "stack-holds-only-nodes", "%s %s" % (path, what), dand(g, dand(ilt(q, off(sp2, 1)), dnot(okv))), "an entry is no node")
    w(c, "stack-pointer-not-below-minus-one", "%s %s" % (path, what), dand(g, ilt(sp2, leaf(const(-1)))), "stack pointer too low")


def binary(c, p, ty):
    prims = c02.ITERS[ty][2]
    path, E, s = setup(p, ty)
    c.fn(path)
    H = s.head
    sp, S = slot(E, H)
    i = get(E, H, "i")
    nodes, idx = get(E, H, "nodes"), get(E, H, "indices")
    pr = get(E, H, "primitives") if prims else None
    top = rd(E, S, sp)
    nd = elem_at(E, nodes, top)
    cnt, lf0 = get(E, nd, "bounds", "extra1"), get(E, nd, "bounds", "extra2")
    some = dnot(neg(sp))
    isleaf = dand(some, dnot(neg(cnt)))
    inter = dand(some, dand(neg(cnt), dnot(neg(lf0))))
    pre = dand(dnot(neg(i)), dnot(ilt(sp, leaf(const(-1)))))
    pre = dand(pre, dnot(dand(isleaf, neg(lf0))))       # a leaf's range starts inside of the index array
    ok = {"nodes": lambda x: dor(dand(some, ieq(x, top)), dand(inter, dor(ieq(x, lf0), ieq(x, off(lf0, 1))))),
          "idx": lambda x: dand(isleaf, dand(dnot(ilt(x, lf0)), ilt(x, apply(None, padd, lf0, cnt)))),
          "stack": lambda x: dand(dnot(neg(x)), dnot(ilt(sp, x))),
          "push": lambda x: dnot(neg(x))}
    if prims:
        ok["prims"] = lambda x: dand(dnot(neg(x)), ilt(x, length(E, pr)))
    n = accesses(c, E, path, pre, ok, Where(E, E.slice_of(nodes), E.slice_of(idx), E.slice_of(pr) if prims else None, None), True)
    c.count("accesses", n)
    kids = [(inter, lf0), (inter, off(lf0, 1))]
    for what, g, st in [("round", s.stay, s.next)] + [("return %d" % k, o[0], o[2]) for k, o in enumerate(s.outs)]:
        g = dand(g, pre)
        stack_kept(c, E, path, what, g, st, sp, S, kids)
        w(c, "cursor-not-negative", "%s %s" % (path, what), dand(g, neg(get(E, st, "i"))), "cursor is negative")
    c.count("iterators")


def wide(c, p, ty):
    prims = c03.ITERS[ty][1]
    path, E, s = setup(p, ty)
    c.fn(path)
    H = s.head
    sp, S = slot(E, H)
    cur, i, j = (get(E, H, f) for f in ("current", "i", "j"))
    nodes, idx, hit = get(E, H, "nodes"), get(E, H, "indices"), get(E, H, "hit")
    pr = get(E, H, "primitives") if prims else None
    ids = [get(E, hit, "ids", k) for k in range(4)]
    inside = dand(dnot(neg(cur)), ilt(cur, length(E, nodes)))
    four = leaf(const(4))
    pre = dand(dand(dnot(neg(i)), dnot(neg(j))), dnot(ilt(sp, leaf(const(-1)))))
    pre = dand(pre, dnot(neg(cur)))
    for k in range(4):
        pre = dand(pre, dor(dnot(inside), dand(dnot(neg(ids[k])), ilt(ids[k], four))))
    some = dnot(neg(sp))
    top = rd(E, S, sp)
    nd = elem_at(E, nodes, cur)
    lanes = [(get(E, nd, "counts", l), get(E, nd, "children", l)) for l in range(4)]
    inl, leafl = [], []
    for n, (cnt, lf0) in enumerate(lanes):
        leafl.append(dand(inside, dnot(neg(cnt))))
        inl.append((dand(inside, dand(neg(cnt), dnot(neg(lf0)))), lf0))
        pre = dand(pre, dnot(dand(leafl[-1], neg(lf0))))

    def in_range(x):
        r = DF
        for l, (cnt, lf0) in zip(leafl, lanes):
            r = dor(r, dand(l, dand(dnot(ilt(x, lf0)), ilt(x, apply(None, padd, lf0, cnt)))))
        return r

    ok = {"nodes": lambda x: dor(dand(some, ieq(x, top)), dand(inside, ieq(x, cur))), "idx": in_range,
          "stack": lambda x: dand(dnot(neg(x)), dnot(ilt(sp, x))), "push": lambda x: dnot(neg(x))}
    if prims:
        ok["prims"] = lambda x: dand(dnot(neg(x)), ilt(x, length(E, pr)))
    n = accesses(c, E, path, pre, ok, Where(E, E.slice_of(nodes), E.slice_of(idx), E.slice_of(pr) if prims else None, None), True)
    c.count("accesses", n)
    for what, g, st in [("round", s.stay, s.next)] + [("return %d" % k, o[0], o[2]) for k, o in enumerate(s.outs)]:
        g = dand(g, pre)
        stack_kept(c, E, path, what, g, st, sp, S, inl)
        for f in ("i", "j"):
            w(c, "cursor-not-negative", "%s %s %s" % (path, f, what), dand(g, neg(get(E, st, f))), "cursor is negative")
        cur2 = get(E, st, "current")
        w(c, "current-is-a-node", "%s %s" % (path, what), dand(g, dnot(dor(ieq(cur2, cur), dand(some, ieq(cur2, top))))), "visits no node")
    c.count("iterators")


def start(c, p, ty, bi, path, wide_):
    E = Engine(p)
    b = E.bodies[bi]
    E.entry = bi
    E.args = [E.make(b["locals"][i + 1], mk("v", "arg%d" % i)) for i in range(b["argc"])]
    r = E.call_body(bi, E.args)
    c.fn(path)
    n = accesses(c, E, path, DT, {"stack": lambda x: ieq(x, leaf(ZERO)), "push": lambda x: dnot(neg(x))}, Where(E, None, None, None, None), False)
    c.count("accesses", n)
    sp = get(E, r, "stack_ptr")
    nodes = get(E, r, "nodes")
    some = dnot(ilt(length(E, nodes), leaf(ONE)))
    if wide_:
        ok = ieq(sp, leaf(const(-1)))
        c.ob("starts-with-the-invariant", "%s current" % path, get(E, r, "current") is leaf(ZERO), "visits no node")
        h = get(E, r, "hit")
        for k in range(4):
            x = get(E, h, "ids", k)
            w(c, "starts-with-the-invariant", "%s lane %d" % (path, k), dand(some, dor(neg(x), dnot(ilt(x, leaf(const(4)))))), "lane out of range")
    else:
        S = E.expand(get(E, r, "stack")).arr
        ok = dor(ieq(sp, leaf(const(-1))), dand(some, dand(ieq(sp, leaf(ZERO)), ieq(rd(E, S, leaf(ZERO)), leaf(ZERO)))))
    w(c, "starts-with-the-invariant", "%s stack" % path, dnot(ok), "an entry is no node")
    for f in ("i", "j") if wide_ else ("i",):
        w(c, "starts-with-the-invariant", "%s %s" % (path, f), neg(get(E, r, f)), "cursor is negative")
    c.count("entry points")


def checks_of(E, exact=True):
    for g, k, pl, ls, st, ln in E.events:
        if k in ("index", "unchecked"):
            yield g, ln, dand(dnot(neg(pl[1])), ilt(pl[1], E.slen(pl[0]))), k
        elif k == "assert":
            yield g, ln, pl[1], k
        elif k == "diverge":
            yield g, ln, DF, k
        elif k == "slice":
            yield g, ln, DF, k


def stack_type(p):
    """the types of the `stack` fields of the iterators"""
    out = set()
    for t in p["types"]:
        if t["k"] == "adt" and t["path"].rsplit("::", 1)[-1] in ITERS:
            for f in t["vs"][0]["f"]:
                if f[0] == "stack":
                    out.add(p["types"][f[1]]["path"] if p["types"][f[1]]["k"] == "adt" else p["types"][f[1]]["n"])
    return out


def stack_lemma(c, p):
    tys = stack_type(p)
    c.ob("stack-grows", ", ".join(sorted(tys)), tys == {"utils::TraversalStack"}, "a stack that is not known to grow")
    base = "<utils::TraversalStack as std::ops::"
    wr, rdx = base + "IndexMut<usize>>::index_mut", base + "Index<usize>>::index"
    c.fn(wr, rdx)

    def engine():
        E = Engine(p)
        E.logical = {}
        return E
    E = engine()
    bi = body(p, wr)
    b = E.bodies[bi]
    i, j = mk("v", "i"), mk("v", "j")
    for x in (i, j):
        INT_LO[x] = Fraction(0)
    i, j = leaf(atom(i)), leaf(atom(j))
    ref = E.make(b["locals"][1], mk("v", "stack"))
    region = ref.leaf.a[0]
    ri = body(p, rdx)

    def read(at):
        """value at an index, and when reading it works"""
        n = len(E.events)
        r = E.call_body(ri, [ref, at])
        good = DT
        for g, k, pl, ls, st, ln in E.events[n:]:
            for g2, _, cond, _ in checks_of(_One(E, (g, k, pl, ls, st, ln))):
                good = dand(good, dnot(dand(g2, dnot(cond))))
        return E.load(r), good
    old_j, had_j = read(j)
    n = len(E.events)
    r = E.call_body(bi, [ref, i])
    for ev in E.events[n:]:
        for g, ln, cond, k in checks_of(_One(E, ev)):
            w(c, "stack-write-in-bounds", "%s (%s:%s)" % (wr, k, ln), dand(g, dnot(cond)), "access out of bounds")
            c.count("stack accesses")
    new = leaf(atom(mk("v", "new")))
    E.store(r, (), new)
    v_i, ok_i = read(i)
    w(c, "stack-entry-is-readable", wr, dnot(ok_i), "the written entry cannot be read")
    w(c, "stack-entry-is-kept", wr + " same entry", c03.differ(v_i, new), "another value is read")
    v_j, ok_j = read(j)
    oth = dand(dnot(ieq(i, j)), had_j)
    w(c, "stack-entry-is-readable", wr + " other entry", dand(oth, dnot(ok_j)), "another entry cannot be read any more")
    w(c, "stack-entry-is-kept", wr + " other entry", dand(oth, c03.differ(v_j, old_j)), "another entry changes")
    # entry 0 of a new stack is readable
    E = engine()
    mkr = body(p, "utils::TraversalStack::new")
    c.fn("utils::TraversalStack::new")
    st = E.call_body(mkr, [])
    reg = mk("newstack")
    E.mem[reg] = st
    E.rty[reg] = E.bodies[mkr]["locals"][0]
    r = E.call_body(ri, [leaf(mk("ref", reg, ())), leaf(ZERO)])
    for ev in E.events:
        for g, ln, cond, k in checks_of(_One(E, ev)):
            w(c, "stack-entry-is-readable", "%s new stack (%s:%s)" % (rdx, k, ln), dand(g, dnot(cond)), "the first entry cannot be read")
    w(c, "new-stack-starts-with-the-root", "utils::TraversalStack::new", dnot(ieq(E.load(r), leaf(ZERO))), "the first entry is not the root")


class _One:
    """one event of an engine"""

    def __init__(self, E, ev):
        self.events, self.slen = [ev], E.slen


def run(c):
    p = c.prog()
    c.guard("stack", "TraversalStack", lambda: stack_lemma(c, p))
    for ty in ITERS:
        f = binary if ty in c02.ITERS else wide
        c.guard("next", ty, lambda: f(c, p, ty))
        for bi, path in c02.makers(p, ty):
            c.guard("start", path, lambda: start(c, p, ty, bi, path, ty in c03.ITERS))
    for fn in ("intersect", "intersect4"):
        c.guard("lane-order", fn, lambda: c03.permutation(c, p, fn))
    c.floor("iterators", 8)
    c.floor("entry points", 32)
    c.floor("accesses", 40)
    c.floor("stack accesses", 1)
