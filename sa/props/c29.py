"""C29: Morton codes interleave the clamped grid cell, and sorting by them keeps every primitive."""
from common import *
from c02 import ilt, ieq
from c07 import is_elem
import bits, mir, re, zones

EXPLAIN = ("The code of a grid cell is decided by bit provenance: an abstract interpretation of the interleaving in which every bit of every integer is 0, 1, a "
           "given input bit, or unknown; rule: result bit 3i+k is bit i of coordinate k, for all cells of the largest grid, and no checked operation can fail. The cell of a "
           "point is decided by value flow through the encoder's constructor and its use, against offset and scale of the box (real arithmetic); clamping by linear integer "
           "reasoning on every branch. The sorted list is a permutation of 0..n by the code of the primitive's centre, the codes are in primitive order.")
ASSUME = ["rounding of the affine map to the grid is not modelled", "sorting functions of std and rayon permute"]
ENC = "morton::MortonEncoder"


def interleave(c, p):
    path = ENC + "::morton_encode"
    bs = [b for b in p["bodies"] if b["path"] == path]
    if not bs:
        raise Missing(path)
    n = 10
    M = bits.Machine(p)
    args = [bits.Int([frozenset([(k, i)]) if i < n else 0 for i in range(32)], False) for k in range(3)]
    try:
        r = M.call(bs[0], args)
    except bits.Undecided as e:
        raise Unknown(str(e))
    c.fn(*M.functions)
    for i in range(32):
        want = frozenset([(i % 3, i // 3)]) if i < 3 * n else 0
        g = r.bits[i]
        c.ob("bit-of-the-code", "%s bit %d" % (path, i), g == want, "is %s" % (sorted(g) if isinstance(g, frozenset) else g,))
    c.count("checked operations", M.asserts)


def real(d):
    return lf(d)


def cell(c, p):
    path = ENC + "::encode"
    got = []

    def enc(x):
        got.append((x.E.guard, list(x.vals)))
        return leaf(atom(mk("v", "code")))
    box = {}

    def args(E, bi):
        b = E.bodies[bi]
        ni = prog.body(p, ENC + "::new")
        nb = E.bodies[ni]
        if nb["argc"] != 2 or b["argc"] != 2:
            raise Unknown("arguments of the encoder")
        aabb = E.make(nb["locals"][1], mk("v", "aabb"))
        dim = E.make(nb["locals"][2], mk("v", "dim"))
        box["a"], box["d"] = aabb, dim
        e = E.call_body(ni, [aabb, dim])
        box["new"] = list(E.events)
        ref = M.tmpref(E, e)
        return [ref if M.is_ref(E.make(b["locals"][1], mk("v", "self"))) else e, E.make(b["locals"][2], mk("v", "point"))]
    E, r = prog.run(p, path, args=args, hooks={ENC + "::morton_encode": enc})
    c.fn(path, ENC + "::new")
    if len(got) != 1:
        raise Unknown("%d codes are formed" % len(got))
    g, xs = got[0]
    c.ob("code-of-the-cell", path, g is DT and lf(r) is mk("v", "code") or lf(r) is atom(mk("v", "code")), "gives %s" % (r,))
    dim = box["d"]
    ok = ilt(leaf(ZERO), dim)
    for k in range(3):
        # the quantity that is truncated
        ts = []
        trunc_of(xs[k], ts)
        site = "%s coordinate %d" % (path, k)
        if len(ts) != 1:
            c.ob("grid-position", site, False, "%d quantities are rounded" % len(ts))
            continue
        t = ts[0]
        lo, hi = (lf(pre(E, box["a"], f, k)) for f in ("min", "max"))
        pt = coords(E, r, k)
        want = pmul(pmul(psub(pt[k], lo), lf(dim)), pinv(psub(hi, lo)))
        c.ob("grid-position", site, psub(t.a[0], want) is ZERO, "rounds %s instead of %s" % (show(t.a[0])[:200], show(want)[:200]))
        tv = leaf(atom(t))
        last = apply(None, padd, dim, leaf(const(-1)))
        never(c, "clamped", site + " below", dand(ok, dand(ilt(tv, leaf(ZERO)), dnot(ieq(xs[k], leaf(ZERO))))), "is not 0 below the grid")
        never(c, "clamped", site + " above", dand(ok, dand(ilt(last, tv), dnot(ieq(xs[k], last)))), "is not the last cell above the grid")
        never(c, "clamped", site + " inside", dand(ok, dand(dnot(ilt(tv, leaf(ZERO))), dand(dnot(ilt(last, tv)), dnot(ieq(xs[k], tv))))), "is another cell")
    for w, k, fn, ln in panics(E):
        if k != "assume":
            never(c, "no-panic", "%s line %s" % (fn, ln), dand(ok, w), "panics")
    asm = DT
    for e in box["new"]:
        if e[1] == "assume":
            asm = dand(asm, dor(dnot(e[0]), e[2][0]))
    never(c, "grid-fits-the-code", ENC + "::new", dand(dand(ok, ilt(dim, leaf(const(1025)))), dnot(asm)), "a grid that fits is refused")


def coords(E, r, k):
    """components of the point, as the code reads them"""
    out = []
    for e in E.events:
        if e[1] == "call" and e[2][0].endswith("Into::into"):
            t = E.make(result_ty(E.p, ENC + "::encode", "Into::into"), e[2][2])
            out = [lf(get(E, t, i)) for i in range(3)]
    if not out:
        raise Unknown("the point is not read")
    return out


def result_ty(p, path, callee):
    for b in p["bodies"]:
        if b["path"].startswith(path):
            for _, cal, _, d, _ in mir.calls(b):
                if cal["path"].endswith(callee) and not d[1]:
                    return b["locals"][d[0]]
    raise Unknown("no call of %s" % callee)


def trunc_of(v, out):
    seen = set()
    todo = [v]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, DD):
            todo += [x.leaf] if x.atom is None else [x.atom, x.hi, x.lo]
        elif isinstance(x, T):
            if x.op == "trunc":
                if all(x is not y for y in out):
                    out.append(x)
                continue
            todo += [y for y in flat(x.a)]


def flat(a):
    for y in a:
        if isinstance(y, (T, DD)):
            yield y
        elif isinstance(y, tuple):
            yield from flat(y)


def ordering(c, p):
    path = ENC + "::get_sorted_indices"

    def code(x):
        return code_of(x.E, x.vals[1])
    E, r = run_as(p, path, ["self", "aabbs", "primitives"], hooks={ENC + "::encode": code})
    c.fn(path)
    b = E.bodies[prog.body(p, path)]
    E.center_ty = result_ty(p, path, "Primitive::center")
    n = length(E, E.args[2])
    same = ieq(n, length(E, E.args[1]))
    sorts = [e for e in E.events if e[1] == "sort"]
    if len(sorts) != 1 or sorts[0][2][3] is None:
        raise Unknown("%d sorts with a comparison" % len(sorts))
    g, k, (s, cl, nm, law), ls, st, ln = sorts[0]
    c.ob("sorted-once", path, g is DT and not ls, "sorts only when %s" % show_dd(g))
    kind, els, res, ev = law
    inr = same
    for t in els:
        inr = dand(inr, ilt(leaf(t), n))

    def want(i):
        ref = E.index_ref(E.slice_of(E.args[2]), (), leaf(els[i]))
        return center_code(E, ref)
    if kind == "cmp":
        o = res[0, 1]
        a, b = want(0), want(1)
        for v, cond, txt in ((0, ilt(a, b), "below"), (2, ilt(b, a), "above"), (1, ieq(a, b), "equal")):
            is_v = apply(None, lambda l: cmp_eq(l, const(v), False), o.disc)
            never(c, "ordered-by-code", "%s %s" % (path, txt), dand(inr, dand(cond, dnot(is_v))), "another order")
    else:
        never(c, "ordered-by-code", path, dand(inr, dnot(ieq(res[(0,)], want(0)))), "another key")
    # what is sorted: 0..n
    out = [fresh(E, v) for v in fresh(E, r).fs]
    q = mk("b", "q")
    INT_LO[q] = Fraction(0)
    hit = 0
    for v, what in zip(out, ("indices", "codes")):
        never(c, "one-per-primitive", "%s %s" % (path, what), dand(same, dnot(ieq(v.len, n))), "another number")
    a = out[0].arr
    ents = list(a.ents)
    if not ents or ents[-1][0] != "havoc" or not (isinstance(ents[-1][4], T) and ents[-1][4].op == "sorted"):
        c.ob("permutation", path, False, "the result is changed after sorting: %s" % (a,))
    else:
        h = ents[-1]
        c.ob("permutation", path, zones.possible(dand(same, dand(h[1], dor(dnot(ieq(leafy(h[2]), leaf(ZERO))), dnot(ieq(leafy(h[3]), n)))))) is None and h[1] is DT, "sorts a part")
        base = arr(a.base, a.ety, tuple(ents[:-1]))
        x = E.arr_read(base, q)
        never(c, "permutation", path + " identity", dand(same, dand(ilt(leaf(atom(q)), n), dnot(ieq(x, leaf(atom(q)))))), "the sorted list is not 0..n")
    x = E.arr_read(out[1].arr, q)
    w = center_code(E, E.index_ref(E.slice_of(E.args[2]), (), leaf(atom(q))))
    never(c, "codes-in-primitive-order", path, dand(same, dand(ilt(leaf(atom(q)), n), dnot(ieq(x, w)))), "another code")
    for w, k, fn, ln in panics(E):
        never(c, "no-panic", "%s line %s" % (fn, ln), dand(same, w), "panics")


def users(c, p):
    """every encoder of the crate covers the boxes with a grid that fits"""
    seen = set()
    for b in p["bodies"]:
        if not b["local"] or b["path"] in seen or not b["identity"]:
            continue
        if not any(cal["path"] == ENC + "::new" for _, cal, *_ in mir.calls(b)):
            continue
        seen.add(b["path"])
        made = []
        hk = {ENC + "::new": lambda x: (made.append((x.E, x.E.guard, [fresh(x.E, x.vals[0]), x.vals[1]])), x.E.make(x.dty, mk("v", "encoder")))[1]}
        for b2 in p["bodies"]:
            if re.search(r"(^|::)Aabb(::<.*>)?::union_of_list$", b2["path"]):
                hk[b2["path"]] = lambda x: x.E.make(x.dty, mk("union", x.E.reify(x.vals[0])))
        E, r = run_as(p, b["path"], ["arg%d" % i for i in range(b["argc"])], hooks=hk)
        c.fn(b["path"])
        c.count("encoders", len(made))
        for k, (E, g, (box, dim)) in enumerate(made):
            site = "%s encoder %d" % (b["path"], k)
            never(c, "grid-fits-the-code", site, dand(g, dor(ilt(dim, leaf(const(1))), ilt(leaf(const(1024)), dim))), "the grid does not fit")
            lists = [a for i, a in enumerate(E.args) if is_boxes(p, b["locals"][i + 1])]
            v = fresh(E, box)
            want = [E.expand(E.make(v.ty, mk("union", E.reify(a)))) for a in lists]
            c.ob("grid-covers-the-boxes", site, any(v is w or all(same_under(DT, x, y) for f in ("min", "max") for x, y in zip(
                fresh(E, get(E, v, f)).fs, fresh(E, get(E, w, f)).fs)) for w in want), "the grid covers %s" % (v,))
    c.floor("encoders", 1)


def is_boxes(p, ty):
    t = p["types"][ty]
    return t["k"] == "ref" and p["types"][t["e"]]["k"] == "slice" and "Aabb" in p["types"][t["e"]]["n"]


def leafy(x):
    return leaf(x) if isinstance(x, T) else x


def code_of(E, v):
    return leaf(atom(mk("v", "code", tuple(lf(get(E, v, i)) for i in range(3)))))


def center_code(E, ref):
    """code of the centre of the primitive behind a reference"""
    for e in E.events:
        if e[1] == "call" and e[2][0].endswith("Primitive::center"):
            v = E.make(E.center_ty, mk("call", e[2][0], (E.reify(ref),)))
            return code_of(E, v)
    raise Unknown("the centre is not read")


def run(c):
    p = c.prog()
    c.guard("interleaving", ENC + "::morton_encode", lambda: interleave(c, p))
    c.guard("cell", ENC + "::encode", lambda: cell(c, p))
    c.guard("ordering", ENC + "::get_sorted_indices", lambda: ordering(c, p))
    c.guard("grid-covers-the-boxes", ENC + "::new", lambda: users(c, p))
    c.floor("checked operations", 1)
