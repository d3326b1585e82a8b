"""C13: the C interface builds trees from the caller's arrays and hands out nodes in its documented layout."""
from common import *
from c01 import *  # noqa
from c02 import ilt, ieq, w
from c14 import array_ptr

EXPLAIN = ("Layout rules compare the compiler's size, alignment and field offsets of each C struct with the Rust struct it is read as. Value rules reduce the "
           "conversions to their fields and the exported build functions to the builder they call: which build algorithm, "
           "the boxes (absent exactly for a null pointer, else element i is the caller's box i), the leaf limit and, for a symbolic primitive index, the "
           "centre, vertices and box computed by the primitive's own methods in terms of the caller's arrays and strides.")
ASSUME = ["strides are multiples of four bytes; the caller's arrays fit the address space", "coordinates within +-1e30"]


def adt(p, path):
    r = [t for t in p["types"] if t["k"] == "adt" and t["path"] == path and t.get("layout")]
    if not r:
        raise Missing("type " + path)
    return r[0]


def layout(p, t, name):
    fs = [f[0] for f in t["vs"][0]["f"]]
    if name not in fs:
        raise Missing("field %s of %s" % (name, t["path"]))
    i = fs.index(name)
    return t["layout"]["offs"][i], size(p, t["vs"][0]["f"][i][1])


def size(p, i):
    t = p["types"][i]
    if t["k"] == "adt":
        return t["layout"]["size"]
    if t["k"] == "array":
        return size(p, t["e"]) * t["len"]
    if t["k"] in ("ptr", "ref"):
        return 8
    if t["k"] in ("int", "float"):
        return t.get("bits", 32) // 8
    raise Unknown("size of " + t["k"])


AABB = [("min", "min"), ("count", "extra1"), ("max", "max"), ("left_first", "extra2")]
LANES = [(n, n) for n in ("min_x", "max_x", "min_y", "max_y", "min_z", "max_z", "children", "counts")]
STRUCTS = [("RTAabb", "rtbvh::Aabb", AABB), ("RTBvhNode", "rtbvh::BvhNode", [("aabb", "bounds")]), ("RTMbvhNode", "rtbvh::MbvhNode", LANES)]
CABI = {"RTAabb": {"min": 0, "count": 12, "max": 16, "left_first": 28}, "RTBvhNode": {"aabb": 0},
        "RTMbvhNode": {n[0]: 16 * i for i, n in enumerate(LANES)}, "RTBvh": {"id": 0, "node_count": 4, "nodes": 8, "index_count": 16, "indices": 24},
        "RTMbvh": {"id": 0, "node_count": 4, "nodes": 8, "index_count": 16, "indices": 24}}


def layouts(c, p):
    for a, b, fs in STRUCTS:
        x, y = adt(p, a), adt(p, b)
        c.ob("same-size", a, x["layout"]["size"] == y["layout"]["size"], "%d and %d bytes" % (x["layout"]["size"], y["layout"]["size"]))
        c.ob("element-stride", a, x["layout"]["size"] % max(x["layout"]["align"], y["layout"]["align"]) == 0, "size is no multiple of the alignment")
        for f, g in fs:
            c.ob("same-offset", "%s.%s" % (a, f), layout(p, x, f) == layout(p, y, g), "%s at %s, %s at %s" % (f, layout(p, x, f), g, layout(p, y, g)))
        c.ob("all-fields-covered", a, len(x["vs"][0]["f"]) == len(fs) == len(y["vs"][0]["f"]), "a field has no counterpart")
        c.ob("stable-layout", b, y["reprc"], "no repr(C)")
    for a, offs in CABI.items():
        x = adt(p, a)
        c.ob("stable-layout", a, x["reprc"], "no repr(C)")
        for f, o in offs.items():
            c.ob("documented-offset", "%s.%s" % (a, f), layout(p, x, f)[0] == o, "is %s" % (layout(p, x, f),))
    for a, vals in (("ResultCode", {"Ok": 0, "Error": 1, "NoPrimitives": 2, "InequalAabbsAndPrimitives": 3, "Nan": 4}), ("BvhType", {"LocallyOrderedClustered": 0, "BinnedSAH": 1})):
        x = adt(p, a)
        got = {v["name"]: v["d"] for v in x["vs"]}
        c.ob("documented-codes", a, got == vals and x["layout"]["size"] == 4, "are %s" % got)


def impl(p, trait, fn, contains):
    r = [b["path"] for b in p["bodies"] if b["local"] and b["identity"] and b["path"].endswith(" as %s>::%s" % (trait, fn)) and contains in b["path"]]
    if not r:
        raise Missing("%s for %s" % (trait, contains))
    return r[0]


def conversions(c, p):
    def boxes(path, to_rt, wrap):
        E, r = run_as(p, path, ["x"])
        c.fn(path)
        s = E.args[0]
        if wrap:
            s, r = get(E, s, "bounds" if to_rt else "aabb"), get(E, r, "aabb" if to_rt else "bounds")
        for f, g in AABB:
            a, b = (g, f) if to_rt else (f, g)
            for k in (range(3) if f in ("min", "max") else [None]):
                sel = [] if k is None else [k]
                x, y = get(E, s, a, *sel), get(E, r, b, *sel)
                c.ob("conversion", "%s %s%s" % (path, b, sel or ""), x is y, "is %s" % show_dd(y)[:200])
        c.count("conversions")
    done = 0
    for b in p["bodies"]:
        pa = b["path"]
        if b["local"] and b["identity"] and pa.endswith(">::from"):
            if "From<RTAabb>" in pa:
                boxes(pa, False, False)
            elif "RTAabb as std::convert::From" in pa:
                boxes(pa, True, False)
            elif "From<RTBvhNode>" in pa:
                boxes(pa, False, True)
            elif "RTBvhNode as std::convert::From" in pa:
                boxes(pa, True, True)


def in_box(c, E, site, under, box, pts):
    for k in range(3):
        lo, hi = restrict(get(E, box, "min", k), under), restrict(get(E, box, "max", k), under)
        for i, q in enumerate(pts):
            q = q[k]
            # coordinates are far from the sentinels, so a bound that is the sentinel is impossible
            big = leaf(const(10 ** 30))
            ok = dand(lt(q, big), lt(apply(None, lambda t: pscale(t, -1), big), q))
            c.ob("box-contains-its-points", "%s min[%d] point %d" % (site, k, i), dand(ok, lt(q, lo)) is DF or absorbed(lo, q, "min"), "is %s" % show_dd(lo)[:200])
            c.ob("box-contains-its-points", "%s max[%d] point %d" % (site, k, i), dand(ok, lt(hi, q)) is DF or absorbed(hi, q, "max"), "is %s" % show_dd(hi)[:200])


def absorbed(bound, q, op):
    t = single(bound.leaf) if bound.atom is None and bound.leaf.op == "poly" else None
    return (bound is q) or (t is not None and t.op == op and q.atom is None and q.leaf in t.a)


def build_hooks(E_cb, ctors):
    return ctors


def build(c, p, fn, names, scale, spatial, fix=None, want=None):
    """`scale`: arguments that are multiples of four bytes"""
    site = fn + (" (stride %d)" % fix["stride"] if fix else "")
    seen = []
    prim = mk("v", "i")
    INT_LO[prim] = Fraction(0)
    pi = atom(prim)

    def ctor(algo):
        def h(x):
            E = x.E
            bld = fresh(E, x.vals[0])
            f = fields(E, bld)
            prims = E.slice_of(f["primitives"])
            ref = E.index_ref(prims, (), leaf(pi))
            ety = None
            info = {"guard": E.guard, "algo": algo, "prims": prims, "leaf": f["primitives_per_leaf"]}
            bt = E.types[bld.ty]
            pt = E.types[bt["args"][0]]
            info["pt"] = pt
            nm = pt["path"].rsplit("::", 1)[-1]

            def method(trait, m):
                return E.call_body(prog.body(p, impl(p, trait, m, nm)), [ref])
            info["center"] = method("rtbvh::Primitive", "center")
            info["box"] = method("rtbvh::Primitive", "aabb")
            if spatial:
                info["verts"] = [method("rtbvh::SpatialTriangle", "vertex%d" % k) for k in range(3)]
            ab = f["aabbs"]
            ab = E.expand(ab) if isinstance(ab, Sym) else ab
            info["some"] = disc_is(E, ab, "Some")
            if info["some"] is not DF:
                s = E.slice_of(payload(E, ab, "Some")[0])
                info["boxes"] = (E.slen(s), elem_at(E, s, pi))
            info["E"] = E
            seen.append(info)
            return E.make(x.dty, mk("built"))
        return h
    hooks = {}
    for b in p["bodies"]:
        if "Builder" in b["path"] and "::construct_" in b["path"] and "{closure" not in b["path"]:
            hooks[b["path"]] = ctor(b["path"].rsplit("::", 1)[1])
    stores = []

    def store(x):
        stores.append((x.E.guard, x.vals[1]))
        return x.E.make(x.dty, mk("v", "handle"))
    hooks["StructureManager::store"] = store

    def setup(E, a):
        E.narrow = []
        for i, nm in enumerate(names):
            if nm in scale:
                if fix and nm == scale[0]:
                    a[i] = leaf(const(fix["stride"]))
                else:
                    q = mk("v", nm + "4")
                    INT_LO[q] = Fraction(1)
                    a[i] = leaf(pscale(atom(q), 4))
            if nm == "aabbs":
                a[i] = array_ptr(E, a[i], nm)
        if fix:
            k = names.index("kind")
            ty = E.bodies[prog.body(p, fn)]["locals"][k + 1]
            n = len(E.types[ty]["vs"])
            a[k] = enum(ty, leaf(const(vidx(E, ty, fix["kind"]))), [[] for _ in range(n)])
    E, r = run_as(p, fn, names, hooks=hooks, setup=setup)
    c.fn(fn)
    a = dict(zip(names, E.args))
    need = ["centers", "vertices", "result"] if spatial else ["centers", "result"]
    null = DF
    for nm in need:
        null = dor(null, M.isnull(a[nm]))
    code = E.expand(r) if isinstance(r, Sym) else r
    ty = E.bodies[prog.body(p, fn)]["locals"][0]
    err = cmp_dd(code.disc, vidx(E, ty, "Error"))
    c.ob("null-arguments-are-an-error", site, dand(null, dnot(err)) is DF, "result is %s" % show_dd(code.disc)[:200])
    good = dnot(null)
    gs = DF
    for s in seen:
        gs = dor(gs, s["guard"])
    pc = prune(ite(good, dnot(gs), gs))
    c.ob("builds-exactly-for-good-input", site, pc is DF, "differs when %s" % show_dd(pc)[:200])
    for n, s in enumerate(seen):
        at = "%s call %d" % (site, n)
        E = s["E"]
        w(c, "right-algorithm", at, dand(s["guard"], DF if s["algo"] == want else DT), "runs %s" % s["algo"])
        c.ob("primitive-count", at, E.slen(s["prims"]) is a["count"], "is %s" % show_dd(E.slen(s["prims"]))[:100])
        under = s["guard"]
        nb = M.isnull(a["aabbs"])
        d = restrict(s["some"], under)
        c.ob("boxes-exactly-when-given", at, d is restrict(dnot(nb), under), "when %s" % show_dd(d)[:200])
        if "boxes" in s:
            ln, bx = s["boxes"]
            inb = dand(under, dand(dnot(nb), ilt(leaf(pi), a["count"])))
            c.ob("box-count", at, same_under(dand(under, dnot(nb)), ln, a["count"]), "is %s" % show_dd(ln)[:100])
            src = E.load(E.ptr_add(a["aabbs"], leaf(pi)))
            for f, g in AABB:
                for k in (range(3) if f in ("min", "max") else [None]):
                    sel = [] if k is None else [k]
                    got, exp = get(E, bx, g, *sel), get(E, src, f, *sel)
                    c.ob("box-of-that-primitive", "%s %s%s" % (at, g, sel or ""), same_under(inb, got, exp), "is %s, expected %s" % (show_dd(got)[:200], show_dd(exp)[:100]))
        # leaf limit
        lim = E.expand(s["leaf"]) if isinstance(s["leaf"], Sym) else s["leaf"]
        c.ob("leaf-limit", at, disc_is(E, lim, "Some") is dnot(ieq(a["limit"], leaf(ZERO))), "set when %s" % show_dd(disc_is(E, lim, "Some"))[:200])
        pv = payload(E, lim, "Some")[0]
        pv = nonzero(E, pv)
        c.ob("leaf-limit", at + " value", same_under(dnot(ieq(a["limit"], leaf(ZERO))), pv, a["limit"]), "is %s" % show_dd(pv)[:200])
        # primitives
        inr = dand(under, ilt(leaf(pi), a["count"]))
        cs = "center_stride"
        if fix:
            pt = s["pt"]
            pt_i = E.types.index(pt)
            flat_ok = pt["layout"]["size"] == fix["stride"] and pt["layout"]["align"] <= 4 and pt["layout"]["offs"][0] == 0 and len(pt["vs"][0]["f"]) == 1
            c.ob("primitive-is-the-centre-array", at, flat_ok, "%s has layout %s" % (pt["path"], pt["layout"]))
            l = s["prims"].leaf if s["prims"].atom is None else None
            okp = l is not None and l.op == "sref" and l.a[2] is ZERO and l.a[0] is mk("deref", lf(a["centers"]))
            c.ob("primitive-is-the-centre-array", at + " base", okp, "is %s" % show_dd(s["prims"])[:200])
            data = E.load(E.index_ref(s["prims"], (), leaf(pi)))
            data = get(E, E.make(pt_i, lf(data)) if isinstance(data, DD) else data, 0)
            exp = [get(E, data, k) for k in range(3)]
        else:
            base = apply(None, lambda t: pmul(pi, pdiv4(t)), a[cs])
            exp = [E.load(E.ptr_add(a["centers"], add(base, leaf(const(k))))) for k in range(3)]
        for k in range(3):
            got = get(E, s["center"], k)
            c.ob("centre-of-that-primitive", "%s[%d]" % (at, k), same_under(inr, got, exp[k]), "is %s, expected %s" % (show_dd(got)[:200], show_dd(exp[k])[:100]))
        if spatial:
            vs = []
            for v in range(3):
                base = apply(None, lambda t, u: padd(pmul(pi, pdiv4(t)), pscale(pdiv4(u), v)), a["triangle_stride"], a["vertex_stride"])
                exp = [E.load(E.ptr_add(a["vertices"], add(base, leaf(const(k))))) for k in range(3)]
                vs.append(exp)
                for k in range(3):
                    got = get(E, s["verts"][v], k)
                    c.ob("vertex-of-that-triangle", "%s vertex %d[%d]" % (at, v, k), same_under(inr, got, exp[k]), "is %s, expected %s" % (show_dd(got)[:200], show_dd(exp[k])[:100]))
            in_box(c, E, at, inr, s["box"], vs)
        else:
            in_box(c, E, at, inr, s["box"], [exp])
    small = sorted({w for w, _ in E.narrow})
    c.ob("offsets-in-full-width", site, not small, "an offset into the caller's arrays is kept in 32 bits: %s" % "; ".join(small)[:250])
    c.count("C build calls", len(seen))
    for wc, k, f, ln in panics(E):
        x = prune(dand(wc, good))
        if k in ("diverge", "unwrap"):
            c.ob("no-panic", "%s (%s)" % (site, k), x is DF, "when %s" % show_dd(x)[:200])


def nonzero(E, v):
    v = E.expand(v) if isinstance(v, Sym) else v
    n = 0
    while isinstance(v, Agg) and n < 4:
        v = v.fs[0]
        v = E.expand(v) if isinstance(v, Sym) else v
        n += 1
    return v


def pdiv4(t):
    return pscale(t, Fraction(1, 4))


def cmp_dd(d, k):
    return apply(None, lambda x: cmp_eq(x, const(k), False), d)


def run(c):
    p = c.prog("rtbvh_rs")
    c.guard("layout", "C structs", lambda: layouts(c, p))
    c.guard("conversion", "box conversions", lambda: conversions(c, p))
    c.guard("build", "create_spatial_Bvh", lambda: build(
        c, p, "create_spatial_Bvh", ["aabbs", "count", "centers", "center_stride", "vertices", "vertex_stride", "triangle_stride", "limit", "result"],
        ["center_stride", "vertex_stride", "triangle_stride"], True, want="construct_spatial_sah"))
    for st in (12, 16):
        for kind, want in (("LocallyOrderedClustered", "construct_locally_ordered_clustered"), ("BinnedSAH", "construct_binned_sah")):
            c.guard("build", "create_bvh %d %s" % (st, kind), lambda: build(
                c, p, "create_bvh", ["aabbs", "count", "centers", "center_stride", "limit", "kind", "result"], ["center_stride"], False,
                {"stride": st, "kind": kind}, want))
    c.floor("conversions", 2)
    c.floor("C build calls", 5)
