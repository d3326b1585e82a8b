"""C26: trees are handed out, viewed and stored as they are."""
from common import *
from c02 import ilt, ieq
import c07
import c09
import c10

EXPLAIN = ("Value flow through the accessors (and through the builds, for the build type): views, raw parts, counts and boxes of both trees are term-equal to the stored fields, whole and in order; a value put into a node by "
           "a setter or with_-constructor is followed through the getter (no value below 2^31 reads back as none or as another, none reads back as none, everything else "
           "in the node is unchanged; the kinds of node agree with the getters on every node). For the serde feature, a build of its own is analysed: rule: the derived writer "
           "writes every field once in order, and the derived reader puts the k-th value it reads into the field that was written k-th.")
ASSUME = ["serde's data formats hand back the values they were given in order", "the names used by self-describing formats are not compared (derived from the same field)"]
B, W, N = "bvh::Bvh::", "bvh::Mbvh::", "bvh_node::BvhNode::"


def words(E, v):
    """all scalars of a value"""
    v = fresh(E, v)
    if isinstance(v, DD):
        return [v]
    if isinstance(v, Agg):
        return [x for f in v.fs for x in words(E, f)]
    if isinstance(v, Coll):
        return [v.len]
    if isinstance(v, Enum):
        return [v.disc] + [x for q in v.vs for f in (q or ()) for x in words(E, f)]
    raise Unknown("scalars of %s" % type(v).__name__)


def same_list(c, E, rule, site, got, want):
    """both collections have the same elements, all of them"""
    n, m = length(E, got), length(E, want)
    c.ob(rule, site + " length", n is m, "%s elements, not %s" % (show_dd(n)[:80], show_dd(m)[:80]))
    i = mk("v", "i")
    INT_LO[i] = Fraction(0)
    i = atom(i)
    on = ilt(leaf(i), m)
    x, y = words(E, elem_at(E, got, i)), words(E, elem_at(E, want, i))
    ok = len(x) == len(y) and all(same_under(on, a, b) for a, b in zip(x, y))
    c.ob(rule, site + " element", ok, "an element differs")
    c.count("lists")


def part(E, name):
    m, E.mem = E.mem, {}
    v = fields(E, E.args[0])[name]
    E.mem = m
    return v


def accessors(c, p):
    for T, views, raw in ((B, {"nodes": "nodes", "indices": "prim_indices"}, {"into_raw_indices": ["prim_indices"], "into_raw_nodes": ["nodes"], "into_raw": ["nodes", "prim_indices"]}),
                          (W, {"nodes": "nodes", "indices": "prim_indices", "quad_nodes": "m_nodes"},
                           {"into_raw_indices": ["prim_indices"], "into_raw_nodes": ["m_nodes"], "into_raw": ["m_nodes", "prim_indices"]})):
        for fn, f in views.items():
            def go():
                E, r = run_as(p, T + fn, ["self"])
                c.fn(T + fn)
                same_list(c, E, "view", T + fn, r, part(E, f))
            c.guard("view", T + fn, go)
        for fn, fs in raw.items():
            def go():
                E, r = run_as(p, T + fn, ["self"])
                c.fn(T + fn)
                for k, f in enumerate(fs):
                    same_list(c, E, "raw-parts", "%s %s" % (T + fn, f), get(E, r, k) if len(fs) > 1 else r, part(E, f))
            c.guard("raw-parts", T + fn, go)

        def count():
            E, r = run_as(p, T + "prim_count", ["self"])
            c.fn(T + "prim_count")
            n = length(E, part(E, "prim_indices"))
            c.ob("count", T + "prim_count", r is n, "is %s" % show_dd(r)[:100])
        c.guard("count", T + "prim_count", count)

        def bounds():
            path = "<%s as aabb::Bounds>::bounds" % T[:-2]
            E, r = run_as(p, path, ["self"])
            c.fn(path)
            ns = part(E, "nodes")
            some = dnot(ilt(length(E, ns), leaf(ONE)))
            for m in ("min", "max"):
                for k in range(3):
                    ok = same_under(some, get(E, r, m, k), get(E, elem_at(E, ns, ZERO), "bounds", m, k))
                    c.ob("box-is-the-root's", "%s %s%d" % (path, m, k), ok, "is %s" % show_dd(get(E, r, m, k))[:100])
        c.guard("box-is-the-root's", T + "bounds", bounds)

    def kind():
        E, r = run_as(p, B + "build_type", ["self"])
        c.fn(B + "build_type")
        v, x = fresh(E, r), fresh(E, part(E, "build_type"))
        c.ob("count", B + "build_type", isinstance(v, Enum) and v.disc is x.disc, "another build type")
    c.guard("count", B + "build_type", kind)


def some_of(E, v):
    v = E.expand(v) if isinstance(v, Sym) else v
    return apply(None, lambda l: cmp_eq(l, ONE, False), v.disc), v.vs[1][0]


FIELDS = {"count": "extra1", "left_first": "extra2"}


def codec(c, p):
    """what is put into a node is what comes out of it"""
    box = [("bounds", m, k) for m in ("min", "max") for k in range(3)]
    for f, slot in FIELDS.items():
        other = [s for s in FIELDS.values() if s != slot][0]
        for fn in ("set_" + f, "with_" + f):
            def go():
                E, r = run_as(p, N + fn, ["self", "value"])
                c.fn(N + fn)
                new = E.args[0] if fn.startswith("set") else r
                some, val = some_of(E, E.args[1])
                now = get(E, new, "bounds", slot)
                # read back through the getter
                val0 = fresh(E, new)

                def put(E2, a):
                    E2.mem[lf(a[0]).a[0]] = val0
                E2, g = run_as(p, N + "get_" + f, ["node"], setup=put)
                gsome, gval = some_of(E2, g)
                fits = dand(dnot(ilt(val, leaf(ZERO))), ilt(val, leaf(const(2 ** 31))))
                w1 = prune(dand(dand(some, fits), dnot(gsome)))
                w2 = prune(dand(dand(some, fits), dnot(ieq(gval, val))))
                w3 = prune(dand(dnot(some), gsome))
                for nm, x in (("a value is read back as none", w1), ("another value is read back", w2), ("none is read back as a value", w3)):
                    c.ob("reads-back", "%s: %s" % (N + fn, nm), x is DF, "when %s" % show_dd(x)[:150])
                for q in box + [("bounds", other)]:
                    c.ob("rest-is-kept", "%s %s" % (N + fn, ".".join(map(str, q[1:]))), get(E, new, *q) is pre(E, E.args[0], *q), "changes")
                c.count("codec")
            c.guard("reads-back", N + fn, go)

        def raw():
            E, r = run_as(p, N + "get_%s_unchecked" % f, ["node"])
            c.fn(N + "get_%s_unchecked" % f, N + "get_" + f)
            c.ob("reads-back", N + "get_%s_unchecked" % f, r is pre(E, E.args[0], "bounds", slot), "is %s" % show_dd(r)[:100])
            E2, g = run_as(p, N + "get_" + f, ["node"])
            s, v = some_of(E2, g)
            x = prune(dand(s, dnot(ieq(v, r))))
            c.ob("reads-back", N + "get_%s agrees with get_%s_unchecked" % (f, f), x is DF, "differ when %s" % show_dd(x)[:120])
        c.guard("reads-back", N + "get_" + f, raw)

    def kinds():
        got = {}
        for fn in ("is_leaf", "has_children", "is_valid", "get_count", "get_left_first"):
            E, r = run_as(p, N + fn, ["node"])
            c.fn(N + fn)
            got[fn] = some_of(E, r)[0] if fn.startswith("get") else r
        for nm, x, y in (("is_leaf", got["is_leaf"], got["get_count"]), ("is_valid", got["is_valid"], got["get_left_first"]),
                         ("has_children", got["has_children"], dand(dnot(got["get_count"]), got["get_left_first"]))):
            bad = prune(dxor(x, y))
            c.ob("kind-of-node", N + nm, bad is DF, "wrong when %s" % show_dd(bad)[:120])
    c.guard("kind-of-node", N, kinds)


STORED = ["aabb::Aabb<Extra>", "bvh::Bvh", "bvh::Mbvh", "bvh_node::BvhNode", "mbvh_node::MbvhHit", "mbvh_node::MbvhNode", "ray::Ray", "ray::RayPacket4"]


def stored(c, p):
    """the k-th value that is written is the field that the k-th value read goes to, and every field is written"""
    paths = [b["path"] for b in p["bodies"]]
    for t in STORED:
        mod = t.split("::")[0]
        out = "%s::_::<impl serde::Serialize for %s>::serialize" % (mod, t)
        inn = [x for x in paths if x.startswith("<%s::_::<impl serde::Deserialize<'de> for %s>::" % (mod, t)) and x.endswith("::visit_seq")]

        def go():
            if out not in paths or len(inn) != 1:
                raise Unknown("no serialisation of %s" % t)
            log, got = [], []

            def call(x):
                log.append((x.path.rsplit("::", 1)[-1], x.vals))
                return x.E.make(x.dty, mk("v", "w%d" % len(log)))

            def read(x):
                v = x.E.make(x.dty, mk("v", "n%d" % len(got)))
                got.append(v)
                return v
            E, r = run_as(p, out, ["self", "to"], hooks={
                "serde::Serializer::serialize_struct": call, "serde::ser::SerializeStruct::serialize_field": call, "serde::ser::SerializeStruct::end": call})
            wrote = [lf(vs[2]).a for nm, vs in log if nm == "serialize_field"]
            E2, r2 = run_as(p, inn[0], ["visitor", "from"], hooks={
                "serde::de::SeqAccess::next_element": read,
                "serde::de::Error::invalid_length": lambda x: x.E.make(x.dty, mk("v", "err"))})
            c.fn(out, inn[0])
            ok = E2.expand(r2) if isinstance(r2, Sym) else r2
            made = fresh(E2, ok.vs[0][0])
            n = len(made.fs)
            c.ob("stored", t + " fields", len(wrote) == n and len(got) == n and [x[0] for x in log] == ["serialize_struct"] + ["serialize_field"] * n + ["end"],
                 "%d fields, %d written, %d read" % (n, len(wrote), len(got)))
            whole = mk("deref", mk("v", "self"))
            for k in range(min(n, len(wrote), len(got))):
                at = wrote[k]
                c.ob("stored", "%s writes field %d" % (t, k), at[0] is whole and len(at[1]) == 1 and at[1][0][:2] == ("f", k), "another value is written")
                o = E2.expand(got[k]) if isinstance(got[k], Sym) else got[k]
                o = E2.expand(o.vs[0][0]) if isinstance(o.vs[0][0], Sym) else o.vs[0][0]
                c.ob("stored", "%s reads field %d" % (t, k), str(made.fs[k]) == str(o.vs[1][0]), "is %s" % str(made.fs[k])[:100])
            c.count("stored types")
        c.guard("stored", t, go)


class Quiet:
    """collects nothing: the builders' results are judged elsewhere"""
    def __getattr__(self, n):
        return lambda *a, **k: None


def build_types(c, p):
    """what a tree says about how it was built"""
    names = next([v["name"] for v in t["vs"]] for t in p["types"] if t["k"] == "adt" and t["path"] == "bvh::BuildType")
    binned = "<builders::binned_sah::BinnedSahBuilder<'a, T> as builders::BuildAlgorithm>::build"
    for path, want, make in ((binned, "BinnedSAH", lambda: c07.build(Quiet(), p, binned)), (c09.BUILD, "Spatial", lambda: c09.build(Quiet(), p)),
                             (c10.BUILD, "LocallyOrderedClustered", lambda: c10.builder(Quiet(), p))):
        def go():
            try:
                E, r, g = make()
            except (Unknown, KeyError, IndexError, AttributeError, TypeError, StopIteration):
                # the builder has a shape that is not followed: no other type may be mentioned in its module
                mod = path.split(" as ")[0].strip("<").rsplit("::", 1)[0]
                made = {names[s[2][1][2]] for b in p["bodies"] if mod in b["path"] for bb in b["blocks"] for s in bb["s"]
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and p["types"][s[2][1][1]]["path"] == "bvh::BuildType"}
                c.fn(path)
                c.ob("build-type", path, made == {want}, "mentions %s" % sorted(made))
                c.count("builders")
                return
            c.fn(path)
            v = fresh(E, get_any(E, r, "build_type"))
            bad = prune(dand(g, dnot(ieq(v.disc, leaf(const(names.index(want)))))))
            c.ob("build-type", path, bad is DF, "another build type when %s" % show_dd(bad)[:120])
            c.count("builders")
        c.guard("build-type", path, go)


def get_any(E, v, name):
    v = E.expand(v) if isinstance(v, Sym) else v
    return fields(E, v)[name]


def run(c):
    p = c.prog("rtbvh")
    accessors(c, p)
    codec(c, p)
    build_types(c, p)
    stored(c, c.prog("rtbvh_serde"))
