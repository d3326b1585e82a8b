"""Access to the extracted programs and convenience entry points for the analyses."""
import json, os
import extract
from values import *
from engine import Engine, _Poison
import models as M

_cache = {}


def load(name="rtbvh"):
    if name not in _cache:
        d = {name: extract.macros()} if name == "rtbvh_macros" else extract.extract(serde=True) if name == "rtbvh_serde" else extract.extract()
        for k, v in d.items():
            _cache[k] = json.load(open(v)) if isinstance(v, str) else v
    return _cache[name]


def bodies(p, path, identity=True):
    return [i for i, b in enumerate(p["bodies"]) if b["path"] == path and (b["identity"] or not identity)]


class Missing(Exception):
    pass


def body(p, path):
    r = bodies(p, path) or bodies(p, path, False)
    if not r:
        raise Missing(path)
    return r[0]


def symargs(E, bi, names=None):
    b = E.bodies[bi]
    out = []
    nm = {}
    for n, pl in b.get("names") or []:
        if not pl[1] and 1 <= pl[0] <= b["argc"]:
            nm[pl[0]] = n
    for i in range(b["argc"]):
        ty = b["locals"][i + 1]
        out.append(E.make(ty, mk("v", nm.get(i + 1, "arg%d" % i))))
    return out


def run(p, path, args=None, hooks=None):
    E = Engine(p, hooks)
    bi = path if isinstance(path, int) else body(p, path)
    a = symargs(E, bi) if args is None else args(E, bi)
    E.args = a
    r = E.call_body(bi, a)
    return E, r


# ---------------------------------------------------------------- navigation by field name
def run_as(p, path, names, hooks=None, setup=None, raw_loops=False, skips=None):
    """analyse `path` with symbolic arguments called `names` (positional)"""
    E = Engine(p, hooks)
    E.skips = skips
    E.raw_loops = raw_loops
    bi = path if isinstance(path, int) else body(p, path)
    b = E.bodies[bi]
    if b["argc"] != len(names):
        raise Unknown("%s takes %d arguments, expected %d" % (b["path"], b["argc"], len(names)))
    a = [E.make(b["locals"][i + 1], mk("v", n)) for i, n in enumerate(names)]
    E.args = a
    if setup:
        setup(E, a)
    r = E.call_body(bi, a)
    return E, r


def fresh(E, v):
    """value behind references, expanded"""
    n = 0
    while M.is_ref(v) and n < 6:
        v = E.load(v)
        n += 1
    return E.expand(v) if isinstance(v, Sym) else v


def get(E, v, *names):
    """sub-value by field name ('min'), lane ('x' or 0), or tuple index"""
    for n in names:
        v = fresh(E, v)
        if isinstance(v, (Agg,)) and isinstance(n, str) and isinstance(v.ty, int):
            t = E.types[v.ty]
            if E.lanes(v.ty) and n in "xyzw":
                v = v.fs["xyzw".index(n)]
                continue
            fs = [f[0] for f in t["vs"][0]["f"]]
            if n not in fs:
                raise Missing("field %s of %s" % (n, t["path"]))
            v = v.fs[fs.index(n)]
        elif isinstance(v, Agg):
            i = "xyzw".index(n) if isinstance(n, str) else n
            v = v.fs[i]
        elif isinstance(v, Coll):
            i = n if isinstance(n, T) else const(n)
            v = E.arr_read(v.arr, i)
        else:
            raise Unknown("no field %r in %s" % (n, type(v).__name__))
    return v


def pre(E, v, *names):
    """like get, but on the state before the call (symbolic argument v)"""
    m = E.mem
    E.mem = {}
    try:
        return get(E, v, *names)
    finally:
        E.mem = m


def lf(d):
    if isinstance(d, DD) and d.atom is None:
        return d.leaf
    raise Unknown("a single value expected, found %r" % (d,))


def hook_paths(p, pred):
    return [b["path"] for b in p["bodies"] if pred(b["path"])]


def elem_at(E, s, i):
    """element i of a slice reference / collection value, in the current state"""
    if isinstance(s, DD):
        return E.load(E.index_ref(s, (), leaf(i) if isinstance(i, T) else i))
    s = E.expand(s) if isinstance(s, Sym) else s
    if isinstance(s, Agg):
        s = E.to_coll(s)
    return E.arr_read(s.arr, i)


def length(E, s):
    if isinstance(s, DD) and M.is_ref(s):
        return E.slen(E.slice_of(s)) if not isinstance(fresh(E, s), Coll) else fresh(E, s).len
    s = fresh(E, s)
    if isinstance(s, Agg):
        s = E.to_coll(s)
    return s.len


def length(E, s):
    """length of a slice reference, vector or array value, in the current state"""
    if isinstance(s, DD):
        return E.slen(E.slice_of(s))
    s = E.expand(s) if isinstance(s, Sym) else s
    if isinstance(s, Agg):
        return leaf(const(len(s.fs)))
    return s.len


def fields(E, v):
    """field name -> value of a struct value"""
    v = fresh(E, v)
    return dict(zip([f[0] for f in E.types[v.ty]["vs"][0]["f"]], v.fs))


def vidx(E, ty, name):
    t = E.types[ty]
    vs = [v["name"] for v in t["vs"]]
    if name not in vs:
        raise Missing("variant %s of %s" % (name, t["path"]))
    return vs.index(name)


def disc_is(E, e, name):
    """condition under which enum value e is the named variant"""
    e = E.expand(e) if isinstance(e, Sym) else e
    k = vidx(E, e.ty, name)
    return apply(None, lambda x: cmp_eq(x, const(k), False), e.disc)


def payload(E, e, name):
    e = E.expand(e) if isinstance(e, Sym) else e
    return e.vs[vidx(E, e.ty, name)]


def panics(E):
    """conditions under which an explicit panic, failed assertion or failed unwrap is reached"""
    out = []
    for g, k, pl, ls, st, ln in E.events:
        if k in ("assume", "unwrap"):
            w = dand(g, dnot(pl[0]))
        elif k == "assert":
            w = dand(g, dnot(pl[1]))
        elif k == "diverge":
            w = g
        else:
            continue
        if w is not DF and w is not DBOT:
            out.append((w, k, st[-1] if st else "?", ln))
    return out


def same_under(c, a, b):
    """a and b agree wherever c holds"""
    if a is b:
        return True
    if isinstance(a, DD) and isinstance(b, DD):
        x = leaf(mk("elsewhere"))
        a, b = ite(c, a, x), ite(c, b, x)
        if a is b:
            return True
        return prune(apply(None, lambda u, v: TRUE if u is v else FALSE, a, b)) is DT
    return False


class Step:
    """One round of the only loop of a function: from the state at the loop header to the next header state or out of the
    function.  Values are in terms of the header state (E.args seen through `head`)."""

    def __init__(self, E, r, region):
        live = set(l for e in E.events for l in e[3]) | {i for i, rec in E.loops.items() if rec.__dict__.get("gback") is not None}
        tops = [i for i in live if not any(i in e[3][1:] for e in E.events)]
        recs = [E.loops[i] for i in sorted(tops) if E.loops[i].__dict__.get("gback") is not None]
        if len(recs) != 1:
            raise Unknown("one loop expected, found %d" % len(recs))
        rec = self.rec = recs[0]
        self.E = E
        gb, mb, hdr = rec.back
        self.stay = gb
        self.head, self.next = hdr[region], mb[region]
        self.headmem, self.nextmem = hdr, mb
        for key in rec.mus:
            if key[0] is not region and not isinstance(key[0], tuple):
                raise Unknown("the loop also changes %r" % (key[0],))
        n = len(rec.exits)
        self.outs = []
        for i, (t, g, m) in enumerate(rec.exits):
            sub = Subst({mk("brk", rec.id, j): (DT if j == i else DF) for j in range(n)}, E.make)
            self.outs.append((g, sub.v(r), sub.v(E.mem.get(region))))
            self.mem = E.mem
        self.inits = {k: v for k, v in rec.init.items()}


def rounds(p, path, names, hooks=None):
    """analysis of a function together with its Step; several loops are read as one (Engine.run_flat)"""
    E, r = run_as(p, path, names, hooks, raw_loops=True)
    try:
        return E, r, Step(E, r, E.args[0].leaf.a[0])
    except Unknown as e:
        if "one loop expected" not in str(e):
            raise
        first = e
    bi = path if isinstance(path, int) else body(p, path)
    E, r = run_as(p, path, names, hooks, setup=lambda E, a: E.flatten.add(bi), raw_loops=True)
    if E.flat_faults:
        raise Unknown("%s; read as one loop: block %s to %s: %s" % ((first,) + E.flat_faults[0]))
    return E, r, Step(E, r, E.args[0].leaf.a[0])


def rd(E, a, i):
    """element of an array value at an index diagram"""
    if isinstance(i, T):
        return E.arr_read(a, i)
    if i.atom is None:
        return E.arr_read(a, i.leaf)
    return E.ite_v(batom(i.atom), rd(E, a, i.hi), rd(E, a, i.lo))
