"""Meaning of the library functions the crate is built on (core, alloc, glam, rayon, ...)."""
import re
from fractions import Fraction
from values import *
import terms

LANES = {"glam::Vec3": 3, "glam::Vec3A": 3, "glam::Vec4": 4, "glam::BVec3": 3, "glam::BVec3A": 3,
         "glam::BVec4A": 4, "glam::BVec4": 4, "glam::deref::Vec3": 3, "glam::deref::Vec4": 4,
         "glam::Vec2": 2, "glam::deref::Vec2": 2, "std::arch::x86_64::__m128": 4,
         "glam::UVec3": 3, "glam::IVec3": 3}
LANEKIND = {k: ("b" if "BVec" in k else "f") for k in LANES}
OPAQUE_ADTS = {"std::sync::Arc", "std::sync::atomic::Atomic", "std::cell::UnsafeCell", "glam::Mat4",
               "std::string::String", "std::boxed::Box", "std::ptr::NonNull", "std::ptr::Unique",
               "std::slice::Iter", "std::slice::IterMut", "std::alloc::Global", "std::num::NonZero",
               "std::sync::Mutex", "std::rc::Rc"}
OPAQUE_PREFIX = ("std::fmt::", "core::fmt::", "alloc::raw_vec::", "rayon", "crossbeam", "parking_lot",
                 "std::any", "lazy_static", "std::collections", "std::thread", "core::num::niche_types")


LOGICAL = {"utils::TraversalStack": True}


def is_vec(p):
    return p in ("std::vec::Vec", "alloc::vec::Vec")


def ordering_ty(E):
    for i, t in enumerate(E.types):
        if t["k"] == "adt" and t["path"] == "std::cmp::Ordering":
            return i
    return "std::cmp::Ordering"


# ---------------------------------------------------------------- helpers
def is_ref(v):
    return isinstance(v, DD) and v is not DBOT and all(l.op in ("ref", "sref", "bot") for l in leaves(v))


def val(E, v):
    """value behind any number of references"""
    n = 0
    while is_ref(v) and n < 6:
        v = E.load(v)
        n += 1
    return E.expand(v) if isinstance(v, Sym) else v


def tmp(E, v, ty=None):
    E.frames += 1
    r = mk("tmp", E.frames)
    E.mem[r] = v
    if ty is not None:
        E.rty[r] = ty
    return r


def tmpref(E, v, ty=None):
    return leaf(mk("ref", tmp(E, v, ty), ()))


def fork(E, cond, ft, ff):
    g, m = E.guard, E.mem
    cond = restrict(cond, g) if cond.atom is not None else cond
    if cond is DT:
        return ft()
    if cond is DF:
        return ff()
    gt, gf = dand(g, cond), dand(g, dnot(cond))
    E.guard, E.mem = gt, dict(m)
    vt = ft()
    mt = E.mem
    E.guard, E.mem = gf, dict(m)
    vf = ff()
    mf = E.mem
    E.guard = g
    _, E.mem = E.merge([(gt, mt), (gf, mf)])
    return E.ite_v(cond, vt, vf)


def option(E, ty, cond, v):
    """Some(v) when cond"""
    return enum(ty, ite(cond, leaf(ONE), leaf(ZERO)), [[], [v]])


def some(ty, v):
    return enum(ty, leaf(ONE), [[], [v]])


def is_some(v):
    return apply(None, lambda l: cmp_eq(l, ONE, False), v.disc)


def atomb(op, *a):
    return batom(mk(op, *a))


def nanatom(x):
    if is_const(x):
        return DF
    return batom(mk("nan", x))


def dnan(d):
    return apply("nan", lambda x: DT if x.op == "poly" and single(x) is not None and single(x).op == "nanconst" else nanatom(x), d)


def lt(a, b):
    return apply(("lt", True), lambda x, y: cmp_lt(x, y, True), a, b)


def le(a, b):
    return apply(("le", True), lambda x, y: cmp_le(x, y, True), a, b)


def eqf(a, b):
    return apply(("eq", True), lambda x, y: cmp_eq(x, y, True), a, b)


def fmin(a, b):
    return apply("min", pmin, a, b)


def fmax(a, b):
    return apply("max", pmax, a, b)


def add(a, b):
    return apply("add", padd, a, b)


def sub(a, b):
    return apply("sub", psub, a, b)


def mul(a, b):
    return apply("mul", pmul, a, b)


def div(a, b):
    return apply("div", pdiv, a, b)


# Floating-point operations.  Usually real arithmetic; with EXACT set every operation rounds, so that
# only computations that perform the same operations on the same values are equal.
EXACT = [False]


def _neg1(x):
    """x is -1 times a single atom"""
    x = aspoly(x)
    return len(x.a[0]) == 1 and x.a[0][0][1] < 0 and not is_const(x)


def _rnd(op, x, y):
    x, y = aspoly(x), aspoly(y)
    if is_const(x) and is_const(y) and not (op == "div" and y is ZERO):
        return {"add": padd, "mul": pmul, "div": pdiv}[op](x, y)
    if op == "add":
        if x is ZERO or y is ZERO:
            return y if x is ZERO else x
        if y.id < x.id:
            x, y = y, x
        if _neg1(x):
            return pscale(atom(mk("rnd", op, pscale(x, -1), pscale(y, -1))), -1)
        return atom(mk("rnd", op, x, y))
    if y is ONE:
        return x
    if op == "mul" and x is ONE:
        return y
    s = 1
    if _neg1(x):
        x, s = pscale(x, -1), -s
    if _neg1(y):
        y, s = pscale(y, -1), -s
    if op == "mul" and y.id < x.id:
        x, y = y, x
    return pscale(atom(mk("rnd", op, x, y)), s)


def fadd(a, b):
    return apply("fadd", lambda x, y: _rnd("add", x, y), a, b) if EXACT[0] else add(a, b)


def fsub(a, b):
    return apply("fsub", lambda x, y: _rnd("add", x, pscale(y, -1)), a, b) if EXACT[0] else sub(a, b)


def fmul(a, b):
    return apply("fmul", lambda x, y: _rnd("mul", x, y), a, b) if EXACT[0] else mul(a, b)


def fdiv(a, b):
    return apply("fdiv", lambda x, y: _rnd("div", x, y), a, b) if EXACT[0] else div(a, b)


def ffma(a, b, c):
    if EXACT[0]:
        return apply("ffma", lambda x, y, z: atom(mk("rnd", "fma", *sorted((aspoly(x), aspoly(y)), key=lambda t: t.id), aspoly(z))), a, b, c)
    return add(mul(a, b), c)


FLOAT = {"Add": fadd, "Sub": fsub, "Mul": fmul, "Div": fdiv}


def lin(f, n):
    return [f(i) for i in range(n)]


def iv(E, v):
    """integer value as a single term"""
    if isinstance(v, DD) and v.atom is None:
        return v.leaf
    raise Unknown("count depends on data")


def pure(E, name, vals, dty):
    return E.make(dty, mk("call", name, tuple(E.reify(v) for v in vals)))


def cases(d, limit=16):
    """the alternatives of a diagram with their conditions"""
    out = []
    for l in leaves(d):
        if l is not BOT:
            out.append((apply(None, lambda x: TRUE if x is l else FALSE, d), l))
    if len(out) > limit:
        raise Unknown("too many alternatives")
    return out


# ---------------------------------------------------------------- hooks used by the engine
def transmute(E, a, fty, tty):
    fk, tk = E.types[fty], E.types[tty]
    n, m = E.lanes(fty), E.lanes(tty)
    if isinstance(a, Sym):
        a = E.expand(a)
    if isinstance(a, Agg):
        fs = flat(E, a)
        if m and len(fs) == m:
            return agg(tty, fs)
        if tk["k"] == "array" and isinstance(tk.get("len"), int) and len(fs) == tk["len"]:
            return agg("[]", fs)
    return None


def flat(E, a):
    out = []
    for f in a.fs:
        f = E.expand(f) if isinstance(f, Sym) else f
        if isinstance(f, Agg):
            out += flat(E, f)
        else:
            out.append(f)
    return out


def drop(E, fr, t):
    ty = t[2]
    k = E.types[ty]
    if k["k"] == "adt" and "Guard" in k["path"]:
        try:
            v = E.read_place(fr, t[1])
        except Unknown:
            v = None
        E.log("unlock", v)


def copy_nonoverlapping(E, src, dst, n):
    cnt = iv(E, n)
    E.log("memcpy", src, dst, cnt)
    if src.atom is not None or dst.atom is not None:
        raise Unknown("memory copy between data dependent places")
    s, d = src.leaf, dst.leaf

    def base(l):
        if l.op == "sref":
            return l.a[0], l.a[1], l.a[2]
        if l.op == "ref" and l.a[1] and l.a[1][-1][0] == "i":
            return l.a[0], l.a[1][:-1], l.a[1][-1][1]
        return None
    if cnt is ONE:
        E.store(dst, (), E.load(src))
        return
    bs, bd = base(s), base(d)
    n = int(cval(cnt)) if is_const(cnt) else 99
    if n <= 8 and (bs is None or bd is None or isinstance(val(E, E.vget(E.region(bd[0]), bd[1])), Agg)):
        vs = [E.load(E.ptr_add(src, leaf(const(i)))) for i in range(n)]
        for i, v in enumerate(vs):
            E.store(E.ptr_add(dst, leaf(const(i))), (), v)
        return
    if bs is None or bd is None:
        raise Unknown("memory copy")
    sv = val(E, E.vget(E.region(bs[0]), bs[1]))
    dv = val(E, E.vget(E.region(bd[0]), bd[1]))
    if isinstance(sv, Agg):
        sv = E.to_coll(sv)
    if not isinstance(dv, Coll):
        raise Unknown("memory copy")
    a = dv.arr
    new = coll(dv.len, arr(a.base, a.ety, a.ents + (("copy", DT, bd[2], cnt, sv.arr, bs[2]),)))
    E.mem[bd[0]] = E.vset(E.region(bd[0]), bd[1], new)


# ---------------------------------------------------------------- iterators
def mkit(spec, pos, end):
    return agg(("it", spec), [pos, end])


def as_it(E, v):
    """iterator value of an iterable (by value)"""
    if isinstance(v, Sym):
        v = E.expand(v)
    if isinstance(v, Agg):
        if isinstance(v.ty, tuple) and v.ty[0] == "it":
            return v
        if isinstance(v.ty, int):
            p = E.types[v.ty].get("path")
            if p == "std::ops::Range":
                return mkit(("range",), v.fs[0], v.fs[1])
            if p == "std::ops::RangeFrom":
                return mkit(("range",), v.fs[0], leaf(INF))
            if p == "std::ops::RangeInclusive":
                return mkit(("range",), v.fs[0], add(v.fs[1], leaf(ONE)))
        if v.ty == "[]":
            r = tmp(E, v)
            return mkit(("slice", mk("sref", r, (), ZERO, const(len(v.fs))), "val"), leaf(ZERO), leaf(const(len(v.fs))))
    if isinstance(v, Coll):
        r = tmp(E, v)
        return mkit(("slice", mk("sref", r, (), ZERO, iv(E, v.len)), "val"), leaf(ZERO), v.len)
    if is_ref(v):
        w = v.leaf if v.atom is None else None
        if w is not None and w.op == "ref":
            x = E.load(v)
            if isinstance(x, Agg) and isinstance(x.ty, tuple) and x.ty[0] == "it":
                return mkit(("byref", v), x.fs[0], x.fs[1])
            if isinstance(x, Agg) and isinstance(x.ty, int) and E.types[x.ty].get("path") == "std::ops::Range":
                return mkit(("byref", v), x.fs[0], x.fs[1])
        return slice_it(E, v)
    raise Unknown("not an iterable value: %s" % type(v).__name__)


def slice_it(E, ref):
    s = E.slice_of(ref)
    if s.atom is not None:
        ls = [l for l in leaves(s) if l is not BOT]
        if any(l.op != "sref" for l in ls):
            raise Unknown("iteration over a data dependent slice")
        n = apply(None, lambda l: l if l is BOT else l.a[3], s)
        if all(l.a[:3] == ls[0].a[:3] for l in ls):
            return mkit(("slice", ls[0], "ref"), leaf(ZERO), n)
        return mkit(("dslice", s, "ref"), leaf(ZERO), n)
    l = s.leaf
    return mkit(("slice", l, "ref"), leaf(ZERO), leaf(l.a[3]))


def elem(E, spec, pos):
    k = spec[0]
    if k == "range":
        return pos
    if k == "slice":
        l = spec[1]
        r = apply(None, lambda i: mk("ref", l.a[0], l.a[1] + (("i", padd(l.a[2], i)),)), pos)
        return r if spec[2] == "ref" else E.load(r)
    if k == "dslice":
        return E.index_ref(spec[1], (), pos)
    if k == "map":
        x = elem(E, spec[1], pos)
        return E.call_value(spec[2], [x], None, spec[3])
    if k == "enum":
        x = elem(E, spec[1], pos)
        return agg("()", [sub(pos, spec[2]), x])
    if k == "rev":
        return elem(E, spec[1], sub(spec[2], pos))
    if k == "shift":
        return elem(E, spec[1], add(pos, spec[2]))
    if k == "step":
        return elem(E, spec[1], add(spec[2], mul(pos, spec[3])))
    if k == "copied":
        return E.load(elem(E, spec[1], pos))
    if k == "zip":
        a = elem(E, spec[1], add(pos, spec[2]))
        return agg("()", [a, elem(E, spec[3], add(pos, spec[4]))])
    if k == "bridge":
        return elem(E, spec[1], apply(None, lambda i: var("shuffle", spec[2], i), pos))
    if k == "chunks":
        l, n = spec[1], spec[2]
        return apply(None, lambda i: mk("sref", l.a[0], l.a[1], padd(l.a[2], pmul(i, n)), n), pos)
    if k == "chunksr":
        l, n = spec[1], spec[2]
        return apply(None, lambda i: mk("sref", l.a[0], l.a[1], padd(l.a[2], pmul(i, n)), pmin(n, psub(l.a[3], pmul(i, n)))), pos)
    if k == "chain":
        return fork(E, icmp(E, pos, spec[3]), lambda: elem(E, spec[1], add(pos, spec[2])),
                    lambda: elem(E, spec[4], add(sub(pos, spec[3]), spec[5])))
    if k == "repeat":
        return spec[1]
    if k == "windows":
        l, n = spec[1], spec[2]
        return apply(None, lambda i: mk("sref", l.a[0], l.a[1], padd(l.a[2], i), n), pos)
    raise Unknown("iterator %s" % (k,))


def has_filter(spec):
    return isinstance(spec, tuple) and (spec[0] in ("filter", "fmap") or any(has_filter(x) for x in spec[1:] if isinstance(x, tuple)))


INF = const(1 << 80)


def endless(it):
    return it.fs[1].atom is None and it.fs[1].leaf is INF


def it_len(E, it):
    return sub(it.fs[1], it.fs[0])


def icmp(E, a, b):
    return apply(("lt", False), lambda x, y: cmp_lt(x, y, False), a, b)


def it_next(E, ref, dty, back=False):
    it = as_it_inplace(E, ref)
    spec = it.ty[1]
    if spec[0] == "byref":
        return it_next(E, spec[1], dty, back)
    if has_filter(spec):
        raise Unknown("next of a filter")
    pos, end = it.fs
    c = icmp(E, pos, end)

    def yes():
        if back:
            p = sub(end, leaf(ONE))
            E.store(ref, (), mkit(spec, pos, p))
        else:
            p = pos
            E.store(ref, (), mkit(spec, add(pos, leaf(ONE)), end))
        return some(dty, elem(E, spec, p))

    def no():
        return enum(dty, leaf(ZERO), [[], None])
    return fork(E, c, yes, no)


def as_it_inplace(E, ref):
    v = E.load(ref)
    if isinstance(v, Sym):
        v = E.expand(v)
    if isinstance(v, Agg) and isinstance(v.ty, tuple) and v.ty[0] == "it":
        return v
    w = as_it(E, v)
    return w


def drive(E, it, step, name):
    """run step(element) for every remaining element; step may return a DD 'stop' condition"""
    spec = it.ty[1]
    E.frames += 1
    R = mk("tmp", E.frames)
    E.mem[R] = it
    g0 = E.guard
    fid = E.frames
    stoppable = [False]

    def body(g, m):
        E.guard, E.mem = g, m
        cur = E.mem[R]
        pos, end = cur.fs
        c = icmp(E, pos, end)
        c = restrict(c, g) if c.atom is not None else c
        exits, backs = [], []
        if c is not DT:
            exits.append(("end", dand(g, dnot(c)), dict(E.mem)))
        if c is DF:
            return backs, exits
        E.guard = dand(g, c)
        E.mem[R] = mkit(spec, add(pos, leaf(ONE)), end)
        stop = run_filtered(E, spec, pos, step)
        if stop is not None and stop is not DF:
            exits.append(("stop", dand(E.guard, stop), dict(E.mem)))
            backs.append((dand(E.guard, dnot(stop)), E.mem))
        else:
            backs.append((E.guard, E.mem))
        return backs, exits
    outs = E.loop(body, g0, E.mem, ("%s in %s" % (name, E.stack[-1][0] if E.stack else "?"), 0, fid))
    ins = [(g, m) for _, g, m in outs]
    if not ins:
        raise Unknown("iteration never ends")
    _, m = E.merge(ins)
    E.guard = g0
    E.mem = m
    res = m.get(R)
    E.mem.pop(R, None)
    return res


def run_filtered(E, spec, pos, step):
    if spec[0] == "filter":
        def with_elem(x):
            r = tmpref(E, x)
            c = E.call_value(spec[2], [r], None, None)
            out = []

            def yes():
                out.append(step(x))
                return UNITV
            fork(E, c, yes, lambda: UNITV)
            if out and out[0] is not None and out[0] is not DF:
                return dand(c, out[0])
            return None
        return run_filtered(E, spec[1], pos, with_elem)
    if spec[0] == "fmap":
        def with_opt(x):
            o = E.call_value(spec[2], [x], None, spec[3])
            o = E.expand(o) if isinstance(o, Sym) else o
            if not isinstance(o, Enum):
                raise Unknown("filter_map")
            c = is_some(o)
            out = []

            def yes():
                out.append(step(o.vs[1][0]))
                return UNITV
            fork(E, c, yes, lambda: UNITV)
            if out and out[0] is not None and out[0] is not DF:
                return dand(c, out[0])
            return None
        return run_filtered(E, spec[1], pos, with_opt)
    if spec[0] == "map" and has_filter(spec[1]):
        return run_filtered(E, spec[1], pos, lambda x: step(E.call_value(spec[2], [x], None, spec[3])))
    if spec[0] in ("copied",) and has_filter(spec[1]):
        return run_filtered(E, spec[1], pos, lambda x: step(E.load(x)))
    return step(elem(E, spec, pos))


def it_adapter(E, name, it, rest, dty):
    pos, end = it.fs
    spec = it.ty[1]
    if name == "map":
        ety = None
        return mkit(("map", spec, rest[0], ety), pos, end)
    if name == "filter":
        return mkit(("filter", spec, rest[0]), pos, end)
    if name == "filter_map":
        return mkit(("fmap", spec, rest[0], None), pos, end)
    if name == "chain":
        o = as_it(E, rest[0])
        if has_filter(spec) or has_filter(o.ty[1]):
            raise Unknown("chain of filters")
        n = it_len(E, it)
        return mkit(("chain", spec, pos, n, o.ty[1], o.fs[0]), leaf(ZERO), add(n, it_len(E, o)))
    if name == "enumerate":
        if has_filter(spec):
            raise Unknown("enumerate of a filter")
        return mkit(("enum", spec, pos), pos, end)
    if name == "rev":
        if has_filter(spec):
            return mkit(rev_filter(spec, add(pos, sub(end, leaf(ONE)))), pos, end)
        return mkit(("rev", spec, sub(add(pos, end), leaf(ONE))), pos, end)
    if name in ("copied", "cloned"):
        return mkit(("copied", spec), pos, end)
    if name == "zip":
        o = as_it(E, rest[0])
        n = it_len(E, it)
        m = it_len(E, o)
        k = n if endless(o) else m if endless(it) else apply(None, pmin, n, m)
        return mkit(("zip", spec, pos, o.ty[1], o.fs[0]), leaf(ZERO), k)
    if name == "skip":
        return mkit(spec, apply(None, pmin, add(pos, rest[0]), end), end)
    if name == "take" and endless(it):
        return mkit(spec, pos, add(pos, rest[0]))
    if name == "take":
        return mkit(spec, pos, apply(None, pmin, add(pos, rest[0]), end))
    if name == "step_by":
        s = rest[0]
        n = it_len(E, it)
        if s.atom is None and s.leaf is ONE:
            return it
        cnt = apply(None, lambda x, y: E.idiv(padd(x, psub(y, ONE)), y), n, s)
        return mkit(("step", spec, pos, s), leaf(ZERO), cnt)
    if name in ("by_ref", "into_iter", "into_par_iter", "fuse", "peekable_", "inspect_"):
        return it
    raise Unknown("iterator adapter %s" % name)


def rev_filter(spec, s):
    if spec[0] in ("filter", "map", "fmap") or (spec[0] == "copied" and has_filter(spec[1])):
        return (spec[0], rev_filter(spec[1], s)) + spec[2:]
    return ("rev", spec, s)


def consumer(E, name, it, rest, dty, parallel=False):
    if name == "for_each":
        def step(x):
            E.call_value(rest[0], [x], None, None)
        if parallel:
            E.log("parallel", it)
        drive(E, it, step, "for_each")
        return UNITV
    if name in ("fold",):
        acc = tmp(E, rest[0])

        def step(x):
            r = E.call_value(rest[1], [E.mem[acc], x], None, dty)
            E.mem[acc] = r
        drive(E, it, step, "fold")
        return E.mem.pop(acc)
    if name in ("collect", "from_iter", "collect_into"):
        k = E.types[dty] if dty is not None else None
        if k is not None and not (k["k"] == "adt" and is_vec(k["path"])):
            raise Unknown("collect into %s" % k["n"])
        ety = k["args"][0] if k is not None else None
        if not has_filter(it.ty[1]):
            # random access source of known length: generate element-wise
            pass
        R = tmp(E, coll(leaf(ZERO), arr(mk("empty", dty), ety)))

        def step(x):
            c = E.mem[R]
            n = iv(E, c.len)
            E.mem[R] = coll(add(c.len, leaf(ONE)), arr(c.arr.base, c.arr.ety, c.arr.ents + (("w", DT, leaf(n), (), x),)))
        if parallel:
            E.log("parallel", it)
        drive(E, it, step, "collect")
        return E.mem.pop(R)
    if name in ("sum", "product"):
        acc = tmp(E, leaf(ZERO if name == "sum" else ONE))

        def step(x):
            x = val(E, x)
            E.mem[acc] = (add if name == "sum" else mul)(E.mem[acc], x)
        drive(E, it, step, name)
        return E.mem.pop(acc)
    if name == "count":
        if not has_filter(it.ty[1]):
            return it_len(E, it)
        acc = tmp(E, leaf(ZERO))

        def step(x):
            E.mem[acc] = add(E.mem[acc], leaf(ONE))
        drive(E, it, step, name)
        return E.mem.pop(acc)
    if name in ("any", "all"):
        acc = tmp(E, DF if name == "any" else DT)

        def step(x):
            c = E.call_value(rest[0], [x], None, None)
            E.mem[acc] = ite(c, DT, E.mem[acc]) if name == "any" else dand(c, E.mem[acc])
            return c if name == "any" else dnot(c)
        E.last_it = drive(E, it, step, name)
        return E.mem.pop(acc)
    if name in ("max", "min"):
        ty = E.types[E.types[dty]["args"][0]]
        if ty["k"] in ("ref",):
            return consumer(E, name + "ref", it, rest, dty)
        if ty["k"] != "int":
            raise Unknown("iterator %s of %s" % (name, ty["n"]))
        bits, sg = ty.get("bits", 64), ty.get("signed")
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        acc = tmp(E, leaf(const(lo if name == "max" else hi)))
        any_ = tmp(E, DF)

        def step(x):
            E.mem[acc] = apply(None, pmax if name == "max" else pmin, E.mem[acc], val(E, x))
            E.mem[any_] = DT
        drive(E, it, step, name)
        some_ = E.mem.pop(any_)
        if not has_filter(it.ty[1]):
            some_ = apply(None, lambda n: cmp_lt(ZERO, n, False), it_len(E, it))
        if E.types[E.types[dty]["args"][0]]["k"] == "ref":
            raise Unknown("reference to the %s" % name)
        return option(E, dty, some_, E.mem.pop(acc))
    if name in ("find", "position", "find_map"):
        if name == "position":
            if has_filter(it.ty[1]):
                raise Unknown("position in a filter")
            it = it_adapter(E, "enumerate", it, [], None)
        found, best = tmp(E, DF), tmp(E, E.make(E.types[dty]["args"][0], mk("none", name)))

        def step(x):
            if name == "find_map":
                o = E.call_value(rest[0], [x], None, dty)
                o = E.expand(o) if isinstance(o, Sym) else o
                c, v = is_some(o), (o.vs[1] or [None])[0]
            elif name == "find":
                c, v = E.call_value(rest[0], [tmpref(E, x)], None, None), x
            else:
                c, v = E.call_value(rest[0], [x.fs[1]], None, None), x.fs[0]
            E.mem[found] = ite(c, DT, E.mem[found])
            if v is not None and c is not DF:
                E.mem[best] = E.ite_v(c, v, E.mem[best])
            return c
        E.last_it = drive(E, it, step, name)
        return option(E, dty, E.mem.pop(found), E.mem.pop(best))
    if name in ("reduce", "min_by", "max_by", "min_by_key", "max_by_key", "maxref", "minref"):
        if has_filter(it.ty[1]):
            raise Unknown("%s of a filter" % name)
        spec, (pos, end) = it.ty[1], it.fs
        oty = E.types[dty]["args"][0]

        def keep(a, x):
            """whether the old value stays"""
            ref = lambda v: tmpref(E, v)
            if name in ("min_by", "max_by"):
                r = E.call_value(rest[0], [ref(a), ref(x)], None, None)
                r = E.expand(r) if isinstance(r, Sym) else r
                d = apply(None, lambda l: l if l is BOT else (const(cval(l) - 256) if is_const(l) and cval(l) > 127 else l), r.disc)
            else:
                if name.endswith("key"):
                    ka, kx = [E.call_value(rest[0], [ref(v)], None, None) for v in (a, x)]
                else:
                    ka, kx = E.load(a), E.load(x)
                ka, kx = val(E, ka), val(E, kx)
                if not isinstance(ka, DD) or not isinstance(kx, DD):
                    raise Unknown("key of %s" % name)
                if name.startswith("min"):
                    return dnot(icmp(E, kx, ka))
                return icmp(E, kx, ka)
            if name == "min_by":
                return dnot(icmp(E, leaf(ZERO), d))
            return icmp(E, leaf(ZERO), d)

        def some_():
            acc = tmp(E, elem(E, spec, pos))

            def step(x):
                a = E.mem[acc]
                E.mem[acc] = E.call_value(rest[0], [a, x], None, oty) if name == "reduce" else E.ite_v(keep(a, x), a, x)
            if not (is_const(iv(E, pos)) and is_const(iv(E, end)) and cval(iv(E, end)) - cval(iv(E, pos)) <= 1):
                drive(E, mkit(spec, add(pos, leaf(ONE)), end), step, name)
            return some(dty, E.mem.pop(acc))
        return fork(E, icmp(E, pos, end), some_, lambda: enum(dty, leaf(ZERO), [[], None]))
    raise Unknown("iterator consumer %s" % name)


# ---------------------------------------------------------------- dispatch
IT_ADAPT = {"map", "enumerate", "rev", "copied", "cloned", "zip", "skip", "take", "step_by", "filter", "by_ref", "fuse", "filter_map",
            "chain"}
IT_CONS = {"for_each", "fold", "collect", "sum", "product", "count", "any", "all", "max", "min", "find", "position", "find_map", "reduce",
           "min_by", "max_by", "min_by_key", "max_by_key"}
TABLE = {}
RX = []


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def rx(p):
    def d(f):
        RX.append((re.compile(p), f))
        return f
    return d


_rxcache = {}


def find_model(path):
    f = TABLE.get(path)
    if f is not None:
        return f
    if path in _rxcache:
        return _rxcache[path]
    for r, g in RX:
        if r.search(path):
            _rxcache[path] = g
            return g
    _rxcache[path] = None
    return None


class Ctx:
    __slots__ = ("E", "fr", "c", "path", "rpath", "vals", "tys", "dty", "name")


def dispatch(E, fr, callee, vals, tys, dty):
    path = callee["path"]
    rpath = callee.get("rpath") or path
    x = Ctx()
    x.E, x.fr, x.c, x.path, x.rpath, x.vals, x.tys, x.dty = E, fr, callee, path, rpath, vals, tys, dty
    x.name = callee.get("name") or path.rsplit("::", 1)[-1]
    h = E.hooks.get(rpath) or E.hooks.get(path)
    if h is not None:
        r = h(x)
        if r is not NotImplemented:
            return r
    for p in (rpath, path) if rpath != path else (path,):
        f = find_model(p)
        if f is not None:
            r = f(x)
            if r is not NotImplemented:
                return r
    inst = callee.get("inst")
    if inst is not None:
        if any(s[2] == inst for s in E.stack):
            h = E.hooks.get("rec:" + E.bodies[inst]["path"])
            if h is not None:
                return h(x)
            return E.opaque_call("rec:" + E.bodies[inst]["path"], vals, tys, dty)
        b = E.bodies[inst]
        args = list(vals)
        if b.get("spread") and len(args) == 2 and b["argc"] != 2:
            t = args[1]
            t = E.expand(t) if isinstance(t, Sym) else t
            args = [args[0]] + list(t.fs)
        return E.call_body(inst, args)
    name = path
    if callee.get("args"):
        pass
    return E.opaque_call(name, vals, tys, dty)


# ---------------------------------------------------------------- the traversal stack as an array
@reg("utils::TraversalStack::new")
def _tsnew(x):
    if "utils::TraversalStack" not in x.E.logical:
        return NotImplemented
    ety = x.E.logical_elem(x.dty)
    return coll(leaf(atom(mk("len", mk("stacknew")))), arr(("fill", leaf(ZERO)), ety))


@reg("<utils::TraversalStack as std::ops::Index<usize>>::index",
     "<utils::TraversalStack as std::ops::IndexMut<usize>>::index_mut")
def _tsindex(x):
    if "utils::TraversalStack" not in x.E.logical:
        return NotImplemented
    x.E.log("stack_index", x.vals[0], x.vals[1], x.name)
    return x.E.index_ref(x.vals[0], (), x.vals[1])


# ---------------------------------------------------------------- closures
@rx(r"std::ops::(Fn|FnMut|FnOnce)::call(_mut|_once)?$")
def _fncall(x):
    f, t = x.vals[0], x.vals[1]
    t = x.E.expand(t) if isinstance(t, Sym) else t
    return x.E.call_value(f, list(t.fs) if isinstance(t, Agg) else [t], None, x.dty)


# ---------------------------------------------------------------- fixed arrays
@rx(r"array::<impl \[T; N\]>::map$")
def _arraymap(x):
    v = val(x.E, x.vals[0])
    if not isinstance(v, Agg):
        raise Unknown("map over an array that is not known element by element")
    return agg(x.dty, [x.E.call_value(x.vals[1], [e], None, None) for e in v.fs])


@rx(r"^(std|core)::array::from_fn$")
def _fromfn(x):
    k = x.E.types[x.dty]
    n = k.get("len")
    if not isinstance(n, int) or n > 64:
        raise Unknown("length of the array built")
    return agg(x.dty, [x.E.call_value(x.vals[0], [leaf(const(i))], None, None) for i in range(n)])


# ---------------------------------------------------------------- glam
OPS = {"add": fadd, "sub": fsub, "mul": fmul, "div": fdiv}


def lanes_of(x, v, n):
    v = val(x.E, v)
    if isinstance(v, Agg):
        return list(v.fs)
    return [v] * n


@rx(r"(glam::.*|<glam::.*> as std::ops::|<&?'?\w* ?glam::.* as std::ops::)(Add|Sub|Mul|Div)(<.*>)?>?( for .*)?>::(add|sub|mul|div)$")
def _vecop(x):
    E = x.E
    n = E.lanes(x.dty)
    if not n:
        return pure(E, x.path, x.vals, x.dty)
    a, b = val(E, x.vals[0]), val(E, x.vals[1])
    if "Mat" in x.rpath:
        return pure(E, "mat_mul", x.vals, x.dty)
    a, b = lanes_of(x, a, n), lanes_of(x, b, n)
    f = OPS[x.name]
    return agg(x.dty, [f(p, q) for p, q in zip(a, b)])


@rx(r"glam::.*(Add|Sub|Mul|Div)Assign.*::(add|sub|mul|div)_assign$")
def _vecopassign(x):
    E = x.E
    cur = val(E, x.vals[0])
    a, b = list(cur.fs), lanes_of(x, x.vals[1], len(cur.fs))
    f = OPS[x.name.split("_")[0]]
    E.store(x.vals[0], (), agg(cur.ty, [f(p, q) for p, q in zip(a, b)]))
    return UNITV


@rx(r"glam::.*Neg.*::neg$")
def _vecneg(x):
    v = val(x.E, x.vals[0])
    return agg(x.dty, [apply("neg", lambda p: pscale(p, -1), f) for f in v.fs])


@rx(r"glam::.*(BitAnd|BitOr|BitXor).*::bit(and|or|xor)(_assign)?$")
def _maskop(x):
    E = x.E
    a, b = val(E, x.vals[0]), val(E, x.vals[1])
    f = dand if "bitand" in x.name else dor if "bitor" in x.name else dxor
    r = agg(a.ty, [f(p, q) for p, q in zip(a.fs, b.fs)])
    if x.name.endswith("assign"):
        E.store(x.vals[0], (), r)
        return UNITV
    return r


@rx(r"glam::.*Not.*::not$")
def _masknot(x):
    a = val(x.E, x.vals[0])
    return agg(a.ty, [dnot(p) for p in a.fs])


@rx(r"glam::(Vec\d\w*)::(min|max)$")
def _vecminmax(x):
    a, b = val(x.E, x.vals[0]), val(x.E, x.vals[1])
    f = fmin if x.name == "min" else fmax
    return agg(x.dty, [f(p, q) for p, q in zip(a.fs, b.fs)])


@rx(r"glam::(Vec\d\w*)::cmp(lt|le|gt|ge|eq|ne)$")
def _veccmp(x):
    a, b = val(x.E, x.vals[0]), val(x.E, x.vals[1])
    f = {"cmplt": lt, "cmple": le, "cmpgt": lambda p, q: lt(q, p), "cmpge": lambda p, q: le(q, p),
         "cmpeq": eqf, "cmpne": lambda p, q: dnot(eqf(p, q))}[x.name]
    return agg(x.dty, [f(p, q) for p, q in zip(a.fs, b.fs)])


@rx(r"glam::B?Vec\d\w*::(splat)$")
def _splat(x):
    n = x.E.lanes(x.dty)
    return agg(x.dty, [x.vals[0]] * n)


@rx(r"glam::B?Vec\d\w*::(new|from_array|from_slice)$|^glam::vec[234]a?$|glam::bool::.*bvec\w*$")
def _vecnew(x):
    n = x.E.lanes(x.dty)
    if len(x.vals) == n:
        return agg(x.dty, x.vals)
    v = val(x.E, x.vals[0])
    if isinstance(v, Coll):
        return agg(x.dty, [x.E.arr_read(v.arr, const(i)) for i in range(n)])
    return agg(x.dty, list(v.fs)[:n])


@rx(r"glam::.*::(from|into)$")
def _vecfrom(x):
    E = x.E
    a = x.vals[0]
    if is_ref(a):
        a = val(E, a)
    v = E.expand(a) if isinstance(a, Sym) else a
    if not isinstance(v, Agg):
        return pure(E, x.rpath, x.vals, x.dty)
    fs = flat(E, v)
    k = E.types[x.dty]
    n = E.lanes(x.dty)
    if n:
        if len(fs) < n:
            return NotImplemented
        return agg(x.dty, fs[:n])
    if k["k"] == "array":
        return agg("[]", fs)
    if k["k"] == "tuple":
        return agg("()", fs)
    return NotImplemented


@rx(r"(<glam::\w+ as std::ops::(Deref|DerefMut)>::(deref|deref_mut)|<glam::\w+ as std::convert::As(Ref|Mut)<.*>>::as_(ref|mut)|<glam::\w+ as std::borrow::\w+<.*>>::borrow(_mut)?)$")
def _vecderef(x):
    v = x.vals[0]
    return v


@rx(r"<glam::\w+ as std::ops::Index(Mut)?<usize>>::index(_mut)?$")
def _vecindex(x):
    return x.E.index_ref(x.vals[0], (), x.vals[1])


@rx(r"glam::\w+::(to_array|as_array)$|glam::Vec3::(to_vec3a|as_vec3a)$|glam::Vec3A::to_vec3$|glam::Vec4::(truncate)$|Vec4Swizzles>?::xyz$|Vec3Swizzles>?::xyz$")
def _toarr(x):
    v = val(x.E, x.vals[0])
    n = x.E.lanes(x.dty) or len(v.fs)
    k = x.E.types[x.dty]["k"]
    return agg("[]" if k == "array" else x.dty, list(v.fs)[:n])


@rx(r"(glam::swizzles::|Vec[234]Swizzles::|Vec[234]Swizzles for).*::?([xyzw]{2,4})$")
def _swizzle(x):
    v = val(x.E, x.vals[0])
    return agg(x.dty, [v.fs["xyzw".index(c)] for c in x.name])


@rx(r"glam::\w+::extend$")
def _extend(x):
    v = val(x.E, x.vals[0])
    return agg(x.dty, list(v.fs) + [x.vals[1]])


@rx(r"glam::\w+::(cross|dot|length|length_squared|normalize|min_element|max_element|abs|recip|is_nan|is_finite|mul_add|clamp|lerp|with_x|with_y|with_z|with_w|element_sum|is_nan_mask|is_negative_bitmask|signum|floor|powf|sqrt|distance|element_product|max_position|min_position)$")
def _vecfn(x):
    E = x.E
    v = list(val(E, x.vals[0]).fs)
    o = [val(E, y) for y in x.vals[1:]]
    n = x.name
    if n == "cross":
        b = o[0].fs
        return agg(x.dty, [fsub(fmul(v[1], b[2]), fmul(b[1], v[2])), fsub(fmul(v[2], b[0]), fmul(b[2], v[0])),
                           fsub(fmul(v[0], b[1]), fmul(b[0], v[1]))])
    if n == "dot":
        r = leaf(ZERO)
        for p, q in zip(v, o[0].fs):
            r = fadd(r, fmul(p, q))
        return r
    if n == "length_squared":
        r = leaf(ZERO)
        for p in v:
            r = fadd(r, fmul(p, p))
        return r
    if n in ("min_element", "max_element"):
        r = v[0]
        for p in v[1:]:
            r = (fmin if n[:3] == "min" else fmax)(r, p)
        return r
    if n == "element_sum":
        r = leaf(ZERO)
        for p in v:
            r = fadd(r, p)
        return r
    if n == "is_nan":
        r = DF
        for p in v:
            r = dor(r, dnan(p))
        return r
    if n == "is_nan_mask":
        return agg(x.dty, [dnan(p) for p in v])
    if n == "recip":
        return agg(x.dty, [fdiv(leaf(ONE), p) for p in v])
    if n == "abs":
        return agg(x.dty, [fmax(p, apply("neg", lambda q: pscale(q, -1), p)) for p in v])
    if n == "clamp":
        return agg(x.dty, [fmin(fmax(p, l), h) for p, l, h in zip(v, o[0].fs, o[1].fs)])
    if n == "mul_add":
        return agg(x.dty, [ffma(p, l, h) for p, l, h in zip(v, o[0].fs, o[1].fs)])
    if n.startswith("with_"):
        v["xyzw".index(n[5])] = x.vals[1]
        return agg(x.dty, v)
    if n == "lerp":
        return agg(x.dty, [fadd(p, fmul(fsub(q, p), o[1])) for p, q in zip(v, o[0].fs)])
    return pure(E, "glam:" + n, x.vals, x.dty)


@rx(r"glam::BVec\w+::(all|any|bitmask|test)$")
def _mask(x):
    E = x.E
    v = list(val(E, x.vals[0]).fs)
    if x.name == "all":
        r = DT
        for p in v:
            r = dand(r, p)
        return r
    if x.name == "any":
        r = DF
        for p in v:
            r = dor(r, p)
        return r
    if x.name == "test":
        return E.small_sel(v, iv(E, x.vals[1]))
    r = leaf(ZERO)
    for i, p in enumerate(v):
        r = add(r, ite(p, leaf(const(1 << i)), leaf(ZERO)))
    return r


@rx(r"glam::Vec\w+::select$")
def _select(x):
    E = x.E
    m, a, b = (val(E, v) for v in x.vals)
    return agg(x.dty, [ite(c, p, q) for c, p, q in zip(m.fs, a.fs, b.fs)])


@rx(r"<glam::\w+ as std::(clone::Clone>::clone)$")
def _glamclone(x):
    return x.E.load(x.vals[0])


@rx(r"<glam::\w+ as std::cmp::PartialEq(<.*>)?>::(eq|ne)$")
def _glameq(x):
    a, b = val(x.E, x.vals[0]), val(x.E, x.vals[1])
    r = DT
    for p, q in zip(a.fs, b.fs):
        r = dand(r, eqf(p, q) if "BVec" not in x.rpath else dnot(dxor(p, q)))
    return r if x.name == "eq" else dnot(r)


@rx(r"_mm_load(u)?_ps$")
def _mmload(x):
    E = x.E
    r = x.vals[0]
    E.log("simdload" if x.name == "_mm_load_ps" else "simdloadu", r)
    out = []
    for i in range(4):
        p = E.ptr_add(r, leaf(const(i)))
        out.append(E.load(p))
    return agg(x.dty, out)


@rx(r"_mm_set1_ps$")
def _mmset1(x):
    return agg(x.dty, [x.vals[0]] * 4)


# ---------------------------------------------------------------- floats and integers
@rx(r"f(32|64)>::(min|max|minimum|maximum)$")
def _fminmax(x):
    return (fmin if x.name.startswith("min") else fmax)(x.vals[0], x.vals[1])


@rx(r"f(32|64)>::(is_sign_negative|is_sign_positive)$")
def _sign(x):
    def f(v):
        if is_const(v):
            return TRUE if cval(v) < 0 else FALSE
        return batom(mk("signbit", v))
    r = apply("signbit", f, x.vals[0])
    return r if x.name.endswith("negative") else dnot(r)


@rx(r"f(32|64)>::(is_infinite|is_finite)$")
def _isinf(x):
    def f(v):
        if v is BOT:
            return BOT
        if v.op != "poly":
            return batom(mk("isinf", v))
        s = [m for m, c in v.a[0] if any(t.op == "inf" for t, _ in m)]
        if s:
            return TRUE
        return FALSE if is_const(v) else batom(mk("isinf", v))
    r = apply("isinf", f, x.vals[0])
    return r if x.name == "is_infinite" else dnot(r)


@rx(r"f(32|64)>::is_nan$")
def _isnan(x):
    return dnan(x.vals[0])


@rx(r"f(32|64)>::(abs)$")
def _fabs(x):
    return apply("abs", lambda v: pmax(v, pscale(v, -1)), x.vals[0])


@rx(r"f(32|64)>::(mul_add)$")
def _fmuladd(x):
    return ffma(x.vals[0], x.vals[1], x.vals[2])


@rx(r"f(32|64)>::recip$")
def _recip(x):
    return fdiv(leaf(ONE), x.vals[0])


@rx(r"f(32|64)>::clamp$")
def _fclamp(x):
    return fmin(fmax(x.vals[0], x.vals[1]), x.vals[2])


@rx(r"f(32|64)>::(sqrt|floor|ceil|round|trunc|powi|powf|ln|log2|log10|exp|sin|cos|tan|to_bits|from_bits|signum|copysign)$")
def _fpure(x):
    return apply(None, lambda *l: atom(mk("f:" + x.name, *l)), *x.vals)


@rx(r"f(32|64)>::total_cmp$")
def _total(x):
    E = x.E
    E.log("total_cmp", x.vals[0], x.vals[1])
    # a total order on the representation: an integer key per value
    k = [apply(None, lambda l: atom(mk("total", l)), val(E, v)) for v in x.vals[:2]]
    i32 = next(i for i, t in enumerate(E.types) if t["k"] == "int")
    return E.binop("Cmp", k[0], k[1], i32)


def _f32ty(E):
    for i, t in enumerate(E.types):
        if t["k"] == "float":
            return i


@rx(r"PartialOrd(<.*>)? for f(32|64)>::partial_cmp$")
def _partial(x):
    E = x.E
    a, b = val(E, x.vals[0]), val(E, x.vals[1])
    E.log("partial_cmp", a, b)
    r = E.binop("Cmp", a, b, _f32ty(E))
    return option(E, x.dty, dnot(dor(dnan(a), dnan(b))), r)


@rx(r"PartialOrd(<.*>)? for \w+>::(lt|le|gt|ge)$")
def _pcmp(x):
    E = x.E
    a, b = val(E, x.vals[0]), val(E, x.vals[1])
    if not isinstance(a, DD) or not isinstance(b, DD):
        return NotImplemented
    fl = "for f" in x.rpath
    f = {"lt": lambda p, q: cmp_lt(p, q, fl), "le": lambda p, q: cmp_le(p, q, fl),
         "gt": lambda p, q: cmp_lt(q, p, fl), "ge": lambda p, q: cmp_le(q, p, fl)}[x.name]
    return apply((x.name, fl), f, a, b)


@rx(r"Ord for [iu]\w+>::(cmp|partial_cmp)$")
def _icmp(x):
    E = x.E
    a, b = val(E, x.vals[0]), val(E, x.vals[1])
    c1 = icmp(E, a, b)
    c2 = icmp(E, b, a)
    return enum(ordering_ty(E), ite(c1, leaf(ZERO), ite(c2, leaf(const(2)), leaf(ONE))), [[], [], []])


@rx(r"(Ord for [iu]\w+>::(min|max)$|intrinsics::integer_(min|max)$|std::cmp::(min|max)$|std::cmp::Ord::(min|max)$)")
def _imin(x):
    E = x.E
    if not all(isinstance(v, DD) for v in x.vals[:2]) or is_ref(x.vals[0]):
        return NotImplemented
    f = pmin if x.name.endswith("min") else pmax
    return apply(x.name[-3:], f, x.vals[0], x.vals[1])


@rx(r"num::Zero>?::(zero|is_zero)$|identities::Zero>?::(zero|is_zero)$")
def _zero(x):
    if x.name == "zero":
        k = x.E.types[x.dty]["k"]
        return leaf(ZERO) if k in ("int", "float") else pure(x.E, "zero:%s" % x.dty, [], x.dty)
    return apply(None, lambda v: cmp_eq(v, ZERO, False), val(x.E, x.vals[0]))


@rx(r"<impl \w+>::(leading_zeros|trailing_zeros|count_ones|pow|is_power_of_two|next_power_of_two|ilog2|abs|rem_euclid|swap_bytes)$")
def _ibit(x):
    E = x.E
    if E.types[x.dty]["k"] == "bool":
        return apply(None, lambda *l: batom(mk("i:" + x.name, *l)), *x.vals)

    def f(*l):
        if x.name in ("leading_zeros", "trailing_zeros", "count_ones", "ilog2") and is_const(l[0]):
            n = E.bits(x.tys[0])
            v = int(cval(l[0])) & ((1 << n) - 1)
            r = {"leading_zeros": n - v.bit_length(),
                 "trailing_zeros": n if v == 0 else (v & -v).bit_length() - 1,
                 "count_ones": bin(v).count("1"), "ilog2": v.bit_length() - 1}[x.name]
            return const(r)
        t = mk("i:" + x.name, *l)
        INT_LO.setdefault(t, Fraction(0))
        return atom(t)
    return apply(None, f, *x.vals)


@rx(r"<impl \w+>::(wrapping_add|saturating_add|unchecked_add)$")
def _iadd(x):
    return add(x.vals[0], x.vals[1])


@rx(r"<impl \w+>::(wrapping_sub|unchecked_sub)$")
def _isub(x):
    return sub(x.vals[0], x.vals[1])


@rx(r"<impl u\w+>::saturating_sub$")
def _isatsub(x):
    return apply(None, lambda a, b: pmax(psub(a, b), ZERO), x.vals[0], x.vals[1])


@rx(r"<impl \w+>::(wrapping_mul|unchecked_mul|saturating_mul)$")
def _imul(x):
    return mul(x.vals[0], x.vals[1])


@rx(r"<impl u\w+>::(div_ceil)$")
def _divceil(x):
    return apply(None, lambda a, b: x.E.idiv(padd(a, psub(b, ONE)), b), x.vals[0], x.vals[1])


@rx(r"precondition_check$|::check_language_ub$|intrinsics::(cold_path|assert_inhabited)$|ub_checks")
def _nop(x):
    return UNITV if x.E.types[x.dty]["k"] == "tuple" else DT


@rx(r"intrinsics::raw_eq$")
def _raweq(x):
    E = x.E
    a, b = val(E, x.vals[0]), val(E, x.vals[1])
    r = DT
    for p, q in zip(flat(E, a), flat(E, b)):
        r = dand(r, apply(None, lambda u, v: cmp_eq(u, v, False), p, q))
    return r


@rx(r"intrinsics::typed_swap_nonoverlapping$|^std::mem::swap$|^std::ptr::swap$")
def _swap(x):
    E = x.E
    a, b = x.vals[0], x.vals[1]
    va, vb = E.load(a), E.load(b)
    E.store(a, (), vb)
    E.store(b, (), va)
    E.log("swap", a, b)
    return UNITV


@reg("std::mem::replace", "std::ptr::replace")
def _replace(x):
    old = x.E.load(x.vals[0])
    x.E.store(x.vals[0], (), x.vals[1])
    return old


def default_of(E, ty):
    k = E.types[ty]
    if k["k"] == "adt" and is_vec(k["path"]):
        return coll(leaf(ZERO), arr(mk("empty", ty), k["args"][0]))
    if k["k"] == "adt" and k["path"] == "std::option::Option":
        return enum(ty, leaf(ZERO), [[], None])
    if k["k"] in ("int", "float"):
        return leaf(ZERO)
    return E.make(ty, mk("default", ty))


@reg("std::mem::take")
def _take(x):
    E = x.E
    old = E.load(x.vals[0])
    new = default_of(E, x.dty)
    E.store(x.vals[0], (), new)
    return old


@reg("std::mem::size_of", "std::mem::align_of")
def _size(x):
    a = x.c.get("args") or []
    if a:
        k = x.E.types[a[0]]
        key = "size" if "size" in x.path else "align"
        if k.get("layout"):
            return leaf(const(k["layout"][key]))
    t = mk("sizeof", a[0] if a else -1)
    INT_LO.setdefault(t, Fraction(0))
    return leaf(atom(t))


@rx(r"^std::mem::(forget|drop)$|^std::hint::(must_use|black_box)$")
def _forget(x):
    return x.vals[0] if "hint" in x.path else UNITV


@rx(r"^num_cpus::get")
def _ncpu(x):
    return x.E.make(x.dty, mk("call", "num_cpus", ()))


# ---------------------------------------------------------------- pointers
@rx(r"std::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(add|offset|wrapping_add)$")
def _padd(x):
    return x.E.ptr_add(x.vals[0], x.vals[1])


@rx(r"std::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(sub|wrapping_sub)$")
def _psub(x):
    return x.E.ptr_add(x.vals[0], apply("neg", lambda q: pscale(q, -1), x.vals[1]))


def isnull(d):
    def f(l):
        if l.op in ("ref", "sref"):
            r = l.a[0]
            if isinstance(r, T) and r.op == "deref" and l.op == "ref" and (l.a[1] == () or l.a[1] == (("i", ZERO),)):
                return batom(mk("isnull", r))
            return FALSE
        if l.op == "null":
            return TRUE
        if l is BOT:
            return BOT
        return batom(mk("isnull", l))
    return apply(None, f, d)


@rx(r"std::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::is_null$")
def _isnull(x):
    return isnull(x.vals[0])


@reg("std::ptr::null", "std::ptr::null_mut")
def _null(x):
    return leaf(mk("null"))


@rx(r"std::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(as_ref|as_mut)$")
def _asref(x):
    return option(x.E, x.dty, dnot(isnull(x.vals[0])), x.vals[0])


@rx(r"std::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(cast|cast_mut|cast_const)$")
def _pcast(x):
    E = x.E
    fe, te = E.types[x.tys[0]].get("e"), E.types[x.dty].get("e")
    return E.ptr_cast(x.vals[0], fe, te) if fe is not None and te is not None else x.vals[0]


@rx(r"^std::ptr::(write|write_unaligned)$|<impl \*mut T>::(write|write_unaligned)$")
def _pwrite(x):
    x.E.log("ptr_" + x.name, x.vals[0])
    x.E.store(x.vals[0], (), x.vals[1])
    return UNITV


@rx(r"^std::ptr::(read|read_unaligned)$|<impl \*(mut|const) T>::(read|read_unaligned)$")
def _pread(x):
    x.E.log("ptr_" + x.name, x.vals[0])
    return x.E.load(x.vals[0])


@rx(r"(^std::ptr::copy(_nonoverlapping)?$|<impl \*(mut|const) T>::copy_(to|from)(_nonoverlapping)?$)")
def _pcopy(x):
    a, b = x.vals[0], x.vals[1]
    if "copy_from" in x.name:
        a, b = b, a
    copy_nonoverlapping(x.E, a, b, x.vals[2])
    return UNITV


@rx(r"^std::slice::from_raw_parts(_mut)?$|^std::ptr::slice_from_raw_parts(_mut)?$")
def _raw(x):
    E = x.E
    r = E.aggregate(None, ["rawptr"], [x.vals[0], x.vals[1]])
    E.log("from_raw_parts", x.vals[0], x.vals[1], x.dty, x.tys[0] if x.tys else None)
    return r


@rx(r"^std::num::NonZero::<T>::new$")
def _nz_new(x):
    v = x.vals[0]
    return option(x.E, x.dty, dnot(apply(None, lambda l: cmp_eq(l, ZERO, False), v)), v)


@rx(r"^std::num::NonZero::<T>::get$")
def _nz_get(x):
    v = x.vals[0]
    if isinstance(v, Sym):
        t = mk("fld", v.t, 0)
        INT_LO.setdefault(t, Fraction(1))
        return leaf(atom(t))
    return v


# ---------------------------------------------------------------- slices and vectors
SL = r"(core|alloc|std)::slice::<impl \[T\]>::"


@rx(SL + r"(len)$|std::vec::Vec::<T, A>::len$")
def _len(x):
    return x.E.slen(x.E.slice_of(x.vals[0]))


@rx(SL + r"is_empty$|std::vec::Vec::<T, A>::is_empty$")
def _isempty(x):
    n = x.E.slen(x.E.slice_of(x.vals[0]))
    return apply(None, lambda v: cmp_lt(v, ONE, False), n)


@rx(SL + r"contains$")
def _contains(x):
    E = x.E
    s = E.slice_of(x.vals[0])
    ty = E.types[E.types[x.tys[0]]["e"]]
    ety = E.types[ty["e"]]["k"] if ty.get("e") is not None else None
    if ety not in ("int", "bool"):
        return NotImplemented
    want = val(E, x.vals[1])
    acc = tmp(E, DF)

    def step(v):
        v = val(E, v)
        c = dnot(dxor(v, want)) if ety == "bool" else apply(None, lambda a, b: cmp_eq(a, b, False), v, want)
        E.mem[acc] = ite(c, DT, E.mem[acc])
        return c
    drive(E, as_it(E, s), step, "any")
    return E.mem.pop(acc)


@rx(r"std::vec::Vec::<T, A>::(as_slice|as_mut_slice)$|<std::vec::Vec<T, A> as std::(ops::Deref(Mut)?>::deref(_mut)?|convert::As(Ref|Mut)<\[T\]>>::as_(ref|mut)|borrow::Borrow(Mut)?<\[T\]>>::borrow(_mut)?)$|<\[T\] as std::convert::As(Ref|Mut)<\[T\]>>::as_(ref|mut)$|std::convert::As(Ref|Mut)<\[T\]> for \[T(; N)?\]>::as_(ref|mut)$|<\[T; N\]>::as(_mut)?_slice$")
def _asslice(x):
    return x.E.slice_of(x.vals[0])


def aptr(E, v):
    s = E.slice_of(v)
    return apply(None, lambda l: mk("ref", l.a[0], l.a[1] + (("i", l.a[2]),)), s)


@rx(SL + r"as_(mut_)?ptr$|std::vec::Vec::<T, A>::as_(mut_)?ptr$")
def _asptr(x):
    return aptr(x.E, x.vals[0])


def rng(E, s, v, ty):
    """(start, len) diagrams of a range index into slice diagram s; None for a plain index"""
    v = E.expand(v) if isinstance(v, Sym) else v
    n = E.slen(s)
    k = E.types[ty]
    p = k.get("path", "")
    if p == "std::ops::Range":
        return v.fs[0], sub(v.fs[1], v.fs[0])
    if p == "std::ops::RangeFrom":
        return v.fs[0], sub(n, v.fs[0])
    if p == "std::ops::RangeTo":
        return leaf(ZERO), v.fs[0]
    if p == "std::ops::RangeFull":
        return leaf(ZERO), n
    if p == "std::ops::RangeInclusive":
        return v.fs[0], add(sub(v.fs[1], v.fs[0]), leaf(ONE))
    if p == "std::ops::RangeToInclusive":
        return leaf(ZERO), add(v.fs[0], leaf(ONE))
    return None


def subslice(E, s, st, ln):
    return apply(None, lambda l, a, n: mk("sref", l.a[0], l.a[1], padd(l.a[2], a), n), s, st, ln)


def index(E, ref, i, ity, what="index"):
    if E.types[ity]["k"] == "int":
        s = E.slice_of(ref)
        E.log(what, s, i)
        return E.index_ref(s, (), i)
    s = E.slice_of(ref)
    r = rng(E, s, i, ity)
    if r is None:
        raise Unknown("index type %s" % E.types[ity]["n"])
    E.log("slice", s, r[0], r[1])
    return subslice(E, s, r[0], r[1])


@rx(r"(std::ops::Index(Mut)?<I>( for \[T\]| for \[T; N\])?>::index(_mut)?$|<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$)")
def _index(x):
    return index(x.E, x.vals[0], x.vals[1], x.tys[1])


@rx(r"SliceIndex<\[T\]>>::(index|index_mut|get_unchecked|get_unchecked_mut)$|SliceIndex::(index|index_mut)$")
def _sliceindex(x):
    return index(x.E, x.vals[1], x.vals[0], x.tys[0], "unchecked" if "unchecked" in x.name else "index")


@rx(SL + r"get_unchecked(_mut)?$")
def _getun(x):
    return index(x.E, x.vals[0], x.vals[1], x.tys[1], "unchecked")


@rx(SL + r"get(_mut)?$")
def _get(x):
    E = x.E
    s = E.slice_of(x.vals[0])
    if E.types[x.tys[1]]["k"] == "int":
        c = icmp(E, x.vals[1], E.slen(s))
        return option(E, x.dty, c, E.index_ref(s, (), x.vals[1]))
    st, ln = rng(E, s, x.vals[1], x.tys[1])
    end = add(st, ln)
    n = E.slen(s)
    c = dand(dnot(icmp(E, n, end)), dnot(icmp(E, ln, leaf(ZERO))))
    return option(E, x.dty, c, subslice(E, s, st, ln))


@rx(SL + r"(first|last)(_mut)?$")
def _first(x):
    E = x.E
    s = E.slice_of(x.vals[0])
    n = E.slen(s)
    i = leaf(ZERO) if "first" in x.name else sub(n, leaf(ONE))
    return option(E, x.dty, icmp(E, leaf(ZERO), n), E.index_ref(s, (), i))


@rx(SL + r"split_at(_mut)?$")
def _splitat(x):
    E = x.E
    s = E.slice_of(x.vals[0])
    m = x.vals[1]
    E.log("split_at", s, m)
    return agg("()", [subslice(E, s, leaf(ZERO), m), subslice(E, s, m, sub(E.slen(s), m))])


@rx(SL + r"swap$")
def _sswap(x):
    E = x.E
    s = E.slice_of(x.vals[0])
    a, b = E.index_ref(s, (), x.vals[1]), E.index_ref(s, (), x.vals[2])
    va, vb = E.load(a), E.load(b)
    n = len(E.events)
    E.store(a, (), vb)
    E.store(b, (), va)
    del E.events[n:]
    E.log("swap", a, b)
    return UNITV


@rx(SL + r"(reverse|rotate_left|rotate_right)$")
def _reverse(x):
    E = x.E
    E.log("permute", x.vals[0])
    replace_contents(E, x.vals[0], x.name)
    return UNITV


def replace_contents(E, ref, name):
    s = E.slice_of(ref)
    if s.atom is not None:
        raise Unknown("permutation of a data dependent slice")
    l = s.leaf
    t = mk(name, E.reify(s), len(E.events))
    E.havoc(s, t, None)


def lf_(d):
    if d.atom is not None:
        raise Unknown("permutation of a data dependent slice")
    return d.leaf


@rx(SL + r"(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key)$|ParallelSliceMut::par_sort\w*$|ParallelSliceMut<\w+>>::par_sort\w*$")
def _sort(x):
    E = x.E
    law = None
    if len(x.vals) > 1:
        # the comparison on three arbitrary elements (or the key of one)
        s = E.slice_of(x.vals[0])
        els = []
        for k in range(3):
            t = mk("b", "sort", k)
            INT_LO.setdefault(t, Fraction(0))
            els.append(leaf(atom(t)))
        n0, m0 = len(E.events), dict(E.mem)
        g0 = E.guard
        for t in els:
            E.guard = dand(E.guard, apply(None, lambda a, b: cmp_lt(a, b, False), t, E.slen(s)))
        refs = [E.index_ref(s, (), t) for t in els]
        if "key" in x.name:
            law = ("key", [t.leaf for t in els], {(0,): E.call_value(x.vals[1], [refs[0]], None, None)})
        else:
            law = ("cmp", [t.leaf for t in els], {(a, b): E.call_value(x.vals[1], [refs[a], refs[b]], None, None) for a, b in ((0, 1), (1, 2), (0, 2), (1, 0), (0, 0))})
        E.guard = g0
        law += (E.events[n0:],)
        if any(E.mem.get(k) is not v for k, v in m0.items()):
            raise Unknown("a comparison with side effects")
    E.log("sort", E.slice_of(x.vals[0]), x.vals[1] if len(x.vals) > 1 else None, x.name, law)
    if E.keep_sorted == "base":
        # another array, of which nothing is known
        l = lf_(E.slice_of(x.vals[0]))
        v = val(E, E.region(l.a[0]))
        if l.op != "sref" or l.a[1] or not isinstance(v, Coll):
            raise Unknown("sort of a nested array")
        E.mem[l.a[0]] = E.ite_v(E.guard, coll(v.len, arr(mk("v", "sorted", len(E.events), l.a[0]), v.arr.ety)), v)
    elif not E.keep_sorted:
        replace_contents(E, x.vals[0], "sorted")
    return UNITV


@rx(SL + r"fill$")
def _fill(x):
    E = x.E
    s = E.slice_of(x.vals[0])
    if s.atom is not None:
        raise Unknown("fill")
    l = s.leaf
    v = val(E, E.vget(E.region(l.a[0]), l.a[1]))
    if isinstance(v, Agg) and is_const(l.a[3]):
        for i in range(int(cval(l.a[3]))):
            E.store(E.index_ref(s, (), leaf(const(i))), (), x.vals[1])
        return UNITV
    c = coll(v.len, arr(v.arr.base, v.arr.ety, v.arr.ents + (("copy", DT, l.a[2], l.a[3], arr(("fill", x.vals[1]), v.arr.ety), ZERO),)))
    E.mem[l.a[0]] = E.vset(E.region(l.a[0]), l.a[1], c)
    E.log("fill", l.a[0], l.a[1], x.vals[1])
    return UNITV


@rx(SL + r"(copy_from_slice|clone_from_slice)$")
def _copyfrom(x):
    E = x.E
    d, s = E.slice_of(x.vals[0]), E.slice_of(x.vals[1])
    n = E.slen(s)
    E.log("copy_from_slice", d, s)
    if n.atom is None and is_const(n.leaf) and cval(n.leaf) <= 16:
        vs = [E.load(E.index_ref(s, (), leaf(const(i)))) for i in range(int(cval(n.leaf)))]
        for i, v in enumerate(vs):
            E.store(E.index_ref(d, (), leaf(const(i))), (), v)
        return UNITV
    copy_nonoverlapping(E, s, d, n)
    return UNITV


@rx(SL + r"(iter|iter_mut)$|IntoIterator for &'a (mut )?(\[T\]|\[T; N\]|std::vec::Vec<T, A>)>::into_iter$|<&'a (mut )?(std::vec::Vec<T, A>|\[T\]|\[T; N\]) as std::iter::IntoIterator>::into_iter$|IntoParallelRef(Mut)?Iterator<'data>>::par_iter(_mut)?$|IntoParallelRef(Mut)?Iterator::par_iter(_mut)?$")
def _iter(x):
    return slice_it(x.E, x.vals[0])


@rx(r"std::iter::IntoIterator>?::into_iter$|IntoParallelIterator>?( for .*)?>?::into_par_iter$|ParallelBridge>?::par_bridge$")
def _intoiter(x):
    E = x.E
    v = x.vals[0]
    v = E.expand(v) if isinstance(v, Sym) else v
    if "par_bridge" in x.name:
        it = as_it(E, v)
        return mkit(("bridge", it.ty[1], len(E.events)), it.fs[0], it.fs[1])
    if isinstance(v, Agg) and isinstance(v.ty, int) and "par" not in x.name:
        return v
    if isinstance(v, Coll) or is_ref(v) or isinstance(v, Agg):
        try:
            return as_it(E, v)
        except Unknown:
            return v
    return v


@rx(r"^std::iter::repeat$")
def _repeatinf(x):
    return mkit(("repeat", x.vals[0]), leaf(ZERO), leaf(INF))


@rx(r"^std::iter::(repeat_n|once)$")
def _repeat(x):
    return mkit(("repeat", x.vals[0]), leaf(ZERO), leaf(ONE) if x.name == "once" else x.vals[1])


@rx(SL + r"(chunks|chunks_mut)$")
def _chunksr(x):
    E = x.E
    l, n = E.slice_of(x.vals[0]).leaf, iv(E, x.vals[1])
    return mkit(("chunksr", l, n), leaf(ZERO), leaf(E.idiv(psub(padd(l.a[3], n), ONE), n)))


@rx(SL + r"split_(first|last)(_mut)?$")
def _splitfirst(x):
    E = x.E
    s = E.slice_of(x.vals[0])
    n = E.slen(s)
    l = s.leaf
    f = "first" in x.name
    rest = leaf(mk("sref", l.a[0], l.a[1], padd(l.a[2], ONE) if f else l.a[2], psub(l.a[3], ONE)))
    e = E.index_ref(s, (), leaf(ZERO) if f else sub(n, leaf(ONE)))
    return option(E, x.dty, icmp(E, leaf(ZERO), n), agg("()", [e, rest]))


@rx(SL + r"(chunks_exact|chunks_exact_mut|windows)$")
def _chunks(x):
    E = x.E
    s = E.slice_of(x.vals[0])
    n = iv(E, x.vals[1])
    l = s.leaf
    if x.name == "windows":
        return mkit(("windows", l, n), leaf(ZERO), leaf(pmax(psub(padd(l.a[3], ONE), n), ZERO)))
    return mkit(("chunks", l, n), leaf(ZERO), leaf(E.idiv(l.a[3], n)))


def is_iter_path(p):
    return ("Iterator" in p and "iter" in p) or "rayon::iter" in p or "std::iter::" in p


@rx(r"(std::iter::|rayon::iter::|Iterator>?( for .*)?>::|ParallelIterator)")
def _iterfn(x):
    E = x.E
    n = x.name
    par = "rayon" in x.path
    if n in ("next", "next_back"):
        v = x.vals[0]
        if not is_ref(v):
            return NotImplemented
        cur = E.load(v)
        cur = E.expand(cur) if isinstance(cur, Sym) else cur
        if isinstance(cur, Agg) and isinstance(cur.ty, tuple) and cur.ty[0] == "it":
            return it_next(E, v, x.dty, n == "next_back")
        return NotImplemented
    if n in IT_ADAPT or n in IT_CONS or n in ("len", "nth", "last", "size_hint", "try_fold", "try_for_each"):
        try:
            it = as_it(E, x.vals[0])
        except Unknown:
            return NotImplemented
        if it.ty[1][0] == "byref":
            if n in IT_CONS:
                src = it.ty[1][1]
                it = as_it(E, E.load(src))
                r = consumer(E, n, it, x.vals[1:], x.dty, par)
                rest = E.last_it if n in ("find", "position", "find_map", "any", "all") else None
                E.store(src, (), mkit(it.ty[1], rest.fs[0] if rest is not None else it.fs[1], it.fs[1]))
                return r
            if n == "nth" and not has_filter(it.ty[1]):
                src = it.ty[1][1]
                it = as_it(E, E.load(src))
                k = add(it.fs[0], x.vals[1])
                ok = icmp(E, k, it.fs[1])
                E.store(src, (), mkit(it.ty[1], ite(ok, add(k, leaf(ONE)), it.fs[1]), it.fs[1]))
                return fork(E, ok, lambda: some(x.dty, elem(E, it.ty[1], k)), lambda: enum(x.dty, leaf(ZERO), [[], None]))
            raise Unknown("adapter of a borrowed iterator")
        if n in IT_ADAPT:
            return it_adapter(E, n, it, x.vals[1:], x.dty)
        if n == "len":
            return it_len(E, it)
        if n in IT_CONS:
            return consumer(E, n, it, x.vals[1:], x.dty, par)
        if n == "last" and not has_filter(it.ty[1]):
            e = sub(it.fs[1], leaf(ONE))
            return fork(E, icmp(E, it.fs[0], it.fs[1]), lambda: some(x.dty, elem(E, it.ty[1], e)),
                        lambda: enum(x.dty, leaf(ZERO), [[], None]))
        raise Unknown("iterator method %s" % n)
    return NotImplemented


@rx(r"SpecFromIter(<.*>)?>?::from_iter$|FromIterator<T>>::from_iter$|SpecExtend")
def _fromiter(x):
    E = x.E
    if x.name in ("extend", "spec_extend", "extend_trusted"):
        return _extendslice(x)
    it = as_it(E, x.vals[0])
    return consumer(E, "collect", it, [], x.dty)


@rx(r"std::vec::Vec::<T>::(new|with_capacity)$|<std::vec::Vec<T> as std::default::Default>::default$")
def _vnew(x):
    k = x.E.types[x.dty]
    return coll(leaf(ZERO), arr(mk("empty", x.dty), k["args"][0]))


@rx(r"std::vec::from_elem$")
def _fromelem(x):
    k = x.E.types[x.dty]
    return coll(x.vals[1], arr(("fill", x.vals[0]), k["args"][0]))


def vecmod(E, ref, f):
    def one(l, g):
        c = val(E, E.vget(E.region(l.a[0]), l.a[1]))
        if isinstance(c, Agg):
            c = E.to_coll(c)
        if not isinstance(c, Coll):
            raise Unknown("not a vector")
        r, new = f(c)
        if g is not DT:
            new = E.ite_v(g, new, c)
        E.mem[l.a[0]] = E.vset(E.region(l.a[0]), l.a[1], new)
        return r
    if ref.atom is None:
        l = ref.leaf
        if l.op != "ref":
            raise Unknown("vector reference")
        return one(l, DT)
    raise Unknown("data dependent vector")


def wr(c, i, v):
    return arr(c.arr.base, c.arr.ety, c.arr.ents + (("w", DT, i, (), v),))


@rx(r"std::vec::Vec::<T, A>::push$")
def _push(x):
    E = x.E
    E.log("push", x.vals[0], x.vals[1])

    def f(c):
        return UNITV, coll(add(c.len, leaf(ONE)), wr(c, c.len, x.vals[1]))
    return vecmod(E, x.vals[0], f)


@rx(r"std::vec::Vec::<T, A>::pop$")
def _pop(x):
    E = x.E

    def f(c):
        g = icmp(E, leaf(ZERO), c.len)
        g = restrict(g, E.guard) if g.atom is not None else g
        n = sub(c.len, leaf(ONE))
        v = None if g is DF else E.lift1(n, lambda i: E.arr_read(c.arr, i))
        return enum(x.dty, ite(g, leaf(ONE), leaf(ZERO)), [[], None if v is None else [v]]), coll(ite(g, n, c.len), c.arr)
    r = vecmod(E, x.vals[0], f)
    E.log("pop", x.vals[0], r)
    return r


@rx(r"std::vec::Vec::<T, A>::resize$")
def _resize(x):
    E = x.E
    n = x.vals[1]

    def f(c):
        a = c.arr
        if c.len.atom is None and n.atom is None:
            ln = psub(n.leaf, c.len.leaf)
            lo, hi = bounds(ln)
            fa = arr(("fill", x.vals[2]), a.ety)
            if not (hi is not None and hi <= 0):
                if c.len.leaf is ZERO:
                    a = fa
                else:
                    a = arr(a.base, a.ety, a.ents + (("copy", DT, c.len.leaf, ln, fa, ZERO),))
        else:
            fa = arr(("fill", x.vals[2]), a.ety)
            grow = apply(None, lambda p, q: cmp_lt(p, q, False), c.len, n)
            for g1, l in cases(c.len):
                for g2, m in cases(n):
                    g = dand(grow, dand(g1, g2))
                    if g is not DF:
                        a = arr(a.base, a.ety, a.ents + (("copy", g, l, psub(m, l), fa, ZERO),))
        return UNITV, coll(n, a)
    E.log("resize", x.vals[0], n)
    return vecmod(E, x.vals[0], f)


@rx(r"std::vec::Vec::<T, A>::(truncate)$")
def _truncate(x):
    return vecmod(x.E, x.vals[0], lambda c: (UNITV, coll(apply("min", pmin, c.len, x.vals[1]), c.arr)))


@rx(r"std::vec::Vec::<T, A>::(clear)$")
def _clear(x):
    return vecmod(x.E, x.vals[0], lambda c: (UNITV, coll(leaf(ZERO), arr(mk("empty", x.tys[0]), c.arr.ety))))


@rx(r"std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit)$")
def _reserve(x):
    return UNITV


@rx(r"std::vec::Vec::<T, A>::capacity$")
def _cap(x):
    return pure(x.E, "capacity", x.vals, x.dty)


@rx(r"std::vec::Vec::<T, A>::swap_remove$")
def _swaprem(x):
    E = x.E

    def f(c):
        n = sub(c.len, leaf(ONE))
        i = x.vals[1]
        v = E.lift1(i, lambda p: E.arr_read(c.arr, p))
        w = E.lift1(n, lambda p: E.arr_read(c.arr, p))
        return v, coll(n, wr(c, i, w))
    return vecmod(E, x.vals[0], f)


def veccopy(c, dst, n, src, start):
    return arr(c.arr.base, c.arr.ety, c.arr.ents + (("copy", DT, dst, n, src.arr, start),))


@rx(r"std::vec::Vec::<T, A>::insert$")
def _insert(x):
    E = x.E

    def f(c):
        i, n = iv(E, x.vals[1]), iv(E, c.len)
        d = coll(add(c.len, leaf(ONE)), veccopy(c, padd(i, ONE), psub(n, i), c, i))
        return UNITV, coll(d.len, wr(d, leaf(i), x.vals[2]))
    return vecmod(E, x.vals[0], f)


@rx(r"std::vec::Vec::<T, A>::remove$")
def _remove(x):
    E = x.E

    def f(c):
        i, n = iv(E, x.vals[1]), iv(E, c.len)
        E.log("remove", x.vals[0], x.vals[1])
        v = E.lift1(leaf(i), lambda p: E.arr_read(c.arr, p))
        return v, coll(sub(c.len, leaf(ONE)), veccopy(c, i, psub(psub(n, i), ONE), c, padd(i, ONE)))
    return vecmod(E, x.vals[0], f)


@rx(r"std::vec::Vec::<T, A>::append$")
def _append(x):
    E = x.E
    o = []

    def take(c):
        o.append(c)
        return UNITV, coll(leaf(ZERO), c.arr)
    vecmod(E, x.vals[1], take)
    return vecmod(E, x.vals[0], lambda c: (UNITV, coll(add(c.len, o[0].len), veccopy(c, iv(E, c.len), iv(E, o[0].len), o[0], ZERO))))


@rx(r"std::vec::Vec::<T, A>::drain$")
def _drain(x):
    E = x.E
    r = x.vals[1]
    if not (isinstance(r, Agg) and isinstance(r.ty, int) and E.types[r.ty].get("path") == "std::ops::RangeFull"):
        return NotImplemented
    o = []

    def take(c):
        o.append(c)
        return UNITV, coll(leaf(ZERO), c.arr)
    vecmod(E, x.vals[0], take)
    return as_it(E, o[0])


@rx(r"glam::Mat4::transform_(point|vector)3a?$")
def _transform3(x):
    E = x.E
    v = list(val(E, x.vals[1]).fs[:3])
    return pure(E, "mat_mul", [E.load(x.vals[0]), agg(x.dty, v + [leaf(ONE if "point" in x.name else ZERO)])], x.dty)


@rx(r"std::vec::Vec::<T, A>::set_len$")
def _setlen(x):
    x.E.log("set_len", x.vals[0], x.vals[1])
    return vecmod(x.E, x.vals[0], lambda c: (UNITV, coll(x.vals[1], c.arr)))


@rx(r"std::vec::Vec::<T, A>::extend_from_slice$|<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend$")
def _extendslice(x):
    E = x.E
    it = as_it(E, x.vals[1])
    if not x.name.endswith("slice"):
        it2 = it
    else:
        it2 = mkit(("copied", it.ty[1]), it.fs[0], it.fs[1])

    def step(v):
        if is_ref(v) and x.name == "extend" and "&'a" in x.rpath:
            v = E.load(v)
        vecmod(E, x.vals[0], lambda c: (UNITV, coll(add(c.len, leaf(ONE)), wr(c, c.len, v))))
    drive(E, it2, step, "extend")
    return UNITV


@rx(SL + r"(to_vec|into_vec|to_owned)$|ConvertVec>::to_vec$|ConvertVec::to_vec$|ToOwned for \[T\]>::to_owned$|<std::vec::Vec<T, A> as std::clone::Clone>::clone$|Vec<T, A> as std::convert::From<.*>>::from$")
def _tovec(x):
    E = x.E
    v = x.vals[0]
    c = val(E, E.load(E.slice_of(v))) if is_ref(v) else val(E, v)
    if isinstance(c, Agg):
        c = E.to_coll(c, E.types[x.dty]["args"][0])
    if not isinstance(c, Coll):
        raise Unknown("to_vec")
    return c


@rx(r"std::vec::Vec::<T, A>::into_boxed_slice$")
def _same(x):
    return x.vals[0]


@rx(r"std::boxed::Box::<T>::new_uninit$")
def _boxun(x):
    return leaf(mk("ref", tmp(x.E, None), ()))


@rx(r"std::boxed::Box::<T>::new$|std::sync::Arc::<T>::new$|std::rc::Rc::<T>::new$")
def _boxnew(x):
    return tmpref(x.E, x.vals[0], x.tys[0])


@rx(r"box_assume_init_into_vec_unsafe$")
def _boxvec(x):
    E = x.E
    v = E.mem.get(x.vals[0].leaf.a[0])
    k = E.types[x.dty]

    def find(v):
        if isinstance(v, Agg):
            if v.ty == "[]":
                return v
            for f in v.fs:
                if f is not None:
                    r = find(f)
                    if r is not None:
                        return r
        if isinstance(v, Coll):
            return v
        if isinstance(v, Sym):
            return E.expand(v)
        return None
    a = find(v)
    if a is None:
        raise Unknown("vec! literal")
    return E.to_coll(a, k["args"][0])


@rx(r"<std::(sync::Arc|rc::Rc)<T, A> as std::clone::Clone>::clone$")
def _arcclone(x):
    return x.E.load(x.vals[0])


@rx(r"<std::(sync::Arc|rc::Rc|boxed::Box)<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$|<std::(sync::Arc|rc::Rc|boxed::Box)<T, A> as std::convert::AsRef<T>>::as_ref$")
def _arcderef(x):
    E = x.E
    v = E.load(x.vals[0])
    if is_ref(v):
        return v
    e = E.types[x.dty]["e"]
    return E.lift1(v, lambda l: E.mkref(e, l))


# ---------------------------------------------------------------- atomics
@rx(r"std::sync::atomic::Atomic::<.*>::new$|AtomicUsize::new$")
def _atnew(x):
    x.E.natnew = getattr(x.E, "natnew", 0) + 1
    t = leaf(mk("atomicnew", x.E.natnew, *[mk("it", l) for l in x.E.loopstack]))
    x.E.log("atomicnew", t, x.vals[0])
    return t


def fresh(E, kind):
    its = tuple(mk("it", l) for l in E.loopstack)
    E.natom = getattr(E, "natom", 0) + 1
    t = mk("v", kind, len([1 for e in E.events if e[1] == "atomic"]), E.stack[-1][0] if E.stack else "", *its)
    INT_LO.setdefault(t, Fraction(0))
    return leaf(atom(t))


@rx(r"std::sync::atomic::Atomic::<.*>::(load|store|fetch_add|fetch_sub|swap|compare_exchange|compare_exchange_weak|fetch_max|fetch_min|fetch_or|fetch_and|fetch_update|get_mut|into_inner)$")
def _atop(x):
    E = x.E
    n = x.name
    if n == "store":
        E.log("atomic", n, x.vals[0], x.vals[1], x.vals[-1], None)
        return UNITV
    if n == "into_inner":
        if not (isinstance(x.vals[0], DD) and x.vals[0].atom is None and x.vals[0].leaf.op == "atomicnew"):
            raise Unknown("atomic into_inner")
        regs = [g for g, v in E.mem.items() if v is x.vals[0]]
        r = fresh(E, "atomic")
        for g in regs:
            E.log("atomic", "load", leaf(mk("ref", g, ())), None, None, r)
        return r
    if n == "fetch_update":
        v = fresh(E, "atomic")
        new = E.call_value(x.vals[3], [v], None, None)
        if isinstance(new, Enum) and new.disc.atom is None and new.disc.leaf is ONE:
            d = apply(None, psub, new.vs[1][0], v)
            if d.atom is None and is_const(d.leaf):
                E.log("atomic", "fetch_add", x.vals[0], d, x.vals[1], v)
                return enum(x.dty, leaf(ZERO), [[v], None])
        raise Unknown("atomic update")
    if n == "get_mut":
        raise Unknown("atomic %s" % n)
    r = fresh(E, "atomic")
    E.log("atomic", n, x.vals[0], x.vals[1] if len(x.vals) > 2 else None, x.vals[-1], r)
    return r


@rx(r"intrinsics::atomic_x(add|sub)$")
def _atx(x):
    E = x.E
    r = fresh(E, "atomic")
    E.log("atomic", "fetch_add", x.vals[0], x.vals[1], None, r)
    return r


# ---------------------------------------------------------------- threads and locks
@rx(r"crossbeam(_utils)?::(thread::)?scope$|rayon::(scope|join)$|std::thread::scope$")
def _scope(x):
    E = x.E
    E.log("scope", x.vals[0])
    r = E.call_value(x.vals[0], [leaf(mk("scope", len(E.events)))], None, None)
    E.log("scope_end")
    k = E.types[x.dty]
    if k["k"] == "adt" and k["path"] == "std::result::Result":
        return enum(x.dty, leaf(ZERO), [[r], None])
    return r


@rx(r"thread::Scope(::)?<'.*>::spawn$")
def _spawn(x):
    E = x.E
    E.log("spawn", x.vals[1])
    r = E.call_value(x.vals[1], [x.vals[0]], None, None)
    h = mk("handle", len(E.events))
    E.log("spawned", h)
    return leaf(h)


@rx(r"ScopedJoinHandle(::)?<'.*>::join$")
def _join(x):
    E = x.E
    E.log("join", x.vals[0])
    return enum(x.dty, leaf(ZERO), [[UNITV], None])


@rx(r"lock_api::RwLock::<R, T>::(read|write)$|RwLock<.*>::(read|write)$|lock_api::Mutex::<R, T>::lock$")
def _lock(x):
    E = x.E
    E.log("lock", x.name, x.vals[0])
    return agg(("guard", x.name), [x.vals[0]])


@rx(r"RwLock(Read|Write)Guard<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$|MutexGuard<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$")
def _guardderef(x):
    E = x.E
    g = E.load(x.vals[0])
    e = E.types[x.dty]["e"]
    lk = g.fs[0] if isinstance(g, Agg) else g
    return E.lift1(lk, lambda l: E.mkref(e, mk("locked", l)))


@rx(r"lock_api::RwLock::<R, T>::(get_mut|data_ptr)$")
def _lockget(x):
    E = x.E
    e = E.types[x.dty]["e"]
    return E.lift1(x.vals[0], lambda l: E.mkref(e, mk("locked", l)))


@rx(r"lock_api::RwLock::<R, T>::new$")
def _locknew(x):
    E = x.E
    E.log("lock_new", x.vals[0])
    return leaf(mk("lockval", E.reify(x.vals[0])))


@rx(r"lazy_static::lazy::Lazy::<T>::get$")
def _lazy(x):
    E = x.E
    e = E.types[x.dty]["e"]
    return E.mkref(e, mk("lazy", e))


# ---------------------------------------------------------------- generic traits
@reg("std::clone::Clone::clone")
def _clone(x):
    if x.c.get("inst") is not None:
        return NotImplemented
    return x.E.load(x.vals[0])


@rx(r"^std::array::<impl std::clone::Clone for \[T; N\]>::clone$")
def _arrclone(x):
    """element by element; what the library wraps the elements in while it fills the array is taken off again"""
    if x.c.get("inst") is None:
        return x.E.load(x.vals[0])
    r = x.E.call_body(x.c["inst"], x.vals)
    if not isinstance(r, Agg):
        return r
    ety = x.E.types[x.dty]["e"]

    def strip(v):
        while isinstance(v, Agg) and v.ty != ety and len(v.fs) == 1:
            v = v.fs[0]
        return v
    return agg(r.ty, [strip(v) for v in r.fs])


@reg("std::default::Default::default")
def _default(x):
    if x.c.get("inst") is not None:
        return NotImplemented
    return default_of(x.E, x.dty)


@rx(r"^std::convert::(Into::into|From::from)$")
def _into(x):
    if x.tys and x.tys[0] == x.dty:
        return x.vals[0]
    return NotImplemented


@rx(r"std::option::Option::<T>::(is_some|is_none|unwrap|expect|unwrap_or|unwrap_unchecked|as_ref|as_mut|as_deref|as_deref_mut|take|ok_or|copied|cloned|unwrap_or_default)$")
def _opt(x):
    E = x.E
    n = x.name
    if n in ("is_some", "is_none", "as_ref", "as_mut", "as_deref", "as_deref_mut", "take"):
        v = E.load(x.vals[0])
    else:
        v = x.vals[0]
    v = E.expand(v) if isinstance(v, Sym) else v
    if not isinstance(v, Enum):
        return NotImplemented
    c = is_some(v)
    pay = (v.vs[1] or [None])[0] if v.vs[1] is not None else None
    if n == "is_some":
        return c
    if n == "is_none":
        return dnot(c)
    if n in ("unwrap", "expect", "unwrap_unchecked"):
        cc = restrict(c, E.guard) if c.atom is not None else c
        if cc is not DT:
            E.log("unwrap" if n != "unwrap_unchecked" else "unchecked_unwrap", c)
        if pay is None:
            return E.make(x.dty, mk("never", "unwrap"))
        return pay
    if n == "unwrap_or":
        return x.vals[1] if pay is None else E.ite_v(c, pay, x.vals[1])
    if n in ("as_ref", "as_mut"):
        ref = apply(None, lambda l: E.addpath(l, (("d", 1), ("f", 0, E.types[v.ty]["args"][0] if isinstance(v.ty, int) else None))), x.vals[0])
        return enum(x.dty, v.disc, [[], [ref]])
    if n == "take":
        E.store(x.vals[0], (), enum(v.ty, leaf(ZERO), [[], None]))
        return v
    if n in ("copied", "cloned"):
        return enum(x.dty, v.disc, [[], None if pay is None else [E.load(pay)]])
    return NotImplemented


@rx(r"std::result::Result::<T, E>::(is_ok|is_err|unwrap|expect|ok)$")
def _res(x):
    E = x.E
    n = x.name
    v = E.load(x.vals[0]) if n.startswith("is_") else x.vals[0]
    v = E.expand(v) if isinstance(v, Sym) else v
    if not isinstance(v, Enum):
        return NotImplemented
    ok = apply(None, lambda l: cmp_eq(l, ZERO, False), v.disc)
    if n == "is_ok":
        return ok
    if n == "is_err":
        return dnot(ok)
    pay = v.vs[0][0] if v.vs[0] else None
    if n in ("unwrap", "expect"):
        if restrict(ok, E.guard) is not DT:
            E.log("unwrap", ok)
        return pay if pay is not None else E.make(x.dty, mk("never", "unwrap"))
    if n == "ok":
        return enum(x.dty, ite(ok, leaf(ONE), leaf(ZERO)), [[], None if pay is None else [pay]])
    return NotImplemented


# ---------------------------------------------------------------- printing, panicking
@rx(r"(std|core)::fmt::|std::io::_e?print$|core::panicking|std::rt::(begin_panic|panic)|unwrap_failed|slice_index_fail|std::process::abort|intrinsics::abort")
def _fmt(x):
    E = x.E
    if "print" in x.path:
        E.log("print")
    return E.make(x.dty, mk("text", x.path))
