"""Values of the value-flow analysis: scalars are decision diagrams, the rest are interned trees."""
from terms import *

_itab = {}


def _intern(cls, key, *a):
    k = (cls, key)
    o = _itab.get(k)
    if o is None:
        o = cls.__new__(cls)
        o._init(*a)
        _itab[k] = o
    return o


class Sym:
    """unexpanded opaque value of an aggregate type"""
    __slots__ = ("ty", "t")

    def __new__(cls, ty=None, t=None):
        return object.__new__(cls)

    def _init(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return "<%s>" % show(self.t)


class Agg:
    __slots__ = ("ty", "fs")

    def _init(self, ty, fs):
        self.ty, self.fs = ty, fs

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.fs))


class Enum:
    __slots__ = ("ty", "disc", "vs")

    def _init(self, ty, disc, vs):
        self.ty, self.disc, self.vs = ty, disc, vs

    def __repr__(self):
        return "Enum(%r; %r)" % (self.disc, self.vs)


class Arr:
    """array contents: base (term or ('fill', value)) plus guarded stores, oldest first"""
    __slots__ = ("base", "ety", "ents")

    def _init(self, base, ety, ents):
        self.base, self.ety, self.ents = base, ety, ents

    def __repr__(self):
        return "Arr(%r%s)" % (self.base, "".join("; %r" % (e,) for e in self.ents))


class Coll:
    __slots__ = ("len", "arr")

    def _init(self, ln, arr):
        self.len, self.arr = ln, arr

    def __repr__(self):
        return "Coll(len=%r, %r)" % (self.len, self.arr)


def sym(ty, t):
    return _intern(Sym, (ty, t), ty, t)


def agg(ty, fs):
    fs = tuple(fs)
    return _intern(Agg, (ty,) + tuple(map(id, fs)), ty, fs)


def enum(ty, disc, vs):
    vs = tuple(None if v is None else tuple(v) for v in vs)
    return _intern(Enum, (ty, id(disc)) + tuple(None if v is None else tuple(map(id, v)) for v in vs), ty, disc, vs)


def _ekey(e):
    return tuple(id(x) if isinstance(x, (DD, T, Sym, Agg, Enum, Arr, Coll)) else
                 (_ekey(x) if isinstance(x, tuple) else x) for x in e)


def arr(base, ety, ents=()):
    ents = tuple(ents)
    b = _ekey(base) if isinstance(base, tuple) else id(base)
    return _intern(Arr, (b, ety) + tuple(_ekey(e) for e in ents), base, ety, ents)


def coll(ln, a):
    return _intern(Coll, (id(ln), id(a)), ln, a)


UNITV = agg("()", ())


# ---------------------------------------------------------------- loop symbols inside terms
_EMPTY = frozenset()
_LOOPOPS = ("mu", "it", "b", "mark", "brk")
_ddsyms = {}
_vsyms = {}


def tsyms(t):
    r = t.k
    if r is None:
        if t.op in _LOOPOPS:
            r = frozenset((t,))
        else:
            r = _EMPTY
        for x in t.a:
            r = _argsyms(x, r)
        t.k = r
    return r


def _argsyms(x, r):
    if isinstance(x, T):
        s = tsyms(x)
    elif isinstance(x, DD):
        s = ddsyms(x)
    elif isinstance(x, tuple):
        for y in x:
            r = _argsyms(y, r)
        return r
    elif isinstance(x, (Sym, Agg, Enum, Arr, Coll)):
        s = vsyms(x)
    else:
        return r
    return r | s if s else r


def ddsyms(d):
    r = _ddsyms.get(d.id)
    if r is None:
        if d.atom is None:
            r = tsyms(d.leaf)
        else:
            r = tsyms(d.atom) | ddsyms(d.hi) | ddsyms(d.lo)
        _ddsyms[d.id] = r
    return r


def vsyms(v):
    if v is None:
        return _EMPTY
    if isinstance(v, DD):
        return ddsyms(v)
    if isinstance(v, T):
        return tsyms(v)
    r = _vsyms.get(v)
    if r is None:
        r = _EMPTY
        if isinstance(v, Sym):
            r = tsyms(v.t)
        elif isinstance(v, Agg):
            for f in v.fs:
                r = r | vsyms(f)
            r = _argsyms(v.ty, r)
        elif isinstance(v, Enum):
            r = ddsyms(v.disc)
            for x in v.vs:
                for f in x or ():
                    r = r | vsyms(f)
        elif isinstance(v, Coll):
            r = ddsyms(v.len) | vsyms(v.arr)
        elif isinstance(v, Arr):
            r = _argsyms(v.base, r)
            for e in v.ents:
                r = _argsyms(e, r)
        _vsyms[v] = r
    return r


# ---------------------------------------------------------------- substitution with diagrams
class Subst:
    """replace terms (usually loop symbols) by diagrams everywhere in a value"""

    def __init__(self, m, make=None):
        self.m = m          # T -> DD (or Value for aggregate symbols)
        self.keys = frozenset(m)
        self.make = make    # (ty, T) -> value, to re-expand opaque symbols
        self.mt, self.md, self.mv = {}, {}, {}

    def t(self, t):
        if not (tsyms(t) & self.keys):
            return leaf(t)
        r = self.mt.get(t)
        if r is None:
            r = self._t(t)
            self.mt[t] = r
        return r

    def _t(self, t):
        x = self.m.get(t)
        if x is not None:
            return x
        if t.op == "poly":
            acc = leaf(ZERO)
            for m, c in t.a[0]:
                p = leaf(const(c))
                for at, e in m:
                    y = self.t(at)
                    f = (lambda a, b: pmul(a, b)) if e > 0 else (lambda a, b: pmul(a, pinv(b)))
                    for _ in range(abs(e)):
                        p = apply(None, f, p, y)
                acc = apply("add", padd, acc, p)
            return acc
        if t.op in ("ilt", "flt", "fgt"):
            a = self.t(t.a[0])
            if t.op == "ilt":
                return apply(None, lambda x: cmp_lt(x, const(t.a[1]), False), a)
            if t.op == "flt":
                return apply(None, lambda x: cmp_lt(x, ZERO, True), a)
            return apply(None, lambda x: cmp_lt(ZERO, x, True), a)
        args = [self.arg(x) for x in t.a]
        ds = [x for x in args if isinstance(x, tuple) and x and x[0] == "dd"]

        def build(*ls):
            it = iter(ls)
            na = tuple(self.plain(x, it) for x in args)
            if t.op in ("min", "max"):
                return _latw(t.op, na)
            if t.op == "eq":
                return cmp_eq(na[0], na[1], False)
            n = mk(t.op, *na)
            if t in INT_LO:
                INT_LO.setdefault(n, INT_LO[t])
            if t in INT_HI:
                INT_HI.setdefault(n, INT_HI[t])
            return n
        dl = []
        self.collect(args, dl)
        return apply(None, build, *dl) if dl else leaf(build())

    def collect(self, xs, out):
        for x in xs:
            if isinstance(x, tuple):
                if x and x[0] == "dd" and isinstance(x[1], DD) and len(x) == 2:
                    out.append(x[1])
                else:
                    self.collect(x, out)

    def plain(self, x, it):
        if isinstance(x, tuple):
            if x and x[0] == "dd" and len(x) == 2 and isinstance(x[1], DD):
                return next(it)
            return tuple(self.plain(y, it) for y in x)
        return x

    def arg(self, x):
        if isinstance(x, T):
            if tsyms(x) & self.keys:
                return ("dd", self.t(x))
            return x
        if isinstance(x, DD):
            return self.d(x)
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        if isinstance(x, (Sym, Agg, Enum, Arr, Coll)):
            return self.v(x)
        return x

    def d(self, d):
        if not (ddsyms(d) & self.keys):
            return d
        r = self.md.get(d.id)
        if r is None:
            if d.atom is None:
                r = self.t(d.leaf)
            else:
                c = self.t(d.atom)
                if c.atom is None and c.leaf not in (TRUE, FALSE, BOT):
                    c = batom(c.leaf)
                r = ite(c, self.d(d.hi), self.d(d.lo))
            self.md[d.id] = r
        return r

    def v(self, v):
        if v is None:
            return None
        if isinstance(v, DD):
            return self.d(v)
        if not (vsyms(v) & self.keys):
            return v
        r = self.mv.get(v)
        if r is None:
            r = self._v(v)
            self.mv[v] = r
        return r

    def _v(self, v):
        if isinstance(v, Sym):
            x = self.m.get(v.t)
            if x is not None:
                return x
            d = self.t(v.t)
            if d.atom is None:
                return sym(v.ty, d.leaf) if self.make is None else self.make(v.ty, d.leaf)
            return self.merge_syms(v.ty, d)
        if isinstance(v, Agg):
            ty = v.ty
            if isinstance(ty, tuple):
                ty = self.tup(ty)
            return agg(ty, [self.v(f) for f in v.fs])
        if isinstance(v, Enum):
            return enum(v.ty, self.d(v.disc), [None if x is None else [self.v(f) for f in x] for x in v.vs])
        if isinstance(v, Coll):
            return coll(self.d(v.len), self.v(v.arr))
        if isinstance(v, Arr):
            x = self.m.get(v.base) if isinstance(v.base, T) else None
            ents = tuple(self.ent(e) for e in v.ents)
            if isinstance(x, Arr):
                return arr(x.base, x.ety, x.ents + ents)
            if isinstance(v.base, T):
                d = self.t(v.base)
                if d.atom is not None:
                    raise Unknown("array identity depends on data")
                return arr(d.leaf, v.ety, ents)
            return arr(tuple(self.v(b) if not isinstance(b, str) else b for b in v.base), v.ety, ents)
        return v

    def tup(self, x):
        if isinstance(x, tuple):
            return tuple(self.tup(y) for y in x)
        if isinstance(x, T):
            d = self.t(x)
            if d.atom is not None:
                raise Unknown("iterator shape depends on data")
            return d.leaf
        if isinstance(x, (DD, Sym, Agg, Enum, Arr, Coll)):
            return self.v(x)
        return x

    def ent(self, e):
        if e[0] == "w":
            _, g, i, p, val = e
            return ("w", self.d(g), self.idx(i), tuple(self.pe(x) for x in p), self.v(val))
        if e[0] == "loop":
            _, k, n, es = e
            return ("loop", k, self.idx(n), tuple(self.ent(x) for x in es))
        return tuple(self.tup(x) if not isinstance(x, str) else x for x in e)

    def pe(self, x):
        if isinstance(x, tuple) and x[0] == "i":
            return ("i", self.idx(x[1]))
        return x

    def idx(self, i):
        d = self.d(i) if isinstance(i, DD) else self.t(i)
        if isinstance(i, DD):
            return d
        if d.atom is not None:
            return d
        return d.leaf

    def merge_syms(self, ty, d):
        if d.atom is None:
            return sym(ty, d.leaf) if self.make is None else self.make(ty, d.leaf)
        h, l = self.merge_syms(ty, d.hi), self.merge_syms(ty, d.lo)
        if self.ite_v is None:
            raise Unknown("merge of opaque values")
        return self.ite_v(batom(d.atom), h, l)

    ite_v = None


def _latw(op, xs):
    from terms import _lat
    return _lat(op, [aspoly(x) for x in xs])
