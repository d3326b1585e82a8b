"""Gated value-flow analysis over the compiler's MIR.

Every function is analysed once, block by block in topological order; states are merged at joins,
so a value is a decision diagram over the branch conditions that select it (gated SSA with value
numbering; no path enumeration).  Loops are summarised by their header symbols, induction
variables, folds and last-update selections.  Panicking edges are treated as assumptions.
"""
import struct, sys
from fractions import Fraction
from values import *
import terms

SMALL = 16
PTR_OPS = ("ref", "sref")


def f32(bits):
    return struct.unpack("<f", struct.pack("<I", bits & 0xffffffff))[0]


def f64(bits):
    return struct.unpack("<d", struct.pack("<Q", bits & 0xffffffffffffffff))[0]


class Body:
    pass


class LoopRec:
    def __init__(self):
        self.id = None
        self.fn = None
        self.header = None      # header state description: list of (loc, mu term, init, next)
        self.trip = None
        self.exits = []
        self.mus = {}
        self.back = None


class Engine:
    def __init__(self, prog, models=None):
        self.p = prog
        self.types = prog["types"]
        self.bodies = prog["bodies"]
        self.mem = {}
        self.guard = DT
        self.events = []
        self.narrow = None
        self.statics = {}        # evaluated constants
        self.frames = 0
        self.stack = []
        self.rty = {}            # region -> type index
        self.cfgs = {}
        self.loops = {}
        self.loopstack = []
        self.nloop = 0
        self.closures = {}
        self.passed = {}         # frame -> what it was called with
        self.skips = None        # (body, cfg, header) -> is that loop to be left unread
        self.flatten = set()     # bodies whose loops are read as one loop around the whole body
        self.keep_sorted = False # True: sorting is logged but treated as done beforehand
        self.raw_loops = False   # True: state after a loop stays in terms of the last header state
        self.opaque = {}         # names of functions that were not modelled
        self.fuel = 60000
        self.hooks = dict(models or {})
        for i, b in enumerate(self.bodies):
            if b.get("closure_of") or "{closure#" in b["path"]:
                self.closures.setdefault(b["path"], i)
        import models as M
        self.FLOAT = M.FLOAT
        self.M = M
        self.logical = dict(M.LOGICAL)     # types read as unbounded arrays (see the stack lemma)
        terms.reset_budget()
        Subst.ite_v = lambda s, c, a, b: self.ite_v(c, a, b)

    # ------------------------------------------------------------ types
    def tk(self, i):
        return self.types[i]

    def is_float(self, ty):
        return self.types[ty]["k"] == "float"

    def signed(self, ty):
        t = self.types[ty]
        return t["k"] == "int" and t["n"].startswith("i")

    def bits(self, ty):
        n = self.types[ty]["n"]
        d = "".join(c for c in n if c.isdigit())
        return int(d) if d else 64

    def pointee(self, ty):
        t = self.types[ty]
        return t.get("e")

    # ------------------------------------------------------------ making and expanding opaque values
    def make(self, ty, t):
        k = self.types[ty]
        kk = k["k"]
        if kk == "bool":
            return batom(t)
        if kk in ("int", "char"):
            if kk == "char" or not k["n"].startswith("i"):
                INT_LO.setdefault(t, Fraction(0))
                if k["n"] == "u8":
                    INT_HI.setdefault(t, Fraction(255))
            return leaf(atom(t))
        if kk == "float":
            return leaf(atom(t))
        if kk in ("ref", "ptr"):
            return self.mkref(k["e"], t)
        if kk == "tuple" and not k["f"]:
            return UNITV
        if kk in ("param", "other", "str", "never", "fnptr"):
            return leaf(t)
        if kk == "fndef":
            return leaf(t)
        if kk == "adt" and self.expandable(ty):
            return sym(ty, t)
        if kk in ("tuple", "array", "closure", "slice"):
            return sym(ty, t)
        return leaf(t)

    def mkref(self, e, t):
        ek = self.types[e]["k"]
        reg = mk("deref", t)
        self.rty.setdefault(reg, e)
        if ek in ("slice", "str"):
            ln = mk("len", t)
            INT_LO.setdefault(ln, Fraction(0))
            return leaf(mk("sref", reg, (), ZERO, atom(ln)))
        return leaf(mk("ref", reg, ()))

    def lanes(self, ty):
        """number of lanes of a SIMD-like glam type"""
        k = self.types[ty]
        if k["k"] == "adt":
            return self.M.LANES.get(k["path"])
        return None

    def expandable(self, ty):
        k = self.types[ty]
        if k["k"] == "adt":
            p = k["path"]
            if self.lanes(ty) or self.M.is_vec(p):
                return True
            if p in self.M.OPAQUE_ADTS or any(p.startswith(x) for x in self.M.OPAQUE_PREFIX):
                return False
            if k["kind"] == "struct":
                return k["vs"] and len(k["vs"][0]["f"]) > 0 or bool(k["vs"])
            if k["kind"] == "enum":
                return bool(k["vs"])
            return False
        return k["k"] in ("tuple", "array", "closure", "slice")

    def expand(self, v):
        """one level expansion of a Sym"""
        if not isinstance(v, Sym):
            return v
        k = self.types[v.ty]
        t = v.t
        kk = k["k"]
        if kk == "adt":
            n = self.lanes(v.ty)
            if n:
                fl = self.M.LANEKIND[k["path"]]
                if fl == "f":
                    return agg(v.ty, [leaf(atom(mk("fld", t, i))) for i in range(n)])
                return agg(v.ty, [batom(mk("fld", t, i)) for i in range(n)])
            if self.M.is_vec(k["path"]):
                ln = mk("len", t)
                INT_LO.setdefault(ln, Fraction(0))
                return coll(leaf(atom(ln)), arr(t, k["args"][0]))
            if k["path"] in self.logical:
                return coll(leaf(atom(mk("len", t))), arr(t, self.logical_elem(v.ty)))
            if k["kind"] == "struct":
                fs = k["vs"][0]["f"]
                # a raw pointer next to a slice of the same element describes the same memory
                sl = [i for i, f in enumerate(fs) if self.types[f[1]]["k"] == "ref"
                      and self.types[self.types[f[1]]["e"]]["k"] == "slice"]
                out = []
                for i, f in enumerate(fs):
                    ft = self.types[f[1]]
                    if ft["k"] == "ptr" and len(sl) == 1 and self.types[self.types[fs[sl[0]][1]]["e"]]["e"] == ft["e"]:
                        reg = mk("deref", mk("fld", t, sl[0]))
                        self.rty.setdefault(reg, self.types[fs[sl[0]][1]]["e"])
                        out.append(leaf(mk("ref", reg, (("i", ZERO),))))
                    else:
                        out.append(self.make(f[1], mk("fld", t, i)))
                return agg(v.ty, out)
            d = mk("disc", t)
            INT_LO.setdefault(d, Fraction(0))
            INT_HI.setdefault(d, Fraction(len(k["vs"]) - 1))
            return enum(v.ty, leaf(atom(d)),
                        [[self.make(f[1], mk("vfld", t, vi, fi)) for fi, f in enumerate(vv["f"])]
                         for vi, vv in enumerate(k["vs"])])
        if kk == "tuple":
            return agg("()", [self.make(f, mk("fld", t, i)) for i, f in enumerate(k["f"])])
        if kk == "array":
            n = k.get("len")
            if isinstance(n, int) and n <= SMALL:
                return agg("[]", [self.make(k["e"], mk("sel", t, const(i))) for i in range(n)])
            if isinstance(n, int):
                return coll(leaf(const(n)), arr(t, k["e"]))
            ln = mk("len", t)
            INT_LO.setdefault(ln, Fraction(0))
            return coll(leaf(atom(ln)), arr(t, k["e"]))
        if kk == "slice":
            ln = mk("len", t)
            INT_LO.setdefault(ln, Fraction(0))
            return coll(leaf(atom(ln)), arr(t, k["e"]))
        if kk == "closure":
            return agg(("closure", k["path"], self.closures.get(k["path"])),
                       [self.make(f, mk("fld", t, i)) for i, f in enumerate(k["f"])])
        raise Unknown("expand %s" % k["n"])

    # ------------------------------------------------------------ merging
    def ite_v(self, c, a, b):
        if a is b:
            return a
        if c is DT:
            return a
        if c is DF:
            return b
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, DD) and isinstance(b, DD):
            return ite(c, a, b)
        if isinstance(a, Sym):
            a2 = self.expand(a)
            return self.ite_v(c, a2, b)
        if isinstance(b, Sym):
            return self.ite_v(c, a, self.expand(b))
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fs) == len(b.fs):
            if a.ty != b.ty and isinstance(a.ty, tuple) and isinstance(b.ty, tuple):
                if a.ty[0] == "it" and b.ty[0] == "it" or a.ty[0] == "closure":
                    raise Unknown("merge of different iterators or closures")
            return agg(a.ty, [self.ite_v(c, x, y) for x, y in zip(a.fs, b.fs)])
        if isinstance(a, Enum) and isinstance(b, Enum) and len(a.vs) == len(b.vs):
            vs = []
            for x, y in zip(a.vs, b.vs):
                if x is None or y is None:
                    vs.append(x if y is None else y)
                else:
                    vs.append([self.ite_v(c, p, q) for p, q in zip(x, y)])
            return enum(a.ty, ite(c, a.disc, b.disc), vs)
        if isinstance(a, Coll) and isinstance(b, Coll):
            return coll(ite(c, a.len, b.len), self.ite_arr(c, a.arr, b.arr))
        if isinstance(a, Agg) and isinstance(b, Coll) or isinstance(a, Coll) and isinstance(b, Agg):
            return self.ite_v(c, self.to_coll(a), self.to_coll(b))
        raise Unknown("cannot merge %r and %r" % (type(a).__name__, type(b).__name__))

    def to_coll(self, a, ety=None):
        if isinstance(a, Coll):
            return a
        base = mk("lit", len(a.fs))
        return coll(leaf(const(len(a.fs))),
                    arr(base, ety, [("w", DT, leaf(const(i)), (), f) for i, f in enumerate(a.fs)]))

    def ite_arr(self, c, a, b):
        if a is b:
            return a
        if a.base is b.base or a.base == b.base:
            n = 0
            while n < min(len(a.ents), len(b.ents)) and a.ents[n] is b.ents[n]:
                n += 1
            while n < min(len(a.ents), len(b.ents)) and _eq_ent(a.ents[n], b.ents[n]):
                n += 1
            es = list(a.ents[:n])
            es += [self.guard_ent(c, e) for e in a.ents[n:]]
            es += [self.guard_ent(dnot(c), e) for e in b.ents[n:]]
            return arr(a.base, a.ety, es)
        return arr(("ite", c, a, b), a.ety, ())

    def guard_ent(self, c, e):
        if e[0] == "w":
            return ("w", dand(c, e[1])) + e[2:]
        if e[0] == "loop":
            return ("loop", e[1], e[2], tuple(self.guard_ent(c, x) for x in e[3]))
        if e[0] == "copy":
            return ("copy", dand(c, e[1])) + e[2:]
        if e[0] == "havoc":
            return ("havoc", dand(c, e[1])) + e[2:]
        raise Unknown("guarded %s" % e[0])

    # ------------------------------------------------------------ arrays
    def arr_read(self, a, i):
        """i: index term"""
        start = 0
        v = None
        # a definite write at the same index makes everything older irrelevant
        for n in range(len(a.ents) - 1, -1, -1):
            e = a.ents[n]
            if e[0] == "w" and e[1] is DT and not e[3] and e[2].atom is None and e[2].leaf is i:
                v = e[4]
                start = n + 1
                break
        if v is None:
            v = self.arr_base(a, i)
        for e in a.ents[start:]:
            v = self.ent_apply(v, e, i, a)
        return v

    def arr_base(self, a, i):
        if isinstance(a.base, T):
            if a.ety is None:
                return leaf(mk("sel", a.base, i))
            return self.make(a.ety, mk("sel", a.base, i))
        if a.base[0] == "fill":
            return a.base[1]
        if a.base[0] == "gen":      # ("gen", k, value)
            return self.substv(a.base[2], {a.base[1]: leaf(i)})
        if a.base[0] == "ite":
            return self.ite_v(a.base[1], self.arr_read(a.base[2], i), self.arr_read(a.base[3], i))
        if a.base[0] == "win":      # window of another array
            return self.arr_read(a.base[1], padd(i, a.base[2]))
        raise Unknown("array base")

    def ent_apply(self, v, e, i, a):
        if e[0] == "w":
            _, g, idx, p, val = e
            c = dand(g, apply(None, lambda x: cmp_eq(x, i, False), idx))
            if c is DF:
                return v
            return self.ite_v(c, self.vset(v, p, val) if p else val, v)
        if e[0] == "copy":          # ("copy", guard, dst, len, src arr, src start)
            _, g, dst, ln, src, s0 = e
            c = dand(g, self.in_range(i, dst, ln))
            if c is DF:
                return v
            return self.ite_v(c, self.arr_read(src, padd(s0, psub(i, dst))), v)
        if e[0] == "loop":
            _, k, n, es = e
            for x in es:
                _, g, idx, p, val = x
                if idx.atom is not None:
                    return self.opaque_read(a, i, e)
                L = idx.leaf
                s, R = self.linear(L, k)
                if s not in (1, -1):
                    return self.opaque_read(a, i, e)
                ks = psub(i, R) if s == 1 else psub(R, i)
                c = self.in_range(ks, ZERO, n.leaf if isinstance(n, DD) else n)
                c = dand(c, self.substv(g, {k_atom(k): leaf(ks)}))
                if c is DF:
                    continue
                w = self.substv(val, {k_atom(k): leaf(ks)})
                v = self.ite_v(c, self.vset(v, p, w) if p else w, v)
            return v
        if e[0] == "havoc":         # ("havoc", guard, start, len, term)
            _, g, st, ln, t = e
            c = dand(g, self.in_range(i, st, ln)) if ln is not None else g
            if c is DF:
                return v
            return self.ite_v(c, self.make(a.ety, mk("sel", t, i)) if a.ety is not None else leaf(mk("sel", t, i)), v)
        raise Unknown("array entry")

    def opaque_read(self, a, i, e):
        t = mk("sel", mk("arrloop", e[1], e[2] if isinstance(e[2], T) else UNIT, a), i)
        return self.make(a.ety, t) if a.ety is not None else leaf(t)

    def in_range(self, i, lo, ln):
        """lo <= i < lo+ln"""
        return dand(cmp_le(lo, i, False), cmp_lt(i, padd(lo, ln), False))

    def linear(self, L, k):
        """L = s*k + R"""
        if L.op != "poly":
            return None, None
        s = 0
        rest = ZERO
        for m, c in L.a[0]:
            if len(m) == 1 and m[0][0] is k and m[0][1] == 1:
                s = c
            elif any(k in tsyms(x) for x, _ in m):
                return None, None
            else:
                rest = padd(rest, mk("poly", ((m, c),)))
        return s, rest

    def substv(self, v, m):
        s = Subst({(k_atom(k)): (x if not isinstance(x, T) else leaf(x)) for k, x in m.items()}, self.make)
        return s.v(v) if not isinstance(v, DD) else s.d(v)

    # ------------------------------------------------------------ paths in values
    def vget(self, v, p):
        for e in p:
            v = self.vget1(v, e)
        return v

    def vget1(self, v, e):
        if v is None:
            raise Unknown("read of an uninitialised value")
        if isinstance(v, Sym):
            v = self.expand(v)
        k = e[0]
        if isinstance(v, DD):
            if v is DBOT:
                return v
            # field of a pointer-like wrapper (Box, NonNull, Unique, ...)
            if all(l.op in PTR_OPS for l in leaves(v)):
                return v
            if k == "f":
                ty = e[2] if len(e) > 2 else None
                return self.lift1(v, lambda l: self.make(ty, mk("fld", l, e[1])) if ty is not None else leaf(mk("fld", l, e[1])))
            if k == "d":
                return v
            if k == "i":
                return self.lift1(v, lambda l: leaf(mk("sel", l, e[1])))
            raise Unknown("projection of a scalar")
        if isinstance(v, Agg):
            if isinstance(v.ty, tuple) and v.ty[0] == "wrap" and k == "f":
                return v.fs[0]
            if k == "f":
                if e[1] >= len(v.fs):
                    raise Unknown("field %r of %r" % (e[1], v))
                return v.fs[e[1]]
            if k == "i":
                return self.small_sel(v.fs, e[1])
            if k == "d":
                return v
        if isinstance(v, Enum):
            if k == "d":
                return agg(("variant", e[1]), v.vs[e[1]] if v.vs[e[1]] is not None else self.bots(v.ty, e[1]))
            raise Unknown("field of enum without downcast")
        if isinstance(v, Coll) and k == "i":
            return self.arr_read(v.arr, e[1])
        raise Unknown("projection %r of %s" % (e, type(v).__name__))

    def logical_elem(self, ty):
        for f in self.types[ty]["vs"][0]["f"]:
            k = self.types[f[1]]
            if k["k"] == "array" and k.get("e") is not None:
                return k["e"]
            if k["k"] == "adt" and self.M.is_vec(k["path"]):
                return k["args"][0]
        return None

    def bots(self, ty, vi):
        n = len(self.types[ty]["vs"][vi]["f"]) if isinstance(ty, int) else 4
        return [DBOT] * n

    def lift1(self, d, f):
        """apply f (leaf -> value) over a diagram"""
        if d.atom is None:
            return f(d.leaf)
        return self.ite_v(batom(d.atom), self.lift1(d.hi, f), self.lift1(d.lo, f))

    def small_sel(self, fs, i):
        if is_const(i):
            n = int(cval(i))
            if n < 0 or n >= len(fs):
                return DBOT
            return fs[n]
        v = fs[-1]
        for n in range(len(fs) - 2, -1, -1):
            v = self.ite_v(cmp_lt(i, const(n + 1), False), fs[n], v)
        return v

    def vset(self, v, p, new):
        if not p:
            return new
        e, rest = p[0], p[1:]
        if isinstance(v, Sym):
            v = self.expand(v)
        k = e[0]
        if isinstance(v, Agg):
            if k == "f":
                fs = list(v.fs)
                fs[e[1]] = self.vset(fs[e[1]], rest, new)
                return agg(v.ty, fs)
            if k == "i":
                i = e[1]
                fs = list(v.fs)
                if is_const(i):
                    n = int(cval(i))
                    if 0 <= n < len(fs):
                        fs[n] = self.vset(fs[n], rest, new)
                    return agg(v.ty, fs)
                return agg(v.ty, [self.ite_v(cmp_eq(i, const(n), False), self.vset(f, rest, new), f)
                                  for n, f in enumerate(fs)])
            if k == "d":
                return self.vset(v, rest, new)
        if isinstance(v, Enum) and k == "d":
            fs = list(v.vs[e[1]] if v.vs[e[1]] is not None else self.bots(v.ty, e[1]))
            if not rest:
                raise Unknown("store to a whole variant")
            fs[rest[0][1]] = self.vset(fs[rest[0][1]], rest[1:], new)
            vs = list(v.vs)
            vs[e[1]] = fs
            return enum(v.ty, v.disc, vs)
        if isinstance(v, Coll) and k == "i":
            a = v.arr
            return coll(v.len, arr(a.base, a.ety, a.ents + (("w", DT, leaf(e[1]), tuple(rest), new),)))
        if isinstance(v, DD):
            if all(l.op in PTR_OPS for l in leaves(v)) and v is not DBOT:
                return self.vset(v, rest, new) if rest else new
            return leaf(mk("upd", v, tuple(map(str, p))))
        if v is None:
            # partial initialisation of a fresh aggregate
            if k == "f":
                n = e[1] + 1
                return agg("()", [self.vset(None, rest, new) if i == e[1] else None for i in range(max(n, 4))])
        raise Unknown("store %r into %s" % (e, type(v).__name__))

    # ------------------------------------------------------------ memory
    def region(self, r):
        v = self.mem.get(r)
        if v is None:
            v = self.region_default(r)
            if v is not None:
                self.mem[r] = v
        return v

    def region_default(self, r):
        if r in self.statics:
            return self.statics[r]
        if isinstance(r, T) and r.op == "deref":
            ty = self.rty.get(r)
            if ty is None:
                return leaf(mk("cont", r.a[0]))
            if self.types[ty]["k"] in ("slice", "str"):
                ln = mk("len", r.a[0])
                INT_LO.setdefault(ln, Fraction(0))
                ety = self.types[ty].get("e")
                return coll(leaf(atom(ln)), arr(r.a[0], ety))
            return self.make(ty, r.a[0] if r.a[0].op != "poly" else r.a[0])
        return None

    def load(self, ref, path=()):
        """read through a reference diagram"""
        return self.lift1(ref, lambda l: self.load1(l, path))

    def load1(self, l, path=()):
        if l is BOT:
            return DBOT
        if l.op == "ref":
            return self.norm(self.load_path(self.region(l.a[0]), l.a[1] + tuple(path)))
        if l.op == "sref":
            if path and path[0][0] == "i":
                return self.norm(self.load_path(self.region(l.a[0]), l.a[1] + (("i", padd(l.a[2], path[0][1])),) + tuple(path[1:])))
            if not path:
                base = self.vget(self.region(l.a[0]), l.a[1])
                base = self.expand(base)
                if isinstance(base, Coll):
                    if l.a[2] is ZERO and base.len is leaf(l.a[3]):
                        return base
                    if l.a[2] is ZERO:
                        return coll(leaf(l.a[3]), base.arr)
                    return coll(leaf(l.a[3]), arr(("win", base.arr, l.a[2]), base.arr.ety))
                return base
        if l.op in ("v", "str", "fld", "call", "const", "bytes", "cont", "b", "mu") or True:
            v = leaf(mk("cont", l))
            return self.vget(v, path) if path else v

    def load_path(self, v, path):
        return self.vget(v, path)

    def norm(self, v):
        return v

    def store(self, ref, path, new):
        if ref.atom is None:
            return self.store1(ref.leaf, path, new, DT)
        for asg, l in paths(ref, 64):
            if l is BOT:
                continue
            g = DT
            for a, b in asg.items():
                g = dand(g, batom(a) if b else dnot(batom(a)))
            self.store1(l, path, new, g)

    def store1(self, l, path, new, g):
        if l is BOT:
            return
        path = tuple(path)
        if l.op == "sref":
            if path and path[0][0] == "i":
                path = l.a[1] + (("i", padd(l.a[2], path[0][1])),) + path[1:]
            else:
                raise Unknown("store of a whole slice")
        elif l.op == "ref":
            path = l.a[1] + path
        else:
            self.log("wild_store", l, path, new)
            self.mem[mk("deref", l)] = self.vset(self.region_default(mk("deref", l)), path, new) if path else new
            return
        r = l.a[0]
        old = self.region(r) if path else self.mem.get(r)
        nv = self.vset(old, path, new)
        if g is not DT and old is not None:
            nv = self.ite_v(g, nv, old)
        self.mem[r] = nv
        if isinstance(r, T):
            self.log("store", r, path, new)

    def log(self, kind, *payload):
        if len(self.events) > 200000:
            raise Unknown("event log too long")
        self.events.append((self.guard, kind, payload, tuple(self.loopstack), tuple(s[0] for s in self.stack), self.line))

    line = 0

    # ------------------------------------------------------------ references to places
    def place_ref(self, fr, pl):
        """reference diagram to a MIR place, with slice refs for unsized places"""
        loc, proj = pl
        ref = leaf(mk("ref", (("l", fr, loc)), ()))
        path = []
        unsized = None
        for pi, e in enumerate(proj):
            if e[0] == "*":
                ref = self.load(ref, path) if (path or True) else ref
                if isinstance(ref, (Agg,)) and len(ref.fs) >= 1:
                    ref = self.find_ptr(ref)
                if not isinstance(ref, DD):
                    raise Unknown("dereference of %s" % type(ref).__name__)
                path = []
            elif e[0] == "f":
                path.append(("f", e[1], e[2]))
            elif e[0] == "d":
                path.append(("d", e[1]))
            elif e[0] == "i":
                idx = self.mem.get(("l", fr, e[1]))
                ref = self.index_ref(ref, path, idx)
                path = []
            elif e[0] == "c":
                off, mn, fe = e[1], e[2], e[3]
                if fe:
                    ref = apply(None, lambda l: self.ref_fromend(l, tuple(path), off), ref)
                else:
                    ref = self.index_ref(ref, path, leaf(const(off)))
                path = []
            elif e[0] == "s":
                frm, to, fe = e[1], e[2], e[3]
                def sub(l, path=tuple(path)):
                    s = self.as_sref(l, path)
                    hi = psub(s.a[3], const(to)) if fe else const(to)
                    return mk("sref", s.a[0], s.a[1], padd(s.a[2], const(frm)), psub(hi, const(frm)))
                ref = apply(None, sub, ref)
                path = []
            else:
                raise Unknown("projection %r" % (e,))
        return ref, tuple(path)

    def find_ptr(self, v):
        st = [v]
        while st:
            x = st.pop(0)
            if isinstance(x, DD):
                if all(l.op in PTR_OPS for l in leaves(x)):
                    return x
            elif isinstance(x, Agg):
                st += [f for f in x.fs if f is not None]
        return v

    def as_sref(self, l, path):
        if l.op == "sref" and not path:
            return l
        if l.op == "ref":
            v = self.expand(self.vget(self.region(l.a[0]), l.a[1] + path))
            if isinstance(v, Coll):
                if v.len.atom is not None:
                    raise Unknown("length depends on data")
                return mk("sref", l.a[0], l.a[1] + path, ZERO, v.len.leaf)
            if isinstance(v, Agg):
                return mk("sref", l.a[0], l.a[1] + path, ZERO, const(len(v.fs)))
        raise Unknown("not a slice: %s" % show(l))

    def ref_fromend(self, l, path, off):
        s = self.as_sref(l, path)
        return mk("ref", s.a[0], s.a[1] + (("i", padd(s.a[2], psub(s.a[3], const(off)))),))

    def index_ref(self, ref, path, idx):
        path = tuple(path)

        def f(l, i):
            if l.op == "sref":
                if path:
                    raise Unknown("path in slice")
                return mk("ref", l.a[0], l.a[1] + (("i", padd(l.a[2], i)),))
            if l.op == "ref":
                return mk("ref", l.a[0], l.a[1] + path + (("i", i),))
            return mk("ref", mk("deref", l), path + (("i", i),))
        return apply(None, f, ref, idx)

    def slice_of(self, ref):
        """sref diagram of a reference to a Vec/array/slice"""
        return self.lift1(ref, lambda l: self._slice_of(l))

    def _slice_of(self, l):
        if l.op == "sref":
            return leaf(l)
        if l.op == "ref":
            v = self.expand(self.vget(self.region(l.a[0]), l.a[1]))
            if isinstance(v, Coll):
                return apply(None, lambda n: mk("sref", l.a[0], l.a[1], ZERO, n), v.len)
            if isinstance(v, Agg):
                return leaf(mk("sref", l.a[0], l.a[1], ZERO, const(len(v.fs))))
            if isinstance(v, DD) and all(x.op in PTR_OPS for x in leaves(v)):
                return self.slice_of(v)     # reference to a reference
        ln = mk("len", l)
        INT_LO.setdefault(ln, Fraction(0))
        return leaf(mk("sref", mk("deref", l), (), ZERO, atom(ln)))

    def slen(self, sref):
        return apply(None, lambda l: l.a[3] if l.op == "sref" else atom(mk("len", l)), sref)

    # ------------------------------------------------------------ operands and rvalues
    def read_place(self, fr, pl):
        loc, proj = pl
        v = self.mem.get(("l", fr, loc))
        if not proj:
            if v is None:
                raise Unknown("uninitialised local _%d" % loc)
            return v
        simple = True
        path = []
        for e in proj:
            if e[0] == "f":
                path.append(("f", e[1], e[2]))
            elif e[0] == "d":
                path.append(("d", e[1]))
            else:
                simple = False
                break
        if simple:
            return self.vget(v, path)
        ref, path = self.place_ref(fr, pl)
        return self.load(ref, path)

    def write_place(self, fr, pl, val):
        loc, proj = pl
        if not proj:
            self.mem[("l", fr, loc)] = val
            return
        if any(e[0] == "*" for e in proj):
            ref, path = self.place_ref(fr, pl)
            self.store(ref, path, val)
            return
        ref, path = self.place_ref(fr, pl)
        if ref.atom is None and self.mem.get(("l", fr, loc)) is None:
            # partial initialisation: build from the type
            self.mem[("l", fr, loc)] = self.blank(fr, loc)
        self.store(ref, path, val)

    def blank(self, fr, loc):
        ty = self.body_of(fr)["locals"][loc]
        t = self.types[ty]
        if t["k"] == "tuple":
            return agg("()", [None] * len(t["f"]))
        if t["k"] == "adt" and t["kind"] == "struct":
            return agg(ty, [None] * len(t["vs"][0]["f"]))
        if t["k"] == "array" and isinstance(t.get("len"), int) and t["len"] <= SMALL:
            return agg("[]", [None] * t["len"])
        return None

    def body_of(self, fr):
        for s in reversed(self.stack):
            if s[1] == fr:
                return self.bodies[s[2]]
        raise Unknown("frame")

    def operand(self, fr, op):
        if op[0] in ("cp", "mv"):
            return self.read_place(fr, op[1])
        if op[0] == "rt":        # debug-only runtime checks of the standard library
            return DF
        return self.constant(op[1])

    def constant(self, c):
        ty = c["ty"]
        k = self.types[ty]
        kk = k["k"]
        if "fn" in c:
            return leaf(mk("fn", _Key(c["fn"])))
        if "v" in c:
            b = int(c["v"])
            if kk == "bool":
                return DT if b else DF
            if kk == "int":
                if k["n"].startswith("i"):
                    n = self.bits(ty)
                    if b >= 1 << (n - 1):
                        b -= 1 << n
                return leaf(const(b))
            if kk == "char":
                return leaf(const(b))
            if kk == "float":
                x = f32(b) if k["n"] == "f32" else f64(b)
                if x != x:
                    return leaf(atom(mk("nanconst")))
                if x in (float("inf"), float("-inf")):
                    return leaf(pscale(atom(mk("inf")), 1 if x > 0 else -1))
                return leaf(const(Fraction(x)))
            if kk == "adt":
                return self.from_bits(ty, b)
            if kk in ("ref", "ptr"):
                return leaf(mk("ptrconst", b))
        if c.get("zst"):
            if kk == "closure":
                return agg(("closure", k["path"], self.closures.get(k["path"])), [])
            if kk == "fndef":
                return leaf(mk("fn", _Key(c.get("fn", {"path": k.get("path", "?")}))))
            if kk == "tuple":
                return UNITV
            if kk == "adt":
                if k["kind"] == "enum":
                    return enum(ty, leaf(ZERO), [[] for _ in k["vs"]])
                return agg(ty, [UNITV] * len(k["vs"][0]["f"]))
            if kk == "array":
                return agg("[]", [])
            return UNITV
        if "bytes" in c:
            r = self.from_bytes(ty, bytes.fromhex(c["bytes"]) if isinstance(c["bytes"], str) else bytes(c["bytes"]))
            if r is not None:
                return r
        if "pbytes" in c and kk == "ref":
            reg = mk("static", str(c["pbytes"]), k["e"])
            if reg not in self.mem:
                v = self.from_bytes(k["e"], bytes.fromhex(c["pbytes"]) if isinstance(c["pbytes"], str) else bytes(c["pbytes"]))
                self.mem[reg] = v if v is not None else self.make(k["e"], reg)
            if self.types[k["e"]]["k"] in ("slice", "str"):
                v = self.mem[reg]
                return leaf(mk("sref", reg, (), ZERO, atom(mk("len", reg))))
            return leaf(mk("ref", reg, ()))
        if "pinst" in c and kk == "ref":
            return self.promoted(c["pinst"])
        if kk == "tuple" and not k["f"]:
            return UNITV
        key = c.get("path") or c.get("promoted") or repr(sorted((a, str(b)) for a, b in c.items()))
        return self.make(ty, mk("const", str(key), ty))

    def promoted(self, bi):
        """a constant whose value depends on type parameters: its body is analysed once, in an empty state"""
        reg = mk("static", "promoted", bi)
        if reg not in self.statics:
            keep = self.mem, self.guard, getattr(self, "dead", False), self.events, self.line
            self.mem, self.guard, self.events = {}, DT, []
            try:
                r = self.call_body(bi, [], keep=True)
                if r.atom is not None or r.leaf.op != "ref":
                    raise Unknown("constant")
                self.statics[reg] = self.load(r)
            finally:
                self.mem, self.guard, self.dead, self.events, self.line = keep
        return leaf(mk("ref", reg, ()))

    def from_bits(self, ty, b):
        k = self.types[ty]
        n = (k["layout"] or {}).get("size", 8)
        v = self.from_bytes(ty, b.to_bytes(n, "little"))
        if v is None:
            return self.make(ty, mk("constbits", ty, b))
        return v

    def from_bytes(self, ty, bs):
        k = self.types[ty]
        kk = k["k"]
        if kk in ("int", "bool", "float", "char"):
            n = 1 if kk == "bool" else (4 if kk == "char" else self.bits(ty) // 8)
            return self.constant({"ty": ty, "v": str(int.from_bytes(bs[:n], "little"))})
        if kk == "adt" and k.get("layout"):
            n = self.lanes(ty)
            if n and self.M.LANEKIND[k["path"]] == "f":
                return agg(ty, [leaf(const(Fraction(struct.unpack("<f", bs[4 * i:4 * i + 4])[0]))) for i in range(n)])
            if k["kind"] == "struct":
                out = []
                for f, o in zip(k["vs"][0]["f"], k["layout"].get("offs") or []):
                    v = self.from_bytes(f[1], bs[o:])
                    if v is None:
                        return None
                    out.append(v)
                return agg(ty, out)
            if k["kind"] == "enum" and all(not v["f"] for v in k["vs"]):
                x = int.from_bytes(bs[:k["layout"]["size"]], "little")
                for vi, v in enumerate(k["vs"]):
                    if v["d"] == x:
                        return enum(ty, leaf(const(vi)), [[] for _ in k["vs"]])
        if kk == "array" and isinstance(k.get("len"), int) and k["len"] <= SMALL:
            sz = self.size_of(k["e"])
            if sz is None:
                return None
            out = [self.from_bytes(k["e"], bs[i * sz:]) for i in range(k["len"])]
            return None if any(o is None for o in out) else agg("[]", out)
        if kk == "tuple":
            if not k["f"]:
                return UNITV
            offs = (k.get("layout") or {}).get("offs")
            if offs:
                out = [self.from_bytes(f, bs[o:]) for f, o in zip(k["f"], offs)]
                return None if any(o is None for o in out) else agg("()", out)
        return None

    def size_of(self, ty):
        k = self.types[ty]
        if k["k"] in ("int", "float"):
            return self.bits(ty) // 8
        if k["k"] == "bool":
            return 1
        if k["k"] in ("adt", "tuple") and k.get("layout"):
            return k["layout"]["size"]
        if k["k"] == "array":
            s = self.size_of(k["e"])
            return None if s is None or not isinstance(k.get("len"), int) else s * k["len"]
        return None

    def op_ty(self, fr, op):
        if op[0] == "k":
            return op[1]["ty"]
        if op[0] == "rt":
            return None
        return self.place_ty(fr, op[1])

    def place_ty(self, fr, pl):
        loc, proj = pl
        ty = self.body_of(fr)["locals"][loc]
        for e in proj:
            k = self.types[ty]
            if e[0] == "*":
                ty = k.get("e") if k.get("e") is not None else (k["args"][0] if k.get("args") else ty)
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "c"):
                ty = k["e"]
        return ty

    def rvalue(self, fr, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(fr, rv[1])
        if k == "ref":
            ref, path = self.place_ref(fr, rv[2])
            if not path:
                return ref
            return apply(None, lambda l: self.addpath(l, path), ref)
        if k == "bin":
            return self.binop(rv[1], self.operand(fr, rv[2]), self.operand(fr, rv[3]), self.op_ty(fr, rv[2]))
        if k == "un":
            return self.unop(rv[1], self.operand(fr, rv[2]), self.op_ty(fr, rv[2]))
        if k == "cast":
            return self.cast(rv[1], self.operand(fr, rv[2]), self.op_ty(fr, rv[2]), rv[3])
        if k == "disc":
            v = self.expand(self.read_place(fr, rv[1]))
            if isinstance(v, Enum):
                ds = self.discs(v.ty) if isinstance(v.ty, int) else None
                if ds is None or all(i == d for i, d in enumerate(ds)):
                    return v.disc

                def f(l):
                    if is_const(l):
                        return const(int(ds[int(cval(l))]))
                    r = leaf(const(int(ds[-1])))
                    for i in range(len(ds) - 2, -1, -1):
                        r = ite(cmp_lt(l, const(i + 1), False), leaf(const(int(ds[i]))), r)
                    return r
                return apply(None, f, v.disc)
            if isinstance(v, DD):
                return self.lift1(v, lambda l: self.make_int(mk("disc", l)))
            raise Unknown("discriminant of %s" % type(v).__name__)
        if k == "agg":
            return self.aggregate(fr, rv[1], [self.operand(fr, o) for o in rv[2]])
        if k == "rep":
            v = self.operand(fr, rv[1])
            n = rv[2]
            n = n if isinstance(n, int) else None
            if n is not None and n <= SMALL:
                return agg("[]", [v] * n)
            ety = self.types[dty].get("e") if dty is not None else None
            return coll(leaf(const(n)) if n is not None else leaf(atom(mk("len", mk("arrlen", dty)))), arr(("fill", v), ety))
        raise Unknown("rvalue %s" % k)

    def discs(self, ty):
        """discriminants of an enum, as numbers"""
        t = self.types[ty]
        ds = [int(x["d"]) for x in t["vs"]]
        if t["path"].endswith("cmp::Ordering"):
            ds = [d - 256 if d > 127 else d for d in ds]
        return ds

    def make_int(self, t, lo=0):
        if lo is not None:
            INT_LO.setdefault(t, Fraction(lo))
        return leaf(atom(t))

    def addpath(self, l, path):
        if l is BOT:
            return l
        if l.op == "ref":
            return mk("ref", l.a[0], l.a[1] + self.clean(path))
        if l.op == "sref":
            if path[0][0] == "i":
                return mk("ref", l.a[0], l.a[1] + (("i", padd(l.a[2], path[0][1])),) + self.clean(path[1:]))
            return l
        return mk("ref", mk("deref", l), self.clean(path))

    def clean(self, path):
        return tuple(path)

    def aggregate(self, fr, kind, ops):
        k = kind[0]
        if k == "array":
            if len(ops) <= SMALL:
                return agg("[]", ops)
            return self.to_coll(agg("[]", ops))
        if k == "tuple":
            return agg("()", ops) if ops else UNITV
        if k == "adt":
            ty, vi, act = kind[1], kind[2], kind[3]
            t = self.types[ty]
            if t["kind"] == "enum":
                return enum(ty, leaf(const(vi)), [ops if i == vi else None for i in range(len(t["vs"]))])
            if t["kind"] == "union":
                return agg(("wrap", ty), ops)
            return agg(ty, ops)
        if k == "closure":
            return agg(("closure", kind[1], kind[2]), ops)
        if k == "rawptr":
            p, m = ops
            if isinstance(m, DD):
                def f(l, n):
                    if l.op == "ref" and l.a[1] and l.a[1][-1][0] == "i":
                        return mk("sref", l.a[0], l.a[1][:-1], l.a[1][-1][1], n)
                    if l.op == "sref":
                        return mk("sref", l.a[0], l.a[1], l.a[2], n)
                    return mk("sref", mk("deref", l), (), ZERO, n)
                return apply(None, f, p, m)
            return p
        raise Unknown("aggregate %s" % k)

    def binop(self, op, a, b, ty):
        if not isinstance(a, DD) or not isinstance(b, DD):
            raise Unknown("binary operation on aggregates")
        k = self.types[ty]["k"]
        fl = k == "float"
        if op.endswith("WithOverflow"):
            return agg("()", [self.binop(op[:-12], a, b, ty), DF])
        if op.endswith("Unchecked"):
            op = op[:-9]
        if k == "bool":
            if op == "BitAnd":
                return dand(a, b)
            if op == "BitOr":
                return dor(a, b)
            if op in ("BitXor", "Ne"):
                return dxor(a, b)
            if op == "Eq":
                return dnot(dxor(a, b))
            if op == "Lt":
                return dand(dnot(a), b)
            if op == "Gt":
                return dand(a, dnot(b))
            raise Unknown("bool %s" % op)
        if k in ("ptr", "ref", "fnptr"):
            if op == "Offset":
                return self.ptr_add(a, b)
            if op in ("Eq", "Ne"):
                r = apply(None, self.ptr_eq, a, b)
                return r if op == "Eq" else dnot(r)
        if fl and op in self.FLOAT:
            return self.FLOAT[op](a, b)
        if op in ("Add", "Sub", "Mul"):
            r = apply(op.lower(), {"Add": padd, "Sub": psub, "Mul": pmul}[op], a, b)
            if self.narrow is not None and k == "int" and self.bits(ty) <= 32:
                self.note_narrow(r)
            return r
        if op == "Div":
            return apply("idiv", self.idiv, a, b)
        if op == "Rem":
            return apply("rem", self.irem, a, b)
        if op == "Lt":
            return apply(("lt", fl), lambda x, y: cmp_lt(x, y, fl), a, b)
        if op == "Gt":
            return apply(("gt", fl), lambda x, y: cmp_lt(y, x, fl), a, b)
        if op == "Le":
            return apply(("le", fl), lambda x, y: cmp_le(x, y, fl), a, b)
        if op == "Ge":
            return apply(("ge", fl), lambda x, y: cmp_le(y, x, fl), a, b)
        if op == "Eq":
            return apply(("eq", fl), lambda x, y: cmp_eq(x, y, fl), a, b)
        if op == "Ne":
            return dnot(apply(("eq", fl), lambda x, y: cmp_eq(x, y, fl), a, b))
        if op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
            return apply(("bit", op, ty), lambda x, y: self.bitop(op, x, y, ty), a, b)
        if op == "Cmp":
            r = ite(apply(None, lambda x, y: cmp_lt(x, y, fl), a, b), leaf(ZERO),
                    ite(apply(None, lambda x, y: cmp_lt(y, x, fl), a, b), leaf(const(2)), leaf(ONE)))
            return enum(self.M.ordering_ty(self), r, [[], [], []])
        raise Unknown("binop %s" % op)

    def ptr_eq(self, x, y):
        if x is y:
            return TRUE
        if x.op == "ref" and y.op == "ref" and x.a[0] is y.a[0] and len(x.a[1]) == len(y.a[1]) and x.a[1] and \
                x.a[1][:-1] == y.a[1][:-1] and x.a[1][-1][0] == "i" == y.a[1][-1][0]:
            return cmp_eq(x.a[1][-1][1], y.a[1][-1][1], False)
        if x.id > y.id:
            x, y = y, x
        return batom(mk("peq", x, y))

    def idiv(self, x, y):
        if is_const(x) and is_const(y) and cval(y) != 0:
            q = abs(cval(x)) // abs(cval(y))
            return const(q if (cval(x) >= 0) == (cval(y) > 0) else -q)
        if y is ONE:
            return x
        if self.divisible(x, y):
            return pscale(x, 1 / cval(y))
        t = mk("idiv", x, y)
        lo, _ = bounds(x)
        if lo is not None and lo >= 0:
            INT_LO.setdefault(t, Fraction(0))
        return atom(t)

    def divisible(self, x, y):
        """every coefficient of x is a multiple of the constant y"""
        return is_const(y) and cval(y) != 0 and x.op == "poly" and all((c / cval(y)).denominator == 1 for _, c in x.a[0])

    def irem(self, x, y):
        if self.divisible(x, y):
            return ZERO
        if is_const(x) and is_const(y) and cval(y) != 0:
            r = abs(cval(x)) % abs(cval(y))
            return const(r if cval(x) >= 0 else -r)
        if is_const(y) and cval(y) > 0:
            lo, hi = bounds(x)
            if lo is not None and hi is not None and lo >= 0 and hi - lo < 64:
                # finite case split, so that (axis + 1) % 3 and its rewrites agree
                d = leaf(const(hi % cval(y)))
                v = hi - 1
                while v >= lo:
                    d = ite(cmp_lt(x, const(v + 1), False), leaf(const(v % cval(y))), d)
                    v -= 1
                return d
        t = mk("irem", x, y)
        INT_LO.setdefault(t, Fraction(0))
        if is_const(y):
            INT_HI.setdefault(t, cval(y) - 1)
        return atom(t)

    def bitop(self, op, x, y, ty):
        n = self.bits(ty)
        if is_const(x) and is_const(y):
            a, b = int(cval(x)), int(cval(y))
            m = (1 << n) - 1
            r = {"BitAnd": (a & m) & (b & m), "BitOr": (a & m) | (b & m), "BitXor": (a & m) ^ (b & m),
                 "Shl": (a << b) & m if 0 <= b < 256 else 0, "Shr": (a & m) >> b if 0 <= b < 256 else 0}[op]
            if self.signed(ty) and r >= 1 << (n - 1):
                r -= 1 << n
            return const(r)
        if op in ("BitAnd", "BitOr") and x is y:
            return x
        if op == "BitOr" and (x is ZERO or y is ZERO):
            return y if x is ZERO else x
        if op == "BitAnd" and (x is ZERO or y is ZERO):
            return ZERO
        if op in ("BitAnd", "BitOr", "BitXor") and x.id > y.id:
            x, y = y, x
        if op == "Shl" and is_const(y):
            return pscale(x, 1 << int(cval(y)))
        t = mk("bit" + op, x, y)
        if not self.signed(ty):
            INT_LO.setdefault(t, Fraction(0))
            if op == "BitAnd":
                c = x if is_const(x) else y if is_const(y) else None
                if c is not None:
                    INT_HI.setdefault(t, cval(c))
        return atom(t)

    def unop(self, op, a, ty):
        k = self.types[ty]["k"]
        if op == "Not":
            if k == "bool":
                return dnot(a)

            def f(x):
                if is_const(x):
                    n = self.bits(ty)
                    v = ~int(cval(x))
                    return const(v if self.signed(ty) else v & ((1 << n) - 1))
                return atom(mk("bitnot", x))
            return apply(None, f, a)
        if op == "Neg":
            return apply("neg", lambda x: pscale(x, -1), a)
        if op == "PtrMetadata":
            return self.lift1(a, self.meta)
        raise Unknown("unop %s" % op)

    def meta(self, l):
        if l.op == "sref":
            return leaf(l.a[3])
        return leaf(atom(mk("len", l)))

    def ptr_add(self, p, n):
        def f(l, i):
            if l is BOT:
                return l
            if l.op == "ref":
                if l.a[1] and l.a[1][-1][0] == "i":
                    return mk("ref", l.a[0], l.a[1][:-1] + (("i", padd(l.a[1][-1][1], i)),))
                if i is ZERO:
                    return l
                return mk("ref", l.a[0], l.a[1] + (("i", i),))
            if l.op == "sref":
                return mk("ref", l.a[0], l.a[1] + (("i", padd(l.a[2], i)),))
            if l.op == "padd":
                return mk("padd", l.a[0], padd(l.a[1], i))
            return mk("padd", l, i)
        return apply(None, f, p, n)

    def cast(self, kind, a, fty, tty):
        tk, fk = self.types[tty], self.types[fty]
        if kind in ("PtrToPtr", "FnPtrToPtr") or kind.startswith("PointerCoercion"):
            if "Unsize" in kind and isinstance(a, DD):
                pe, te = fk.get("e"), tk.get("e")
                if te is not None and self.types[te]["k"] == "slice":
                    return self.slice_of(a)
                return a
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                return a
            if isinstance(a, DD) and tk["k"] == "ptr" and fk["k"] in ("ptr", "ref"):
                return self.ptr_cast(a, fk["e"], tk["e"])
            return a
        if kind in ("Transmute", "BoxDerefTransmute"):
            if isinstance(a, DD) and tk["k"] in ("ptr", "ref") or tk["k"] == fk["k"] == "float":
                return a
            if fty == tty:
                return a
            if isinstance(a, Agg) and tk["k"] in ("ptr", "ref"):
                return self.find_ptr(a)
            if isinstance(a, DD) and all(l.op in PTR_OPS for l in leaves(a)):
                return a
            if fk["k"] == "adt" and tk["k"] == "adt" and fk["path"] == tk["path"]:
                return a
            if fk["k"] == "float" and tk["k"] == "int":
                return apply(None, lambda x: atom(mk("tobits", x)), a)
            if fk["k"] == "int" and tk["k"] == "float":
                def fb(x):
                    s = single(x)
                    if s is not None and s.op == "tobits":
                        return s.a[0]
                    return atom(mk("frombits", x))
                return apply(None, fb, a)
            if fk["k"] == "int" and tk["k"] == "int":
                return a
            r = self.M.transmute(self, a, fty, tty)
            if r is not None:
                return r
            return a
        if not isinstance(a, DD):
            if isinstance(a, Enum) and kind == "IntToInt":
                ds = self.discs(a.ty)
                return apply(None, lambda l: const(ds[int(cval(l))]) if is_const(l) else l, a.disc)
            raise Unknown("cast %s of an aggregate" % kind)
        if kind == "IntToInt":
            if fk["k"] == "bool":
                return ite(a, leaf(ONE), leaf(ZERO))
            if fk["k"] == "int" and tk["k"] == "int":
                if self.narrow is not None and self.bits(tty) <= 32:
                    self.note_narrow(a)
                return apply(("i2i", fty, tty), lambda x: self.int_cast(x, fty, tty), a)
            return a
        if kind == "IntToFloat":
            return a
        if kind == "FloatToFloat":
            return a
        if kind == "FloatToInt":
            return apply(("f2i", tty), lambda x: self.f2i(x, tty), a)
        if kind == "PointerExposeProvenance" or kind == "PointerWithExposedProvenance":
            return a
        return a

    def note_narrow(self, d):
        """products of two quantities that are kept in 32 bits or fewer (collected only if a check asks for it)"""
        def f(l):
            if l.op == "poly" and any(sum(e for _, e in m if e > 0) > 1 for m, _ in l.a[0]):
                self.narrow.append((self.path_now(), l))
            return l
        apply(None, f, d)

    def path_now(self):
        return "%s line %s" % (self.stack[-1][0] if self.stack else "?", self.line)

    def int_cast(self, x, fty, tty):
        n = self.bits(tty)
        if is_const(x):
            v = int(cval(x)) & ((1 << n) - 1)
            if self.signed(tty) and v >= 1 << (n - 1):
                v -= 1 << n
            return const(v)
        # counts and ids are taken to fit 31 bits, but not fewer
        if n < 32 and self.bits(fty) > n:
            return atom(self.cut(x, tty))
        return x

    def cut(self, x, tty):
        t = mk("cut", x, self.bits(tty), self.signed(tty))
        if not self.signed(tty):
            INT_LO.setdefault(t, Fraction(0))
        return t

    def f2i(self, x, tty):
        if is_const(x):
            return const(int(cval(x)))
        if self.bits(tty) < 32:
            return atom(self.cut(atom(mk("trunc", x)), tty))
        t = mk("trunc", x)
        if not self.signed(tty):
            INT_LO.setdefault(t, Fraction(0))
        return atom(t)

    def ptr_cast(self, a, fe, te):
        """pointer casts that change the pointee"""
        if fe == te:
            return a
        fk, tk = self.types[fe], self.types[te]
        if tk["k"] in ("float", "int") and (fk["k"] in ("adt", "array", "tuple")):
            # pointer to the first scalar of an aggregate
            def f(l):
                if l.op == "ref":
                    return mk("ref", l.a[0], l.a[1] + (("i", ZERO),))
                return l
            if self.lanes(fe) or fk["k"] == "array":
                return apply(None, f, a)
        if fk["k"] == "slice" and tk["k"] != "slice":
            return apply(None, lambda l: mk("ref", l.a[0], l.a[1] + (("i", l.a[2]),)) if l.op == "sref" else l, a)
        return a

    # ------------------------------------------------------------ CFG
    def cfg(self, bi):
        c = self.cfgs.get(bi)
        if c is None:
            c = self.cfgs[bi] = CFG(self.bodies[bi], self)
        return c

    # ------------------------------------------------------------ running
    def call_body(self, bi, args, keep=False):
        """analyse a body with the given argument values; returns its value"""
        b = self.bodies[bi]
        if len(self.stack) > 60:
            raise Unknown("call depth")
        self.fuel -= 1
        if self.fuel < 0:
            raise Unknown("analysis budget exhausted")
        self.frames += 1
        fr = self.frames
        self.stack.append((b["path"], fr, bi))
        line0 = self.line
        try:
            if b.get("spread"):
                n = b["spread"]
                pass
            for i, a in enumerate(args):
                self.mem[("l", fr, i + 1)] = a
            self.passed[fr] = args
            c = self.cfg(bi)
            g0 = self.guard
            if bi in self.flatten:
                rets = self.run_flat(fr, bi, c)
            else:
                outs = self.run_region(fr, bi, c, c.rpo, None, 0, self.guard, self.mem)
                rets = outs.get("ret", [])
            if not rets:
                self.mem = dict(self.mem)
                self.dead = True
                self.log("diverge", b["path"])
                self.guard = g0
                self.mem = {k: v for k, v in self.mem.items() if not (isinstance(k, tuple) and k[1] == fr)}
                ty = b["locals"][0]
                return self.make(ty, mk("never", b["path"])) if self.types[ty]["k"] != "tuple" else UNITV
            g, m = self.merge(rets)
            r = m.get(("l", fr, 0), UNITV)
            self.mem = m if keep else {k: v for k, v in m.items() if not (isinstance(k, tuple) and k[1] == fr)}
            self.guard = g0
            return r
        finally:
            self.stack.pop()
            self.line = line0

    def merge(self, ins):
        if len(ins) == 1:
            return ins[0]
        g, m = ins[0]
        m = dict(m)
        for g2, m2 in ins[1:]:
            gt = dor(g, g2)
            c = restrict(g, gt)
            if m2 is m:
                g = gt
                continue
            out = {}
            for k, v in m.items():
                w = m2.get(k)
                if w is None:
                    if isinstance(k, T):
                        w = self.region_default(k)
                        if w is None:
                            out[k] = v
                            continue
                    else:
                        out[k] = v
                        continue
                if v is w:
                    out[k] = v
                else:
                    out[k] = self.merge_one(c, v, w, gt, k)
            for k, w in m2.items():
                if k not in m:
                    if isinstance(k, T):
                        v = self.region_default(k)
                        if v is not None and v is not w:
                            out[k] = self.merge_one(c, v, w, gt, k)
                            continue
                    out[k] = w
            g, m = gt, out
        return g, m

    def merge_one(self, c, v, w, gt, k):
        try:
            r = self.ite_v(c, v, w)
        except Unknown:
            if isinstance(k, tuple):
                return None if False else _Poison(v, w)
            raise
        if isinstance(r, DD) and r.atom is not None and gt is not DT:
            r = restrict(r, gt)
        return r

    def run_region(self, fr, bi, c, order, header, entry, guard, mem):
        """returns {target: [(guard, mem)]}; 'back' for edges to the header, 'ret' for returns"""
        nodes = c.nodesets[header] if header is not None else None
        pend = {entry: [(guard, mem)]}
        outs = {}

        def route(t, g, m):
            if g is DF:
                return
            if t == "ret":
                outs.setdefault("ret", []).append((g, m))
            elif t == header:
                outs.setdefault("back", []).append((g, m))
            elif nodes is None or t in nodes:
                pend.setdefault(t, []).append((g, m))
            else:
                outs.setdefault(t, []).append((g, m))
        for b in order:
            ins = pend.pop(b, None)
            if not ins:
                continue
            g, m = self.merge(ins)
            if b in c.loops and b != header:
                for t, g2, m2 in self.run_loop(fr, bi, c, b, g, dict(m)):
                    route(t, g2, m2)
                continue
            self.guard, self.mem = g, dict(m)
            for t, g2, m2 in self.run_block(fr, bi, c, b):
                route(t, g2, m2)
        return outs

    def run_flat(self, fr, bi, c):
        """Reads all loops of a body as one loop around it: an edge back to a loop header is taken for one back to the entry.  This is
        the same function where entering anew with the memory of that edge leads straight to the header, with the same memory and
        the same live locals; `flat_faults` lists the edges for which that was not shown."""
        state = {}

        def body(g, m):
            ins, edges, outs = {}, [], {"back": [], "ret": []}
            pend = {0: [(g, m)]}
            for b in c.rpo:
                x = pend.pop(b, None)
                if not x:
                    continue
                g2, m2 = self.merge(x)
                if b in c.loops:
                    ins[b] = (g2, dict(m2))
                self.guard, self.mem = g2, dict(m2)
                for t, g3, m3 in self.run_block(fr, bi, c, b):
                    if g3 is DF:
                        continue
                    if t == "ret":
                        outs["ret"].append((g3, m3))
                    elif t in c.loops and b in c.nodesets[t]:
                        edges.append((b, t, g3, dict(m3)))
                        outs["back"].append((g3, {k: v for k, v in m3.items() if not (isinstance(k, tuple) and k[1] == fr and k[2] > self.bodies[bi]["argc"])}))
                    else:
                        pend.setdefault(t, []).append((g3, m3))
            state["ins"], state["edges"], state["hdr"] = ins, edges, m
            return outs["back"], [("ret", g3, m3) for g3, m3 in outs["ret"]]
        exits = self.sym_loop(body, self.guard, dict(self.mem), (self.bodies[bi]["path"], "entry", fr))
        rec = self.loops[self.nloop] if self.loops[self.nloop].where[1] == "entry" else max(
            (r for r in self.loops.values() if r.where[1] == "entry"), key=lambda r: r.id)
        hdr = rec.back[2]
        faults = []
        for b, t, g, m in state["edges"]:
            if t not in state["ins"]:
                faults.append((b, t, "the loop is not reached from the entry"))
                continue
            gx, mx = state["ins"][t]
            sub, arrs = {}, set()
            for (r, p), info in rec.mus.items():
                new = self.lget(m[r], p) if r in m else None
                if new is info[2]:
                    continue
                if isinstance(new, DD) and info[2] is leaf(atom(info[0])):
                    sub[info[0]] = new
                elif isinstance(new, DD) and isinstance(info[2], DD) and info[2].atom is None and info[2].leaf is info[0]:
                    sub[info[0]] = new
                else:
                    arrs.add(info[0])

            def after(v):
                if arrs and (self.syms_of(v) & arrs):
                    raise Unknown("the state at an inner loop depends on a changed array")
                return self.substv(v, sub) if sub else v
            try:
                miss = prune(dand(g, dnot(after(gx))))
                if miss is not DF and miss is not DBOT:
                    faults.append((b, t, "entering anew does not lead to the loop when %s" % show_dd(miss)[:200]))
                    continue
                for l in c.live_in(t):
                    k = ("l", fr, l)
                    if k in mx and k in m and not self.agree(g, after(mx[k]), m[k]):
                        faults.append((b, t, "local _%d differs" % l))
                for r in hdr:
                    if isinstance(r, tuple) and r[1] == fr and r[2] > self.bodies[bi]["argc"]:
                        continue
                    if mx.get(r) is hdr[r]:
                        continue
                    if not self.agree(g, after(mx[r]), m[r]):
                        faults.append((b, t, "memory changes before the loop"))
            except Unknown as e:
                faults.append((b, t, str(e)))
        self.flat_faults = faults
        return [(g, m) for t, g, m in exits]

    def syms_of(self, v):
        out = set()

        def go(x):
            if isinstance(x, DD):
                for a in atoms(x):
                    out.update(tsyms(a))
                for l in leaves(x):
                    out.update(tsyms(l))
            elif isinstance(x, T):
                out.update(tsyms(x))
            elif isinstance(x, Sym):
                out.update(tsyms(x.t))
            elif isinstance(x, Agg):
                for y in x.fs:
                    go(y)
            elif isinstance(x, Enum):
                go(x.disc)
                for y in x.vs:
                    for z in (y or ()):
                        go(z)
            else:
                raise Unknown("a %s is carried into an inner loop" % type(x).__name__)
        go(v)
        return out

    def agree(self, g, a, b):
        """a and b are the same value wherever g holds"""
        if a is b:
            return True
        if isinstance(a, DD) and isinstance(b, DD):
            d = prune(dand(g, apply(None, lambda u, v: FALSE if u is v else TRUE, a, b)))
            return d is DF or d is DBOT
        if isinstance(a, Sym) or isinstance(b, Sym):
            a2, b2 = self.expand(a), self.expand(b)
            return (a2 is not a or b2 is not b) and self.agree(g, a2, b2)
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fs) == len(b.fs):
            return all(self.agree(g, x, y) for x, y in zip(a.fs, b.fs))
        return False

    def run_block(self, fr, bi, c, b):
        body = self.bodies[bi]
        bl = body["blocks"][b]
        for s in bl["s"]:
            self.stmt(fr, body, s)
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], self.guard, self.mem)]
        if k == "ret":
            return [("ret", self.guard, self.mem)]
        if k == "sw":
            return self.switch(fr, bi, c, b, t)
        if k == "drop":
            self.line = t[4]
            self.M.drop(self, fr, t)
            return [(t[3], self.guard, self.mem)]
        if k == "assert":
            op, exp, kind, tgt = t[1], t[2], t[3], t[4]
            self.line = t[5]
            cond = self.operand(fr, op)
            if isinstance(cond, DD) and cond is not (DT if exp else DF) and kind != "Overflow":
                self.log("assert", kind, cond if exp else dnot(cond))
            return [(tgt, self.guard, self.mem)]
        if k == "call":
            callee, args, dest, tgt = t[1], t[2], t[3], t[4]
            self.line = t[5]
            vals = [self.operand(fr, a) for a in args]
            tys = [self.op_ty(fr, a) for a in args]
            dty = self.place_ty(fr, dest)
            r = self.call(fr, callee, vals, tys, dty)
            if tgt is None or tgt not in c.live:
                return []
            if self.guard is DF:
                return []
            self.write_place(fr, dest, r)
            return [(tgt, self.guard, self.mem)]
        return []

    def stmt(self, fr, body, s):
        if s[0] == "=":
            self.line = s[3]
            dty = self.place_ty(fr, s[1])
            v = self.rvalue(fr, s[2], dty)
            self.write_place(fr, s[1], v)
        elif s[0] == "setd":
            v = self.expand(self.read_place(fr, s[1]))
            if isinstance(v, Enum):
                self.write_place(fr, s[1], enum(v.ty, leaf(const(s[2])), v.vs))
        elif s[0] == "copy":
            self.M.copy_nonoverlapping(self, self.operand(fr, s[1]), self.operand(fr, s[2]), self.operand(fr, s[3]))

    def switch(self, fr, bi, c, b, t):
        op, ty, vals, other, line = t[1], t[2], t[3], t[4], t[5]
        self.line = line
        v = self.operand(fr, op)
        if not isinstance(v, DD):
            raise Unknown("switch on %s" % type(v).__name__)
        v = restrict(v, self.guard)
        out = []
        rest = self.guard
        isb = self.types[ty]["k"] == "bool"
        live = c.live
        edges = []
        for val, tgt in vals:
            x = int(val)
            if isb:
                cond = v if x else dnot(v)
            else:
                if self.signed(ty) and x >= 1 << (self.bits(ty) - 1):
                    x -= 1 << self.bits(ty)
                cond = apply(None, lambda l: cmp_eq(l, const(x), False), v)
            edges.append((cond, tgt))
        oc = DT
        for cond, _ in edges:
            oc = dand(oc, dnot(cond))
        edges.append((oc, other))
        edges = [(restrict(cond, self.guard) if cond.atom is not None else cond, tgt) for cond, tgt in edges]
        alive = [(cond, tgt) for cond, tgt in edges if tgt in live and cond is not DF and cond is not DBOT]
        # panicking / unreachable alternatives are assumptions
        if len({tgt for _, tgt in alive}) == 1:
            if len(alive) < len([1 for cond, _ in edges if cond is not DF]):
                self.log("assume", alive[0][0])
            return [(alive[0][1], self.guard, self.mem)]
        if len(alive) < len([1 for cond, _ in edges if cond is not DF]):
            tot = DF
            for cond, _ in alive:
                tot = dor(tot, cond)
            self.log("assume", tot)
            alive = [(restrict(cond, tot), tgt) for cond, tgt in alive]
        self.decided = getattr(self, "decided", None)
        return [(tgt, dand(self.guard, cond), self.mem if i == len(alive) - 1 else dict(self.mem))
                for i, (cond, tgt) in enumerate(alive)]

    # ------------------------------------------------------------ loops
    def skip_loop(self, fr, bi, c, h, g0, m0):
        """leave a loop without reading it: what it writes to locals is unknown afterwards, what it
        writes elsewhere is for the rule that asked for this to account for"""
        b = self.bodies[bi]
        blocks = set(c.orders[h]) | {h}
        defs = set()
        for k in blocks:
            bl = b["blocks"][k]
            for s in bl["s"]:
                if s[0] == "=":
                    if not any(e and e[0] == "*" for e in s[1][1]):
                        defs.add(s[1][0])
                    r = s[2]
                    if r[0] == "ref" and not any(e and e[0] == "*" for e in r[2][1]):
                        defs.add(r[2][0])
            t = bl["t"]
            if t and t[0] == "call" and not any(e and e[0] == "*" for e in t[3][1]):
                defs.add(t[3][0])
        outs = sorted({y for k in blocks for y in c.succ[k] if y not in blocks and y in c.live})
        if not outs:
            raise Unknown("a loop that never ends")
        self.nloop += 1
        self.log("skipped", b["path"], h, dict(m0))
        res, left = [], g0
        for n, y in enumerate(outs):
            m = dict(m0)
            for l in defs:
                key = ("l", fr, l)
                if l in c.live_in(y):
                    m[key] = self.make(b["locals"][l], mk("v", "skipped", self.nloop, l))
                else:
                    m.pop(key, None)
            a = batom(mk("brk", self.nloop, n)) if n < len(outs) - 1 else DT
            res.append((y, dand(left, a), m))
            left = dand(left, dnot(a))
        return res

    def run_loop(self, fr, bi, c, h, g0, m0):
        if self.skips is not None and self.skips(bi, c, h):
            return self.skip_loop(fr, bi, c, h, g0, m0)
        order = c.orders[h]

        def body(g, m):
            outs = self.run_region(fr, bi, c, order, h, h, g, m)
            backs = outs.pop("back", [])
            exits = [(t, g2, m2) for t, l in outs.items() for g2, m2 in l]
            return backs, exits
        return self.loop(body, g0, m0, (self.bodies[bi]["path"], h, fr))

    def loop(self, body, g0, m0, where):
        """where: (function, header, frame)"""
        r = self.try_unroll(body, g0, m0)
        if r is not None:
            return r
        return self.sym_loop(body, g0, m0, where)

    UNROLL = 24

    def try_unroll(self, body, g0, m0):
        nev = len(self.events)
        nl = self.nloop
        out = []
        g, m = g0, m0
        forms = {}
        for n in range(self.UNROLL):
            backs, exits = body(g, dict(m))
            if not backs:
                if n == 0:
                    pass
                return out + exits
            gb, mb = self.merge(backs)
            # continue only while some test of the loop is decided: the iteration either cannot
            # leave at its counting exit, or leaves only through data dependent early exits
            if exits and self.implies(g, gb) is False and not self.counted(body, g, gb, m, mb, exits):
                del self.events[nev:]
                return None
            if gb is DF:
                return out + exits
            if exits and n < 3:
                # the same quantity is compared with another constant each time: a symbolic bound
                new = {}
                for at in set(atoms(restrict(gb, g))) - set(atoms(g)):
                    if at.op == "ilt" and not isinstance(at.a[1], T):
                        new[at.a[0]] = at.a[1]
                if n and any(forms.get(f, c) != c for f, c in new.items()):
                    del self.events[nev:]
                    return None
                forms = new
            if not exits and n >= 1 and not self.progress(m, mb):
                del self.events[nev:]
                return None
            out += exits
            g, m = gb, mb
        del self.events[nev:]
        return None

    def implies(self, a, b):
        """a -> b"""
        return ite(a, b, DT) is DT

    def progress(self, m, mb):
        return True

    def counted(self, body, g, gb, m, mb, exits):
        """the loop has a counter with constant bounds: some integer state component is a constant
        before and a different constant after the iteration"""
        for k, v in m.items():
            w = mb.get(k)
            if w is None or v is w:
                continue
            if self._const_step(v, w):
                return True
        return False

    def _const_step(self, v, w):
        if isinstance(v, DD) and isinstance(w, DD):
            return v.atom is None and w.atom is None and v.leaf.op == "poly" and w.leaf.op == "poly" \
                and is_const(v.leaf) and is_const(w.leaf) and cval(v.leaf).denominator == 1 \
                and abs(cval(v.leaf) - cval(w.leaf)) == 1 and self._bounded(v)
        if isinstance(v, Agg) and isinstance(w, Agg) and len(v.fs) == len(w.fs):
            if isinstance(v.ty, tuple) and v.ty[0] == "it":
                e = v.fs[1]
                return self._const_step(v.fs[0], w.fs[0]) and e.atom is None and is_const(e.leaf)
            if isinstance(v.ty, int) and self.types[v.ty].get("path") == "std::ops::Range":
                return all(isinstance(f, DD) and f.atom is None and is_const(f.leaf) for f in v.fs) and v is not w
            return False
        return False

    def _bounded(self, v):
        return True

    def sym_loop(self, body, g0, m0, where):
        self.nloop += 1
        lid = self.nloop
        rec = LoopRec()
        rec.id, rec.fn, rec.where = lid, where[0], where
        rec.g0 = g0
        self.loops[lid] = rec
        kt = mk("it", lid)
        INT_LO[kt] = Fraction(0)
        K = atom(kt)
        mus = {}                 # (region, path) -> [mu term, init, header value, kind]
        nev = len(self.events)
        self.loopstack.append(lid)
        try:
            for rnd in range(12):
                m = dict(m0)
                for (r, p), info in mus.items():
                    m[r] = self.lset(m[r], p, info[2])
                del self.events[nev:]
                hdr = dict(m)
                backs, exits = body(g0, m)
                if not backs:
                    # the body never comes back: not a loop after all
                    return exits if not mus else self.close_loop(rec, mus, None, exits, g0, kt, None)
                gb, mb = self.merge(backs)
                new = []
                for r, v in m0.items():
                    hv, nv = hdr[r], mb.get(r)
                    if nv is None or nv is hv:
                        continue
                    self.diff(hv, nv, (), r, new, gb)
                for r in mb:
                    if isinstance(r, T) and r not in m0:
                        hv = self.region_default(r)
                        if hv is not None and mb[r] is not hv:
                            m0[r] = hv
                            self.diff(hv, mb[r], (), r, new, gb)
                            new.append(None) if not new else None
                added = False
                for n in new:
                    if n is None:
                        added = True
                        continue
                    (r, p), kind = n
                    # a prefix that is already replaced is fine
                    if any(r == r2 and p[:len(p2)] == p2 for (r2, p2) in mus):
                        continue
                    for key in [q for q in mus if q[0] == r and q[1][:len(p)] == p]:
                        del mus[key]
                    init = self.lget(m0[r], p)
                    mt = mk("mu", lid, _Key((r, p)))
                    mus[(r, p)] = [mt, init, self.mu_value(init, mt, kind, r, p, lid), kind]
                    added = True
                if added:
                    continue
                # induction variables
                subs = {}
                for (r, p), info in mus.items():
                    if info[3] != "scalar" or info[2] is not leaf(atom(info[0])):
                        continue
                    nv = self.lget(mb[r], p)
                    d = restrict(nv, gb) if isinstance(nv, DD) else nv
                    if d.atom is None and d.leaf.op == "poly":
                        step = psub(d.leaf, atom(info[0]))
                        if is_const(step) and cval(step) != 0 and cval(step).denominator == 1:
                            subs[(r, p)] = apply(None, lambda x: padd(x, pscale(K, cval(step))), info[1])
                if subs:
                    for key, v in subs.items():
                        mus[key][2] = v
                        mus[key].append("ind")
                    continue
                return self.close_loop(rec, mus, (gb, mb, hdr), exits, g0, kt, nev)
            raise Unknown("loop does not stabilise")
        finally:
            self.loopstack.pop()

    def lget(self, v, p):
        for e in p:
            if e[0] in ("len", "arr"):
                v = self.expand(v)
                v = self.to_coll(v) if isinstance(v, Agg) else v
                v = v.len if e[0] == "len" else v.arr
            elif e[0] == "pidx":
                v = leaf(v.leaf.a[1][-1][1])
            elif e[0] == "vf":
                v = self.expand(v)
                v = v.vs[e[1]][e[2]]
            else:
                v = self.vget1(v, e)
        return v

    def lset(self, v, p, new):
        if not p:
            return new
        e = p[0]
        if e[0] in ("len", "arr"):
            v = self.expand(v)
            v = self.to_coll(v) if isinstance(v, Agg) else v
            return coll(new, v.arr) if e[0] == "len" else coll(v.len, new)
        if e[0] == "pidx":
            l = v.leaf
            return apply(None, lambda i: mk("ref", l.a[0], l.a[1][:-1] + (("i", i),)), new)
        v = self.expand(v)
        if e[0] == "vf":
            vs = [None if x is None else list(x) for x in v.vs]
            vs[e[1]][e[2]] = self.lset(vs[e[1]][e[2]], p[1:], new)
            return enum(v.ty, v.disc, vs)
        fs = list(v.fs)
        fs[e[1]] = self.lset(fs[e[1]], p[1:], new)
        return agg(v.ty, fs)

    def diff(self, a, b, p, r, out, gb):
        if a is b:
            return
        if a is None or b is None:
            return
        if isinstance(a, _Poison) or isinstance(b, _Poison):
            return
        if isinstance(a, DD) and isinstance(b, DD):
            if restrict(a, gb) is restrict(b, gb):
                return
            la, lb = leaves(a), leaves(b)
            if a.atom is None and b.atom is None and a.leaf.op == "ref" and b.leaf.op == "ref":
                x, y = a.leaf, b.leaf
                if x.a[0] is y.a[0] and x.a[1][:-1] == y.a[1][:-1] and x.a[1] and x.a[1][-1][0] == "i" == y.a[1][-1][0]:
                    out.append(((r, p + (("pidx",),)), "scalar"))
                    return
            kind = "bool" if all(l in (TRUE, FALSE) for l in la) else \
                "ref" if any(l.op in PTR_OPS for l in la) else "scalar"
            out.append(((r, p), kind))
            return
        if isinstance(a, Sym) and isinstance(b, Sym) and a.ty == b.ty:
            out.append(((r, p), "sym"))
            return
        a, b = self.expand(a), self.expand(b)
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fs) == len(b.fs):
            for i, (x, y) in enumerate(zip(a.fs, b.fs)):
                self.diff(x, y, p + (("f", i),), r, out, gb)
            return
        if isinstance(a, Enum) and isinstance(b, Enum):
            same = a.disc is b.disc and a.disc.atom is None and is_const(a.disc.leaf)
            if same:
                vi = int(cval(a.disc.leaf))
                if a.vs[vi] is not None and b.vs[vi] is not None:
                    for i, (x, y) in enumerate(zip(a.vs[vi], b.vs[vi])):
                        self.diff(x, y, p + (("vf", vi, i),), r, out, gb)
                    return
            out.append(((r, p), "sym"))
            return
        if isinstance(a, Coll) and isinstance(b, Coll):
            if a.len is not b.len:
                self.diff(a.len, b.len, p + (("len",),), r, out, gb)
            if a.arr is not b.arr:
                out.append(((r, p + (("arr",),)), "arr"))
            return
        raise Unknown("loop changes the shape of a value")

    def mu_value(self, init, mt, kind, r, p, lid):
        if kind == "arr":
            return arr(mt, init.ety)
        if kind == "bool":
            return batom(mt)
        if kind == "sym":
            ty = init.ty
            if isinstance(ty, int):
                return self.make(ty, mt)
            raise Unknown("loop variable without a type")
        if kind == "ref":
            l = [x for x in leaves(init) if x.op in PTR_OPS]
            if l and l[0].op == "sref":
                ln = mk("len", mt)
                INT_LO.setdefault(ln, Fraction(0))
                reg = mk("deref", mt)
                ety = self.coll_ety(l[0])
                self.rty_slice(reg, l[0])
                return leaf(mk("sref", reg, (), ZERO, atom(ln)))
            reg = mk("deref", mt)
            ty = self.ref_ty(l[0]) if l else None
            if ty is not None:
                self.rty.setdefault(reg, ty)
            return leaf(mk("ref", reg, ()))
        lo = None
        for l in leaves(init):
            if l.op == "poly" and is_const(l) and cval(l) == 0 and False:
                lo = 0
        return leaf(atom(mt))

    def coll_ety(self, l):
        return None

    def rty_slice(self, reg, l):
        t = self.rty.get(l.a[0])
        if t is not None and not l.a[1]:
            self.rty.setdefault(reg, t)

    def ref_ty(self, l):
        """type of the place a reference points to, if it can be told"""
        t = self.rty.get(l.a[0])
        if t is None and isinstance(l.a[0], tuple):
            try:
                t = self.body_of(l.a[0][1])["locals"][l.a[0][2]]
            except Unknown:
                return None
        for e in l.a[1]:
            if t is None:
                return None
            k = self.types[t]
            if e[0] == "f":
                t = e[2] if len(e) > 2 else None
            elif e[0] == "i":
                t = k.get("e") if k.get("e") is not None else (k["args"][0] if k.get("args") else None)
            else:
                return None
        return t

    def close_loop(self, rec, mus, back, exits, g0, kt, nev):
        """derive trip count, folds and last-update values; returns the exit edges"""
        lid = rec.id
        rec.k = kt
        rec.mus = mus
        rec.back = back
        rec.raw_exits = exits
        if back is None:
            return exits
        gb, mb, hdr = back
        musyms = {info[0] for info in mus.values()}
        nexts = {}
        for (r, p), info in mus.items():
            if r in mb and not isinstance(mb[r], _Poison):
                nexts[(r, p)] = self.lget(mb[r], p)
        rec.next = nexts
        rec.header = {key: info[2] for key, info in mus.items()}
        rec.init = {key: info[1] for key, info in mus.items()}
        rec.gback = gb
        # --- counting exit
        rb = restrict(gb, g0) if g0 is not DT else gb
        N = lit = None
        for at in atoms(rb):
            if at.op == "ilt" and kt in tsyms(at) and not (tsyms(at) & musyms):
                s, R = self.linear(at.a[0], kt)
                if s not in (1, -1):
                    continue
                c = at.a[1]
                if s == 1 and assign(rb, {at: False}) is DF:
                    N, lit = psub(const(c), R), batom(at)
                    break
                if s == -1 and assign(rb, {at: True}) is DF:
                    N, lit = padd(psub(R, const(c)), ONE), dnot(batom(at))
                    break
        rec.trip = N
        rec.counter = lit
        # --- summaries of the remaining loop variables
        exitv = {}
        grp = {}
        for key, info in mus.items():
            if len(info) > 4 or self.raw_loops:
                continue
            nv = nexts.get(key)
            if nv is None:
                continue
            mt = info[0]
            if info[3] == "arr":
                e = self.arr_summary(mt, info, nv, kt, N, musyms)
                if e is not None:
                    exitv[mt] = e
                continue
            if info[3] == "scalar" and isinstance(nv, DD):
                d = restrict(nv, gb)
                e = self.fold_summary(mt, info[1], d, kt, musyms)
                if e is not None:
                    exitv[mt] = e
                    continue
        # last update
        always = set()
        for key, info in mus.items():
            mt = info[0]
            if len(info) > 4 or mt in exitv or info[3] == "arr" or self.raw_loops:
                continue
            nv = nexts.get(key)
            e = self.last_update(lid, mt, info, nv, gb, kt, musyms, exitv)
            if e is not None:
                exitv[mt] = e
                always.add(mt)
        rec.exitv = exitv

        def at_exit(cnt):
            m = {}
            for mt, e in exitv.items():
                m[mt] = e(cnt)
            return m
        rec.summary = at_exit
        # values seen inside the loop body by events: partial summaries up to iteration k
        out = []
        nb = 0
        early = []
        counted = []
        for x in exits:
            g = restrict(x[1], g0) if g0 is not DT else x[1]
            if lit is not None and dand(g, lit) is DF:
                counted.append(x)
            else:
                early.append(x)
        brk = DF
        rec.exits = []
        mkn = at_exit(K_atom(kt))
        for i, (t, g, m) in enumerate(early):
            if len(early) == 1 and not counted:
                c = DT
            elif i == len(early) - 1 and not counted:
                c = dnot(brk)
            else:
                a = batom(mk("brk", lid, i))
                c = dand(a, dnot(brk))
                brk = dor(brk, a)
            sub = Subst(mkn, self.make) if mkn else None
            m2 = self.submem(m, sub) if sub else m
            rec.exits.append((t, restrict(g, g0) if g0 is not DT else g, m))
            out.append((t, dand(g0, c), m2))
        if counted:
            # a loop whose first test already fails leaves with the values it started with
            lit0 = DT
            if self.may_be_negative(N):
                lit0 = Subst({kt: leaf(const(0))}, self.make).d(lit)
                lit0 = restrict(lit0, g0) if g0 is not DT else lit0
            mN = at_exit(N)
            mN[kt] = ite(lit0, leaf(N), leaf(const(0)))
            for (r, p), info in mus.items():
                if info[0] in mN and info[0] in always and lit0 is not DT:
                    mN[info[0]] = self.ite_v(lit0, mN[info[0]], info[1])
            sub = Subst(mN, self.make)
            for t, g, m in counted:
                gg = restrict(g, dand(g0, dnot(lit)))
                gg = sub.d(gg) if len(counted) > 1 else DT
                out.append((t, dand(dand(g0, dnot(brk)), gg), self.submem(m, sub)))
        return out

    def may_be_negative(self, N):
        """can the number of rounds a counting test allows come out below zero"""
        lo = Fraction(0)
        for mono, c in aspoly(N).a[0]:
            x = Fraction(c)
            for a, e in mono:
                if INT_LO.get(a) is None or INT_LO[a] < 0 or c < 0 or e < 0:
                    return True
                x *= INT_LO[a] ** e
            lo += x
        return lo < 0

    def submem(self, m, sub):
        out = {}
        for k, v in m.items():
            if isinstance(v, _Poison):
                out[k] = v
                continue
            if v is not None and vsyms(v) & sub.keys:
                try:
                    out[k] = sub.v(v)
                except Unknown:
                    if isinstance(k, tuple):
                        out[k] = _Poison(v, v)
                    else:
                        raise
            else:
                out[k] = v
        return out

    def bound_var(self, body):
        d = 0
        for s in ddsyms(body):
            if s.op == "b":
                d = max(d, s.a[0])
        b = mk("b", d + 1)
        INT_LO[b] = Fraction(0)
        return b

    def fold_summary(self, mt, init, d, kt, musyms):
        """next value of a scalar as min/max/sum fold over the iterations"""
        M = atom(mt)
        op = None
        filt = []

        def classify(l):
            nonlocal op
            if l is M:
                return mk("skip")
            if l.op != "poly":
                raise Unknown("")
            s = single(l)
            if s is not None and s.op in ("min", "max") and M in s.a:
                o = s.op
                rest = [x for x in s.a if x is not M]
                f = rest[0]
                for x in rest[1:]:
                    f = pmin(f, x) if o == "min" else pmax(f, x)
            else:
                f = psub(l, M)
                o = "sum"
            if tsyms(f) & musyms:
                raise Unknown("")
            if op is not None and op != o:
                raise Unknown("")
            op = o
            return f
        try:
            body = apply(None, classify, d)
        except Unknown:
            return None
        if op is None:
            return None
        if any(a2 for a2 in atoms(body) if tsyms(a2) & musyms):
            return None
        b = self.bound_var(body)

        def value(cnt, body=body, op=op, init=init):
            x = self.substv(body, {kt: leaf(atom(b))})
            if b not in ddsyms(x) and op in ("min", "max") and x.atom is None:
                pass
            t = mk("fold", op, cnt, b, x)
            if op == "sum" and all(l.op == "skip" or (is_const(l) and cval(l) >= 0) for l in leaves(x)):
                INT_LO.setdefault(t, Fraction(0))
            f = atom(t)
            return apply(None, {"min": pmin, "max": pmax, "sum": padd}[op], init, leaf(f))
        return value

    def arr_summary(self, mt, info, nv, kt, N, musyms):
        if not isinstance(nv, Arr) or nv.base is not mt:
            return None
        init = info[1]
        es = nv.ents
        for e in es:
            if e[0] == "loop":
                return None
            if _entsyms(e) & musyms:
                return None
        if not all(e[0] == "w" for e in es):
            return None

        def value(cnt):
            b = mk("b", 1 + max([s.a[0] for e in es for s in _entsyms(e) if s.op == "b"] or [0]))
            INT_LO[b] = Fraction(0)
            sub = Subst({kt: leaf(atom(b))}, self.make)
            return arr(init.base, init.ety, init.ents + (("loop", b, cnt, tuple(sub.ent(e) for e in es)),))
        return value

    def last_update(self, lid, mt, info, nv, gb, kt, musyms, exitv):
        kind = info[3]
        init = info[1]
        cur = info[2]
        try:
            c, x = self.split_update(nv, cur, gb)
        except Unknown:
            return None
        if c is None or (vsyms(x) & musyms - set(exitv)):
            return None
        ks = mk("it", ("last", lid, _Key(c)))
        INT_LO[ks] = Fraction(0)
        u = mk("upd?", lid, _Key(c))
        self.loops[lid].__dict__.setdefault("lasts", {})[u] = (c, ks)

        def value(cnt, x=x, ks=ks, u=u, init=init):
            y = self.substv(x, {kt: leaf(atom(ks))})
            return self.ite_v(batom(u) if c is not DT else DT, y, init)
        return value

    def split_update(self, nv, cur, gb):
        """nv = ite(c, x, cur) with one condition c; returns (c, x)"""
        if isinstance(nv, DD):
            d = restrict(nv, gb)
            if d is cur:
                return None, None
            c = apply(None, lambda l: FALSE if l is (cur.leaf if cur.atom is None else None) else TRUE, d)
            x = restrict(d, c)
            return c, x
        raise Unknown("")

    # ------------------------------------------------------------ calls
    def call(self, fr, callee, vals, tys, dty):
        if callee["k"] == "ptr":
            op = self.operand(fr, callee["op"])
            return self.call_value(op, vals, tys, dty)
        return self.M.dispatch(self, fr, callee, vals, tys, dty)

    def call_value(self, f, vals, tys, dty):
        """call of a function value (closure, fn item, fn pointer)"""
        if isinstance(f, Agg) and isinstance(f.ty, tuple) and f.ty[0] == "closure":
            bi = f.ty[2]
            if bi is None:
                bi = self.closures.get(f.ty[1])
            if bi is None:
                raise Unknown("closure body %s" % f.ty[1])
            return self.call_closure(bi, f, None, vals)
        if isinstance(f, DD) and f.atom is None:
            l = f.leaf
            if l.op == "ref":
                v = self.load(f)
                if isinstance(v, Sym):
                    v = self.expand(v)
                if isinstance(v, Agg) and isinstance(v.ty, tuple) and v.ty[0] == "closure":
                    bi = v.ty[2] if v.ty[2] is not None else self.closures.get(v.ty[1])
                    return self.call_closure(bi, v, f, vals)
                if isinstance(v, DD):
                    f = v
                    l = v.leaf if v.atom is None else l
            if l.op == "fn":
                return self.M.dispatch(self, None, l.a[0].v, vals, tys, dty)
        name = "value:" + (show(f.leaf) if isinstance(f, DD) and f.atom is None else "?")
        h = self.hooks.get(name)
        if h is not None:
            return h(name, vals, tys, dty)
        return self.opaque_call(name, vals, tys, dty)

    def call_closure(self, bi, f, ref, vals):
        b = self.bodies[bi]
        if any(s[2] == bi for s in self.stack):
            raise Unknown("recursive closure")
        h = self.hooks.get(b["path"])
        if h is not None:
            return h(self, f, vals)
        t1 = self.types[b["locals"][1]]
        if t1["k"] in ("ref", "ptr"):
            if ref is None:
                self.frames += 1
                reg = mk("tmp", self.frames)
                self.mem[reg] = f
                ref = leaf(mk("ref", reg, ()))
            return self.call_body(bi, [ref] + list(vals))
        return self.call_body(bi, [f] + list(vals))

    def reify(self, v, ty=None):
        """congruence key of a value (reads through shared references)"""
        if isinstance(v, DD):
            if v.atom is None:
                l = v.leaf
                if l.op in PTR_OPS:
                    return self.reify_ref(l)
                return l
            if any(l.op in PTR_OPS for l in leaves(v)):
                return mk("dd", apply(None, lambda l: self.reify_ref(l) if l.op in PTR_OPS else l, v))
            return mk("dd", v)
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, Agg):
            s = self.whole(v)
            if s is not None:
                return s
            return mk("agg", tuple(self.reify(f) for f in v.fs if f is not None))
        if isinstance(v, Enum):
            return mk("enum", v.disc, tuple(tuple(self.reify(f) for f in x) if x is not None else UNIT for x in v.vs))
        if isinstance(v, Coll):
            return mk("coll", v.len, mk("arr", v.arr))
        return mk("opaquev", _Key(v))

    def whole(self, v):
        """the opaque value an expansion came from, if all of its fields are untouched"""
        base = None
        for i, f in enumerate(v.fs):
            if isinstance(f, DD) and f.atom is None:
                t = single(f.leaf) if f.leaf.op == "poly" else f.leaf
            elif isinstance(f, DD) and f.hi is DT and f.lo is DF:
                t = f.atom
            elif isinstance(f, Sym):
                t = f.t
            elif isinstance(f, Agg):
                t = self.whole(f)
            else:
                return None
            if t is None or t.op != "fld" or t.a[1] != i:
                return None
            if base is not None and t.a[0] is not base:
                return None
            base = t.a[0]
        return base

    def reify_ref(self, l):
        if l.op == "sref":
            v = self.load1(l)
            return mk("refto", self.reify(v))
        v = self.load1(l)
        if v is None:
            return mk("refto", mk("uninit"))
        if isinstance(v, DD) and v.atom is None and v.leaf.op in PTR_OPS and v.leaf is l:
            return mk("refto", l)
        return mk("refto", self.reify(v))

    def opaque_call(self, name, vals, tys, dty, pure=False):
        self.opaque[name] = self.opaque.get(name, 0) + 1
        args = tuple(self.reify(v) for v in vals)
        t = mk("call", name, args)
        self.log("call", name, vals, t)
        if not pure:
            for n, (v, ty) in enumerate(zip(vals, tys or [])):
                k = self.types[ty] if ty is not None else None
                if k is not None and (k["k"] == "ref" and k.get("mut") or k["k"] == "ptr" and k.get("mut")):
                    if isinstance(v, DD):
                        self.havoc(v, mk("post", t, n), k["e"])
        return self.make(dty, t)

    def havoc(self, ref, t, ety):
        for l in leaves(ref):
            if l.op == "ref":
                old = self.vget(self.region(l.a[0]), l.a[1]) if self.region(l.a[0]) is not None else None
                if ety is None:
                    continue
                if self.types[ety]["k"] in ("fnptr", "param") and isinstance(old, Agg):
                    continue
                new = self.make(ety, t)
                if ref.atom is not None:
                    cond = apply(None, lambda x: TRUE if x is l else FALSE, ref)
                    new = self.ite_v(cond, new, old)
                self.store1(l, (), new, DT)
            elif l.op == "sref":
                v = self.expand(self.vget(self.region(l.a[0]), l.a[1]))
                if isinstance(v, Coll):
                    c = coll(v.len, arr(v.arr.base, v.arr.ety, v.arr.ents + (("havoc", DT, l.a[2], l.a[3], t),)))
                    r = l.a[0]
                    self.mem[r] = self.vset(self.region(r), l.a[1], c)
                    self.log("havoc", r, l.a[1], t)


class _Poison:
    """a local whose two incoming values cannot be merged; any use is an error"""
    def __init__(self, a, b):
        self.a, self.b = a, b


class _Key:
    """hashable wrapper with identity-like equality for JSON payloads"""
    __slots__ = ("v", "k")

    def __init__(self, v):
        self.v = v
        if isinstance(v, dict):
            self.k = (v.get("path"), str(v.get("args")), v.get("inst"), v.get("rpath"))
        elif isinstance(v, tuple):
            self.k = v
        else:
            self.k = id(v)

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, _Key) and self.k == o.k

    def __repr__(self):
        return "#%s" % (self.k,)


def k_atom(k):
    return k


def K_atom(k):
    return atom(k)


def _eq_ent(a, b):
    return len(a) == len(b) and all(x is y or (isinstance(x, (tuple, str)) and x == y) for x, y in zip(a, b))


def _entsyms(e):
    from values import _argsyms
    r = frozenset()
    for x in e:
        r = _argsyms(x, r)
    return r


class CFG:
    def __init__(self, body, eng):
        self.b = body
        n = len(body["blocks"])
        succ = {}
        for i, bl in enumerate(body["blocks"]):
            if bl.get("c"):
                succ[i] = []
                continue
            t = bl["t"]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "sw":
                s = [x[1] for x in t[3]] + [t[4]]
            elif k == "drop":
                s = [t[3]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[4]]
            else:
                s = []
            succ[i] = s
        pred = {i: [] for i in range(n)}
        for i, s in succ.items():
            for x in s:
                pred[x].append(i)
        live = set()
        st = [i for i, bl in enumerate(body["blocks"]) if bl["t"][0] == "ret" and not bl.get("c")]
        while st:
            x = st.pop()
            if x in live:
                continue
            live.add(x)
            st += pred[x]
        # loops without exit are live too if they never panic: keep blocks on cycles
        self.live = live
        succ = {i: [x for x in dict.fromkeys(s) if x in live] for i, s in succ.items()}
        self.succ = succ
        # rpo
        order, seen = [], set()
        st = [(0, iter(succ.get(0, [])))]
        seen.add(0)
        back = []
        onst = {0}
        while st:
            x, it = st[-1]
            for y in it:
                if y in onst:
                    back.append((x, y))
                elif y not in seen:
                    seen.add(y)
                    onst.add(y)
                    st.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                onst.discard(x)
                st.pop()
        order.reverse()
        self.rpo = order
        preds = {i: [] for i in order}
        for i in order:
            for y in succ[i]:
                preds[y].append(i)
        # dominators
        idx = {b: i for i, b in enumerate(order)}
        idom = {order[0]: order[0]} if order else {}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds[b] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    a, e = p, d
                    while a != e:
                        while idx[a] > idx[e]:
                            a = idom[a]
                        while idx[e] > idx[a]:
                            e = idom[e]
                    d = a
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom
        self.loops = {}
        self.nodesets = {}
        for u, h in back:
            x = u
            while x != h and x != idom[x]:
                x = idom[x]
            if x != h:
                raise Unknown("irreducible control flow in %s" % body["path"])
            s = self.nodesets.setdefault(h, {h})
            st = [u]
            while st:
                y = st.pop()
                if y in s:
                    continue
                s.add(y)
                st += preds[y]
            self.loops[h] = True
        self.orders = {h: [b for b in order if b in s] for h, s in self.nodesets.items()}

    def live_in(self, blk):
        """locals that may be read before they are written again, starting at a block"""
        if not hasattr(self, "_live"):
            use, deff = {}, {}
            for i in self.succ:
                u, d = set(), set()

                def read(x, d=d, u=u):
                    if isinstance(x, list):
                        if len(x) == 2 and type(x[0]) is int and isinstance(x[1], list):
                            if x[0] not in d:
                                u.add(x[0])
                            for e in x[1]:
                                if e and e[0] == "i" and e[1] not in d:
                                    u.add(e[1])
                            return
                        for y in x:
                            read(y)
                    elif isinstance(x, dict):
                        pass
                bl = self.b["blocks"][i]
                for s in bl["s"]:
                    if s[0] == "=" and not s[1][1]:
                        for y in s[2:]:
                            read(y)
                        d.add(s[1][0])
                    elif s[0] == "=":
                        read(s)
                    elif s[0] in ("live", "dead", "sl", "sd"):
                        continue
                    else:
                        read(s)
                t = bl["t"]
                if t[0] == "call":
                    read(t[2])
                    read(t[1]) if isinstance(t[1], list) else None
                    if t[3][1]:
                        read(t[3])
                    else:
                        d.add(t[3][0])
                elif t[0] == "ret":
                    if 0 not in d:
                        u.add(0)
                else:
                    read(t)
                use[i], deff[i] = u, d
            live = {i: set(use[i]) for i in use}
            ch = True
            while ch:
                ch = False
                for i in live:
                    n = set(use[i])
                    for y in self.succ[i]:
                        n |= live.get(y, set()) - deff[i]
                    if n != live[i]:
                        live[i] = n
                        ch = True
            self._live = live
        return self._live[blk]

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == self.idom[b]:
                return False
            b = self.idom[b]
