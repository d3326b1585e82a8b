"""Hash-consed terms, polynomial normal forms and decision diagrams over comparison atoms.

T  : interned term (operator + arguments).  Numeric leaves are always 'poly' terms.
DD : decision diagram; inner nodes test an atom (a boolean T), leaves are T.  A boolean is a DD
     with leaves TRUE/FALSE.  Everything is canonical up to the order of the atoms, so two ways of
     writing the same selection produce the same object.
Floats are treated as ordered reals (rounding and NaN are outside the domain; NaN handling is
decided by separate rules), integers as unbounded integers.
"""
from fractions import Fraction
import sys

sys.setrecursionlimit(20000)


class Unknown(Exception):
    """The construct is outside the fragment the analysis understands."""


class T:
    __slots__ = ("op", "a", "id", "k")
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op, a)
    t = T._tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        T._n += 1
        t.id = T._n
        t.k = None
        T._tab[key] = t
    return t


TRUE = mk("true")
FALSE = mk("false")
BOT = mk("bot")
UNIT = mk("unit")

# ---------------------------------------------------------------- polynomials
ZERO = mk("poly", ())


def const(c):
    c = Fraction(c)
    return ZERO if c == 0 else mk("poly", (((), c),))


ONE = const(1)


def _build(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    items.sort(key=lambda mc: tuple((t.id, e) for t, e in mc[0]))
    return mk("poly", tuple(items))


def atom(t):
    """poly consisting of one atom"""
    return mk("poly", ((((t, 1),), Fraction(1)),))


def var(*name):
    return atom(mk("v", *name))


def is_poly(t):
    return t.op == "poly"


def is_const(t):
    return t.op == "poly" and (t is ZERO or (len(t.a[0]) == 1 and t.a[0][0][0] == ()))


def cval(t):
    return Fraction(0) if t is ZERO else t.a[0][0][1]


def single(t):
    """the atom of a poly that is exactly one atom, else None"""
    if t.op == "poly" and len(t.a[0]) == 1:
        m, c = t.a[0][0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def aspoly(t):
    return t if t.op == "poly" else atom(t)


def padd(a, b):
    a, b = aspoly(a), aspoly(b)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    d = dict(a.a[0])
    for m, c in b.a[0]:
        d[m] = d.get(m, 0) + c
    return _build(d)


def pscale(a, s):
    a = aspoly(a)
    s = Fraction(s)
    if s == 0:
        return ZERO
    return mk("poly", tuple((m, c * s) for m, c in a.a[0]))


def psub(a, b):
    return padd(a, pscale(b, -1))


def _mmul(m, n):
    d = {}
    for t, e in m:
        d[t] = d.get(t, 0) + e
    for t, e in n:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e), key=lambda te: te[0].id))


def pmul(a, b):
    a, b = aspoly(a), aspoly(b)
    if len(a.a[0]) * len(b.a[0]) > 4000:
        raise Unknown("polynomial too large")
    d = {}
    for m, c in a.a[0]:
        for n, e in b.a[0]:
            k = _mmul(m, n)
            d[k] = d.get(k, 0) + c * e
    return _build(d)


def pinv(a):
    a = aspoly(a)
    if a is ZERO:
        return atom(mk("inf"))
    if len(a.a[0]) == 1:
        m, c = a.a[0][0]
        return mk("poly", ((tuple((t, -e) for t, e in m), 1 / c),))
    lead = a.a[0][0][1]
    p = pscale(a, 1 / lead)
    return mk("poly", ((((mk("P", p), -1),), 1 / lead),))


def pdiv(a, b):
    return pmul(a, pinv(b))


def patoms(t, acc=None):
    """all atoms in a term, recursively"""
    acc = set() if acc is None else acc
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, DD):
            if x.atom is None:
                st.append(x.leaf)
            else:
                st += [x.atom, x.hi, x.lo]
            continue
        if not isinstance(x, T) or x in seen:
            if isinstance(x, tuple):
                st += list(x)
            continue
        seen.add(x)
        acc.add(x)
        for y in x.a:
            if isinstance(y, (T, tuple, DD)):
                st.append(y)
    return acc


# ---------------------------------------------------------------- min / max
def _lat(op, xs):
    s = set()
    for x in xs:
        t = single(x)
        if t is not None and t.op == op:
            s.update(t.a)
        else:
            s.add(x)
    cs = [x for x in s if is_const(x)]
    if len(cs) > 1:
        best = (min if op == "min" else max)(cs, key=cval)
        s -= set(cs)
        s.add(best)
    # absorption: min(a, max(a, ..)) = a
    dual = "max" if op == "min" else "min"
    for x in list(s):
        t = single(x)
        if t is not None and t.op == dual and any(y in s for y in t.a):
            s.discard(x)
    if len(s) == 1:
        return next(iter(s))
    return atom(mk(op, *sorted(s, key=lambda x: x.id)))


def pmin(a, b):
    return _lat("min", (aspoly(a), aspoly(b)))


def pmax(a, b):
    return _lat("max", (aspoly(a), aspoly(b)))


# ---------------------------------------------------------------- integer facts
# Atoms known to be non-negative / bounded integers: filled by the engine.
INT_LO = {}   # T atom -> minimal value
INT_HI = {}   # T atom -> maximal value
IS_FLOAT = set()


def bounds(p):
    """conservative (lo, hi) of an integer poly, None = unbounded"""
    lo, hi = Fraction(0), Fraction(0)
    for m, c in p.a[0]:
        if m == ():
            lo = None if lo is None else lo + c
            hi = None if hi is None else hi + c
            continue
        ml, mh = None, None
        if all(e > 0 for _, e in m):
            if len(m) == 1 and m[0][1] == 1:
                ml, mh = atom_lo(m[0][0]), atom_hi(m[0][0])
            elif all((atom_lo(t) or -1) >= 0 if atom_lo(t) is not None else False for t, _ in m):
                ml = Fraction(0)
        if c < 0:
            ml, mh = mh, ml
        lo = None if lo is None or ml is None else lo + ml * c
        hi = None if hi is None or mh is None else hi + mh * c
    return lo, hi


def atom_lo(t):
    if t in INT_LO:
        return INT_LO[t]
    if t.op == "min" or t.op == "max":
        ls = [bounds(x)[0] for x in t.a]
        if t.op == "min":
            return None if any(l is None for l in ls) else min(ls)
        ls = [l for l in ls if l is not None]
        return max(ls) if ls else None
    return None


def atom_hi(t):
    if t in INT_HI:
        return INT_HI[t]
    if t.op == "min" or t.op == "max":
        ls = [bounds(x)[1] for x in t.a]
        if t.op == "max":
            return None if any(l is None for l in ls) else max(ls)
        ls = [l for l in ls if l is not None]
        return min(ls) if ls else None
    return None


# ---------------------------------------------------------------- decision diagrams
class DD:
    __slots__ = ("atom", "hi", "lo", "leaf", "id")
    _tab = {}
    _n = 0

    def __repr__(self):
        return show_dd(self)


def leaf(t):
    d = DD._tab.get(t)
    if d is None:
        d = DD()
        d.atom = d.hi = d.lo = None
        d.leaf = t
        DD._n += 1
        d.id = DD._n
        DD._tab[t] = d
    return d


DD._limit = 3000000


def reset_budget(n=3000000):
    DD._limit = DD._n + n


DT = leaf(TRUE)
DF = leaf(FALSE)
DBOT = leaf(BOT)


def node(at, hi, lo):
    if hi is lo:
        return hi
    if hi is DBOT:
        return lo
    if lo is DBOT:
        return hi
    if hi.atom is None and lo.atom is None and hi.leaf.op == "poly" and lo.leaf.op == "poly":
        r = _minmax(at, hi.leaf, lo.leaf)
        if r is not None:
            return leaf(r)
    key = (at, hi.id, lo.id)
    d = DD._tab.get(key)
    if d is None:
        d = DD()
        d.atom, d.hi, d.lo, d.leaf = at, hi, lo, None
        DD._n += 1
        d.id = DD._n
        DD._tab[key] = d
        if DD._n > DD._limit:
            raise Unknown("decision diagrams too large")
    return d


def _minmax(at, h, l):
    """node(at, h, l) as min/max when the atom compares h and l"""
    if at.op not in ("flt", "fgt", "ilt"):
        return None
    fl = at.op != "ilt"
    try:
        c = cmp_lt(h, l, fl)
        if c.atom is at and c.hi is DT and c.lo is DF:
            return pmin(h, l)
        if c.atom is at and c.hi is DF and c.lo is DT:
            return pmax(h, l)      # at <=> !(h<l)
        c = cmp_lt(l, h, fl)
        if c.atom is at and c.hi is DT and c.lo is DF:
            return pmax(h, l)
        if c.atom is at and c.hi is DF and c.lo is DT:
            return pmin(h, l)
    except Unknown:
        pass
    return None


_BUSY = [0]
_memo_ite = {}
_memo_ap = {}


def top(*ds):
    best = None
    for d in ds:
        if d.atom is not None and (best is None or d.atom.id < best.id):
            best = d.atom
    return best


def cof(d, at):
    if d.atom is at:
        return d.hi, d.lo
    return d, d


def ite(c, a, b):
    if c is DT:
        return a
    if c is DF:
        return b
    if a is b:
        return a
    if a is DT and b is DF:
        return c
    if a is DBOT:
        return b
    if b is DBOT:
        return a
    key = (c.id, a.id, b.id)
    r = _memo_ite.get(key)
    if r is None:
        if c.atom is None:
            if c.leaf is BOT:
                return DBOT
            raise Unknown("non-boolean condition %r" % (c,))
        at = top(c, a, b)
        ch, cl = cof(c, at)
        ah, al = cof(a, at)
        bh, bl = cof(b, at)
        r = node(at, ite(ch, ah, bh), ite(cl, al, bl))
        _memo_ite[key] = r
    return r


def dnot(a):
    return ite(a, DF, DT)


def dand(a, b):
    return ite(a, b, DF)


def dor(a, b):
    return ite(a, DT, b)


def dxor(a, b):
    return ite(a, dnot(b), b)


def apply(tag, f, *ds):
    """Lift a function on leaves to decision diagrams.  f may return a T or a DD."""
    return _apply((tag,) if tag is not None else None, f, ds, _memo_ap if tag is not None else {})


def _apply(tag, f, ds, memo):
    key = tuple(d.id for d in ds)
    if tag is not None:
        key = tag + key
    r = memo.get(key)
    if r is not None:
        return r
    at = top(*ds)
    if at is None:
        if any(d.leaf is BOT for d in ds):
            r = DBOT
        else:
            r = f(*[d.leaf for d in ds])
            if isinstance(r, T):
                r = leaf(r)
    else:
        hs, ls = [], []
        for d in ds:
            h, l = cof(d, at)
            hs.append(h)
            ls.append(l)
        h = _apply(tag, f, hs, memo)
        l = _apply(tag, f, ls, memo)
        # results may test atoms above `at`
        th = top(h, l)
        if th is not None and th.id <= at.id:
            r = ite(node(at, DT, DF), h, l)
        else:
            r = node(at, h, l)
    memo[key] = r
    return r


def leaves(d, acc=None):
    acc = {} if acc is None else acc
    st, seen = [d], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.atom is None:
            acc[x.leaf] = True
        else:
            st += [x.hi, x.lo]
    return list(acc)


def atoms(d, acc=None):
    acc = {} if acc is None else acc
    st, seen = [d], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.atom is not None:
            acc[x.atom] = True
            st += [x.hi, x.lo]
    return list(acc)


def size(d):
    st, seen = [d], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.atom is not None:
            st += [x.hi, x.lo]
    return len(seen)


def restrict(d, care, memo=None):
    """Simplify d where care is false (Coudert/Madre restrict)."""
    if care is DT or d.atom is None:
        return d
    if care is DF:
        return DBOT
    memo = {} if memo is None else memo
    key = (d.id, care.id)
    r = memo.get(key)
    if r is None:
        at = top(d, care)
        ch, cl = cof(care, at)
        if ch is DF:
            r = restrict(cof(d, at)[1], cl, memo)
        elif cl is DF:
            r = restrict(cof(d, at)[0], ch, memo)
        elif d.atom is not at:
            r = restrict(d, dor(ch, cl), memo)
        else:
            r = node(at, restrict(d.hi, ch, memo), restrict(d.lo, cl, memo))
        memo[key] = r
    return r


def assign(d, val, memo=None):
    """partially evaluate: val maps atom -> True/False"""
    if d.atom is None:
        return d
    memo = {} if memo is None else memo
    r = memo.get(d.id)
    if r is None:
        v = val.get(d.atom)
        if v is True:
            r = assign(d.hi, val, memo)
        elif v is False:
            r = assign(d.lo, val, memo)
        else:
            r = node(d.atom, assign(d.hi, val, memo), assign(d.lo, val, memo))
        memo[d.id] = r
    return r


def paths(d, limit=200000):
    """all (assignment dict, leaf) paths of the diagram"""
    out = []
    st = [(d, ())]
    while st:
        x, p = st.pop()
        if x.atom is None:
            out.append((dict(p), x.leaf))
            if len(out) > limit:
                raise Unknown("too many paths")
        else:
            st.append((x.lo, p + ((x.atom, False),)))
            st.append((x.hi, p + ((x.atom, True),)))
    return out


def batom(t):
    return node(t, DT, DF)


# ---------------------------------------------------------------- comparisons
_memo_lt = {}


def _splitc(p):
    """(non-constant part, constant)"""
    d = dict(p.a[0])
    c = d.pop((), Fraction(0))
    return _build(d), c


def cmp_lt(a, b, fl):
    """a < b as a DD; fl: floats"""
    a, b = aspoly(a), aspoly(b)
    d = psub(a, b)
    key = (d, fl)
    r = _memo_lt.get(key)
    if r is None:
        r = _lt0(d, fl)
        _memo_lt[key] = r
    return r


def _lt0(d, fl):
    """d < 0"""
    if is_const(d):
        return DT if cval(d) < 0 else DF
    # distribute over min/max
    for m, c in d.a[0]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("min", "max"):
            t = m[0][0]
            rest = psub(d, mk("poly", ((m, c),)))
            parts = [cmp_lt(padd(rest, pscale(x, c)), ZERO, fl) for x in t.a]
            # c>0: rest + c*max < 0 iff all ; min -> any.  c<0 flips
            conj = (t.op == "max") == (c > 0)
            r = parts[0]
            for p in parts[1:]:
                r = dand(r, p) if conj else dor(r, p)
            return r
    if fl:
        infs = [(m, c) for m, c in d.a[0] if len(m) == 1 and m[0][0].op == "inf"]
        if len(infs) == 1:
            return DT if infs[0][1] < 0 else DF
        lead = d.a[0][-1][1]
        p = pscale(d, 1 / abs(lead))
        if lead > 0:
            return batom(mk("flt", p))
        return batom(mk("fgt", pscale(p, -1)))
    lo, hi = bounds(d)
    if hi is not None and hi < 0:
        return DT
    if lo is not None and lo >= 0:
        return DF
    L, c = _splitc(d)
    # L + c < 0
    lead = L.a[0][-1][1]
    if all(x[1].denominator == 1 for x in L.a[0]) and c.denominator == 1:
        pass
    L = pscale(L, 1)
    if lead > 0:
        # L < -c
        return _ilt(L, -c)
    # -L' + c < 0  <=>  L' > c  <=> !(L' < c+1)   (integers)
    return dnot(_ilt(pscale(L, -1), c + 1))


def _ilt(L, c):
    lo, hi = bounds(L)
    if hi is not None and hi < c:
        return DT
    if lo is not None and lo >= c:
        return DF
    return batom(mk("ilt", L, c))


def cmp_le(a, b, fl):
    return dnot(cmp_lt(b, a, fl))


def cmp_eq(a, b, fl):
    if a is b:
        return DT
    if a.op != "poly" and b.op != "poly":
        x, y = (a, b) if a.id < b.id else (b, a)
        return batom(mk("eq", x, y))
    if fl:
        # NaN-aware callers use other means
        return dand(dnot(cmp_lt(a, b, True)), dnot(cmp_lt(b, a, True)))
    return dand(dnot(cmp_lt(a, b, False)), dnot(cmp_lt(b, a, False)))


# ---------------------------------------------------------------- feasibility
def feasible(asg):
    """Is an assignment of atoms consistent with the integer/real order (per linear form)?"""
    lo, hi = {}, {}
    for t, v in asg.items():
        if t.op == "ilt":
            L, c = t.a
            if v:
                hi[L] = min(hi.get(L, c - 1), c - 1)
            else:
                lo[L] = max(lo.get(L, c), c)
        elif t.op in ("flt", "fgt"):
            pass
    for L in set(lo) | set(hi):
        l, h = bounds(L)
        l = max([x for x in (l, lo.get(L)) if x is not None], default=None)
        h = min([x for x in (h, hi.get(L)) if x is not None], default=None)
        if l is not None and h is not None and l > h:
            return False
    for t, v in asg.items():
        if v and t.op == "flt":
            o = mk("fgt", t.a[0])
            if asg.get(o):
                return False
    return True


# ---------------------------------------------------------------- substitution
def subst(t, f, memo):
    """Rebuild term t; f(atom) returns a replacement poly/T/DD-free term or None."""
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "poly":
        acc = ZERO
        for m, c in t.a[0]:
            p = const(c)
            for x, e in m:
                y = subst(x, f, memo)
                y = aspoly(y)
                if e < 0:
                    y = pinv(y)
                for _ in range(abs(e)):
                    p = pmul(p, y)
            acc = padd(acc, p)
        r = acc
    else:
        r = f(t)
        if r is None:
            if t.op in ("min", "max"):
                xs = [subst(x, f, memo) for x in t.a]
                r = _lat(t.op, xs)
            else:
                na = tuple(_subarg(x, f, memo) for x in t.a)
                r = t if all(x is y for x, y in zip(na, t.a)) else mk(t.op, *na)
                if r is not t:
                    if t in INT_LO:
                        INT_LO.setdefault(r, INT_LO[t])
                    if t in INT_HI:
                        INT_HI.setdefault(r, INT_HI[t])
    memo[t] = r
    return r


def _subarg(x, f, memo):
    if isinstance(x, T):
        return subst(x, f, memo)
    if isinstance(x, tuple):
        r = tuple(_subarg(y, f, memo) for y in x)
        return x if all(a is b for a, b in zip(r, x)) else r
    if isinstance(x, DD):
        return subst_dd(x, f, memo)
    return x


def subst_atom(at, f, memo):
    if at.op == "ilt":
        return cmp_lt(subst(at.a[0], f, memo), const(at.a[1]), False)
    if at.op == "flt":
        return cmp_lt(subst(at.a[0], f, memo), ZERO, True)
    if at.op == "fgt":
        return cmp_lt(ZERO, subst(at.a[0], f, memo), True)
    r = subst(at, f, memo)
    if isinstance(r, DD):
        return r
    if r is TRUE or r is FALSE:
        return leaf(r)
    return batom(r)


def subst_dd(d, f, memo):
    key = ("dd", d.id)
    r = memo.get(key)
    if r is None:
        if d.atom is None:
            r = leaf(subst(d.leaf, f, memo))
        else:
            r = ite(subst_atom(d.atom, f, memo), subst_dd(d.hi, f, memo), subst_dd(d.lo, f, memo))
        memo[key] = r
    return r


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if t.op == "poly":
        if t is ZERO:
            return "0"
        out = []
        for m, c in t.a[0]:
            s = "*".join((show(x, depth + 1) + ("" if e == 1 else "^%d" % e)) for x, e in m)
            if not m:
                s = fmtc(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = fmtc(c) + "*" + s
            out.append(s)
        r = " + ".join(out).replace("+ -", "- ")
        return r if len(out) == 1 or depth == 0 else "(" + r + ")"
    if t.op in ("v", "sym"):
        return ".".join(str(x) if not isinstance(x, T) else show(x, 1) for x in t.a)
    if t.op == "fld":
        return "%s.%s" % (show(t.a[0], 1), t.a[1])
    if t.op == "sel":
        return "%s[%s]" % (show(t.a[0], 1), show(t.a[1]))
    if t.op == "ilt":
        return "(%s < %s)" % (show(t.a[0]), fmtc(t.a[1]))
    if t.op == "flt":
        return "(%s <. 0)" % show(t.a[0])
    if t.op == "fgt":
        return "(%s >. 0)" % show(t.a[0])
    if not t.a:
        return t.op
    return "%s(%s)" % (t.op, ", ".join(_sh(x) for x in t.a))


def _sh(x):
    if isinstance(x, T):
        return show(x)
    if isinstance(x, tuple):
        return "<" + ",".join(_sh(y) for y in x) + ">"
    return str(x)


def fmtc(c):
    c = Fraction(c)
    if c.denominator == 1:
        return str(c.numerator)
    return "%.6g" % float(c)


def show_dd(d, depth=0):
    if d.atom is None:
        return show(d.leaf)
    if d.hi is DT and d.lo is DF:
        return show(d.atom)
    if d.hi is DF and d.lo is DT:
        return "!" + show(d.atom)
    if depth > 12:
        return "..."
    return "{%s ? %s : %s}" % (show(d.atom), show_dd(d.hi, depth + 1), show_dd(d.lo, depth + 1))


# ---------------------------------------------------------------- interval-consistent simplification
def prune(d, limit=200000):
    """drop branches that contradict the integer bounds tested above them"""
    memo = {}
    n = [0]

    def go(x, env):
        if x.atom is None:
            return x
        key = (x.id, env)
        r = memo.get(key)
        if r is not None:
            return r
        n[0] += 1
        if n[0] > limit:
            raise Unknown("diagram too large to prune")
        at = x.atom
        if at.op == "ilt":
            L, c = at.a
            e = dict(env)
            lo, hi = e.get(L, (None, None))
            bl, bh = bounds(L)
            lo = max([v for v in (lo, bl) if v is not None], default=None)
            hi = min([v for v in (hi, bh) if v is not None], default=None)
            if hi is not None and hi < c:
                r = go(x.hi, env)
            elif lo is not None and lo >= c:
                r = go(x.lo, env)
            else:
                e[L] = (lo, c - 1)
                h = go(x.hi, tuple(sorted(e.items(), key=lambda kv: kv[0].id)))
                e[L] = (c, hi)
                l = go(x.lo, tuple(sorted(e.items(), key=lambda kv: kv[0].id)))
                r = node(at, h, l)
        else:
            r = node(at, go(x.hi, env), go(x.lo, env))
        memo[key] = r
        return r
    return go(d, ())
