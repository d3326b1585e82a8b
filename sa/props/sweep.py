"""Facts about loops that scan an array of boxed things, found by elimination.

Candidates are `x <= y` between the integer quantities of a loop and `box B covers the elements lo..hi`
for its boxes; a candidate that does not hold before the loop, or not after a round in which all
remaining candidates held before, is dropped until nothing changes.  What is left is inductive.
`poss` looks for a branch on which all given conditions hold (linear integer reasoning)."""
from common import *
from c02 import ilt, ieq, off, neg
from terms import *

AX = (("min", 0), ("min", 1), ("min", 2), ("max", 0), ("max", 1), ("max", 2))


def poss(conds, limit=60000):
    """a branch on which all conditions hold, or None"""
    asg, dds = {}, []
    for d in list(conds) + halves(conds):
        if d is DF or d is DBOT:
            return None
        if d is DT:
            continue
        if d.atom.op == "ilt" and d.hi.atom is None and d.lo.atom is None:
            v = d.hi is DT
            if asg.get(d.atom, v) is not v:
                return None
            asg[d.atom] = v
        else:
            dds.append(d)
    if asg and zones.empty(asg):
        return None
    base = dict(asg)
    dds.sort(key=size)
    n = [0]

    def go(k, x, asg):
        if x is DF or x is DBOT:
            return None
        if x.atom is None:
            if k == len(dds):
                return dict(asg)
            return go(k + 1, dds[k], asg)
        n[0] += 1
        if n[0] > limit:
            raise Unknown("too many branches")
        at = x.atom
        if at in asg:
            return go(k, x.hi if asg[at] else x.lo, asg)
        for val, nx in ((True, x.hi), (False, x.lo)):
            if nx is DF or nx is DBOT:
                continue
            if val and at.op in ("flt", "fgt") and asg.get(mk("fgt" if at.op == "flt" else "flt", at.a[0])):
                continue
            asg[at] = val
            if at.op != "ilt" or not zones.empty(asg):
                r = go(k, nx, asg)
                if r is not None:
                    return r
            del asg[at]
        return None
    r = go(0, DT, asg)
    if r is None:
        return None
    return " and ".join(("" if v else "not ") + show(a) for a, v in r.items() if a not in base)


def paths_to(v, l):
    return apply(None, lambda x: TRUE if x is l else FALSE, v)


def proxy(t):
    """a loop symbol that stands for discriminant or payload t of a changing enum"""
    return mk("b", "enum part", t)


def halves(conds):
    """what integer division of non-negative numbers gives"""
    ts = set()
    for d in conds:
        ts |= patoms(d)
    out = []
    for t in ts:
        if t.op == "idiv":
            x, k = t.a
            k = k if isinstance(k, T) else const(k)
            if isinstance(x, T) and is_const(k) and cval(k) > 0:
                x, m = leaf(x), leaf(pscale(atom(t), cval(k)))
                out += [dor(neg(x), dnot(ilt(x, m))), dor(neg(x), ilt(x, apply(None, padd, m, leaf(k)))), dor(neg(x), dnot(neg(m)))]
    return out


def bad(kind, box, elem):
    """the box does not reach the element's coordinate"""
    return lt(elem, box) if kind == "min" else lt(box, elem)


def none(c, rule, site, conds, what):
    x = poss(conds)
    return c.ob(rule, site, x is None, "%s when %s" % (what, (x or "")[:300]))


class Fact:
    """component (mu) of a box covers component kind/axis of the elements lo..hi of the array"""

    def __init__(self, mu, kind, axis, base, lo, hi, path=("aabb",), cond=DT):
        self.mu, self.kind, self.axis, self.base, self.lo, self.hi, self.path, self.cond = mu, kind, axis, base, lo, hi, path, cond

    def __repr__(self):
        return "%s covers %s%s of %s[%s..%s]" % (show(self.mu), self.kind, self.axis, show(self.base) if isinstance(self.base, T) else self.base, show_dd(self.lo), show_dd(self.hi))


class Suffix:
    """component kind/axis of the elements lo..hi of an array of boxes covers the elements of `base` from there to `end`
    (or, front=True, from `end` up to there)"""

    def __init__(self, acc, kind, axis, base, lo, hi, end, apath, path, front=False):
        self.acc, self.kind, self.axis, self.base, self.lo, self.hi, self.end, self.apath, self.path, self.front = acc, kind, axis, base, lo, hi, end, apath, path, front

    def inside(self, j, q):
        if self.front:
            return dand(dnot(ilt(q, self.end)), dnot(ilt(j, q)))
        return dand(dnot(ilt(q, j)), ilt(q, self.end))

    def __repr__(self):
        return "%s[%s..%s] covers %s%s of %s up to %s" % (show(self.acc), show_dd(self.lo), show_dd(self.hi), self.kind, self.axis, show(self.base), show_dd(self.end))


class Sweep:
    def __init__(self, E, inv, consts):
        self.E = E
        self.inv = list(inv)          # conditions that always hold
        self.consts = list(consts)    # (name, value) integer quantities
        self.order = {}               # loop id -> [condition]
        self.facts = []
        self.recs = []
        self.paths = {}
        self.etys = {}                # element types of the arrays

    # ---------------------------------------------------------------- elements
    def parse(self, t):
        """(base, index) of a read element below term t"""
        x = t
        for _ in range(12):
            if not isinstance(x, T):
                return None
            if x.op == "sel":
                return x.a[0], x.a[1]
            y = x.a[0] if x.op == "fld" else single(x) if x.op == "poly" else None
            if y is None or y is x:
                return None
            x = y
        return None

    def at(self, base, i, path, kind, axis):
        return get(self.E, self.E.make(self.etys[base], mk("sel", base, i)), *path, kind, axis)

    def says(self, d, facts, how=None):
        """what the facts say about the elements and boxes compared in d"""
        ts = patoms(d)
        rds = set(r for r in filter(None, map(self.parse, ts)) if r[0] in self.etys)
        out = []
        if how:
            for base, i in rds:
                for b2, j in rds:
                    if base is b2 and i.id < j.id:
                        x, y = (self.at(base, t, self.paths[base], *how[1:]) for t in (i, j))
                        out.append(dor(dnot(ieq(leaf(i), leaf(j))), dnot(dor(lt(x, y), lt(y, x)))))
        for f in facts:
            if isinstance(f, Suffix):
                for base, i in rds:
                    for b2, j in rds:
                        if base is f.base and b2 is f.acc:
                            q, j = leaf(i), leaf(j)
                            g = dand(dand(dnot(ilt(j, f.lo)), ilt(j, f.hi)), f.inside(j, q))
                            ea = get(self.E, self.E.make(self.etys[b2], mk("sel", b2, lf(j))), *f.apath, f.kind, f.axis)
                            out.append(dnot(dand(g, bad(f.kind, ea, self.at(base, i, f.path, f.kind, f.axis)))))
                continue
            if f.mu not in ts:
                continue
            for base, i in rds:
                if base is f.base:
                    x = leaf(i)
                    g = dand(f.cond, dand(dnot(ilt(x, f.lo)), ilt(x, f.hi)))
                    out.append(dnot(dand(g, bad(f.kind, leaf(atom(f.mu)), self.at(base, i, f.path, f.kind, f.axis)))))
        return out

    # ---------------------------------------------------------------- loops
    def ints(self, rec):
        """integer quantities that change in the loop and have to do with positions of elements"""
        seen, cmp = set(), []
        for d in [rec.back[0]] + [v for v in rec.next.values() if isinstance(v, DD)] + [g for _, g, _ in rec.raw_exits]:
            for a in atoms(d):
                if a.op == "ilt":
                    cmp.append(patoms(a.a[0]))
                for t in patoms(a):
                    if t.op == "sel":
                        seen |= patoms(t.a[1])
            for l in leaves(d):
                for t in patoms(l):
                    if t.op == "sel":
                        seen |= patoms(t.a[1])
        for v in rec.next.values():
            if isinstance(v, Arr):
                for e in v.ents:
                    if e[0] == "w":
                        seen |= patoms(e[2])
        for x in self.consts:
            seen |= set(t for t in patoms(x) if t.op != "poly")
        hs = []
        for key in rec.mus:
            h = rec.header[key]
            if isinstance(h, DD) and h.atom is None and single(h.leaf) is not None and single(h.leaf).op == "mu":
                hs.append(h)
        while True:
            n = len(seen)
            for x in cmp:
                if x & seen:
                    seen |= set(t for t in x if t.op == "mu")
            if len(seen) == n:
                break
        return [h for h in hs if single(h.leaf) in seen]

    def maps(self, rec):
        """values before the first round and after a round"""
        ini, nxt = {}, {}
        for key in rec.mus:
            h = rec.header[key]
            if isinstance(h, DD) and h.atom is None and single(h.leaf) is not None and single(h.leaf).op == "mu":
                ini[single(h.leaf)] = rec.init[key]
                nxt[single(h.leaf)] = rec.next[key]
            elif isinstance(h, Sym):
                x = self.E.expand(h)
                for m, v in ((ini, rec.init[key]), (nxt, rec.next[key])):
                    v = self.E.expand(v) if isinstance(v, Sym) else v
                    if isinstance(x, Enum) and isinstance(v, Enum):
                        m[proxy(single(lf(x.disc)))] = v.disc
                        for a, b in zip(x.vs, v.vs):
                            for p, q in zip(a or (), b or [None] * len(a or ())):
                                if isinstance(p, DD) and p.atom is None and single(p.leaf) is not None:
                                    m[proxy(single(p.leaf))] = q if isinstance(q, DD) else leaf(ZERO)
        ini[rec.k] = leaf(ZERO)
        nxt[rec.k] = leaf(padd(atom(rec.k), ONE))
        return ini, nxt

    def sub(self, d, m):
        """diagram d with the loop quantities replaced"""
        ps = dict((t.a[1], t) for t in m if t.op == "b" and t.a[0] == "enum part")
        if ps:
            d = subst_dd(d, lambda t: ps.get(t), {})
        return self.E.substv(d, m)

    def boxes(self, rec):
        """(mu, kind, axis) of the box components that change in the loop"""
        out = []
        for key in rec.mus:
            h = rec.header[key]
            fs = [x[1] for x in key[1] if x[0] == "f"]
            if isinstance(h, DD) and h.atom is None and len(fs) >= 2 and fs[-2] in (0, 2) and fs[-1] in (0, 1, 2):
                m = single(h.leaf)
                if m is not None and m.op == "mu":
                    out.append((key, m, "min" if fs[-2] == 0 else "max", fs[-1]))
        return out

    def outer(self, rec):
        """hypotheses about the loops that ended before this one"""
        out = []
        for r in self.recs:
            if r is rec:
                break
            ex = dnot(r.g0) if isinstance(r.g0, DD) else DF
            for _, g, _ in r.raw_exits:
                ex = dor(ex, g)
            out += self.order.get(r.id, []) + [ex]
        return out

    def cone(self, hyps, query):
        """the hypotheses that say something about the loop quantities of the query"""
        def syms(ds):
            return set(t for d in ds for t in patoms(d) if t.op in ("mu", "it", "idiv", "brk"))
        have = syms(query)
        left = [(h, syms([h])) for h in hyps]
        out = []
        while True:
            more = [(h, x) for h, x in left if not x or x & have]
            if not more:
                return out
            out += [h for h, _ in more]
            for _, x in more:
                have |= x
            left = [y for y in left if y not in more]

    def possible(self, hyps, query):
        return poss(self.cone(hyps, query) + query)

    def spots(self, rec, bases):
        """where a counted loop reads the elements it adds to its boxes"""
        out = []
        for key, m, kind, axis in self.boxes(rec):
            def pick(l):
                r = [x[1] for x in map(self.parse, patoms(l)) if x and x[0] in bases]
                return r[0] if r and all(x is r[0] for x in r) else BOT
            d = apply(None, pick, rec.next[key])
            if rec.k not in patoms(d) or BOT in leaves(d):
                continue
            step = apply(None, psub, self.E.substv(d, {rec.k: leaf(padd(atom(rec.k), ONE))}), d)
            x = off(d, 1) if all(is_const(l) and cval(l) < 0 for l in leaves(step)) else d
            for y in (x, self.E.substv(x, {rec.k: leaf(ZERO)})):
                if y not in out:
                    out.append(y)
        return out

    def turns(self, rec, places, ends):
        """if a box only grows on one side of a place: how far the loop has come on either side of it"""
        still = lambda c: any(restrict(rec.next[key], c) is rec.header[key] for key, m, kind, axis in bx)
        bx = self.boxes(rec)
        own = set(single(lf(h)) for h in self.ints(rec)) | {rec.k}
        ats = set(x for key, m, kind, axis in bx for x in atoms(rec.next[key]))
        out = []
        for x in places:
            for y in ends:
                c = ilt(x, y)
                if own & set(patoms(x)) and c.atom is not None and set(atoms(c)) & ats and (still(c) or still(dnot(c))):
                    out += [ite(c, x, y), ite(c, y, x)]
        return out

    def learn(self, rec, arrs, path=("aabb",), extra=(), accs=(), apath=(), kept=(), also=()):
        """arrs: (base in the header, Arr before, Arr in the header, Arr after a round) of the boxed things;
        accs: the same for arrays of boxes that cover them;
        kept: (component, kind, axis, condition, base, lo, hi) to try in addition, as they are in the header"""
        E = self.E
        ini, nxt = self.maps(rec)
        self.recs.append(rec)
        for lst, pt in ((arrs, path), (accs, apath)):
            for base, _, ah, _ in lst:
                self.etys[base], self.paths[base] = ah.ety, pt
        B = list(self.consts) + [x for x in extra if x not in self.consts]
        for h in self.ints(rec):
            if h not in B:
                B.append(h)
        for x in self.spots(rec, [a[2].base for a in arrs]):
            if x not in B:
                B.append(x)
        for x in self.turns(rec, B, list(self.consts) + list(extra)):
            if x not in B:
                B.append(x)
        ro = {}
        for x in B:
            ro[x] = (self.sub(x, ini), self.sub(x, nxt))
        g0 = rec.g0 if isinstance(getattr(rec, "g0", None), DD) else DT
        gb = rec.gback if getattr(rec, "gback", None) is not None else rec.back[0]
        out = self.inv + self.outer(rec)
        for x in B:
            for t in patoms(x):
                if t is rec.k:
                    INT_LO[t] = Fraction(0)
        cand = [(x, y) for x in B for y in B if x is not y and (ro[x] != (x, x) or ro[y] != (y, y))]
        cand = [(x, y) for x, y in cand if self.possible(out, [g0, ilt(ro[y][0], ro[x][0])]) is None]
        while True:
            hy = out + [dnot(ilt(y, x)) for x, y in cand]
            keep = [(x, y) for x, y in cand if self.possible(hy, [gb, ilt(ro[y][1], ro[x][1])]) is None]
            if len(keep) == len(cand):
                break
            cand = keep
        self.order[rec.id] = [dnot(ilt(y, x)) for x, y in cand]
        # further conditions on the state in the header
        more = [(x, self.sub(x, ini), self.sub(x, nxt)) for x in also]
        more = [m for m in more if self.possible(out, [g0, dnot(m[1])]) is None]
        while True:
            hy = out + self.order[rec.id] + [m[0] for m in more]
            keep = [m for m in more if self.possible(hy, [gb, dnot(m[2])]) is None]
            if len(keep) == len(more):
                break
            more = keep
        self.order[rec.id] += [m[0] for m in more]
        # boxes
        hy = out + self.order[rec.id]
        todo = {}
        for key, m, kind, axis in self.boxes(rec):
            todo.setdefault((key[0], key[1][:-2]), []).append((key, m, kind, axis))
        old = list(self.facts)
        new = []
        for grp, comps in todo.items():
            for base, a0, ah, an in arrs:
                pairs = [(x, y) for x in B for y in B if x is not y and self.possible(hy, [ilt(x, y)]) is not None]
                for key, m, kind, axis in comps:
                    fs = []
                    for lo, hi in pairs:
                        f = Fact(m, kind, axis, base, lo, hi, path)
                        if self.holds(out, [g0], rec.init[key], a0, kind, axis, path, ro[lo][0], ro[hi][0], old):
                            fs.append(f)
                    while True:
                        kp = [f for f in fs if self.holds(hy, [gb], rec.next[key], an, kind, axis, path, ro[f.lo][1], ro[f.hi][1], old + fs)]
                        if len(kp) == len(fs):
                            break
                        fs = kp
                    pairs = [(f.lo, f.hi) for f in fs]
                    new += fs
                    if not fs:
                        break
        # arrays of boxes
        for abase, a0, ah, an in accs:
            read = patoms(tuple(v for v in rec.next.values() if isinstance(v, DD)))
            for base, r0, rh, rn in arrs:
                if base not in read:
                    continue
                shapes = []
                for x in B:
                    for y in B:
                        for z, w in [(z, w) for z in self.consts for w in (False, True)]:
                            f = Suffix(abase, "min", 0, base, x, y, z, apath, path, w)
                            j, q = self.jq()
                            if x is not y and self.possible(hy, [dnot(ilt(j, x)), ilt(j, y), f.inside(j, q), dnot(ieq(j, q))]) is not None:
                                shapes.append((x, y, z, w))
                for kind, axis in AX:
                    fs = []
                    for lo, hi, end, front in shapes:
                        f = Suffix(abase, kind, axis, base, lo, hi, end, apath, path, front)
                        if self.suffix(out, [g0], a0, r0, f, ro[lo][0], ro[hi][0], old + new):
                            fs.append(f)
                    while True:
                        kp = [f for f in fs if self.suffix(hy, [gb], an, rn, f, ro[f.lo][1], ro[f.hi][1], old + new + fs)]
                        if len(kp) == len(fs):
                            break
                        fs = kp
                    shapes = [(f.lo, f.hi, f.end, f.front) for f in fs]
                    new += fs
                    if not fs:
                        break
        fs = []
        for comp, kind, axis, cond, base, lo, hi in kept:
            m = single(comp.leaf) if comp.atom is None else None
            if m is None:
                continue
            a = [x for x in arrs if x[0] is base][0]
            s = [self.sub(x, ini) for x in (comp, cond, lo, hi)]
            if self.holds(out, [g0, s[1]], s[0], a[1], kind, axis, path, s[2], s[3], old):
                fs.append((Fact(m, kind, axis, base, lo, hi, path, cond), comp, a))
        while True:
            kp = []
            for f, comp, a in fs:
                s = [self.sub(x, nxt) for x in (comp, f.cond, f.lo, f.hi)]
                if self.holds(hy, [gb, s[1]], s[0], a[3], f.kind, f.axis, path, s[2], s[3], old + new + [x[0] for x in fs]):
                    kp.append((f, comp, a))
            if len(kp) == len(fs):
                break
            fs = kp
        new += [x[0] for x in fs]
        self.facts = old + new
        return new

    def jq(self):
        j, q = mk("v", "j%d" % id(self)), mk("v", "q%d" % id(self))
        INT_LO[j] = INT_LO[q] = Fraction(0)
        return leaf(atom(j)), leaf(atom(q))

    def suffix(self, hyps, conds, acc, a, f, lo, hi, facts):
        """the elements lo..hi of acc cover the elements of a from there on"""
        E = self.E
        j, q = self.jq()
        rng = [dnot(ilt(j, lo)), ilt(j, hi), f.inside(j, q)]
        if self.possible(hyps, conds + rng) is None:
            return True
        box = get(E, rd(E, acc, j), *f.apath, f.kind, f.axis)
        for l in leaves(box):
            on = conds + rng + [paths_to(box, l)]
            if not self.covers(hyps, on, l, a, f.kind, f.axis, f.path, q, facts):
                return False
        return True

    def holds(self, hyps, conds, box, a, kind, axis, path, lo, hi, facts):
        """the box component covers the elements lo..hi of the array"""
        E = self.E
        q = mk("v", "q%d" % id(self))
        INT_LO[q] = Fraction(0)
        ql = leaf(atom(q))
        for l in leaves(box):
            on = conds + [paths_to(box, l), dnot(ilt(ql, lo)), ilt(ql, hi)]
            if not self.covers(hyps, on, l, a, kind, axis, path, ql, facts):
                return False
        return True

    def covers(self, hyps, on, l, a, kind, axis, path, q, facts):
        """the box component l covers element q, whatever q is on these conditions"""
        E = self.E
        apart = DT
        todo = []
        for t in set(r[1] for r in filter(None, map(self.parse, patoms(l))) if r[0] is a.base):
            apart = dand(apart, dnot(ieq(q, leaf(t))))
            todo.append((leaf(t), ieq(q, leaf(t))))
        todo.append((q, apart))
        for i, more in todo:
            if self.possible(hyps, on + [more]) is None:
                continue
            d = bad(kind, leaf(l), get(E, rd(E, a, i), *path, kind, axis))
            if self.possible(hyps, on + [more, d] + self.says(d, facts, (path, kind, axis))) is not None:
                return False
        return True
