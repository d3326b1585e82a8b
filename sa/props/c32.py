"""C32: nearest neighbour search of the clustering builder."""
from common import *
from c02 import ilt, ieq
from c10 import K, plus, minus, le_, conj, possible, leafy, LB, same_val
import re, c29, zones

EXPLAIN = ("The search is reduced by value flow to: which positions of the neighbour list are written (tiling of the range by the work chunks), and for each position the last candidate "
           "that beat the best distance so far. Candidates are shown to lie in the range, to differ from the node, to exist for every node and to be visited in ascending order with a "
           "strict comparison; the window relation is shown to be symmetric and the distance to be the half area of the box around both nodes. Index relations are decided by linear "
           "integer reasoning. For the cache of distances each write is shown to store the distance of one pair in the row and column of that pair, writes to cover "
           "all pairs read later, rows to be apart and to move up by one per node, and each read to take the entry of its pair.")
ASSUME = ["distances are below f32::MAX", "there is at least one processor"]
PATH = LB + "::cluster"


def tsyms(t, seen=None):
    """all terms below t"""
    seen = set() if seen is None else seen
    if isinstance(t, T):
        if t in seen:
            return seen
        seen.add(t)
        for a in t.a:
            tsyms(a, seen)
    elif isinstance(t, tuple):
        for a in t:
            tsyms(a, seen)
    elif isinstance(t, DD):
        if t.atom is not None:
            tsyms(t.atom, seen)
            tsyms(t.hi, seen)
            tsyms(t.lo, seen)
        else:
            tsyms(t.leaf, seen)
    return seen


class Search:
    def __init__(self, c, p):
        self.c = c

        def cell(x):
            E = x.E
            t = E.types[x.tys[0]]
            if t["k"] not in ("ptr", "rawptr") and "e" not in t or E.types[t["e"]]["n"] not in ("f32", "f64"):
                return NotImplemented
            R = mk("v", "cell", x.fr if isinstance(x.fr, int) else 0, E.line)
            self.n += 1
            self.n += 1
            ptr, off = x.vals[0], x.vals[1]
            if all(l.op == "ref" and l.a[0].__class__ is not T or l.op == "ref" and l.a[0].op not in ("row", "deref") for l in leaves(ptr)) and off.atom is None:
                self.rows.append((E.guard, ptr, off))
                return leaf(mk("ref", mk("row", off.leaf), ()))
            self.cells[self.n] = (E.guard, ptr, off, tuple(E.loopstack), E.line, R)
            E.mem[R] = leaf(atom(mk("v", "cached", self.n)))
            return leaf(mk("ref", R, ()))
        self.n, self.cells, self.rows = 0, {}, []

        def mv(x):
            x.E.log("moved", *x.vals)
            return UNITV
        def prefix(x):
            E = x.E
            E.havoc(E.slice_of(x.vals[2]), mk("v", "P"), None)
            return E.make(x.dty, mk("v", "total"))
        hk = {"utils::prefix_sum": prefix, "utils::move_backward": mv}
        for b in p["bodies"]:
            if b["path"].startswith(PATH):
                for _, cal, *_r in c29.mir.calls(b):
                    if re.search(r"(mut_ptr|const_ptr)::.*::(add|offset|sub|wrapping_add)$", cal["path"]):
                        hk[cal["path"]] = cell
        E, r = run_as(p, PATH, ["self", "input", "output", "neighbours", "marks", "begin", "end", "pend"], hooks=hk)
        self.E = E
        c.fn(PATH, *[b["path"] for b in p["bodies"] if b["path"].startswith(PATH + "::{")], LB + "::search_range")
        self.b, self.e = E.args[5:7]
        self.moves = [(e[0], e[2], e[3]) for e in E.events if e[1] == "moved"]
        reg = lf(E.slice_of(E.args[3])).a[0]
        # the loops that write the neighbour list
        inner, outer = [], []
        for lid, rec in sorted(E.loops.items()):
            if getattr(rec, "back", None) is None or not any(k[0] is reg for k in rec.mus):
                continue
            v = rec.back[1].get(reg)
            v = E.expand(v) if isinstance(v, Sym) else v
            if any(x[0] == "w" for x in v.arr.ents):
                inner.append((rec, v.arr.ents))
            elif any(x[0] == "loop" for x in v.arr.ents):
                outer.append(rec)
        if not inner:
            raise Unknown("no loop writes the neighbour list")
        self.I, ents = inner[-1]
        self.O = outer[-1] if outer else None
        ws = [x for x in ents if x[0] == "w"]
        if len(ws) != 1 or len(ws) != len(ents):
            raise Unknown("%d writes to the neighbour list in one round" % len(ents))
        self.w = ws[0]
        self.i = leafy(self.w[2])
        self.k = self.I.k if isinstance(self.I.k, T) else self.I.k
        self.G = self.I.back[0]
        self.F = conj(le_(plus(self.b, K(2)), self.e), le_(self.e, E.slen(E.slice_of(E.args[1]))), le_(self.e, E.slen(E.slice_of(E.args[3]))), le_(K(0), self.b))
        self.lemmas()

    def sub(self, v, m):
        return self.E.substv(v, m)

    def kt(self, rec):
        """the counter of a loop"""
        return mk("it", rec.id)

    def at(self, rec, v, x):
        """v in round x of the loop"""
        return self.sub(v, {self.kt(rec): x})

    def lemmas(self):
        """integer division: n*(a/n) <= a, for the products of the chunk size with the chunk number"""
        F = DT
        if self.O is not None:
            t = self.kt(self.O)
            for x in tsyms(self.G) | tsyms(self.i):
                if x.op != "poly":
                    continue
                for m, co in x.a[0]:
                    ts = [y for y, e in m]
                    if len(m) == 2 and t in ts and all(e == 1 for _, e in m):
                        q = [y for y in ts if y is not t][0]
                        if q.op != "idiv":
                            continue
                        a, n = (leafy(z) for z in q.a)
                        X = leaf(mk("poly", ((m, Fraction(1)),)))
                        T_ = leaf(atom(t))
                        Q = leaf(atom(q))
                        F = conj(F, le_(K(0), X), le_(K(0), Q), dor(dnot(ilt(T_, n)), le_(X, a)), dor(dnot(ilt(plus(T_, K(1)), n)), le_(plus(X, Q), a)))
        self.F = conj(self.F, F)
        if self.O is not None:
            self.F = conj(self.F, le_(K(0), leaf(atom(self.kt(self.O)))))

    def tiling(self):
        c, E = self.c, self.E
        k = leaf(atom(self.kt(self.I)))
        S = self.at(self.I, self.i, K(0))
        never(c, "every-node-is-searched", PATH + " one after the other", dand(self.F, dnot(ieq(self.i, plus(S, k)))), "skips positions")
        c.ob("every-node-is-searched", PATH + " write", not possible(conj(self.F, self.G, dnot(self.w[1]))), "is written only when %s" % show_dd(self.w[1])[:200])
        F = conj(self.F, le_(K(0), k))
        if self.O is None:
            never(c, "every-node-is-searched", PATH + " first", dand(self.F, dnot(ieq(S, self.b))), "starts elsewhere")
            T_ = self.e
        else:
            GO = self.O.back[0]
            t = leaf(atom(self.kt(self.O)))
            never(c, "every-node-is-searched", PATH + " first chunk", dand(self.F, dnot(ieq(self.at(self.O, S, K(0)), self.b))), "starts elsewhere")
            nxt = plus(t, K(1))
            T_ = ite(self.at(self.O, GO, nxt), self.at(self.O, S, nxt), self.e)
            F = dand(F, GO)
        never(c, "every-node-is-searched", PATH + " up to the next chunk", conj(F, self.G, le_(T_, plus(S, k))), "goes on into the next chunk")
        never(c, "every-node-is-searched", PATH + " all of the chunk", conj(F, dnot(self.G), ilt(plus(S, k), T_)), "leaves out the end of the chunk")

    def candidates(self):
        """the search loops: (rec, update term u, its counter, gate without the comparison, candidate, distance)"""
        E = self.E
        out = []
        v = self.w[4]
        us = [a.a for a in atoms(v)] if isinstance(v, DD) else []
        # the value of the best candidate is one of the scalars that the loops carry
        for lid, rec in sorted(E.loops.items()):
            for u, (cond, ks) in getattr(rec, "lasts", {}).items():
                if u in tsyms(v):
                    out.append((rec, u, cond, ks))
        return out

    def search(self):
        c, E = self.c, self.E
        v = self.w[4]
        cands = self.candidates()
        if not cands:
            raise Unknown("the neighbour is not the last candidate that was better: %s" % str(v)[:200])
        F = conj(self.F, self.G, le_(K(1), self.radius()))
        facts, info = DT, []
        prev = None
        for rec, u, cond, ks in cands:
            gb = rec.back[0]
            # the best distance carried by this loop
            best = [(key, mu) for key, mu in rec.mus.items() if mu[3] == "scalar" and mu[0] in tsyms(cond)]
            if len(best) != 1:
                raise Unknown("%d quantities decide on a candidate" % len(best))
            key, mu = best[0]
            ats = [a for a in atoms(cond) if mu[0] in tsyms(a)]
            if len(ats) != 1 or ats[0].op not in ("flt", "fgt"):
                raise Unknown("the comparison of distances: %s" % show_dd(cond)[:200])
            a = ats[0]
            P = a.a[0]
            co = [x for m, x in P.a[0] if m == ((mu[0], 1),)]
            sign = 1 if a.op == "flt" else -1           # atom: sign*P < 0
            if not co or sign * co[0] >= 0:
                lessv = False
                D = leaf(padd(pscale(P, 1 / co[0]), pscale(atom(mu[0]), -1))) if co else None
            else:
                lessv = True
                D = leaf(padd(pscale(P, -1 / co[0]), atom(mu[0])))
            if D is None or mu[0] in tsyms(D):
                raise Unknown("the distance of a candidate")
            D = leaf(pscale(D.leaf, 1 if lessv else -1))
            gate = restrict_atom(cond, a, lessv)
            other = restrict_atom(cond, a, not lessv)
            c.ob("only-nearer-candidates", "%s loop %d" % (PATH, len(info)), other is DF, "a candidate that is not nearer is taken when %s" % show_dd(other)[:200])
            c.ob("ties-keep-the-lower-index", "%s loop %d" % (PATH, len(info)), lessv, "an equally near candidate replaces the first one")
            # the distance is replaced together with the candidate
            nxt = E.lget(rec.back[1][key[0]], key[1])
            mud = leaf(atom(mu[0]))
            both = nxt is fmin(mud, D) and gate is DT or (same_val(E, dand(rec.back[0], cond), nxt, D) and same_val(E, dand(rec.back[0], dnot(cond)), nxt, mud))
            c.ob("distance-goes-with-the-candidate", "%s loop %d" % (PATH, len(info)), both, "the best distance becomes %s" % str(nxt)[:200])
            init = leafy(mu[1])
            if prev is not None:
                # unless something was found before, the distance is still the initial one
                pk = [q for q in prev.mus if q == key]
                if not pk:
                    raise Unknown("the best distance is not carried from loop to loop")
                start = start0
            else:
                start = start0 = init
                c.ob("any-distance-is-nearer-than-none", PATH, init.atom is None and big(init.leaf), "starts from %s" % init)
            # candidate: the value under the update
            x = None
            vk = [q for q, m2 in rec.mus.items() if m2[3] == "scalar" and q != key and self.updated(rec, q, cond)]
            if len(vk) != 1:
                raise Unknown("%d candidates" % len(vk))
            x = restrict(E.lget(rec.back[1][vk[0][0]], vk[0][1]), cond)
            x = restrict(x, gb)
            kd = leaf(atom(self.kt(rec)))
            step = minus(self.at(rec, x, plus(kd, K(1))), x)
            never(c, "candidates-ascend", "%s loop %d" % (PATH, len(info)), conj(F, gb, self.at(rec, gb, plus(kd, K(1))), le_(step, K(0))), "a later candidate has a lower index")
            if possible(conj(F, gb, self.at(rec, gb, plus(kd, K(1))), dnot(ieq(step, K(1))))):
                raise Unknown("candidates are not visited one by one")
            facts = conj(facts, dor(dnot(batom(u)), self.at(rec, dand(gb, gate), leaf(atom(ks)))))
            for n in (0, 1):
                facts = conj(facts, dor(batom(u), dnot(self.at(rec, dand(gb, gate), K(n)))))
            for y in info:
                never(c, "candidates-ascend", "%s loop %d before %d" % (PATH, info.index(y), len(info)),
                      conj(F, y[1], gb, le_(x, y[2])), "a later candidate has a lower index")
            info.append((rec, dand(gb, gate), x, D, u, ks))
            prev = rec
        H = conj(F, facts)
        vd = leafy(v)
        none = apply(None, lambda l: TRUE if is_const(l) else FALSE, vd)
        never(c, "every-node-has-a-neighbour", PATH, conj(H, none), "none is found")
        ok = dand(H, dnot(none))
        if not possible(ok):
            raise Unknown("nothing is left to be searched")
        never(c, "neighbour-in-range", PATH + " low", conj(ok, ilt(vd, self.b)), "is before the range")
        never(c, "neighbour-in-range", PATH + " high", conj(ok, le_(self.e, vd)), "is behind the range")
        never(c, "neighbour-is-another-node", PATH, conj(ok, ieq(vd, self.i)), "is the node itself")
        self.info = info
        c.count("search loops", len(info))

    def updated(self, rec, q, cond):
        """the scalar q changes exactly with cond, to an index"""
        E = self.E
        nv = E.lget(rec.back[1][q[0]], q[1])
        if not isinstance(nv, DD):
            return False
        cur = leaf(atom(rec.mus[q][0]))
        gb = rec.back[0]
        if restrict(restrict(nv, dnot(cond)), gb) is not cur:
            return False
        x = restrict(restrict(nv, cond), gb)
        return rec.mus[q][0] not in tsyms(x)

    def radius(self):
        E = self.E
        return get(E, E.load(E.args[0]) if is_ref(E.args[0]) else E.args[0], "search_radius")

    def window(self):
        """who is compared with whom does not depend on the side"""
        c, E = self.c, self.E
        qi, qj = mk("b", "i"), mk("b", "j")
        for q in (qi, qj):
            INT_LO.setdefault(q, Fraction(0))
        di, dj = leaf(atom(qi)), leaf(atom(qj))
        S = self.at(self.I, self.i, K(0))
        toi = {self.kt(self.I): minus(di, S)}
        M, cache = DF, []
        for rec, gate, x, D, u, ks in self.info:
            g = restrict(gate, self.G)
            x0 = self.at(rec, x, K(0))
            toj = {self.kt(rec): minus(dj, x0)}
            m = conj(le_(x0, dj), self.sub(g, toj))
            M = dor(M, self.sub(m, toi))
            cache.append(self.sub(self.sub(D, toj), toi))
        left = [s for s in tsyms(M) if s.op in ("it", "mu")]
        if left:
            raise Unknown("the window depends on %s" % show(left[0]))
        N = self.sub(M, {qi: dj, qj: di})
        A = conj(le_(K(1), self.radius()), le_(self.b, di), le_(self.b, dj), ilt(di, self.e), ilt(dj, self.e), dnot(ieq(di, dj)))
        self.M, self.qi, self.qj, self.A = M, qi, qj, A
        never(c, "window-is-symmetric", PATH, conj(A, M, dnot(N)), "i looks at j but j not at i")
        # distance
        src = E.slice_of(E.args[1])
        want = half_area_of_union(E, src, di, dj)
        n = 0
        for D in cache:
            if any(s.op == "v" and s.a and s.a[0] == "cached" for s in tsyms(D)):
                continue
            n += 1
            c.ob("distance-is-half-the-area-of-the-joint-box", PATH, D is want, "is %s" % str(D)[:200])
        c.count("distances", n)


    def win(self, i, j):
        """does the search of i look at j"""
        return self.sub(self.M, {self.qi: i, self.qj: j})

    def joint(self, V):
        """(n, j) such that V is the distance of the nodes n and j"""
        E = self.E
        src = E.slice_of(E.args[1])
        base = lf(src).a[0]
        ix = {t.a[1] for t in tsyms(V) if t.op == "sel" and len(t.a) == 2 and "input" in show(t.a[0])}
        ix = sorted(ix, key=lambda t: t.id)
        if len(ix) != 2:
            raise Unknown("a cached value that is not made of two nodes: %s" % str(V)[:200])
        x, y = (leafy(t) for t in ix)
        if V is not half_area_of_union(E, src, x, y):
            return None
        return x, y

    def cache(self):
        """cached distances: what a read finds was written for the same pair"""
        c, E = self.c, self.E
        reads = []
        for rec, gate, x, D, u, ks in self.info:
            for t in tsyms(D):
                if t.op == "v" and t.a and t.a[0] == "cached":
                    reads.append((rec, gate, x, D, t))
        if not reads and not self.cells:
            return
        r = self.radius()
        S = self.at(self.I, self.i, K(0))
        F = conj(self.F, le_(K(1), r), le_(K(0), leaf(atom(self.kt(self.I)))))
        last = {}
        for n, e in sorted(self.cells.items()):
            last[e[4]] = (n, e)
        mats = set()

        def row(ptr):
            """('now', row) / ('start', address) of a row pointer"""
            ls = [l for l in leaves(ptr) if l.op != "null"]
            if len(ls) != 1 or ls[0].op != "ref" or ls[0].a[1] != ():
                raise Unknown("a row of the cache: %s" % str(ptr)[:200])
            q = ls[0].a[0]
            if q.op == "row":
                return "start", leafy(q.a[0]), ls[0]
            q = q.a[0]
            if q.op == "poly":
                q = single(q)
            if q is None or q.op != "sel" or q.a[0].op != "mu":
                raise Unknown("a row of the cache: %s" % str(ptr)[:200])
            mats.add(q.a[0])
            return "now", leafy(q.a[1]), ls[0]
        # reads
        for rec, gate, x, D, t in reads:
            e = self.cells[t.a[1]]
            kind, R, l = row(e[1])
            c.ob("cached-distance", PATH + " read", kind == "now" and D is leaf(atom(t)), "reads %s" % str(D)[:200])
            never(c, "cached-distance", PATH + " row", conj(F, self.G, gate, dnot(ieq(R, minus(self.i, x)))), "reads the row of another node")
            never(c, "cached-distance", PATH + " column", conj(F, self.G, gate, dnot(ieq(e[2], minus(minus(self.i, x), K(1))))), "reads the entry of another node")
        # writes
        now = start = DF
        for line, (n, (g, ptr, off, loops, _, R)) in sorted(last.items()):
            if t_is_read(n, reads):
                continue
            rec = E.loops[loops[-1]]
            V = rec.back[1].get(R)
            V = E.expand(V) if isinstance(V, Sym) else V
            if V is None or V is leaf(atom(mk("v", "cached", n))):
                c.ob("cached-distance", "%s line %d" % (PATH, line), False, "a cache entry is read for another use")
                continue
            kind, a, l = row(ptr)
            pr = self.joint(V)
            if pr is None:
                c.ob("cached-distance", "%s %s write" % (PATH, kind), False, "stores %s" % str(V)[:200])
                continue
            x, y = pr
            if possible(conj(F, g, le_(y, x))):
                x, y = y, x
            col = minus(minus(y, x), K(1))
            never(c, "cached-distance", "%s %s order" % (PATH, kind), conj(F, g, le_(y, x)), "mixes up the pair")
            never(c, "cached-distance", "%s %s column" % (PATH, kind), conj(F, g, dnot(ieq(off, col))), "stores in another entry")
            never(c, "cached-distance", "%s %s inside of the row" % (PATH, kind), conj(F, g, dnot(ilt(off, r))), "stores behind the end of the row")
            never(c, "cached-distance", "%s %s pointer" % (PATH, kind), conj(F, g, apply(None, lambda z: FALSE if z is l else TRUE, ptr)), "stores through another pointer")
            cur = self.i if kind == "now" else S
            want = minus(cur, x)
            if kind == "start":
                want = apply(None, pmul, want, r)
            never(c, "cached-distance", "%s %s row" % (PATH, kind), conj(F, g, dnot(ieq(a, want))), "stores in the row of another node")
            # the pairs that are stored, as a condition on the pair
            di, dj = leaf(atom(self.qi)), leaf(atom(self.qj))
            ly = [z for z in loops if z != (self.I.id if kind == "now" else -1) and (self.O is None or z != self.O.id)]
            cond = g
            m = {}
            if kind == "now":
                if len(ly) != 1:
                    raise Unknown("loops around a cache write")
                kj = mk("it", ly[0])
                y0 = self.at(rec, y, K(0))
                cond = conj(self.sub(g, {kj: minus(dj, y0)}), le_(y0, dj))
                cond = self.sub(restrict(cond, self.G), {self.kt(self.I): minus(di, S)})
                now = dor(now, cond)
            else:
                if len(ly) != 2:
                    raise Unknown("loops around a cache write")
                kn, kj = mk("it", ly[0]), mk("it", ly[1])
                y0, x0 = self.at(rec, y, K(0)), self.sub(x, {kn: K(0)})
                cond = conj(self.sub(g, {kj: minus(dj, y0)}), le_(y0, dj))
                cond = conj(self.sub(cond, {kn: minus(di, x0)}), le_(x0, di))
                start = dor(start, cond)
            c.count("cache writes")
        di, dj = leaf(atom(self.qi)), leaf(atom(self.qj))
        never(c, "cache-is-filled", PATH + " by every round", conj(self.F, self.A, self.M, ilt(di, dj), dnot(now)), "a later neighbour is left out")
        GO = self.O.back[0] if self.O is not None else DT
        never(c, "cache-is-filled", PATH + " at the start of a chunk", conj(F, GO, self.A, le_(S, self.e), self.win(S, di), ilt(di, S), self.win(di, dj), ilt(di, dj), dnot(start)), "a pair is left out")
        # rows: distinct parts of one allocation
        if not self.rows or len(mats) != 1:
            raise Unknown("rows of the cache")
        g, ptr, off = self.rows[-1]
        reg = lf(ptr).a[0]
        if lf(ptr).op != "ref" or lf(ptr).a[1] not in ((("i", 0),), (("i", ZERO),), ()):
            raise Unknown("start of the cache: %s" % ptr)
        mt = list(mats)[0]
        key = [k for k, v in self.I.mus.items() if v[0] is mt]
        if len(key) != 1:
            raise Unknown("the rows are not carried from node to node")
        key = key[0]
        init = self.I.mus[key][1]
        q = mk("b", "q")
        INT_LO.setdefault(q, Fraction(0))
        qd = leaf(atom(q))
        v = E.arr_read(init, atom(q))
        ok = dand(le_(K(1), r), le_(qd, r))
        for l in leaves(restrict(v, ok)):
            if l.op != "ref" or l.a[0].op != "row":
                c.ob("cache-rows", PATH, not possible(dand(ok, apply(None, lambda z: TRUE if z is l else FALSE, v))), "a row is %s" % show(l)[:100])
                continue
            never(c, "cache-rows", PATH + " are apart", dand(ok, dnot(ieq(leafy(l.a[0].a[0]), apply(None, pmul, qd, r)))), "rows overlap")
        m0 = self.I.back[1].get(reg)
        size = E.expand(m0).len if isinstance(m0, Sym) else m0.len
        c.ob("cache-rows", PATH + " inside of the allocation", minus(size, apply(None, pmul, plus(r, K(1)), r)) is K(0), "the allocation holds %s" % size)
        # between nodes the rows move up by one
        mv = [z for z in self.moves if z[2] and z[2][-1] == self.I.id]
        mb = self.I.back[1].get(key[0])
        mb = E.expand(mb) if isinstance(mb, Sym) else mb
        hdr = arr(mt, mb.arr.ety)
        ents = mb.arr.ents
        c.ob("cache-rows-move", PATH + " once per node", len(mv) == 1 and not possible(conj(F, self.G, dnot(mv[0][0]))), "%d moves" % len(mv))
        if len(mv) == 1:
            ix = []
            for w in mv[0][1]:
                l = lf(w)
                if l.op != "ref" or l.a[0] != key[0] or len(l.a[1]) != 1 or l.a[1][0][0] != "i":
                    raise Unknown("moved rows: %s" % w)
                z = l.a[1][0][1]
                ix.append(leafy(z) if isinstance(z, T) else z if isinstance(z, DD) else K(z))
            never(c, "cache-rows-move", PATH + " first", dand(F, dnot(ieq(ix[0], K(0)))), "starts elsewhere")
            never(c, "cache-rows-move", PATH + " last", dand(F, dnot(ieq(ix[1], r))), "ends elsewhere")
            never(c, "cache-rows-move", PATH + " to", dand(F, dnot(ieq(ix[2], plus(r, K(1))))), "moves by another distance")
        z = E.arr_read(mb.arr, ZERO)
        c.ob("cache-rows-move", PATH + " free row", same_val(E, dand(F, self.G), z, E.arr_read(hdr, lf(r))) and len(ents) == 1, "row 0 becomes %s" % (z,))


def t_is_read(n, reads):
    return any(t.a[1] == n for *_, t in reads)


def down(path):
    if len(path) != 1 or path[0][0] != "i":
        return False
    z = path[0][1]
    z = z.leaf if isinstance(z, DD) else z
    return z == -1 if not isinstance(z, T) else is_const(z) and cval(z) == -1


def move_up(c, p):
    """move_backward: descending element by element"""
    path = "utils::move_backward"
    bi = [i for i, b in enumerate(p["bodies"]) if b["path"] == path and p["types"][p["types"][b["locals"][1]].get("e", b["locals"][1])]["k"] == "param"]
    E, r = run_as(p, bi[0] if bi else path, ["first", "last", "dlast"])
    c.fn(path)
    recs = [x for x in E.loops.values() if getattr(x, "back", None) is not None]
    if not recs:
        raise Unknown("no loop")
    rec = recs[-1]
    got = {}
    for key, mu in rec.mus.items():
        if mu[3] == "ref" and key[1] == () and key[0].__class__ is tuple:
            a = lf(mu[1]).a[0]
            for k, nm in ((1, "last"), (2, "dlast")):
                if a is lf(E.args[k]).a[0]:
                    got[nm] = (lf(mu[2]).a[0], lf(E.lget(rec.back[1][key[0]], key[1])))
    if set(got) != {"last", "dlast"}:
        raise Unknown("the moving pointers")
    for nm, (base, nx) in got.items():
        c.ob("block-move", "%s %s steps down" % (path, nm), nx.op == "ref" and nx.a[0] is base and down(nx.a[1]), "becomes %s" % show(nx))
    st = [e for e in E.events if e[1] == "store" and rec.id in e[3]]
    E.mem = {}
    want = E.load(leaf(mk("ref", got["last"][0], got["last"][1].a[1])))
    c.ob("block-move", path + " one element per round", len(st) == 1 and st[0][2][0] is got["dlast"][0] and down(st[0][2][1]), "stores %d elements" % len(st))
    if len(st) == 1:
        c.ob("block-move", path + " the same element", st[0][2][2] is want or same_val(E, DT, st[0][2][2], want), "stores %s" % (st[0][2][2],))
        c.ob("block-move", path + " always", restrict(st[0][0], rec.back[0]) is DT, "only when %s" % show_dd(st[0][0]))
    f, l = lf(E.args[0]), mk("ref", got["last"][0], ())
    on = rec.back[0]
    c.ob("block-move", path + " until the first", any(on is dnot(batom(mk("peq", x, y))) for x, y in ((f, l), (l, f))), "goes on while %s" % show_dd(on))


def half_area_of_union(E, src, i, j):
    save = E.mem
    E.mem = {}
    try:
        a, b = (E.expand(E.load(E.index_ref(src, (), x))) for x in (i, j))
    finally:
        E.mem = save
    ext = []
    for k in range(3):
        ext.append(sub(fmax(get(E, a, "bounds", "max", k), get(E, b, "bounds", "max", k)), fmin(get(E, a, "bounds", "min", k), get(E, b, "bounds", "min", k))))
    return add(add(mul(ext[0], ext[1]), mul(ext[1], ext[2])), mul(ext[2], ext[0]))


def big(l):
    return l.op == "poly" and (is_const(l) and cval(l) >= Fraction(3.4028234663852886e38) or any(t.op == "inf" for m, c in l.a[0] for t, _ in m))


def restrict_atom(d, a, val):
    b = batom(a)
    return restrict(d, b if val else dnot(b))


def radius_set(c, p):
    """the builder looks at least one position to each side"""
    def args(E, bi):
        ni = prog.body(p, LB + "::new")
        return [E.make(E.bodies[ni]["locals"][k], mk("v", "in", k)) for k in (1, 2)]
    E, r = prog.run(p, LB + "::new", args=args, hooks={"morton::MortonEncoder::new": lambda x: x.E.make(x.dty, mk("v", "encoder"))})
    c.fn(LB + "::new")
    never(c, "window-is-not-empty", LB + "::new", ilt(get(E, r, "search_radius"), K(1)), "looks at no other node")


def run(c):
    p = c.prog()
    box = []
    c.guard("search", PATH, lambda: box.append(Search(c, p)))
    if box:
        s = box[0]
        c.guard("tiling", PATH, s.tiling)
        c.guard("candidates", PATH, s.search)
        if hasattr(s, "info"):
            c.guard("window", PATH, s.window)
        if hasattr(s, "M"):
            c.guard("cache", PATH, s.cache)
            if s.moves:
                c.guard("block-move", "utils::move_backward", lambda: move_up(c, p))
    c.guard("radius", LB + "::new", lambda: radius_set(c, p))
    c.floor("search loops", 1)
