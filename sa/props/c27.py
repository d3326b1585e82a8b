"""C27: validate answers whether every primitive index is in a leaf of the tree."""
from common import *
from c02 import ilt, ieq, off

EXPLAIN = ("The function that validate calls on the root is found in its call log and analysed by value flow on an arbitrary node, as one level of the recursion. Rules: on a leaf "
           "every prim_indices entry of its range is marked (every round of the marking loop, no break) and nothing else; on an inner node it is called for both children with the same marks, and "
           "only for these; validate starts with nothing marked at the root, whenever there is one; its answer is false if any of the marks 0..n is missing and true if "
           "none is (last-update abstraction of the answer, early exits included).")
ASSUME = ["the tree has no cycles (C07, C09, C10) and no index of n or more (it panics on these, which is documented behaviour of slices)"]
V = "bvh::Bvh::validate"


def isnode(p, t):
    t = p["types"][t]
    return t["k"] == "ref" and p["types"][t["e"]].get("path") == "bvh_node::BvhNode"


def node_at(E, args, tys, i):
    """index in the node list of the node that is passed"""
    me = mk("deref", mk("v", "self"))
    for v, t in zip(args, tys):
        if isnode(E, t):
            a = apply(None, lambda l: idx_of(l, me), v)
            return a
        if E["types"][t]["k"] in ("uint", "int"):
            return v
    raise Unknown("no node is passed on")


def idx_of(l, me):
    if l.op == "ref" and l.a[0] is me and len(l.a[1]) == 2 and l.a[1][0][0] == "f" and l.a[1][1][0] == "i":
        x = l.a[1][1][1]
        return x
    return None


def marksarg(p, tys):
    for k, t in enumerate(tys):
        y = p["types"][t]
        if y["k"] == "ref" and y.get("mut") and p["types"][y["e"]]["k"] in ("slice", "adt") and not isnode(p, t):
            return k
    raise Unknown("no marks are passed on")


def counter(L):
    t = L.k.leaf if isinstance(L.k, DD) else L.k
    return t if t is not None and t.op == "it" else single(t)


def at(E, ref, i):
    return apply(None, lambda l: fresh(E, elem_at(E, ref, l)), i) if i.atom is not None else fresh(E, elem_at(E, ref, i.leaf))


def run(c):
    p = c.prog()

    def go():
        # the walk: what validate calls that calls itself
        E, r = run_as(p, V, ["self", "n"])
        rec = sorted(set(e[2][0][4:] for e in E.events if e[1] == "call" and str(e[2][0]).startswith("rec:")))
        if len(rec) != 1:
            raise Unknown("one recursive walk expected: %s" % rec)
        walk = rec[0]
        answer(c, p, walk)
        level(c, p, walk)
    c.guard("walk", V, go)


def answer(c, p, walk):
    log = []

    def hook(x):
        k = marksarg(p, x.tys)
        i = mk("b", "i")
        INT_LO[i] = Fraction(0)
        before = at(x.E, x.vals[k], leaf(atom(i)))
        x.E.opaque_call("walk", x.vals, x.tys, x.dty)
        after = at(x.E, x.vals[k], leaf(atom(i)))
        log.append((x.E.guard, node_at(p, x.vals, x.tys, None), length(x.E, x.vals[k]), before, after, i, fields(x.E, x.vals[0])))
        return agg(x.dty, ())
    E, r = run_as(p, V, ["self", "n"], hooks={walk: hook}, raw_loops=True)
    c.fn(V)
    if len(log) != 1:
        raise Unknown("the walk is started %d times" % len(log))
    g, root, ln, before, after, i, me = log[0]
    n = E.args[1]
    some = dnot(ilt(length(E, me["nodes"]), leaf(ONE)))
    c.ob("starts-at-the-root", V + " when", prune(dxor(g, some)) is DF, "when %s" % show_dd(g)[:100])
    c.ob("starts-at-the-root", V + " node", root is leaf(ZERO), "at %s" % show_dd(root)[:100])
    c.ob("starts-unmarked", V + " marks", ln is n, "%s marks" % show_dd(ln)[:80])
    none = before
    c.ob("starts-unmarked", V, none is leaf(ZERO) or none is DF, "starts with %s" % show_dd(none)[:100])
    boolean = none is DF
    found = ite(g, after, none)
    # the loop that decides
    syms = [t for t in ddsyms(r) if t.op in ("mu", "brk")]
    ids = sorted(set(t.a[0] for t in syms if t.op in ("mu", "brk")))
    if len(ids) != 1:
        raise Unknown("the answer depends on %d loops" % len(ids))
    L = E.loops[ids[0]]
    it = counter(L)
    k = leaf(atom(it))
    missing = Subst({i: leaf(atom(it))}, E.make).v(found)
    missing = dnot(missing) if boolean else ieq(missing, leaf(ZERO))
    inn = ilt(k, n)
    gb = L.gback
    exits = L.exits or L.raw_exits
    for t in sorted((x for x in syms if x.op == "mu"), key=str):
        keys = [q for q, info in L.mus.items() if info[0] is t]
        if len(keys) != 1 or len(syms) > 1:
            raise Unknown("state of the answer")
        # a count of something stays above what it starts from
        b0 = L.init[keys[0]]
        if isinstance(b0, DD) and b0.atom is None and is_const(b0.leaf):
            d = apply(None, lambda x: psub(x, atom(t)), L.next[keys[0]])
            if all(is_const(x) and cval(x) >= 0 for x in leaves(d)):
                INT_LO[t] = cval(b0.leaf)
        # the answer as a statement about the state of the loop
        good, gn = r, Subst({t: L.next[keys[0]]}, E.make).v(r)
        ini = Subst({t: L.init[keys[0]]}, E.make).v(r)
        c.ob("answer", V + " begins with nothing missing", prune(ini) is DT, "begins with %s" % (ini,))
        c.ob("answer", V + " a missing one is noticed", prune(dand(dand(gb, missing), gn)) is DF, "not when %s" % show_dd(prune(dand(dand(gb, missing), gn)))[:120])
        c.ob("answer", V + " stays noticed", prune(dand(dand(gb, dnot(good)), gn)) is DF, "is forgotten")
        c.ob("answer", V + " a found one changes nothing", prune(dand(dand(gb, dand(good, dnot(missing))), dnot(gn))) is DF, "a found one counts as missing")
        stop = prune(dand(dand(inn, dnot(gb)), good))
        c.ob("answer", V + " all are looked at", stop is DF, "stops early when %s" % show_dd(stop)[:120])
        c.count("answers")
        return
    # early exit
    bs = [x for x in syms if x.op == "brk"]
    miss = DF
    for b in bs:
        cond = exits[b.a[1]][1]
        miss = dor(miss, cond)
    yes = DF
    for b in bs:
        yes = dor(yes, batom(b))
    w = prune(dand(r, dand(yes, miss)))
    c.ob("answer", V + " false once one is missing", w is DF, "true when %s" % show_dd(w)[:120])
    w = prune(dand(dnot(r), dnot(yes)))
    c.ob("answer", V + " true if none is missing", w is DF, "false when %s" % show_dd(w)[:120])
    w = prune(dand(inn, dxor(miss, missing)))
    c.ob("answer", V + " stops at a missing one", w is DF, "differs when %s" % show_dd(w)[:120])
    w = prune(dand(inn, dxor(gb, dnot(missing))))
    c.ob("answer", V + " all are looked at", w is DF, "differs when %s" % show_dd(w)[:120])
    c.count("answers")


def level(c, p, walk):
    bi = body(p, walk)
    b = p["bodies"][bi]
    tys = [b["locals"][i + 1] for i in range(b["argc"])]
    km = marksarg(p, tys)
    names = []
    for i, t in enumerate(tys):
        names.append("marks" if i == km else "node" if isnode(p, t) or p["types"][t]["k"] in ("uint", "int") else "self")
    if sorted(names) != ["marks", "node", "self"]:
        raise Unknown("arguments of the walk")
    E, r = run_as(p, bi, names)
    c.fn(walk)
    me = fields(E, E.args[names.index("self")])
    nv = E.args[names.index("node")]
    if not is_ref(nv):
        nv = elem_at(E, me["nodes"], nv.leaf)
    m, E.mem = E.mem, {}
    count, first = get(E, nv, "bounds", "extra1"), get(E, nv, "bounds", "extra2")
    E.mem = m
    isleaf = dnot(ilt(count, leaf(ZERO)))
    valid = dnot(ilt(first, leaf(ZERO)))
    region = E.args[km].leaf.a[0]
    marked = 0
    for e in E.events:
        if e[1] == "store" and e[2][0] is region:
            g, path, val, loops = e[0], e[2][1], e[2][2], e[3]
            what = "%s line %d" % (walk, e[5] or 0)
            if len(path) != 1 or path[0][0] != "i" or len(loops) != 1:
                c.ob("marks", what, False, "marks something else")
                continue
            L = E.loops[loops[0]]
            it = counter(L)
            k = leaf(atom(it))
            INT_LO.setdefault(it, Fraction(0))
            on = dand(dand(isleaf, valid), ilt(k, count))
            ix = path[0][1]
            ix = ix if isinstance(ix, DD) else leaf(ix)
            want = at(E, me["prim_indices"], apply(None, padd, first, k))
            c.ob("marks", what + " every entry of a leaf", prune(dand(on, dnot(g))) is DF and prune(dand(on, dnot(L.gback))) is DF,
                 "not when %s" % show_dd(prune(dand(on, dnot(dand(g, L.gback)))))[:120])
            c.ob("marks", what + " nothing else", prune(dand(g, dnot(on))) is DF, "also when %s" % show_dd(prune(dand(g, dnot(on))))[:120])
            c.ob("marks", what + " the primitive of the entry", same_under(on, ix, want), "marks %s, not %s" % (show_dd(ix)[:120], show_dd(want)[:120]))
            v = val if isinstance(val, DD) else leaf(val)
            c.ob("marks", what + " as found", v is DT or v.atom is None and is_const(v.leaf) and cval(v.leaf) != 0, "with %s" % show_dd(v)[:60])
            marked += 1
    c.ob("marks", walk, marked > 0, "never marks anything")
    inner = dand(valid, dnot(isleaf))
    cov = [DF, DF]
    for e in E.events:
        if e[1] == "call" and e[2][0] == "rec:" + walk:
            at_ = node_at(p, e[2][1], tys, None)
            subs = [None]
            if e[3]:
                it = counter(E.loops[e[3][-1]])
                subs = [Subst({it: leaf(const(q))}, E.make) for q in range(2)]
                INT_LO.setdefault(it, Fraction(0))
                x = prune(dand(dand(e[0], inner), dnot(ilt(leaf(atom(it)), leaf(const(2))))))
                c.ob("both-children", "%s rounds" % walk, x is DF, "more than two")
            for s in subs:
                g = s.v(e[0]) if s else e[0]
                a = s.v(at_) if s else at_
                ok = []
                for q in range(2):
                    here = prune(dand(g, ieq(a, off(first, q))))
                    cov[q] = dor(cov[q], here)
                    ok.append(here)
                x = prune(dand(g, dnot(dand(inner, dor(*ok)))))
                c.ob("both-children", "%s only these" % walk, x is DF, "also when %s" % show_dd(x)[:120])
            mk_ = e[2][1][km]
            s = is_ref(mk_) and mk_.atom is None and mk_.leaf.a[0] is region
            c.ob("both-children", "%s same marks" % walk, s and length(E, mk_) is length(E, E.args[km]), "other marks")
    for q in range(2):
        x = prune(dand(inner, dnot(cov[q])))
        c.ob("both-children", "%s child %d" % (walk, q), x is DF, "is left out when %s" % show_dd(x)[:120])
    c.count("levels")
