"""C25: the boxes of a spatial SAH tree contain the pieces of primitives below them."""
from common import *
from c02 import w, ilt, ieq, off, neg
from sweep import *
import binned, models, c07, c09
from c09 import P, RUN, measures, three, contents, task_of, task_of_clean, fresh_ints, val

EXPLAIN = ("The boxes passed to allocate_children are accumulated in loops.  For each loop an invariant is derived and checked: which range of the reference "
           "array each accumulated box (and each entry of the suffix boxes) covers.  Rules: whenever an object split is found its left box covers the "
           "references before the place and its right box those from it on, on the split axis; choosing the median instead keeps that; the boxes of a spatial split cover both parts "
           "after cutting and the fallback; the boxes arrive at the children of the node unchanged or larger, and no task shrinks its node's own box.")
ASSUME = ["references and pieces are kept (C09)", "cut boxes cover the triangle (C24)", "growing of boxes (C17)", "boxes are finite and within +-1e34"]


def covered(c, S, rule, site, hyps, conds, box, arr_, lo, hi, facts):
    """every component of the box covers the elements lo..hi of the array"""
    E = S.E
    S.etys[arr_.base], S.paths[arr_.base] = arr_.ety, ("aabb",)
    for kind, a in AX:
        x = get(E, box, kind, a)
        ok = S.holds(hyps, conds, x, arr_, kind, a, ("aabb",), lo, hi, facts)
        c.ob(rule, "%s %s%d" % (site, kind, a), ok, "the box need not contain the references")
        c.count("covered sides")


# ---------------------------------------------------------------- spatial split
def spatial_split(c, p, k):
    X = c09.Split(p, "apply_spatial_split", k)
    E, S = X.E, X.S
    c.fn(X.path)
    site = "%s axis %d" % (X.path, k)
    g, vals, mem = X.calls[0]
    rb, re, lb, rx = vals[1:5]
    h = X.old[k]
    last = [(h.base, h, h, h)]
    for rec in X.recs:
        ar = X.arrays(rec)
        if len(ar) > 1:
            raise Unknown("several arrays change in a loop")
        if ar:
            last = ar
        S.learn(rec, ar or [(last[0][2].base,) + (last[0][2],) * 3])
        c.count("loops")
    hyps = S.inv + S.outer(None)
    lead = contents(E, mem, X.refs[k])
    covered(c, S, "left-box", site + " left", hyps, [g], lb, lead, X.b, rb, S.facts)
    covered(c, S, "right-box", site + " right", hyps, [g], rx, lead, rb, re, S.facts)


# ---------------------------------------------------------------- object split
def find(c, p, was_sorted):
    path = P + "find_object_split"

    def setup(E, a):
        E.keep_sorted = "base"
        for i in range(1, len(a)):
            if a[i] is not None and p["types"][p["bodies"][body(p, path)]["locals"][i + 1]]["k"] == "bool":
                a[i] = was_sorted
                return
    n = c09.len_args(p, path)
    E, r = run_as(p, path, ["task", "begin", "end", "sorted"][:n], hooks=measures(p), raw_loops=True, setup=setup)
    c.fn(path)
    site = path + (" sorted" if was_sorted is DT else " unsorted")
    t0 = E.args[0]
    b, e = E.args[1], E.args[2]
    for x in (b, e):
        for t in patoms(x):
            INT_LO.setdefault(t, Fraction(0))
    inv = [dnot(ilt(e, off(b, 2)))]
    S = Sweep(E, inv, [b, e])
    m, E.mem = E.mem, {}
    refs = three(E, t0)
    E.mem = m
    arrs = []
    for x in refs:
        h = contents(E, E.mem, x)
        if h.ents:
            raise Unknown("references are written")
        arrs.append(h)
    idx, ax = get(E, r, "index"), get(E, r, "axis")
    idx = E.expand(idx) if isinstance(idx, Sym) else idx
    st = {"some": is_some(idx), "pay": idx.vs[1][0], "axis": ax}
    for sd in ("left_box", "right_box"):
        for kind, a in AX:
            st[(sd, kind, a)] = get(E, r, sd, kind, a)
    end = dict(st)
    recs = [rec for i, rec in sorted(E.loops.items())]
    hs = {}
    for rec in reversed(recs):
        hs[rec.id] = dict(st)
        ini, _ = S.maps(rec)
        st = dict((k, S.sub(v, ini)) for k, v in st.items())
    good = lambda h: [dor(dnot(h["some"]), x) for x in (ilt(b, h["pay"]), ilt(h["pay"], e), dnot(neg(h["axis"])), ilt(h["axis"], leaf(const(3))))]
    for rec in recs:
        accs = [(rec.header[k].base, rec.init[k], rec.header[k], rec.next[k]) for k, mm in rec.mus.items() if mm[3] == "arr"]
        h = hs[rec.id]
        kept = []
        for k in range(3):
            cond = dand(h["some"], ieq(h["axis"], leaf(const(k))))
            if poss([cond]) is None:
                continue
            for kind, a in AX:
                kept.append((h[("left_box", kind, a)], kind, a, cond, arrs[k].base, b, h["pay"]))
                kept.append((h[("right_box", kind, a)], kind, a, cond, arrs[k].base, h["pay"], e))
        S.learn(rec, [(x.base, x, x, x) for x in arrs], accs=accs, kept=kept, also=good(h))
        c.count("loops")
    hyps = S.inv + S.outer(None)
    for x in good(end):
        d = dnot(x)
        none(c, "split-place", site, S.cone(hyps, [d]) + [d], "the chosen place is outside of the range")
    for k in range(3):
        on = dand(end["some"], ieq(end["axis"], leaf(const(k))))
        covered(c, S, "left-box", "%s left axis %d" % (site, k), hyps, [on], get(E, r, "left_box"), arrs[k], b, end["pay"], S.facts)
        covered(c, S, "right-box", "%s right axis %d" % (site, k), hyps, [on], get(E, r, "right_box"), arrs[k], end["pay"], e, S.facts)


def spatial_search(c, p):
    """the search for a spatial split leaves the order that the object split refers to"""
    path = P + "find_spatial_split"
    n = c09.len_args(p, path)
    E, r = run_as(p, path, ["task", "begin", "end"][:n], hooks=measures(p), raw_loops=True)
    c.fn(path)
    s = [ev for ev in E.events if ev[1] == "sort"]
    c.ob("order-is-kept", path, not s, "references are sorted again")


# ---------------------------------------------------------------- one task
def task(c, p, k):
    calls = []
    FIND, APPLY = ("find_object_split", "find_spatial_split"), ("apply_object_split", "apply_spatial_split")

    def hook(x):
        E = x.E
        nm = x.path.rsplit("::", 1)[-1]
        n = len(calls) + 1
        if nm == FIND[0]:
            m, E.mem = E.mem, {}
            own = three(E, E.args[0])
            E.mem = m
            for s in own:
                r = lf(s).a[0]
                v = val(E, E.region(r))
                E.mem[r] = coll(v.len, arr(mk("v", "found", n, r), v.arr.ety))
        v = E.make(x.dty, mk("v", nm, n))
        calls.append((nm, E.guard, x.vals, dict(E.mem), v))
        return v
    hk = measures(p)
    for b_ in p["bodies"]:
        if b_["path"].startswith("aabb::") and b_["path"].endswith("::longest_axis"):
            hk[b_["path"]] = lambda x: leaf(const(k))
    for n in FIND + APPLY:
        body(p, P + n)
        hk[P + n] = hook
    E, r = run_as(p, RUN, ["task"], hooks=hk, raw_loops=True)
    c.fn(RUN)
    site = "%s axis %d" % (RUN, k)
    t0 = E.args[0]
    _, (b, e, s) = task_of_clean(E)
    m, E.mem = E.mem, {}
    refs = three(E, t0)
    me = get(E, t0, "work_item", "node")
    pool = E.slice_of(get(E, t0, "allocator", "nodes", "slice"))
    box0 = get(E, elem_at(E, pool, lf(me)), "bounds")
    E.mem = m
    for x in (b, e, s):
        for t in patoms(x):
            INT_LO.setdefault(t, Fraction(0))
    box1 = get(E, elem_at(E, pool, lf(me)), "bounds")
    for kind, a in AX:
        never(c, "own-box-is-not-shrunk", "%s %s%d" % (site, kind, a), bad(kind, get(E, box1, kind, a), pre(E, box0, kind, a)), "a task shrinks its node's box")
    inv = [dnot(ilt(e, b)), dnot(ilt(s, e))]
    fo = [x for x in calls if x[0] == FIND[0]]
    ao = [x for x in calls if x[0] == APPLY[0]]
    if len(fo) != 1 or not ao:
        raise Unknown("%d searches and %d splits" % (len(fo), len(ao)))
    found = fo[0][4]
    fi, fa = get(E, found, "index"), get(E, found, "axis")
    fi = E.expand(fi) if isinstance(fi, Sym) else fi
    fsome, fpay = is_some(fi), fi.vs[1][0]
    S = Sweep(E, inv, [b, e])
    arrs = [contents(E, fo[0][3], x) for x in refs]
    # what the search promises
    inv2 = [dor(dnot(fsome), x) for x in (ilt(b, fpay), ilt(fpay, e))]
    S.inv += inv2
    base_facts = []
    for kind, a in AX:
        for sd, lo, hi in (("left_box", b, fpay), ("right_box", fpay, e)):
            x = lf(get(E, found, sd, kind, a))
            base_facts.append((single(x), kind, a, lo, hi))
    for rec in [rec for i, rec in sorted(E.loops.items())]:
        if any(mm[3] == "arr" and any(key[0] is lf(x).a[0] for x in refs) for key, mm in rec.mus.items()):
            raise Unknown("references change in a loop")
        new = S.learn(rec, [(arrs[k].base,) + (arrs[k],) * 3], extra=middles(E, ao))
        c.count("loops")
    hyps = S.inv + S.outer(None)
    for nm, g, vals, mem, v in ao:
        sp = vals[1]
        m, E.mem = E.mem, dict(mem)
        idx, ax = get(E, sp, "index"), get(E, sp, "axis")
        idx = E.expand(idx) if isinstance(idx, Sym) else idx
        bx = [get(E, sp, "left_box"), get(E, sp, "right_box")]
        now = [contents(E, mem, x) for x in refs]
        E.mem = m
        some, pay = is_some(idx), idx.vs[1][0]
        two = dnot(ilt(e, off(b, 2)))
        on = [g, two, some]
        q, = fresh_ints("q")
        for what, x in (("the place is not inside of the range", dor(dnot(ilt(b, pay)), dnot(ilt(pay, e)))), ("there is no such axis", dor(neg(ax), dnot(ilt(ax, leaf(const(3))))))):
            pre_ = [dor(neg(fa), dnot(ilt(fa, leaf(const(3)))))]
            none(c, "split-place", "%s %s: %s" % (site, nm, what), S.inv + [dnot(y) for y in pre_] + on + [x], what)
        for j in range(3):
            onj = on + [ieq(ax, leaf(const(j)))]
            if poss(S.inv + onj) is None:
                continue
            fj = [Fact(mu, kind, a, arrs[j].base, lo, hi, ("aabb",), dand(fsome, ieq(fa, leaf(const(j))))) for mu, kind, a, lo, hi in base_facts]
            src = now[j]
            if j != k:
                S.etys[arrs[j].base], S.paths[arrs[j].base] = arrs[j].ety, ("aabb",)
            on_found = list(onj)
            covered(c, S, "left-box", "%s %s left axis %d" % (site, nm, j), hyps, onj, bx[0], src, b, pay, S.facts + fj)
            covered(c, S, "right-box", "%s %s right axis %d" % (site, nm, j), hyps, onj, bx[1], src, pay, e, S.facts + fj)
        c.count("object splits")


def middles(E, ao):
    """places where the splits are made"""
    out = []
    for nm, g, vals, mem, v in ao:
        m, E.mem = E.mem, dict(mem)
        idx = get(E, vals[1], "index")
        E.mem = m
        idx = E.expand(idx) if isinstance(idx, Sym) else idx
        for l in leaves(idx.vs[1][0]):
            if leaf(l) not in out:
                out.append(leaf(l))
    return out


def passed_on(c, p, k):
    """the boxes of an object split become those of its parts"""
    X = c09.Split(p, "apply_object_split", k)
    E = X.E
    g, vals, mem = X.calls[0]
    sp = E.args[1]
    for nm, x in (("left_box", vals[3]), ("right_box", vals[4])):
        for kind, a in AX:
            never(c, "boxes-are-passed-on", "%s axis %d %s %s%d" % (X.path, k, nm, kind, a), dand(g, bad(kind, get(E, x, kind, a), pre(E, sp, nm, kind, a))), "a smaller box is used")


def run(c):
    p = c.prog()
    for s in (DT, DF):
        c.guard("find", P + "find_object_split", lambda: find(c, p, s))
    c.guard("order-is-kept", P + "find_spatial_split", lambda: spatial_search(c, p))
    for k in range(3):
        c.guard("task", "%s axis %d" % (RUN, k), lambda: task(c, p, k))
        c.guard("boxes-are-passed-on", P + "apply_object_split axis %d" % k, lambda: passed_on(c, p, k))
        c.guard("spatial-split", P + "apply_spatial_split axis %d" % k, lambda: spatial_split(c, p, k))
    c.guard("children", P + "allocate_children", lambda: c09.children(c, p, True))
    c.floor("covered sides", 100)
    c.floor("object splits", 3)
