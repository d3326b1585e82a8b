"""C28: depth and leaf size limits of the SAH builders."""
import re
from common import *
from c02 import ilt, ieq, off
import binned, c09
from c07 import field_list

EXPLAIN = ("Path conditions of every way out of a build task (value flow over its MIR, searches and splits as black boxes): rules: a task that makes its node a leaf has at "
           "most one reference, or is at the depth limit, or has no more references than the leaf limit, or the split it chose leaves one side empty (binned) or no split exists "
           "(spatial); a task at the depth limit or with one reference is never split; the median split of the spatial builder is strictly inside of the task. The limits "
           "are followed from Builder::primitives_per_leaf through every construct_* function to the first task, and the depth limit is a constant.")
ASSUME = ["children are one level deeper and the first task is at depth 0 (C07, C09)", "every task is run once (C19)"]
LIMIT = 64


def ge(a, b):
    return dnot(ilt(a, b))


def limits(E, t0):
    m, E.mem = E.mem, {}
    b = fields(E, t0["builder"])
    E.mem = m
    return b["max_depth"], b["max_leaf_size"]


def sized(c, site, hyps, some, n, depth, maxd, maxl, excuse):
    big = [ge(n, leaf(const(2))), ilt(depth, maxd)]
    c09.none(c, "leaf-limit", site, hyps + big + [ilt(maxl, n), dnot(some), dnot(excuse)], "a node above the leaf limit is not split")
    c09.none(c, "depth-limit", site, hyps + [some, ge(depth, maxd)], "a node at the depth limit is split")
    c09.none(c, "single-is-a-leaf", site, hyps + [some, ilt(n, leaf(const(2)))], "a single reference is split")


def binned_task(c, p):
    T = binned.Task(p)
    E, some = T.E, T.some
    c.fn(binned.RUN)
    n = E.slen(E.slice_of(T.t0["prim_indices"]))
    b, e = T.t0["begin"], T.t0["end"]
    inv = [ieq(n, apply(None, psub, e, b)), ge(e, b)]
    for x in (b, e, T.t0["depth"], n):
        for t in patoms(x):
            INT_LO.setdefault(t, Fraction(0))
    maxd, maxl = limits(E, T.t0)
    mid = leaf(atom(mk("v", "count")))
    excuse = dand(T.part["guard"], dor(ilt(mid, leaf(ONE)), ge(mid, n))) if T.part else DF
    sized(c, binned.RUN, inv, some, n, T.t0["depth"], maxd, maxl, excuse)
    c.count("tasks")


def spatial_task(c, p):
    calls = []

    def hook(x):
        nm = x.path.rsplit("::", 1)[-1]
        v = x.E.make(x.dty, mk("v", nm, len(calls) + 1))
        calls.append((nm, x.E.guard, x.vals, v))
        return v
    hk = c09.measures(p)
    for nm in ("find_object_split", "find_spatial_split", "apply_object_split", "apply_spatial_split"):
        body(p, c09.P + nm)
        hk[c09.P + nm] = hook
    E, r = run_as(p, c09.RUN, ["task"], hooks=hk)
    c.fn(c09.RUN)
    t0 = E.args[0]
    m1, E.mem = E.mem, {}
    _, (b, e, s) = c09.task_of(E)
    depth = pre(E, t0, "work_item", "depth")
    f0 = fields(E, t0)
    E.mem = m1
    for x in (b, e, s, depth):
        for t in patoms(x):
            INT_LO.setdefault(t, Fraction(0))
    n = apply(None, psub, e, b)
    maxd, maxl = limits(E, f0)
    some = is_some(r)
    excuse = DF
    for nm, g, vals, v in calls:
        if nm == "find_object_split":
            excuse = dor(excuse, dand(g, dnot(is_some(E.expand(get(E, v, "index"))))))
    inv = [ge(e, b), ge(s, e)]
    sized(c, c09.RUN, inv, some, n, depth, maxd, maxl, excuse)
    for nm, g, vals, v in calls:
        if nm == "apply_object_split":
            ix = get(E, vals[1], "index")
            ix = E.expand(ix) if isinstance(ix, Sym) else ix
            c09.none(c, "split-exists", c09.RUN, inv + [g, dnot(is_some(ix))], "an object split without an index is applied")
            pay = ix.vs[1][0]
            found = [mk("v", "find_object_split", k + 1) for k, x in enumerate(calls) if x[0] == "find_object_split"]
            for l in leaves(restrict(pay, dand(g, is_some(ix)))):
                if any(f in deep(l) for f in found):
                    continue          # an index the search has found (C25)
                on = inv + [g, is_some(ix), c09.paths_to(pay, l)]
                for d in (ilt(leaf(l), off(b, 1)), ge(leaf(l), e)):
                    x = divfree(on, d, l)
                    c09.none(c, "median-is-inside", c09.RUN, x, "the median split leaves one side empty")
                c.count("median splits")
    c.count("tasks")


def deep(t, acc=None):
    """all terms inside of a term"""
    acc = set() if acc is None else acc
    if t in acc:
        return acc
    acc.add(t)
    stack = list(t.a)
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            deep(x, acc)
        elif isinstance(x, (tuple, list)):
            stack.extend(x)
    return acc


def divfree(on, d, l):
    """integer quotients by their bounds: q = x div k means k q <= x < k q + k for x of at least 0"""
    out = list(on) + [d]
    for t in set(u for x in out for a in atoms(x) for u in deep(a) if u.op == "idiv") | set(u for u in deep(l) if u.op == "idiv"):
        x, k = t.a[0], t.a[1]
        k = k if isinstance(k, T) else const(k)
        if is_const(k):
            q = pscale(atom(t), cval(k))
            out += [dnot(ilt(leaf(x), leaf(q))), ilt(leaf(x), leaf(padd(q, k)))]
    return out


def options(c, p):
    BLD = {"builders::binned_sah::BinnedSahBuilder": None, "builders::spatial_sah::SpatialSahBuilder": None}
    builds = [b["path"] for b in p["bodies"] if re.search(r"(Binned|Spatial)SahBuilder(<.*>|::<.*>)?( as .*>)?::build$", b["path"]) and b["identity"]]
    sites = 0
    for b in p["bodies"]:
        if not b["local"] or "::construct_" not in b["path"] or "{" in b["path"] or not b["identity"]:
            continue
        used = []

        def build(x):
            m = fields(x.E, x.vals[0])
            used.append((x.E.guard, m, x.path))
            return x.E.make(x.dty, mk("v", "built", len(used)))
        hk = dict((q["path"], lambda x: x.E.make(x.dty, mk("v", "other"))) for q in p["bodies"] if re.search(r"^<?builders::.*::build$", q["path"]))
        hk.update((q, build) for q in builds)
        E, r = run_as(p, b["path"], ["self"] + ["x%d" % i for i in range(b["argc"] - 1)], hooks=hk)
        if not used:
            continue
        m, E.mem = E.mem, {}
        want = get(E, E.args[0], "primitives_per_leaf")
        E.mem = m
        want = E.expand(want) if isinstance(want, Sym) else want
        for g, f, path in used:
            c.fn(b["path"], path)
            some = is_some(want)
            pay = scalar(E, want.vs[1][0])
            site = "%s" % b["path"]
            x = prune(dand(dand(g, some), dnot(ieq(f["max_leaf_size"], pay))))
            c.ob("asked-leaf-size", site + " given", x is DF, "is %s" % show_dd(f["max_leaf_size"])[:120])
            x = prune(dand(dand(g, dnot(some)), dnot(ilt(f["max_leaf_size"], leaf(const(2))))))
            c.ob("asked-leaf-size", site + " not given", x is DF, "is %s" % show_dd(f["max_leaf_size"])[:120])
            d = f["max_depth"]
            ok = d.atom is None and is_const(d.leaf) and 1 <= cval(d.leaf) <= LIMIT
            c.ob("depth-limit-is-fixed", site, ok, "is %s" % show_dd(d)[:80])
            sites += 1
            c.count("constructions")
    c.ob("asked-leaf-size", "construct_*", sites >= 3, "%d uses of the SAH builders found" % sites)
    # the first task has the builder's own limits
    for path in builds:
        got = []

        def spawn(x):
            got.append((x.E.guard, fields(x.E, x.vals[1])))
            b = fields(x.E, got[-1][1]["builder"])
            got[-1] += ((b["max_depth"], b["max_leaf_size"]),)
            return UNITV
        body(p, "utils::TaskSpawner::run")
        hk = {"utils::TaskSpawner::run": spawn}
        for b in p["bodies"]:
            if re.search(r"(^|::)Aabb(::<.*>)?::union_of_list$", b["path"]):
                hk[b["path"]] = lambda x: x.E.make(x.dty, mk("union", x.vals[0]))
        E, r = run_as(p, path, ["self"], hooks=hk)
        c.fn(path)
        m, E.mem = E.mem, {}
        me = fields(E, E.args[0])
        E.mem = m
        for g, f, lim in got:
            for q, v in zip(("max_depth", "max_leaf_size"), lim):
                c.ob("task-has-the-limits", "%s %s" % (path, q), same_under(g, v, me[q]), "is %s" % show_dd(v)[:100])
        c.ob("task-has-the-limits", path, len(got) == 1, "%d first tasks" % len(got))
        c.count("builders")


def scalar(E, v):
    for _ in range(5):
        if isinstance(v, DD):
            return v
        v = fresh(E, v)
        if isinstance(v, Agg):
            v = v.fs[0]
    raise Unknown("the number asked for")


def run(c):
    p = c.prog()
    c.guard("leaf-limit", binned.RUN, lambda: binned_task(c, p))
    c.guard("leaf-limit", c09.RUN, lambda: spatial_task(c, p))
    c.guard("asked-leaf-size", "options", lambda: options(c, p))
