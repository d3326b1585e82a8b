"""C20: concurrent node allocation hands out each pair of nodes once, in bounds."""
from common import *
from c02 import ilt, ieq, off
import mir, c07, re

EXPLAIN = ("Value-flow of the allocator and of the slice wrapper under it, plus an effect analysis of the shared counter: allocation is one atomic "
           "read-modify-write that adds two, and its result v alone decides which nodes are handed out (v and v+1, the same numbers and references); "
           "the counter starts behind the root and is otherwise only read, so pairs of different calls are disjoint under every interleaving. The wrapper's accessors "
           "give exactly the elements asked for, every constructor of it points at the start of its slice, and other ways to reach nodes by index are only used "
           "with the node a task owns.")
ASSUME = ["atomic read-modify-write operations of one location are totally ordered", "fewer than 2^63 allocations"]
ST = "builders::AtomicNodeStack"
WR = "utils::UnsafeSliceWrapper"
PRE = WR + "::<'a, T>::"


def is_elem_ref(l, reg, i):
    return l.op == "ref" and l.a[0] is reg and l.a[1] == (("i", i),)


def wrapper(c, p):
    """accessors of the wrapper over shared slices"""
    def inv(E, v):
        ptr, s = E.expand(v).fs if isinstance(v, Sym) else v.fs
        s = lf(E.slice_of(s))
        return is_elem_ref(lf(ptr), s.a[0], ZERO) and s.a[2] is ZERO and s.a[3], s
    E, r = run_as(p, PRE + "new", ["array"])
    k, s = inv(E, r)
    c.ob("wrapper-covers-its-slice", PRE + "new", k and same_under(DT, E.slice_of(r.fs[1]), E.slice_of(E.args[0])), "pointer and slice differ: %s" % (r,))
    E, r = run_as(p, "<utils::UnsafeSliceWrapper<'a, T> as std::clone::Clone>::clone", ["self"])
    me = fresh(E, E.args[0])
    c.ob("wrapper-covers-its-slice", PRE + "clone", all(a is b or lf(a) is lf(b) for a, b in zip(r.fs, me.fs)), "a clone points elsewhere: %s" % (r,))
    for nm in ("get", "get_mut"):
        E, r = run_as(p, PRE + nm, ["self", "idx"])
        reg = lf(E.slice_of(fresh(E, E.args[0]).fs[1])).a[0]
        c.fn(PRE + nm)
        n = E.slen(E.slice_of(fresh(E, E.args[0]).fs[1]))
        g = ilt(E.args[1], n)
        v = r.vs[1][0]
        x = restrict(v, dand(g, is_some(r)))
        never(c, "accessor-gives-the-element", PRE + nm, dand(g, apply(None, lambda l: FALSE if is_elem_ref(l, reg, lf(E.args[1])) else TRUE, v) if isinstance(v, DD) else DT), "gives %s" % (v,))
        never(c, "accessor-gives-the-element", PRE + nm + " some", dand(g, dnot(is_some(r))), "gives nothing")
    E, r = run_as(p, PRE + "set", ["self", "idx", "val"])
    reg = lf(E.slice_of(fresh(E, E.args[0]).fs[1])).a[0]
    m = E.mem.get(reg)
    q = mk("v", "q")
    INT_LO[q] = Fraction(0)
    g = ilt(E.args[1], E.slen(E.slice_of(fresh(E, E.args[0]).fs[1])))
    if isinstance(m, Sym):
        m = E.expand(m)
    if not isinstance(m, Coll):
        c.ob("accessor-writes-the-element", PRE + "set", False, "nothing is written")
    else:
        ws = m.arr.ents
        c.ob("accessor-writes-the-element", PRE + "set", len(ws) == 1 and ws[0][0] == "w" and ws[0][3] == () and ws[0][4] is E.args[2] and same_under(g, ieq(ws[0][2], E.args[1]), DT)
             and same_under(g, ws[0][1], DT), "writes %s" % (ws,))
    E, r = run_as(p, PRE + "range", ["self", "start", "end"])
    s = E.slice_of(fresh(E, E.args[0]).fs[1])
    g = dand(ilt(E.args[1], E.args[2]), dnot(ilt(E.slen(s), E.args[2])))
    l = lf(E.slice_of(r))
    c.ob("accessor-gives-the-range", PRE + "range", l.op == "sref" and l.a[0] is lf(s).a[0] and l.a[1] == (), "gives %s" % show(l))
    if l.op == "sref":
        never(c, "accessor-gives-the-range", PRE + "range start", dand(g, dnot(ieq(leaf(l.a[2]), E.args[1]))), "starts elsewhere")
        never(c, "accessor-gives-the-range", PRE + "range length", dand(g, dnot(ieq(leaf(l.a[3]), apply(None, psub, E.args[2], E.args[1])))), "another length")
    for nm in ("as_mut", "as_slice"):
        E, r = run_as(p, PRE + nm, ["self"])
        s = E.slice_of(fresh(E, E.args[0]).fs[1])
        c.ob("accessor-gives-the-range", PRE + nm, lf(E.slice_of(r)) is lf(s), "gives %s" % (r,))
    E, r = run_as(p, PRE + "len", ["self"])
    c.ob("accessor-gives-the-range", PRE + "len", lf(r) is lf(E.slen(E.slice_of(fresh(E, E.args[0]).fs[1]))), "gives %s" % (r,))
    c.count("accessors", 8)


def allocator(c, p):
    site = ST + "::new"
    E, r = run_as(p, ST + "::<'a>::new", ["counter", "nodes"])
    c.fn(ST + "::<'a>::new", ST + "::<'a>::allocate")
    ctr = lf(E.args[0])
    ev = [e for e in E.events if e[1] == "atomic"]
    st, first = [fresh(E, r).fs[0], r.fs[1]]
    last = [e for e in ev if e[2][0] in ("store", "swap")]
    c.ob("counter-starts-behind-the-root", site, len(ev) == len(last) == 1 and ev[0][0] is DT and lf(ev[0][2][1]) is ctr and lf(ev[0][2][2]) is ONE, "the counter starts at %s" % (ev,))
    f = fields(E, st)
    c.ob("allocator-uses-its-arguments", site + " counter", lf(f["counter"]) is ctr, "another counter")
    nd = fields(E, f["nodes"])
    s = E.slice_of(nd["slice"])
    c.ob("allocator-uses-its-arguments", site + " nodes", lf(s) is lf(E.slice_of(E.args[1])), "other nodes")
    c.ob("root-is-node-0", site, is_elem_ref(lf(first), lf(s).a[0], ZERO), "the first node is %s" % (first,))
    E, r = run_as(p, "<builders::AtomicNodeStack<'a> as std::clone::Clone>::clone", ["self"])
    a, b = fields(E, r), fields(E, E.args[0])
    c.ob("clones-share-the-allocator", ST + "::clone", lf(a["counter"]) is lf(b["counter"]) and lf(E.slice_of(get(E, a["nodes"], "slice"))) is lf(E.slice_of(get(E, b["nodes"], "slice"))),
         "a clone has its own counter or nodes")
    # allocate
    site = ST + "::allocate"
    E, r = run_as(p, ST + "::<'a>::allocate", ["self"])
    me = fields(E, E.args[0])
    ctr = lf(me["counter"])
    ev = [e for e in E.events if e[1] == "atomic"]
    ok = len(ev) == 1 and ev[0][0] is DT and lf(ev[0][2][1]) is ctr
    c.ob("one-atomic-step", site, ok, "%d atomic operations: %s" % (len(ev), [(e[2][0], str(e[2][1])) for e in ev]))
    if not ok:
        return
    op = ev[0][2]
    c.ob("one-atomic-step", site + " adds two", op[0] == "fetch_add" and lf(op[2]) is const(2), "%s %s" % (op[0], op[2]))
    v = op[-1]
    for t in ddsyms(v):
        INT_LO[t] = Fraction(1)
    s = E.slice_of(get(E, me["nodes"], "slice"))
    n = E.slen(s)
    reg = lf(s).a[0]
    some = is_some(r)
    pay = fields(E, r.vs[1][0])
    for nm, d in (("left", 0), ("right", 1)):
        never(c, "numbers-are-the-reserved-pair", "%s %s" % (site, nm), dand(some, dnot(ieq(pay[nm], off(v, d)))), "%s is another node" % nm)
        x = pay[nm + "_node"]

        def wrong(l, i):
            return FALSE if l.op == "ref" and l.a[0] is reg and len(l.a[1]) == 1 and l.a[1][0][1] is i else TRUE
        never(c, "references-are-the-reserved-pair", "%s %s_node" % (site, nm), dand(some, apply(None, wrong, x, off(v, d))), "%s_node is another node" % nm)
    # v and the length are odd
    h, k = mk("v", "half_v"), mk("v", "half_len")
    INT_LO[h] = INT_LO[k] = Fraction(0)
    odd = dand(ieq(v, leaf(padd(pscale(atom(h), 2), ONE))), ieq(n, leaf(padd(pscale(atom(k), 2), ONE))))
    never(c, "pair-is-in-bounds", site, dand(dand(odd, some), dnot(ilt(pay["right"], n))), "a node outside of the pool is handed out")
    never(c, "gives-nodes-while-there-are-some", site, dand(dand(odd, dnot(some)), ilt(off(v, 1), n)), "fails although there is room")
    for e in E.events:
        if e[1] in ("assume", "assert", "unwrap", "diverge"):
            pass
    for w, kind, where, ln in panics(E):
        never(c, "allocation-does-not-panic", "%s:%s" % (where, ln), dand(odd, w), "can panic")
    c.count("allocators")


def provenance(p, b, op, depth=0):
    """place an operand was copied from, through copies and references in this body"""
    if op[0] not in ("mv", "cp") or depth > 12:
        return None
    pl = op[1]
    defs = []
    for bb in b["blocks"]:
        for s in bb["s"]:
            if s[0] == "=" and s[1][0] == pl[0] and not s[1][1]:
                defs.append(s[2])
        t = bb["t"]
        if t[0] == "call" and t[3] is not None and t[3][0] == pl[0] and not t[3][1]:
            defs.append(["call"])
    if pl[0] <= b["argc"]:
        return pl
    if len(defs) != 1:
        return None
    d = defs[0]
    if d[0] == "use" and d[1][0] in ("mv", "cp"):
        src = d[1][1]
        return provenance(p, b, ["cp", [src[0], list(src[1]) + list(pl[1])]], depth + 1)
    if d[0] == "ref":
        rest = list(pl[1])
        if rest and rest[0][0] == "*":
            rest = rest[1:]
        src = d[-1]
        return provenance(p, b, ["cp", [src[0], list(src[1]) + rest]], depth + 1)
    return None


def field_names(p, b, pl):
    ty = b["locals"][pl[0]]
    out = []
    for x in pl[1]:
        t = p["types"][ty]
        if x[0] == "*":
            ty = t["e"]
        elif x[0] == "f":
            if t["k"] == "adt":
                out.append(t["vs"][0]["f"][x[1]][0])
            ty = x[2]
    return out


def effects(c, p):
    """who touches the counter and the nodes"""
    for i, b in enumerate(p["bodies"]):
        if not b["local"]:
            continue
        own = b["path"].startswith((ST, "<" + ST))
        for bb in b["blocks"]:
            for s in bb["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt":
                    t = p["types"][s[2][1][1]]["path"]
                    if t == ST:
                        c.ob("only-the-allocator-makes-allocators", "%s:%s" % (b["path"], s[-1]), own, "built by hand")
                        c.count("allocator constructions")
                    elif t == WR:
                        c.ob("only-the-wrapper-makes-wrappers", "%s:%s" % (b["path"], s[-1]), b["path"].startswith((WR, "<" + WR)), "built by hand")
                for pl in places(s):
                    ty = b["locals"][pl[0]]
                    for x in pl[1]:
                        t = p["types"][ty] if ty is not None else None
                        if t is None:
                            break
                        if x[0] == "*":
                            ty = t.get("e")
                        elif x[0] == "f":
                            if t["k"] == "adt" and t["path"] in (ST, WR):
                                c.ob("private-fields-stay-private", "%s:%s" % (b["path"], s[-1]), own and t["path"] == ST or b["path"].startswith((WR, "<" + WR)), "reads a field of %s" % t["path"])
                                c.count("field accesses")
                            ty = x[2]
        for n, callee, ops, dest, line in mir.calls(b):
            if callee["k"] == "fn" and callee["path"] in (ST + "::<'a>::get_mut", ST + "::<'a>::get") and not own:
                pl = provenance(p, b, ops[1])
                nm = field_names(p, b, pl) if pl and pl[0] == 1 else None
                c.ob("nodes-by-number-only-for-the-own-node", "%s:%s" % (b["path"], line), bool(nm) and nm[-1] == "node", "the node number is not the task's own")
                c.count("accesses by number")


def places(s):
    out = []
    if s[0] != "=":
        return out
    out.append(s[1])
    st = [s[2]]
    while st:
        x = st.pop()
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(isinstance(y, list) and y and isinstance(y[0], str) for y in x[1]):
                out.append(x)
            else:
                st += [y for y in x if isinstance(y, list)]
    return out


def builders(c, p):
    """the counter of a build is started by the allocator and afterwards only read"""
    for b in p["bodies"]:
        if not (b["identity"] and re.match(r"<builders::.* as builders::BuildAlgorithm>::build$", b["path"])):
            continue
        if not any(cal["k"] == "fn" and cal["path"] == ST + "::<'a>::new" for _, cal, _, _, _ in mir.calls(b)):
            continue
        path = b["path"]

        def one(path=path):
            E, r, ctr, pool, ids, g = setup_of(p, path)
            site = path
            evs = [e for e in E.events if e[1] == "atomic" and lf(e[2][1]) is ctr]
            for e in evs:
                if e[2][0] != "load":
                    c.ob("counter-is-started-once", "%s:%s" % (site, e[5]), e[4] and any(ST in x for x in e[4]), "the counter is changed by %s outside of the allocator" % e[2][0])
            c.ob("counter-is-started-once", site, sum(e[2][0] != "load" for e in evs) == 1, "%d writes" % sum(e[2][0] != "load" for e in evs))
            # the pool has an odd number of nodes, or one for every node of a tree with a leaf per id
            n = pool
            odd = apply(None, lambda k: TRUE if all(x.denominator == 1 and x % 2 == 0 for x in coeffs(k)) else FALSE, apply(None, lambda k: psub(k, ONE), restrict(n, g)))
            big = zones.possible(dand(g, ilt(off(n, 1), apply(None, lambda k: pscale(k, 2), ids)))) is None
            c.ob("pool-is-handed-out-in-pairs", site, prune(odd) is DT or big, "the pool has %s nodes" % show_dd(restrict(n, g))[:200])
            c.fn(path)
            c.count("builds")
        c.guard("counter-is-started-once", path, one)
    for i, b in enumerate(p["bodies"]):
        if b["local"] and b["identity"] and re.match(r"<.* as utils::Task>::run$", b["path"]):
            c.count("tasks")


def coeffs(k):
    """coefficients of a polynomial"""
    return [c for _, c in k.a[0]]


def setup_of(p, path):
    calls = []

    def spawn(x):
        E = x.E
        f = fields(E, x.vals[1])
        calls.append((E.guard, f, dict(E.mem)))
        return UNITV
    hk = {"utils::TaskSpawner::run": spawn}
    for b in p["bodies"]:
        if re.search(r"(^|::)Aabb(::<.*>)?::union_of_list$", b["path"]):
            hk[b["path"]] = lambda x: x.E.make(x.dty, mk("union", x.vals[0]))
    E, r = run_as(p, path, ["self"], hooks=hk)
    if len(calls) != 1:
        raise Unknown("%d task spawners" % len(calls))
    g, f, mem = calls[0]
    al = fields(E, f["allocator"])
    return E, r, lf(al["counter"]), E.slen(E.slice_of(get(E, al["nodes"], "slice"))), length_of(E, f["prim_indices"]), g


def length_of(E, v):
    """number of ids of a slice or wrapped slice"""
    if isinstance(v, DD):
        return E.slen(E.slice_of(v))
    return E.slen(E.slice_of(get(E, v, "slice")))


def run(c):
    p = c.prog()
    c.guard("wrapper", WR, lambda: wrapper(c, p))
    c.guard("allocator", ST, lambda: allocator(c, p))
    c.guard("effects", ST, lambda: effects(c, p))
    c.guard("builders", "builders", lambda: builders(c, p))
    c.floor("allocators", 1)
    c.floor("accessors", 8)
    c.floor("builds", 2)
    c.floor("allocator constructions", 2)
