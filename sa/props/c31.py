"""C31: the locks of the C interface cannot deadlock, and the caller's callbacks run with none of them held."""
import re
from common import *
import mir

EXPLAIN = ("May-held lock analysis of the C interface's MIR: guards are followed from their acquisition through moves, returns and drops "
           "on every path, with call summaries (locks acquired, foreign functions called) over the resolved call graph including closures. Rules: "
           "the relation 'acquired while held' between lock classes (the locked type) is acyclic and irreflexive, no function pointer "
           "of the caller runs while a lock is held, no guard is leaked, and no lock is bypassed.")
ASSUME = ["locks are told apart by the type they protect"]
LOCKCRATES = ("lock_api", "parking_lot", "parking_lot_core")
BYPASS = ("force_unlock", "force_unlock_read", "force_unlock_write", "data_ptr", "raw", "make_read_guard_unchecked", "make_write_guard_unchecked", "make_guard_unchecked",
          "leak", "bump", "unlocked")
LEAK = ("std::mem::forget", "std::mem::ManuallyDrop::<T>::new", "std::boxed::Box::<T, A>::leak", "std::boxed::Box::<T, A>::into_raw")


def guard_of(p):
    def pred(t):
        if t["k"] == "adt" and re.search(r"(RwLock\w*|Mutex\w*|Mapped\w*)Guard$", t["path"]) and t["path"].rsplit("::", 1)[0] != "std::array":
            return p["types"][t["args"][-1]]["n"] if t["args"] else t["n"]
        return None
    return pred


class Locks:
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.memo = {}
        self.pred = guard_of(p)
        self.closures = {}
        for i, b in enumerate(p["bodies"]):
            if "{closure" in b["path"]:
                self.closures.setdefault(b["path"], []).append(i)
        self.summ = {}
        self.edges = {}

    def held_types(self, ty):
        return mir.carries(self.p, ty, self.pred, self.memo)

    def callee_bodies(self, callee):
        if callee.get("inst") is not None:
            return [callee["inst"]]
        out = []
        for t in mir.mentioned_closures(self.p, callee):
            out += self.closures.get(t["path"], [])
        return out

    def acquires(self, callee, dest, b):
        """lock classes this call itself acquires"""
        if callee["k"] != "fn" or callee.get("inst") is not None:
            return set()
        if callee["crate"] in LOCKCRATES or (callee.get("self_adt") or "").startswith("std::sync"):
            if re.match(r"(try_)?(read|write|lock|upgradable_read|upgrade)", callee["name"]):
                ty = b["locals"][dest[0]]
                return set(self.held_types(ty)) or {"?"}
        return set()

    def summary(self, i, stack=()):
        """(classes acquired, calls a foreign function pointer) anywhere below body i"""
        if i in self.summ:
            return self.summ[i]
        if i in stack:
            return set(), False
        b = self.p["bodies"][i]
        acq, ptr = set(), False
        for n, callee, ops, dest, line in mir.calls(b):
            if callee["k"] != "fn":
                ptr = True
                continue
            acq |= self.acquires(callee, dest, b)
            for j in self.callee_bodies(callee):
                a, q = self.summary(j, stack + (i,))
                acq |= a
                ptr |= q
        if not stack:
            self.summ[i] = (acq, ptr)
        return acq, ptr

    def flow(self, i):
        """held guards per block: local -> may hold"""
        p, b, c = self.p, self.p["bodies"][i], self.c
        args = frozenset(l for l in range(1, b["argc"] + 1) if self.held_types(b["locals"][l]))
        ins = {0: args}
        work = [0]
        guards = {l for l in range(len(b["locals"])) if self.held_types(b["locals"][l])}
        if not guards:
            return 0
        sites = {}
        while work:
            n = work.pop()
            held = set(ins[n])
            bb = b["blocks"][n]

            def move(op):
                """guard moved out of an operand"""
                if op[0] == "mv" and op[1][0] in held:
                    if not op[1][1]:
                        held.discard(op[1][0])
                    return True
                return False
            for s in bb["s"]:
                if s[0] != "=":
                    continue
                moved = any(move(o) for o in operands(s[2]))
                if moved and s[1][0] in guards:
                    held.add(s[1][0])
            t = bb["t"]
            if t[0] == "drop" and not t[1][1]:
                held.discard(t[1][0])
            elif t[0] == "call":
                callee, ops, dest, line = t[1], t[2], t[3], t[-1]
                moved = [o for o in ops if move(o)]
                sites[(n, line)] = (frozenset(held), callee, dest, line, bool(moved))
                if dest is not None and dest[0] in guards:
                    held.add(dest[0])
            for m in mir.succs(t):
                new = ins.get(m, frozenset()) | held
                if m not in ins or new != ins[m]:
                    ins[m] = new
                    work.append(m)
        nsites = 0
        for (n, line), (held, callee, dest, _, moved) in sorted(sites.items(), key=lambda x: x[0]):
            hs = set()
            for l in held:
                hs |= self.held_types(b["locals"][l])
            site = "%s:%s" % (b["path"], line)
            if callee["k"] == "fn" and callee["path"] in LEAK and moved:
                c.ob("guard-is-released", site, False, "the guard is leaked by %s" % callee["path"])
            if not hs:
                continue
            nsites += 1
            if callee["k"] != "fn":
                c.ob("no-callback-under-lock", site, False, "a function pointer runs while %s is locked" % sorted(hs))
                continue
            acq, ptr = self.acquires(callee, dest, b), False
            for j in self.callee_bodies(callee):
                a, q = self.summary(j)
                acq |= a
                ptr |= q
            if ptr:
                c.ob("no-callback-under-lock", site, False, "%s calls a function pointer while %s is locked" % (callee["path"], sorted(hs)))
            for h in hs:
                for a in acq:
                    self.edges.setdefault((h, a), []).append(site)
        return nsites


def operands(rv):
    """operands of an rvalue"""
    out = []
    for x in rv[1:]:
        if isinstance(x, list) and x and x[0] in ("mv", "cp"):
            out.append(x)
        elif isinstance(x, list):
            out += [y for y in x if isinstance(y, list) and y and y[0] in ("mv", "cp")]
    return out


def run(c):
    p = c.prog("rtbvh_rs")
    L = Locks(c, p)
    acq = 0
    for i, b in enumerate(p["bodies"]):
        if not b["local"] and not b["path"].startswith(("rtbvh::", "<rtbvh::")):
            continue
        for n, callee, ops, dest, line in mir.calls(b):
            if callee["k"] == "fn" and callee["crate"] in LOCKCRATES:
                if callee["name"] in BYPASS:
                    c.ob("locks-are-not-bypassed", "%s:%s" % (b["path"], line), False, callee["path"])
            if L.acquires(callee, dest, b):
                acq += 1
                c.ob("known-lock-class", "%s:%s" % (b["path"], line), "?" not in L.acquires(callee, dest, b), "the acquired lock's type is unknown")
        if mir.generic(p, b) and b["identity"]:
            continue
        c.fn(b["path"])
        k = L.flow(i)
        c.count("calls with a lock held", k or 0)
        c.count("bodies")
    for (h, a), sites in sorted(L.edges.items()):
        c.ob("no-relock", "%s -> %s" % (h, a), h != a, "acquired again at %s" % sites[:3])
    # acyclic
    g = {}
    for h, a in L.edges:
        g.setdefault(h, set()).add(a)

    def reach(x, y, seen):
        for z in g.get(x, ()):
            if z == y or (z not in seen and reach(z, y, seen | {z})):
                return True
        return False
    for h, a in sorted(L.edges):
        if h != a:
            c.ob("lock-order", "%s -> %s" % (h, a), not reach(a, h, {a}), "the opposite order also occurs: %s" % L.edges[(h, a)][:3])
    # foreign callbacks
    for b in p["bodies"]:
        if b["local"]:
            for n, callee, ops, dest, line in mir.calls(b):
                if callee["k"] != "fn":
                    c.count("callback sites")
                    c.ob("no-callback-under-lock", "%s:%s" % (b["path"], line), True)
    c.count("acquisitions", acq)
    c.floor("acquisitions", 4)
    c.floor("callback sites", 4)
