"""Ownership dataflow: values that have to be used up exactly once ("tokens") are followed through the MIR of the bodies that
own them.  Abstract state: for every local the token-carrying places that may hold one, plus facts that tell containers and
enum variants apart (what a reference points at, which variant/emptiness a boolean or discriminant stands for).  A forward
may-analysis to a fixpoint; reported are tokens that can be dropped, forgotten, overwritten or duplicated."""
import re
import mir

POPS = ("pop", "pop_front", "pop_back", "next", "next_back", "take", "try_recv")
EXACT_ONCE = ("scope", "spawn", "join", "install", "in_place_scope", "call_once", "spawn_fifo")
PASS = ("unwrap", "expect", "into_iter", "box_assume_init_into_vec_unsafe", "into_vec", "from", "into", "new", "unwrap_unchecked", "once", "rev", "ok", "map_init",
        "collect", "into_boxed_slice", "ok_or", "chain", "from_iter", "branch", "from_residual", "from_output", "push_return", "unwrap_or_else", "box_new", "fuse", "enumerate")
KEEP = ("push", "push_back", "push_front", "extend", "append", "insert", "reserve", "is_empty", "len", "swap", "capacity", "deref_mut", "deref", "as_mut_slice", "iter", "reverse",
        "first", "last", "get", "index", "as_ref", "is_some", "is_none", "sort_by_key", "sort_by", "sort_unstable_by_key", "sort_unstable_by", "peek", "rotate_left", "rotate_right", "eq", "fmt",
        "swap_with_slice", "by_ref")
GIVES = POPS + ("remove", "swap_remove", "replace", "split_off", "drain", "get_or_insert")


class Tokens:
    def __init__(self, c, p, is_token, ok_consume, label, bodies=None):
        """is_token(type) ; ok_consume(callee, operand index) -> the call uses the token up"""
        self.c, self.p, self.is_token, self.ok_consume, self.label = c, p, is_token, ok_consume, label
        self.memo = {}
        self.allb = {b["path"]: b for b in p["bodies"]}

    # ---- token paths inside a type
    def paths(self, ty, depth=0):
        if ty in self.memo:
            return self.memo[ty]
        self.memo[ty] = frozenset()
        t = self.p["types"][ty]
        out = set()
        k = t["k"]
        if self.is_token(t):
            out = {()}
        elif k in ("tuple", "closure"):
            for i, f in enumerate(t["f"]):
                out |= {(("f", i),) + q for q in self.paths(f, depth + 1)}
        elif k == "array" or k == "slice":
            out = {()} if self.paths(t["e"], depth + 1) else set()
        elif k == "adt":
            if t["path"] == "std::option::Option" or t["path"] == "std::result::Result":
                for v in ([1] if t["path"].endswith("Option") else [0, 1]):
                    a = t["args"][0 if t["path"].endswith("Option") else v]
                    out |= {(("d", v), ("f", 0)) + q for q in self.paths(a, depth + 1)}
            elif t["path"].endswith("PhantomData") or t["path"].endswith("MaybeUninit") and False:
                pass
            elif t.get("local") and t.get("vs"):
                n = len(t["vs"])
                for vi, v in enumerate(t["vs"]):
                    for i, f in enumerate(v["f"]):
                        out |= {((("d", vi),) if n > 1 else ()) + (("f", i),) + q for q in self.paths(f[1], depth + 1)}
            elif any(isinstance(a, int) and self.paths(a, depth + 1) for a in t["args"]):
                out = {()}
        self.memo[ty] = frozenset(out)
        return self.memo[ty]

    @staticmethod
    def proj(pl):
        return tuple((x[0], x[1]) if x[0] in ("f", "d") else (x[0],) for x in pl[1])

    def run(self, i, exempt_args=()):
        p, c, b = self.p, self.c, self.p["bodies"][i]
        L = b["locals"]
        tp = [self.paths(l) for l in L]
        tys = p["types"]
        if not any(tp):
            return 0
        where = b["path"]
        found = set()
        consumed = [0]

        def bad(rule, line, what):
            found.add((rule, "%s:%s" % (where, line), what))

        def held(st, l):
            return st[0].get(l, frozenset())

        def sel(st, pl):
            """tokens of a place, relative to it"""
            l, pr = pl[0], self.proj(pl)
            out = set()
            for q in held(st, l):
                n = min(len(q), len(pr))
                if q[:n] == pr[:n]:
                    out.add(q[len(pr):] if len(q) >= len(pr) else ())
            return out

        def clear(st, pl):
            l, pr = pl[0], self.proj(pl)
            st[0][l] = frozenset(q for q in held(st, l) if q[:len(pr)] != pr)

        def put(st, pl, qs):
            l, pr = pl[0], self.proj(pl)
            if any(x[0] == "*" for x in pr):
                return
            st[0][l] = held(st, l) | frozenset(pr + q for q in qs)

        def target(st, o):
            """place an operand (a reference) points at"""
            if o[0] in ("mv", "cp") and not o[1][1]:
                f = st[1].get(o[1][0])
                if f and f[0] == "ref":
                    return f[1]
            return None

        def pkey(pl):
            return (pl[0], tuple(tuple(x[:2]) if x[0] in ("f", "d") else (x[0],) for x in pl[1]))

        def resolve(st, pl):
            """follow a leading dereference of a known reference"""
            n = 0
            while pl[1] and pl[1][0][0] == "*" and n < 4:
                f = st[1].get(pl[0])
                if not f or f[0] != "ref":
                    return pl
                pl = [f[1][0], list(f[1][1]) + list(pl[1][1:])]
                n += 1
            return pl

        def take(st, o, line):
            """tokens that an operand moves"""
            if o[0] not in ("mv", "cp"):
                return set()
            pl = resolve(st, o[1])
            if any(x[0] == "*" for x in pl[1]) and pl is o[1]:
                return set()
            q = sel(st, pl)
            if q:
                if o[0] == "cp":
                    ty = self.optype(b, o)
                    if ty is not None and self.paths(ty):
                        bad("token-is-not-duplicated", line, "%s is copied" % self.label)
                    return set()
                clear(st, pl)
            return q

        def kill(st, l):
            """facts about local l or its content"""
            for k in [k for k, f in st[1].items() if k == l or (isinstance(f[1], tuple) and f[1] and f[1][0] == l and f[0] not in ("ref",))]:
                del st[1][k]

        def assign(st, pl, line):
            pl = resolve(st, pl)
            if sel(st, pl) and not any(x[0] == "*" for x in pl[1]):
                bad("token-is-not-lost", line, "%s may be overwritten" % self.label)
                clear(st, pl)
            if not pl[1]:
                kill(st, pl[0])
            return pl

        def empty(st, key):
            """the place turned out to hold nothing"""
            clear(st, [key[0], [list(x) for x in key[1]]])

        def learn(st, f, truth):
            """facts from a boolean"""
            if f is None:
                return
            k, a = f[0], f[1]
            if k == "not":
                learn(st, a, not truth)
            elif k == "empty" and truth:
                empty(st, a)
            elif k == "some" and not truth:
                drop_variant(st, a, 0)
            elif k == "iserr" and not truth:
                drop_variant(st, a, 0)
            elif k == "iserr0" and truth:
                drop_variant(st, a, 1)

        def drop_variant(st, key, v):
            """the enum at key is variant v"""
            pr = key[1]
            st[0][key[0]] = frozenset(q for q in held(st, key[0]) if not (q[:len(pr)] == pr and len(q) > len(pr) and q[len(pr)][0] == "d" and q[len(pr)][1] != v))
            # the place that was popped is empty if nothing came out
            for k, f in list(st[1].items()):
                if f[0] == "popped" and k == key[0] and not pr and v == 0:
                    empty(st, f[1])

        def stmt(st, s, line):
            if s[0] != "=":
                return
            dst, rv = s[1], s[2]
            kind = rv[0]
            got = {}
            facts = None
            if kind == "use":
                q = take(st, rv[1], line)
                got = q
                o = rv[1]
                if o[0] in ("mv", "cp") and not o[1][1]:
                    facts = st[1].get(o[1][0])
                elif o[0] in ("mv", "cp"):
                    r = resolve(st, o[1])
            elif kind == "ref" or kind == "rawptr" or kind == "addr":
                pl = resolve(st, rv[-1])
                facts = ("ref", pkey(pl))
            elif kind == "cast":
                o = rv[2]
                got = take(st, o, line)
                if o[0] in ("mv", "cp"):
                    f = st[1].get(o[1][0])
                    if not o[1][1]:
                        facts = f if f and f[0] == "ref" else None
                    elif self.paths(L[o[1][0]]):
                        facts = ("ref", (o[1][0], ()))
                    elif "MaybeUninit" in tys[L[o[1][0]]]["n"]:
                        facts = ("ref", (o[1][0], ()))
            elif kind == "agg":
                ad = rv[1]
                out = set()
                for i, o in enumerate(rv[2]):
                    q = take(st, o, line)
                    pre = ((("d", ad[2]),) if ad[0] == "adt" and len(tys[ad[1]]["vs"]) > 1 else ()) + (("f", i),)
                    if ad[0] == "array":
                        pre = ()
                        q = {()} if q else set()
                    out |= {pre + x for x in q}
                got = out
            elif kind == "disc":
                facts = ("disc", pkey(resolve(st, rv[1])))
            elif kind == "un" and rv[1] == "Not":
                o = rv[2]
                f = st[1].get(o[1][0]) if o[0] in ("mv", "cp") and not o[1][1] else None
                facts = ("not", f) if f else None
            elif kind == "bin":
                facts = self.compare(st, rv)
            else:
                for x in rv[1:]:
                    if isinstance(x, list) and x and x[0] == "mv":
                        if take(st, x, line):
                            bad("token-is-not-lost", line, "%s used in %s" % (self.label, kind))
            dl = assign(st, dst, line)
            if got:
                if any(x[0] == "*" for x in dl[1]):
                    # through a pointer: into the box it was taken from
                    f = st[1].get(dl[0])
                    if f and f[0] == "ref":
                        put(st, [f[1][0], []], {()})
                    else:
                        bad("token-is-not-lost", line, "%s is stored behind a pointer" % self.label)
                else:
                    if len(dl[1]) and not self.covers(L[dl[0]], dl):
                        put(st, [dl[0], []], {()})
                    else:
                        put(st, dl, got)
            if facts and not dst[1]:
                st[1][dst[0]] = facts

        def call(st, t, line):
            callee, ops, dst = t[1], t[2], t[3]
            qs = [take(st, o, line) for o in ops]
            nm = callee.get("name") or "?"
            dl = assign(st, dst, line) if dst is not None else None
            ret = set()
            fact = None
            dty = tp[dst[0]] if dst is not None and not dst[1] else (self.paths(self.placetype(b, dst)) if dst is not None else frozenset())
            moved = any(qs)
            local = callee["k"] == "fn" and (callee["crate"] in self.local_crates())
            refs = [(o, target(st, o)) for o in ops]
            refs = [(o, tg) for o, tg in refs if tg is not None and sel(st, [tg[0], [list(x) for x in tg[1]]]) is not None and self.tokplace(b, tg)]
            if callee["k"] != "fn":
                if moved or refs:
                    bad("token-is-not-lost", line, "%s goes to an unknown function" % self.label)
            elif moved and any(self.ok_consume(callee, i) for i, q in enumerate(qs) if q):
                consumed[0] += 1
                ret = dty
            elif moved and nm == "clone":
                bad("token-is-not-duplicated", line, "%s is cloned" % self.label)
            elif moved:
                if callee.get("inst") is not None and local or local:
                    ret = dty
                elif nm in ("drop", "forget") or callee["path"].startswith("std::mem::ManuallyDrop"):
                    bad("token-is-not-lost", line, "%s goes to %s" % (self.label, nm))
                elif nm in EXACT_ONCE and callee["crate"] in ("crossbeam_utils", "crossbeam", "rayon", "rayon_core", "core", "std"):
                    ret = dty
                elif nm in PASS and dty:
                    ret = dty
                elif nm in KEEP or nm == "replace":
                    pass
                else:
                    bad("token-is-not-lost", line, "%s goes to %s" % (self.label, callee["path"]))
            if not moved and dty and local:
                ret = dty
            elif not moved and dty and not refs and nm not in GIVES and nm not in ("deref",):
                # something made of nothing (Vec::new, None)
                if nm in ("new", "with_capacity", "default", "new_uninit"):
                    ret = set()
                else:
                    ret = dty
            for o, tg in refs:
                pl = [tg[0], [list(x) for x in tg[1]]]
                cur = sel(st, pl)
                mut = self.optype(b, o)
                shared = mut is not None and tys[mut]["k"] == "ref" and not tys[mut].get("mut")
                if moved and nm in KEEP:
                    put(st, pl, {()} if () in self.paths_at(b, tg) else self.paths_at(b, tg))
                elif nm == "swap" and len(refs) == 2:
                    pass
                elif nm in POPS:
                    if cur:
                        ret = ret | dty
                    if nm == "take":
                        clear(st, pl)
                    else:
                        fact = ("popped", tg)
                elif nm == "replace":
                    ret = ret | (dty if cur else frozenset())
                    clear(st, pl)
                    if moved:
                        put(st, pl, self.paths_at(b, tg))
                elif nm in GIVES:
                    ret = ret | (dty if cur else frozenset())
                    if nm == "split_off" or nm == "drain":
                        pass
                elif nm == "is_empty":
                    fact = ("empty", tg)
                elif nm == "len":
                    fact = ("len", tg)
                elif nm in ("is_some",):
                    fact = ("some", tg)
                elif nm in ("is_none",):
                    fact = ("not", ("some", tg))
                elif nm in ("is_err",):
                    fact = ("iserr", tg)
                elif nm in ("is_ok",):
                    fact = ("iserr0", tg)
                elif nm == "clone" and dty:
                    bad("token-is-not-duplicated", line, "%s is cloned" % self.label)
                elif shared:
                    # a reader; a reference into the container may come back
                    if dst is not None and not dst[1] and tys[L[dst[0]]]["k"] == "ref":
                        fact = ("ref", tg)
                elif nm in KEEP:
                    if dst is not None and not dst[1] and tys[L[dst[0]]]["k"] == "ref":
                        fact = ("ref", tg)
                elif local and not dty:
                    # a function of this crate that only borrows; its own body is analysed
                    pass
                elif cur:
                    bad("token-is-not-lost", line, "%s is handed to %s" % (self.label, callee["path"]))
            if nm == "swap" and len(refs) == 2:
                a, z = [[tg[0], [list(x) for x in tg[1]]] for _, tg in refs]
                u = sel(st, a) | sel(st, z)
                put(st, a, u)
                put(st, z, u)
            if nm == "append" and len(refs) == 2:
                a, z = [[tg[0], [list(x) for x in tg[1]]] for _, tg in refs]
                if sel(st, z):
                    put(st, a, {()})
                clear(st, z)
            if nm == "deref" and len(ops) == 1 or nm == "deref_mut":
                tg = target(st, ops[0])
                if tg is not None:
                    fact = ("ref", tg)
            if ret and dl is not None:
                put(st, dl, ret)
            if fact and dst is not None and not dst[1]:
                st[1][dst[0]] = fact

        # ---- fixpoint
        start = ({l: tp[l] for l in range(1, b["argc"] + 1) if tp[l] and l not in exempt_args}, {})
        ins = {0: start}
        work = [0]
        rounds = 0
        while work:
            n = work.pop()
            rounds += 1
            if rounds > 20000:
                bad("token-is-not-lost", 0, "the dataflow does not settle")
                break
            bb = b["blocks"][n]
            if bb.get("c"):
                continue
            st = (dict(ins[n][0]), dict(ins[n][1]))
            for s in bb["s"]:
                stmt(st, s, s[-1] if isinstance(s[-1], int) else 0)
            t = bb["t"]
            line = t[-1]
            outs = []
            if t[0] == "call":
                call(st, t, line)
                outs = [(m, st) for m in mir.succs(t)]
            elif t[0] == "drop":
                pl = resolve(st, t[1])
                if sel(st, pl):
                    bad("token-is-not-lost", line, "%s may be dropped" % self.label)
                clear(st, pl)
                outs = [(m, st) for m in mir.succs(t)]
            elif t[0] == "ret":
                for l in range(1, len(L)):
                    if held(st, l) and l not in exempt_args:
                        bad("token-is-not-lost", line, "%s may still be in %s when the function returns" % (self.label, self.lname(b, l)))
            elif t[0] == "sw":
                op = t[1]
                f = st[1].get(op[1][0]) if op[0] in ("mv", "cp") and not op[1][1] else None
                isb = tys[t[2]]["n"] == "bool"
                vals = [int(x[0]) for x in t[3]]
                for v, m in [(int(x[0]), x[1]) for x in t[3]] + [(None, t[4])]:
                    s2 = (dict(st[0]), dict(st[1]))
                    if f:
                        if isb:
                            learn(s2, f, bool(v) if v is not None else vals == [0])
                        elif f[0] == "disc":
                            if v is None and len(vals) == 1 and vals[0] in (0, 1):
                                drop_variant(s2, f[1], 1 - vals[0])
                            elif v is not None:
                                drop_variant(s2, f[1], v)
                        elif f[0] == "len" and v == 0:
                            empty(s2, f[1])
                    outs.append((m, s2))
            else:
                outs = [(m, st) for m in mir.succs(t)]
            for m, s in outs:
                if m not in ins:
                    ins[m] = (dict(s[0]), dict(s[1]))
                    work.append(m)
                    continue
                h, f = ins[m]
                nh = dict(h)
                for l, q in s[0].items():
                    nh[l] = nh.get(l, frozenset()) | q
                nf = {k: v for k, v in f.items() if s[1].get(k) == v}
                # a popped fact stays only if the popped value is still the same
                if any(nh.get(l, frozenset()) != h.get(l, frozenset()) for l in nh) or nf != f:
                    ins[m] = (nh, nf)
                    work.append(m)
        for rule, site, what in sorted(found):
            c.ob(rule, site, False, what)
        if not found:
            c.ob("token-is-not-lost", where, True)
        return consumed[0]

    def local_crates(self):
        return ("rtbvh", "rtbvh_rs")

    def lname(self, b, l):
        for n, pl in b.get("names") or []:
            if pl[0] == l and not pl[1]:
                return n
        return "_%d" % l

    def compare(self, st, rv):
        op, a, b = rv[1], rv[2], rv[3]

        def ln(o):
            f = st[1].get(o[1][0]) if o[0] in ("mv", "cp") and not o[1][1] else None
            return f[1] if f and f[0] == "len" else None

        def cv(o):
            return int(o[1]["v"]) if o[0] == "k" and "v" in o[1] and re.fullmatch(r"-?\d+", str(o[1]["v"])) else None
        if ln(a) and cv(b) is not None:
            tg, k = ln(a), cv(b)
        elif ln(b) and cv(a) is not None:
            tg, k = ln(b), cv(a)
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        else:
            return None
        if (op, k) in (("Eq", 0), ("Lt", 1), ("Le", 0)):
            return ("empty", tg)
        if (op, k) in (("Ne", 0), ("Ge", 1), ("Gt", 0)):
            return ("not", ("empty", tg))
        return None

    def placetype(self, b, pl):
        ty = b["locals"][pl[0]]
        for x in pl[1]:
            t = self.p["types"][ty]
            if x[0] == "f":
                ty = x[2] if len(x) > 2 else (t["f"][x[1]] if t["k"] in ("tuple", "closure") else None)
            elif x[0] == "*":
                ty = t.get("e", t["args"][0] if t.get("args") else None)
            elif x[0] == "d":
                continue
            else:
                ty = t.get("e")
            if ty is None:
                return None
        return ty

    def optype(self, b, o):
        return self.placetype(b, o[1]) if o[0] in ("mv", "cp") else None

    def tokplace(self, b, tg):
        return bool(self.paths_at(b, tg))

    def paths_at(self, b, tg):
        out = set()
        for q in self.paths(b["locals"][tg[0]]):
            n = min(len(q), len(tg[1]))
            if q[:n] == tg[1][:n]:
                out.add(q[len(tg[1]):] if len(q) >= len(tg[1]) else ())
        return out

    def covers(self, ty, pl):
        pr = self.proj(pl)
        return any(q[:min(len(q), len(pr))] == pr[:min(len(q), len(pr))] and len(q) >= len(pr) for q in self.paths(ty))
