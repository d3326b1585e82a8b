"""Small dataflow toolkit over the extracted MIR bodies (no evaluation)."""
import re


def generic(p, b):
    """the body still has type parameters"""
    return any(p["types"][a]["k"] == "param" for a in b["args"])


def calls(b, cleanup=False):
    """(block, callee, operands, destination, line) of every call of a body"""
    for n, bb in enumerate(b["blocks"]):
        if bb.get("c") and not cleanup:
            continue
        t = bb["t"]
        if t[0] == "call":
            yield n, t[1], t[2], t[3], t[-1]


def succs(t):
    """normal successors of a terminator"""
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "sw":
        return [x[1] for x in t[3]] + [t[4]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "drop":
        return [t[3]]
    if k == "assert":
        return [t[4]]
    return []


def name(p, b):
    return b["path"]


def carries(p, ty, pred, memo=None, depth=0):
    """set of pred results of types stored inside a type (through type arguments, fields of tuples and closures)"""
    if memo is None:
        memo = {}
    if ty in memo:
        return memo[ty]
    memo[ty] = frozenset()
    t = p["types"][ty]
    r = pred(t)
    if r is not None:
        memo[ty] = frozenset([r])
        return memo[ty]
    out = set()
    k = t["k"]
    if k == "adt":
        if not t["path"].endswith("PhantomData"):
            for a in t["args"]:
                out |= carries(p, a, pred, memo, depth + 1)
            if t.get("local"):
                for v in t["vs"]:
                    for f in v["f"]:
                        out |= carries(p, f[1], pred, memo, depth + 1)
    elif k in ("tuple",):
        for a in t["f"]:
            out |= carries(p, a, pred, memo, depth + 1)
    elif k in ("array", "slice"):
        out |= carries(p, t["e"], pred, memo, depth + 1)
    elif k == "closure":
        for a in t["f"]:
            out |= carries(p, a, pred, memo, depth + 1)
    memo[ty] = frozenset(out)
    return memo[ty]


def mentioned_closures(p, callee):
    """closures among the type arguments of a call, as body indices"""
    out = []
    todo = list(callee.get("args") or []) + list(callee.get("rargs") or [])
    seen = set()
    while todo:
        a = todo.pop()
        if a in seen or not isinstance(a, int):
            continue
        seen.add(a)
        t = p["types"][a]
        if t["k"] == "closure":
            out.append(t)
        todo += [x for x in (t.get("args") or []) if isinstance(x, int)]
        if t["k"] == "tuple":
            todo += t["f"]
        if t["k"] in ("ref", "ptr", "slice", "array"):
            todo.append(t["e"])
    return out


def reaching(p, pattern):
    """bodies that may call something matching the pattern, directly, through what they call or in closures they make"""
    rx = re.compile(pattern)
    paths = {}
    for i, b in enumerate(p["bodies"]):
        paths.setdefault(b["path"], []).append(i)
    direct, users = set(), {}
    for i, b in enumerate(p["bodies"]):
        for _, cal, *_r in calls(b):
            if rx.search(cal["path"]) or rx.search(cal.get("rpath") or ""):
                direct.add(i)
            if cal.get("inst") is not None:
                users.setdefault(cal["inst"], set()).add(i)
        m = re.match(r"(.*)::\{closure[^{}]*\}$", b["path"])
        for o in paths.get(m.group(1), []) if m else ():
            users.setdefault(i, set()).add(o)
    todo, out = list(direct), set(direct)
    while todo:
        for u in users.get(todo.pop(), ()):
            if u not in out:
                out.add(u)
                todo.append(u)
    return out


def closures_made(p, i):
    """closures written inside of a body"""
    pre = p["bodies"][i]["path"] + "::{closure"
    return {k for k, b in enumerate(p["bodies"]) if b["path"].startswith(pre) and b["path"].endswith("}")}
