"""C21: nothing is read or written through a pointer or SIMD load that is stricter aligned than the data."""
import re
from common import *
import mir

EXPLAIN = ("Aligned SIMD loads and stores: the address of each is traced back (through callers where it is a parameter) to a typed "
           "place, and the type's alignment and the field offsets (compiler layouts) must give a multiple of the access size. Pointer "
           "casts: wherever a pointer or reference is turned into one to a stricter aligned type, the same program must make such "
           "pointers from the stricter type in the first place (a round trip through the C interface's node handles), or the result "
           "must only be used by unaligned accesses.")
ASSUME = ["handles passed to the C interface are the ones it returned, unchanged"]
ALIGNED = re.compile(r"^_mm(\d*)_(load|store|stream|stream_load)_(ps|pd|si\d+|epi\d+)$")
BYTES = {"": 16, "256": 32, "512": 64}


def align(p, t):
    """alignment of a type; None if it depends on a type parameter"""
    k = p["types"][t]
    if k["k"] in ("slice", "array"):
        return align(p, k["e"])
    l = k.get("layout")
    if isinstance(l, dict):
        return l["align"]
    if k["k"] in ("int", "uint", "float", "bool", "char") or re.match(r"^[iuf]\d+$|^[iu]size$|^bool$|^char$", k["n"]):
        return {"8": 1, "16": 2, "32": 4, "64": 8, "128": 16, "ize": 8}.get(re.sub(r"^[a-z]+?(\d+|ize)$", r"\1", k["n"]), 4 if k["n"] == "char" else 1)
    if k["k"] in ("ref", "ptr", "fnptr"):
        return 8
    if k["k"] == "tuple":
        return max([1] + [align(p, x) or 0 for x in k["f"]])
    return None


def size(p, t):
    k = p["types"][t]
    l = k.get("layout")
    if isinstance(l, dict):
        return l["size"]
    if k["k"] == "array":
        n = k.get("len", k.get("c"))
        s = size(p, k["e"])
        return None if s is None or not isinstance(n, int) else n * s
    m = re.match(r"^[iuf](\d+)$", k["n"])
    if m:
        return int(m.group(1)) // 8
    return None


def aligned_at(E, p, ref, need):
    """'yes', 'no: why', or None when it depends on the caller"""
    l = ref
    region = l.a[0]
    t = E.rty.get(region)
    if t is None:
        return "no: unknown memory"
    k = p["types"][t]
    if isinstance(region, T) and region.op == "deref" and k["k"] not in ("adt", "array") and not l.a[1]:
        return None
    path = list(l.a[1])
    if l.op == "sref":
        path.append(("i", l.a[2]))
    a = align(p, t)
    if a is None:
        return "no: alignment of %s is unknown" % k["n"]
    if a % need:
        return ("no: %s is aligned to %d" % (k["n"], a)) if k["k"] in ("adt", "array", "slice") else None
    off = 0
    for s in path:
        k = p["types"][t] if t is not None else {}
        if s[0] == "f" and isinstance(k.get("layout"), dict):
            off += k["layout"]["offs"][s[1]]
            t = k["f"][s[1]] if k["k"] == "tuple" else k["vs"][0]["f"][s[1]][1]
        elif s[0] == "i" and k.get("k") in ("slice", "array"):
            e = size(p, k["e"])
            i = s[1]
            if isinstance(i, T) and i is ZERO:
                e = 0
            elif e is not None and e % need and isinstance(i, T) and cint(i) is not None:
                e = e * cint(i)
            if e is None or e % need:
                return "no: element %s of %s" % (i, k["n"])
            t = k["e"]
        elif s[0] == "i":
            # pointer arithmetic on the place itself
            e = size(p, t) if t is not None else None
            i = s[1]
            if i is ZERO:
                continue
            if e is None or (e % need and (cint(i) is None or (e * cint(i)) % need)):
                return "no: moved by %s elements" % (i,)
        else:
            return "no: cannot follow %r" % (s,)
    if off % need:
        return "no: at offset %d" % off
    return "yes"


def cint(t):
    try:
        v = t.a[0] if t.op == "c" else None
        return int(v) if v is not None and v == int(v) else None
    except Exception:
        return None


def simd(c, p, nm):
    callers = {}
    direct = {}
    for i, b in enumerate(p["bodies"]):
        for n, callee, ops, dest, line in mir.calls(b):
            if callee["k"] != "fn":
                continue
            m = ALIGNED.match(callee["name"])
            if m and callee["crate"] in ("core", "std", "core_arch"):
                direct.setdefault(i, []).append((callee["name"], line))
                c.count("aligned SIMD accesses")
            if callee.get("inst") is not None:
                callers.setdefault(callee["inst"], set()).add(i)
    done = {}

    def decide(i, depth=0):
        """all aligned accesses below body i, as seen from it"""
        if i in done:
            return
        done[i] = True
        b = p["bodies"][i]
        c.fn(b["path"])
        E = Engine(p)
        args = [E.make(b["locals"][k + 1], mk("v", "arg%d" % k)) for k in range(b["argc"])]
        E.args = args
        E.call_body(i, args)
        up = False
        seen = 0
        for g, k, pl, ls, st, ln in E.events:
            if k not in ("simdload", "simdstore"):
                continue
            seen += 1
            for asg, l in paths(pl[0], 64):
                if l is BOT:
                    continue
                r = aligned_at(E, p, l, 16)
                site = "%s (%s:%s)" % (b["path"], (st[-1] if st else "?").rsplit("::", 1)[-1], ln)
                if r is None:
                    up = True
                else:
                    c.ob("simd-access-is-aligned", site, r == "yes", r)
        if not seen:
            c.ob("simd-access-is-aligned", b["path"], False, "the access was not followed")
        if up:
            cs = callers.get(i, ())
            c.ob("simd-access-is-aligned", b["path"] + " callers", bool(cs) and depth < 4, "the address is given by unknown callers")
            for j in cs:
                decide(j, depth + 1)
    for i, accs in sorted(direct.items()):
        known = all(n in ("_mm_load_ps",) for n, _ in accs)
        c.ob("simd-access-is-known", p["bodies"][i]["path"], known, "no rule for %s" % accs)
        if known:
            c.guard("simd-access-is-aligned", p["bodies"][i]["path"], lambda: decide(i))


def pointee(p, t):
    k = p["types"][t]
    return k["e"] if k["k"] in ("ref", "ptr") else None


def place_type(p, b, pl):
    t = b["locals"][pl[0]]
    for s in pl[1]:
        if s[0] == "f":
            t = s[2] if len(s) > 2 and isinstance(s[2], int) else None
        elif s[0] == "d":
            t = pointee(p, t)
        else:
            return None
        if t is None:
            return None
    return t


def casts(c, p, nm):
    ups, pairs = [], set()
    for b in p["bodies"]:
        if not b.get("local"):
            continue
        c.count("bodies")
        for bb in b["blocks"]:
            for s in bb["s"]:
                if s[0] == "=" and s[2][0] == "cast" and s[2][1] in ("PtrToPtr", "Transmute") and s[2][2][0] in ("cp", "mv"):
                    a, z = place_type(p, b, s[2][2][1]), s[2][3]
                    if a is None or pointee(p, a) is None or pointee(p, z) is None:
                        continue
                    note(p, b, pointee(p, a), pointee(p, z), s[1], s[-1], ups, pairs)
            t = bb["t"]
            if t[0] == "call" and t[1]["k"] == "fn" and re.search(r"ptr::.*(cast|cast_mut|cast_const)$|NonNull.*::cast$", t[1]["path"]) and t[1]["name"] == "cast":
                ar = [x for x in t[1]["args"] if isinstance(x, int)]
                if len(ar) >= 2:
                    note(p, b, ar[0], ar[1], t[3], t[-1], ups, pairs)
    for b, a, z, dest, line in ups:
        an, zn = p["types"][a]["n"], p["types"][z]["n"]
        site = "%s:%s %s -> %s" % (b["path"], line, an, zn)
        ok = (zn, an) in pairs or unaligned_use(p, b, dest)
        c.ob("cast-keeps-alignment", site, ok, "alignment rises from %s to %s" % (align(p, a), align(p, z)))
        c.count("casts that raise the alignment")
    c.count("pointer casts", len(pairs))


def note(p, b, a, z, dest, line, ups, pairs):
    x, y = align(p, a), align(p, z)
    pairs.add((p["types"][a]["n"], p["types"][z]["n"]))
    if x is not None and y is not None and y > x:
        ups.append((b, a, z, dest, line))


def unaligned_use(p, b, dest):
    """a cast result that is only handed to unaligned accesses"""
    if dest[1]:
        return False
    l = dest[0]
    n = 0
    alias = {l}
    for bb in b["blocks"]:
        for s in bb["s"]:
            if s[0] != "=":
                continue
            if uses(s[2], alias):
                if s[2][0] == "use" and not s[1][1]:
                    alias.add(s[1][0])
                    continue
                return False
            if s[1][0] in alias and s[1][1]:
                return False
        t = bb["t"]
        if t[0] == "call" and any(uses(o, alias) for o in t[2]):
            if t[1]["k"] == "fn" and t[1]["name"] in ("read_unaligned", "write_unaligned"):
                n += 1
                continue
            return False
    return n > 0


def uses(x, ls):
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], list) and x[1] and x[1][0] in ls:
            return True
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and x[0] in ls:
            return True
        return any(uses(y, ls) for y in x)
    return False


def run(c):
    for nm in ("rtbvh", "rtbvh_rs"):
        p = c.prog(nm)
        simd(c, p, nm)
        casts(c, p, nm)
    c.floor("bodies", 100)
