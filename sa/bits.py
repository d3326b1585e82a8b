"""Bit-provenance abstract interpretation of integer code.

Every bit of every integer is abstracted to 0, 1, "the disjunction of these input bits" or
unknown.  Only code whose control flow does not depend on the input is accepted, so the fixed
point is reached by following that flow; nothing is run."""

T = "T"          # unknown bit


class Undecided(Exception):
    pass


def b_or(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0:
        return a
    if a == T or b == T:
        return T
    return a | b


def b_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a == b and a != T:
        return a
    return T


def b_not(a):
    return 1 - a if a in (0, 1) else T


def b_xor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a in (0, 1) and b in (0, 1):
        return a ^ b
    if a == b and a != T:
        return 0
    return T


class Int:
    """bits, least significant first; s: signed"""
    __slots__ = ("bits", "s")

    def __init__(self, bits, s):
        self.bits = tuple(bits)
        self.s = s

    def value(self):
        if any(b not in (0, 1) for b in self.bits):
            return None
        v = sum(b << i for i, b in enumerate(self.bits))
        if self.s and self.bits[-1]:
            v -= 1 << len(self.bits)
        return v

    def top(self):
        """an upper bound of an unsigned value"""
        return sum(1 << i for i, b in enumerate(self.bits) if b != 0)

    def __repr__(self):
        v = self.value()
        return str(v) if v is not None else "".join("." if b == 0 else "1" if b == 1 else "?" if b == T else "b" for b in reversed(self.bits))


def num(v, w, s=False):
    return Int([(v >> i) & 1 for i in range(w)], s)


def add(a, b, c=0):
    out = []
    for x, y in zip(a.bits, b.bits):
        out.append(b_xor(b_xor(x, y), c))
        c = b_or(b_or(b_and(x, y), b_and(x, c)), b_and(y, c))
    return Int(out, a.s), c


def shl(a, n):
    w = len(a.bits)
    return Int(([0] * min(n, w) + list(a.bits))[:w], a.s)


def shr(a, n):
    f = a.bits[-1] if a.s else 0
    return Int((list(a.bits[n:]) + [f] * len(a.bits))[:len(a.bits)], a.s)


def flag(b):
    return Int((b,), False)


class Ref:
    __slots__ = ("frame", "local", "path")

    def __init__(self, frame, local, path):
        self.frame, self.local, self.path = frame, local, path


class Variant:
    __slots__ = ("v", "fs")

    def __init__(self, v, fs):
        self.v, self.fs = v, fs


class Machine:
    def __init__(self, p, fuel=20000):
        self.p = p
        self.types = p["types"]
        self.fuel = fuel
        self.functions = set()
        self.asserts = 0

    # types
    def width(self, ty):
        t = self.types[ty]
        if t["k"] == "bool":
            return 1, False
        if t["k"] == "char":
            return 32, False
        if t["k"] == "int":
            n = t["n"]
            w = {"isize": 64, "usize": 64}.get(n) or int(n[1:])
            return w, n[0] == "i"
        raise Undecided("a value of type %s" % t["n"])

    def call(self, body, args):
        b = self.p["bodies"][body] if isinstance(body, int) else body
        self.functions.add(b["path"])
        fr = {i + 1: a for i, a in enumerate(args)}
        n = 0
        while True:
            self.fuel -= 1
            if self.fuel < 0:
                raise Undecided("%s does not end within the bound" % b["path"])
            bb = b["blocks"][n]
            for s in bb["s"]:
                if s[0] == "=":
                    self.write(fr, s[1], self.rvalue(b, fr, s[2]))
                elif s[0] in ("live", "dead", "nop", "sl", "sd"):
                    pass
                else:
                    raise Undecided("statement %s" % s[0])
            t = bb["t"]
            k = t[0]
            if k == "goto":
                n = t[1]
            elif k == "ret":
                return fr.get(0)
            elif k == "drop":
                n = t[3]
            elif k == "assert":
                v = self.operand(fr, t[1])
                if v.value() is None or (v.value() != 0) != bool(t[2]):
                    raise Undecided("%s line %s may panic (%s)" % (b["path"], t[-1], t[3]))
                self.asserts += 1
                n = t[4]
            elif k == "sw":
                v = self.operand(fr, t[1])
                if isinstance(v, Int):
                    x = v.value()
                    if x is None:
                        raise Undecided("%s line %s branches on the input" % (b["path"], t[-1]))
                    x &= (1 << len(v.bits)) - 1
                else:
                    raise Undecided("branch on %s" % (v,))
                n = t[4]
                for c, tgt in t[3]:
                    if int(c) == x:
                        n = tgt
                        break
            elif k == "call":
                self.write(fr, t[3], self.callee(fr, t[1], [self.operand(fr, o) for o in t[2]], t[3], b))
                if t[4] is None:
                    raise Undecided("%s line %s panics" % (b["path"], t[-1]))
                n = t[4]
            else:
                raise Undecided("terminator %s" % k)

    def callee(self, fr, c, args, dest, b):
        nm = c.get("name")
        i = c.get("inst")
        if nm == "size_of" and c.get("args"):
            t = self.types[c["args"][0]]
            n = 1 if t["k"] == "bool" else (self.width(c["args"][0])[0] // 8 if t["k"] in ("int", "char") else (t.get("layout") or {}).get("size"))
            if n is None:
                raise Undecided("size of %s" % t["n"])
            return num(n, 64)
        path = c["path"]
        vals = [a.value() if isinstance(a, Int) else None for a in args]
        if args and isinstance(args[0], Int):
            w, s = len(args[0].bits), args[0].s
            a = args[0]
            if nm in ("leading_zeros", "trailing_zeros", "count_ones", "ilog2") and vals[0] is not None:
                v = vals[0] & ((1 << w) - 1)
                if nm == "count_ones":
                    return num(bin(v).count("1"), 32)
                if nm == "leading_zeros":
                    return num(w - v.bit_length(), 32)
                if nm == "ilog2" and v:
                    return num(v.bit_length() - 1, 32)
                if nm == "trailing_zeros":
                    return num((v & -v).bit_length() - 1 if v else w, 32)
            if nm == "next_power_of_two" and vals[0] is not None:
                return num(1 << max(0, (vals[0] - 1).bit_length()), w)
            if nm == "pow" and vals[0] is not None and vals[1] is not None and vals[0] ** vals[1] < (1 << (w - (1 if s else 0))):
                return num(vals[0] ** vals[1], w, s)
            if nm == "reverse_bits":
                return Int(reversed(a.bits), s)
            if nm in ("wrapping_shl", "wrapping_shr") and vals[1] is not None:
                return (shl if nm.endswith("l") else shr)(a, vals[1] % w)
            if nm in ("rotate_left", "rotate_right") and vals[1] is not None:
                r = vals[1] % w if nm == "rotate_left" else -vals[1] % w
                return Int(a.bits[w - r:] + a.bits[:w - r], s)
            if len(args) == 2 and isinstance(args[1], Int) and len(args[1].bits) == w:
                op = {"wrapping_add": "Add", "wrapping_sub": "Sub", "wrapping_mul": "Mul", "bitor": "BitOr", "bitand": "BitAnd", "bitxor": "BitXor"}.get(nm)
                if op:
                    return self.binop(op, a, args[1])
                if nm in ("min", "max") and None not in vals:
                    return args[0] if (vals[0] <= vals[1]) == (nm == "min") else args[1]
        if i is not None:
            return self.call(i, args)
        raise Undecided("call of %s" % path)

    # memory
    def steps(self, fr, pl):
        """frame, local and concrete path a place denotes"""
        f, l, path = fr, pl[0], []
        for e in pl[1]:
            if e[0] == "*":
                v = self.get(f, l, path)
                if not isinstance(v, Ref):
                    raise Undecided("deref of %s" % (v,))
                f, l, path = v.frame, v.local, list(v.path)
            elif e[0] == "f":
                path.append(e[1])
            elif e[0] == "d":
                path.append(("d", e[1]))
            elif e[0] == "i":
                x = fr[e[1]].value()
                if x is None:
                    raise Undecided("an index depends on the input")
                path.append(x)
            elif e[0] == "c" and not e[3]:
                path.append(e[1])
            else:
                raise Undecided("place %s" % e[0])
        return f, l, path

    def get(self, f, l, path):
        v = f.get(l)
        for e in path:
            if isinstance(e, tuple):
                if not isinstance(v, Variant) or v.v != e[1]:
                    raise Undecided("another variant")
                continue
            if isinstance(v, Variant):
                v = v.fs[e]
            elif isinstance(v, list):
                if e >= len(v):
                    raise Undecided("index out of range")
                v = v[e]
            else:
                raise Undecided("field of %s" % (v,))
        if v is None:
            raise Undecided("an uninitialised value is read")
        return v

    def put(self, v, path, x):
        path = [e for e in path if not isinstance(e, tuple)]
        if not path:
            return x
        e = path[0]
        if isinstance(v, Variant):
            return Variant(v.v, self.put(v.fs, path, x))
        v = list(v) if isinstance(v, list) else []
        while len(v) <= e:
            v.append(None)
        v[e] = self.put(v[e], path[1:], x)
        return v

    def write(self, fr, pl, x):
        f, l, path = self.steps(fr, pl)
        f[l] = self.put(f.get(l), path, x)

    def operand(self, fr, o):
        if o[0] in ("cp", "mv"):
            return self.get(*self.steps(fr, o[1]))
        if o[0] == "k":
            k = o[1]
            t = self.types[k["ty"]]
            if "v" in k and t["k"] in ("int", "bool", "char"):
                w, s = self.width(k["ty"])
                return num(int(k["v"]), w, s)
            if "bytes" in k or "pbytes" in k:
                v = self.from_bytes(k.get("pointee", k["ty"]), bytes.fromhex(k.get("bytes") or k["pbytes"]))
                return Ref({0: v}, 0, []) if "pbytes" in k else v
            return []
        if o[0] == "rt":            # debug-only runtime checks of the standard library
            return flag(0)
        raise Undecided("operand %s" % o[0])

    def from_bytes(self, ty, bs):
        t = self.types[ty]
        if t["k"] == "array":
            n = len(bs) // t["len"]
            return [self.from_bytes(t["e"], bs[i * n:(i + 1) * n]) for i in range(t["len"])]
        if t["k"] == "tuple" and len(t["f"]) >= 1 and (t.get("layout") or {}).get("offs"):
            return [self.from_bytes(f, bs[o:]) for f, o in zip(t["f"], t["layout"]["offs"])]
        w, s = self.width(ty)
        return num(int.from_bytes(bs[:max(1, w // 8)], "little"), w, s)

    def rvalue(self, b, fr, rv):
        k = rv[0]
        if k == "use":
            return self.operand(fr, rv[1])
        if k == "ref":
            return Ref(*self.steps(fr, rv[2]))
        if k == "bin":
            return self.binop(rv[1], self.operand(fr, rv[2]), self.operand(fr, rv[3]))
        if k == "un":
            v = self.operand(fr, rv[2])
            if rv[1] == "Not":
                return Int(map(b_not, v.bits), v.s)
            if rv[1] == "Neg":
                return add(num(0, len(v.bits), v.s), Int(map(b_not, v.bits), v.s), 1)[0]
            raise Undecided("operator %s" % rv[1])
        if k == "cast":
            v = self.operand(fr, rv[2])
            if rv[1] == "IntToInt" and isinstance(v, Int):
                w, s = self.width(rv[3])
                f = v.bits[-1] if v.s else 0
                return Int((list(v.bits) + [f] * w)[:w], s)
            if rv[1] in ("Transmute", "Unsize") or rv[1].startswith("PointerCoercion"):
                return v
            raise Undecided("cast %s" % rv[1])
        if k == "disc":
            v = self.get(*self.steps(fr, rv[1]))
            if isinstance(v, Variant):
                return num(v.v, 64, True)
            raise Undecided("discriminant of %s" % (v,))
        if k == "agg":
            ops = [self.operand(fr, o) for o in rv[2]]
            kind = rv[1]
            if kind[0] == "adt" and self.types[kind[1]]["kind"] == "enum":
                return Variant(kind[2], ops)
            return ops
        if k == "rep" and isinstance(rv[2], int) and rv[2] <= 4096:
            return [self.operand(fr, rv[1])] * rv[2]
        if k == "len":
            return num(len(self.get(*self.steps(fr, rv[1]))), 64)
        raise Undecided("rvalue %s" % k)

    def binop(self, op, a, b):
        if not isinstance(a, Int) or not isinstance(b, Int):
            raise Undecided("operands of %s" % op)
        w, s = len(a.bits), a.s
        va, vb = a.value(), b.value()
        if op in ("BitAnd", "BitOr", "BitXor"):
            f = {"BitAnd": b_and, "BitOr": b_or, "BitXor": b_xor}[op]
            return Int([f(x, y) for x, y in zip(a.bits, b.bits)], s)
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            if vb is None:
                raise Undecided("a shift by an input")
            return (shl if op[2] == "l" else shr)(a, vb % w)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if va is not None and vb is not None:
                r = {"Eq": va == vb, "Ne": va != vb, "Lt": va < vb, "Le": va <= vb, "Gt": va > vb, "Ge": va >= vb}[op]
                return flag(int(r))
            if op in ("Eq", "Ne") and any(x in (0, 1) and y in (0, 1) and x != y for x, y in zip(a.bits, b.bits)):
                return flag(int(op == "Ne"))
            if not s and va is None and vb is not None:
                if op == "Lt" and a.top() < vb or op == "Le" and a.top() <= vb:
                    return flag(1)
                if op == "Gt" and a.top() <= vb or op == "Ge" and a.top() < vb:
                    return flag(0)
            # one bit against zero
            if vb == 0 and op in ("Eq", "Ne", "Gt") and not s:
                r = 0
                for x in a.bits:
                    r = b_or(r, x)
                return flag(r if op != "Eq" else b_not(r))
            return flag(T)
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        ov = 0
        if o == "Add":
            r, ov = add(a, b)
            if s and va is None or s and vb is None:
                ov = T
        elif o == "Sub":
            if va is not None and vb is not None:
                r = num(va - vb, w, s)
            else:
                r, c = add(a, Int(map(b_not, b.bits), s), 1)
                ov = T
        elif o == "Mul":
            if va is not None and vb is not None:
                r = num(va * vb, w, s)
            else:
                if va is not None:
                    a, b, va, vb = b, a, vb, va
                if vb is None or s:
                    raise Undecided("a product of inputs")
                r = num(0, 2 * w)
                wide = Int(list(a.bits) + [0] * w, False)
                for i in range(w):
                    if (vb >> i) & 1:
                        r = add(r, shl(wide, i))[0]
                ov = 0
                for x in r.bits[w:]:
                    ov = b_or(ov, x)
                r = Int(r.bits[:w], s)
        elif o in ("Div", "Rem") and va is not None and vb:
            q = abs(va) // abs(vb) * (1 if (va < 0) == (vb < 0) else -1)
            r = num(q if o == "Div" else va - q * vb, w, s)
        elif o in ("Div", "Rem") and not s and vb and vb & (vb - 1) == 0:
            n = vb.bit_length() - 1
            r = shr(a, n) if o == "Div" else Int([x if i < n else 0 for i, x in enumerate(a.bits)], s)
        else:
            raise Undecided("operator %s" % op)
        if va is not None and vb is not None and o in ("Add", "Sub", "Mul"):
            x = {"Add": va + vb, "Sub": va - vb, "Mul": va * vb}[o]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            ov = int(not lo <= x <= hi)
        if op.endswith("WithOverflow"):
            return [r, flag(ov)]
        return r
