"""Consistency of comparison diagrams with the laws of a total order.

The atoms of a diagram compare linear forms.  Given the quantities under comparison (the order
variables), a branch of the diagram is only possible if its comparisons do not contradict a total
order.  Branches are cut as soon as they close a cycle; comparisons between other forms are left
unconstrained, which can only make more branches look possible."""
from terms import *


def norm(p):
    if is_const(p):
        return None
    lead = p.a[0][-1][1]
    return pscale(p, 1 / abs(lead))


class Order:
    def __init__(self, variables):
        self.v = []
        for x in variables:
            x = aspoly(x)
            if all(x is not y for y in self.v):
                self.v.append(x)
        self.tab = {}
        n = len(self.v)
        for i in range(n):
            for j in range(n):
                if i != j:
                    d = psub(self.v[i], self.v[j])
                    k = norm(d)
                    if k is not None:
                        self.tab.setdefault(k, (i, j))      # form k has the sign of v_i - v_j
        self.base = [[0] * n for _ in range(n)]             # 0 unknown, 1 <=, 2 <
        for i in range(n):
            self.base[i][i] = 1
        for i in range(n):
            for j in range(n):
                if i != j:
                    d = psub(self.v[i], self.v[j])
                    if is_const(d) and cval(d) < 0:
                        self.base[i][j] = 2

    def facts(self, at, val):
        """list of (i, j, strict) for the truth of an atom; None when not about the variables"""
        if at.op not in ("flt", "fgt", "ilt"):
            return None
        if at.op == "ilt":
            p = psub(at.a[0], const(at.a[1]))
        else:
            p = at.a[0]
        k = norm(p)
        if k is None:
            return None
        e = self.tab.get(k)
        if e is None:
            return None
        i, j = e
        if at.op in ("flt", "ilt"):
            return (i, j, True) if val else (j, i, False)
        return (j, i, True) if val else (i, j, False)

    def add(self, m, i, j, strict):
        """new closure with v_i <(=) v_j, or None on contradiction"""
        w = 2 if strict else 1
        if m[i][j] >= w:
            return m
        if m[j][i] and (m[j][i] == 2 or strict):
            return None
        n = len(m)
        r = [row[:] for row in m]
        for a in range(n):
            if not r[a][i]:
                continue
            for b in range(n):
                if r[j][b]:
                    k = 2 if 2 in (r[a][i], w, r[j][b]) else 1
                    if k > r[a][b]:
                        r[a][b] = k
        for a in range(n):
            if r[a][a] == 2:
                return None
            for b in range(n):
                if r[a][b] == 2 and r[b][a]:
                    return None
        return r

    def possible(self, d, want=TRUE, limit=400000):
        """an order-consistent branch of boolean diagram d that ends in `want`, or None"""
        self.steps = 0
        st = [(d, self.base, ())]
        while st:
            x, m, p = st.pop()
            self.steps += 1
            if self.steps > limit:
                raise Unknown("order analysis exceeds its budget")
            if x.atom is None:
                if x.leaf is want:
                    return p
                continue
            for val, nx in ((True, x.hi), (False, x.lo)):
                if nx.atom is None and nx.leaf is not want:
                    continue
                f = self.facts(x.atom, val)
                m2 = m
                if f is not None:
                    m2 = self.add(m, *f)
                    if m2 is None:
                        continue
                st.append((nx, m2, p + ((x.atom, val),)))
        return None

    def implies(self, a, b, under=DT):
        """None if under & a -> b on every total order, else a witness text"""
        w = self.possible(dand(under, dand(a, dnot(b))))
        if w is None:
            return None
        return " & ".join(("" if v else "!") + show(t) for t, v in w)
