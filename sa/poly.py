"""Convex polyhedra: does the conjunction of linear facts of a path entail a linear inequality?

Fourier-Motzkin projection over the handful of facts connected with the question."""
from math import gcd

from .absint import C, L, S, ZERO


def tight(l):
    """integer tightening of l >= 0"""
    g = 0
    for _, q in l.t:
        g = gcd(g, abs(q))
    if g > 1:
        return L(l.c // g, tuple((s, q // g) for s, q in l.t))
    return L(l.c, l.t)


def infeasible(cs, limit=4000):
    cs = {tight(c) for c in cs}
    while True:
        if any(not c.t and c.c < 0 for c in cs):
            return True
        cs = {c for c in cs if c.t}
        # keep the strongest of each direction
        best = {}
        for c in cs:
            if c.t not in best or c.c < best[c.t].c:
                best[c.t] = c
        cs = set(best.values())
        occ = {}
        for c in cs:
            for s, q in c.t:
                a = occ.setdefault(s, [0, 0])
                a[q > 0] += 1
        if not occ:
            return False
        s = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - sum(occ[x]), repr(x)))
        pos = [c for c in cs if dict(c.t).get(s, 0) > 0]
        neg = [c for c in cs if dict(c.t).get(s, 0) < 0]
        rest = {c for c in cs if s not in dict(c.t)}
        for a in pos:
            for b in neg:
                x, y = dict(a.t)[s], -dict(b.t)[s]
                rest.add(tight(a.scale(y).add(b.scale(x))))
        if len(rest) > limit:
            return False
        cs = rest


class Poly:
    """linear facts of a path, plus given ones; terms are integers"""

    def __init__(self, facts, extra=(), nat=()):
        self.f = facts
        self.cs = []
        for tab, sgn in ((facts.lo, 1), (facts.hi, -1)):
            for (sg, key), v in tab.items():
                self.cs.append(L(-v * sgn, tuple((s, q * sgn) for s, q in key)))
        for x in extra:
            self.add(x)
        for x in nat:
            self.add(x)

    def copy(self):
        p = Poly.__new__(Poly)
        p.f, p.cs = self.f, list(self.cs)
        return p

    def add(self, l):
        """l >= 0"""
        self.cs.append(self.f.norm(l))
        return self

    def addeq(self, a, b):
        d = a.sub(b)
        self.add(d)
        return self.add(d.scale(-1))

    def ge0(self, l):
        l = self.f.norm(l)
        if not l.t:
            return l.c >= 0
        # facts connected with the question
        todo, syms, use = set(l.syms()), set(), []
        left = list(self.cs)
        while todo:
            syms |= todo
            todo = set()
            keep = []
            for c in left:
                if any(s in syms for s in c.syms()):
                    use.append(c)
                    todo |= set(c.syms()) - syms
                else:
                    keep.append(c)
            left = keep
        return infeasible(use + [l.scale(-1).plus(-1)])

    def le(self, a, b):
        return self.ge0(b.sub(a))

    def lt(self, a, b):
        return self.ge0(b.sub(a).plus(-1))

    def eq(self, a, b):
        return self.ge0(a.sub(b)) and self.ge0(b.sub(a))

    def empty(self):
        return infeasible(self.cs)

    def split_ne(self):
        """polyhedra of the two sides of every recorded inequality (few)"""
        out = [self]
        for key, vals in self.f.ne.items():
            for v in vals:
                l = L(-v, key)
                nxt = []
                for p in out:
                    for d in (l.plus(-1), l.scale(-1).plus(-1)):
                        q = p.copy().add(d)
                        if not q.empty():
                            nxt.append(q)
                out = nxt
                if len(out) > 64:
                    return out
        return out


def mods(l):
    """the remainders a term mentions: [(symbol, dividend, divisor)]"""
    out = []
    for s in l.syms():
        if s[0] == "op" and s[1] in ("urem", "srem") and len(s) == 4:
            out.append((s, s[2], s[3]))
    return out


def split_mod(polys, sym, x, m):
    """cases of sym = x mod m with 0 <= x < 2m; None if that range is not known"""
    out = []
    for p in polys:
        if not (p.ge0(x) and p.lt(x, m.scale(2))):
            return None
        a = p.copy().add(m.sub(x).plus(-1)).addeq(S(sym), x)
        b = p.copy().add(x.sub(m)).addeq(S(sym), x.sub(m))
        out += [q for q in (a, b) if not q.empty()]
    return out
