"""Trace-partitioned abstract interpreter over LLVM IR.

Forward dataflow: the abstract state at a program point is a set of disjuncts,
each a memory map (access path -> linear value term), a set of branch facts and
the ordered effects (calls, stores, tests) seen on the way.  Loops are widened
at their header (everything the body can change is forgotten), so every loop is
described by one arbitrary iteration; nothing is unrolled and nothing is
executed.  No solver: facts are decided by linear normal forms and bounds only.
"""
import os


class AnalysisError(Exception):
    """the analysis cannot give an answer (neither holds nor violated)"""


# ------------------------------------------------------------------ value terms
class L:
    """linear term  c + sum(coef * symbol); tag/bits are annotations only"""
    __slots__ = ("c", "t", "tag", "bits", "_h")

    def __init__(self, c=0, t=(), tag=None, bits=64):
        self.c = c
        self.t = t
        self.tag = tag
        self.bits = bits
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, L) and self._h == o._h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def isconst(self):
        return not self.t

    def sym(self):
        """the symbol if this term is exactly one symbol"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    def syms(self):
        return [s for s, _ in self.t]

    def add(self, o, k=1):
        if not o.t:
            return L(self.c + k * o.c, self.t, None, max(self.bits, o.bits))
        d = dict(self.t)
        for s, q in o.t:
            v = d.get(s, 0) + k * q
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return L(self.c + k * o.c, mk_t(d), None, max(self.bits, o.bits))

    def sub(self, o):
        return self.add(o, -1)

    def scale(self, k):
        if k == 0:
            return L(0)
        return L(self.c * k, tuple((s, q * k) for s, q in self.t), None, self.bits)

    def plus(self, k, tag=None):
        return L(self.c + k, self.t, tag, self.bits)

    def with_(self, tag=None, bits=None):
        return L(self.c, self.t, tag if tag is not None else self.tag,
                 bits if bits is not None else self.bits)

    def __repr__(self):
        return show(self)


_order = {}


def _ord(s):
    r = _order.get(s)
    if r is None:
        r = _order[s] = len(_order)
    return r


def mk_t(d):
    return tuple(sorted(d.items(), key=lambda kv: _ord(kv[0])))


def S(sym, tag=None, bits=64):
    return L(0, ((sym, 1),), tag, bits)


def C(k, bits=64):
    return L(k, (), None, bits)


ZERO = C(0)


def show(x):
    if isinstance(x, L):
        if not x.t:
            return str(x.c)
        out = []
        for s, q in x.t:
            n = show_sym(s)
            out.append(n if q == 1 else "-%s" % n if q == -1 else "%d*%s" % (q, n))
        if x.c:
            out.append(str(x.c))
        return "+".join(out).replace("+-", "-")
    return show_b(x)


NAMER = [None]      # optional pretty printer hook: (addr L) -> str


def show_sym(s):
    k = s[0]
    if k == "arg":
        return s[2]
    if k == "load":
        n = NAMER[0](s[1]) if NAMER[0] else None
        return "%s#%d" % (n or "[%s]" % show(s[1]), s[2])
    if k == "call":
        return "%s()#%d" % (s[1], s[2])
    if k == "pure":
        return "%s(%s)" % (s[1], ",".join(show(a) for a in s[2]))
    if k in ("alloca", "glob", "fn", "tls"):
        return ("&" if k != "fn" else "") + str(s[1])
    if k == "op":
        return "%s(%s)" % (s[1], ",".join(show(a) for a in s[2:]))
    if k == "bool":
        return "bool(%s)" % show_b(s[1])
    if k == "phi":
        return "%s#%d" % (s[1].split(".", 1)[-1], s[2])
    return "%s" % (s,)


def show_b(b):
    if b[0] == "cmp":
        return "%s %s %s" % (show(b[2]), b[1], show(b[3]))
    if b[0] == "not":
        return "!(%s)" % show_b(b[1])
    if b[0] in ("and", "or"):
        return "(%s %s %s)" % (show_b(b[1]), b[0], show_b(b[2]))
    if b[0] == "sym":
        return show(b[1])
    return b[0]


def stamp(s):
    """creation order of a symbol (0 for symbols that exist at entry)"""
    k = s[0]
    if k in ("load", "call"):
        return s[2]
    if k in ("phi", "havoc", "alloca"):
        return s[2]
    if k == "op":
        m = 0
        for a in s[2:]:
            if isinstance(a, L):
                for x in a.syms():
                    m = max(m, stamp(x))
        return m
    if k == "pure":
        m = 0
        for a in s[2]:
            if isinstance(a, L):
                for x in a.syms():
                    m = max(m, stamp(x))
        return m
    if k == "bool":
        return bstamp(s[1])
    return 0


def lstamp(l):
    return max([stamp(s) for s in l.syms()] or [0])


def bstamp(b):
    if b[0] == "cmp":
        return max(lstamp(b[2]), lstamp(b[3]))
    if b[0] in ("and", "or"):
        return max(bstamp(b[1]), bstamp(b[2]))
    if b[0] == "not":
        return bstamp(b[1])
    if b[0] == "sym":
        return lstamp(b[1])
    return 0


def contains(x, pred):
    """does a term contain (deeply) a symbol satisfying pred"""
    if isinstance(x, L):
        return any(_contains_sym(s, pred) for s in x.syms())
    if x and x[0] == "cmp":
        return contains(x[2], pred) or contains(x[3], pred)
    if x and x[0] in ("and", "or"):
        return contains(x[1], pred) or contains(x[2], pred)
    if x and x[0] == "not":
        return contains(x[1], pred)
    if x and x[0] == "sym":
        return contains(x[1], pred)
    return False


def _contains_sym(s, pred):
    if pred(s):
        return True
    if s[0] == "load":
        return contains(s[1], pred)
    if s[0] == "op":
        return any(isinstance(a, L) and contains(a, pred) for a in s[2:])
    if s[0] == "pure":
        return any(isinstance(a, L) and contains(a, pred) for a in s[2])
    if s[0] == "bool":
        return contains(s[1], pred)
    return False


T = ("T",)
F = ("F",)
INV = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
       "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}


def bnot(b):
    if b is T or b == T:
        return F
    if b == F:
        return T
    if b[0] == "cmp":
        return ("cmp", INV[b[1]], b[2], b[3])
    if b[0] == "not":
        return b[1]
    if b[0] == "and":
        return ("or", bnot(b[1]), bnot(b[2]))
    if b[0] == "or":
        return ("and", bnot(b[1]), bnot(b[2]))
    return ("not", b)


def cmp(pred, a, b):
    # unsigned comparisons with the ends of the range are (in)equalities
    if pred[0] == "u":
        if b.isconst():
            k = (pred, b.c)
            if k in (("ule", 0), ("ult", 1)):
                return ("cmp", "eq", a, ZERO)
            if k in (("ugt", 0), ("uge", 1)):
                return ("cmp", "ne", a, ZERO)
        elif a.isconst():
            k = (pred, a.c)
            if k in (("uge", 0), ("ugt", 1)):
                return ("cmp", "eq", b, ZERO)
            if k in (("ult", 0), ("ule", 1)):
                return ("cmp", "ne", b, ZERO)
    return ("cmp", pred, a, b)


NONNULL = ("alloca", "glob", "fn", "tls")


# ------------------------------------------------------------------ facts
class Facts:
    __slots__ = ("sub", "ne", "lo", "hi", "bools", "dead")

    def __init__(self):
        self.sub = {}       # symbol -> L (solved equalities)
        self.ne = {}        # key -> set(const)
        self.lo = {}        # (sgn, key) -> const
        self.hi = {}
        self.bools = {}     # opaque boolean -> bool
        self.dead = False

    def copy(self):
        f = Facts.__new__(Facts)
        f.sub = dict(self.sub)
        f.ne = {k: set(v) for k, v in self.ne.items()}
        f.lo = dict(self.lo)
        f.hi = dict(self.hi)
        f.bools = dict(self.bools)
        f.dead = self.dead
        return f

    def norm(self, l):
        if not self.sub:
            return l
        for _ in range(20):
            ch = False
            for s, q in l.t:
                r = self.sub.get(s)
                if r is not None:
                    l = l.add(S(s).scale(q), -1).add(r, q)
                    ch = True
                    break
            if not ch:
                return l
        return l

    @staticmethod
    def key(l):
        """canonical (terms, sign, const) : l = sign*terms + const"""
        if not l.t:
            return (), 1, l.c
        if l.t[0][1] < 0:
            return tuple((s, -q) for s, q in l.t), -1, l.c
        return l.t, 1, l.c

    def range(self, key, sg):
        lo = self.lo.get((sg, key))
        hi = self.hi.get((sg, key))
        if sg == "u":
            # naturals: a sum with only positive coefficients is >= 0
            if all(q > 0 for _, q in key):
                lo = 0 if lo is None else max(lo, 0)
            elif all(q < 0 for _, q in key):
                hi = 0 if hi is None else min(hi, 0)
            # sum of parts
            if len(key) > 1:
                plo = 0
                for s, q in key:
                    l1 = self.lo.get((sg, ((s, 1),)), 0)
                    h1 = self.hi.get((sg, ((s, 1),)))
                    v = l1 if q > 0 else h1
                    if v is None:
                        plo = None
                        break
                    plo += q * v
                if plo is not None:
                    lo = plo if lo is None else max(lo, plo)
                phi_ = 0
                for s, q in key:
                    l1 = self.lo.get((sg, ((s, 1),)), 0)
                    h1 = self.hi.get((sg, ((s, 1),)))
                    v = h1 if q > 0 else l1
                    if v is None:
                        phi_ = None
                        break
                    phi_ += q * v
                if phi_ is not None:
                    hi = phi_ if hi is None else min(hi, phi_)
        return lo, hi

    def decide(self, b):
        if b == T:
            return True
        if b == F:
            return False
        k = b[0]
        if k == "not":
            r = self.decide(b[1])
            return None if r is None else not r
        if k == "and":
            x, y = self.decide(b[1]), self.decide(b[2])
            if x is False or y is False:
                return False
            if x is True and y is True:
                return True
            return None
        if k == "or":
            x, y = self.decide(b[1]), self.decide(b[2])
            if x is True or y is True:
                return True
            if x is False and y is False:
                return False
            return None
        if k == "sym":
            return self.decide(cmp("ne", b[1], ZERO))
        if k != "cmp":
            return self.bools.get(b)
        pred, a, c = b[1], b[2], b[3]
        d = self.norm(a.sub(c))
        if pred in ("eq", "ne"):
            r = self._deq(d)
            if r is None:
                return None
            return r if pred == "eq" else not r
        sg = pred[0]
        if sg == "u":
            a2, c2 = self.norm(a), self.norm(c)
            if a2.isconst() and c2.isconst():
                x, y = uval(a2), uval(c2)
                return {"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred]
            if c2.isconst():
                d = a2.sub(C(uval(c2)))
            elif a2.isconst():
                d = C(uval(a2)).sub(c2)
            else:
                d = self.norm(unat(a2).sub(unat(c2)))
        if not d.t:
            # same symbolic part: only sound as signed/mathematical comparison
            x = d.c
            return {"lt": x < 0, "le": x <= 0, "gt": x > 0, "ge": x >= 0}[pred[1:]]
        key, sgn, k0 = self.key(d)
        lo, hi = self.range(key, sg)
        if sgn < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        # d = V + k0 with V in [lo,hi]
        lo = None if lo is None else lo + k0
        hi = None if hi is None else hi + k0
        p = pred[1:]
        if p in ("ge", "lt"):
            r = True if lo is not None and lo >= 0 else False if hi is not None and hi < 0 else None
            return r if r is None or p == "ge" else not r
        r = True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None
        if r is None and lo == 0 and self._deq(d) is False:
            r = True
        return r if r is None or p == "gt" else not r

    def _deq(self, d):
        if not d.t:
            return d.c == 0
        if len(d.t) == 1 and abs(d.t[0][1]) == 1:
            s = d.t[0][0]
            if s[0] in NONNULL:
                # address of an object: never a small integer
                return False
        if len(d.t) == 2 and {d.t[0][1], d.t[1][1]} == {1, -1}:
            k0, k1 = d.t[0][0][0], d.t[1][0][0]
            if k0 in NONNULL and k1 in NONNULL:
                return False
        key, sgn, k0 = self.key(d)
        v = -k0 if sgn > 0 else k0      # eq iff V == v
        if v in self.ne.get(key, ()):
            return False
        for sg in ("s", "u"):
            lo, hi = self.range(key, sg)
            if sg == "u" and v < 0:
                continue
            if lo is not None and v < lo:
                return False
            if hi is not None and v > hi:
                return False
            if lo is not None and lo == hi == v:
                return True
        return None

    def assume(self, b):
        """add b; returns list of Facts (disjuncts), [] if contradictory"""
        r = self.decide(b)
        if r is True:
            return [self]
        if r is False:
            return []
        k = b[0]
        if k == "and":
            out = []
            for f in self.assume(b[1]):
                out += f.assume(b[2])
            return out
        if k == "or":
            out = list(self.copy().assume(b[1]))
            for f in self.copy().assume(bnot(b[1])):
                out += f.assume(b[2])
            return out
        f = self.copy()
        if k == "sym":
            return f.assume(cmp("ne", b[1], ZERO))
        if k == "not":
            if b[1][0] == "sym":
                return f.assume(cmp("eq", b[1][1], ZERO))
            f.bools[b[1]] = False
            f.bools[b] = True
            return [f]
        if k != "cmp":
            f.bools[b] = True
            f.bools[bnot(b)] = False
            return [f]
        pred, a, c = b[1], b[2], b[3]
        d = f.norm(a.sub(c))
        if pred == "eq":
            f._add_eq(d)
            return [] if f.dead else [f]
        if pred == "ne":
            key, sgn, k0 = f.key(d)
            v = -k0 if sgn > 0 else k0
            f.ne.setdefault(key, set()).add(v)
            for sg in ("u", "s"):
                lo, hi = f.range(key, sg)
                if lo is not None and lo == v:
                    f.lo[(sg, key)] = v + 1
                if hi is not None and hi == v:
                    f.hi[(sg, key)] = v - 1
            return [f]
        sg = pred[0]
        if sg == "u":
            a2, c2 = f.norm(a), f.norm(c)
            if c2.isconst():
                d = a2.sub(C(uval(c2)))
            elif a2.isconst():
                d = C(uval(a2)).sub(c2)
            else:
                d = f.norm(unat(a2).sub(unat(c2)))
        key, sgn, k0 = f.key(d)
        p = pred[1:]
        # d = sgn*V + k0  p  0
        if p == "lt":
            bound = -k0 - 1
            up = True
        elif p == "le":
            bound = -k0
            up = True
        elif p == "gt":
            bound = -k0 + 1
            up = False
        else:
            bound = -k0
            up = False
        if sgn < 0:
            bound = -bound
            up = not up
        if up:
            h = f.hi.get((sg, key))
            f.hi[(sg, key)] = bound if h is None else min(h, bound)
        else:
            h = f.lo.get((sg, key))
            f.lo[(sg, key)] = bound if h is None else max(h, bound)
        lo, hi = f.range(key, sg)
        ch = True
        while ch:
            ch = False
            if lo is not None and lo in f.ne.get(key, ()):
                lo += 1
                f.lo[(sg, key)] = lo
                ch = True
            if hi is not None and hi in f.ne.get(key, ()):
                hi -= 1
                f.hi[(sg, key)] = hi
                ch = True
            if lo is not None and hi is not None and lo > hi:
                return []
        if lo is not None and lo == hi:
            f._add_eq(L(-lo, key))
        # a non-negative signed value is the same unsigned value
        if sg == "s" and len(key) == 1 and key[0][1] == 1:
            slo, shi = f.lo.get(("s", key)), f.hi.get(("s", key))
            if slo is not None and slo >= 0:
                f.lo[("u", key)] = max(slo, f.lo.get(("u", key), 0))
                if shi is not None:
                    f.hi[("u", key)] = min(shi, f.hi.get(("u", key), shi))
        return [] if f.dead else [f]

    def _add_eq(self, d):
        if not d.t:
            if d.c:
                self.dead = True
            return
        best = None
        for s, q in d.t:
            if abs(q) == 1 and s[0] not in NONNULL:
                if best is None or stamp(s) >= stamp(best[0]):
                    best = (s, q)
        if best is None:
            key, sgn, k0 = self.key(d)
            v = -k0 if sgn > 0 else k0
            for sg in ("s", "u"):
                self.lo[(sg, key)] = v
                self.hi[(sg, key)] = v
            return
        s, q = best
        r = L(d.c, tuple((x, y) for x, y in d.t if x != s)).scale(-1 if q == 1 else 1)
        self.sub[s] = r
        # re-normalise
        one = {s: r}

        def rn(key):
            l = L(0, key)
            for x, y in key:
                if x in one:
                    l = l.add(S(x).scale(y), -1).add(one[x], y)
            return l
        for x in list(self.sub):
            self.sub[x] = self.norm(self.sub[x])
        for tab, isne in ((self.ne, True),):
            for k in list(tab):
                if any(x == s for x, _ in k):
                    vals = tab.pop(k)
                    l = rn(k)
                    nk, sgn, k0 = self.key(l)
                    for v in vals:
                        # L(k) != v  =>  sgn*NK + k0 != v
                        if not nk:
                            if k0 == v:
                                self.dead = True
                        else:
                            tab.setdefault(nk, set()).add((v - k0) * sgn)
        for tab, low in ((self.lo, True), (self.hi, False)):
            for kk in list(tab):
                sg, k = kk
                if any(x == s for x, _ in k):
                    v = tab.pop(kk)
                    l = rn(k)
                    nk, sgn, k0 = self.key(l)
                    if not nk:
                        if (low and k0 < v) or (not low and k0 > v):
                            if sg == "s" or k0 >= 0:
                                self.dead = True
                        continue
                    nv = (v - k0) * sgn
                    lowx = low if sgn > 0 else not low
                    t2 = self.lo if lowx else self.hi
                    o = t2.get((sg, nk))
                    t2[(sg, nk)] = nv if o is None else (max(o, nv) if lowx else min(o, nv))
        for k, lo in self.lo.items():
            hi = self.hi.get(k)
            if hi is not None and lo > hi:
                self.dead = True


def unat(l):
    """a term that is negative for all natural numbers stands for its unsigned value"""
    if l.t and l.c < 0 and all(q < 0 for _, q in l.t):
        return l.plus(1 << (l.bits or 64))
    return l


def uval(l):
    """unsigned value of a constant term"""
    if l.c >= 0:
        return l.c
    return l.c + (1 << (l.bits or 64))


# ------------------------------------------------------------------ events
# access classes: what is known about an address without a field is the type used to access it;
# pointers and integers (and accesses of different width) do not overlap
TAGCLS = {}


def acls(tag, isptr, size):
    c = "p" if isptr else "i%d" % size
    if tag is None:
        return ("ty", c)
    TAGCLS.setdefault(tag, set()).add(c)
    return tag


def apart(ta, tb):
    if not ta or not tb or ta == tb:
        return False
    if ta[0] == "ty" and tb[0] == "ty":
        return True
    for x, y in ((ta, tb), (tb, ta)):
        if x[0] == "ty":
            c = TAGCLS.get(y)
            return bool(c) and x[1] not in c
    return True


EXTENT = {"clock_gettime": {1: 16}, "timerfd_gettime": {1: 32}}


class Ev:
    __slots__ = ("k", "name", "args", "ret", "file", "line", "fn", "stack", "n", "x", "old",
                 "addr", "val", "tag", "size")

    def __init__(self, k, **kw):
        self.k = k
        self.name = self.args = self.ret = self.x = self.old = self.addr = self.val = None
        self.tag = None
        self.size = None
        self.file = self.line = self.fn = self.stack = None
        self.n = 0
        for a, b in kw.items():
            setattr(self, a, b)

    @property
    def where(self):
        f = self.file or "?"
        if "/src/" in f:
            f = "src/" + f.split("/src/", 1)[1]
        return "%s:%s (%s)" % (f, self.line, self.fn)

    def __repr__(self):
        if self.k == "call":
            return "%s(%s)->%s @%s" % (self.name, ", ".join(map(show, self.args)),
                                       show(self.ret) if self.ret is not None else "", self.line)
        if self.k == "icall":
            return "icall[%s](%s) @%s" % (show(self.x), ", ".join(map(show, self.args)), self.line)
        if self.k == "store":
            return "store %s := %s (was %s) @%s" % (show(self.addr), show(self.val),
                                                    show(self.old) if self.old is not None else "?",
                                                    self.line)
        if self.k == "read":
            return "read %s -> %s @%s" % (show(self.addr), show(self.val), self.line)
        if self.k == "assume":
            return "assume %s @%s" % (show_b(self.x), self.line)
        if self.k in ("loop", "backedge"):
            return "%s in %s: %s @%s" % (self.k, self.name, "; ".join(
                "%s=%s" % (show_sym(a), show(b)) for a, b in self.x[-1].items()), self.line)
        if self.k == "arith":
            return "%s%d -> %s @%s" % (self.name, self.size, show(self.val), self.line)
        if self.k == "asm":
            return "asm @%s" % self.line
        if self.k == "ret":
            return "return %s @%s" % (show(self.x) if self.x is not None else "", self.line)
        return "%s %s %s @%s" % (self.k, self.name, self.x, self.line)


class Path:
    __slots__ = ("events", "end", "val", "st", "line", "file", "fn")

    def calls(self, *names):
        return [e for e in self.events if e.k == "call" and e.name in names]

    def __repr__(self):
        return "<path %s %s %d ev>" % (self.end, self.val, len(self.events))


class Frame:
    __slots__ = ("fn", "blk", "prev", "idx", "env", "ret", "loops", "site", "allocas")

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.prev, f.idx = self.fn, self.blk, self.prev, self.idx
        f.env = dict(self.env)
        f.ret = self.ret
        f.loops = dict(self.loops)
        f.site = self.site
        f.allocas = self.allocas
        return f


class State:
    __slots__ = ("frames", "mem", "zero", "facts", "events", "escaped", "n", "fresh", "steps")

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.zero = list(self.zero)
        s.facts = self.facts
        s.events = list(self.events)
        s.escaped = set(self.escaped)
        s.n = self.n
        s.fresh = self.fresh
        s.steps = self.steps
        return s

    def tick(self):
        self.n += 1
        return self.n


PTR = set()        # pointer-valued symbols
ERRNO = S(("glob", "errno"))
PTR.add(("glob", "errno"))

ALLOCA_SIZE = {}   # stack object -> size in bytes
RBMUT = {"hev_rbtree_cached_insert_color", "hev_rbtree_cached_erase", "hev_rbtree_insert_color",
         "hev_rbtree_erase", "hev_rbtree_cached_replace", "hev_rbtree_replace"}
RBTYPES = ("struct._HevRBTreeNode", "struct._HevRBTree", "struct._HevRBTreeCached")

ALLOC = {"malloc", "calloc", "hev_malloc", "hev_malloc0", "hev_calloc", "realloc", "hev_realloc", "mmap"}
ZEROING = {"hev_malloc0": 0, "hev_calloc": None, "calloc": None}
PURE = {"__errno_location", "hev_task_self", "getpagesize", "llvm.umax.i64", "llvm.umin.i64",
        "llvm.smax.i32", "llvm.smin.i32", "llvm.umax.i32", "llvm.umin.i32", "llvm.smax.i64",
        "llvm.smin.i64", "llvm.bswap.i32", "llvm.bswap.i16", "hev_object_class",
        "hev_task_cio_class"}
NORETURN = {"abort", "exit", "_exit", "_longjmp", "longjmp", "__assert_fail", "siglongjmp",
            "__longjmp_chk"}
IGNORE = ("llvm.dbg.", "llvm.lifetime.", "llvm.assume", "llvm.stacksave", "llvm.stackrestore",
          "llvm.va_start", "llvm.va_end", "llvm.va_copy", "llvm.experimental.noalias")
# may run arbitrary other code of the program: forget all shared memory
HAVOC = {"hev_task_yield", "hev_task_sleep", "hev_task_usleep", "hev_task_timer_wait", "_setjmp",
         "setjmp", "pthread_cond_wait", "hev_task_join"}
# no effect on memory the analysed code can see (besides errno)
NOMEM = {"close", "hev_task_wakeup", "munmap", "mprotect", "dup", "dup2", "abort", "puts",
         "printf", "fprintf", "fcntl", "socket", "connect", "write", "writev", "send", "sendto",
         "sendmsg", "epoll_create", "epoll_create1", "timerfd_create", "epoll_ctl", "listen",
         "pthread_key_create", "timerfd_settime", "hev_free", "free",
         "hev_task_add_fd", "hev_task_mod_fd", "hev_task_del_fd", "splice", "open", "openat",
         "eventfd", "shutdown", "pthread_mutex_lock", "pthread_mutex_unlock",
         "pthread_cond_signal", "getaddrinfo_", "kill", "raise", "ioctl", "sigemptyset_"}

# documented to return -1 or a non-negative value
MINUS1 = {"read", "readv", "write", "writev", "recv", "recvfrom", "recvmsg", "send", "sendto", "sendmsg",
          "accept", "accept4", "connect", "splice", "ioctl", "fcntl", "dup", "dup2", "open", "openat",
          "socket", "socketpair", "pipe", "pipe2", "epoll_create", "epoll_create1", "epoll_ctl",
          "epoll_wait", "timerfd_create", "timerfd_settime", "close", "poll", "eventfd"}
# of these, the ones that never return a positive value
ZEROONLY = {"connect", "socketpair", "pipe", "pipe2", "epoll_ctl", "timerfd_settime", "close"}


class Analyzer:
    def __init__(self, mod, di, opaque=(), inline=(), noinline_default=None, havoc=(), nomem=(),
                 pure=(), max_paths=60000, models=None, links=(),
                 arith=False, bufs=(), stable=(), minus1=False):
        self.mod = mod
        self.di = di
        self.opaque = set(opaque) | {
            "hev_task_yield", "hev_task_wakeup", "hev_task_self", "hev_malloc", "hev_malloc0",
            "hev_calloc", "hev_free", "hev_realloc", "hev_task_sleep", "hev_task_usleep",
            "hev_rbtree_cached_insert_color", "hev_rbtree_cached_erase", "hev_rbtree_insert_color",
            "hev_rbtree_erase", "hev_rbtree_node_next", "hev_rbtree_node_prev",
            "hev_rbtree_cached_replace", "hev_rbtree_replace", "hev_object_class",
            "hev_task_cio_class"}
        self.opaque -= set(inline)
        self.havoc = (HAVOC | set(havoc)) - set(inline)
        self.nomem = (NOMEM | set(nomem)) - set(inline)
        self.pure = (PURE | set(pure)) - set(inline)
        self.max_paths = max_paths
        # fields (tag) linking distinct objects of one kind: an object is never its own neighbour
        self.links = set(links)
        # plain byte buffers, apart from everything else: ("arg", index) or ("tag", field)
        self.bufs = set(bufs)
        self.minus1 = minus1        # indirect calls return -1 or a non-negative value
        self.stable = set(stable)   # fields written only by constructors
        self.models = models or {}
        self.arith = arith      # report integer arithmetic (for overflow rules)
        self.stats = {"paths": 0, "steps": 0, "inlined": set(), "restarts": 0, "events": 0}

    # ---------------------------------------------------------------- run
    def run(self, fname, args=None, setup=None):
        fn = self.mod.functions.get(fname)
        if fn is None or fn.decl:
            raise AnalysisError("function %s is not defined in the analysed program" % fname)
        self.loopmods = {}
        for rnd in range(40):
            self.dirty = False
            self.paths = []
            self._explore(fn, args, setup)
            if not self.dirty:
                break
            self.stats["restarts"] += 1
        else:
            raise AnalysisError("loop widening does not converge in %s" % fname)
        self.stats["paths"] += len(self.paths)
        self.stats["events"] += sum(len(p.events) for p in self.paths)
        return self.paths

    def _explore(self, fn, args, setup):
        st = State.__new__(State)
        st.frames = []
        st.mem = {}
        st.zero = []
        st.facts = Facts()
        st.events = []
        st.escaped = set()
        st.n = 0
        st.fresh = frozenset()
        st.steps = 0
        fr = Frame.__new__(Frame)
        fr.fn = fn
        fr.blk = fn.blocks[0]
        fr.prev = None
        fr.idx = 0
        fr.env = {}
        fr.ret = None
        fr.loops = {}
        fr.site = None
        fr.allocas = ()
        for i, (vid, nm, isptr, bits) in enumerate(fn.args):
            s = ("arg", i, nm or "arg%d" % i)
            if isptr:
                PTR.add(s)
            v = S(s, None, bits)
            if args and i in args:
                v = args[i]
            fr.env[vid] = v
        st.frames.append(fr)
        if setup:
            r = setup(st)
            if r is not None:
                st = r
        work = [st]
        while work:
            s = work.pop()
            self._run_state(s, work)
            if len(self.paths) + len(work) > self.max_paths:
                raise AnalysisError("too many paths in %s" % fn.name)

    # ---------------------------------------------------------------- helpers
    def _ev(self, st, k, ins, **kw):
        fr = st.frames[-1]
        e = Ev(k, file=ins.file if ins else None, line=ins.line if ins else None,
               fn=self.src(fr.fn.name), n=st.tick(), **kw)
        e.stack = tuple((self.src(f.fn.name), f.site.line if f.site else None) for f in st.frames)
        st.events.append(e)
        return e

    @staticmethod
    def src(name):
        # static functions of the same name are renamed f.12 when modules are linked
        if "." in name and not name.startswith("llvm."):
            return name.split(".")[0]
        return name

    def val(self, fr, o):
        k = o[0]
        if k == "v":
            v = fr.env.get(o[1])
            if v is None:
                raise AnalysisError("value %s undefined in %s" % (o, fr.fn.name))
            return v
        if k == "c":
            if o[2] == 1:
                return T if o[1] else F
            return C(o[1], o[2])
        if k == "g":
            s = ("glob", o[1])
            PTR.add(s)
            return S(s)
        if k == "f":
            s = ("fn", o[1])
            PTR.add(s)
            return S(s)
        if k == "gepc":
            return self.val(fr, o[1]).plus(o[2], o[3])
        if k == "undef":
            return S(("havoc", "undef", 0))
        return S(("havoc", k, 0))

    @staticmethod
    def asL(v):
        if isinstance(v, L):
            return v
        if v == T:
            return C(1)
        if v == F:
            return C(0)
        return S(("bool", v), None, 1)

    @staticmethod
    def asB(v):
        if isinstance(v, L):
            s = v.sym()
            if s and s[0] == "bool":
                return s[1]
            if v.isconst():
                return T if v.c else F
            return ("sym", v)
        return v

    # -- memory
    @staticmethod
    def root(addr):
        r = None
        for s, q in addr.t:
            if q == 1 and (s in PTR or s[0] in NONNULL):
                if r is not None:
                    return None
                r = s
        return r

    def is_buf(self, r):
        return r is not None and (r[0] == "arg" and ("arg", r[1]) in self.bufs or
                                  r[0] == "load" and ("tag", r[1].tag) in self.bufs)

    def may_alias(self, st, a, ta, b, tb):
        ra, rb = self.root(a), self.root(b)
        if self.bufs and ra != rb and (self.is_buf(ra) or self.is_buf(rb)):
            return False
        if ra is not None and ra == rb:
            return not apart(ta, tb)
        if ra is not None and ra[0] == "tls" or rb is not None and rb[0] == "tls":
            return False        # thread specific cells have no address in the program
        if ra is None or rb is None:
            x = ra or rb
            if x and x[0] == "alloca" and x not in st.escaped:
                return False
            return not apart(ta, tb)
        for x, y in ((ra, rb), (rb, ra)):
            if x[0] == "alloca":
                if y[0] in ("alloca", "glob", "fn", "arg") or x not in st.escaped:
                    return False
            if x[0] in ("glob", "tls") and y[0] in ("glob", "tls"):
                return False
            if self.links and y[0] == "load" and y[1].tag in self.links and self.root(y[1]) == x:
                return False
            if x in st.fresh:
                if y in st.fresh or y[0] in ("arg", "glob", "alloca", "tls"):
                    return False
                if stamp(y) < stamp(x):
                    return False
        return not apart(ta, tb)

    def kill(self, st, addr, size, tag):
        dead = []
        for a, (sz, v, tg) in st.mem.items():
            d = a.sub(addr)
            if not d.t:
                if -sz < d.c < size:
                    dead.append(a)
                continue
            if self.may_alias(st, addr, tag, a, tg):
                dead.append(a)
        for a in dead:
            del st.mem[a]

    def kill_range(self, st, addr, size):
        """bytes addr..addr+size are overwritten; other objects are left alone if they are apart"""
        r = self.root(addr)
        for a, (sz, v, tg) in list(st.mem.items()):
            d = a.sub(addr)
            if not d.t:
                if -sz < d.c < size:
                    del st.mem[a]
            elif self.root(a) == r or self.may_alias(st, addr, None, a, None):
                if addr.tag is not None and tg is not None and tg[0] not in ("ty",) and \
                        tg[0] != "struct.timespec" and tg[0] != addr.tag[0]:
                    continue
                del st.mem[a]
        st.zero = [(b, n) for b, n in st.zero if b.sub(addr).t or
                   not (n is None or -n < b.sub(addr).c < size)]

    def store(self, st, addr, size, val, tag):
        self.kill(st, addr, size, tag)
        st.mem[addr] = (size, val, tag)
        if isinstance(val, L):
            ra = self.root(addr)
            if ra is None or ra[0] != "alloca" or ra in st.escaped:
                for s in val.syms():
                    if s[0] == "alloca":
                        self.escape(st, s)

    def escape(self, st, s):
        if s in st.escaped:
            return
        st.escaped.add(s)
        # everything reachable through it escapes too
        for a, (sz, v, tg) in list(st.mem.items()):
            if self.root(a) == s and isinstance(v, L):
                for x in v.syms():
                    if x[0] == "alloca":
                        self.escape(st, x)

    def load(self, st, addr, size, isptr, bits, tag, create=True):
        m = st.mem.get(addr)
        if m is not None and m[0] == size:
            return m[1]
        if m is None:
            for (b, n) in st.zero:
                d = addr.sub(b)
                if not d.t and 0 <= d.c and (n is None or d.c + size <= n):
                    # not overwritten since (an explicit entry would exist)
                    if not any((not a.sub(addr).t) and -x[0] < a.sub(addr).c < size
                               for a, x in st.mem.items()):
                        v = C(0, bits)
                        st.mem[addr] = (size, v, tag)
                        return v
        g = self._const_global(addr, size)
        if g is not None:
            return g
        if not create:
            return None
        s = ("load", addr, st.tick())
        if isptr:
            PTR.add(s)
        v = S(s, None, bits)
        # an overlapping entry of another width stays valid only if not overlapping
        if m is not None:
            del st.mem[addr]
        st.mem[addr] = (size, v, tag)
        return v

    def loadev(self, st, ins, a, size, isptr, bits, tag):
        n0 = st.n
        v = self.load(st, a, size, isptr, bits, tag)
        if st.n != n0:
            self._ev(st, "read", ins, addr=a, val=v, tag=tag, size=size)
        return v

    def _const_global(self, addr, size):
        s = addr.syms()
        if len(s) == 1 and s[0][0] == "glob" and addr.t[0][1] == 1:
            g = self.mod.globals.get(s[0][1])
            if g and g["const"] and not g["decl"]:
                return None
        return None

    def havoc_shared(self, st):
        for a in list(st.mem):
            r = self.root(a)
            if r is not None and r[0] == "alloca" and r not in st.escaped:
                continue
            if r is not None and r[0] == "tls":
                continue
            if self.stable and st.mem[a][2] in self.stable:
                continue
            del st.mem[a]
        st.zero = [(b, n) for b, n in st.zero
                   if self.root(b) is not None and self.root(b)[0] == "alloca"
                   and self.root(b) not in st.escaped]

    def kill_root(self, st, r, tag=None):
        for a in list(st.mem):
            if self.root(a) == r and not apart(st.mem[a][2], tag):
                del st.mem[a]
        st.zero = [(b, n) for b, n in st.zero if self.root(b) != r]

    # ---------------------------------------------------------------- engine
    def _finish(self, st, end, val, ins):
        p = Path()
        p.events = st.events
        p.end = end
        p.val = val
        p.st = st
        p.line = ins.line if ins else None
        p.file = ins.file if ins else None
        p.fn = st.frames[-1].fn.name if st.frames else None
        self.paths.append(p)

    def _goto(self, st, blk, ins):
        """move the top frame to blk; handles phis and loop headers. -> False if the path ends"""
        fr = st.frames[-1]
        cur = fr.blk
        # leaving loops
        for h in list(fr.loops):
            if blk.idx not in fr.fn.loops[h]:
                del fr.loops[h]
        vals = []
        for i in blk.insts:
            if i.op != "phi":
                break
            for o, b in i.extra:
                if b is cur:
                    vals.append((i, self.val(fr, o)))
                    break
            else:
                raise AnalysisError("phi without edge in %s" % fr.fn.name)
        if blk.idx in fr.fn.loops:
            key = tuple((f.fn.name, f.site.id if f.site else None) for f in st.frames) + (blk.idx,)
            if blk.idx in fr.loops:
                self._backedge(st, fr, blk, vals, key, ins)
                return False
            if self._counted(fr, blk, vals):
                # a counting loop with few, known iterations: executed one by one
                for i, v in vals:
                    fr.env[i.id] = v
                fr.prev = cur
                fr.blk = blk
                fr.idx = len(vals)
                return True
            # entry: widen
            mods = self.loopmods.get(key, set())
            if "ALL" in mods:
                self.havoc_shared(st)
            for m in mods:
                if m == "ALL":
                    continue
                if self.stable and m[0] in ("addr", "tag") and m[-1] in self.stable:
                    continue
                if m[0] == "addr":
                    self.kill(st, m[1], m[2], m[3])
                elif m[0] == "root":
                    self.kill_root(st, m[1], m[2])
                elif m[0] == "tag":
                    for a in [a for a, x in st.mem.items() if not apart(x[2], m[1])]:
                        r = self.root(a)
                        if r is None or r[0] != "tls" and not (r[0] == "alloca" and r not in st.escaped):
                            del st.mem[a]
            init = {}
            n0 = st.tick()
            phis = {}
            for i, v in vals:
                s = ("phi", "%s.%s" % (self.src(fr.fn.name), i.name or i.id), st.tick())
                if i.isptr:
                    PTR.add(s)
                nv = S(s, None, i.bits)
                if i.bits == 1:
                    nv = ("sym", nv)
                fr.env[i.id] = nv
                init[s] = v
                phis[i.id] = (s, v)
            fr.loops[blk.idx] = (n0, dict(st.mem), phis, len(st.events))
            self._ev(st, "loop", ins, name=self.src(fr.fn.name), x=(blk.idx, init))
        else:
            for i, v in vals:
                fr.env[i.id] = v
        fr.prev = cur
        fr.blk = blk
        fr.idx = len(vals)
        return True

    def _counted(self, fr, blk, vals):
        """is blk the head of a loop counting from a constant to a constant, at most 16 steps away?"""
        br = blk.insts[-1]
        if br.op != "br" or len(br.ops) < 1 or br.ops[0][0] != "v" or len(blk.succs) != 2:
            return False
        defs = {i.id: i for i in blk.insts}
        ic = defs.get(br.ops[0][1])
        if ic is None or ic.op != "icmp":
            return False
        phis = {i.id: (i, v) for i, v in vals}

        def through(o):
            while o[0] == "v" and o[1] in defs and defs[o[1]].op in ("sext", "zext", "trunc"):
                o = defs[o[1]].ops[0]
            return o
        for a, b in ((ic.ops[0], ic.ops[1]), (ic.ops[1], ic.ops[0])):
            a, b = through(a), through(b)
            if a[0] != "v" or a[1] not in phis:
                continue
            i, v = phis[a[1]]
            if b[0] == "v" and b[1] in defs:
                continue
            k = self.asL(self.val(fr, b))
            v = self.asL(v)
            if not (k.isconst() and v.isconst()):
                continue
            body = fr.fn.loops[blk.idx]
            step = None
            alld = {x.id: x for j in body for x in fr.fn.blocks[j].insts}
            for o, pb in i.extra:
                if pb.idx in body:
                    d = alld.get(o[1]) if o[0] == "v" else None
                    if d is None or d.op not in ("add", "sub") or d.ops[0] != ("v", i.id) or \
                            d.ops[1][0] != "c" or d.ops[1][1] == 0:
                        return False
                    step = abs(d.ops[1][1])
            if step and abs(k.c - v.c) // step <= 16:
                return True
        return False

    def _backedge(self, st, fr, blk, vals, key, ins):
        n0, mem0, phis, ev0 = fr.loops[blk.idx]
        mods = self.loopmods.setdefault(key, set())

        def addmod(a, size, tag):
            r = self.root(a)
            if lstamp(a) <= n0:
                m = ("addr", a, size, tag)
            elif r is not None and stamp(r) <= n0:
                m = ("root", r, tag)
            elif tag is not None:
                m = ("tag", tag)
            else:
                m = "ALL"
            if m not in mods and "ALL" not in mods:
                mods.add(m)
                self.dirty = True
        for a, (sz, v, tg) in mem0.items():
            c = st.mem.get(a)
            if c is None or c[1] != v:
                addmod(a, sz, tg)
        for a, (sz, v, tg) in st.mem.items():
            if a not in mem0:
                # written (not merely read) in the body?
                s = v.sym() if isinstance(v, L) else None
                if s and s[0] == "load" and s[1] == a:
                    continue
                addmod(a, sz, tg)
        latch = {}
        for i, v in vals:
            latch[phis[i.id][0]] = v
        init = {phis[i.id][0]: phis[i.id][1] for i, _ in vals}
        p_end = "backedge"
        e = self._ev(st, "backedge", ins, name=self.src(fr.fn.name), x=(blk.idx, init, latch))
        e.val = ev0
        self._finish(st, p_end, (self.src(fr.fn.name), blk.idx, init, latch, ev0), ins)

    def _fork(self, st, b, work):
        """-> list of (state, bool)"""
        r = st.facts.decide(b)
        if r is not None:
            return [(st, r)]
        out = []
        for val, bb in ((True, b), (False, bnot(b))):
            for f in st.facts.assume(bb):
                s2 = st.clone()
                s2.facts = f
                out.append((s2, val))
        return out

    def _run_state(self, st, work):
        while True:
            fr = st.frames[-1]
            if fr.idx >= len(fr.blk.insts):
                raise AnalysisError("fell off block")
            ins = fr.blk.insts[fr.idx]
            st.steps += 1
            self.stats["steps"] += 1
            if st.steps > 200000:
                raise AnalysisError("path too long")
            op = ins.op
            if op == "br":
                if not ins.ops:
                    if not self._goto(st, fr.blk.succs[0], ins):
                        return
                    continue
                b = self.asB(self.val(fr, ins.ops[0]))
                outs = self._fork(st, b, work)
                if len(outs) == 1 and outs[0][0] is st:
                    if not self._goto(st, fr.blk.succs[0 if outs[0][1] else 1], ins):
                        return
                    continue
                for s2, v in outs:
                    self._ev(s2, "assume", ins, x=b if v else bnot(b))
                    f2 = s2.frames[-1]
                    if self._goto(s2, f2.blk.succs[0 if v else 1], ins):
                        work.append(s2)
                return
            if op == "switch":
                v = self.asL(self.val(fr, ins.ops[0]))
                cases, dflt = ins.extra
                cur = [st]
                done = []
                for k, blk in cases:
                    nxt = []
                    for s in cur:
                        b = cmp("eq", v, C(k, v.bits))
                        for s2, t in self._fork(s, b, work):
                            if t:
                                done.append((s2, blk, b))
                            else:
                                nxt.append(s2)
                    cur = nxt
                for s in cur:
                    done.append((s, dflt, None))
                for s2, blk, b in done:
                    if s2 is not st or len(done) > 1:
                        if b is None:
                            for k, _ in cases:
                                self._ev(s2, "assume", ins, x=cmp("ne", v, C(k, v.bits)))
                        else:
                            self._ev(s2, "assume", ins, x=b)
                    if self._goto(s2, blk, ins):
                        work.append(s2)
                return
            if op == "ret":
                v = self.val(fr, ins.ops[0]) if ins.ops else None
                if len(st.frames) == 1:
                    self._ev(st, "ret", ins, x=v)
                    self._finish(st, "ret", v, ins)
                    return
                # allocas of the callee die
                callee = st.frames.pop()
                caller = st.frames[-1]
                if v is not None:
                    caller.env[callee.ret] = v
                elif callee.ret is not None:
                    caller.env[callee.ret] = S(("havoc", "void", 0))
                for a in callee.allocas:
                    for x in [x for x in st.mem if self.root(x) == a]:
                        del st.mem[x]
                continue
            if op == "unreachable":
                self._finish(st, "unreachable", None, ins)
                return
            if op == "call":
                r = self._call(st, fr, ins, work)
                if r == "end":
                    return
                continue
            if op == "select":
                b = self.asB(self.val(fr, ins.ops[0]))
                outs = self._fork(st, b, work)
                x, y = self.val(fr, ins.ops[1]), self.val(fr, ins.ops[2])
                if len(outs) == 1 and outs[0][0] is st:
                    fr.env[ins.id] = x if outs[0][1] else y
                    fr.idx += 1
                    continue
                for s2, v in outs:
                    self._ev(s2, "assume", ins, x=b if v else bnot(b))
                    f2 = s2.frames[-1]
                    f2.env[ins.id] = x if v else y
                    f2.idx += 1
                    work.append(s2)
                return
            self._simple(st, fr, ins)
            fr.idx += 1

    def _simple(self, st, fr, ins):
        op = ins.op
        env = fr.env
        if op == "load":
            a = self.asL(self.val(fr, ins.ops[0]))
            v = self.loadev(st, ins, a, ins.size, ins.isptr, ins.bits, acls(a.tag, ins.isptr, ins.size))
            env[ins.id] = v
            if ins.bits == 1:
                env[ins.id] = self.asB(v)
            if ins.extra[1] != "notatomic":
                self._ev(st, "atomic", ins, name="load", addr=a, x=("load", ins.extra[1]), ret=v)
            return
        if op == "store":
            v = self.val(fr, ins.ops[0])
            a = self.asL(self.val(fr, ins.ops[1]))
            if not isinstance(v, L):
                v = self.asL(v)
            self._store_ev(st, ins, a, ins.size, v, acls(a.tag, ins.extra[2], ins.size))
            return
        if op == "gep":
            b = self.asL(self.val(fr, ins.ops[0]))
            off, dyn, tag = ins.extra
            r = b.plus(off)
            for o, sc in dyn:
                r = r.add(self.asL(self.val(fr, o)).scale(sc))
            if tag == ("elem",):
                tag = b.tag
            if tag is None:
                tag = b.tag if (not dyn and off == 0) else None
            env[ins.id] = L(r.c, r.t, tag, 64)
            return
        if op in ("add", "sub", "mul", "shl"):
            a = self.asL(self.val(fr, ins.ops[0]))
            b = self.asL(self.val(fr, ins.ops[1]))
            if op == "add":
                r = a.add(b)
            elif op == "sub":
                r = a.sub(b)
            elif op == "mul":
                if b.isconst():
                    r = a.scale(b.c)
                elif a.isconst():
                    r = b.scale(a.c)
                else:
                    x, y = sorted((a, b), key=show)
                    r = S(("op", "mul", x, y))
            else:
                if b.isconst() and 0 <= b.c < 63:
                    r = a.scale(1 << b.c)
                else:
                    r = S(("op", "shl", a, b))
            r = L(r.c, r.t, None, ins.bits)
            if r.isconst() and ins.bits < 64:
                k = r.c & ((1 << ins.bits) - 1)
                if k >> (ins.bits - 1):
                    k -= 1 << ins.bits
                r = C(k, ins.bits)
            elif self.arith:
                self._ev(st, "arith", ins, name=op, val=r, size=ins.bits, x=(ins.extra, a, b))
            env[ins.id] = r
            return
        if op in ("and", "or", "xor"):
            x, y = self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1])
            if ins.bits == 1:
                bx, by = self.asB(x), self.asB(y)
                if op == "xor":
                    if by == T:
                        env[ins.id] = bnot(bx)
                    elif by == F:
                        env[ins.id] = bx
                    else:
                        env[ins.id] = ("or", ("and", bx, bnot(by)), ("and", bnot(bx), by))
                else:
                    env[ins.id] = (op, bx, by)
                return
            a, b = self.asL(x), self.asL(y)
            env[ins.id] = bitop(op, a, b, ins.bits)
            return
        if op in ("udiv", "sdiv", "urem", "srem", "lshr", "ashr"):
            a, b = self.asL(self.val(fr, ins.ops[0])), self.asL(self.val(fr, ins.ops[1]))
            if not b.isconst() and op[1:] in ("div", "rem"):
                self._ev(st, "div", ins, name=op, x=(a, b))
            if a.isconst() and b.isconst() and b.c > 0 and a.c >= 0:
                k = {"udiv": a.c // b.c, "sdiv": a.c // b.c, "urem": a.c % b.c,
                     "srem": a.c % b.c, "lshr": a.c >> b.c, "ashr": a.c >> b.c}[op]
                env[ins.id] = C(k, ins.bits)
            elif op == "lshr" and b.isconst():
                env[ins.id] = S(("op", "udiv", a, C(1 << b.c)), None, ins.bits)
            elif b.isconst() and b.c == 1 and op in ("udiv", "sdiv"):
                env[ins.id] = a
            else:
                env[ins.id] = S(("op", op, a, b), None, ins.bits)
            return
        if op in ("zext", "sext"):
            v = self.val(fr, ins.ops[0])
            if isinstance(v, L):
                if v.isconst() and op == "zext" and v.c < 0:
                    v = C(uval(v), ins.bits)
                env[ins.id] = v
            else:
                env[ins.id] = self.asL(v)
            return
        if op == "trunc":
            v = self.asL(self.val(fr, ins.ops[0]))
            if ins.bits == 1:
                env[ins.id] = ("cmp", "ne", bitop("and", v, C(1), 64), ZERO) \
                    if not (v.sym() and v.sym()[0] == "bool") else self.asB(v)
                return
            nv = st.facts.norm(v)
            if nv.isconst():
                v = nv
            if v.isconst():
                k = v.c & ((1 << ins.bits) - 1)
                if k >> (ins.bits - 1):
                    k -= 1 << ins.bits
                env[ins.id] = C(k, ins.bits)
            elif v.bits <= ins.bits:
                env[ins.id] = v
            else:
                env[ins.id] = S(("op", "trunc%d" % ins.bits, v), None, ins.bits)
            return
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
            env[ins.id] = self.val(fr, ins.ops[0])
            return
        if op == "icmp":
            x, y = self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1])
            env[ins.id] = self.icmp(ins.extra, x, y)
            return
        if op == "alloca":
            s = ("alloca", "%s.%s" % (self.src(fr.fn.name), ins.name or ins.id), st.tick())
            PTR.add(s)
            ALLOCA_SIZE[s] = ins.extra[0]
            fr.allocas = fr.allocas + (s,)
            env[ins.id] = S(s)
            return
        if op == "atomicrmw":
            a = self.asL(self.val(fr, ins.ops[0]))
            v = self.asL(self.val(fr, ins.ops[1]))
            old = self.load(st, a, ins.size, False, ins.bits, a.tag)
            nv = {"add": lambda: old.add(v), "sub": lambda: old.sub(v),
                  "xchg": lambda: v}.get(ins.extra[0], lambda: S(("havoc", "rmw", st.tick())))()
            self._ev(st, "atomic", ins, name=ins.extra[0], addr=a, val=nv, old=old,
                     x=ins.extra, tag=a.tag)
            self.store(st, a, ins.size, nv, a.tag)
            st.mem.pop(a, None)         # another thread may change it at once
            env[ins.id] = old
            return
        if op == "fence":
            self._ev(st, "atomic", ins, name="fence", x=("fence", ins.extra))
            return
        if op == "cmpxchg":
            a = self.asL(self.val(fr, ins.ops[0]))
            self._ev(st, "atomic", ins, name="cmpxchg", addr=a, x=("cmpxchg", None), tag=a.tag)
            self.kill(st, a, 8, a.tag)
            env[ins.id] = S(("havoc", "cmpxchg", st.tick()))
            return
        if op in ("extractvalue", "insertvalue", "va_arg"):
            if op == "va_arg":
                env[ins.id] = S(("havoc", "va_arg", st.tick()), None, ins.bits or 64)
            elif op == "extractvalue" and self.val(fr, ins.ops[0])[0:1] == ("pair",):
                env[ins.id] = self.val(fr, ins.ops[0])[1 + list(ins.extra)[0]]
            else:
                env[ins.id] = S(("op", "%s%s" % (op, ins.extra),
                                 self.asL(self.val(fr, ins.ops[0]))), None, ins.bits or 64)
                if ins.bits == 1:
                    env[ins.id] = ("sym", env[ins.id])
            return
        raise AnalysisError("instruction %s not modelled (%s)" % (op, fr.fn.name))

    def icmp(self, pred, x, y):
        for a, b in ((x, y), (y, x)):
            bl = None
            if not isinstance(a, L):
                bl = a
            elif a.sym() and a.sym()[0] == "bool":
                bl = a.sym()[1]
            if bl is not None:
                bb = b
                if isinstance(bb, L) and bb.isconst() or bb in (T, F):
                    k = bb.c if isinstance(bb, L) else (1 if bb == T else 0)
                    if pred in ("eq", "ne") and k in (0, 1, -1):
                        r = bl if (k != 0) == (pred == "eq") else bnot(bl)
                        return r
                    if pred in ("ugt", "sgt") and k == 0 and a is x:
                        return bl
        return cmp(pred, self.asL(x), self.asL(y))

    def _store_ev(self, st, ins, a, size, v, tag):
        ra = self.root(a)
        old = None
        if not (ra is not None and ra[0] == "alloca" and ra not in st.escaped):
            old = self.load(st, a, size, False, size * 8, tag)
        self.store(st, a, size, v, tag)
        self._ev(st, "store", ins, addr=a, val=v, old=old, tag=tag, size=size)

    def _memcopy(self, st, ins, d, s, n):
        if n.isconst() and 0 < n.c <= 160:
            k = n.c
            chunks = []
            o = 0
            while o < k:
                w = 8 if k - o >= 8 else 4 if k - o >= 4 else 2 if k - o >= 2 else 1
                chunks.append((o, w))
                o += w
            # follow the widths known at the source
            vals = []
            o = 0
            while o < k:
                e = st.mem.get(s.plus(o))
                w = None
                if e and o + e[0] <= k:
                    w = e[0]
                else:
                    w = 8 if k - o >= 8 and not any(
                        st.mem.get(s.plus(o + j)) for j in range(1, 8)) else \
                        4 if k - o >= 4 and not any(
                            st.mem.get(s.plus(o + j)) for j in range(1, 4)) else 1
                vals.append((o, w, self.loadev(st, ins, s.plus(o), w, w == 8, w * 8,
                                               s.tag if o == 0 else None), e[2] if e else None))
                o += w
            for o, w, v, tg in vals:
                self._store_ev(st, ins, d.plus(o, (d.tag if o == 0 else None)), w, v,
                               d.tag if o == 0 else tg)
            return
        self._ev(st, "memcpy", ins, args=[d, s, n])
        r = self.root(d)
        if r is not None:
            self.kill(st, d, 1 << 40, None)
            self.kill_root(st, r) if r[0] == "alloca" else None
        else:
            self.havoc_shared(st)

    def _memset(self, st, ins, d, v, n):
        r = self.root(d)
        size = n.c if n.isconst() else None
        for a in list(st.mem):
            x = a.sub(d)
            if not x.t:
                if size is None and x.c >= 0 or size is not None and 0 <= x.c < size:
                    del st.mem[a]
            elif self.may_alias(st, d, None, a, None) and self.root(a) == r:
                del st.mem[a]
        self._ev(st, "memset", ins, args=[d, v, n])
        if v.isconst() and v.c == 0:
            st.zero.append((d, size))

    def _call(self, st, fr, ins, work):
        tgt = ins.extra
        if tgt[0] == "asm":
            self._ev(st, "asm", ins, name=tgt[1])
            fr.env[ins.id] = S(("havoc", "asm", st.tick()))
            fr.idx += 1
            return None
        name = None
        if tgt[0] == "f":
            name = tgt[1]
        else:
            tv = self.val(fr, tgt)
            s = tv.sym() if isinstance(tv, L) else None
            if s and s[0] == "fn":
                name = s[1]
        if name is not None:
            if any(name.startswith(p) for p in IGNORE):
                fr.env[ins.id] = S(("havoc", name, 0))
                fr.idx += 1
                return None
        args = [self.val(fr, o) if o[0] not in ("md",) else ZERO for o in ins.ops]
        args = [self.asL(a) for a in args]
        if name is None:
            e = self._ev(st, "icall", ins, x=tv, args=args)
            for a in args:
                for s in a.syms():
                    if s[0] == "alloca":
                        self.escape(st, s)
            # an alloca passed only for the duration of the call is changed by it,
            # but is not retained
            self.havoc_shared(st)
            r = self._ret(st, ins, "<indirect>")
            e.ret = r
            if self.minus1:
                st.facts = st.facts.assume(cmp("sge", r, C(-1)))[0]
            fr.env[ins.id] = r
            fr.idx += 1
            return None
        sname = self.src(name)
        if sname.startswith("llvm.memcpy") or sname.startswith("llvm.memmove") or \
                sname in ("memcpy", "memmove", "__memcpy_chk"):
            self._memcopy(st, ins, args[0], args[1], args[2])
            fr.env[ins.id] = args[0]
            fr.idx += 1
            return None
        if sname.startswith("llvm.memset") or sname in ("memset", "bzero"):
            if sname == "bzero":
                self._memset(st, ins, args[0], ZERO, args[1])
            else:
                self._memset(st, ins, args[0], args[1], args[2])
            fr.env[ins.id] = args[0]
            fr.idx += 1
            return None
        if sname in ("llvm.umax.i64", "llvm.umin.i64", "llvm.umax.i32", "llvm.umin.i32",
                     "llvm.smax.i32", "llvm.smin.i32", "llvm.smax.i64", "llvm.smin.i64"):
            mx = "max" in sname
            p = ("u" if ".u" in sname else "s") + ("gt" if mx else "lt")
            b = cmp(p, args[0], args[1])
            outs = self._fork(st, b, work)
            if len(outs) == 1 and outs[0][0] is st:
                fr.env[ins.id] = args[0] if outs[0][1] else args[1]
                fr.idx += 1
                return None
            for s2, v in outs:
                self._ev(s2, "assume", ins, x=b if v else bnot(b))
                f2 = s2.frames[-1]
                f2.env[ins.id] = args[0] if v else args[1]
                f2.idx += 1
                work.append(s2)
            return "end"
        if ".with.overflow." in sname:
            op, bits = sname.split(".")[1], int(sname.rsplit(".i", 1)[1])
            if op[1:] == "mul":
                if args[0].isconst() or args[1].isconst():
                    k, x = (args[0].c, args[1]) if args[0].isconst() else (args[1].c, args[0])
                    r = x.scale(k)
                else:
                    r = S(("op", "mul") + tuple(sorted(args[:2], key=show)))
            else:
                r = args[0].add(args[1]) if op[1:] == "add" else args[0].sub(args[1])
            r = L(r.c, r.t, None, bits)
            if op[0] == "u":
                ov = cmp("ult", args[0], args[1]) if op == "usub" else \
                    cmp("ugt", r, C((1 << bits) - 1, 65))
            else:
                ov = ("or", cmp("sgt", r, C((1 << (bits - 1)) - 1, 65)),
                      cmp("slt", r, C(-(1 << (bits - 1)), 65)))
            fr.env[ins.id] = ("pair", r, ov)
            fr.idx += 1
            return None
        if sname == "pthread_getspecific":
            a = self._tls(args[0])
            fr.env[ins.id] = self.loadev(st, ins, a, 8, True, 64, None)
            fr.idx += 1
            return None
        if sname == "pthread_setspecific":
            a = self._tls(args[0])
            e = self._ev(st, "call", ins, name=sname, args=args)
            e.ret = self._ret(st, ins, sname)
            self.store(st, a, 8, args[1], None)
            fr.env[ins.id] = e.ret
            fr.idx += 1
            return None
        model = self.models.get(sname)
        if model is not None:
            r = model(self, st, fr, ins, args)
            if r is not None:
                fr.env[ins.id] = r
                fr.idx += 1
                return None
        fn = self.mod.functions.get(name)
        if fn is not None and not fn.decl and sname not in self.opaque:
            if any(f.fn is fn for f in st.frames):
                raise AnalysisError("recursion through %s" % sname)
            if fn.irreducible:
                raise AnalysisError("irreducible control flow in %s" % sname)
            self.stats["inlined"].add(sname)
            nf = Frame.__new__(Frame)
            nf.fn = fn
            nf.blk = fn.blocks[0]
            nf.prev = None
            nf.idx = 0
            nf.env = {}
            for (vid, nm, isptr, bits), a in zip(fn.args, args):
                nf.env[vid] = a
            nf.ret = ins.id
            nf.loops = {}
            nf.site = ins
            nf.allocas = ()
            fr.idx += 1
            st.frames.append(nf)
            return None
        # opaque call
        if sname == "sysconf" and args and args[0].isconst() and args[0].c == 30:     # _SC_PAGESIZE
            sname, args = "getpagesize", []
        if sname in self.pure:
            if sname == "__errno_location":
                fr.env[ins.id] = ERRNO
            else:
                s = ("pure", sname, tuple(args))
                PTR.add(s)
                fr.env[ins.id] = S(s, None, 32 if sname == "getpagesize" else ins.bits or 64)
            fr.idx += 1
            return None
        e = self._ev(st, "call", ins, name=sname, args=args)
        if sname in NORETURN:
            self._finish(st, "noreturn", sname, ins)
            return "end"
        if sname in self.havoc:
            for a in args:
                for s in a.syms():
                    if s[0] == "alloca":
                        self.escape(st, s)
            self.havoc_shared(st)
        elif sname in RBMUT:
            # changes tree links only
            for a, (sz, v, tg) in list(st.mem.items()):
                r = self.root(a)
                if (tg is None or tg in (("ty", "p"), ("ty", "i8"))) and not (r is not None and (
                        r[0] == "tls" or r[0] == "alloca" and r not in st.escaped)):
                    del st.mem[a]
                elif tg is not None and tg[0] in RBTYPES:
                    del st.mem[a]
            for a in args[1:2]:
                for x in a.syms():
                    if x[0] == "alloca":
                        self.escape(st, x)
        elif sname in EXTENT:
            # writes a known number of bytes through some arguments
            for k, n in EXTENT[sname].items():
                if k < len(args) and not (args[k].isconst() and args[k].c == 0):
                    self.kill(st, args[k], n, None) if self.root(args[k]) is None else \
                        self.kill_range(st, args[k], n)
        elif sname not in self.nomem and sname not in ALLOC:
            for a in args:
                r = self.root(a)
                if r is not None:
                    self.kill_root(st, r)
        if sname in ("hev_free", "free") and args and self.root(args[0]) is not None:
            self.kill_root(st, self.root(args[0]))      # a later use shows as a read
        st.mem.pop(ERRNO, None)
        e.ret = self._ret(st, ins, sname)
        if sname in MINUS1:
            st.facts = st.facts.assume(cmp("sge", e.ret, C(-1)))[0]
            if sname in ZEROONLY:
                st.facts = st.facts.assume(cmp("sle", e.ret, ZERO))[0]
        if sname in ALLOC:
            s = e.ret.sym()
            PTR.add(s)
            st.fresh = st.fresh | {s}
            if sname in ZEROING:
                zi = ZEROING[sname]
                n = args[zi] if zi is not None else None
                st.zero.append((e.ret, n.c if n is not None and n.isconst() else None))
        fr.env[ins.id] = e.ret
        fr.idx += 1
        return None

    def _ret(self, st, ins, name):
        s = ("call", name, st.tick())
        if ins.isptr:
            PTR.add(s)
        if ins.bits == 1:
            return ("sym", S(s, None, 1))
        return S(s, None, ins.bits or 64)

    @staticmethod
    def _tls(k):
        s = k.sym()
        if s and s[0] == "load":
            g = s[1].syms()
            if len(g) == 1 and g[0][0] == "glob":
                x = ("tls", g[0][1])
                PTR.add(x)
                return S(x)
        x = ("tls", k)
        PTR.add(x)
        return S(x)


def bitop(op, a, b, bits):
    if a.isconst() and b.isconst():
        k = {"and": a.c & b.c, "or": a.c | b.c, "xor": a.c ^ b.c}[op]
        return C(k, bits)
    if a.isconst():
        a, b = b, a
    if b.isconst():
        if op == "and" and b.c == 0:
            return C(0, bits)
        if op in ("or", "xor") and b.c == 0:
            return a
        if op == "and" and b.c == -1:
            return a
        s = a.sym()
        if s and s[0] == "op" and s[1] == op and len(s) == 4 and s[3].isconst():
            if op == "and":
                return bitop(op, s[2], C(s[3].c & b.c, bits), bits)
            if op == "or":
                return bitop(op, s[2], C(s[3].c | b.c, bits), bits)
        return S(("op", op, a, b), None, bits)
    if a == b and op in ("and", "or"):
        return a
    x, y = sorted((a, b), key=lambda l: _lkey(l))
    return S(("op", op, x, y), None, bits)


def _lkey(l):
    return show(l)
