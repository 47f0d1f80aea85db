"""C24 the slice allocator, C25 the allocation calls."""
from .core import *
from .core import CONFIGS, absint
from .rules_itc import known, nonzero, zero
from .rules_own import last_stores
from .rules_stack import Terms, floor2
from .rules_sys import sets, tls_reads

AL = "_HevMemoryAllocator"
TOP = (1 << 64) - 1
INF = 1 << 60


def heap(p):
    return [e for e in p.events if e.k == "call" and e.name in ("malloc", "calloc", "realloc", "free", "memalign",
                                                                "posix_memalign", "aligned_alloc", "reallocarray")]


def icalls(p):
    return [e for e in p.events if e.k == "icall"]


def product(p, t, a, b):
    m = S(("op", "mul") + tuple(sorted([a, b], key=absint.show)))
    return eq(p, t, m) is True


def fits(p, a, b):
    """a * b is known not to wrap"""
    m = S(("op", "mul") + tuple(sorted([a, b], key=absint.show)))
    if known(p, cmp("ule", m, L(TOP, (), None, 65))):
        return True
    for x, y in ((a, b), (b, a)):
        if nonzero(p, y) and (known(p, cmp("ule", x, S(("op", "udiv", C(-1), y)))) or
                              known(p, cmp("ule", x, S(("op", "udiv", C(TOP), y)))) or
                              eq(p, S(("op", "udiv", m, y)), x) is True):
            return True
    ha, hb = bound(p, a)[1], bound(p, b)[1]
    return ha is not None and hb is not None and ha * hb <= TOP


# ------------------------------------------------------------------ C25
def served(c, f, slot, plain, want, zeroed=None):
    """every path of an allocation call: which allocator serves it, with what, and what is given back"""
    pr = prog()
    off = pr.off(AL, slot)
    n = {"own": 0, "plain": 0}
    api = {"hev_malloc", "hev_malloc0", "hev_calloc", "hev_realloc", "hev_free"}
    for p in rets(c.paths(f, inline=api)):
        w = where_of(p)
        tr, st = tls_reads(p), sets(p)
        ic = icalls(p)
        args = want(p)
        if args is None:
            c.ob("alloc-refused", not ic and not [e for e in heap(p)] and zero(p, p.val), w, "a request that cannot "
                 "be met is not simply refused", p)
            continue
        if not tr:
            c.ob("alloc-thread", False, w, "the thread's own allocator is not looked at", p)
            continue
        T = tr[0].val
        c.ob("alloc-thread", len({e.addr for e in tr}) == 1, tr[0], "more than one place holds the thread's "
             "allocator", p)
        if nonzero(p, T):
            n["own"] += 1
            ok = len(ic) == 1 and loaded_from(ic[0].x) == T.plus(off) and eq(p, ic[0].args[0], T) is True and \
                not heap(p) and not st
            c.ob("alloc-thread", ok, ic[0] if ic else w, "the request is not handed to the thread's own allocator", p)
            if not ok:
                continue
            got, op = ic[0].ret, ic[0].args[1:]
        elif zero(p, T):
            if st and zero(p, st[-1].args[1]):
                continue                        # no memory for an allocator
            n["plain"] += 1
            hp = heap(p)
            new = [e for e in hp if e.name in ("malloc", "calloc")]
            ok = len(st) == 1 and not ic and bool(new) and eq(p, st[0].args[1], new[0].ret) is True and \
                len(hp) == 2 and hp[1].name == plain
            c.ob("alloc-plain", ok, w, "without an allocator of its own the thread's request is not handed to the "
                 "system's exactly once", p)
            if not ok:
                continue
            got, op = hp[1].ret, hp[1].args
        else:
            c.ob("alloc-thread", False, w, "the thread's own allocator is used without looking whether there is one",
                 p)
            continue
        ok = len(op) == len(args) and all(a(p, x) for a, x in zip(args, op))
        c.ob("alloc-request", ok, w, "the request handed on is not the one made", p)
        if slot != "free":
            c.ob("alloc-request", eq(p, p.val, got) is True, w, "the block handed back is not the allocator's", p)
        if zeroed and not zero(p, got):
            ms = [e for e in p.events if e.k == "memset" and eq(p, e.args[0], got) is True]
            ok = len(ms) == 1 and zero(p, ms[0].args[1]) and args[-1](p, ms[0].args[2]) and nonzero(p, got)
            c.ob("alloc-zeroed", ok, ms[0] if ms else w, "not exactly the requested bytes are cleared", p)
    c.does(n["own"] and n["plain"], "%s serves requests" % f)


def C25(c):
    pr = prog()

    def same(f, *idx):
        a = [argn(pr, f, i) for i in idx]
        return lambda p: [lambda p, x, y=y: eq(p, x, y) is True for y in a]
    served(c, "hev_malloc", "alloc", "malloc", same("hev_malloc", 0))
    served(c, "hev_malloc0", "alloc", "malloc", same("hev_malloc0", 0), True)
    served(c, "hev_realloc", "realloc", "realloc", same("hev_realloc", 0, 1))
    served(c, "hev_free", "free", "free", same("hev_free", 0))
    a, b = argn(pr, "hev_calloc", 0), argn(pr, "hev_calloc", 1)

    for p in c.paths("hev_calloc"):
        for e in p.events:
            if e.k == "div":
                c.ob("alloc-product", nonzero(p, e.x[1]), e, "a size of zero is divided by", p)

    def calloc(p):
        if tls_reads(p) or icalls(p) or heap(p):
            c.ob("alloc-product", fits(p, a, b), where_of(p), "a count times size that does not fit is not refused", p)
            return [lambda p, x: product(p, x, a, b)]
        c.ob("alloc-product", not fits(p, a, b) or zero(p, a) or zero(p, b), where_of(p), "a request that fits is "
             "refused", p)
        return None
    served(c, "hev_calloc", "alloc", "malloc", calloc, True)
    # direct entry points
    for f, slot, k in (("hev_memory_allocator_alloc", "alloc", 2), ("hev_memory_allocator_realloc", "realloc", 3),
                       ("hev_memory_allocator_free", "free", 2)):
        a = [argn(pr, f, i) for i in range(k)]
        for p in rets(c.paths(f)):
            ic = icalls(p)
            ok = len(ic) == 1 and loaded_from(ic[0].x) == a[0].plus(pr.off(AL, slot)) and list(ic[0].args) == a and \
                (slot == "free" or eq(p, p.val, ic[0].ret) is True) and not heap(p)
            c.ob("alloc-request", ok, where_of(p), "%s does not run the allocator's own method" % f, p)
    # the default
    f = "hev_memory_allocator_set_default"
    me = argn(pr, f, 0)
    for p in rets(c.paths(f)):
        st, tr = sets(p), tls_reads(p)
        ok = len(st) == 1 and eq(p, st[0].args[1], me) is True
        c.ob("alloc-default", ok, where_of(p), "the allocator given does not become the thread's", p)
        old = [e for e in tr if not st or e.n < st[0].n]
        c.ob("alloc-default", bool(old) and eq(p, p.val, old[0].val) is True and not heap(p) and not icalls(p) and
             not shared_stores(p), where_of(p), "the previous allocator is not handed back untouched", p)
    f = "hev_memory_allocator_default"
    for p in rets(c.paths(f)):
        st, tr = sets(p), tls_reads(p)
        T = tr[0].val if tr else None
        if T is not None and nonzero(p, T):
            ok = eq(p, p.val, T) is True and not st
        else:
            ok = T is not None and zero(p, T) and len(st) == 1 and eq(p, st[0].args[1], p.val) is True
        c.ob("alloc-default", ok, where_of(p), "the default handed out is not the thread's own", p)
        if ok and st and nonzero(p, p.val):
            ls = last_stores(p)
            r = ls.get(p.val.plus(pr.off(AL, "ref_count")))
            c.ob("alloc-default", r is not None and eq(p, r.val, C(1)) is True, where_of(p), "a new allocator does not "
                 "start with one reference", p)
            d = ls.get(p.val.plus(pr.off(AL, "destroy")))
            c.ob("alloc-default", d is not None and zero(p, d.val), where_of(p), "the plain allocator's tear-down is "
                 "not set", p)
    from .rules_ref import allocator
    allocator(c)
    from .rules_sys import key
    key(c, ("hev_memory_allocator_set_default", "hev_memory_allocator_default"))


# ------------------------------------------------------------------ C24
class SL:
    """layout of the slice allocator and the names of its methods"""

    def __init__(self, c, cfg):
        pr = self.pr = prog(cfg)
        self.cfg = cfg
        A = "_HevMemoryAllocatorSlice"
        self.head, self.tail, self.nodes, self.count, self.slots = (
            pr.off(A, x) for x in ("lru_head", "lru_tail", "lru_nodes", "cached_count", "cached_mslices"))
        self.n = pr.fsize(A, "cached_mslices") // 8
        self.nsz = pr.fsize(A, "lru_nodes") // self.n
        self.prev, self.next = pr.off("_HevMemoryLRUNode", "prev"), pr.off("_HevMemoryLRUNode", "next")
        self.H = pr.sizeof("_HevMemorySlice")
        self.bnext, self.bidx = pr.off("_HevMemorySlice", "next"), pr.off("_HevMemorySlice", "index")
        self.limit = int(CONFIGS[cfg]["CONFIG_MEMALLOC_SLICE_MAX_COUNT"])
        self.size = pr.sizeof(A)
        N = "struct._HevMemoryLRUNode"
        self.kw = dict(links={(N, self.prev), (N, self.next)})

    def slot(self, me, a):
        """class index of a list head's address"""
        d = a.sub(me).plus(-self.slots)
        return self.div(d, 8)

    @staticmethod
    def div(d, k):
        if d.c % k == 0 and all(q % k == 0 for _, q in d.t):
            return L(d.c // k, tuple((s, q // k) for s, q in d.t))
        return None

    def cls(self, me, nd):
        """class index of a node's address"""
        d = nd.sub(me).plus(-self.nodes)
        j = self.div(d, self.nsz)
        return j if j is not None else S(("op", "sdiv", d, C(self.nsz)))


def new(c, sl):
    pr = sl.pr
    f = "hev_memory_allocator_slice_new"
    fns = None
    for p in rets(c.paths(f, sl.cfg)):
        if zero(p, p.val):
            continue
        w = where_of(p)
        me = p.val
        ml = p.calls("malloc", "calloc")
        c.ob("slice-new", len(ml) == 1 and eq(p, ml[0].ret, me) is True, w, "the allocator is not one block", p)
        ls = last_stores(p)
        zr = [(e.args[0].sub(me), e.args[2]) for e in p.events if e.k == "memset" and zero(p, e.args[1])]

        def z(o, n):
            if ml and ml[0].name == "calloc" or n <= 8 and me.plus(o) in ls and zero(p, ls[me.plus(o)].val):
                return True
            return any(d.isconst() and k.isconst() and d.c <= o and o + n <= d.c + k.c for d, k in zr)
        c.ob("slice-new", z(sl.head, 8) and z(sl.tail, 8) and z(sl.count, 4) and z(sl.slots, 8 * sl.n), w,
             "a new allocator's books are not empty", p)
        if ml and ml[0].name == "malloc":
            c.ob("slice-new", ml[0].args[0].isconst() and ml[0].args[0].c >= sl.size, w, "a new allocator is too "
                 "small", p)
        r = ls.get(me.plus(pr.off(AL, "ref_count")))
        c.ob("slice-new", r is not None and eq(p, r.val, C(1)) is True, w, "a new allocator does not start with one "
             "reference", p)
        g = {}
        for k in ("alloc", "realloc", "free", "destroy"):
            e = ls.get(me.plus(pr.off(AL, k)))
            s = e.val.sym() if e is not None and isinstance(e.val, L) else None
            c.ob("slice-new", s is not None and s[0] == "fn", w, "a new allocator has no '%s' method" % k, p)
            g[k] = s[1] if s else None
        fns = g
    c.need(fns and all(fns.values()), "slice allocator methods")
    return fns


class Books:
    """what one path does to the cache: blocks taken and put, count, order list"""

    def __init__(self, c, sl, p, me):
        self.c, self.sl, self.p, self.me = c, sl, p, me
        self.pops, self.puts = [], []       # (class, block, event)
        self.cells, self.mine = {}, []
        self.bad = False
        w = where_of(p)
        first = {}
        for e in p.events:
            if e.k in ("read", "store") and isinstance(e.addr, L):
                self.cells.setdefault(e.addr, e.val if e.k == "read" else e.old)
        self.touch = []
        for e in p.events:
            if e.k != "store" or not isinstance(e.addr, L):
                continue
            tag = e.addr.tag
            j = sl.slot(me, e.addr) if tag == ("struct._HevMemoryAllocatorSlice", sl.slots) else None
            if j is None:
                continue
            self.slot(e, j)

    def inrange(self, j, e):
        """the class index is inside the table (an index read from a block was checked when it was written)"""
        sl, p = self.sl, self.p
        f = loaded_from(j)
        if f is not None and f.tag == ("struct._HevMemorySlice", sl.bidx):
            ok = known(p, cmp("sge", j, ZERO))
        elif j.sym() and j.sym()[1] == "sdiv":
            ok = True                       # a node of the list
        else:
            lo, hi = self.sharpen(j, *bound(p, strip(j)))
            ok = lo is not None and hi is not None and 0 <= lo and hi < sl.n
        self.c.ob("slice-class", ok, e, "a size class outside the table may be used", p)

    def sharpen(self, j, lo, hi):
        v = self.p.st.facts.norm(j)
        if v.isconst():
            return v.c, v.c
        return lo, hi

    def slot(self, e, j):
        c, sl, p = self.c, self.sl, self.p
        self.inrange(j, e)
        old = e.old
        rd = [x for x in p.events if x.k == "read" and x.addr == e.addr and x.n < e.n]
        if rd:
            old = rd[-1].val
            mid = [x for x in p.events if rd[-1].n < x.n < e.n and x.k == "store" and
                   x.addr.tag == e.addr.tag and x.addr != e.addr]
        else:
            mid = []
        src = loaded_from(e.val)
        if src is not None and eq(p, src, old.plus(sl.bnext)) is True:
            c.ob("slice-take", nonzero(p, old) or self.inlist(j), e, "a block is taken from a class that may be "
                 "empty", p)
            self.pops.append((j, old, e.val, e))
            return
        hn = [x for x in p.events if x.k == "store" and x.addr == e.val.plus(sl.bnext)]
        nx = hn[-1].val if hn else None
        ok = nx is not None and eq(p, nx, old) is True and not mid
        c.ob("slice-put", ok, e, "a block is put into a class without keeping the blocks already there", p)
        self.puts.append((j, e.val, old, e))

    def inlist(self, j):
        """class j is that of a node of the order list, which holds the classes with blocks: not empty"""
        s = j.sym()
        if not s or s[1] != "sdiv":
            return False
        T = s[2].add(self.me).plus(self.sl.nodes)
        f = loaded_from(T)
        if f is None or f not in (self.me.plus(self.sl.tail), self.me.plus(self.sl.head)):
            return False
        if nonzero(self.p, T):
            return True
        n = self.cells.get(self.me.plus(self.sl.count))
        lo = bound(self.p, n)[0] if n is not None else None
        return lo is not None and lo >= 1

    # ---------------------------------------------------------------- order list
    def init(self, a):
        for x, v in self.cells.items():
            if x == a or eq(self.p, x, a) is True:
                return v
        return S(("op", "cell", a, ZERO))

    def rd(self, o, a):
        for x, v in o.items():
            if x == a or eq(self.p, x, a) is True:
                return v
        return self.init(a)

    def wr(self, o, a, v):
        for x in o:
            if x == a or eq(self.p, x, a) is True:
                o[x] = v
                return
        o[a] = v

    def remove(self, o, X):
        """-> possible? (None: unknown)"""
        sl, p, me = self.sl, self.p, self.me
        P, N = self.rd(o, X.plus(sl.prev)), self.rd(o, X.plus(sl.next))
        for v, end in ((P, sl.head), (N, sl.tail)):
            z, h = eq(p, v, ZERO), eq(p, self.rd(o, me.plus(end)), X)
            if z is not None and h is not None and z != h:
                return False            # not a list
        h, t = eq(p, self.rd(o, me.plus(sl.head)), X), eq(p, self.rd(o, me.plus(sl.tail)), X)
        zp, zn = eq(p, P, ZERO), eq(p, N, ZERO)
        zp, zn = h if zp is None else zp, t if zn is None else zn
        if zp is None or zn is None:
            return None
        self.wr(o, me.plus(sl.head) if zp else P.plus(sl.next), ZERO if zn else N)
        self.wr(o, me.plus(sl.tail) if zn else N.plus(sl.prev), ZERO if zp else P)
        return True

    def insert(self, o, X):
        sl, p, me = self.sl, self.p, self.me
        H, T = self.rd(o, me.plus(sl.head)), self.rd(o, me.plus(sl.tail))
        z, t = eq(p, H, ZERO), eq(p, T, ZERO)
        if z is not None and t is not None and z != t:
            return False
        z = t if z is None else z
        if z is None:
            return None
        self.wr(o, X.plus(sl.prev), ZERO)
        self.wr(o, X.plus(sl.next), ZERO if z else H)
        self.wr(o, me.plus(sl.tail) if z else H.plus(sl.prev), X)
        self.wr(o, me.plus(sl.head), X)
        return True

    def lrustores(self):
        sl, me = self.sl, self.me
        out = {}
        for e in self.p.events:
            if e.k == "store" and isinstance(e.addr, L) and (
                    e.addr.tag and e.addr.tag[0] == "struct._HevMemoryLRUNode" or
                    e.addr in (me.plus(sl.head), me.plus(sl.tail))):
                for x in out:
                    if eq(self.p, x, e.addr) is True:
                        out[x] = e.val
                        break
                else:
                    out[e.addr] = e.val
        return out

    def node(self, j):
        s = j.sym()
        if s and s[1] == "sdiv":
            return s[2].add(self.me).plus(self.sl.nodes)
        return self.me.plus(self.sl.nodes).add(j, self.sl.nsz)

    def order(self):
        """the order list after the path: exactly the classes with blocks. None if the path cannot happen"""
        c, sl, p = self.c, self.sl, self.p
        plans = [({}, frozenset())]
        for k, (j, blk, nxt, e) in sorted([("pop", x) for x in self.pops] + [("put", (j, b, o, e)) for j, b, o, e in
                                                                             self.puts], key=lambda t: t[1][3].n):
            X = self.node(j)
            z = eq(p, nxt, ZERO)
            if z is None:
                c.ob("slice-order", False, e, "whether the class still has blocks is not looked at", p)
                return
            out = []
            for o, gone in plans:
                a = dict(o)
                if k == "pop" and z:
                    r = self.remove(a, X)
                    if r:
                        out.append((a, gone | {X}))
                elif k == "put" and z:
                    r = self.insert(a, X)
                    if r:
                        out.append((a, gone - {X}))
                else:
                    r = True
                    out.append((o, gone))               # stays where it is
                    b = dict(o)
                    r1 = self.remove(b, X)
                    r2 = self.insert(b, X) if r1 else r1
                    if r1 is False or r2 is False:
                        r = False if k == "pop" and self.lrustores() else r
                    if r1 and r2:
                        out.append((b, gone))           # or becomes the first
                if r is False:
                    return                              # contradicts the books: cannot happen
                if r is None and not out:
                    c.ob("slice-order", False, e, "the order list is changed without looking at its ends", p)
                    return
            plans = out
        st = self.lrustores()
        ok = False
        for o, gone in plans:
            skip = [X.plus(d) for X in gone for d in (sl.prev, sl.next)]
            g = True
            for a in list(o) + list(st):
                if any(eq(p, a, x) is True for x in skip):
                    continue
                want = self.rd(o, a)
                have = self.rd(st, a)
                if eq(p, want, have) is not True:
                    g = False
                    break
            ok = ok or g
        c.ob("slice-order", ok, self.last(), "the order list no longer holds exactly the classes with blocks", p)

    def last(self):
        x = [e for *_, e in self.pops + self.puts]
        return x[-1] if x else where_of(self.p)

    def counted(self):
        c, sl, p = self.c, self.sl, self.p
        a = self.me.plus(sl.count)
        st = stores(p, addr=a)
        n = len(self.puts) - len(self.pops)
        if not st:
            c.ob("slice-count", n == 0, self.last(), "the number of cached blocks is not kept", p)
            return None
        n0 = self.cells.get(a)
        c.ob("slice-count", eq(p, st[-1].val, n0.plus(n)) is True, st[-1], "the number of cached blocks is not kept", p)
        return n0, n


def fresh(c, sl, p, blk, size, e, idx, rule, gs):
    """a block got from the system: large enough, marked with a class it is large enough for"""
    n = e.args[-1]
    T = Terms(4096)
    c.ob("slice-size", T.ge(n, size.plus(sl.H)), e, "a block is smaller than asked for", p)
    A = [s for s in syms(n) if s[0] == "op" and s[1] == "and"]
    hi = bound(p, size)[1]
    ok = all(eq(p, S(s), ZERO) is False or eq(p, S(("op", "udiv", S(s), C(-maskof(s)))), ZERO) is False for s in A) or \
        hi is not None and hi < TOP - (1 << 16)
    c.ob("slice-size", ok, e, "a size that does not fit is not refused", p)
    if idx is None:
        c.ob("slice-class", False, e, "a new block is not marked with its size class", p)
        return
    v = p.st.facts.norm(idx.val) if isinstance(idx.val, L) else None
    neg = v is not None and holds(p, cmp("slt", idx.val, ZERO)) is True or v is not None and v.isconst() and v.c < 0
    if neg:
        return
    lo, hi = bound(p, strip(idx.val))
    if v.isconst():
        lo = hi = v.c
    c.ob("slice-class", lo is not None and hi is not None and 0 <= lo and hi < sl.n, idx, "a block is marked with a "
         "size class outside the table", p)
    gs &= {g for g in gs if any(T.ge(n.plus(-sl.H), k.plus(1).scale(g)) for k in forms(p, idx.val))}
    c.ob("slice-class", bool(gs), idx, "a block is marked with a class of larger blocks", p)


def syms(t):
    out = []
    for s, _ in t.t:
        out.append(s)
    return out


def maskof(s):
    return s[3].c if isinstance(s[3], L) and s[3].isconst() and s[3].c < 0 else -1


def forms(p, t):
    """terms known equal to t (a class number fixed by the path, or its computation)"""
    t = strip(t)
    out = [t]
    v = p.st.facts.norm(t)
    if v.isconst():
        for s, x in list(p.st.facts.sub.items()):
            if s[0] == "op" and s[1] in ("udiv", "lshr", "sdiv") and x.isconst():
                q = S(s) if s[1] != "lshr" else S(("op", "udiv", s[2], C(1 << s[3].c)))
                out.append(q.plus(v.c - x.c))
    return out


def strip(t):
    """without width conversions"""
    out = C(t.c)
    for s, q in t.t:
        while s[0] == "op" and s[1] in ("trunc32", "trunc64", "zext", "sext") and isinstance(s[2], L) and s[2].sym():
            s = s[2].sym()
        if s[0] == "op" and s[1].startswith("trunc") and isinstance(s[2], L):
            out = out.add(s[2], q)
        elif s[0] == "op" and s[1] == "lshr" and isinstance(s[3], L) and s[3].isconst():
            out = out.add(S(("op", "udiv", s[2], C(1 << s[3].c))), q)
        else:
            out = out.add(S(s), q)
    return out


def get(c, sl, p, me, size, gs, kinds):
    """a path that serves a request for a new block"""
    w = where_of(p)
    b = Books(c, sl, p, me)
    b.counted()
    hp = heap(p)
    if zero(p, p.val):
        c.ob("slice-get", not b.pops and not b.puts, w, "a failed request changes the cache", p)
        return
    c.ob("slice-get", len(hp) + len(b.pops) == 1 and not b.puts, w, "a request is not served with exactly one "
         "block", p)
    if len(hp) + len(b.pops) != 1:
        return
    idx = None
    if hp:
        kinds.add("new")
        blk = hp[0].ret
        c.ob("slice-get", hp[0].name == "malloc" and nonzero(p, blk), hp[0], "a block that does not exist is handed "
             "out", p)
        st = [e for e in p.events if e.k == "store" and eq(p, e.addr, blk.plus(sl.bidx)) is True]
        fresh(c, sl, p, blk, size, hp[0], st[-1] if st else None, "slice-get", gs)
    else:
        kinds.add("cached")
        j, blk, nxt, e = b.pops[0]
        T = Terms(4096)
        gs &= {g for g in gs if any(T.ge(k.plus(1).scale(g), size) for k in forms(p, j))}
        c.ob("slice-class", bool(gs), e, "a request is served from a class of smaller blocks", p)
        st = [x for x in p.events if x.k == "store" and x.addr == blk.plus(sl.bidx)]
        c.ob("slice-class", not st, st[0] if st else e, "the class of a cached block is changed", p)
    c.ob("slice-get", eq(p, p.val, blk.plus(sl.H)) is True, w, "the block handed out is not the one taken", p)
    b.order()


def put(c, sl, p, me, ptr, kinds):
    """a path that takes a block back"""
    w = where_of(p)
    b = Books(c, sl, p, me)
    r = b.counted()
    fr = p.calls("free")
    oth = [e for e in heap(p) if e.name != "free"]
    c.ob("slice-back", not oth, w, "taking back a block gets memory", p)
    hd = ptr.plus(-sl.H)
    if zero(p, ptr):
        c.ob("slice-back", not fr and not b.puts and not b.pops, w, "giving back nothing has effects", p)
        return
    mine = [e for e in fr if eq(p, e.args[0], hd) is True]
    kept = [x for x in b.puts if eq(p, x[1], hd) is True]
    c.ob("slice-back", len(mine) + len(kept) == 1, w, "a block given back is not either kept or released, once", p)
    c.ob("slice-back", len(kept) == len(b.puts), w, "another block than the one given back is put into the cache", p)
    ix = [e for e in p.events if e.k == "read" and e.addr == hd.plus(sl.bidx)]
    idx = ix[0].val if ix else None
    if kept:
        kinds.add("kept")
        ok = idx is not None and eq(p, kept[0][0], idx) is True and known(p, cmp("sge", idx, ZERO))
        c.ob("slice-class", ok, kept[0][3], "a block is put into another class than its own", p)
        late = [e for e in p.events if e.k == "store" and e.addr == hd.plus(sl.bidx)]
        c.ob("slice-class", not late, w, "the class of a block is changed", p)
    else:
        kinds.add("released")
    others = [e for e in fr if e not in mine]
    c.ob("slice-evict", len(others) == len(b.pops) and all(any(eq(p, e.args[0], x[1]) is True and e.n > x[3].n
                                                               for x in b.pops) for e in others),
         others[0] if others else w, "not exactly the blocks taken out of the cache are released", p)
    if b.pops:
        kinds.add("evicted")
        late = [e for e in p.events if e.k in ("read", "store") and any(
            e.n > x.n and isinstance(e.addr, L) and Analyzer.root(e.addr) == Analyzer.root(x.args[0]) and
            Analyzer.root(x.args[0]) != Analyzer.root(me) for x in others)]
        c.ob("slice-evict", not late, late[0] if late else w, "a released block is used", p)
    if r and kept:
        n0, d = r
        hi = bound(p, n0)[1]
        ok = d <= 0 or hi is not None and hi + d <= sl.limit
        c.ob("slice-limit", ok, kept[0][3], "more blocks than the limit are kept", p)
    b.order()


def resize(c, sl, p, me, ptr, size, gs, kinds):
    w = where_of(p)
    b = Books(c, sl, p, me)
    c.ob("slice-resize", not b.pops and not b.puts and not stores(p, addr=me.plus(sl.count)) and not b.lrustores(), w,
         "resizing a block changes the cache", p)
    hp = heap(p)
    hd = ptr.plus(-sl.H)
    rl = [e for e in hp if e.name == "realloc"]
    c.ob("slice-resize", len(rl) == len(hp) and len(rl) <= 1, w, "a block is resized by other means than resizing its "
         "memory", p)
    if zero(p, p.val):
        c.ob("slice-resize", not rl or zero(p, rl[0].ret), w, "a resized block is lost", p)
        return
    if rl:
        kinds.add("resized")
        e = rl[0]
        c.ob("slice-resize", eq(p, e.args[0], hd) is True and nonzero(p, e.ret) and
             eq(p, p.val, e.ret.plus(sl.H)) is True, e, "the block handed back is not the resized one", p)
        st = [x for x in p.events if x.k == "store" and x.n > e.n and eq(p, x.addr, e.ret.plus(sl.bidx)) is True]
        fresh(c, sl, p, e.ret, size, e, st[-1] if st else None, "slice-resize", gs)
    else:
        ix = [e for e in p.events if e.k == "read" and e.addr == hd.plus(sl.bidx)]
        T = Terms(4096)
        ok = eq(p, p.val, ptr) is True and bool(ix) and known(p, cmp("sge", ix[0].val, ZERO)) and bool({
            g for g in gs if any(T.ge(k.plus(1).scale(g), size) for k in same_index(p, ix[0].val))})
        c.ob("slice-resize", ok, w, "a block is not resized although it may be too small", p)


def same_index(p, t):
    out = forms(p, t)
    for s, x in list(p.st.facts.sub.items()):
        if S(s) == t:
            out += forms(p, x)
        elif x.sym() and S(x.sym()) == t:
            out += [S(s).plus(-x.c)]
    return out


def destroy(c, sl, f):
    pr = sl.pr
    me = argn(pr, f, 0)
    ps = c.paths(f, sl.cfg, **sl.kw)
    inner = []
    outer = {}
    for p in backs(ps):
        fn, blk, init, latch, ev0 = p.val
        fr = [e for e in p.events[ev0:] if e.k == "call" and e.name == "free"]
        for s, v in latch.items():
            i0 = Analyzer.asL(init[s])
            src = loaded_from(Analyzer.asL(v))
            if fr and src is not None and src == S(s).plus(sl.bnext):
                inner.append((s, i0))
                rd = [e for e in p.events[ev0:] if e.k == "read" and e.addr == src]
                c.ob("slice-destroy", len(fr) == 1 and eq(p, fr[0].args[0], S(s)) is True and bool(rd) and
                     rd[0].n < fr[0].n, fr[0], "a cached block is not released once, after its successor was read", p)
                from_ = loaded_from(i0)
                c.ob("slice-destroy", from_ is not None and sl.slot(me, from_) is not None, fr[0], "blocks released "
                     "are not those of a class", p)
            elif not fr or len(latch) == 1:
                outer.setdefault((fn, blk), []).append((s, i0, Analyzer.asL(v), p))
    c.does(inner, "shut-down releases cached blocks")
    # a short table may be gone through without a loop of its own
    ok = all({sl.slot(me, a) for e in q.events if e.k == "loop" for x in e.x[1].values()
              for a in [loaded_from(Analyzer.asL(x))] if a is not None} >= {C(m) for m in range(sl.n)} for q in rets(ps))
    for (fn, blk), l in outer.items():
        for s, i0, v, p in l:
            walk = loaded_from(i0) == me.plus(sl.head) and loaded_from(v) == S(s).plus(sl.next)
            back = loaded_from(i0) == me.plus(sl.tail) and loaded_from(v) == S(s).plus(sl.prev)
            cnt = v.sub(S(s)).isconst() and abs(v.sub(S(s)).c) == 1
            used = [x for _, x in inner]
            for x in used:
                a = loaded_from(x)
                j = sl.slot(me, a) if a is not None else None
                if j is None:
                    continue
                if (walk or back) and eq(p, j, sl.cls(me, S(s))) is True and \
                        [q for q in rets(ps) if zero(q, S(s))] and all(zero(q, S(s)) for q in rets(ps)):
                    ok = True
                if cnt and j.sub(S(s)).isconst():
                    k = j.sub(S(s)).c
                    st = v.sub(S(s)).c
                    n = next((m for m in range(1, 1 << 13) if holds(p, cmp("ne", S(s), i0.plus(m * st))) is True), 0)
                    vals = {i0.plus(m * st + k) for m in range(n)}
                    ok = ok or vals == {C(m) for m in range(sl.n)}
    c.ob("slice-destroy", ok, "(%s)" % Analyzer.src(f), "not every class with blocks is gone through")
    for p in ps:
        for e in p.calls("free"):
            if p.end != "backedge" or not any(eq(p, e.args[0], S(s)) is True for s, _ in inner):
                c.ob("slice-destroy", False, e, "memory is released that is not a cached block", p)
        st = [e for e in shared_stores(p) if Analyzer.root(e.addr) != me.sym()]
        c.ob("slice-destroy", not st, st[0] if st else where_of(p), "tear-down writes to memory", p)


def slice_(c, cfg):
    sl = SL(c, cfg)
    pr = sl.pr
    fn = new(c, sl)
    c.ob("slice-size", sl.H % 16 == 0, "(slice header)", "blocks do not start aligned")
    gs = {1 << k for k in range(3, 14)}
    kinds = set()
    f = fn["alloc"]
    me, size = argn(pr, f, 0), argn(pr, f, 1)
    for p in rets(c.paths(f, cfg, **sl.kw)):
        get(c, sl, p, me, size, gs, kinds)
    c.does({"new", "cached"} <= kinds, "blocks are made and reused")
    f = fn["free"]
    me, ptr = argn(pr, f, 0), argn(pr, f, 1)
    kinds = set()
    for p in rets(c.paths(f, cfg, **sl.kw)):
        put(c, sl, p, me, ptr, kinds)
    c.does("kept" in kinds, "blocks are kept for reuse")
    f = fn["realloc"]
    me, ptr, size = (argn(pr, f, i) for i in range(3))
    kinds = set()
    for p in rets(c.paths(f, cfg, **sl.kw)):
        if zero(p, ptr):
            get(c, sl, p, me, size, gs, kinds)
        elif zero(p, size):
            c.ob("slice-resize", zero(p, p.val), where_of(p), "resizing to nothing hands out a block", p)
            put(c, sl, p, me, ptr, kinds)
        else:
            c.ob("slice-resize", nonzero(p, ptr) and nonzero(p, size), where_of(p), "a missing block or size is "
                 "not told apart", p)
            resize(c, sl, p, me, ptr, size, gs, kinds)
    c.does("resized" in kinds, "blocks are resized")
    destroy(c, sl, fn["destroy"])


def C24(c):
    for cfg in ("default", "slice1", "slice7"):
        slice_(c, cfg)
