"""C23 the buffering stage of chained I/O."""
from .core import *
from .poly import Poly
from .rules_cio import CIRC, FLUSH, laststore, method, method_of, tab, tables
from .rules_itc import known, nonzero, zero

REGIONS = {"hev_circular_buffer_reading": "r", "hev_circular_buffer_writing": "w"}
FINISH = {"hev_circular_buffer_read_finish": "r", "hev_circular_buffer_write_finish": "w"}


def opts(data=True):
    """the buffers are set by the constructor only (own ring rule); data is apart from everything else"""
    pr = prog()
    B = "_HevTaskCIOBuffer"
    return dict(stable={("struct." + B, pr.off(B, "rbuf")), ("struct." + B, pr.off(B, "wbuf"))},
                minus1=True, bufs=({("arg", 1)} if data else set()) | {("tag", ("struct.iovec", pr.off("iovec", "iov_base")))})


def upto(p, e, pred):
    return [x for x in p.events if x.n < e.n and pred(x)]


class Ring:
    """what is known about one ring at a point of a path"""

    def __init__(self, val):
        self.val = val
        self.reg = None        # (kind, array, count of regions, event)
        self.sizes = []        # results that would tell that it is empty
        self.pending = None    # (event, "fill"/"drain") not completed yet
        self.track = None
        self.moved = False


class Track:
    """the bytes copied between the user's buffer and the regions of a ring"""

    def __init__(self):
        self.l = None
        self.n = 0             # copies since the regions were asked for, or since the loop began
        self.T = ZERO
        self.last = None
        self.events = []


class Stage:
    def __init__(self, c, f, kind, ps=None):
        pr = prog()
        self.c, self.f, self.kind = c, f, kind
        self.t = tab()
        self.me = argn(pr, f, 0)
        nargs = len(pr.mod.functions[f].args)
        self.user = argn(pr, f, 1) if nargs > 1 else None
        self.count = argn(pr, f, 2) if nargs > 2 else None
        self.ps = ps or c.paths(f, opaque=CIRC, **opts(kind != "peekv"))
        self.ivs = induction(self.ps)
        self.served = self.failed = 0

    # ------------------------------------------------------------ loops
    def latches(self, l):
        return [q for q in backs(self.ps) if loop_of(q, q.val[4]) is not None and
                q.val[0] == l.fn and q.val[1] == l.x[0]]

    def copies(self, q, ev):
        return [e for e in q.events if e.k == "memcpy" and e.n > ev.n]

    def total(self, p, l, form):
        """is form, over the variables of loop l, the number of bytes copied by its completed iterations?"""
        names = {}
        rest = form
        for s, q in form.t:
            if s in l.x[1]:
                names[s[1]] = q
                rest = rest.sub(S(s).scale(q))
        qs = self.latches(l)
        if not qs or not names and not rest.isconst():
            return False
        for q in qs:
            fn, blk, init, latch, ev0 = q.val
            lq = loop_of(q, ev0)
            cp = self.copies(q, lq)
            if len(cp) != 1:
                return False
            F = I = N = rest
            for s, v in latch.items():
                if s[1] in names:
                    F = F.add(S(s), names[s[1]])
                    I = I.add(Analyzer.asL(init[s]), names[s[1]])
                    N = N.add(Analyzer.asL(v), names[s[1]])
            if not zero(q, I) or not eq(q, N.sub(F), cp[0].args[2]) is True:
                return False
        return True

    def poly(self, p, l, extra=()):
        po = Poly(p.st.facts)
        po.add(self.count)
        for x in extra:
            if x is not None:
                po.add(x)
        if l is not None:
            forms = []
            for s in l.x[1]:
                for F in (S(s), self.count.sub(S(s)), S(s).sub(self.user)):
                    if self.total(p, l, F):
                        forms.append(F)
            for F in forms[1:]:
                po.addeq(forms[0], F)
        return po

    def index(self, l, tr, n):
        """number of regions used before the n-th copy since the loop began, as terms"""
        return [k.plus(n) for k in counters(l, self.ivs)] if l is not None else [C(n)]

    def below(self, p, ks, ret):
        return any(known(p, cmp("slt", k, ret)) or known(p, cmp("ult", k, ret)) for k in ks)

    def beyond(self, p, ks, ret):
        return any(known(p, cmp("sge", k, ret)) or known(p, cmp("uge", k, ret)) or eq(p, k, ret) is True for k in ks)

    # ------------------------------------------------------------ one copy
    def copy(self, p, e, R):
        c, tr = self.c, R.track
        A, ret = R.reg[1], R.reg[2]
        dst, src, n = e.args
        usr, rg = (dst, src) if R.reg[0] == "r" else (src, dst)
        D = usr.sub(self.user)
        if tr.l is not None and tr.n == 0:
            ok = self.total(p, tr.l, D)
        else:
            ok = eq(p, D, tr.T) is True
        c.ob("copy-place", ok, e, "the next bytes are not put right behind (or taken right after) those already "
             "copied", p)
        a = loaded_from(rg)
        ok = False
        ln = None
        if a is not None:
            it = in_iterations(a, tr.l, self.ivs) if tr.l is not None else a
            want = A.plus(16 * tr.n)
            if tr.l is not None:
                want = want.add(KSYM.scale(16))
            ok = it == want and self.below(p, self.index(tr.l, tr, tr.n), ret)
            rd = [x for x in p.events if x.k == "read" and x.addr == a.plus(8) and x.n > R.reg[3].n]
            ln = rd[0].val if rd else None
        c.ob("copy-region", ok, e, "the regions of the buffer are not used in turn", p)
        po = self.poly(p, tr.l, [ln])
        fits = ln is not None and po.le(n, ln) and po.le(n, self.count.sub(D))
        c.ob("copy-size", fits, e, "more bytes are copied than the region or the user's buffer has", p)
        tr.last = (n, ln, D)
        tr.T = D.add(n)
        tr.n += 1
        tr.events.append(e)

    def full(self, p, R):
        """the last copy used up its region"""
        n, ln, D = R.track.last
        po = self.poly(p, R.track.l, [ln])
        return ln is not None and po.eq(n, ln)

    def complete(self, p, R, x, w, what):
        """x bytes are accounted for: exactly those copied, and as many as possible"""
        c, tr = self.c, R.track
        if tr.n == 0:
            ok = self.total(p, tr.l, x) if tr.l is not None else zero(p, x)
            T = x
            ks = self.index(tr.l, tr, 0)
            more = self.beyond(p, ks, R.reg[2])
            po = self.poly(p, tr.l)
            more = more or po.ge0(T.sub(self.count))
        else:
            po = self.poly(p, tr.l, [tr.last[1]])
            ok = po.eq(x, tr.T)
            more = po.ge0(tr.T.sub(self.count)) or \
                self.full(p, R) and self.beyond(p, self.index(tr.l, tr, tr.n), R.reg[2])
        c.ob("copy-count", ok, w, "%s is not exactly the number of bytes copied" % what, p)
        c.ob("copy-most", more, w, "fewer bytes are copied than there are and were asked for", p)

    # ------------------------------------------------------------ a whole path
    def isempty(self, p, R):
        return any(zero(p, v) for v in R.sizes)

    def path(self, p):
        c, me, t = self.c, self.me, self.t
        pr = prog()
        no = pr.off("_HevTaskCIO", "next")
        w = where_of(p)
        rings = {}
        for nm in ("rbuf", "wbuf"):
            rd = [e for e in p.events if e.k == "read" and e.addr == me.plus(pr.off("_HevTaskCIOBuffer", nm))]
            if rd:
                rings[nm] = Ring(rd[0].val)
        by = {R.val: (nm, R) for nm, R in rings.items()}
        own = "wbuf" if self.kind in ("write", "flush") else "rbuf"
        if own in rings and zero(p, rings[own].val):
            return None
        if own not in rings:
            return None
        direct = None
        empty_at = None
        for e in p.events:
            if e.k == "loop":
                for R in rings.values():
                    inside = any(x.k == "call" and x.name in CIRC or x.k == "icall" for q in self.latches(e)
                                 for x in q.events if x.n > loop_of(q, q.val[4]).n)
                    if inside:
                        R.reg, R.sizes, R.track = None, [], None
                    elif R.track is not None and any(self.copies(q, loop_of(q, q.val[4])) for q in self.latches(e)):
                        c.ob("copy-place", R.track.n == 0, e, "a loop copies on after other copies", p)
                        R.track.l = e
            elif e.k == "call" and e.name in CIRC:
                got = by.get(e.args[0]) if e.args else None
                if got is None:
                    c.ob("ring-own", False, e, "a buffer that is not the stage's own is used", p)
                    continue
                nm, R = got
                if e.name in FINISH:
                    self.finish(p, R, e)
                    R.reg, R.sizes, R.track = None, [], None
                    continue
                if R.pending is not None and known(p, cmp("sgt", R.pending[0].ret, ZERO)):
                    c.ob("ring-books", False, e, "bytes moved by the next stage are not accounted for", p)
                if e.name in REGIONS:
                    # an empty buffer has room, one with bytes has regions to read
                    if zero(p, e.ret) and (self.isempty(p, R) if REGIONS[e.name] == "w" else any(
                            nonzero(p, v) for v in R.sizes)):
                        return None
                    R.reg = (REGIONS[e.name], e.args[1], e.ret, e)
                    R.track = Track()
                    for S_ in rings.values():           # the array is used for one ring at a time
                        if S_ is not R and S_.reg and S_.reg[1] == e.args[1]:
                            S_.reg = S_.track = None
                    if REGIONS[e.name] == "r":
                        R.sizes.append(e.ret)
                elif e.name == "hev_circular_buffer_get_use_size":
                    R.sizes.append(e.ret)
                else:
                    c.ob("ring-own", e.name == "hev_circular_buffer_get_max_size", e, "the stage's buffer is "
                         "given away while in use", p)
            elif e.k == "memcpy" and self.kind != "flush":
                R = rings.get(own)
                if R is None or R.track is None or R.reg[0] != ("w" if self.kind == "write" else "r"):
                    c.ob("copy-region", False, e, "bytes are copied without asking the buffer for its regions", p)
                    continue
                self.copy(p, e, R)
            elif e.k == "icall":
                self.next_op(p, e, rings, no)
        return rings

    def finish(self, p, R, e):
        c = self.c
        k = FINISH[e.name]
        if R.pending is not None:
            o, how = R.pending
            ok = how == {"w": "fill", "r": "drain"}[k] and eq(p, e.args[1], o.ret) is True and \
                known(p, cmp("sge", o.ret, ZERO))
            c.ob("ring-books", ok, e, "not exactly the bytes moved by the next stage are accounted for", p)
            R.pending = None
            return
        ok = R.track is not None and R.reg[0] == k and (k == "w") == (self.kind == "write") and \
            self.kind in ("read", "write")
        c.ob("ring-books", ok, e, "bytes are accounted for that nobody moved", p)
        if ok:
            R.moved = (e, e.args[1])
            self.complete(p, R, e.args[1], e, "what the buffer is told")

    def next_op(self, p, e, rings, no):
        """the next stage is run: on the regions of the right buffer, or on the user's data if nothing is buffered"""
        c, me, t = self.c, self.me, self.t
        nx = [x.val for x in p.events if x.k == "read" and x.addr == me.plus(no) and x.n < e.n]
        nx = nx[-1] if nx else None
        if nx is None:
            c.ob("next-data", False, e, "something else than the next stage is run", p)
            return
        ops = [m for m in t if method_of(e, nx, t[m])]
        if len(ops) != 1 or e.args[0] != nx:
            c.ob("next-data", False, e, "something else than the next stage is run", p)
            return
        m = ops[0]
        if m == "ctrl":
            R = rings.get("wbuf")
            ok = R is None or zero(p, R.val) or self.isempty(p, R)
            fl = self.kind == "flush" and (eq(p, e.args[1], FLUSH) is False)
            c.ob("flush-before", ok or fl, e, "the next stage is flushed while bytes are held back", p)
            return
        if m not in ("read", "readv", "write", "writev"):
            c.ob("next-data", False, e, "another operation of the next stage is run", p)
            return
        nm, k, how = ("rbuf", "w", "fill") if m.startswith("read") else ("wbuf", "r", "drain")
        if (how == "fill") != (self.kind in ("read", "peek", "peekv")):
            c.ob("next-data", False, e, "the next stage is run in the other direction", p)
            return
        R = rings.get(nm)
        if self.kind in ("read", "write") and m == self.kind and eq(p, e.args[1], self.user) is True:
            ok = self.isempty(p, R) and eq(p, e.args[2], self.count) is True and eq(p, p.val, e.ret) is True
            c.ob("next-data", ok, e, "the next stage serves the user although bytes are buffered", p)
            R.direct = e
            return
        ok = R is not None and R.reg is not None and R.reg[0] == k and R.pending is None
        if ok and m.endswith("v"):
            ok = e.args[1] == R.reg[1] and eq(p, e.args[2], R.reg[2]) is True
        elif ok:
            ok = loaded_from(e.args[1]) == R.reg[1] and loaded_from(e.args[2]) == R.reg[1].plus(8)
        ok = ok and not [x for x in p.events if x.k == "store" and R.reg[3].n < x.n < e.n and
                         Analyzer.root(x.addr) == Analyzer.root(R.reg[1])]
        c.ob("next-data", ok, e, "the next stage is not given the %s regions of the stage's buffer" % (
            "free" if how == "fill" else "stored"), p)
        if not ok:
            return
        ok = nonzero(p, R.reg[2]) or how == "fill" and self.isempty(p, R)
        c.ob("next-data", ok, e, "the next stage may be run without room or data", p)
        R.pending = (e, how)
        R.sizes_before = list(R.sizes)
        R.tried = e

    def left(self, p, R, w):
        if R.pending is not None:
            o, how = R.pending
            c = self.c
            c.ob("ring-books", known(p, cmp("sle", o.ret, ZERO)), w, "bytes moved by the next stage are not accounted "
                 "for", p)

    def run(self):
        c = self.c
        k = self.kind
        for p in self.ps:
            rings = self.path(p)
            if rings is None:
                continue
            w = where_of(p)
            for R in rings.values():
                self.left(p, R, w)
            st = [e for e in shared_stores(p) if Analyzer.root(e.addr) == Analyzer.root(self.me) and
                  e.addr != self.me.plus(prog().off("_HevTaskCIO", "err"))]
            c.ob("ring-own", not st, st[0] if st else w, "the stage is changed by an operation", p)
            if p.end == "backedge":
                l = loop_of(p, p.val[4])
                for R in rings.values():
                    if R.track is not None and R.track.l is l and R.track.events:
                        po = self.poly(p, l, [R.track.last[1]])
                        c.ob("copy-region", R.track.n == 1 and (
                            self.full(p, R) or po.ge0(R.track.T.sub(self.count))), w, "the next region is used before this "
                             "one was used up", p)
                continue
            if p.end != "ret":
                continue
            getattr(self, "end_" + k)(p, rings, w)
        if k in ("read", "write", "peek"):
            c.does(self.served, "%s moves bytes" % Analyzer.src(self.f))

    def end_read(self, p, rings, w):
        c = self.c
        R = rings["rbuf"]
        if getattr(R, "direct", None):
            return
        if R.moved:
            self.served += 1
            c.ob("copy-count", eq(p, p.val, R.moved[1]) is True, w, "the result is not the number of bytes delivered", p)
            return
        # nothing delivered: only if nothing was buffered and the next stage gave nothing
        self.failed += 1
        o = getattr(R, "tried", None)
        c.ob("read-fails", not (R.track and R.track.events), w, "bytes are delivered but stay in the buffer", p)
        if o is not None:
            ok = known(p, cmp("sle", o.ret, ZERO)) and eq(p, p.val, o.ret) is True and \
                any(zero(p, v) for v in R.sizes_before)
        else:
            ok = self.nonext(p) and known(p, cmp("slt", p.val, ZERO)) and self.isempty(p, R) or \
                eq(p, self.count, ZERO) is True and zero(p, p.val)
        c.ob("read-fails", ok, w, "reading ends although bytes are buffered or the next stage has some", p)

    def nonext(self, p):
        no = prog().off("_HevTaskCIO", "next")
        nx = [x.val for x in p.events if x.k == "read" and x.addr == self.me.plus(no)]
        return bool(nx) and zero(p, nx[-1])

    def end_write(self, p, rings, w):
        c = self.c
        R = rings["wbuf"]
        if getattr(R, "direct", None):
            return
        if R.moved:
            self.served += 1
            c.ob("copy-count", eq(p, p.val, R.moved[1]) is True, w, "the result is not the number of bytes accepted", p)
            return
        c.ob("write-fails", not (R.track and R.track.events), w, "bytes are accepted but not kept", p)
        o = getattr(R, "tried", None)
        neg = known(p, cmp("slt", p.val, ZERO))
        if o is not None:
            ok = neg and (known(p, cmp("slt", o.ret, ZERO)) or known(p, cmp("sle", o.ret, ZERO)) or
                          any(nonzero(p, v) for v in R.sizes))
        else:
            ok = self.nonext(p) and neg or eq(p, self.count, ZERO) is True and zero(p, p.val)
        full = any(e.k == "call" and e.name == "hev_circular_buffer_writing" and zero(p, e.ret) for e in p.events)
        c.ob("write-fails", ok and (full or zero(p, self.count)), w, "writing fails although there is room or the "
             "next stage took everything", p)

    def end_peek(self, p, rings, w):
        R = rings["rbuf"]
        ok = R.track is not None and R.reg[0] == "r"
        self.c.ob("peek-keeps", ok, w, "peeking does not look at the buffered bytes", p)
        if ok:
            self.served += 1
            self.complete(p, R, p.val, w, "the result")

    def end_peekv(self, p, rings, w):
        R = rings["rbuf"]
        ok = R.reg is not None and R.reg[0] == "r" and R.reg[1] == self.user and eq(p, p.val, R.reg[2]) is True and \
            not [x for x in p.events if x.k == "store" and x.n > R.reg[3].n and
                 Analyzer.root(x.addr) == Analyzer.root(self.user)]
        self.c.ob("peek-keeps", ok, w, "peeking does not give the buffered regions", p)

    def end_flush(self, p, rings, w):
        c = self.c
        op = argn(prog(), self.f, 1)
        if eq(p, op, FLUSH) is False:
            bad = [e for e in p.events if e.k == "call" and e.name in set(REGIONS) | set(FINISH)]
            c.ob("flush-before", not bad, w, "another request moves buffered bytes", p)
            return
        R = rings["wbuf"]
        o = getattr(R, "tried", None)
        ctrl = [e for e in p.events if e.k == "icall" and method_is(e, self.t["ctrl"])]
        if ctrl:
            self.served += 1
            return
        neg = known(p, cmp("slt", p.val, ZERO))
        ok = neg and (self.nonext(p) or o is not None and (known(p, cmp("sle", o.ret, ZERO)) or any(
            nonzero(p, v) for v in R.sizes)))
        c.ob("flush-fails", ok, w, "flushing fails although nothing is held back, or succeeds although bytes are", p)


def method_is(e, off):
    a = loaded_from(e.x)
    ko = prog().off("_HevObject", "klass")
    k = loaded_from(a.plus(-off)) if a is not None else None
    return k is not None and bool(e.args) and k == e.args[0].plus(ko)


def closure(f):
    """functions of the library f may call (directly or through a pointer it names)"""
    fns = prog().mod.functions
    seen_, todo = set(), [f]
    while todo:
        x = todo.pop()
        fn = fns.get(x)
        if x in seen_ or fn is None or fn.decl or Analyzer.src(x) in CIRC:
            continue
        seen_.add(x)
        for b in fn.blocks:
            for i in b.insts:
                for o in list(i.ops or ()) + ([i.extra] if i.op == "call" else []):
                    if isinstance(o, tuple) and o and o[0] == "f":
                        todo.append(o[1])
    return seen_


def unit_of(f, g):
    """what serves one piece of a vector: the plain operation g itself, or what both f and g are made of"""
    fns = prog().mod.functions
    a, b = closure(f), closure(g)
    if g in a:
        return g
    both = [x for x in sorted(a & b) if len(fns[x].args) == 3 and any(
        Analyzer.src(y) in REGIONS for z in [x] for y in names(z))]
    return both[0] if len(both) == 1 else g


def names(f):
    out = set()
    for x in closure(f):
        for b in prog().mod.functions[x].blocks:
            for i in b.insts:
                if i.op == "call" and i.extra[0] == "f":
                    out.add(i.extra[1])
    return out


def vector(c, f, g, kind):
    """f serves the pieces of a vector one after another with g, as far as g goes"""
    pr = prog()
    me, iov, cnt = (argn(pr, f, i) for i in range(3))
    bo = pr.off("_HevTaskCIOBuffer", "rbuf" if kind == "read" else "wbuf")
    gs = Analyzer.src(g)
    ps = c.paths(f, opaque=CIRC | {gs}, **opts(False))
    ivs = induction(ps)

    def own(p):
        b = [r.val for r in p.events if r.k == "read" and r.addr == me.plus(bo)]
        return not (b and zero(p, b[0]))

    def piece(p, l):
        """call for the piece of this iteration, its address and its length"""
        cs = [e for e in p.calls(gs) if l is None or e.n > l.n]
        want = iov.add(KSYM.scale(16))
        rd = {}
        for e in p.events:
            if e.k == "read" and e.n > l.n:
                a = in_iterations(e.addr, l, ivs)
                if a == want:
                    rd["base"] = e.val
                elif a == want.plus(8):
                    rd["len"] = e.val
        return cs, rd

    sums = {}
    for q in backs(ps):
        fn, blk, init, latch, ev0 = q.val
        l = loop_of(q, ev0)
        cs, rd = piece(q, l)
        got = cs[0].ret if cs else ZERO
        for s, v in latch.items():
            ok = zero(q, Analyzer.asL(init[s])) and eq(q, Analyzer.asL(v).sub(S(s)), got) is True
            sums.setdefault(s[1], []).append(ok)
    sums = {k for k, v in sums.items() if all(v)}
    n = 0
    for p in ps:
        ls = [e for e in p.events if e.k == "loop"]
        if not own(p) or p.end not in ("ret", "backedge"):
            continue
        w = where_of(p)
        if not ls:
            c.ob("vector-piece", zero(p, p.val) and (known(p, cmp("sle", cnt, ZERO))), w, "a vector is not gone "
                 "through", p)
            continue
        l = ls[-1]
        cs, rd = piece(p, l)
        other = [e for e in p.events if e.k == "icall" or e.k == "memcpy" or e.k == "call" and e.name in CIRC]
        c.ob("vector-piece", not other and len(cs) <= 1, (other or cs or [w])[0], "the pieces of a vector are not served "
             "by the plain operation one by one", p)
        ks = counters(l, ivs)
        F = [S(s) for s in l.x[1] if s[1] in sums]
        below = any(known(p, cmp("slt", k, cnt)) for k in ks)
        if cs:
            n += 1
            e = cs[0]
            ok = "base" in rd and "len" in rd and e.args[0] == me and eq(p, e.args[1], rd["base"]) is True and \
                eq(p, e.args[2], rd["len"]) is True and below
            c.ob("vector-piece", ok, e, "not the piece in turn is served", p)
            if not ok:
                continue
        ln = rd.get("len")
        if p.end == "backedge":
            if cs:
                po = Poly(p.st.facts).add(ln)
                ok = po.le(ln, cs[0].ret) or known(p, cmp("uge", cs[0].ret, ln))
                c.ob("vector-gap", ok, w, "the next piece is served although this one was not used up", p)
            else:
                c.ob("vector-gap", ln is not None and zero(p, ln) and below, w, "a piece is left out", p)
            continue
        if cs:
            r = cs[0].ret
            if known(p, cmp("sle", r, ZERO)):
                some = any(nonzero(p, x) for x in F)
                none = any(zero(p, x) for x in F)
                ok = some and any(eq(p, p.val, x) is True for x in F) or none and eq(p, p.val, r) is True
                c.ob("vector-result", ok, w, "the result is neither the bytes moved before nor the failure", p)
            else:
                ok = any(eq(p, p.val, x.add(r)) is True for x in F)
                c.ob("vector-result", ok and known(p, cmp("sgt", r, ZERO)), w, "the result is not the number of bytes "
                     "moved", p)
                short = known(p, cmp("ult", r, ln)) or known(p, cmp("slt", r, ln)) or \
                    eq(p, r, ln) is False or any(known(p, cmp("sge", k.plus(1), cnt)) for k in ks)
                c.ob("vector-gap", short, w, "the transfer stops although the piece was used up", p)
        else:
            ok = any(eq(p, p.val, x) is True for x in F) and any(
                known(p, cmp("sge", k, cnt)) or eq(p, k, cnt) is True for k in ks)
            c.ob("vector-result", ok, w, "the result is not the number of bytes moved, or pieces are left out", p)
    c.does(n, "%s serves the pieces" % Analyzer.src(f))


def C23(c):
    K = tables(c)
    fs = {}
    for m in ("read", "write", "readv", "writev", "ctrl"):
        f, kind = method(c, K, "buffer", m)
        c.ob("class-method", kind == "buffer", "(%s)" % K["buffer"].f, "the %s method of a buffering stage bypasses its "
             "buffer" % m)
        fs[m] = f if kind == "buffer" else None
    for m in ("read", "write"):
        if fs[m]:
            Stage(c, fs[m], m).run()
    if fs["ctrl"]:
        Stage(c, fs["ctrl"], "flush").run()
    Stage(c, "hev_task_cio_buffer_peek", "peek").run()
    Stage(c, "hev_task_cio_buffer_peekv", "peekv").run()
    for m in ("read", "write"):
        if fs[m + "v"] and fs[m]:
            u = unit_of(fs[m + "v"], fs[m])
            if u != fs[m]:
                Stage(c, u, m).run()
            vector(c, fs[m + "v"], u, m)
