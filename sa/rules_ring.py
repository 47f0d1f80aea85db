"""C20 circular buffer: regions, completion and storage as linear identities."""
from .core import *
from .poly import Poly, mods, split_mod
from .rules_itc import freed, known, nonzero, seen, zero

RB = "_HevCircularBuffer"


class RL:
    def __init__(self, pr):
        o = pr.off
        self.rp, self.use, self.max, self.ref = (o(RB, x) for x in ("rp", "use_size", "max_size", "ref_count"))
        self.data = o(RB, "data")
        self.base, self.len, self.IOV = o("iovec", "iov_base"), o("iovec", "iov_len"), pr.sizeof("iovec")


def entry(p, me, off, name):
    v = seen(p, me.plus(off))
    return v if v is not None else S(("havoc", name, 0))


def state(c, p, me, rl, size=None, room=False):
    """the cases of a path for a well-formed buffer: polyhedra in which no remainder is left"""
    M, rp, use = (entry(p, me, o, n) for o, n in ((rl.max, "max"), (rl.rp, "rp"), (rl.use, "use")))
    po = Poly(p.st.facts)
    po.add(M.plus(-1)).add(rp).add(M.sub(rp).plus(-1)).add(use).add(M.sub(use))
    po.add(C((1 << 63) - 1).sub(M))
    if size is not None:
        po.add(size).add((M.sub(use) if room else use).sub(size))
    polys = [po]
    todo, done = [], set()
    for e in p.events:
        for l in [e.val, e.ret] + list(e.args or ()):
            if isinstance(l, L):
                todo += mods(l)
        if e.k == "assume":
            b = e.x
            if b[0] == "cmp":
                todo += mods(b[2]) + mods(b[3])
    if isinstance(p.val, L):
        todo += mods(p.val)
    for s, x, m in todo:
        if s in done:
            continue
        done.add(s)
        r = split_mod(polys, s, x, m)
        if r is None:
            c.ob("ring-position", False, where_of(p), "a position is not reduced into the storage", p)
            continue
        polys = r
    out = []
    for q in polys:
        out += q.split_ne()
    return M, rp, use, [q for q in out if not q.empty()]


def regions(c, f, rl):
    pr = prog()
    me, iov = argn(pr, f, 0), argn(pr, f, 1)
    wr = f == "hev_circular_buffer_writing"
    what = "free space" if wr else "stored bytes"
    n = set()
    for p in rets(c.paths(f, nomem=set())):
        w = where_of(p)
        M, rp0, use, polys = state(c, p, me, rl)
        rp1, use1, M1 = (lastval(p, me.plus(o)) for o in (rl.rp, rl.use, rl.max))
        rp, use1, M1 = rp1 if rp1 is not None else rp0, use1 if use1 is not None else use, M1 if M1 is not None else M
        if not p.val.isconst():
            k = p.st.facts.norm(p.val)
        else:
            k = p.val
        if polys and not k.isconst():
            c.ob("ring-regions", False, w, "the number of regions of the %s is not determined" % what, p)
            continue
        for q in polys:
            c.ob("ring-keeps", q.eq(use1, use) and q.eq(M1, M) and (q.eq(rp, rp0) or q.eq(use, ZERO) and
                 q.ge0(rp) and q.lt(rp, M)), w, "asking for the regions changes the buffer", p)
            total = M.sub(use) if wr else use
            if q.eq(total, ZERO):
                c.ob("ring-regions", k.c == 0, w, "regions are given although there is no %s" %
                     ("free space" if wr else "stored byte"), p)
                n.add(0)
                continue
            if not 1 <= k.c <= 2:
                c.ob("ring-regions", False, w, "the %s not given in one or two regions" % (
                    "free space is" if wr else "stored bytes are"), p)
                continue
            n.add(k.c)
            reg = []
            for i in range(k.c):
                b, l = lastval_st(p, iov.plus(i * rl.IOV + rl.base)), lastval_st(p, iov.plus(i * rl.IOV + rl.len))
                if b is None or l is None:
                    c.ob("ring-regions", False, w, "a region is not filled in", p)
                    reg = None
                    break
                reg.append((b.sub(me.plus(rl.data)), l))
            if reg is None:
                continue
            start = rp.add(use) if wr else rp
            s0 = None
            for x in (start, start.sub(M)):
                if q.ge0(x) and q.lt(x, M):
                    s0 = x
            if s0 is None:
                # the start is on either side: judge both halves
                qs = [(q.copy().add(M.sub(start).plus(-1)), start), (q.copy().add(start.sub(M)), start.sub(M))]
            else:
                qs = [(q, s0)]
            for q2, s0 in qs:
                if q2.empty():
                    continue
                ok = q2.eq(reg[0][0], s0) and q2.ge0(reg[0][1].plus(-1))
                end = s0.add(reg[0][1])
                tot = reg[0][1]
                if k.c == 2:
                    ok = ok and q2.eq(end, M) and q2.eq(reg[1][0], ZERO) and q2.ge0(reg[1][1].plus(-1))
                    tot = tot.add(reg[1][1])
                else:
                    ok = ok and q2.le(end, M)
                ok = ok and q2.eq(tot, total)
                c.ob("ring-regions", ok, w, "the regions given are not exactly the %s in order" % what, p)
    c.does(n >= {0, 1, 2}, "the %s given as no, one or two regions" % what)


def lastval_st(p, addr):
    v = None
    for e in p.events:
        if e.k == "store" and e.addr == addr:
            v = e.val
    return v


def finish(c, f, rl):
    pr = prog()
    me, size = argn(pr, f, 0), argn(pr, f, 1)
    wr = f == "hev_circular_buffer_write_finish"
    n = 0
    for p in rets(c.paths(f)):
        w = where_of(p)
        M, rp, use, polys = state(c, p, me, rl, size, wr)
        v = [lastval(p, me.plus(o)) for o in (rl.rp, rl.use, rl.max)]
        rp1, use1, M1 = (b if a is None else a for a, b in zip(v, (rp, use, M)))
        bad = [e for e in shared_stores(p) if e.addr not in (me.plus(rl.rp), me.plus(rl.use), me.plus(rl.max))]
        c.ob("ring-finish", not bad, bad[0] if bad else w, "something else is changed", p)
        for q in polys:
            n += 1
            c.ob("ring-finish", q.eq(M1, M), w, "the capacity is changed", p)
            if wr:
                c.ob("ring-finish", q.eq(use1, use.add(size)) and q.eq(rp1, rp), w, "completing a write does not "
                     "append exactly the given number of bytes", p)
            else:
                c.ob("ring-finish", q.eq(use1, use.sub(size)), w, "completing a read does not remove exactly the "
                     "given number of bytes", p)
                t = rp.add(size)
                ok = q.eq(use1, ZERO) and q.ge0(rp1) and q.lt(rp1, M)
                if not ok:
                    ok = True
                    for h, e in ((q.copy().add(M.sub(t).plus(-1)), t), (q.copy().add(t.sub(M)), t.sub(M))):
                        ok = ok and (h.empty() or h.eq(rp1, e) or
                                     h.eq(use1, ZERO) and h.ge0(rp1) and h.lt(rp1, M))
                c.ob("ring-finish", ok, w, "completing a read does not move the front by exactly the given number "
                     "of bytes around the storage", p)
    c.does(n, "completion")


def storage(c, rl):
    pr = prog()
    f = "hev_circular_buffer_new"
    size = argn(pr, f, 0)
    n = 0
    for p in rets(c.paths(f, arith=True)):
        w = where_of(p)
        al = p.calls("hev_malloc", "hev_malloc0", "hev_calloc")
        if zero(p, p.val):
            why = zero(p, size) or any(zero(p, e.ret) for e in al)
            po = Poly(p.st.facts)
            why = why or po.ge0(size.plus(rl.data - (1 << 64))) or po.ge0(size.plus(rl.data - (1 << 63)))
            c.ob("ring-new", why, w, "making a buffer fails without need", p)
            continue
        n += 1
        al = [e for e in al if eq(p, p.val, e.ret) is True]
        c.ob("ring-new", len(al) == 1 and nonzero(p, al[0].ret), w, "a buffer is returned that was not allocated", p)
        c.ob("ring-new", nonzero(p, size) or known(p, cmp("ugt", size, ZERO)), w, "a buffer without room is made", p)
        if not al:
            continue
        e = al[0]
        got = e.args[0] if e.name != "hev_calloc" else None
        if e.name == "hev_calloc":
            a, b = e.args
            got = b.scale(a.c) if a.isconst() else a.scale(b.c) if b.isconst() else None
        po = Poly(p.st.facts).add(size)
        for q in po.split_ne():
            c.ob("ring-new", got is not None and q.ge0(got.sub(size).plus(-rl.data)), e,
                 "the storage is smaller than the capacity", p)
            c.ob("ring-new", got is not None and (q.le(got, C((1 << 64) - 1))), e,
                 "the size of the storage can wrap around", p)
        fill = e.name != "hev_malloc"
        for o, want, nm in ((rl.max, size, "capacity"), (rl.use, ZERO, "fill"), (rl.rp, None, "front"),
                            (rl.ref, C(1), "reference count")):
            v = lastval_st(p, p.val.plus(o))
            if v is None and fill:
                v = ZERO
            if want is None:
                ok = v is not None and (zero(p, v) or all(q.ge0(v) and q.lt(v, size) for q in po.split_ne()))
            else:
                ok = v is not None and eq(p, v, want) is True
            c.ob("ring-new", ok, w, "a new buffer's %s is wrong" % nm, p)
    c.does(n, "buffers are made")
    for f, o in (("hev_circular_buffer_get_max_size", rl.max), ("hev_circular_buffer_get_use_size", rl.use)):
        me = argn(pr, f, 0)
        for p in rets(c.paths(f)):
            v = entry(p, me, o, "x")
            c.ob("ring-sizes", eq(p, p.val, v) is True and not shared_stores(p), where_of(p), "the size reported is "
                 "not the buffer's", p)
    refs(c, "hev_circular_buffer_ref", "hev_circular_buffer_unref", rl.ref, "ring")


def refs(c, fref, funref, off, rule, freefn=("hev_free",)):
    """plain reference counting with one deallocation"""
    pr = prog()
    me = argn(pr, fref, 0)
    for p in rets(c.paths(fref)):
        st = stores(p, addr=me.plus(off))
        ok = len(st) == 1 and st[0].val == st[0].old.plus(1) and len(shared_stores(p)) == 1
        c.ob(rule + "-ref", ok and (not isinstance(p.val, L) or eq(p, p.val, me) is True), where_of(p), "taking a reference does "
             "not add exactly one", p)
    me = argn(pr, funref, 0)
    n = set()
    for p in rets(c.paths(funref)):
        st = stores(p, addr=me.plus(off))
        old = seen(p, me.plus(off))
        fr = [e for e in p.calls(*freefn) if eq(p, e.args[0], me) is True]
        c.ob(rule + "-unref", old is not None and len(fr) <= 1, where_of(p), "a release does not look at the count, or "
             "releases twice", p)
        if old is None:
            continue
        if fr:
            n.add(1)
            c.ob(rule + "-unref", eq(p, old, C(1)) is True or known(p, cmp("ule", old, C(1))), where_of(p),
                 "the storage is released while references are left", p)
            late = [e for e in p.events if e.n > fr[0].n and e.k in ("read", "store") and
                    Analyzer.root(e.addr) == Analyzer.root(me)]
            c.ob(rule + "-unref", not late, late[0] if late else where_of(p), "the storage is used after its release", p)
        else:
            n.add(0)
            ok = len(st) == 1 and st[0].val == st[0].old.plus(-1) and differs1(p, old)
            c.ob(rule + "-unref", ok, where_of(p), "a release does not subtract exactly one, or keeps the storage "
                 "without references", p)
    c.does(n == {0, 1}, "the last release frees the storage")


def differs1(p, v):
    return eq(p, v, C(1)) is False or known(p, cmp("ugt", v, C(1)))


def C20(c):
    rl = RL(prog())
    regions(c, "hev_circular_buffer_reading", rl)
    regions(c, "hev_circular_buffer_writing", rl)
    finish(c, "hev_circular_buffer_read_finish", rl)
    finish(c, "hev_circular_buffer_write_finish", rl)
    storage(c, rl)
