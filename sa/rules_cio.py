"""C21 delegation and errors of chained I/O, C22 ownership of chains."""
from .core import *
from .core import absint
from .rules_io import IO, View, step_args
from .rules_itc import known, nonzero, zero
from .rules_time import macro_sys

ERRNO = absint.ERRNO
OPS = ("read", "write", "readv", "writev", "read_dgram", "write_dgram", "readv_dgram", "writev_dgram", "ctrl")
BASE = "hev_task_cio_class"
KINDS = {"fd": "_HevTaskCIOFd", "socket": "_HevTaskCIOSocket", "buffer": "_HevTaskCIOBuffer",
         "null": "_HevTaskCIONull"}
CIRC = {"hev_circular_buffer_new", "hev_circular_buffer_ref", "hev_circular_buffer_unref",
        "hev_circular_buffer_get_max_size", "hev_circular_buffer_get_use_size",
        "hev_circular_buffer_reading", "hev_circular_buffer_read_finish", "hev_circular_buffer_writing",
        "hev_circular_buffer_write_finish"}
FLUSH, GET_FD = C(0), C(1)


def tab():
    """offsets of the methods"""
    pr = prog()
    d = {m: pr.off("_HevTaskCIOClass", m) for m in OPS}
    for m in ("name", "ref", "destruct", "iface"):
        d[m] = pr.off("_HevObjectClass", m)
    return d


def laststore(p, addr):
    v = None
    for e in p.events:
        if e.k == "store" and e.addr == addr:
            v = e.val
    return v


class Klass:
    """the method table a class function makes: method -> function name, or the class it comes from"""

    def __init__(self, c, f, inline=()):
        self.f = f
        self.slots = {}
        self.glob = None
        t = tab()
        fill = 0
        for p in rets(c.paths(f, inline={f} | set(inline))):
            g = p.val.sym() if isinstance(p.val, L) else None
            if g is None or g[0] != "glob":
                raise AnalysisError("%s does not return a table" % f)
            self.glob = g
            once = [e for e in p.events if e.k == "call" and e.name == "pthread_once"]
            for e in once:
                fn = e.args[1].sym() if isinstance(e.args[1], L) else None
                if fn is None or fn[0] != "fn":
                    raise AnalysisError("%s runs an unknown function once" % f)
                for q in rets(c.paths(fn[1], inline={fn[1]} | set(inline))):
                    if any(x.k == "store" and Analyzer.root(x.addr) == g for x in q.events):
                        fill += 1
                        self.take(c, q, p.val, t)
            if not any(e.k == "store" and Analyzer.root(e.addr) == g for e in p.events):
                nm = lastval(p, p.val.plus(t["name"]))
                c.ob("class-made", bool(once and fill) or nonzero(p, nm), where_of(p),
                     "a method table is handed out before it is filled", p)
                continue
            fill += 1
            self.take(c, p, p.val, t)
        c.does(fill, "%s fills its table" % f)

    def take(self, c, p, base, t):
        for m, o in t.items():
            v = laststore(p, base.plus(o))
            s = v.sym() if isinstance(v, L) else None
            if s and s[0] == "fn":
                r = ("fn", s[1])
            elif s and s[0] == "load" and s[1].sub(S(("pure", "x", ()))) is not None and s[1].c == o and \
                    s[1].plus(-o).sym() and s[1].plus(-o).sym()[0] == "pure":
                r = ("class", s[1].plus(-o).sym()[1])
            elif m == "name":
                r = ("set", v is not None)
            else:
                r = None
            if m in self.slots and self.slots[m] != r:
                c.ob("class-made", False, where_of(p), "the method table differs between calls (%s)" % m, p)
            self.slots[m] = r


def tables(c):
    K = {"object": Klass(c, "hev_object_class"), "base": Klass(c, BASE)}
    for k in KINDS:
        K[k] = Klass(c, "hev_task_cio_%s_class" % k)
    return K


PARENT = {"hev_object_class": "object", BASE: "base"}


def method(c, K, kind, m):
    """function run for a method of an object of this kind, and the class that provides it"""
    for _ in range(4):
        s = K[kind].slots.get(m)
        if s and s[0] == "fn":
            return s[1], kind
        if s and s[0] == "class" and s[1] in PARENT:
            kind = PARENT[s[1]]
            continue
        break
    c.ob("class-method", False, "(%s)" % K[kind].f, "the %s method of this kind is not provided" % m)
    return None, None


def method_of(e, obj, off):
    """does an indirect call run the method at off of the class of obj?"""
    ko = prog().off("_HevObject", "klass")
    a = loaded_from(e.x)
    if a is None:
        return False
    k = loaded_from(a.plus(-off))
    return k is not None and k == obj.plus(ko)


def err_is(p, me, v):
    x = laststore(p, me.plus(prog().off("_HevTaskCIO", "err")))
    return x is not None and v is not None and eq(p, x, v) is True


def delegates(c, f, m, rule="delegate"):
    """f runs method m of the next stage with its own arguments and reports result and error"""
    pr = prog()
    t = tab()
    me = argn(pr, f, 0)
    fn = pr.mod.functions[f]
    args = [argn(pr, f, i) for i in range(1, len(fn.args))]
    no, eo = pr.off("_HevTaskCIO", "next"), pr.off("_HevTaskCIO", "err")
    n = 0
    for p in rets(c.paths(f)):
        n += delegated(c, p, me, m, args, rule)
    c.does(n, "%s goes on to the next stage" % Analyzer.src(f))


def delegated(c, p, me, m, args, rule, after=0):
    pr = prog()
    t = tab()
    no, eo = pr.off("_HevTaskCIO", "next"), pr.off("_HevTaskCIO", "err")
    w = where_of(p)
    ic = [e for e in p.events if e.k == "icall" and e.n > after]
    prior = max([0] + [e.n for e in p.events if e.k == "icall" and e.n <= after])
    nx = [e.val for e in p.events if e.k == "read" and e.addr == me.plus(no) and e.n > prior]
    nxt = nx[0] if nx else final(p, me.plus(no))
    if not ic:
        ok = nxt is not None and zero(p, nxt)
        c.ob(rule, ok, w, "the next stage is not asked", p)
        if ok:
            c.ob(rule + "-none", known(p, cmp("slt", p.val, ZERO)), w, "an operation without a next stage does not "
                 "fail", p)
            v = laststore(p, me.plus(eo))
            c.ob(rule + "-error", v is not None and eq(p, v, C(macro_sys("EAGAIN"))) is False, w,
                 "an operation without a next stage may look as if it would block", p)
        return 0
    e = ic[0]
    ok = len(ic) == 1 and nxt is not None and nonzero(p, nxt) and method_of(e, nxt, t[m])
    c.ob(rule, ok, e, "not the same operation of the next stage is run, once, on an existing stage", p)
    if not ok:
        return 1
    c.ob(rule + "-arguments", len(e.args) == 1 + len(args) and e.args[0] == nxt and all(
        eq(p, a, b) is True for a, b in zip(e.args[1:], args)), e, "the next stage is not given the same data", p)
    c.ob(rule + "-result", eq(p, p.val, e.ret) is True, w, "the next stage's result is not returned", p)
    if holds(p, cmp("slt", e.ret, ZERO)) is not False:
        v = laststore(p, me.plus(eo))
        rd = [r for r in p.events if r.k == "read" and r.addr == nxt.plus(eo) and r.n > e.n]
        ok = bool(rd) and v is not None and any(eq(p, v, r.val) is True for r in rd)
        c.ob(rule + "-error", ok, w, "the next stage's error is not taken over", p)
    return 1


# how each operation of a descriptor stage may be carried out: system call -> checks its arguments
def sysargs(p, e, m, fd, args):
    def same(i, v):
        return i < len(e.args) and eq(p, e.args[i], v) is True
    if not same(0, fd):
        return False
    n = e.name
    if m in ("read", "write"):
        if n == m:
            return same(1, args[0]) and same(2, args[1])
        if n in ("recv", "send"):
            return same(1, args[0]) and same(2, args[1]) and same(3, ZERO)
        return False
    if m in ("readv", "writev"):
        if n in ("preadv", "pwritev"):
            return False
        return n == m and same(1, args[0]) and same(2, args[1])
    if m in ("read_dgram", "write_dgram"):
        if n != {"read_dgram": "recvfrom", "write_dgram": "sendto"}[m]:
            return False
        return same(1, args[0]) and same(2, args[1]) and same(3, ZERO) and same(4, args[2])
    if n != {"readv_dgram": "recvmsg", "writev_dgram": "sendmsg"}[m] or not same(2, ZERO):
        return False
    pr = prog()
    mh = e.args[1]
    o = lambda f: val_at(p, mh.plus(pr.off("msghdr", f)), e.n)
    return all(v is not None and eq(p, v, x) is True for v, x in (
        (o("msg_iov"), args[0]), (o("msg_iovlen"), args[1]), (o("msg_name"), args[2])))


SYS = {"read", "write", "readv", "writev", "recv", "send", "recvfrom", "sendto", "recvmsg", "sendmsg", "pread",
       "pwrite", "preadv", "pwritev", "splice"}


def device(c, f, m, fdoff, alen=None):
    """f performs the system call for method m on its own descriptor and records errno"""
    pr = prog()
    me = argn(pr, f, 0)
    fn = pr.mod.functions[f]
    args = [argn(pr, f, i) for i in range(1, len(fn.args))]
    eo = pr.off("_HevTaskCIO", "err")
    n = 0
    for p in rets(c.paths(f)):
        w = where_of(p)
        sc = [e for e in p.events if e.k == "icall" or e.k == "call" and e.name in SYS]
        ok = len(sc) == 1 and sc[0].k == "call"
        c.ob("device-call", ok, sc[0] if sc else w, "the operation is not one system call", p)
        if not ok:
            continue
        n += 1
        e = sc[0]
        fd = [r.val for r in p.events if r.k == "read" and r.addr == me.plus(fdoff) and r.n < e.n]
        c.ob("device-call", bool(fd) and sysargs(p, e, m, fd[0], args), e, "the system call is not the %s of the "
             "stage's own descriptor with the caller's data" % m, p)
        if alen is not None and m.endswith("_dgram"):
            a = [r.val for r in p.events if r.k == "read" and r.addr == me.plus(alen) and r.n < e.n]
            if e.name == "sendto":
                v = e.args[5]
            elif e.name == "recvfrom":
                v = val_at(p, e.args[5], e.n)
            else:
                v = val_at(p, e.args[1].plus(pr.off("msghdr", "msg_namelen")), e.n)
            c.ob("device-address", bool(a) and v is not None and eq(p, v, a[0]) is True, e, "the address size is not "
                 "that of the socket's family", p)
            if e.name in ("recvmsg", "sendmsg"):
                for x in ("msg_control", "msg_controllen", "msg_flags"):
                    v = val_at(p, e.args[1].plus(pr.off("msghdr", x)), e.n)
                    z = v is not None and zero(p, v) or v is None and any(
                        z.k == "memset" and z.n < e.n and Analyzer.root(z.args[0]) == Analyzer.root(e.args[1])
                        for z in p.events)
                    c.ob("device-address", z, e, "the message header has a stray %s" % x, p)
        c.ob("device-result", eq(p, p.val, e.ret) is True, w, "the system call's result is not returned", p)
        if holds(p, cmp("slt", e.ret, ZERO)) is not False:
            v = laststore(p, me.plus(eo))
            rd = [r for r in p.events if r.k == "read" and r.addr == ERRNO and r.n > e.n and
                  not any(x.k in ("call", "icall") and e.n < x.n < r.n for x in p.events)]
            c.ob("device-error", bool(rd) and v is not None and eq(p, v, rd[0].val) is True, w,
                 "the system call's error is not recorded", p)
    c.does(n, "%s performs the operation" % Analyzer.src(f))


def ctrl_paths(c, f, larg=True):
    pr = prog()
    a = [argn(pr, f, i) for i in range(4)]
    return a, rets(c.paths(f, opaque=CIRC))


def device_ctrl(c, f, fds):
    """flushing succeeds, asking for a descriptor gives the stage's own"""
    (me, op, larg, parg), ps = ctrl_paths(c, f)
    seen_ = set()
    for p in ps:
        w = where_of(p)
        fl, gf = eq(p, op, FLUSH), eq(p, op, GET_FD)
        if fl is not False:
            seen_.add("flush")
            c.ob("device-ctrl", not known(p, cmp("slt", p.val, ZERO)) and (zero(p, p.val)), w,
                 "flushing a stage that holds nothing back does not succeed", p)
        if gf is not False and fds:
            seen_.add("fd")
            if len(set(fds)) == 1:
                want = [fds[0]]
            else:
                z = eq(p, larg, ZERO)
                want = [fds[1]] if z is False else [fds[0]] if z is True else []
            a = loaded_from(p.val)
            c.ob("device-ctrl", a is not None and any(a == me.plus(o) for o in want), w, "the descriptor reported is "
                 "not the stage's for that direction", p)
        elif gf is not False:
            c.ob("device-ctrl", known(p, cmp("slt", p.val, ZERO)), w, "a descriptor is reported by a stage without one", p)
    c.does(seen_ >= ({"flush", "fd"} if fds else {"flush"}), "%s answers" % Analyzer.src(f))


def iov_sum(c, f):
    """f returns the sum of the lengths of the vector it is given"""
    pr = prog()
    iov, cnt = argn(pr, f, 1), argn(pr, f, 2)
    lo, sz = pr.off("iovec", "iov_len"), pr.sizeof("iovec")
    ps = c.paths(f)
    ivs = induction(ps)
    n = 0
    acc = None
    for p in backs(ps):
        fn, blk, init, latch, ev0 = p.val
        l = loop_of(p, ev0)
        cnts = counters(l, ivs)
        for s, v in latch.items():
            d = Analyzer.asL(v).sub(S(s))
            a = loaded_from(d)
            if a is not None and zero(p, Analyzer.asL(init[s])):
                ok = in_iterations(a, l, ivs) == iov.plus(lo).add(KSYM.scale(sz)) and \
                    any(known(p, cmp("slt", k, cnt)) or known(p, cmp("ult", k, cnt)) for k in cnts)
                if ok:
                    n += 1
                    acc = s[1]
    for p in rets(ps):
        s = p.val.sym() if isinstance(p.val, L) else None
        l = [e for e in p.events if e.k == "loop"]
        ok = False
        if s and s[0] == "phi" and s[1] == acc and l:
            ok = any(known(p, cmp("sge", k, cnt)) or eq(p, k, cnt) is True for x in l for k in counters(x, ivs))
        elif zero(p, p.val):
            ok = known(p, cmp("sle", cnt, ZERO)) or zero(p, cnt)
        c.ob("discard-all", ok and not shared_stores(p), where_of(p), "a discarding stage does not accept exactly "
             "everything", p)
    c.ob("discard-all", n > 0, "(%s)" % f, "a discarding stage does not accept exactly everything")


def null_op(c, f, m):
    pr = prog()
    if m == "ctrl":
        return device_ctrl(c, f, [])
    if m in ("writev", "writev_dgram"):
        return iov_sum(c, f)
    for p in rets(c.paths(f)):
        want = ZERO if m.startswith("read") else argn(pr, f, 2)
        c.ob("discard-all", eq(p, p.val, want) is True and not shared_stores(p) and not p.calls(*SYS), where_of(p),
             "a discarding stage does not accept everything or yields data", p)


def buffer_ops(c, K):
    """a buffering stage without the buffer of a direction delegates, errors are passed up"""
    pr = prog()
    t = tab()
    eo = pr.off("_HevTaskCIO", "err")
    nd = nf = 0
    for m in OPS:
        f, kind = method(c, K, "buffer", m)
        if f is None:
            continue
        if kind != "buffer":
            c.ob("class-method", m.endswith("_dgram"), "(%s)" % K["buffer"].f, "the %s method of a buffering stage "
                 "bypasses its buffer" % m)
            delegates(c, f, m)
            continue
        me = argn(pr, f, 0)
        fn = pr.mod.functions[f]
        args = [argn(pr, f, i) for i in range(1, len(fn.args))]
        bo = pr.off("_HevTaskCIOBuffer", "rbuf" if m.startswith("read") else "wbuf")
        for p in rets(c.paths(f, opaque=CIRC)):
            w = where_of(p)
            if m == "ctrl":
                fl = eq(p, args[0], FLUSH)
                ic = [e for e in p.events if e.k == "icall"]
                if fl is False:
                    nd += delegated(c, p, me, m, args, "delegate")
                    continue
                last = [e for e in ic if method_of2(e, t["ctrl"])]
                if last:
                    # everything held back was passed on before the next stage is flushed
                    nd += delegated(c, p, me, m, args, "delegate", after=last[0].n - 1)
                    nf += 1
                    continue
                c.ob("delegate", known(p, cmp("slt", p.val, ZERO)), w, "the next stage is not flushed", p)
            else:
                b = [r.val for r in p.events if r.k == "read" and r.addr == me.plus(bo)]
                if b and zero(p, b[0]):
                    nd += delegated(c, p, me, m, args, "delegate")
                    continue
            if holds(p, cmp("slt", p.val, ZERO)) is False:
                continue
            if unsigned(p):
                continue
            nf += 1
            buffer_error(c, p, me, p.val, w)
    c.does(nd >= 4 and nf, "the buffering stage delegates and passes errors up")


def unsigned(p):
    """a result that counts bytes"""
    v = p.val
    return not any(s[0] == "call" and s[1] == "<indirect>" for s in v.syms()) and not v.isconst()


def method_of2(e, off):
    """an indirect call of the method at off of some object's class"""
    ko = prog().off("_HevObject", "klass")
    a = loaded_from(e.x)
    k = loaded_from(a.plus(-off)) if a is not None else None
    return k is not None and bool(e.args) and k == e.args[0].plus(ko)


def buffer_error(c, p, me, val, w):
    """a failing buffered operation reports the failing stage's error, or would-block for leftover bytes"""
    pr = prog()
    eo, no = pr.off("_HevTaskCIO", "err"), pr.off("_HevTaskCIO", "next")
    ic = [e for e in p.events if e.k == "icall"]
    v = laststore(p, me.plus(eo))
    nx = [e for e in p.events if e.k == "read" and e.addr == me.plus(no) and (not ic or e.n > ic[-1].n)]
    if ic and nx and zero(p, nx[-1].val):
        ic = []
    if v is None:
        c.ob("buffer-error", False, w, "a failing operation leaves the error of an earlier one", p)
        return
    again = C(macro_sys("EAGAIN"))
    if ic:
        e = ic[-1]
        rd = [r for r in p.events if r.k == "read" and r.n > e.n and r.addr == e.args[0].plus(eo)]
        took = bool(rd) and eq(p, v, rd[-1].val) is True
        if holds(p, cmp("slt", e.ret, ZERO)) is True:
            c.ob("buffer-error", took, w, "the failing stage's error is not taken over", p)
        elif known(p, cmp("slt", val, ZERO)):
            # the next stage did its part, bytes are left over
            c.ob("buffer-error", eq(p, v, again) is True, w, "bytes left over are not reported as would-block", p)
        else:
            c.ob("buffer-error", took, w, "the next stage's error is not taken over", p)
    else:
        ok = bool(nx) and zero(p, nx[-1].val) and eq(p, v, again) is False
        c.ob("buffer-error", ok, w, "an operation that cannot be done looks as if it would block, or fails although "
             "a next stage exists", p)


def construct(c, K):
    """an object made as one kind has that kind's methods and the values given"""
    pr = prog()
    ko, ro = pr.off("_HevObject", "klass"), pr.off("_HevObject", "ref_count")
    eo = pr.off("_HevTaskCIO", "err")
    o = pr.off
    S_ = "_HevTaskCIOSocket"
    want = {"fd": {o("_HevTaskCIOFd", "fdi"): 1, o("_HevTaskCIOFd", "fdo"): 2}, "socket": {o(S_, "fd"): 2},
            "buffer": {}, "null": {}}
    fam = {macro_sys("AF_UNIX"): "sockaddr_un", macro_sys("AF_INET"): "sockaddr_in", macro_sys("AF_INET6"):
           "sockaddr_in6"}
    size = {"sockaddr_un": 110, "sockaddr_in": 16, "sockaddr_in6": 28}
    for k in KINDS:
        f = "hev_task_cio_%s_construct" % k
        me = argn(pr, f, 0)
        n = 0
        seenf = set()
        for p in rets(c.paths(f, opaque=CIRC)):
            if known(p, cmp("slt", p.val, ZERO)):
                continue
            n += 1
            w = where_of(p)
            v = laststore(p, me.plus(ko))
            c.ob("own-methods", v is not None and v == S(K[k].glob), w, "a new %s object does not get its own "
                 "methods" % k, p)
            v = laststore(p, me.plus(ro))
            c.ob("own-methods", v is not None and eq(p, v, C(1)) is True, w, "a new object does not have one "
                 "reference", p)
            v = laststore(p, me.plus(eo))
            c.ob("own-methods", v is not None and eq(p, v, C(macro_sys("EAGAIN"))) is False, w, "a new object's error is not set", p)
            for off, i in want[k].items():
                v = laststore(p, me.plus(off))
                c.ob("own-descriptor", v is not None and eq(p, v, argn(pr, f, i)) is True, w,
                     "a new object does not use the descriptor given", p)
            if k == "socket":
                fa = argn(pr, f, 1)
                v = laststore(p, me.plus(o(S_, "alen")))
                for num, st in fam.items():
                    r = eq(p, fa, C(num))
                    if r is True:
                        seenf.add(num)
                        c.ob("own-address-size", v is not None and eq(p, v, C(size[st])) is True, w,
                             "the address size is not that of the family", p)
        c.does(n, "%s succeeds" % f)
        if k == "socket":
            c.does(seenf == set(fam), "the families' address sizes are told apart")


def C21(c):
    pr = prog()
    K = tables(c)
    t = tab()
    o = pr.off
    for m in OPS:
        # the base class hands everything on
        f, kind = method(c, K, "base", m)
        if f:
            delegates(c, f, m)
        for k, fdi, fdo, alen in (("fd", o("_HevTaskCIOFd", "fdi"), o("_HevTaskCIOFd", "fdo"), None),
                                  ("socket",) + (o("_HevTaskCIOSocket", "fd"),) * 2 + (o("_HevTaskCIOSocket", "alen"),)):
            f, kind = method(c, K, k, m)
            if f is None:
                continue
            if kind == k:
                if m == "ctrl":
                    device_ctrl(c, f, [fdi, fdo])
                else:
                    device(c, f, m, fdi if m.startswith("read") else fdo, alen)
            else:
                c.ob("class-method", k == "fd" and m.endswith("_dgram"), "(%s)" % K[k].f,
                     "a %s stage does not perform %s itself" % (k, m))
        f, kind = method(c, K, "null", m)
        if f:
            if kind == "null":
                null_op(c, f, m)
            else:
                c.ob("class-method", False, "(%s)" % K["null"].f, "a discarding stage does not discard (%s)" % m)
    buffer_ops(c, K)
    construct(c, K)
    # the public operations run the object's own method
    for w in IO:
        if isinstance(w.step, str):
            v = View(c, w)
            n = 0
            for p in v.ps:
                for e in p.events:
                    if v.other_op(e):
                        c.ob("own-operation", False, e, "another operation than the one asked for is run", p)
                for e in v.steps(p):
                    n += 1
                    c.ob("own-operation", True, e, "")
                    if w.shape is None:
                        step_args(c, v, p, e)
            c.does(n, "%s runs the object's own method" % w.f)
    f = "hev_task_cio_get_fd"
    me, d = argn(pr, f, 0), argn(pr, f, 1)
    for p in rets(c.paths(f)):
        ic = [e for e in p.events if e.k == "icall"]
        ok = len(ic) == 1 and method_of(ic[0], me, t["ctrl"]) and ic[0].args[0] == me and ic[0].args[1] == GET_FD and \
            ic[0].args[2] == d and (eq(p, p.val, ic[0].ret) is True or p.val == S(("op", "trunc32", ic[0].ret)))
        c.ob("own-operation", ok, where_of(p), "asking for a descriptor does not ask the object for the one of that "
             "direction", p)
    # the operations a stage may call on the next one (exported as inline functions)
    for m in OPS:
        f = "hev_task_cio_next_" + m
        for g in sorted(x for x in pr.mod.functions if Analyzer.src(x) == f and not pr.mod.functions[x].decl):
            delegates(c, g, m)


# ------------------------------------------------------------------ ownership
def destructor(c, K, kind):
    """what a destructor of this kind releases"""
    pr = prog()
    t = tab()
    f, prov = method(c, K, kind, "destruct")
    if f is None:
        return
    c.ob("destroy-own", prov == kind, "(%s)" % K[kind].f, "objects of kind %s have no destructor of their own" % kind)
    if prov != kind:
        return
    me = argn(pr, f, 0)
    o = pr.off
    res = {"fd": [("close", o("_HevTaskCIOFd", "fdi")), ("close", o("_HevTaskCIOFd", "fdo"))],
           "socket": [("close", o("_HevTaskCIOSocket", "fd"))],
           "buffer": [("hev_circular_buffer_unref", o("_HevTaskCIOBuffer", "rbuf")),
                      ("hev_circular_buffer_unref", o("_HevTaskCIOBuffer", "wbuf"))], "null": []}[kind]
    n = 0
    for p in rets(c.paths(f, opaque=CIRC)):
        w = where_of(p)
        n += 1
        rel = p.calls("close", "hev_circular_buffer_unref")
        vals = []
        for how, off in res:
            v = [r.val for r in p.events if r.k == "read" and r.addr == me.plus(off)]
            v = v[0] if v else None
            vals.append((how, off, v))
        for how, off, v in vals:
            got = [e for e in rel if v is not None and eq(p, e.args[0], v) is True]
            if v is None:
                c.ob("destroy-releases", False, w, "a stage's own %s is not released" % (
                    "descriptor" if how == "close" else "buffer"), p)
                continue
            if how == "close":
                none = known(p, cmp("slt", v, ZERO))
            else:
                none = zero(p, v)
            if none:
                c.ob("destroy-releases", not got, w, "something the stage does not have is released", p)
            else:
                c.ob("destroy-releases", len(got) == 1 and got[0].name == how and (
                    how == "close" or nonzero(p, v)), w, "a stage's own %s is not released exactly once" % (
                    "descriptor" if how == "close" else "buffer"), p)
        for e in rel:
            if not any(v is not None and eq(p, e.args[0], v) is True for _, _, v in vals):
                c.ob("destroy-releases", False, e, "something else is released", p)
        # two descriptors that may be equal must not be closed twice
        cl = p.calls("close")
        for i in range(len(cl)):
            for j in range(i):
                c.ob("destroy-releases", eq(p, cl[i].args[0], cl[j].args[0]) is False, cl[i],
                     "the same descriptor may be closed twice", p)
        up = [e for e in p.events if e.k == "icall" and parent_destruct(e, t) or e.k == "call" and
              e.name.endswith("_cio_destruct_")]
        own = chain_releases(p, me)
        c.ob("destroy-rest", len(up) + (1 if own else 0) == 1 and (not up or up[0].args[0] == me), w,
             "the rest of the chain is not released through the base destructor exactly once", p)
        bad = [e for e in p.events if e.k == "icall" and e not in up and e not in own]
        c.ob("destroy-rest", not bad, bad[0] if bad else w, "another method is run", p)
        fr = p.calls("hev_free")
        c.ob("destroy-memory", len(fr) == 1 and eq(p, fr[0].args[0], me) is True, w, "a stage's memory is not "
             "released exactly once", p)
        if fr:
            late = [e for e in p.events if e.n > fr[0].n and (
                e.k in ("read", "store") and Analyzer.root(e.addr) == Analyzer.root(me) or
                e.k in ("call", "icall") and any(a == me for a in e.args or ()))]
            c.ob("destroy-memory", not late, late[0] if late else w, "a stage is used after its memory was released", p)
    c.does(n, "destructor of %s" % kind)


def parent_destruct(e, t):
    a = loaded_from(e.x)
    return a is not None and a == S(("pure", BASE, ())).plus(t["destruct"])


def chain_releases(p, me):
    return []


def C22(c):
    pr = prog()
    t = tab()
    K = tables(c)
    no = pr.off("_HevTaskCIO", "next")
    for k in KINDS:
        destructor(c, K, k)
        s, _ = method(c, K, k, "ref")
        c.ob("release", s is not None and _ == "object", "(%s)" % K[k].f, "objects of kind %s are not reference "
             "counted like any object" % k)
    # the base destructor gives up the reference on the next stage
    f, prov = method(c, K, "base", "destruct")
    if f:
        me = argn(pr, f, 0)
        n = 0
        for p in rets(c.paths(f)):
            w = where_of(p)
            ic = [e for e in p.events if e.k == "icall"]
            nx = [r.val for r in p.events if r.k == "read" and r.addr == me.plus(no)]
            ob = [e for e in ic if loaded_from(e.x) == S(("pure", "hev_object_class", ())).plus(t["destruct"])]
            rest = [e for e in ic if e not in ob]
            if nx and zero(p, nx[0]):
                c.ob("release-next", not rest, w, "a stage that does not exist is released", p)
                continue
            ok = len(rest) == 1 and bool(nx) and nonzero(p, nx[0]) and rest[0].args[0] == nx[0] and \
                method_of(rest[0], nx[0], t["ref"]) and zero(p, rest[0].args[1])
            n += 1
            c.ob("release-next", ok, rest[0] if rest else w, "the next stage's reference is not given up exactly once "
                 "when a stage is destroyed", p)
            fr = p.calls("hev_free")
            c.ob("release-next", not fr, w, "the base destructor releases memory it does not own", p)
        c.does(n, "a destroyed stage releases the next one")
    # popping
    f = "hev_task_cio_pop"
    me = argn(pr, f, 0)
    n = 0
    for p in rets(c.paths(f)):
        w = where_of(p)
        nx = [e.val for e in p.events if e.k == "read" and e.addr == me.plus(no)]
        ic = [e for e in p.events if e.k == "icall"]
        c.ob("pop-rest", bool(nx) and eq(p, p.val, nx[0]) is True, w, "popping does not return the rest of the chain", p)
        ok = len(ic) == 1 and method_of(ic[0], me, t["ref"]) and ic[0].args[0] == me and zero(p, ic[0].args[1])
        c.ob("pop-own", ok, w, "popping does not release exactly the stage", p)
        if ok:
            n += 1
            v = val_at(p, me.plus(no), ic[0].n)
            c.ob("pop-rest", v is not None and zero(p, v), ic[0], "the rest of the chain is released with the popped "
                 "stage", p)
            late = [e for e in p.events if e.n > ic[0].n and e.k in ("read", "store") and
                    Analyzer.root(e.addr) == Analyzer.root(me)]
            c.ob("pop-own", not late, late[0] if late else w, "the popped stage is used after its release", p)
    c.does(n, "popping releases the stage")
    f = "hev_task_cio_push"
    me, nxt = argn(pr, f, 0), argn(pr, f, 1)
    for p in rets(c.paths(f)):
        v = laststore(p, me.plus(no))
        c.ob("push-links", v is not None and v == nxt and eq(p, p.val, me) is True and len(shared_stores(p)) == 1,
             where_of(p), "pushing does not put the stage in front of the given chain", p)
    # a counted object is destroyed through its own destructor at zero
    f, _ = method(c, K, "object", "ref")
    if f:
        from .rules_ref import counted
        counted(c, f)
