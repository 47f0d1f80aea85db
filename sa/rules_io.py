"""C15 retry discipline of the I/O wrappers, C16 complete transfers, C17 descriptor constructors."""
from .core import *
from .core import absint
from .rules_itc import known, nonzero, zero
from .rules_time import has_bits, macro_sys

ERRNO = absint.ERRNO
CIO, CIOK = "_HevTaskCIO", "_HevTaskCIOClass"


class W:
    """one wrapper: how its step is called and which parameters it is made of"""

    def __init__(self, f, step, args, y, block=("EAGAIN",), shape=None, flags=None, done=None):
        self.f, self.step, self.args, self.y = f, step, args, y
        self.block, self.shape, self.flags, self.done = block, shape, flags, done


IO = [
    W("hev_task_io_read", ("read",), (0, 1, 2), 3),
    W("hev_task_io_write", ("write",), (0, 1, 2), 3),
    W("hev_task_io_readv", ("readv",), (0, 1, 2), 3),
    W("hev_task_io_writev", ("writev",), (0, 1, 2), 3),
    W("hev_task_io_socket_connect", ("connect",), (0, 1, 2), 3, block=("EINPROGRESS", "EALREADY"),
      done="EISCONN"),
    W("hev_task_io_socket_accept", ("accept", "accept4"), (0, 1, 2), 3),
    W("hev_task_io_socket_recv", ("recv", "recvfrom"), (0, "buf", "len", "flags"), 4, shape=(1, 2), flags=3),
    W("hev_task_io_socket_send", ("send", "sendto"), (0, "buf", "len", "flags"), 4, shape=(1, 2), flags=3),
    W("hev_task_io_socket_recvfrom", ("recvfrom",), (0, "buf", "len", "flags", 4, 5), 6, shape=(1, 2), flags=3),
    W("hev_task_io_socket_sendto", ("sendto",), (0, "buf", "len", "flags", 4, 5), 6, shape=(1, 2), flags=3),
    W("hev_task_io_socket_recvmsg", ("recvmsg",), (0, "msg", "flags"), 3, shape="msg", flags=2),
    W("hev_task_io_socket_sendmsg", ("sendmsg",), (0, "msg", "flags"), 3, shape="msg", flags=2),
    W("hev_task_cio_read", "read", (0, 1, 2), 3),
    W("hev_task_cio_write", "write", (0, 1, 2), 3),
    W("hev_task_cio_readv", "readv", (0, 1, 2), 3),
    W("hev_task_cio_writev", "writev", (0, 1, 2), 3),
    W("hev_task_cio_read_dgram", "read_dgram", (0, 1, 2, 3), 4),
    W("hev_task_cio_write_dgram", "write_dgram", (0, 1, 2, 3), 4),
    W("hev_task_cio_readv_dgram", "readv_dgram", (0, 1, 2, 3), 4),
    W("hev_task_cio_writev_dgram", "writev_dgram", (0, 1, 2, 3), 4),
    W("hev_task_cio_flush", "ctrl", (0, C(0), C(0), C(0)), 1),
    W("hev_task_cio_read_exact", "read", (0, "buf", "len"), 3, shape=(1, 2)),
    W("hev_task_cio_write_exact", "write", (0, "buf", "len"), 3, shape=(1, 2)),
    W("hev_task_cio_readv_exact", "readv", (0, "vec", "cnt"), 3, shape="vec"),
    W("hev_task_cio_writev_exact", "writev", (0, "vec", "cnt"), 3, shape="vec"),
]
WAITIO = C(2)
STEPS = {n for w in IO if not isinstance(w.step, str) for n in w.step}


def lnorm(p, v):
    return p.st.facts.norm(v) if isinstance(v, L) else v


class View:
    """a wrapper's paths with its steps, suspensions and results found"""

    def __init__(self, c, w):
        self.w, self.pr = w, prog()
        pr = self.pr
        self.arg = lambda i: argn(pr, w.f, i)
        self.cio = isinstance(w.step, str)
        bufs = {("arg", 1)} if isinstance(w.shape, tuple) else set()
        if w.shape is None and not self.cio:
            bufs = set()
        self.ps = c.paths(w.f, bufs=bufs)
        self.fn, self.data = self.arg(w.y), self.arg(w.y + 1)
        if self.cio:
            self.koff = pr.off("_HevObject", "klass")
            self.moff = pr.off(CIOK, w.step)
            self.err = self.arg(0).plus(pr.off(CIO, "err"))
        else:
            self.err = ERRNO
        self.codes = [macro_sys(b) for b in w.block]

    def is_step(self, e):
        if not self.cio:
            return e.k == "call" and e.name in self.w.step
        if e.k != "icall":
            return False
        a = loaded_from(e.x)
        if a is None:
            return False
        k = loaded_from(a.plus(-self.moff))
        return k == self.arg(0).plus(self.koff)

    def other_op(self, e):
        """an I/O operation that is not this wrapper's own step"""
        return e.k == "icall" and e.x != self.fn and not self.is_step(e) or \
            e.k == "call" and e.name in STEPS and not self.is_step(e)

    def is_susp(self, e):
        return e.k == "icall" and e.x == self.fn or is_yield(e) and e.k == "call"

    def steps(self, p):
        return [e for e in p.events if self.is_step(e)]

    def res(self, p, st):
        """the step's result, as narrowed to the type the wrapper returns"""
        t = S(("op", "trunc32", st.ret), None, 32)
        return t if self.cio and holds(p, cmp("slt", t, ZERO)) is not None else st.ret


def rule_c15(c, w):
    v = View(c, w)
    c.does(any(v.steps(p) or any(v.other_op(e) for e in p.events) for p in v.ps),
           "%s performs an operation" % w.f)
    nsus = 0
    v.kept = kept(v)
    for p in v.ps:
        sts = v.steps(p)
        for e in p.events:
            if v.other_op(e):
                c.ob("io-own-step", False, e, "another operation than the one asked for is run", p)
        for e in sts:
            step_args(c, v, p, e)
        sus = [e for e in p.events if v.is_susp(e)]
        for y in sus:
            nsus += 1
            prev = [e for e in sts if e.n < y.n]
            ok = bool(prev) and blocked_at(v, p, prev[-1], y.n)
            c.ob("io-suspend-only-if-would-block", ok, y, "suspends although the operation was not seen to "
                 "fail because it would block", p)
            if prev:
                ok = not [x for x in sus if prev[-1].n < x.n < y.n]
                c.ob("io-retry-after-suspend", ok, y, "suspends twice without trying again", p)
            if y.k == "icall":
                ok = known(p, cmp("ne", v.fn, ZERO)) and y.args[:2] == [WAITIO, v.data]
                c.ob("io-suspend-through-yielder", ok, y, "the yielder is not called with a wait request "
                     "and the caller's data", p)
                r = eq(p, y.ret, ZERO)
                later = [e for e in sts if e.n > y.n]
                if r is True:
                    c.ob("io-retry-after-suspend", bool(later) or p.end != "ret", where_of(p),
                         "returns after a suspension without trying again", p)
                else:
                    ok = p.end == "ret" and not later and eq(p, y.ret, ZERO) is False and \
                        eq(p, p.val, C(-2)) is True
                    c.ob("io-yielder-stops", ok, y, "a yielder asking to stop does not make the call return "
                         "the abort value", p)
            else:
                ok = y.name == "hev_task_yield" and y.args[0] == WAITIO and eq(p, v.fn, ZERO) is True
                c.ob("io-suspend-through-yielder", ok, y, "the scheduler is used to wait although the caller "
                     "gave a yielder, or not as a wait", p)
                later = [e for e in sts if e.n > y.n]
                c.ob("io-retry-after-suspend", bool(later) or p.end != "ret", where_of(p),
                     "returns after a suspension without trying again", p)
        if p.end == "backedge":
            fn, blk, init, latch, ev0 = p.val
            bs = [e for e in p.events[ev0:] if v.is_step(e) or v.is_susp(e)]
            if any(v.is_step(e) for e in bs):
                st = [e for e in bs if v.is_step(e)][-1]
                if not any(v.is_susp(e) for e in bs):
                    ok = w.shape is not None and waitall(v, p) is True and known(p, cmp("sgt", st.ret, ZERO))
                    c.ob("io-no-other-retry", ok, st, "the operation is repeated although it did not fail "
                         "because it would block", p)
        if w.shape == "msg" and sts:
            given_header(c, v, p, sts[0])
        if w.f.endswith("recvmsg") and sts:
            first_header(c, v, p, sts[-1])
        if w.f.endswith("recvmsg") and sts and not [y for y in sus if y.n > sts[-1].n] and \
                p.end in ("ret", "backedge"):
            returned_header(c, v, p, sts[-1])
        if p.end == "ret":
            stop = [y for y in sus if y.k == "icall" and eq(p, y.ret, ZERO) is not True]
            if stop:
                continue
            if not sts:
                c.ob("io-result", False, where_of(p), "returns without performing the operation", p)
                continue
            st = sts[-1]
            b = not_blocked(v, p, st)
            c.ob("io-would-block-hidden", b, where_of(p), "returns although the operation may have failed "
                 "because it would block", p)
            if w.shape is not None and waitall(v, p) is not False:
                continue        # C16
            ok = eq(p, p.val, v.res(p, st)) is True
            if w.done and not ok:
                dn = macro_sys(w.done)
                ok = eq(p, p.val, ZERO) is True and any(
                    eq(p, e.val, C(dn)) is True for e in reads(p, v.err, after=st.n)) and \
                    holds(p, cmp("slt", st.ret, ZERO)) is True
            elif w.done:
                dn = macro_sys(w.done)
                ok = holds(p, cmp("slt", st.ret, ZERO)) is False or any(
                    eq(p, e.val, C(dn)) is False for e in reads(p, v.err, after=st.n))
            if not ok and w.f.endswith("_accept"):
                io = [e for e in p.calls("ioctl", "fcntl") if e.n > st.n]
                ok = bool(io) and holds(p, cmp("slt", io[-1].ret, ZERO)) is True and \
                    holds(p, cmp("slt", p.val, ZERO)) is True
            c.ob("io-result", ok, where_of(p), "does not return exactly the operation's result", p)
    if any(v.steps(p) for p in v.ps):
        c.ob("io-suspends", nsus > 0, w.f, "never suspends: would-block is handed to the caller or polled for", None)


def blocked_at(v, p, st, n):
    """on this path the step failed with a would-block code seen before event n"""
    if holds(p, cmp("slt", v.res(p, st), ZERO)) is not True:
        return False
    rd = [e for e in reads(p, v.err, after=st.n) if e.n < n]
    return any(eq(p, e.val, C(k)) is True for e in rd for k in v.codes)


def not_blocked(v, p, st):
    if holds(p, cmp("slt", v.res(p, st), ZERO)) is False:
        return True
    rd = reads(p, v.err, after=st.n)
    return any(all(eq(p, e.val, C(k)) is False for k in v.codes) for e in rd)


def waitall(v, p):
    """is this a transfer that must be complete?"""
    if v.w.flags is None:
        return True
    f = v.arg(v.w.flags)
    bit = S(("op", "and", f, C(macro_sys("MSG_WAITALL"))))
    r = eq(p, bit, ZERO)
    return None if r is None else not r


def ok_flags(v, p, a):
    f = v.arg(v.w.flags)
    wa = macro_sys("MSG_WAITALL")
    return a == f or a == S(("op", "and", f, C(~wa))) or eq(p, a, f) is True or \
        a == S(("op", "and", f, C(~wa & 0xffffffff))) or a == f.plus(-wa) and waitall(v, p) is True


def step_args(c, v, p, e):
    w = v.w
    args = list(e.args)
    if e.name == "recvfrom" and "recv" in w.step or e.name == "sendto" and "send" in w.step:
        ok = zero(p, args[4]) and zero(p, args[5])
        c.ob("io-same-arguments", ok, e, "an address is used that was not given", p)
        args = args[:4]
    if e.name == "accept4":
        args = args[:3]
    ok = len(args) == len(w.args)
    if ok:
        for a, t in zip(args, w.args):
            if isinstance(t, int):
                good = eq(p, a, v.arg(t)) is True
            elif isinstance(t, L):
                good = eq(p, a, t) is True
            elif t == "flags":
                good = ok_flags(v, p, a)
            else:
                good = True         # shape: C16
            if not good:
                ok = False
    c.ob("io-same-arguments", ok, e, "the operation is not called with the caller's arguments", p)


MSG_IN = ("msg_name", "msg_namelen", "msg_control", "msg_controllen")
MSG_OUT = ("msg_namelen", "msg_controllen", "msg_flags")


def kept(v):
    """loop variables that change only when a step made progress"""
    out = None
    for p, init, latch, sts in outer_backs(v):
        if any(v.is_susp(e) for e in p.events[p.val[4]:]):
            same = {s for s, x in latch.items() if Analyzer.asL(x) == S(s)}
            out = same if out is None else out & same
    return out or set()


def returned_header(c, v, p, st):
    """what the kernel reports in the message header reaches the caller's header"""
    if holds(p, cmp("slt", st.ret, ZERO)) is True:
        return
    # not the first step: some variable no longer has the value it keeps until the first progress
    for l in step_loops(v, p, st):
        for s, x in l.x[1].items():
            x = Analyzer.asL(x)
            if x.isconst() and eq(p, S(s), x) is False and s in v.kept:
                return
    m = v.arg(1)
    mh = st.args[1]
    if mh == m:
        return
    for f in MSG_OUT:
        o = v.pr.off("msghdr", f)
        s = [e for e in stores(p, addr=m.plus(o)) if e.n > st.n]
        ok = bool(s) and is_load(s[-1].val, mh.plus(o)) is not None
        c.ob("io-header-returned", ok, where_of(p), "the %s reported by the kernel is not handed to the caller"
             % f, p)


def given_header(c, v, p, st):
    """the first step has the address and the control data of the caller's header"""
    m, mh = v.arg(1), st.args[1]
    if mh == m:
        return
    lp = step_loops(v, p, st)
    n = lp[-1].n if lp else st.n
    cp = [e for e in p.events if e.k == "memcpy" and e.n < n and e.args[0] == mh and e.args[1] == m and
          known(p, cmp("uge", e.args[2], C(v.pr.sizeof("msghdr"))))]
    for f in MSG_IN:
        a = v.pr.off("msghdr", f)
        x = val_at(p, mh.plus(a), n, cp[-1].n if cp else 0)
        ok = bool(cp) if x is None else is_load(x, m.plus(a)) is not None
        c.ob("io-same-arguments", ok, st, "the %s of the caller's header is not used" % f, p)


def first_header(c, v, p, st):
    """later steps of one message do not replace what was reported with the first one"""
    m, mh = v.arg(1), st.args[1]
    if mh == m or waitall(v, p) is False:
        return
    for f in MSG_OUT:
        o = v.pr.off("msghdr", f)
        for e in stores(p, addr=m.plus(o)):
            if e.n < st.n or is_load(e.val, mh.plus(o)) is None:
                continue
            ls = step_loops(v, p, st)
            ok = not ls or any(eq(p, S(s), Analyzer.asL(x)) is True for l in ls for s, x in l.x[1].items() if s in v.kept)
            c.ob("io-header-returned", ok, e, "the %s reported with the first part of a message is replaced" % f, p)


# ------------------------------------------------------------------ complete transfers
def subst(t, latch):
    """term in the values of the next iteration"""
    for s, q in t.t:
        if s in latch:
            t = t.sub(S(s).scale(q)).add(Analyzer.asL(latch[s]), q)
    return t


def entry(t, init):
    return subst(t, init)


def step_loops(v, p, st):
    """loops around a step: the loop events before it, innermost last"""
    return [e for e in p.events if e.k == "loop" and e.n < st.n]


def rule_c16(c, w):
    v = View(c, w)
    if isinstance(w.shape, tuple):
        flat(c, v)
    else:
        vector(c, v)


def outer_backs(v):
    for p in backs(v.ps):
        ev0 = p.val[4]
        sts = [e for e in p.events[ev0:] if v.is_step(e)]
        if sts:
            yield p, p.val[2], p.val[3], sts


def flat(c, v):
    w = v.w
    buf, ln = v.arg(w.shape[0]), v.arg(w.shape[1])
    bi, li = w.args.index("buf"), w.args.index("len")
    nprog = 0
    start = False
    for p in v.ps:
        for st in v.steps(p):
            a, n = st.args[bi], st.args[li]
            lp = step_loops(v, p, st)
            init = lp[-1].x[1] if lp else {}
            c.ob("exact-starts-at-buffer", entry(a, init) == buf and entry(n, init) == ln, st,
                 "the transfer does not start at the caller's buffer with the full length", p)
            start = True
            # position and rest always add up to the end of the caller's buffer
            c.ob("exact-within-buffer", entry(a.add(n), init) == buf.add(ln), st,
                 "position and remaining length do not add up to the caller's buffer", p)
    c.does(start, "%s transfers" % w.f)
    prog_terms = None
    for p, init, latch, sts in outer_backs(v):
        st = sts[-1]
        a, n = st.args[bi], st.args[li]
        a2, n2 = subst(a, latch), subst(n, latch)
        c.ob("exact-within-buffer", eq(p, a2.add(n2), a.add(n)) is True, st,
             "the end of the transfer moves between two steps", p)
        if any(v.is_susp(e) for e in p.events[p.val[4]:]):
            c.ob("exact-continue", a2 == a and n2 == n, st, "a step that would block is repeated with a "
                 "different position", p)
        else:
            nprog += 1
            c.ob("exact-continue", eq(p, a2, a.add(st.ret)) is True, st, "the next step does not continue "
                 "exactly where the previous one stopped", p)
            ks = [a.sub(buf), ln.sub(n)] + [S(s) for s in counters_of(v, v.ps)]
            goes_on(c, p, st, ks, [ln], [n, n2])
    c.does(nprog, "%s continues after a partial step" % w.f)
    counts = counters_of(v, v.ps)
    for p in rets(v.ps):
        sts = v.steps(p)
        if not sts or [y for y in p.events if v.is_susp(y) and y.n > sts[-1].n]:
            continue
        if waitall(v, p) is False:
            continue
        st = sts[-1]
        K = st.args[bi].sub(buf)
        n = st.args[li]
        # by exact-within-buffer the position is also the end less the rest
        cand = [K, ln.sub(n)] + [S(s) for s in counts]
        exact_ret(c, v, p, st, cand, [lambda R: known(p, cmp("uge", R, n)) or eq(p, R, n) is True] +
                  [(lambda R, k=k: known(p, cmp("uge", k.add(R), ln)) or eq(p, k.add(R), ln) is True)
                   for k in cand])


def goes_on(c, p, st, counts, totals, rests):
    """a further step is made only while bytes are missing, seen before or after this one"""
    ok = any(nonzero(p, r) for r in rests) or any(
        known(p, cmp("ult", k, t)) or known(p, cmp("ult", k.add(st.ret), t)) or nonzero(p, t.sub(k)) or
        nonzero(p, t.sub(k).sub(st.ret)) for k in counts for t in totals)
    c.ob("exact-ends", ok, st, "goes on although every byte may have been transferred", p)


def counters_of(v, ps):
    """loop variables that count the transferred bytes: zero at first, plus each step's result"""
    good, bad = set(), set()
    for p, init, latch, sts in outer_backs(v):
        st = sts[-1]
        sus = any(v.is_susp(e) for e in p.events[p.val[4]:])
        for s, x in latch.items():
            x = Analyzer.asL(x)
            want = S(s) if sus else S(s).add(st.ret)
            if Analyzer.asL(init[s]) == ZERO and eq(p, x, want) is True:
                good.add(s)
            else:
                bad.add(s)
    return sorted(good - bad, key=repr)


def exact_ret(c, v, p, st, cand, full):
    """the result of a transfer that must be complete"""
    R = st.ret
    r = p.val
    w = where_of(p)
    pos = holds(p, cmp("sgt", R, ZERO))
    if pos is None:
        c.ob("exact-result", False, w, "returns without telling end or error of the step from progress", p)
        return
    if pos:
        ok = any(eq(p, r, k.add(R)) is True for k in cand)
        c.ob("exact-result", ok, w, "does not return the number of bytes transferred", p)
        ok = any(f(R) for f in full)
        c.ob("exact-complete", ok, w, "returns after progress although bytes may be missing", p)
        return
    some = [eq(p, k, ZERO) for k in cand]
    if False in some or any(nonzero(p, k) for k in cand):
        ok = any(eq(p, r, k) is True for k in cand)
        c.ob("exact-result", ok, w, "stopped early after some bytes but does not return their number", p)
    elif True in some:
        ok = eq(p, r, R) is True
        c.ob("exact-result", ok, w, "stopped at the first step but does not return its result", p)
    else:
        c.ob("exact-result", False, w, "stopped early without regard to the bytes already transferred", p)


# vectors -------------------------------------------------------------------
IOB, IOL, IOS = 0, 8, 16


def vector(c, v):
    w, pr = v.w, v.pr
    ib, il = pr.off("iovec", "iov_base"), pr.off("iovec", "iov_len")
    IS = pr.sizeof("iovec")
    msg = w.shape == "msg"
    mio, mil = (pr.off("msghdr", "msg_iov"), pr.off("msghdr", "msg_iovlen")) if msg else (None, None)
    cvec = None

    def caller_vec(p):
        if not msg:
            return v.arg(1), v.arg(2)
        a, n = v.arg(1).plus(mio), v.arg(1).plus(mil)
        ra, rn = reads(p, a), reads(p, n)
        return (ra[0].val if ra else None, rn[0].val if rn else None)

    def at_step(p, st):
        """vector and count the step is given"""
        if not msg:
            return st.args[1], st.args[2]
        mh = st.args[1]
        out = []
        for o in (mio, mil):
            x = val_at(p, mh.plus(o), st.n, max([e.n for e in step_loops(v, p, st)] or [0]))
            if x is None:
                r = [e for e in p.events if e.k == "read" and e.addr == mh.plus(o) and
                     not [s for s in stores(p, addr=mh.plus(o)) if st.n < s.n < e.n]]
                r = [e for e in r if e.n > max([l.n for l in step_loops(v, p, st)] or [0])]
                x = r[0].val if r else None
            out.append(x)
        return out

    # the caller's vector is copied element by element and its total length summed up
    sums = {}
    ncopy = 0
    local = None
    for p in v.ps:
        for st in v.steps(p):
            lp = step_loops(v, p, st)
            if msg:
                mh = st.args[1]
                r = Analyzer.root(mh)
                lv = val_at(p, mh.plus(mio), lp[-1].n if lp else st.n)
                ln_ = val_at(p, mh.plus(mil), lp[-1].n if lp else st.n)
                c.ob("exact-own-vector", bool(r) and r[0] == "alloca", st, "the caller's message header "
                     "itself is advanced", p)
            else:
                init = lp[-1].x[1] if lp else {}
                lv, ln_ = entry(st.args[1], init), entry(st.args[2], init)
            cv, cn = caller_vec(p)
            s = lv.sym() if lv is not None else None
            if cn is None:
                cn = ln_
            c.ob("exact-own-vector", bool(s) and s[0] == "alloca", st, "the vector that is advanced is not a "
                 "private copy", p)
            c.ob("exact-starts-at-buffer", ln_ is not None and eq(p, ln_, cn) is True, st,
                 "the transfer does not start with all elements", p)
            if s:
                local = lv
    c.does(local is not None, "%s has a private vector" % w.f)
    for p in backs(v.ps):
        fn, blk, init, latch, ev0 = p.val
        evs = p.events[ev0:]
        if any(v.is_step(e) for e in p.events):
            continue
        # a preparing loop: element i of the private vector becomes element i of the caller's
        l = loop_of(p, ev0)
        wr = [e for e in evs if e.k in ("store", "memcpy") and
              Analyzer.root(e.addr if e.k == "store" else e.args[0]) == local.sym()]
        idx = None
        for e in wr:
            off = (e.addr if e.k == "store" else e.args[0]).sub(local)
            idx = off if idx is None or off.c < idx.c else idx
        if not wr:
            idx = None
            cv, cn = caller_vec(p)
        good = bool(wr)
        cv = None
        if wr:
            ncopy += 1
            srcs = []
            cov = 0
            for e in wr:
                if e.k == "memcpy":
                    d = e.args[0].sub(local)
                    srcs.append(e.args[1].sub(d))
                    cov += e.args[2].c if e.args[2].isconst() else 0
                else:
                    a = loaded_from(e.val)
                    d = e.addr.sub(local)
                    srcs.append(a.sub(d) if a is not None else None)
                    cov += e.size
            good = len(set(srcs)) == 1 and srcs[0] is not None and cov == IS
            if good:
                cv = srcs[0]
                if msg:
                    good = is_load(cv, v.arg(1).plus(mio)) is not None
                else:
                    good = cv == v.arg(1)
            step = subst(idx, latch).sub(idx)
            i0 = entry(idx, init)
            good = good and step == C(IS) and i0 == ZERO
            c.ob("exact-copies-vector", good, wr[0], "the private vector is not a copy of the caller's, element "
                 "by element", p)
            i = idx.t[0] if len(idx.t) == 1 else None
            if i and i[1] == IS and not idx.c:
                i = S(i[0])
                ns = [e.val for e in reads(p, v.arg(1).plus(mil))] if msg else [v.arg(2)]
                le = [n for n in ns if known(p, cmp("ule", i, n)) or known(p, cmp("sle", i, n))]
                ok = not le or any(known(p, cmp("ult", i, n)) or known(p, cmp("slt", i, n)) or eq(p, i, n) is False
                                   for n in le)
                c.ob("exact-within-buffer", ok, wr[0], "an element beyond the caller's vector is copied", p)
        for s, x in latch.items():
            d = Analyzer.asL(x).sub(S(s))
            a = loaded_from(d)
            if a is not None and Analyzer.asL(init[s]) == ZERO:
                # summed length: of the element at this iteration's index
                if cv is not None and a in (idx.add(cv).plus(il), idx.add(local).plus(il)):
                    sums[s] = True
    mc = [e for p in v.ps for e in p.events if e.k == "memcpy" and e.args[0] == local and
          not e.args[2].isconst()]
    if not ncopy and mc:
        e = mc[0]
        c.ob("exact-copies-vector", True, e, "", None)
        ncopy = 1
    c.does(ncopy, "%s copies the vector" % w.f)
    if not sums:
        # lengths summed in a loop of its own
        for p in backs(v.ps):
            fn, blk, init, latch, ev0 = p.val
            if any(v.is_step(e) for e in p.events):
                continue
            for s, x in latch.items():
                d = Analyzer.asL(x).sub(S(s))
                a = loaded_from(d)
                if a is None or Analyzer.asL(init[s]) != ZERO:
                    continue
                for base in (local, v.arg(1), None):
                    if base is None:
                        base = next((e.val for e in reads(p, v.arg(1).plus(mio or 0))), local)
                    o = a.sub(base).plus(-il)
                    if subst(o, latch).sub(o) == C(IS) and entry(o, init) == ZERO:
                        sums[s] = True
    c.ob("exact-total", bool(sums), "%s" % w.f, "the total length is not the sum of all elements' lengths", None)
    # nothing is written to the caller's vector
    for p in v.ps:
        for e in p.events:
            a = e.addr if e.k == "store" else e.args[0] if e.k == "memcpy" else None
            if a is None:
                continue
            if not msg and Analyzer.root(a) == v.arg(1).sym():
                c.ob("exact-own-vector", False, e, "the caller's vector is modified", p)
            if msg:
                r = Analyzer.root(a)
                if r and r[0] == "load" and r[1] == v.arg(1).plus(mio):
                    c.ob("exact-own-vector", False, e, "the caller's vector is modified", p)
                if r == v.arg(1).sym() and (e.k != "store" or a.sub(v.arg(1)).c in (
                        mio, mil, pr.off("msghdr", "msg_name"), pr.off("msghdr", "msg_control"))):
                    c.ob("exact-own-vector", False, e, "the caller's message header is modified", p)
    # steps of the advance
    nprog = ninner = 0
    counts = counters_of(v, v.ps)
    for p in backs(v.ps):
        fn, blk, init, latch, ev0 = p.val
        evs = p.events[ev0:]
        sts = v.steps(p)
        if not sts:
            continue
        st = sts[-1]
        V, N = at_step(p, st)
        outer = any(v.is_step(e) for e in evs)
        if not outer:
            # a step over one element: the rest shrinks by its length, the position moves behind it
            ninner += 1
            inner_step(c, v, p, init, latch, evs, st, V, il, IS)
            continue
        sus = any(v.is_susp(e) for e in evs)
        if msg:
            mh = st.args[1]
            V2 = val_at(p, mh.plus(mio), 1 << 60, st.n)
            N2 = val_at(p, mh.plus(mil), 1 << 60, st.n)
            same = V2 is None and N2 is None
        else:
            V2, N2 = subst(V, latch), subst(N, latch)
            same = V2 == V and N2 == N
        if sus:
            el = [e for e in stores(p) if e.n > st.n and local.sym() in (Analyzer.root(e.addr) or ()) or
                  V is not None and e.k == "store" and e.n > st.n and Analyzer.root(e.addr) == Analyzer.root(V)]
            c.ob("exact-continue", same and not el, st, "a step that would block is repeated with a different "
                 "vector", p)
            continue
        nprog += 1
        goes_on(c, p, st, [S(s) for s in counts], [S(s) for s in sums], [x for x in (N, N2) if x is not None])
        if V is None or N is None or V2 is None or N2 is None:
            c.ob("exact-continue", False, st, "a partial step is followed by one with the same vector", p)
            continue
        ok = eq(p, through(v, p, st, V2.add(N2.scale(IS))), V.add(N.scale(IS))) is True
        c.ob("exact-within-buffer", ok, st, "position and count do not add up to the end of the vector", p)
        # what remains of the step's result at the element the next step starts with
        rest = rest_at(p, v, st, V2, latch, evs)
        el = {}
        for e in stores(p):
            if e.n > st.n:
                o = e.addr.sub(V2)
                if o.isconst() and o.c in (ib, il):
                    el[o.c] = e
                elif not msg or e.addr not in (st.args[1].plus(mio), st.args[1].plus(mil)):
                    if Analyzer.root(e.addr) in (Analyzer.root(V), local.sym()):
                        c.ob("exact-continue", False, e, "another element than the one the next step starts "
                             "with is changed", p)
        if rest is None:
            # all elements were passed (not reached when bytes are missing) or no inner step is seen
            at_end = count_done(p, V, V2, N, IS) or ok and (zero(p, N2) or known(p, cmp("sle", N2, ZERO)))
            c.ob("exact-continue", at_end and not el, st, "the next step does not start where the previous "
                 "one stopped", p)
            continue
        ok = True
        for o, sign in ((ib, 1), (il, -1)):
            e = el.get(o)
            if e is None:
                ok = ok and zero(p, rest)
                continue
            ok = ok and e.old is not None and eq(p, e.val, e.old.add(rest, sign)) is True
        c.ob("exact-continue", ok, el[ib] if ib in el else st, "the first element of the next step does not "
             "begin exactly behind the bytes transferred", p)
        ln = [e.val for e in reads(p, V2.plus(il)) if e.n > st.n]
        ok = bool(ln) and known(p, cmp("ult", rest, ln[0]))
        c.ob("exact-within-buffer", ok, el[il] if il in el else st, "an element is advanced past its end", p)
    c.does(nprog, "%s continues after a partial step" % w.f)
    c.does(ninner, "%s steps over complete elements" % w.f)
    c.ob("exact-continue", bool(counts), w.f, "no count of the bytes transferred is kept", None)
    tot = [S(s) for s in sums]
    for p in rets(v.ps):
        sts = v.steps(p)
        if not sts or [y for y in p.events if v.is_susp(y) and y.n > sts[-1].n]:
            continue
        if waitall(v, p) is False:
            continue
        st = sts[-1]
        cand = [S(s) for s in counts]
        exact_ret(c, v, p, st, cand,
                  [(lambda R, k=k, t=t: known(p, cmp("uge", k.add(R), t)) or eq(p, k.add(R), t) is True)
                   for k in cand for t in tot])
    if msg:
        repeated_header(c, v)


def repeated_header(c, v):
    """later steps of one message carry no control data (and, receiving, no address) again"""
    fs = ["msg_control", "msg_controllen"]
    for p, init, latch, sts in outer_backs(v):
        if any(v.is_susp(e) for e in p.events[p.val[4]:]):
            continue
        st = sts[-1]
        mh = st.args[1]
        vals = [val_at(p, mh.plus(v.pr.off("msghdr", f)), 1 << 60, st.n) for f in fs]
        ok = [x is not None and eq(p, x, ZERO) is True for x in vals]
        ok = ok[1] or ok[0] and v.w.f.endswith("recvmsg")
        c.ob("exact-control-once", ok, st, "control data is used again with the next part of the message", p)


def through(v, p, st, t):
    """term at the start of the loops between a step and here, where those loops leave it unchanged"""
    for l in reversed([e for e in p.events if e.k == "loop" and e.n > st.n]):
        init = l.x[1]
        if not any(s in init for s in t.syms()):
            continue
        for q in backs(v.ps):
            latch = q.val[3]
            if set(latch) == set(init) and eq(q, subst(t, latch), t) is not True:
                return t
        t = entry(t, init)
    return t


def count_done(p, V, V2, N, IS):
    d = V2.sub(V)
    n = None
    if all(q % IS == 0 for _, q in d.t) and d.c % IS == 0:
        n = L(d.c // IS, tuple((s, q // IS) for s, q in d.t))
    return n is not None and (known(p, cmp("sge", n, N)) or known(p, cmp("uge", n, N)) or
                              eq(p, n, N) is True)


def rest_vars(p, st, evs_init):
    """loop variables starting as the step's result"""
    return [s for s, x in evs_init.items() if Analyzer.asL(x) == st.ret]


def rest_at(p, v, st, V2, latch, evs):
    """the rest variable compared with the length of the element at V2"""
    for l in reversed([e for e in p.events if e.k == "loop" and e.n > st.n]):
        for s in rest_vars(p, st, l.x[1]):
            r = S(s)
            ln = [e.val for e in reads(p) if e.n > l.n and e.addr.sub(V2).isconst() and
                  e.addr.sub(V2).c == v.pr.off("iovec", "iov_len")]
            if any(holds(p, cmp("ult", r, x)) is True or holds(p, cmp("slt", r, x)) is True for x in ln):
                return r
    return None


def inner_step(c, v, p, init, latch, evs, st, V, il, IS):
    rv = rest_vars(p, st, init)
    if not rv:
        c.ob("exact-continue", False, evs[0], "a loop after a partial step does not start with the step's "
             "result", p)
        return
    r = S(rv[0])
    d = r.sub(Analyzer.asL(latch[rv[0]]))
    a = loaded_from(d)
    ok = a is not None and known(p, cmp("uge", r, d))
    c.ob("exact-continue", ok, evs[-1], "a complete element is stepped over without taking its whole length off "
         "the transferred bytes", p)
    if a is None or V is None:
        return
    o = a.plus(-il)
    at0 = entry(o, init)
    nx = subst(o, latch)
    ok = eq(p, at0, V) is True and nx.sub(o) == C(IS)
    c.ob("exact-continue", ok, evs[-1], "elements are not stepped over one by one from the first of the step", p)


def C15(c):
    for w in IO:
        rule_c15(c, w)


def C16(c):
    for w in IO:
        if w.shape is not None:
            rule_c16(c, w)


# ------------------------------------------------------------------ constructors of descriptors
SINGLE = {"open": 1, "open64": 1, "openat": 2, "openat64": 2, "dup": None, "dup2": None, "dup3": 2, "socket": 1,
          "accept": None, "accept4": 3}
PAIR = {"pipe": (0, None), "pipe2": (0, 1), "socketpair": (3, 1)}
MAKERS = ["hev_task_io_open", "hev_task_io_creat", "hev_task_io_openat", "hev_task_io_dup", "hev_task_io_dup2",
          "hev_task_io_socket_socket", "hev_task_io_socket_socketpair", "hev_task_io_socket_accept",
          "hev_task_io_pipe_pipe"]


def made(p):
    """descriptors acquired on a path: (call, term or None if it may have failed, cell, flag argument)"""
    out = []
    for e in p.events:
        if e.k != "call":
            continue
        if e.name in SINGLE:
            out.append((e, [e.ret], None, SINGLE[e.name]))
        elif e.name in PAIR:
            ai, fi = PAIR[e.name]
            a = e.args[ai]
            fds = []
            for o in (0, 4):
                r = [x.val for x in reads(p, a.plus(o), after=e.n)]
                fds.append(r[0] if r else None)
            out.append((e, fds, a, fi))
    return out


def nonblocking(p, fd, e, fi):
    nb = macro_sys("O_NONBLOCK")
    if fi is not None and fi < len(e.args) and has_bits(e.args[fi], nb):
        return True
    for x in p.events:
        if x.k != "call" or x.n < e.n or x.name not in ("ioctl", "fcntl", "fcntl64"):
            continue
        if fd is None or eq(p, x.args[0], fd) is not True or holds(p, cmp("slt", x.ret, ZERO)) is not False:
            continue
        if x.name == "ioctl" and eq(p, x.args[1], C(macro_sys("FIONBIO"))) is True:
            v = val_at(p, x.args[2], x.n)
            if nonzero(p, v):
                return True
        if x.name.startswith("fcntl") and eq(p, x.args[1], C(macro_sys("F_SETFL"))) is True and \
                has_bits(x.args[2], nb):
            return True
    return False


def C17(c):
    for f in MAKERS:
        got = bad = 0
        pr = prog()
        for p in rets(c.paths(f)):
            w = where_of(p)
            m = made(p)
            if not m:
                c.ob("fd-result", holds(p, cmp("slt", p.val, ZERO)) is True, w, "reports success without a "
                     "descriptor", p)
                continue
            cl = p.calls("close")
            e, fds, cell, fi = m[-1]
            for e2, fds2, _, _ in m[:-1]:
                # an earlier attempt (a repeated accept) must have failed
                c.ob("fd-leak", holds(p, cmp("slt", e2.ret, ZERO)) is True, e2, "an earlier descriptor is lost", p)
            made_it = holds(p, cmp("slt", e.ret, ZERO))
            failed_ = holds(p, cmp("slt", p.val, ZERO))
            thru = cell is None and eq(p, p.val, e.ret) is True
            closed = [[x for x in cl if fd is not None and eq(p, x.args[0], fd) is True] for fd in fds]
            for x in cl:
                ok = any(x in k for k in closed) and made_it is False
                c.ob("fd-close-own", ok, x, "closes a descriptor the call did not create", p)
                if ok and e.name == "dup2":
                    ok = eq(p, e.ret, e.args[0]) is False or eq(p, e.args[0], e.args[1]) is False
                    c.ob("fd-close-own", ok, x, "closes the caller's own descriptor when both numbers are the "
                         "same", p)
            if made_it is True:
                bad += 1
                c.ob("fd-result", failed_ is True or thru, w, "reports success although no descriptor was made", p)
                continue
            if made_it is None and not thru:
                c.ob("fd-result", cell is not None and eq(p, p.val, e.ret) is True, w,
                     "the result does not tell whether a descriptor was made", p)
            if failed_ is True:
                bad += 1
                own = [True] * len(fds)
                if e.name == "dup2" and (eq(p, e.ret, e.args[0]) is True):
                    own = [False]
                for fd, k, o in zip(fds, closed, own):
                    c.ob("fd-leak", len(k) == (1 if o else 0), w, "fails but %s a descriptor it made"
                         % ("does not close" if not k else "closes twice"), p)
                continue
            got += 1
            ok = thru if cell is None else eq(p, p.val, ZERO) is True or eq(p, p.val, e.ret) is True
            c.ob("fd-result", ok, w, "does not hand out the descriptor it made", p)
            if cell is not None:
                c.ob("fd-result", eq(p, cell, argn(pr, f, PAIR[e.name][0])) is True, e,
                     "the pair is not put where the caller asked", p)
                for o in (0, 4):
                    s = [x for x in stores(p, addr=cell.plus(o)) if x.n > e.n]
                    c.ob("fd-result", not s, w, "the descriptors handed out are changed", p)
            for fd, k in zip(fds, closed):
                c.ob("fd-nonblocking", nonblocking(p, fd, e, fi), w, "hands out a descriptor that may still be "
                     "in blocking mode", p)
                c.ob("fd-leak", not k, w, "hands out a descriptor it closed", p)
        c.does(got, "%s hands out a descriptor" % f)
