"""C10 channel transfer, C11 channel lifetime, C12 channel select; waiter rules for C06/C07."""
from .core import *
from .rules_sched import Lay

CH, BUF, SEL = "_HevTaskChannel", "_HevTaskChannelBuffer", "_HevTaskChannelSelect"
LIST = {"hev_list_add_tail", "hev_list_del"}
READ, WRITE = "hev_task_channel_read", "hev_task_channel_write"
NEW = "hev_task_channel_new_with_buffers"


class CL:
    def __init__(self, pr):
        o = pr.off
        self.peer, self.task, self.sel = o(CH, "peer"), o(CH, "task"), o(CH, "select")
        self.rnode, self.rused = o(CH, "read.node"), o(CH, "read.used")
        self.wnode, self.wused = o(CH, "write.node"), o(CH, "write.used")
        self.cnode = o(CH, "chan_node")
        self.rd, self.wr = o(CH, "rd_idx"), o(CH, "wr_idx")
        self.msize, self.use, self.mcnt = o(CH, "max_size"), o(CH, "use_count"), o(CH, "max_count")
        self.ref, self.buf = o(CH, "ref_count"), o(CH, "buffers")
        self.bsize, self.bdata = o(BUF, "size"), o(BUF, "data")
        self.BS, self.HS = pr.sizeof(BUF), pr.sizeof(CH)
        self.clist, self.rlist, self.wlist = (o(SEL, "chan_list"), o(SEL, "read_list"),
                                              o(SEL, "write_list"))
        self.lhead = o("_HevList", "head")

    def side(self, which):
        return (self.rnode, self.rused, self.rlist) if which == "read" else \
            (self.wnode, self.wused, self.wlist)


def chan_paths(c, f, cl):
    return c.paths(f, opaque=LIST, nomem=LIST,
                   bufs={("arg", 1), ("tag", ("struct." + BUF, cl.bdata))},
                   links={("struct." + CH, cl.peer)},
                   stable={("struct." + CH, cl.mcnt), ("struct." + CH, cl.msize)})


def fields_fixed(c, cl):
    """the slot count and size of a channel are set when it is made and never changed"""
    pr = prog()
    n = 0
    tags = {("struct." + CH, cl.mcnt): "number of slots", ("struct." + CH, cl.msize): "slot size"}
    for name, fn in pr.mod.functions.items():
        if fn.decl:
            continue
        vals = {}
        for b in fn.blocks:
            for i in b.insts:
                if i.op == "gep":
                    vals[i.id] = i.extra[2]
                elif i.op == "store" and i.ops[1][0] == "v" and vals.get(i.ops[1][1]) in tags:
                    src = Analyzer.src(name)
                    n += 1
                    ok = src == NEW or src in c.ctor
                    c.ob("channel-geometry-fixed", ok, "%s:%s (%s)" % (
                        "src/" + (i.file or "?").split("/src/")[-1], i.line, src),
                        "the %s of a channel is changed after it was made" % tags[vals[i.ops[1][1]]])
    c.need(n, "channel geometry is set")


def loops(p):
    return [e for e in p.events if e.k == "loop"]


def seen(p, addr, after=0, before=1 << 60):
    """value the path knows for this address in the window (read, or replaced by a store)"""
    v = None
    for e in p.events:
        if after < e.n < before and e.addr == addr:
            if e.k == "read" and v is None:
                v = e.val
            elif e.k == "store" and v is None:
                v = e.old
    return v


def known(p, b):
    return holds(p, b) is True


def zero(p, v):
    return v is not None and eq(p, v, ZERO) is True


def nonzero(p, v):
    return v is not None and eq(p, v, ZERO) is False


def le(p, a, b):
    return known(p, cmp("ule", a, b)) or known(p, cmp("sle", a, b)) or eq(p, a, b) is True


def lt(p, a, b):
    """a < b, for counters that never exceed their limit"""
    return known(p, cmp("ult", a, b))


def differ(p, a, b):
    return eq(p, a, b) is False or known(p, cmp("ult", a, b)) or known(p, cmp("ugt", a, b))


def next_index(p, v, i, m):
    """v is the slot after i in a ring of m slots"""
    s = v.sym()
    if s and s[0] == "op" and s[1] == "urem" and s[2] == i.plus(1) and eq(p, s[3], m) is True:
        return True
    if eq(p, v, i.plus(1)) is True:
        return differ(p, i.plus(1), m)
    if zero(p, v):
        return eq(p, i.plus(1), m) is True or known(p, cmp("uge", i.plus(1), m)) or eq(p, m, C(1)) is True
    return False


def copied(p, dst, src, n, after=0):
    """exactly n bytes go from src to dst (and nothing else to dst's memory): None if right, else why"""
    rd = Analyzer.root(dst)
    wr = [e for e in p.events if e.n > after and (
        e.k == "store" and Analyzer.root(e.addr) == rd or
        e.k in ("memcpy", "memset") and Analyzer.root(e.args[0]) == rd)]
    if zero(p, n):
        bad = [e for e in wr if e.k != "memcpy" or not zero(p, e.args[2])]
        return None if not bad else "bytes are written although none are due"
    mc = [e for e in wr if e.k == "memcpy"]
    if mc:
        e = mc[0]
        if len(wr) == 1 and eq(p, e.args[0], dst) is True and eq(p, e.args[1], src) is True and \
                eq(p, e.args[2], n) is True:
            return None
        return "the copy is not of exactly the transferred bytes from the message to the buffer"
    k = p.st.facts.norm(n)
    if not k.isconst():
        return "no copy of the transferred number of bytes is seen"
    got = {}
    for e in wr:
        o = e.addr.sub(dst)
        if e.k != "store" or not o.isconst() or is_load(e.val, src.plus(o.c)) is None:
            return "a stored value is not the message's"
        for j in range(e.size):
            got[o.c + j] = 1
    return None if set(got) == set(range(k.c)) else "%d bytes are due but %d are copied" % (k.c, len(got))


def listop(c, p, ch, which, cl, after=0, before=1 << 60, rule="select-list"):
    """ready-list operation on one side of a channel in the window: 'add', 'del', None; checks that list,
    node and mark go together"""
    node, used, lst = cl.side(which)
    ev = [e for e in p.events if e.k == "call" and e.name in LIST and after < e.n < before and
          e.args[1] == ch.plus(node)]
    st = stores(p, addr=ch.plus(used), after=after, before=before)
    if not ev:
        c.ob(rule, not st, st[0] if st else where_of(p),
             "a channel is marked as (not) listed without being put on or taken off the list", p)
        return None
    e = ev[0]
    add = e.name == "hev_list_add_tail"
    okf = seen(p, ch.plus(used), after, before)
    ok = len(ev) == 1 and len(st) == 1 and (nonzero(p, st[0].val) if add else zero(p, st[0].val)) and \
        (zero(p, okf) if add else nonzero(p, okf))
    c.ob(rule, ok, e, "a channel is put on or taken off a ready list without checking and updating its "
         "mark: it could be listed twice or removed while not listed", p)
    L0 = e.args[0].plus(-lst)
    s = seen(p, ch.plus(cl.sel), after, before)
    ok = s is not None and eq(p, L0, s) is True or L0.sym() is not None and L0.sym()[0] == "arg"
    c.ob(rule, ok, e, "the list used is not the %s list of the selector the channel belongs to" % which, p)
    return "add" if add else "del"


def wakes(p, addr_task, after=0, before=1 << 60):
    """the task recorded at this address is woken"""
    return [e for e in p.calls("hev_task_wakeup") if after < e.n < before and
            loaded_from(e.args[0]) == addr_task]


# ------------------------------------------------------------------ transfer (C10)
def waiting(c, p, me, P, cl, ly, need, rule):
    """the iteration that suspends: condition observed false, peer observed alive, caller recorded"""
    evs = body(p)
    ys = [e for e in evs if is_yield(e)]
    n0 = evs[0].n
    for y in ys:
        tk = val_at(p, me.plus(cl.task), y.n, n0)
        c.ob(rule + "-registered", tk is not None and eq(p, tk, SELF) is True, y,
             "the caller suspends without being recorded as the task to wake", p)
        c.ob(rule + "-waits", eq(p, y.args[0], C(ly.WAITIO)) is True, y,
             "the caller stays runnable instead of waiting", p)
        pe = seen(p, me.plus(cl.peer), n0, y.n)
        c.ob(rule + "-peer-alive", nonzero(p, pe), y,
             "the caller waits without having checked, since it was last suspended, that the peer exists", p)
        u = seen(p, P.plus(cl.use), n0, y.n)
        m = lastval(p, P.plus(cl.mcnt))
        if need == "empty":
            ok = zero(p, u)
        else:
            ok = u is not None and m is not None and (known(p, cmp("uge", u, m)) or eq(p, u, m) is True)
        c.ob(rule + "-only-if-needed", ok, y, "the caller waits although the channel is not seen %s"
             % need, p)
    c.ob(rule + "-suspends", bool(ys), where_of(p), "the caller spins without giving up the processor", p)
    return len(ys)


def clean(p, me, cl):
    """the iteration that waited leaves no record of the caller"""
    evs = body(p)
    n0 = evs[0].n
    ys = [e for e in evs if is_yield(e)]
    st = [e for e in stores(p, addr=me.plus(cl.task), after=n0)]
    own = [e for e in st if eq(p, e.val, SELF) is True]
    if not own:
        return True
    late = [e for e in st if ys and e.n > ys[-1].n]
    if late:
        return zero(p, late[-1].val) or late[-1].val == own[0].old
    rd = [e for e in reads(p, me.plus(cl.task), after=ys[-1].n)] if ys else []
    return bool(rd) and eq(p, rd[-1].val, SELF) is False


def forgotten(c, ps, me, cl, rule):
    ok_loop = {}
    for p in backs(ps):
        l = loop_of(p, p.val[4])
        if l is None:
            continue
        k = (l.stack, l.x[0])
        ok_loop[k] = ok_loop.get(k, True) and clean(p, me, cl)
    for p in rets(ps):
        st = stores(p, addr=me.plus(cl.task))
        own = [e for e in st if eq(p, e.val, SELF) is True]
        ls = loops(p)
        after = ls[-1].n if ls else 0
        late = [e for e in st if e.n > after]
        if late:
            ok = zero(p, late[-1].val) or own and late[-1].val == own[0].old or \
                (not own and is_load(late[-1].val, me.plus(cl.task)) is not None)
            # only if the caller is the one recorded
        else:
            ok = not own and all(ok_loop.get((l.stack, l.x[0]), True) for l in ls)
            if not ok:
                rd = reads(p, me.plus(cl.task), after=after)
                ok = bool(rd) and eq(p, rd[-1].val, SELF) is False
        c.ob(rule, ok, where_of(p), "the channel still records the caller as its waiting task after the "
             "call has returned", p)


def kept(c, ps, me, cl):
    """a caller that stops waiting puts back the task recorded for the selector"""
    for p in ps:
        evs = body(p) if p.end == "backedge" else p.events
        n0 = evs[0].n if evs else 0
        st = stores(p, addr=me.plus(cl.task), after=n0)
        own = [e for e in st if eq(p, e.val, SELF) is True]
        for e in st:
            if own and e.n > own[0].n and zero(p, e.val):
                o = own[0].old
                c.ob("select-task-kept", o is not None and (eq(p, e.val, o) is True or zero(p, o)) or
                     zero(p, seen(p, me.plus(cl.sel))), e, "the task that selects on the channel is forgotten", p)


def freed(p, o):
    return [e for e in p.calls("hev_free", "free") if eq(p, e.args[0], o) is True]


def failed(p):
    return known(p, cmp("slt", p.val, ZERO)) or eq(p, p.val, C(-1)) is True


def read_side(c, want):
    pr = prog()
    cl, ly = CL(pr), Lay(pr)
    me, ub, cnt = (argn(pr, READ, i) for i in range(3))
    ps = chan_paths(c, READ, cl)
    nw = ns = nf = 0
    sel_cases = set()
    for p in backs(ps):
        if want & {"xfer", "life"}:
            nw += waiting(c, p, me, me, cl, ly, "empty", "read")
    for p in rets(ps):
        w = where_of(p)
        ls = loops(p)
        n0 = ls[-1].n if ls else 0
        if failed(p):
            nf += 1
            ch = [e for e in shared_stores(p) if e.addr not in (me.plus(cl.ref), me.plus(cl.task))]
            if want & {"xfer", "life"}:
                c.ob("read-fails-only-if-dead", zero(p, seen(p, me.plus(cl.use), n0)) and
                     zero(p, seen(p, me.plus(cl.peer), n0)), w,
                     "a read fails although a message may be pending or the peer may still write", p)
                c.ob("read-fail-no-effect", not ch, ch[0] if ch else w, "a failing read changes the "
                     "channel or the buffer", p)
            continue
        ns += 1
        us = [e for e in stores(p, addr=me.plus(cl.use))]
        ok = len(us) == 1 and us[0].val == us[0].old.plus(-1) and nonzero(p, us[0].old)
        if "xfer" in want or not ok:
            c.ob("read-consumes-one", ok, us[0] if us else w, "a successful read does not take exactly one "
                 "message that it has seen pending", p)
        if not ok:
            continue
        U = us[0].old
        M = seen(p, me.plus(cl.mcnt))
        ri = stores(p, addr=me.plus(cl.rd))
        P = seen(p, me.plus(cl.peer), n0)
        if "xfer" in want:
            ok = bool(ri) and M is not None and next_index(p, ri[-1].val, ri[0].old, M)
            c.ob("read-next-slot", ok, ri[0] if ri else w, "the read position does not move on by exactly "
                 "one slot", p)
            if not ri:
                continue
            slot = me.plus(cl.buf).add(ri[0].old.scale(cl.BS))
            Z, D = seen(p, slot.plus(cl.bsize)), seen(p, slot.plus(cl.bdata))
            ok = Z is not None and le(p, p.val, cnt) and le(p, p.val, Z) and (
                eq(p, p.val, cnt) is True or eq(p, p.val, Z) is True)
            c.ob("read-amount", ok, w, "the number of bytes read is not the smaller of message and buffer", p)
            if D is None and zero(p, p.val):
                D = ZERO
            why = copied(p, ub, D, p.val) if D is not None else "the message is not looked at"
            c.ob("read-copies-message", why is None, w, "read: %s" % why, p)
            T = seen(p, P.plus(cl.task)) if P is not None else None
            okn = M is not None and differ(p, U, M) or P is not None and zero(p, P) or zero(p, T) or \
                P is not None and wakes(p, P.plus(cl.task))
            c.ob("read-wakes-writer", bool(okn), w, "a read that makes room in a full channel does not wake "
                 "the task waiting to write", p)
        if "select" in want:
            V = us[0].val
            op = listop(c, p, me, "read", cl, n0)
            s, fl = seen(p, me.plus(cl.sel), n0), seen(p, me.plus(cl.rused), n0)
            sel_cases.add(("r", op))
            c.ob("select-readable-exact", op != "add" and (op != "del" or zero(p, V)), w,
                 "a channel that still has messages is taken off (or put on) the readable list by a read", p)
            if op is None:
                c.ob("select-readable-exact", nonzero(p, V) or zero(p, s) or zero(p, fl), w,
                     "a channel that may have become empty stays on its selector's readable list", p)
            if P is None:
                c.ob("select-writable-exact", M is not None and differ(p, U.plus(1), M), w,
                     "a read makes the peer's next write complete at once without telling its selector", p)
                continue
            op = listop(c, p, P, "write", cl, n0) if not zero(p, P) else None
            sel_cases.add(("w", op))
            c.ob("select-writable-exact", op != "del" and (op != "add" or M is not None and (
                lt(p, U, M) or eq(p, U.plus(1), M) is True or
                lt(p, U.plus(-1), M.plus(-1)))), w, "a peer whose next write would block is put "
                "on its selector's writable list (or taken off by a read)", p)
            if op is None:
                s, fl = seen(p, P.plus(cl.sel), n0), seen(p, P.plus(cl.wused), n0)
                c.ob("select-writable-exact", zero(p, P) or zero(p, s) or nonzero(p, fl) or
                     M is not None and differ(p, U.plus(1), M), w, "a read makes the peer's next write "
                     "complete at once without putting it on its selector's writable list", p)
            else:
                T = seen(p, P.plus(cl.task))
                c.ob("select-wakes", zero(p, T) or bool(wakes(p, P.plus(cl.task))), w,
                     "a channel becomes ready without its selecting task being woken", p)
    c.does(ns and nf, "a read can succeed and fail")
    if want & {"xfer", "life"}:
        c.does(nw, "a read waits")
    if "select" in want:
        c.does(("r", "del") in sel_cases and ("w", "add") in sel_cases, "read maintains ready lists")
    if "forget" in want:
        forgotten(c, ps, me, cl, "channel-forgets-caller")
    if "select" in want:
        kept(c, ps, me, cl)
    if "life" in want:
        held(c, ps, me, cl)
    return ps


def write_side(c, want):
    pr = prog()
    cl, ly = CL(pr), Lay(pr)
    me, ub, cnt = (argn(pr, WRITE, i) for i in range(3))
    ps = chan_paths(c, WRITE, cl)
    nw = ns = nf = 0
    sel_cases = set()
    for p in ps:
        P = seen(p, me.plus(cl.peer))
        if p.end == "backedge" and want & {"xfer", "life"}:
            c.does(P is not None, "a write looks at the peer")
            nw += waiting(c, p, me, P, cl, ly, "full", "write")
        if p.end != "ret":
            continue
        w = where_of(p)
        ls = loops(p)
        fail = failed(p)
        nf += fail
        us = stores(p, addr=P.plus(cl.use))
        commit = [e for e in us if e.val == e.old.plus(1)]
        if not commit:
            if want & {"xfer", "life"}:
                n0 = ls[-1].n if ls else 0
                c.ob("write-fails-only-if-dead", fail and zero(p, seen(p, me.plus(cl.peer), n0)), w,
                     "a write that delivers nothing does not report failure, or fails although the peer "
                     "exists", p)
                ch = [e for e in shared_stores(p) if e.addr not in (
                    me.plus(cl.ref), me.plus(cl.task), P.plus(cl.ref))]
                c.ob("write-fail-no-effect", not ch, ch[0] if ch else w, "a failing write changes the "
                     "channel", p)
            continue
        ns += 1
        e0 = commit[0]
        pre = [l for l in ls if l.n < e0.n]
        post = [l for l in ls if l.n > e0.n]
        n0 = pre[-1].n if pre else 0
        n1 = post[0].n if post else 1 << 60
        n2 = post[-1].n if post else e0.n
        U = e0.old
        M = seen(p, P.plus(cl.mcnt))
        okc = len(commit) == 1 and M is not None and (lt(p, U, M))
        if "xfer" in want or not okc:
            c.ob("write-adds-one", okc, e0, "a write does not add exactly one message to a channel it has "
                 "seen with room", p)
        if not okc:
            continue
        late = [e for e in us if e is not e0]
        wi = stores(p, addr=P.plus(cl.wr))
        W = wi[0].old if wi else None
        slot = P.plus(cl.buf).add(W.scale(cl.BS)) if W is not None else None
        lent = M is not None and eq(p, M, C(1)) is True
        if "xfer" in want:
            ok = bool(wi) and next_index(p, wi[-1].val, wi[0].old, M)
            c.ob("write-next-slot", ok, wi[0] if wi else w, "the write position does not move on by exactly "
                 "one slot", p)
            if slot is None:
                continue
            sz = stores(p, addr=slot.plus(cl.bsize), before=n1)
            dt = stores(p, addr=slot.plus(cl.bdata), before=n1)
            n = sz[-1].val if sz else None
            c.ob("write-size-recorded", n is not None, w, "the message's size is not recorded with it", p)
            if n is None:
                continue
            if not fail:
                c.ob("write-amount", eq(p, p.val, n) is True, w, "the reported number of bytes is not the "
                     "size of the message", p)
            if lent:
                ok = bool(dt) and eq(p, dt[-1].val, ub) is True and eq(p, n, cnt) is True
                c.ob("write-lends-buffer", ok, w, "an unbuffered write does not hand over exactly the "
                     "caller's buffer", p)
            else:
                X = seen(p, me.plus(cl.msize)) or seen(p, P.plus(cl.msize))
                ok = M is not None and eq(p, M, C(1)) is False and not dt and X is not None and \
                    le(p, n, X) and le(p, n, cnt) and (eq(p, n, X) is True or eq(p, n, cnt) is True)
                c.ob("write-amount", ok, w, "a buffered write does not store the smaller of the caller's data "
                     "and the slot size", p)
                D = seen(p, slot.plus(cl.bdata))
                if D is None and zero(p, n):
                    D = ZERO
                why = copied(p, D, ub, n) if D is not None else "the slot is not looked at"
                c.ob("write-copies-message", why is None, w, "write: %s" % why, p)
            T = seen(p, P.plus(cl.task), n0, n1)
            c.ob("write-wakes-reader", eq(p, U, ZERO) is False or zero(p, T) or
                 bool(wakes(p, P.plus(cl.task), n0, n1)), w,
                 "a write to an empty channel does not wake the task waiting to read", p)
            u2 = seen(p, P.plus(cl.use), n2) if post else e0.val
            if not fail:
                c.ob("write-room-left", u2 is not None and lt(p, u2, M), w,
                     "a write returns success while its message may still fill the channel (an unbuffered "
                     "message not yet taken)", p)
                c.ob("write-single-effect", not late, late[0] if late else w, "a successful write changes the "
                     "number of messages again", p)
            else:
                c.ob("write-fails-only-if-dead", zero(p, seen(p, me.plus(cl.peer), n2)), w,
                     "a write fails although the peer exists", p)
                ok = all(zero(p, e.val) for e in late) and (lent or not late)
                c.ob("write-single-effect", ok, late[0] if late else w, "a failing write drops messages of "
                     "others", p)
        if want & {"xfer", "life"} and lent and fail:
            c.ob("write-takes-back", bool(late) and zero(p, late[-1].val), w, "an unbuffered write fails "
                 "and leaves its caller's buffer with the reader", p)
        if "select" in want:
            op = listop(c, p, P, "read", cl, n0, n1)
            s, fl = seen(p, P.plus(cl.sel), n0, n1), seen(p, P.plus(cl.rused), n0, n1)
            sel_cases.add(("r", op))
            c.ob("select-readable-exact", op != "del" and (op == "add" or eq(p, U, ZERO) is False or
                                                            zero(p, s) or nonzero(p, fl)), w,
                 "a write makes a message available without putting the channel on its selector's readable "
                 "list", p)
            if op == "add":
                T = seen(p, P.plus(cl.task), n0, n1)
                c.ob("select-wakes", zero(p, T) or bool(wakes(p, P.plus(cl.task), n0, n1)), w,
                     "a channel becomes ready without its selecting task being woken", p)
            op = listop(c, p, me, "write", cl, n0, n1)
            s, fl = seen(p, me.plus(cl.sel), n0, n1), seen(p, me.plus(cl.wused), n0, n1)
            sel_cases.add(("w", op))
            full = known(p, cmp("uge", U.plus(1), M.plus(-1))) or eq(p, U.plus(2), M) is True or \
                eq(p, U.plus(1), M) is True
            c.ob("select-writable-exact", op != "add" and (op != "del" or full), w,
                 "a channel that can take another message at once is taken off (or put on) the writable "
                 "list by a write", p)
            if op is None:
                c.ob("select-writable-exact", zero(p, s) or zero(p, fl) or
                     lt(p, U.plus(1), M.plus(-1)), w, "a channel whose next write would block stays on its "
                     "selector's writable list", p)
            if late:
                op = listop(c, p, P, "read", cl, n2)
                s, fl = seen(p, P.plus(cl.sel), n2), seen(p, P.plus(cl.rused), n2)
                c.ob("select-readable-exact", op == "del" or zero(p, s) or zero(p, fl), late[0],
                     "a message taken back leaves its channel on the readable list", p)
    c.does(ns and nf, "a write can succeed and fail")
    if want & {"xfer", "life"}:
        c.does(nw >= 2, "a write waits")
    if "select" in want:
        c.does(("r", "add") in sel_cases and ("w", "del") in sel_cases, "write maintains ready lists")
    if "forget" in want:
        forgotten(c, ps, me, cl, "channel-forgets-caller")
    if "select" in want:
        kept(c, ps, me, cl)
    if "life" in want:
        held(c, ps, me, cl)
    return ps


def field(p, addr):
    """value of a field of an object made on this path: last store, else cleared memory"""
    v = val_at(p, addr, 1 << 60)
    if v is not None:
        return v
    for e in p.events:
        if e.k == "memset" and zero(p, e.args[1]):
            b, n = e.args[0], e.args[2]
        elif e.k == "call" and e.name in ("hev_malloc0", "calloc", "hev_calloc"):
            b, n = e.ret, e.args[0] if e.name == "hev_malloc0" else None
        else:
            continue
        d = addr.sub(b)
        if d.isconst() and d.c >= 0 and (n is None or not n.isconst() or d.c < n.c):
            return ZERO
    return None


# ------------------------------------------------------------------ lifetime (C11)
def held(c, ps, me, cl):
    """an end that is used after a possible suspension is held across it and let go exactly once"""
    for p in rets(ps):
        w = where_of(p)
        ls = loops(p)
        ends = {me.sym(): me}
        P = seen(p, me.plus(cl.peer), 0, ls[0].n if ls else 1 << 60)
        if P is not None and P.sym() and not zero(p, P):
            ends[P.sym()] = P
        for s, o in ends.items():
            rs = stores(p, addr=o.plus(cl.ref))
            up = [e for e in rs if e.val == e.old.plus(1)]
            dn = [e for e in rs if e.val == e.old.plus(-1)]
            fr = freed(p, o)
            acc = [e for e in p.events if e.k in ("read", "store") and Analyzer.root(e.addr) == s and
                   ls and e.n > ls[0].n]
            if acc or rs:
                ok = len(up) == 1 and len(dn) == 1 and len(rs) == 2 and up[0].n < dn[0].n and \
                    (not ls or up[0].n < ls[0].n < dn[0].n)
                c.ob("held-across-wait", ok, acc[0] if acc else w, "a channel end is used after a suspension "
                     "without being held across it, or is not let go exactly once", p)
                if not ok:
                    continue
                late = [e for e in p.events if e.n > dn[0].n and e.k in ("read", "store") and
                        Analyzer.root(e.addr) == s and not e.addr == o.plus(cl.ref)]
                c.ob("no-use-after-release", not late, late[0] if late else w, "a channel end is used after "
                     "it was let go", p)
                z = eq(p, dn[0].val, ZERO)
                c.ob("freed-at-zero", (z is True and len(fr) == 1) or (z is False and not fr), w,
                     "a channel end is not freed exactly when its last holder lets go", p)
            else:
                c.ob("freed-at-zero", not fr, w, "a channel end that was not held is freed", p)


def destroy(c):
    pr = prog()
    cl = CL(pr)
    f = "hev_task_channel_destroy"
    me = argn(pr, f, 0)
    ps = rets(chan_paths(c, f, cl))
    alone = pair = 0
    for p in ps:
        w = where_of(p)
        P = seen(p, me.plus(cl.peer))
        c.ob("destroy-detaches", P is not None, w, "destroying an end does not look at its peer", p)
        if P is None:
            continue
        if nonzero(p, P):
            pair += 1
            st = stores(p, addr=P.plus(cl.peer))
            c.ob("destroy-detaches", len(st) == 1 and zero(p, st[0].val), w,
                 "the peer of a destroyed end still refers to it", p)
            T = seen(p, P.plus(cl.task))
            c.ob("destroy-wakes-peer", zero(p, T) or bool(wakes(p, P.plus(cl.task))), w,
                 "a task blocked on the other end is not woken", p)
            st = stores(p, addr=me.plus(cl.peer))
            c.ob("destroy-detaches", bool(st) and zero(p, st[-1].val), w, "a destroyed end stays attached to "
                 "its peer, so an operation blocked on it waits for ever", p)
            # written through only while attached
            bad = [e for e in stores(p) if Analyzer.root(e.addr) == P.sym() and e.addr != P.plus(cl.peer)]
            c.ob("destroy-detaches", not bad, bad[0] if bad else w, "destroying an end changes its peer", p)
        else:
            alone += zero(p, P)
        T = seen(p, me.plus(cl.task))
        c.ob("destroy-wakes-own", zero(p, T) or bool(wakes(p, me.plus(cl.task))), w,
             "a task blocked on the destroyed end is not woken", p)
        rs = stores(p, addr=me.plus(cl.ref))
        ok = len(rs) == 1 and rs[0].val == rs[0].old.plus(-1)
        c.ob("destroy-lets-go", ok, w, "destroying an end does not give up exactly one reference", p)
        if not ok:
            continue
        z = eq(p, rs[0].val, ZERO)
        fr = freed(p, me)
        allf = p.calls("hev_free", "free")
        c.ob("freed-at-zero", ((z is True and len(fr) == 1) or (z is False and not fr)) and
             len(allf) == len(fr), w, "a channel end is not freed exactly when its last holder lets go", p)
        late = [e for e in p.events if e.n > rs[0].n and e.k in ("read", "store") and
                Analyzer.root(e.addr) == me.sym()]
        c.ob("no-use-after-release", not late, late[0] if late else w,
             "a channel end is used after it was let go", p)
    c.does(alone and pair, "both a connected and a disconnected end can be destroyed")


def divide(l, size):
    """l = q * size + r"""
    q, r = L(0), L(l.c)
    for s, k in l.t:
        if S(s) == size:
            q = q.plus(k)
        elif s[0] == "op" and s[1] == "mul" and size in (s[2], s[3]):
            o = s[3] if s[2] == size else s[2]
            q = q.add(o, k)
        else:
            r = r.add(S(s), k)
    return q, r


def constructor(c):
    pr = prog()
    cl = CL(pr)
    a1, a2, size, nb = (argn(pr, NEW, i) for i in range(4))
    ps = c.paths(NEW, arith=True)
    B = nb.plus(1)
    ok_paths = slots = 0

    def need_of(p):
        return C(cl.HS).add(B.scale(cl.BS))
    for p in ps:
        w = where_of(p)
        if p.end == "ret" and failed(p):
            st = [e for e in shared_stores(p) if e.addr in (a1, a2)]
            c.ob("new-fail", not st, w, "a failing constructor hands out a channel", p)
            continue
        al = p.calls("hev_malloc", "hev_malloc0", "malloc", "calloc", "hev_calloc")
        if p.end == "ret":
            ok_paths += 1
            c1, c2 = val_at(p, a1, 1 << 60), val_at(p, a2, 1 << 60)
            good = c1 is not None and c2 is not None and {c1, c2} == {e.ret for e in al} and c1 != c2 and \
                nonzero(p, c1) and nonzero(p, c2)
            c.ob("new-two-ends", good, w, "the two ends handed out are not two separate objects", p)
            if not good:
                continue

            def f(o, k):
                return field(p, o.plus(k))
            for o, q in ((c1, c2), (c2, c1)):
                ok = f(o, cl.peer) == q and eq(p, f(o, cl.msize), size) is True and \
                    eq(p, f(o, cl.mcnt), B) is True and eq(p, f(o, cl.ref), C(1)) is True and \
                    all(zero(p, f(o, k)) for k in (cl.rused, cl.wused, cl.task, cl.sel, cl.rd, cl.wr, cl.use))
                c.ob("new-initial-state", ok, w, "a new channel end does not start empty, unlinked, held once "
                     "and connected to the other end", p)
            one = eq(p, B, C(1)) is True
            for e in al:
                if e.name in ("calloc", "hev_calloc"):
                    continue
                q, r = divide(p.st.facts.norm(e.args[0]), size)
                ok = known(p, cmp("uge", r, p.st.facts.norm(need_of(p)))) or eq(p, r, need_of(p)) is True
                if not one:
                    ok = ok and (eq(p, q, B) is True)
                c.ob("new-allocates-all", ok, e, "the memory of a channel end does not hold all its slots", p)
        # nothing wraps around on the way
        for e in p.events:
            if e.k == "arith" and al:
                lo, hi = bound(p, e.val, lambda s: (0, (1 << 32) - 1) if s[0] == "arg" and s[1] >= 2 else
                               mulrange(p, s))
                if e.n < al[0].n and e.val not in (B,):
                    ok = hi is not None and lo is not None and lo >= -1 and hi <= (1 << e.size) - 1 or \
                        bounded_by_test(p, e.val, al[0].n)
                    c.ob("new-size-exact", ok, e, "the size of a channel end may wrap around", p)
        if p.end == "ret" and al:
            # the slot count does not wrap
            c.ob("new-size-exact", eq(p, B, ZERO) is False and wrapfree(p, B), w, "the number of slots may "
                 "wrap around", p)
        if p.end == "backedge":
            l = loop_of(p, p.val[4])
            ivs = induction([p])
            fn, blk, init, latch, ev0 = p.val
            cnts = counters(l, ivs)
            c.need(cnts, "slot set-up loop counts")
            K = cnts[0]
            # pointers stepping by the slot size
            steps = {s: Analyzer.asL(init[s]) for s, v in latch.items()
                     if Analyzer.asL(v).sub(S(s)) == size}
            done = 0
            for e in [e for e in body(p) if e.k == "store"]:
                r = Analyzer.root(e.addr)
                owner = [x.ret for x in al if x.ret.sym() == r]
                if not owner:
                    continue
                a = in_iterations(e.addr, l, ivs)
                o = owner[0]
                v = e.val
                for s, q in list(v.t):
                    if s in steps:
                        v = v.sub(S(s)).add(steps[s]).add(S(("op", "mul") + tuple(sorted(
                            (K, size), key=show))))
                d = v.sub(o)
                q, rem = divide(p.st.facts.norm(d), size)
                qk = in_iterations(q, l, ivs)
                okk = a == o.plus(cl.buf + cl.bdata).add(KSYM.scale(cl.BS))
                ok = okk and qk == KSYM and (eq(p, rem, need_of(p)) is True or
                                             known(p, cmp("uge", rem, need_of(p))))
                # last slot ends inside the allocation: q + 1 <= slots
                ok = ok and (known(p, cmp("ult", q, B)) or known(p, cmp("ule", q.plus(1), B)))
                aq, ar = divide(p.st.facts.norm([x for x in al if x.ret == o][0].args[0]), size)
                ok = ok and (eq(p, ar, rem) is True or known(p, cmp("uge", ar, rem))) and eq(p, aq, B) is True
                c.ob("slots-disjoint", ok, e, "the memory of a slot is not its own part of the channel's "
                     "memory", p)
                done += 1
            slots += done
            c.ob("slots-disjoint", done == 2 or done == 1, w, "a slot of a channel gets no memory", p)
    # every slot: loop runs until all slots are set up
    for p in rets(ps):
        if failed(p) or eq(p, B, C(1)) is True:
            continue
        for l in loops(p):
            ok = any(known(p, cmp("uge", k, B)) or eq(p, k, B) is True for k in counters(l, induction(ps)))
            c.ob("slots-all", ok, l, "not every slot of a buffered channel gets memory", p)
    c.does(ok_paths and slots, "buffered channels are set up")
    f = "hev_task_channel_new"
    for p in rets(c.paths(f, opaque={NEW})):
        e = p.calls(NEW)
        ok = len(e) == 1 and eq(p, p.val, e[0].ret) is True and \
            [e[0].args[0], e[0].args[1]] == [argn(pr, f, 0), argn(pr, f, 1)] and zero(p, e[0].args[3])
        c.ob("new-unbuffered", ok, where_of(p), "a plain channel is not an unbuffered one", p)


def mulrange(p, s):
    if s[0] == "op" and s[1] == "mul":
        f = p.st.facts
        h = f.hi.get(("u", ((s, 1),)))
        a = bound(p, s[2], lambda x: (0, (1 << 32) - 1) if x[0] == "arg" else None)
        b = bound(p, s[3], lambda x: (0, (1 << 32) - 1) if x[0] in ("arg", "phi") else None)
        hi = a[1] * b[1] if a[1] is not None and b[1] is not None else None
        if h is not None:
            hi = h if hi is None else min(hi, h)
        return (0, hi)
    return None


def bounded_by_test(p, v, before):
    """an explicit test keeps the sum below the largest size"""
    lo, hi = bound(p, v, lambda s: (0, (1 << 32) - 1) if s[0] == "arg" else None)
    return hi is not None and hi <= (1 << 64) - 1


def wrapfree(p, B):
    """count + 1 is not zero: the maximum was excluded"""
    n = B.plus(-1)
    lo, hi = bound(p, n)
    return eq(p, B, ZERO) is False or hi is not None and hi < (1 << 32) - 1


# ------------------------------------------------------------------ select (C12)
def lists(c):
    """the list itself"""
    pr = prog()
    hd, tl = pr.off("_HevList", "head"), pr.off("_HevList", "tail")
    nx, pv = pr.off("_HevListNode", "next"), pr.off("_HevListNode", "prev")
    N = "struct._HevListNode"
    kw = dict(links={(N, nx), (N, pv)})
    f = "hev_list_add_tail"
    me, nd = argn(pr, f, 0), argn(pr, f, 1)
    for p in rets(c.paths(f, **kw)):
        T = seen(p, me.plus(tl))
        ok = T is not None and eq(p, val_at(p, nd.plus(pv), 1 << 60), T) is True and \
            zero(p, val_at(p, nd.plus(nx), 1 << 60)) and eq(p, val_at(p, me.plus(tl), 1 << 60), nd) is True
        if ok and nonzero(p, T):
            ok = eq(p, val_at(p, T.plus(nx), 1 << 60), nd) is True and not stores(p, addr=me.plus(hd))
        elif ok:
            ok = zero(p, T) and eq(p, val_at(p, me.plus(hd), 1 << 60), nd) is True
        c.ob("list-add", ok, where_of(p), "adding to a list does not link the new element behind the last", p)
    f = "hev_list_del"
    me, nd = argn(pr, f, 0), argn(pr, f, 1)
    for p in rets(c.paths(f, **kw)):
        P, N_ = seen(p, nd.plus(pv)), seen(p, nd.plus(nx))
        ok = P is not None and N_ is not None
        if ok:
            # no predecessor means being the first one and the other way round, likewise at the end
            def end(x, o):
                r, h = eq(p, x, ZERO), seen(p, me.plus(o))
                return eq(p, h, nd) if r is None and h is not None else r
            first, last = end(P, hd), end(N_, tl)
            a = me.plus(hd) if first else P.plus(nx)
            b = me.plus(tl) if last else N_.plus(pv)
            ok = eq(p, val_at(p, a, 1 << 60), N_) is True and eq(p, val_at(p, b, 1 << 60), P) is True and \
                first is not None and last is not None
            own = [e for e in stores(p) if e.addr not in (a, b) and Analyzer.root(e.addr) != nd.sym()]
            ok = ok and not own
        c.ob("list-del", ok, where_of(p), "removing from a list does not link the neighbours to each other", p)


def selector(c):
    pr = prog()
    cl, ly = CL(pr), Lay(pr)
    kw = dict(opaque=LIST, nomem=LIST, links={("struct." + CH, cl.peer)})
    f = "hev_task_channel_select_add"
    me, ch = argn(pr, f, 0), argn(pr, f, 1)
    cases = set()
    for p in rets(c.paths(f, **kw)):
        w = where_of(p)
        ok = eq(p, val_at(p, ch.plus(cl.sel), 1 << 60), me) is True and \
            eq(p, val_at(p, ch.plus(cl.task), 1 << 60), SELF) is True
        c.ob("select-add-owner", ok, w, "an added channel does not know its selector and selecting task", p)
        e = [e for e in p.calls(*LIST) if e.args[1] == ch.plus(cl.cnode)]
        ok = len(e) == 1 and e[0].name == "hev_list_add_tail" and e[0].args[0] == me.plus(cl.clist)
        c.ob("select-add-listed", ok, w, "an added channel is not on its selector's list once", p)
        U = seen(p, ch.plus(cl.use))
        op = listop(c, p, ch, "read", cl)
        cases.add(("r", op))
        ok = nonzero(p, U) if op == "add" else op is None and (
            zero(p, U) or nonzero(p, seen(p, ch.plus(cl.rused))))
        c.ob("select-add-ready", ok, w, "an added channel is listed as readable without a pending message, or "
             "not listed with one", p)
        P = seen(p, ch.plus(cl.peer))
        op = listop(c, p, ch, "write", cl)
        cases.add(("w", op))
        PU = seen(p, P.plus(cl.use)) if P is not None else None
        PM = seen(p, P.plus(cl.mcnt)) if P is not None else None
        room = PU is not None and PM is not None and lt(p, PU, PM.plus(-1))
        full = PU is not None and PM is not None and known(p, cmp("uge", PU, PM.plus(-1)))
        ok = (nonzero(p, P) and room) if op == "add" else op is None and (
            zero(p, P) or full or nonzero(p, seen(p, ch.plus(cl.wused))))
        c.ob("select-add-ready", ok, w, "an added channel is listed as writable although a write would "
             "block, or not listed although it would not", p)
    c.does(("r", "add") in cases and ("w", "add") in cases, "added channels are listed when ready")
    f = "hev_task_channel_select_del"
    me, ch = argn(pr, f, 0), argn(pr, f, 1)
    for p in rets(c.paths(f, **kw)):
        w = where_of(p)
        for side in ("read", "write"):
            op = listop(c, p, ch, side, cl)
            fl = seen(p, ch.plus(cl.side(side)[1]))
            c.ob("select-del-all", op == "del" or op is None and zero(p, fl), w,
                 "a removed channel may stay on its selector's %s list" % side, p)
        e = [e for e in p.calls(*LIST) if e.args[1] == ch.plus(cl.cnode)]
        ok = len(e) == 1 and e[0].name == "hev_list_del" and e[0].args[0] == me.plus(cl.clist)
        c.ob("select-del-all", ok, w, "a removed channel stays on its selector's list", p)
        ok = zero(p, val_at(p, ch.plus(cl.sel), 1 << 60)) and zero(p, val_at(p, ch.plus(cl.task), 1 << 60))
        c.ob("select-del-all", ok, w, "a removed channel still refers to its selector or selecting task", p)
    for p in rets(c.paths("hev_task_channel_select_new")):
        if nonzero(p, p.val):
            for k in (cl.clist, cl.rlist, cl.wlist):
                for o in (0, 8):
                    x = load_zero(p, p.val.plus(k + o))
                    c.ob("select-new-empty", x, where_of(p), "a new selector does not start with empty lists", p)
    for f, lst, node in (("hev_task_channel_select_read", cl.rlist, cl.rnode),
                         ("hev_task_channel_select_write", cl.wlist, cl.wnode)):
        selecting(c, f, lst, node, cl, ly)


def load_zero(p, a):
    x = final(p, a)
    if x is not None:
        return zero(p, x)
    return any(not a.sub(b).t and 0 <= a.sub(b).c and (n is None or a.sub(b).c < n) for b, n in p.st.zero)


def selecting(c, f, lst, node, cl, ly):
    pr = prog()
    me, to = argn(pr, f, 0), argn(pr, f, 1)
    ps = c.paths(f, opaque=LIST, nomem=LIST)
    got = none = ny = 0
    # the remaining time: starts with the time-out, replaced only by what a sleep left over
    clocks = {}
    for p in backs(ps):
        fn, blk, init, latch, ev0 = p.val
        ys = [e for e in body(p) if is_yield(e)]
        sl = [e for e in ys if e.name == "hev_task_sleep"]
        n0 = body(p)[0].n
        c.ob("select-suspends", len(ys) == 1, where_of(p), "a selecting task spins or suspends twice before "
             "looking again", p)
        if len(ys) != 1:
            continue
        ny += 1
        y = ys[0]
        h = seen(p, me.plus(lst + cl.lhead), n0, y.n)
        c.ob("select-waits-only-if-none", zero(p, h), y, "a selecting task waits although a channel is "
             "ready", p)
        forever = known(p, cmp("slt", to, ZERO))
        limited = known(p, cmp("sge", to, ZERO))
        if sl:
            c.ob("select-timeout", limited, y, "a select without time limit is given one", p)
            a = y.args[0].sym()
            ok = a in latch and latch[a] == y.ret
            c.ob("select-timeout", ok, y, "a selecting task does not sleep for exactly what is left of its "
                 "time-out", p)
            for s, v in latch.items():
                if v == y.ret:
                    clocks.setdefault(s, True)
        else:
            c.ob("select-timeout", forever and eq(p, y.args[0], C(ly.WAITIO)) is True, y,
                 "a select with a time limit waits for ever (or stays runnable)", p)
        for s, v in latch.items():
            okv = v == S(s) or sl and v == y.ret and y.args[0] == S(s)
            if not okv or init[s] != to:
                clocks[s] = False
    for p in rets(ps):
        w = where_of(p)
        ls = loops(p)
        n0 = ls[-1].n if ls else 0
        h = seen(p, me.plus(lst + cl.lhead), n0)
        z = eq(p, p.val, ZERO)
        if z is True or z is None and h is not None and zero(p, h):
            none += 1
            reg = seen(p, me.plus(cl.clist + cl.lhead))
            out = zero(p, h) and (eq(p, to, ZERO) is True or any(
                clocks.get(s) and eq(p, S(s), ZERO) is True for l in ls for s in l.x[1]))
            c.ob("select-none", z is True and (zero(p, reg) or out), w, "a select returns nothing although a "
                 "channel may be ready or its time is not over", p)
        else:
            got += 1
            ok = h is not None and nonzero(p, h) and eq(p, p.val, h.plus(-node)) is True
            c.ob("select-returns-ready", ok, w, "a select returns something else than the first channel seen "
                 "on its ready list", p)
    c.does(got and none and ny >= 2, f + " waits, times out and returns")


def C10(c):
    c.ctor = set()
    constructor(c)
    fields_fixed(c, CL(prog()))
    read_side(c, {"xfer"})
    write_side(c, {"xfer"})


def C11(c):
    c.ctor = set()
    fields_fixed(c, CL(prog()))
    destroy(c)
    read_side(c, {"life"})
    write_side(c, {"life"})


def C12(c):
    c.ctor = set()
    fields_fixed(c, CL(prog()))
    lists(c)
    selector(c)
    read_side(c, {"select"})
    write_side(c, {"select"})
