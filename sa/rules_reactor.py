"""C30 watching descriptors: registration with the reactor, polling with a time-out."""
from .core import *
from .rules_io import WAITIO
from .rules_itc import known, nonzero, zero
from .rules_time import macro_sys


def bits(p, v, b, ev):
    """bit b of a value: True, False, the same bit of the request ('req'), or None"""
    if v == ev:
        r = eq(p, S(("op", "and", ev, C(b))), ZERO)
        return "req" if r is None else not r
    if v.isconst():
        return v.c & b != 0
    s = v.sym()
    if s and s[0] == "op" and s[1] in ("and", "or") and len(s) == 4:
        x, y = bits(p, s[2], b, ev), bits(p, s[3], b, ev)
        if s[1] == "and":
            if x is False or y is False:
                return False
            return y if x is True else x if y is True else x if x == y else None
        if x is True or y is True:
            return True
        return y if x is False else x if y is False else x if x == y else None
    if s and s[0] == "op" and (s[1].startswith("trunc") or s[1] in ("zext", "sext")):
        return bits(p, s[2], b, ev)
    return None


def register(c):
    pr = prog()
    IN, OUT, ERR, ET = (macro_sys(x) for x in ("EPOLLIN", "EPOLLOUT", "EPOLLERR", "EPOLLET"))
    want = {macro_sys("POLLIN"): IN, macro_sys("POLLOUT"): OUT, macro_sys("POLLERR"): ERR}
    c.need(all(a == b for a, b in want.items()), "poll and epoll bits agree on this platform")
    more = [macro_sys(x) for x in ("EPOLLONESHOT", "EPOLLEXCLUSIVE", "EPOLLPRI", "EPOLLRDHUP")]
    eo, do = pr.off("epoll_event", "events"), pr.off("epoll_event", "data")
    se = pr.off("_HevTask", "sched_entity")
    ro, fo = pr.off("_HevTaskSystemContext", "reactor"), pr.off("_HevTaskIOReactor", "fd")
    for f, op in (("hev_task_add_fd", "EPOLL_CTL_ADD"), ("hev_task_mod_fd", "EPOLL_CTL_MOD"),
                  ("hev_task_del_fd", "EPOLL_CTL_DEL")):
        task, fd = argn(pr, f, 0), argn(pr, f, 1)
        n = 0
        for p in rets(c.paths(f, inline={f})):
            w = where_of(p)
            ct = p.calls("epoll_ctl")
            n += len(ct)
            c.ob("watch-once", len(ct) == 1, w, "the descriptor is not registered exactly once", p)
            if len(ct) != 1:
                continue
            e = ct[0]
            a = loaded_from(e.args[0])
            r = loaded_from(a.plus(-fo)) if a is not None else None
            k = r.plus(-ro) if r is not None else None
            c.ob("watch-own-reactor", k is not None and is_ctx(p, k), e, "the registration is not made with the "
                 "calling thread's reactor", p)
            c.ob("watch-operation", e.args[1] == C(macro_sys(op)) and eq(p, e.args[2], fd) is True, e,
                 "another operation or descriptor is registered", p)
            good = eq(p, p.val, e.ret) is True
            if not good:
                x, y = holds(p, cmp("slt", p.val, ZERO)), holds(p, cmp("slt", e.ret, ZERO))
                good = x is not None and x == y
            c.ob("watch-result", good, w, "the result of the registration is not reported", p)
            if op == "EPOLL_CTL_DEL":
                continue
            ev = argn(pr, f, 2)
            v = val_at(p, e.args[3].plus(eo), e.n)
            d = val_at(p, e.args[3].plus(do), e.n)
            c.ob("watch-task", d is not None and d == task.plus(se), e, "events of the descriptor do not wake the "
                 "given task", p)
            if v is None:
                c.ob("watch-events", False, e, "the events registered are not set", p)
                continue
            for b in sorted(want.values()):
                x = bits(p, v, b, ev)
                r = eq(p, S(("op", "and", ev, C(b))), ZERO)
                ok = x == "req" or r is not None and x is (not r)
                c.ob("watch-events", ok, e, "the %s interest registered is not the one requested" % {
                    IN: "read", OUT: "write", ERR: "error"}[b], p)
            c.ob("watch-edge", bits(p, v, ET, ev) is True, e, "the registration is not edge-triggered", p)
            for b in more:
                c.ob("watch-events", bits(p, v, b, ev) in (False, "req"), e, "events are registered that were not "
                     "requested", p)
        c.does(n, f + " registers")
    # the registered entity leads back to the task
    f = "hev_task_new"
    n = 0
    to = pr.off("_HevTask", "sched_entity") + pr.off("_HevTaskSchedEntity", "task")
    for p in rets(c.paths(f)):
        if zero(p, p.val):
            continue
        n += 1
        v = lastval(p, p.val.plus(to))
        c.ob("watch-task", v is not None and eq(p, v, p.val) is True, where_of(p), "a new task cannot be woken by its "
             "descriptors", p)
    c.does(n, "tasks are made")


def is_ctx(p, k):
    """the context of the calling thread"""
    s = k.sym()
    return bool(s) and s[0] == "load" and s[1].sym() is not None and s[1].sym()[0] == "tls"


def io_poll(c):
    pr = prog()
    f = "hev_task_io_poll"
    fds, nfds, tmo = (argn(pr, f, i) for i in range(3))
    psz, po, pe = pr.sizeof("pollfd"), pr.off("pollfd", "fd"), pr.off("pollfd", "events")
    REG = ("hev_task_mod_fd", "hev_task_add_fd")
    ps = c.paths(f, opaque=set(REG) | {"hev_task_del_fd"})
    ivs = induction(ps)

    def answer(p, e):
        return e.k == "call" and e.name == "poll" and list(e.args[:2]) == [fds, nfds] and zero(p, e.args[2])

    def susp(e):
        return e.k == "call" and e.name in ("hev_task_yield", "hev_task_sleep", "hev_task_usleep")

    # values that may be returned: 'poll' a fresh answer, 'none' the initial zero
    klass = {}

    def cls(p, v):
        v = Analyzer.asL(v)
        s = v.sym()
        if s in klass:
            return set(klass[s])
        if v == ZERO:
            return {"none"}
        for e in p.events:
            if answer(p, e) and eq(p, v, e.ret) is True:
                return {"stale"} if any(susp(x) and x.n > e.n for x in p.events) else {"poll"}
        return {"other"}
    for _ in range(4):
        new = {}
        for p in backs(ps):
            fn, blk, init, latch, ev0 = p.val
            sus = [e for e in p.events[ev0:] if susp(e)]
            for s, v in latch.items():
                k = new.setdefault(s, set())
                k |= cls(p, init[s])
                if Analyzer.asL(v) == S(s):
                    if sus:
                        k.add("stale")
                    continue
                k |= cls(p, v)
        klass = new
    nwait = nreg = 0
    # loops that watch descriptors
    watch = {p.val[:2] for p in backs(ps)
             if any(e.k == "call" and e.name in REG for e in p.events[p.val[4]:])}
    for p in ps:
        w = where_of(p)
        if p.end == "backedge" and p.val[:2] in watch and \
                not any(e.k == "call" and e.name in REG for e in p.events[p.val[4]:]):
            neg = any(known(p, cmp("slt", e.val, ZERO)) for e in p.events[p.val[4]:]
                      if e.k == "read" and Analyzer.root(e.addr) == Analyzer.root(fds))
            over = any(nonzero(p, S(x)) for x in klass if klass[x] <= {"poll", "none"})
            c.ob("poll-watch", neg or over, w, "a descriptor is passed over without being watched", p)
        for e in p.events:
            if not susp(e):
                continue
            nwait += 1
            res = [x for x in klass if klass[x] <= {"poll", "none"} and
                   any(l.k == "loop" and x in l.x[1] and l.n < e.n for l in p.events)]
            pol = [x for x in p.events if answer(p, x) and x.n < e.n and
                   not any(susp(y) and x.n < y.n < e.n for y in p.events)]
            ok = any(zero(p, S(x)) for x in res) or bool(pol) and zero(p, pol[-1].ret)
            c.ob("poll-suspend", ok, e, "suspends although a descriptor may be ready", p)
            if e.name == "hev_task_yield":
                c.ob("poll-suspend", known(p, cmp("slt", tmo, ZERO)) and e.args[0] == WAITIO, e,
                     "waits without limit although a time-out was given", p)
            else:
                a = e.args[0]
                s = a.sym()
                ok = known(p, cmp("sgt", tmo, ZERO)) and known(p, cmp("sgt", a, ZERO)) and e.name == "hev_task_sleep"
                if s and s[0] == "phi":
                    for q in backs(ps):
                        if s in q.val[3]:
                            sl = [x for x in q.events[q.val[4]:] if x.k == "call" and x.name == "hev_task_sleep"]
                            lv = Analyzer.asL(q.val[3][s])
                            ok = ok and q.val[2][s] == tmo and (eq(q, lv, sl[-1].ret) is True if sl else lv == S(s))
                else:
                    ok = ok and (a == tmo and not any(x.k == "loop" and susp(y) for x in p.events
                                                      for y in p.events if y.n < e.n))
                    ok = ok and not (p.end == "backedge" and any(x is e for x in p.events[p.val[4]:]))
                c.ob("poll-suspend", ok, e, "does not wait for the rest of the time-out", p)
        if p.end == "backedge":
            fn, blk, init, latch, ev0 = p.val
            l = loop_of(p, ev0)
            reg = [e for e in p.events[ev0:] if e.k == "call" and e.name in REG]
            if reg and l is not None:
                nreg += 1
                ok = True
                for e in reg:
                    i1 = in_iterations(loaded_from(e.args[1]) or ZERO, l, ivs)
                    i2 = in_iterations(loaded_from(e.args[2]) or ZERO, l, ivs) if loaded_from(e.args[2]) is not None \
                        else None
                    base = fds.add(KSYM.scale(psz))
                    good = e.args[0] == SELF and i1 == base.plus(po) and i2 == base.plus(pe)
                    c.ob("poll-watch", good, e, "a descriptor is not watched for the events asked for, by the calling "
                         "task, one after the other", p)
                done = [e for e in reg if holds(p, cmp("slt", e.ret, ZERO)) is False]
                if not done:
                    sure = all(holds(p, cmp("slt", e.ret, ZERO)) is True for e in reg)
                    add = any(e.name == "hev_task_add_fd" for e in reg)
                    pol = [e for e in p.events if answer(p, e) and e.n > reg[-1].n]
                    c.ob("poll-watch", sure and add and bool(pol), reg[-1], "a descriptor that cannot be watched is "
                         "waited for", p)
                    if pol:
                        keep = any(eq(p, Analyzer.asL(v), pol[-1].ret) is True for v in latch.values())
                        c.ob("poll-watch", keep, pol[-1], "the answer for a descriptor that cannot be watched is "
                             "dropped", p)
                cnt = counters(l, ivs)
                c.ob("poll-watch", any(known(p, cmp("ult", k, nfds)) or known(p, cmp("slt", k, nfds)) for k in cnt),
                     w, "descriptors beyond the given ones are watched", p)
        if p.end == "backedge":
            ys = [e for e in body(p) if susp(e)]
            c.ob("poll-result", not ys or any(answer(p, e) for e in body(p)), ys[-1] if ys else w,
                 "waits again without asking the kernel", p)
        # all descriptors are watched before the first suspension
        s1 = [e for e in p.events if susp(e)]
        if s1:
            ls = [e for e in p.events if e.k == "loop" and e.n < s1[0].n]
            ok = False
            for l in ls:
                for k in counters(l, ivs):
                    if known(p, cmp("uge", k, nfds)) or eq(p, k, nfds) is True:
                        ok = True
            # a loop entered only with no answer yet is not entered with one
            for l in ls:
                for s, v in l.x[1].items():
                    if zero(p, S(s)) and nonzero(p, Analyzer.asL(v)) and \
                            all(zero(q, S(s)) for q in backs(ps) if s in q.val[3]):
                        ok = True
            c.ob("poll-watch", ok, s1[0], "suspends before all descriptors are watched", p)
        if p.end == "ret":
            k = cls(p, p.val)
            ok = k <= {"poll", "none"}
            c.ob("poll-result", ok, w, "does not return a fresh answer of the kernel", p)
            if "none" in k and ok:
                fresh = nonzero(p, p.val) or not_first(p)
                c.ob("poll-result", fresh, w, "returns without asking the kernel", p)
            if nonzero(p, p.val):
                continue
            late = zero(p, tmo) or known(p, cmp("sgt", tmo, ZERO)) and any(
                known(p, cmp("sle", S(s), ZERO)) for l in p.events if l.k == "loop" for s in l.x[1]
                if l.x[1][s] == tmo)
            late = late or known(p, cmp("sgt", tmo, ZERO)) and any(
                zero(p, e.ret) or known(p, cmp("sle", e.ret, ZERO)) for e in p.events
                if e.k == "call" and e.name == "hev_task_sleep")
            c.ob("poll-result", late, w, "may report a time-out before the time is over", p)
            if zero(p, tmo):
                c.ob("poll-suspend", not s1, w, "suspends although asked not to wait", p)
    c.does(nwait >= 2 and nreg, "polling watches and waits")


def not_first(p):
    for l in p.events:
        if l.k == "loop":
            for s, v in l.x[1].items():
                v = Analyzer.asL(v)
                if eq(p, S(s), v) is False or known(p, cmp("sle", S(s), ZERO)) and known(p, cmp("sgt", v, ZERO)):
                    return True
    return False


def C30(c):
    register(c)
    io_poll(c)
