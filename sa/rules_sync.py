"""C08 mutex, C09 condition; also the waiter bookkeeping used by C06/C07."""
from .core import *

OP = {"hev_task_mutex_lock", "hev_task_mutex_unlock"}


def _is_alloca(v):
    s = v.sym() if isinstance(v, L) else None
    return s if s and s[0] == "alloca" else None


# ------------------------------------------------------------------ mutex
def nonzero_(p, v):
    return holds(p, cmp("ne", v, ZERO)) is True


def mutex(c, cfg="default"):
    pr = prog(cfg)
    M = "_HevTaskMutex"
    lk, wt = pr.off(M, "locker"), pr.off(M, "waiters")
    lks = pr.fsize(M, "locker")
    NT = pr.off("_HevTaskMutexNode", "task")
    NN = pr.off("_HevTaskMutexNode", "next")

    # init
    me = argn(pr, "hev_task_mutex_init", 0)
    for p in rets(c.paths("hev_task_mutex_init", cfg)):
        c.ob("mutex-init", eq(p, final(p, me.plus(lk)), ZERO) and eq(p, final(p, me.plus(wt)), ZERO),
             where_of(p), "initialised mutex is not free with an empty waiter list", p)

    # acquire
    def acquired(p, rule, f, me):
        yl = last_yield(p)
        st = [e for e in stores(p, addr=me.plus(lk), after=yl)]
        ok = bool(st) and holds(p, cmp("ne", st[-1].val, ZERO)) is True \
            and eq(p, st[0].old, ZERO) is True
        c.ob(rule, ok, where_of(p), "%s returns success without having observed the mutex free and "
             "taken it, with no suspension in between" % f, p)

    me = argn(pr, "hev_task_mutex_lock", 0)
    ps = c.paths("hev_task_mutex_lock", cfg)
    c.need(rets(ps), "hev_task_mutex_lock returns")
    waits = 0
    for p in ps:
        ys = [e for e in p.events if is_yield(e)]
        if ys:
            waits += 1
            first = ys[0]
            a = None
            for e in stores(p, addr=me.plus(wt), before=first.n):
                a = _is_alloca(e.val) or a
                old = e.old
            ok = a is not None
            if ok:
                A = S(a)
                ok = eq(p, val_at(p, A.plus(NT), first.n), SELF) is True \
                    and eq(p, val_at(p, A.plus(NN), first.n), old) is True
            c.ob("mutex-wait-registered", ok, first, "the caller suspends without being on the waiter "
                 "list together with all earlier waiters", p)
            rd = [e for e in reads(p, me.plus(lk)) if e.n < first.n]
            lp = [e.n for e in p.events if e.k == "loop" and e.n < first.n]
            ok = any(nonzero_(p, e.val) for e in rd) or bool(lp) and any(e.n > lp[-1] for e in rd)
            c.ob("mutex-wait-held", ok, first, "the caller waits for "
                 "an unlock although the mutex is not seen held", p)
            # an unsuccessful wake-up leaves the list and the lock alone
            seg = [e for e in shared_stores(p, after=first.n) if Analyzer.root(e.addr) == me.sym()]
            if p.end == "backedge":
                c.ob("mutex-stay-queued", not seg, seg[0] if seg else first,
                     "a waiter that does not get the lock changes the mutex", p)
        if p.end == "ret":
            c.ob("mutex-result", eq(p, p.val, ZERO) is True, where_of(p), "lock does not return 0", p)
            acquired(p, "mutex-observed-free", "lock", me)
            # the wait may lie in a loop that is left at its head
            ys = ys or [e for e in p.events if e.k == "loop"]
            if ys:
                mutex_unlinked(c, p, me, wt, NN, ys, "mutex-leave-queue")
    c.does(waits, "lock waits for the holder")

    me = argn(pr, "hev_task_mutex_trylock", 0)
    ps = rets(c.paths("hev_task_mutex_trylock", cfg))
    succ = 0
    for p in ps:
        c.ob("trylock-no-wait", not any(is_yield(e) for e in p.events), where_of(p),
             "trylock suspends", p)
        if eq(p, p.val, ZERO) is True:
            succ += 1
            acquired(p, "mutex-observed-free", "trylock", me)
            ss = [e for e in shared_stores(p) if e.addr != me.plus(lk)]
            c.ob("trylock-only-locks", not ss, ss[0] if ss else where_of(p), "trylock changes more than "
                 "the lock", p)
        else:
            ss = shared_stores(p)
            c.ob("trylock-fail-no-effect", not ss, ss[0] if ss else where_of(p),
                 "a failing trylock changes the mutex", p)
            rd = [e for e in reads(p, me.plus(lk)) if holds(p, cmp("ne", e.val, ZERO)) is True]
            c.ob("trylock-fail-only-if-held", bool(rd), where_of(p),
                 "trylock fails without having observed the mutex held", p)
    c.does(succ, "trylock can succeed")

    me = argn(pr, "hev_task_mutex_unlock", 0)
    ps = rets(c.paths("hev_task_mutex_unlock", cfg))
    woke = 0
    for p in ps:
        c.ob("unlock-frees", eq(p, final(p, me.plus(lk)), ZERO) is True, where_of(p),
             "unlock leaves the mutex held", p)
        c.ob("unlock-no-wait", not any(is_yield(e) for e in p.events), where_of(p), "unlock suspends", p)
        c.ob("unlock-result", eq(p, p.val, ZERO) is True, where_of(p), "unlock does not return 0", p)
        ss = [e for e in shared_stores(p) if e.addr != me.plus(lk)]
        c.ob("unlock-keeps-queue", not ss, ss[0] if ss else where_of(p),
             "unlock changes the waiter list that only waiters may leave", p)
        w = [e.val for e in reads(p, me.plus(wt))]
        if w and eq(p, w[0], ZERO) is True:
            continue
        wk = p.calls("hev_task_wakeup")
        # the waiter the lock loop admits is the one at the head of the list
        ok = bool(w) and any(loaded_from(e.args[0]) == w[0].plus(NT) for e in wk)
        woke += ok
        c.ob("unlock-wakes", ok, wk[0] if wk else where_of(p),
             "unlock with waiters queued does not wake the waiter that is allowed to take the lock", p)
    c.does(woke, "unlock wakes waiters")


def mutex_unlinked(c, p, me, wt, NN, ys, rule):
    """after the last suspension the own node, seen at the head, is taken off"""
    a = None
    for e in stores(p, addr=me.plus(wt), before=ys[0].n):
        a = _is_alloca(e.val) or a
    if a is None:
        return
    st = stores(p, addr=me.plus(wt), after=ys[-1].n)
    ok = bool(st) and eq(p, st[0].old, S(a)) is True and \
        (loaded_from(st[-1].val) == S(a).plus(NN))
    c.ob(rule, ok, st[0] if st else where_of(p), "the lock is taken but the caller's waiter node is not "
         "exactly removed from the list", p)


# ------------------------------------------------------------------ condition
def cond(c, cfg="default", parts=("wait", "signal", "timeout")):
    pr = prog(cfg)
    wt = pr.off("_HevTaskCond", "waiters")
    N = "_HevTaskCondNode"
    NP, NN, NT = pr.off(N, "prev"), pr.off(N, "next"), pr.off(N, "task")
    kw = dict(opaque=OP, havoc={"hev_task_mutex_lock"},
              links={("struct." + N, NP), ("struct." + N, NN)})

    me = argn(pr, "hev_task_cond_init", 0)
    if "wait" in parts:
        for p in rets(c.paths("hev_task_cond_init", cfg)):
            c.ob("cond-init", eq(p, final(p, me.plus(wt)), ZERO) is True, where_of(p),
                 "initialised condition has waiters", p)

    for f, timed in (("hev_task_cond_wait", False), ("hev_task_cond_timedwait", True)):
        me, mx = argn(pr, f, 0), argn(pr, f, 1)
        ps = c.paths(f, cfg, **kw)
        c.need(rets(ps), f + " returns")
        nsus = 0
        for p in ps:
            un = p.calls("hev_task_mutex_unlock")
            lo = p.calls("hev_task_mutex_lock")
            ys = [e for e in p.events if is_yield(e)]
            nsus += len(ys)
            A = None
            for e in stores(p, addr=me.plus(wt)):
                if un and e.n > un[0].n:
                    break
                if _is_alloca(e.val):
                    A, head = S(_is_alloca(e.val)), e.old
            if "wait" in parts:
                if un:
                    ok = A is not None
                    if ok:
                        n = un[0].n
                        ok = eq(p, val_at(p, A.plus(NT), n), SELF) is True and \
                            eq(p, val_at(p, A.plus(NN), n), head) is True and \
                            eq(p, val_at(p, A.plus(NP), n), ZERO) is True and \
                            (eq(p, head, ZERO) is True or
                             eq(p, val_at(p, head.plus(NP), n), A) is True)
                    c.ob("cond-registered-before-unlock", ok, un[0], "the mutex is released before the "
                         "caller is properly on the waiter list", p)
                for y in ys:
                    ok = len([e for e in un if e.n < y.n]) == 1 and not [e for e in lo if e.n < y.n] \
                        and un[0].args[0] == mx
                    c.ob("cond-unlocked-while-waiting", ok, y, "the caller suspends without having "
                         "released the mutex exactly once", p)
                if p.end == "ret":
                    ok = len(un) == 1 and len(lo) == 1 and lo[0].n > un[0].n and lo[0].args[0] == mx \
                        and un[0].args[0] == mx and not [y for y in ys if y.n > lo[0].n]
                    c.ob("cond-relocked", ok, where_of(p), "returns without the mutex released and taken "
                         "again exactly once", p)
            if p.end == "backedge" and timed and "wait" in parts and A is not None:
                # waits on only while time is left and no signal has come
                sl = [e for e in body(p) if e.k == "call" and e.name in ("hev_task_sleep", "hev_task_usleep")]
                left = [S(s) for s in p.val[2]] + list(p.val[3].values()) + \
                    [Analyzer.asL(e.ret) for e in sl if e.ret is not None]
                told = [e for e in body(p) if e.k == "read" and e.addr == A.plus(NT)]
                ok = any(holds(p, cmp("ne", x, ZERO)) is True for x in left) and \
                    any(holds(p, cmp("ne", e.val, ZERO)) is True for e in told)
                c.ob("cond-waits-on", ok or not sl, where_of(p), "goes on waiting although the time is over or the "
                     "signal has come", p)
            if p.end != "ret" or A is None:
                continue
            good = eq(p, p.val, ZERO)
            if good is None:
                c.ob("cond-result", False, where_of(p), "result is not a constant success or failure", p)
                continue
            # what was last observed of the own node
            obs_from = max([e.n for e in p.events if is_yield(e)] or [0])
            if good and "wait" in parts:
                rd = [e for e in reads(p, A.plus(NT), after=obs_from) if eq(p, e.val, ZERO) is True]
                c.ob("cond-success-only-if-signalled", bool(rd), where_of(p),
                     "reports success without having seen its own signal after the last wake-up", p)
            if not good and "wait" in parts:
                y = max([e.n for e in p.events if is_yield(e) or e.k == "call" and e.name in OP] or [0])
                rd = [e for e in reads(p, A.plus(NT), after=y) if holds(p, cmp("ne", e.val, ZERO)) is True]
                c.ob("cond-failure-only-if-not-signalled", timed and bool(rd), where_of(p),
                     "reports a time-out although a signal may have been delivered to this waiter", p)
            if not good and timed and "wait" in parts:
                # given up only when the time is over: a spurious wake-up does not count
                ms = argn(pr, f, 2)
                sl = [e for e in p.events if e.k == "call" and e.name in ("hev_task_sleep", "hev_task_usleep")]
                told = [e for e in reads(p, A.plus(NT)) if eq(p, e.val, ZERO) is True]
                over = [ms] + [S(s) for e in p.events if e.k == "loop" for s in e.x[1]]
                over = [Analyzer.asL(sl[-1].ret)] if sl and sl[-1].ret is not None else over
                c.ob("cond-waits-time", bool(told) or any(eq(p, x, ZERO) is True for x in over), where_of(p),
                     "reports a time-out before the time is over", p)
            if not good and "timeout" in parts:
                cond_unlink(c, p, me, wt, A, NP, NN, "cond-timeout-unlink")
        c.does(nsus, f + " suspends")

    if "signal" not in parts:
        return
    me = argn(pr, "hev_task_cond_signal", 0)
    hit = 0
    for p in rets(c.paths("hev_task_cond_signal", cfg)):
        c.ob("cond-signal-result", eq(p, p.val, ZERO) is True, where_of(p), "signal does not return 0", p)
        wk = p.calls("hev_task_wakeup")
        w = [e.val for e in reads(p, me.plus(wt))]
        c.does(w, "signal looks at the waiters")
        W = w[0]
        if eq(p, W, ZERO) is True:
            ss = shared_stores(p)
            c.ob("cond-signal-none", not ss and not wk, where_of(p), "signal without waiters has effects", p)
            continue
        hit += 1
        signal_one(c, p, p.events, W, me, wt, NP, NN, NT, "cond-signal-one", where_of(p), True)
    c.does(hit, "signal finds a waiter")

    me = argn(pr, "hev_task_cond_broadcast", 0)
    ps = c.paths("hev_task_cond_broadcast", cfg)
    nb = 0
    for p in ps:
        if p.end == "backedge":
            nb += 1
            evs = body(p)
            wk = [e for e in evs if e.k == "call" and e.name == "hev_task_wakeup"]
            if not wk:
                c.ob("cond-broadcast-each", False, where_of(p), "a waiter is skipped", p)
                continue
            tgt = loaded_from(wk[0].args[0])
            W = tgt.plus(-NT) if tgt is not None else ZERO
            s = W.sym()
            if s and s[0] == "phi":
                fn, blk, init, latch, _ = p.val
                ok = len(wk) == 1 and eq(p, val_at(p, W.plus(NT), 1 << 60), ZERO) is True and \
                    s in latch and loaded_from(latch[s]) == W.plus(NN) and \
                    (is_load(init[s], me.plus(wt)) is not None)
                c.ob("cond-broadcast-each", ok, wk[0], "a broadcast step does not wake and detach its "
                     "waiter and go on with the next", p)
            else:
                ok = is_load(W, me.plus(wt)) is not None
                c.ob("cond-broadcast-each", ok, wk[0], "a broadcast step does not wake the waiter at the "
                     "head of the list", p)
                signal_one(c, p, evs, W, me, wt, NP, NN, NT, "cond-broadcast-each", wk[0], False)
        if p.end == "ret":
            # leaves only when the list is empty
            fin = final(p, me.plus(wt))
            ok = eq(p, fin, ZERO) is True
            c.ob("cond-broadcast-all", ok, where_of(p), "broadcast returns with waiters left on the list", p)
            c.ob("cond-signal-result", eq(p, p.val, ZERO) is True, where_of(p),
                 "broadcast does not return 0", p)
            # a waiter woken outside a widened loop body is as good
    c.does(nb, "broadcast loops over the waiters")


def signal_one(c, p, evs, W, me, wt, NP, NN, NT, rule, where, needprev):
    wk = [e for e in evs if e.k == "call" and e.name == "hev_task_wakeup"]
    n0 = evs[0].n if evs else 0
    ok = len(wk) == 1 and loaded_from(wk[0].args[0]) == W.plus(NT)
    c.ob(rule, ok, wk[0] if wk else where, "does not wake exactly the waiter it takes off the list", p)
    ok = eq(p, val_at(p, W.plus(NT), 1 << 60, n0 - 1), ZERO) is True
    c.ob(rule, ok, where, "the woken waiter is not marked as signalled", p)
    st = [e for e in stores(p, addr=me.plus(wt)) if e.n >= n0]
    ok = bool(st) and loaded_from(st[-1].val) == W.plus(NN) and len(st) == 1
    c.ob(rule, ok, st[0] if st else where, "the list does not continue with exactly the next waiter", p)
    if ok and needprev:
        nx = st[-1].val
        ok = eq(p, nx, ZERO) is True or eq(p, val_at(p, nx.plus(NP), 1 << 60), ZERO) is True
        c.ob(rule, ok, st[0], "the new first waiter still points back to the removed one", p)


def cond_unlink(c, p, me, wt, A, NP, NN, rule):
    y = max([e.n for e in p.events if is_yield(e) or e.k == "call" and e.name in OP] or [0])

    def rd(a):
        r = reads(p, a, after=y)
        return r[0].val if r else None
    P, N = rd(A.plus(NP)), rd(A.plus(NN))
    w = where_of(p)
    c.ob(rule, N is not None, w, "a timed-out waiter does not look at its neighbours", p)
    if N is None:
        return
    h = [e.val for e in reads(p, me.plus(wt), after=y)]
    front = bool(h) and eq(p, h[0], A) is True
    c.ob(rule, P is not None or front, w, "a timed-out waiter that may not be the first one does not look at the "
         "previous one, which still refers to it", p)
    if P is not None:
        for e in stores(p, addr=P.plus(NN), after=y):
            c.ob(rule, eq(p, P, ZERO) is False or bool(h) and eq(p, h[0], A) is False, e,
                 "writes through the link to the previous waiter although there may be none", p)
    for e in stores(p, addr=N.plus(NP), after=y):
        c.ob(rule, eq(p, N, ZERO) is False, e, "writes through the link to the next waiter although there may be none", p)
    if P is not None and eq(p, P, ZERO) is not True and not front:
        ok = eq(p, val_at(p, P.plus(NN), 1 << 60, y), N) is True
        c.ob(rule, ok, w, "the previous waiter is not linked to the next one", p)
    if eq(p, N, ZERO) is not True:
        v = val_at(p, N.plus(NP), 1 << 60, y)
        ok = v is not None and P is not None and eq(p, v, P) is True
        c.ob(rule, ok, w, "the next waiter is not linked back to the previous one", p)
    for e in stores(p, addr=me.plus(wt)):
        if e.n > y:
            first = eq(p, e.old, A) is True or P is not None and eq(p, P, ZERO) is True
            c.ob(rule, first or eq(p, e.val, e.old) is True, e, "a timed-out waiter that may not be the first "
                 "one replaces the first waiter: waiters before it are lost", p)
    if P is None or eq(p, P, ZERO) is not False:
        if h and eq(p, h[0], A) is False:
            return
        ok = eq(p, val_at(p, me.plus(wt), 1 << 60, y), N) is True
        c.ob(rule, ok, w, "a timed-out first waiter does not make the next one first: waiters behind it "
             "are lost", p)


def C08(c):
    mutex(c)


def C09(c):
    cond(c)
