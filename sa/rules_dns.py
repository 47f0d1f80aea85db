"""C27 name lookups through the helper thread."""
from .core import *
from .core import absint
from .rules_io import WAITIO
from .rules_itc import known, nonzero, zero
from .rules_own import last_stores
from .rules_stack import Terms

ERRNO = absint.ERRNO
LOCK, UNLOCK = "hev_task_mutex_lock", "hev_task_mutex_unlock"
PROXY = "_HevTaskDNSProxy"
OP = {LOCK, UNLOCK, "hev_task_dns_proxy_new"}
EAGAIN = 11


def both(t):
    return [t, S(("op", "trunc32", t)), L(0, ((("op", "trunc32", t), 1),), None, 32)]


def is_(p, pred, t, k):
    return any(known(p, cmp(pred, x, C(k))) for x in both(t))


def tried_again(p, e):
    """the transfer e found the channel not ready"""
    er = [r for r in p.events if r.k == "read" and r.addr == ERRNO and r.n > e.n]
    return is_(p, "slt", e.ret, 0) and bool(er) and eq(p, er[0].val, C(EAGAIN)) is True


def done(p, e):
    """the transfer e is known to be over (made, or failed for good)"""
    er = [r for r in p.events if r.k == "read" and r.addr == ERRNO and r.n > e.n]
    return is_(p, "sge", e.ret, 0) or bool(er) and eq(p, er[0].val, C(EAGAIN)) is False


def off(pr, *path):
    s, o = PROXY, 0
    for f in path:
        o += pr.off(s, f)
        s = {"work": "_HevTaskAideWork", "sched_entity": "_HevTaskSchedEntity"}.get(f)
    return o


def make(c, cfg="default"):
    """the proxy a thread makes: both ends of a private channel, each watched by its own side. -> handler"""
    pr = prog(cfg)
    f = "hev_task_dns_proxy_new"
    hs = set()
    op = {"hev_task_aide_init", "hev_task_aide_add", "hev_task_io_socket_socketpair",
          "hev_task_io_reactor_setup_event_gen", "hev_task_io_reactor_setup"}
    for p in rets(c.paths(f, cfg, opaque=op)):
        w = where_of(p)
        ai, ad = p.calls("hev_task_aide_init"), p.calls("hev_task_aide_add")
        c.ob("proxy-helper", len(ai) == 1 and all(ai[0].n < e.n for e in ad), w, "the helper is used before it is "
             "running", p)
        if zero(p, p.val):
            continue
        me = p.val
        sp = p.calls("hev_task_io_socket_socketpair")
        ok = len(sp) == 1 and known(p, cmp("sge", sp[0].ret, ZERO)) and len(ad) == 1 and \
            known(p, cmp("sge", ad[0].ret, ZERO)) and known(p, cmp("sge", ai[0].ret, ZERO))
        c.ob("proxy-made", ok, w, "a proxy is made although a part of it is missing", p)
        if not ok:
            continue
        a = sp[0].args[3]
        rd = {0: [], 4: []}
        for e in p.events:
            if e.k == "read" and e.addr.sub(a).isconst() and e.addr.sub(a).c in rd:
                rd[e.addr.sub(a).c].append(e.val)

        def end(t):
            for o, vs in rd.items():
                if any(eq(p, t, v) is True for v in vs):
                    return o
            return None
        ls = {x.sub(me).c: e for x, e in last_stores(p).items() if x.sub(me).isconst()}
        mine, its = ls.get(off(pr, "fd")), ls.get(off(pr, "work", "fd"))
        ok = mine is not None and its is not None and {end(mine.val), end(its.val)} == {0, 4}
        c.ob("proxy-ends", ok, w, "the two sides do not use the two ends of one channel", p)
        sg, st = p.calls("hev_task_io_reactor_setup_event_gen"), p.calls("hev_task_io_reactor_setup")
        ok = ok and len(sg) == 1 and eq(p, sg[0].args[1], mine.val) is True and \
            eq(p, sg[0].args[4], me.plus(off(pr, "sched_entity"))) is True and sg[0].args[3].isconst() and \
            sg[0].args[3].c & 5 == 5 and len(st) == 1 and st[0].args[1] == sg[0].args[0] and \
            eq(p, st[0].args[2], sg[0].ret) is True and known(p, cmp("sge", st[0].ret, ZERO)) and \
            loaded_from(st[0].args[0]) is not None and \
            thread_field(loaded_from(st[0].args[0]), pr.off("_HevTaskSystemContext", "reactor"))
        c.ob("proxy-ends", ok, sg[0] if sg else w, "the caller's end is not watched for answer and room by the "
             "caller's thread", p)
        h, d, ev = (ls.get(off(pr, "work", x)) for x in ("handler", "data", "events"))
        ok = h is not None and d is not None and ev is not None and eq(p, d.val, me) is True and ev.val.isconst() and \
            ev.val.c & 1 == 1 and all(e.n < ad[0].n for e in (h, d, ev, its)) and \
            eq(p, ad[0].args[0], me.plus(off(pr, "work"))) is True
        s = h.val.sym() if h is not None and isinstance(h.val, L) else None
        c.ob("proxy-work", ok and s is not None and s[0] == "fn", w, "the helper is not told completely whom to serve "
             "before it starts to", p)
        if s and s[0] == "fn":
            hs.add(s[1])
    c.need(len(hs) == 1, "the helper's handler")
    f = "hev_task_dns_proxy_destroy"
    me = argn(pr, f, 0)
    for p in rets(c.paths(f, cfg, opaque={"hev_task_aide_del"})):
        dl = p.calls("hev_task_aide_del")
        ok = len(dl) == 1 and eq(p, dl[0].args[0], me.plus(off(pr, "work"))) is True and \
            all(dl[0].n < e.n for e in p.calls("close", "hev_free"))
        c.ob("proxy-end", ok, where_of(p), "the proxy is taken apart while the helper may use it", p)
    return hs.pop()


def server(c, h):
    """-> [(lookup, argument offsets, result offset, errno offset, path, what of the request it looked at before)]"""
    pr = prog()
    data = argn(pr, h, 1)
    out = []
    ps = c.paths(h)
    wfd, co = data.plus(off(pr, "work", "fd")), data.plus(off(pr, "call"))
    for p in ps:
        lk = p.calls("getaddrinfo", "getnameinfo")
        rd, wr = p.calls("read"), p.calls("write")
        for e in rd + wr:
            c.ob("helper-channel", loaded_from(e.args[0]) == wfd and eq(p, e.args[2], C(1)) is True, e,
                 "the helper does not use its end of the channel one token at a time", p)
        got = [e for e in rd if is_(p, "sgt", e.ret, 0)]
        waits_ready(c, p, lambda v: loaded_from(v) == wfd, 4)
        if p.end == "backedge":
            it = [e for e in body(p) if e in rd and is_(p, "sle", e.ret, 0)]
            er = [r.val for r in body(p) if r.k == "read" and r.addr == ERRNO]
            c.ob("helper-serves", not it or any(eq(p, v, C(4)) is True for v in er), it[0] if it else where_of(p),
                 "the helper asks for requests for ever although there are none", p)
        c.ob("helper-asked", len(lk) <= len(got) and all(any(g.n < e.n for g in got) for e in lk), lk[0] if lk else
             where_of(p), "the helper looks up without having been asked", p)
        if not lk:
            c.ob("helper-asked", not wr or bool(got), wr[0] if wr else where_of(p), "the helper answers without having "
                 "been asked", p)
            if got:
                out.append((None, (), None, None, p, [(x.addr, x.val) for x in p.events if x.k == "read" and
                                                      loaded_from(S(Analyzer.root(x.addr))) == co]))
            continue
        c.ob("helper-asked", len(lk) == 1, lk[-1], "one request is looked up more than once", p)
        e = lk[0]
        R = None
        offs = []
        for a in e.args:
            f = loaded_from(strip_(a))
            r = Analyzer.root(f) if f is not None else None
            if r is None or r[0] != "load" or r[1] != co:
                offs = None
                break
            R = S(r)
            offs.append(f.sub(R).c)
        c.ob("helper-arguments", offs is not None, e, "the lookup's arguments are not those of the request", p)
        if offs is None:
            continue
        c.ob("helper-arguments", stamp_of(R) > got[-1].n, e, "the request is looked at before it was handed over", p)
        sto = [x for x in p.events if x.k == "store" and Analyzer.root(x.addr) == R.sym()]
        ro = [x.addr.sub(R).c for x in sto if x.n > e.n and eq(p, x.val, e.ret) is True]
        er = [x for x in p.events if x.k == "read" and x.addr == ERRNO and x.n > e.n and
              not [y for y in p.events if y.k in ("call", "icall") and e.n < y.n < x.n]]
        eo = [x.addr.sub(R).c for x in sto if er and eq(p, x.val, er[0].val) is True and x.n > e.n]
        c.ob("helper-result", len(set(ro)) == 1 and len(set(eo)) == 1 and len(sto) == len(ro) + len(eo), e,
             "result and error of the lookup are not put into the request", p)
        if len(set(ro)) != 1 or len(set(eo)) != 1:
            continue
        first = min([x.n for x in wr if x.n > e.n] or [1 << 60])
        late = [x for x in p.events if x.k in ("read", "store", "memcpy") and x.n > first and isinstance(x.addr, L) and
                (Analyzer.root(x.addr) == R.sym() or x.addr == co)]
        c.ob("helper-gives-back", not late, late[0] if late else e, "the request is touched after the answer was "
             "sent", p)
        early = [x for x in wr if got[-1].n < x.n < e.n]
        c.ob("helper-gives-back", not early, early[0] if early else e, "the answer is sent before the lookup", p)
        last = [x for x in sto if x.n > first]
        c.ob("helper-gives-back", not last, last[0] if last else e, "the answer is sent before the result is there", p)
        ky = [(x.addr, x.val) for x in p.events if x.k == "read" and Analyzer.root(x.addr) == R.sym() and x.n < e.n]
        # the answer is sent before the next request is looked at
        ev0 = p.val[4] if p.end == "backedge" else None
        inner = p.end == "backedge" and p.events[ev0].n > e.n if ev0 is not None and ev0 < len(p.events) else False
        if inner:
            x = [y for y in wr if y.n > p.events[ev0].n]
            c.ob("helper-answers", not x or tried_again(p, x[-1]), e, "an answer is sent more than once", p)
        else:
            x = [y for y in wr if y.n > e.n]
            c.ob("helper-answers", bool(x) and done(p, x[-1]), e, "a request is not answered", p)
        out.append((e.name, tuple(offs), ro[0], eo[0], p, ky))
    c.does({"getaddrinfo", "getnameinfo"} <= {x[0] for x in out}, "the helper looks up names and addresses")
    return out


def served(srv, vals):
    """what the helper may do with a request holding these constants"""
    r = []
    for name, offs, ro, eo, p, ky in srv:
        ok = True
        for a, v in ky:
            o = a.sub(S(Analyzer.root(a)))
            if o.isconst() and o.c in vals and known(p, cmp("ne", v, C(vals[o.c]))):
                ok = False
        if ok:
            r.append((name, offs, ro, eo))
    return r


def strip_(t):
    s = t.sym()
    while s and s[0] == "op" and s[1].startswith("trunc") and isinstance(s[2], L):
        t = s[2]
        s = t.sym()
    return t


def stamp_of(t):
    s = t.sym()
    return absint.stamp(s) if s else 0


def client(c, f, lookup, srv, nargs):
    pr = prog()
    args = [argn(pr, f, i) for i in range(nargs)]
    ctxo = pr.off("_HevTaskSystemContext", "dns_proxy")
    n = 0
    ps = c.paths(f, opaque=OP, havoc={LOCK})
    for p in ps:
        w = where_of(p)
        lo, un = p.calls(LOCK), p.calls(UNLOCK)
        wr, rd = p.calls("write"), p.calls("read")
        nw = p.calls("hev_task_dns_proxy_new")
        for e in p.calls("getaddrinfo", "getnameinfo"):
            c.ob("lookup-blocks", False, e, "the lookup is made on the caller's thread", p)
        if p.end == "ret" and not lo:
            er = [e for e in p.events if e.k == "store" and e.addr == ERRNO]
            ok = not wr and not rd and nonzero(p, p.val) and bool(er) and nonzero(p, er[-1].val) and \
                all(zero(p, e.ret) for e in nw) and bool(nw)
            c.ob("lookup-fails", ok, w, "a lookup that cannot be handed over does not fail with an error", p)
            continue
        if not lo:
            continue
        M = lo[0].args[0]
        P = M.plus(-off(pr, "mutex"))
        src = loaded_from(P)
        if nw:
            st = [e for e in p.events if e.k == "store" and e.n > nw[0].n and eq(p, e.val, nw[0].ret) is True]
            ok = len(nw) == 1 and eq(p, P, nw[0].ret) is True and nonzero(p, P) and \
                any(thread_field(e.addr, ctxo) for e in st)
        else:
            ok = src is not None and thread_field(src, ctxo) and nonzero(p, P)
        c.ob("lookup-proxy", ok, lo[0], "the lookup is not made through the thread's own proxy", p)
        # the hand-over
        if wr:
            x = wr[0]
            R = lastval_before(p, P.plus(off(pr, "call")), x.n)
            root = Analyzer.root(R) if R is not None else None
            ok = len(lo) == 1 and lo[0].n < x.n and not [e for e in un if e.n < x.n]
            c.ob("lookup-exclusive", ok, x, "a request is handed over without keeping other lookups away", p)
            ok = root is not None and root[0] == "alloca" and \
                [e for e in p.events if e.k == "store" and e.addr == P.plus(off(pr, "call")) and lo[0].n < e.n < x.n]
            c.ob("lookup-request", bool(ok), x, "the request handed over is not the caller's own", p)
            t = lastval_before(p, P.plus(off(pr, "sched_entity", "task")), x.n)
            ts = [e for e in p.events if e.k == "store" and e.addr == P.plus(off(pr, "sched_entity", "task")) and
                  lo[0].n < e.n < x.n]
            c.ob("lookup-wakes", t is not None and eq(p, t, SELF) is True and bool(ts), x, "the answer does not wake "
                 "the task that asks", p)
            if root is not None and root[0] == "alloca":
                vals = {}
                for y in p.events:
                    if y.k == "store" and y.n < x.n and Analyzer.root(y.addr) == root and y.addr.sub(R).isconst():
                        vals[y.addr.sub(R).c] = y.val
                vals = {o: v.c for o, v in vals.items() if isinstance(v, L) and v.isconst()}
                sv = set(served(srv, vals))
                ok = {y[0] for y in sv} == {lookup} and len(sv) == 1
                c.ob("lookup-arguments", ok, x, "the helper does not do this kind of lookup for the request", p)
                if not ok:
                    continue
                _, offs, ro, eo = sv.pop()
                for k, o in enumerate(offs):
                    v = lastval_before(p, R.plus(o), x.n)
                    c.ob("lookup-arguments", v is not None and eq(p, v, args[k]) is True, x, "argument %d of the "
                         "lookup is not handed over" % (k + 1), p)
                for o, what in ((ro, "result"), (eo, "error")):
                    v = lastval_before(p, R.plus(o), x.n)
                    c.ob("lookup-fails", v is not None and nonzero(p, v), x, "a lookup that is not answered has a "
                         "made-up %s" % what, p)
            for e in wr + rd:
                c.ob("lookup-channel", loaded_from(e.args[0]) == P.plus(off(pr, "fd")) and
                     eq(p, e.args[2], C(1)) is True, e, "the caller does not use its end of the channel one token at a "
                     "time", p)
        for y in p.events:
            if is_yield(y) and y.k == "call" and y.name != LOCK:
                c.ob("lookup-suspends", y.name == "hev_task_yield" and y.args[0] == WAITIO, y, "a waiting lookup does "
                     "not suspend until its channel is ready", p)
        if p.end == "backedge":
            it = p.events[p.val[4]:]
            x = [e for e in it if e.k == "call" and e.name in ("read", "write")]
            if not x:
                continue
            ok = tried_again(p, x[-1]) and all(tried_again(p, e) for e in x) and \
                any(is_yield(e) and e.n > x[-1].n for e in it)
            c.ob("lookup-waits", ok, x[-1], "a token is transferred again although it was transferred, or without "
                 "suspending", p)
            continue
        if p.end != "ret":
            continue
        n += 1
        c.ob("lookup-exclusive", len(lo) == 1 and len(un) == 1 and un[0].args[0] == M and
             all(e.n < un[0].n for e in wr + rd), w, "the next lookup is not let in exactly once, when this one is "
             "over", p)
        if not wr or root is None:
            c.ob("lookup-request", bool(wr), w, "the request is not handed over", p)
            continue
        sent = not is_(p, "sle", wr[-1].ret, 0) and not is_(p, "slt", wr[-1].ret, 0)
        if sent:
            ok = bool(rd) and rd[-1].n > wr[-1].n and done(p, rd[-1])
            c.ob("lookup-waits", ok, w, "returns before the answer has arrived", p)
        elif not is_(p, "sge", wr[-1].ret, 0):
            c.ob("lookup-waits", done(p, wr[-1]), w, "gives up although the request could be handed over later", p)
        lastio = max(e.n for e in wr + rd)
        f1 = loaded_from(strip_(p.val))
        ok = f1 is not None and f1 == R.plus(ro) and stamp_of(strip_(p.val)) > lastio or \
            not sent and nonzero(p, p.val)
        c.ob("lookup-result", ok, w, "the result returned is not the lookup's", p)
        er = [e for e in p.events if e.k == "store" and e.addr == ERRNO and e.n > lastio]
        f2 = loaded_from(strip_(er[-1].val)) if er else None
        ok = f2 is not None and f2 == R.plus(eo) and stamp_of(strip_(er[-1].val)) > lastio or \
            bool(er) and not sent and nonzero(p, er[-1].val)
        late = [e for e in p.events if er and e.k == "call" and e.n > er[-1].n and e.name not in ()]
        c.ob("lookup-result", ok and not late, w, "the error reported is not the lookup's", p)
        ts = [e for e in p.events if e.k == "store" and e.addr == P.plus(off(pr, "sched_entity", "task")) and
              e.n > lastio and e.n < un[0].n] if un else []
        ok = bool(ts) and eq(p, ts[-1].val, SELF) is not True and (Analyzer.root(ts[-1].val) or ("",))[0] == "glob"
        c.ob("lookup-wakes", ok, w, "the channel still wakes the task when the lookup is over", p)
    c.does(n, "%s returns" % f)


def thread_field(a, o):
    r = Analyzer.root(a)
    return r is not None and r[0] == "load" and (Analyzer.root(r[1]) or ("",))[0] == "tls" and a.sub(S(r)) == C(o)


def lastval_before(p, addr, n):
    v = None
    for e in p.events:
        if e.n >= n:
            break
        if e.k == "store" and e.addr == addr:
            v = e.val
    return v


# ------------------------------------------------------------------ the helper thread
def held(p, n, lockname="pthread_mutex_lock", unlockname="pthread_mutex_unlock"):
    """mutexes held at event n"""
    h = []
    for e in p.events:
        if e.n >= n:
            break
        if e.k == "call" and e.name == lockname:
            h.append(e.args[0])
        elif e.k == "call" and e.name == unlockname and e.args[0] in h:
            h.remove(e.args[0])
    return h


def aide(c):
    pr = prog()
    entries = set()
    # start: once, seen by whoever needs it
    f = "hev_task_aide_init"
    ps = c.paths(f)
    locks = None
    for p in ps:
        w = where_of(p)
        gs = [e for e in p.events if e.k in ("read", "store") and (Analyzer.root(e.addr) or ("",))[0] == "glob" and
              e.addr != ERRNO]
        for e in gs:
            h = set(held(p, e.n))
            locks = h if locks is None else locks & h
            c.ob("helper-start", bool(locks), e, "the helper's state is looked at without its lock", p)
        pc = p.calls("pthread_create")
        for e in pc:
            s = e.args[2].sym()
            if s and s[0] == "fn":
                entries.add(s[1])
            c.ob("helper-start", bool(held(p, e.n)), e, "the helper may be started twice", p)
        for e in p.calls("pthread_cond_wait"):
            c.ob("helper-start", e.args[1] in held(p, e.n) and p.end == "backedge", e, "the helper's start is not "
                 "waited for in a loop under its lock", p)
        if p.end == "ret":
            c.ob("helper-start", not held(p, 1 << 60), w, "the helper's lock is kept", p)
        if p.end == "backedge":
            c.ob("helper-start", any(e.k == "call" and e.name == "pthread_cond_wait" for e in body(p)), w, "the helper's "
                 "start is waited for without letting it in", p)
    c.does(entries, "the helper thread is started")
    if not entries:
        return
    c.need(len(entries) == 1, "the helper thread's function")
    ent = entries.pop()
    wait = "hev_task_io_reactor_wait"
    ps = c.paths(ent, opaque={"hev_task_io_reactor_new"})
    new = [(p, e) for p in ps for e in p.calls("hev_task_io_reactor_new")]
    c.does(new, "the helper has a reactor")
    if not new:
        return
    rg = {Analyzer.root(s.addr) for p, e in new for s in p.events if s.k == "store" and eq(p, s.val, e.ret) is True and
          (Analyzer.root(s.addr) or ("",))[0] == "glob"}
    c.ob("helper-start", len(rg) == 1, "(%s)" % Analyzer.src(ent), "the helper's reactor is not made known")
    if len(rg) != 1:
        return
    rg = rg.pop()
    flag = set()
    for p in ps:
        ss = [e for e in p.events if e.k == "store" and (Analyzer.root(e.addr) or ("",))[0] == "glob" and
              e.addr != ERRNO]
        for e in ss:
            c.ob("helper-start", bool(set(held(p, e.n)) & (locks or set())), e, "the helper's state is changed without "
                 "its lock", p)
            if Analyzer.root(e.addr) != rg and nonzero(p, e.val):
                flag.add(Analyzer.root(e.addr))
        sg = p.calls("pthread_cond_signal", "pthread_cond_broadcast")
        fl = [e for e in ss if Analyzer.root(e.addr) in flag]
        c.ob("helper-start", len(sg) >= 1 and bool(fl) and bool(held(p, fl[-1].n)) and
             all(e.n > fl[-1].n or set(held(p, e.n)) & (locks or set()) for e in sg), where_of(p), "whoever waits for "
             "the helper's start is not told", p)
    for p in rets(c.paths("hev_task_aide_init")):
        r = [e for e in p.events if e.k == "read" and Analyzer.root(e.addr) == rg]
        w = where_of(p)
        if not r:
            c.ob("helper-start", False, w, "whether the helper runs is not looked at", p)
            continue
        good = eq(p, p.val, ZERO) is True
        bad = known(p, cmp("slt", p.val, ZERO))
        ok = good and nonzero(p, r[-1].val) or bad and zero(p, r[-1].val)
        c.ob("helper-start", ok, w, "success is reported without a running helper, or failure with one", p)
        pc = p.calls("pthread_create")
        for e in p.calls("pthread_join"):
            c.ob("helper-start", zero(p, r[-1].val), e, "a helper that runs is waited for to end", p)
        if pc:
            c.ob("helper-start", zero(p, r[0].val) and r[0].n < pc[0].n, pc[0], "a second helper is started", p)
            ok = any(e.k == "store" and Analyzer.root(e.addr) in flag and zero(p, e.val) and e.n < pc[0].n
                     for e in p.events)
            c.ob("helper-start", ok, pc[0], "an earlier start may be taken for this one", p)
            if not nonzero(p, pc[0].ret):
                fr = [e for e in p.events if e.k == "read" and Analyzer.root(e.addr) in flag and e.n > pc[0].n]
                c.ob("helper-start", bool(fr) and nonzero(p, fr[-1].val) and fr[-1].n < r[-1].n, w, "the helper's "
                     "start is not waited for", p)
    serve(c, ent, rg, locks)


def waits_ready(c, p, fd, ev):
    """a wait without end is one for the channel to become ready"""
    for e in p.calls("poll"):
        if not known(p, cmp("slt", e.args[2], ZERO)):
            continue
        f, v = val_at(p, e.args[0], e.n), val_at(p, e.args[0].plus(4), e.n)
        ok = f is not None and fd(f) and v is not None and v.isconst() and v.c & ev == ev
        c.ob("helper-serves", ok, e, "the helper waits for something that may never come", p)


def subst(t, s, v):
    k = dict(t.t).get(s, 0)
    return t.sub(S(s).scale(k)).add(v.scale(k), 1) if k else t


def every(c, ps, p, e, s, A, A0, ev, cnt, step):
    """the loop handles entry after entry, from one end of those fetched to the other"""
    size = 12
    st = dict(A.t)[s] * step
    lo, hi = ev.plus(4), ev.plus(4).add(cnt.scale(size), 1)

    def cm(q, pred, a, b):
        d = a.sub(b)
        g = [k for _, k in d.t]
        if g and all(k % size == 0 for k in g) and d.c % size == 0:
            d = L(d.c // size, tuple((x, k // size) for x, k in d.t))
        pos, neg = [(x, k) for x, k in d.t if k > 0], [(x, -k) for x, k in d.t if k < 0]
        x, y = L(d.c, tuple(pos)), L(0, tuple(neg))
        return any(known(q, cmp(m, u, v)) for m in (pred, pred.replace("s", "u")) for u, v in ((a, b), (x, y)))
    if abs(st) != size:
        c.ob("helper-serves", False, e, "not every work that is ready is handled", p)
        return
    ok = A0 == lo if st > 0 else A0 == hi.plus(-size)
    c.ob("helper-serves", ok, e, "not every work that is ready is handled", p)
    ok = cm(p, "slt", A, hi) or cm(p, "sle", A, hi.plus(-size)) if st > 0 else cm(p, "sge", A, lo) or cm(p, "sgt", A, lo.plus(-size))
    c.ob("helper-serves", ok, e, "more works than were fetched are handled", p)
    for q in ps:
        l = [x for x in q.events if x.k == "loop" and s in x.x[1]]
        if not l:
            continue
        out = [x for x in q.calls("pthread_mutex_unlock") if x.n > l[-1].n]
        if not out and q.end != "ret":
            continue
        k = len([x for x in q.events if x.k == "icall" and x.n > l[-1].n])
        B = A.plus(k * st)
        ok = cm(q, "sge", B, hi) if st > 0 else cm(q, "slt", B, lo) or cm(q, "sle", B, lo.plus(-size))
        c.ob("helper-serves", ok, out[0] if out else where_of(q), "handling stops before every work that is ready "
             "was handled", q)


def serve(c, ent, rg, locks):
    """works are fetched and handled in one critical section; a work is taken out in one, too"""
    pr = prog()
    ps = c.paths(ent, opaque={"hev_task_io_reactor_new"})
    guards = None
    n = 0
    W = "_HevTaskAideWork"
    for p in ps:
        we = p.calls("epoll_wait", "kevent")
        ic = [e for e in p.events if e.k == "icall"]
        have = [e.val for e in p.events if e.k == "read" and Analyzer.root(e.addr) == rg] + \
            [e.ret for e in p.calls("hev_task_io_reactor_new")]
        if we:
            c.ob("helper-start", any(nonzero(p, v) for v in have), we[0], "the helper goes on without a reactor", p)
        if p.end == "ret":
            c.ob("helper-start", any(zero(p, v) for v in have), where_of(p), "the helper ends although it has a "
                 "reactor", p)
        waits_ready(c, p, lambda v: any(loaded_from(strip_(v)) == x.plus(pr.off("_HevTaskIOReactor", "fd")) for x in have),
                    1)
        for e in we:
            h = set(held(p, e.n))
            if h:
                c.ob("helper-serves", eq(p, e.args[3], ZERO) is True, e, "the helper waits for work while holding a "
                     "lock", p)
            else:
                c.ob("helper-serves", False, e, "work is fetched that may be taken out before it is handled", p)
            guards = h if guards is None else guards & h
        for e in p.calls("poll", "select", "pthread_cond_wait"):
            if e.n > (we[0].n if we else 0) or held(p, e.n):
                c.ob("helper-serves", not held(p, e.n), e, "the helper waits for work while holding a lock", p)
        for e in ic:
            n += 1
            h = set(held(p, e.n))
            f = [x for x in we if x.n < e.n]
            mid = [x for x in p.calls("pthread_mutex_unlock") if f and f[-1].n < x.n < e.n]
            ok = bool(f) and bool(h & set(held(p, f[-1].n))) and not [x for x in mid if x.args[0] in h]
            c.ob("helper-serves", ok, e, "a work may be taken out between being fetched and being handled", p)
            if not f:
                continue
            ev = f[-1].args[1]
            t = loaded_from(e.x)
            wk = t.plus(-pr.off(W, "handler")) if t is not None else None
            A = loaded_from(wk) if wk is not None else None
            ivs = induction(ps)
            s = next((s for s, _ in A.t if s in ivs), None) if A is not None else None
            A0 = subst(A, s, ivs[s][0]) if s is not None else A
            ok = A is not None and Analyzer.root(A0) == Analyzer.root(ev)
            dd = loaded_from(e.args[1]) if len(e.args) > 1 else None
            ok = ok and dd is not None and dd == wk.plus(pr.off(W, "data"))
            c.ob("helper-serves", ok, e, "what is run is not the handler of the work that is ready, with its data", p)
            if ok and s is not None:
                every(c, ps, p, e, s, A, A0, ev, f[-1].ret, ivs[s][1])
        if p.end in ("backedge", "ret") and not ic:
            c.ob("helper-serves", not held(p, 1 << 60), where_of(p), "the helper keeps its lock", p)
    c.does(n, "the helper handles works")
    for f, op in (("hev_task_aide_del", 2), ("hev_task_aide_add", 1)):
        wk = argn(pr, f, 0)
        for p in rets(c.paths(f)):
            ct = p.calls("epoll_ctl")
            ok = len(ct) == 1 and eq(p, ct[0].args[1], C(op)) is True and \
                loaded_from(ct[0].args[2]) == wk.plus(pr.off(W, "fd"))
            c.ob("helper-works", ok, where_of(p), "the work's descriptor is not %s" % (
                "watched" if op == 1 else "taken out"), p)
            if not ok:
                continue
            r = Analyzer.root(loaded_from(ct[0].args[0])) if loaded_from(ct[0].args[0]) is not None else None
            c.ob("helper-works", r is not None and r[0] == "load" and Analyzer.root(r[1]) == rg, ct[0], "the work is "
                 "not the helper's", p)
            c.ob("helper-works", eq(p, p.val, ct[0].ret) is True or eq(p, p.val, ZERO) is True and
                 known(p, cmp("sge", ct[0].ret, ZERO)) or known(p, cmp("slt", p.val, ZERO)) and
                 known(p, cmp("slt", ct[0].ret, ZERO)), where_of(p), "failure is not reported", p)
            if op == 2:
                c.ob("helper-serves", bool(set(held(p, ct[0].n)) & (guards or set())), ct[0], "a work is taken out "
                     "while it may be being handled", p)
            else:
                ls = last_stores(p)
                b = ct[0].args[3]
                ev, dt = lastval(p, b), lastval(p, b.plus(4))
                c.ob("helper-works", dt is not None and eq(p, dt, wk) is True and ev is not None and
                     mentions(ev, wk.plus(pr.off(W, "events"))), ct[0], "the work is not watched for its events", p)
            c.ob("helper-works", not held(p, 1 << 60), where_of(p), "a lock is kept", p)


def mentions(t, addr):
    def go(x):
        if isinstance(x, L):
            return any(go(s) for s, _ in x.t)
        if isinstance(x, tuple):
            if x and x[0] == "load" and x[1] == addr:
                return True
            return any(go(y) for y in x)
        return False
    return go(t) or t.isconst()


def C27(c):
    h = make(c)
    srv = server(c, h)
    client(c, "hev_task_dns_getaddrinfo", "getaddrinfo", srv, 4)
    client(c, "hev_task_dns_getnameinfo", "getnameinfo", srv, 7)
    aide(c)
