"""C01 accounting, C02 order, C03 I/O progress, C04 contexts, C05 join."""
import subprocess
import tempfile

from .core import *

TASK, CTX = "_HevTask", "_HevTaskSystemContext"
INS, ERA = "hev_rbtree_cached_insert_color", "hev_rbtree_cached_erase"


class Lay:
    def __init__(self, pr):
        o = pr.off
        self.state = o(TASK, "state")
        self.key = o(TASK, "sched_key")
        self.node = o(TASK, "sched_node")
        self.prio = o(TASK, "priority")
        self.nprio = o(TASK, "next_priority")
        self.context = o(TASK, "context")
        self.joiner = o(TASK, "joiner")
        self.ent = o(TASK, "sched_entity.task")
        self.entry = o(TASK, "entry")
        self.data = o(TASK, "data")
        self.right = o("_HevRBTreeNode", "right")
        self.left = o("_HevRBTreeNode", "left")
        self.total = o(CTX, "total_task_count")
        self.running = o(CTX, "running_task_count")
        self.cur = o(CTX, "current_task")
        self.tree = o(CTX, "running_tasks")
        self.first = o(CTX, "running_tasks.leftmost")
        self.root = o(CTX, "running_tasks.base.root")
        self.kctx = o(CTX, "kernel_context")
        self.reactor = o(CTX, "reactor")
        self.time = o(CTX, "sched_time")
        self.entity_task = o("_HevTaskSchedEntity", "task")
        e = pr.di.enums
        for n in ("HEV_TASK_STOPPED", "HEV_TASK_RUNNING", "HEV_TASK_WAITING", "HEV_TASK_YIELD",
                  "HEV_TASK_WAITIO", "HEV_TASK_YIELD_COUNT"):
            if n not in e:
                raise AnalysisError("enumerator %s not found" % n)
        self.STOPPED, self.RUNNING, self.WAITING = (C(e["HEV_TASK_STOPPED"]), C(e["HEV_TASK_RUNNING"]),
                                                    C(e["HEV_TASK_WAITING"]))
        self.YIELD, self.WAITIO, self.COUNT = (e["HEV_TASK_YIELD"], e["HEV_TASK_WAITIO"],
                                               e["HEV_TASK_YIELD_COUNT"])


def ctx_of(p):
    for a, m in p.st.mem.items():
        s = a.sym()
        if s and s[0] == "tls" and is_load(m[1]):
            return m[1]
    return None


def run_paths(c, f, cfg="default", **kw):
    inline = {"hev_task_wakeup", "hev_task_yield", "hev_task_self"} | set(kw.pop("inline", ()))
    return c.paths(f, cfg, inline=inline, nomem={"hev_task_execute"}, opaque={"hev_task_unref"} | set(kw.pop("opaque", ())), **kw)


def kernel(ps, ly):
    """paths of the scheduler proper: not called from inside a task"""
    out = []
    for p in ps:
        ctx = ctx_of(p)
        cur = reads(p, ctx.plus(ly.cur)) if ctx is not None else []
        sj = [e.n for e in p.calls("_setjmp") if ctx is not None and e.args[0] == ctx.plus(ly.kctx)]
        if cur and eq(p, cur[0].val, ZERO) is False and (not sj or cur[0].n < sj[0]):
            continue
        out.append(p)
    return out


def qops(p, ly, ctx, evs=None):
    """queue operations on the run queue: [(event, +1/-1, task term)]"""
    out = []
    for e in (evs if evs is not None else p.events):
        if e.k == "call" and e.name in (INS, ERA) and len(e.args) >= 2:
            if ctx is not None and e.args[0] == ctx.plus(ly.tree):
                out.append((e, 1 if e.name == INS else -1, e.args[1].plus(-ly.node)))
            else:
                out.append((e, 0, None))
    return out


def deltas(evs, addr):
    """net change of a counter over a list of events, None if not an increment/decrement"""
    d = 0
    for e in evs:
        if e.k == "store" and e.addr == addr:
            x = e.val.sub(e.old)
            if not x.isconst():
                return None
            d += x.c
    return d


ENTRIES = ("hev_task_system_run", "hev_task_yield", "hev_task_wakeup", "hev_task_run", "hev_task_exit",
           "hev_task_executer", "hev_task_new")


def setjmp_case(p, ly, ctx):
    """value returned by the scheduler's own _setjmp on this path, None if not taken"""
    for e in p.events:
        if e.k == "call" and e.name == "_setjmp" and ctx is not None and e.args[0] == ctx.plus(ly.kctx):
            for v in (0, ly.YIELD, ly.WAITIO, ly.COUNT):
                if eq(p, e.ret, C(v)) is True:
                    return v
            return "other"
    return None


def accounting(c):
    ly = Lay(prog())
    cases = set()
    ninsert = 0
    for f in ENTRIES:
        ps = run_paths(c, f)
        for p in ps:
            ctx = ctx_of(p)
            full = p.end in ("ret", "noreturn")
            segs = [(p.events, "path")] if full else []
            if p.end == "noreturn" and p.val == "abort":
                segs = []
            if p.end == "backedge":
                segs.append((body(p), "loop iteration"))
            for evs, what in segs:
                q = qops(p, ly, ctx, evs)
                w = evs[-1] if evs else where_of(p)
                for e, s, t in q:
                    c.ob("queue-is-run-queue", s != 0, e, "a task is queued somewhere else than in the "
                         "calling thread's run queue", p)
                if ctx is None:
                    continue
                ins, era = [x for x in q if x[1] == 1], [x for x in q if x[1] == -1]
                dr, dt = deltas(evs, ctx.plus(ly.running)), deltas(evs, ctx.plus(ly.total))
                c.ob("runnable-count", dr is not None and dr == len(ins) - len(era), w,
                     "%s of %s: the runnable count changes by %s but the run queue by %d" % (
                         what, f, dr, len(ins) - len(era)), p)
                # each task at most once
                net = {}
                for e, s, t in q:
                    net[t] = net.get(t, 0) + s
                    c.ob("queued-once", net[t] in (-1, 0, 1), e, "a task is queued twice or removed twice", p)
                n0 = evs[0].n if evs else 0

                def states(t):
                    return [e for e in evs if e.k == "store" and e.addr == t.plus(ly.state)]
                for t, d in net.items():
                    sts = states(t)
                    fin = final(p, t.plus(ly.state))
                    if d == 1:
                        ninsert += 1
                        ok = fin is not None and eq(p, fin, ly.RUNNING) is True
                        c.ob("queued-is-running", ok, w, "a queued task is not marked running", p)
                        old = sts[0].old if sts else fin
                        ok = old is not None and eq(p, old, ly.RUNNING) is False
                        c.ob("queue-only-if-not-queued", ok, w, "a task is queued that may already be "
                             "queued", p)
                        started = any(e.k == "call" and e.name == "hev_task_execute" and e.args[0] == t
                                      for e in evs)
                        ok = old is not None and eq(p, old, ly.STOPPED) is (True if started else False)
                        c.ob("queue-only-live", ok, w, "a task that has ended is queued without being "
                             "started again" if not started else "a task that has not ended is started", p)
                        want = 1 if started else 0
                        c.ob("live-count-start", dt == want, w, "the number of live tasks changes by %s "
                             "when a task is %s" % (dt, "started" if started else "woken"), p)
                    elif d == -1:
                        ok = is_load(t, ctx.plus(ly.cur)) is not None
                        c.ob("remove-current-only", ok, w, "another task than the one giving up the "
                             "processor is removed", p)
                        stopped = bool(sts) and eq(p, sts[-1].val, ly.STOPPED) is True
                        waiting = bool(sts) and eq(p, sts[-1].val, ly.WAITING) is True
                        c.ob("removed-state", stopped or waiting, w, "a removed task is marked neither "
                             "waiting nor stopped", p)
                if full and f == "hev_task_system_run":
                    case = setjmp_case(p, ly, ctx)
                    cases.add(case)
                    # effects up to the point where I/O is polled or the next task chosen
                    cut = min([e.n for e in evs if e.k == "call" and e.name in ("epoll_wait",)] or [1 << 60])
                    pre = [x for x in q if x[0].n < cut]
                    sig = sorted((s, is_load(t, ctx.plus(ly.cur)) is not None) for e, s, t in pre
                                 if t is not None)
                    if case == ly.YIELD:
                        c.ob("yield-requeues", sig == [(-1, True), (1, True)] and dt == 0, w,
                             "yielding does not re-queue the current task exactly once", p)
                    elif case == ly.WAITIO:
                        t = pre[0][2] if pre else None
                        sts = states(t) if t is not None else []
                        c.ob("wait-dequeues", sig == [(-1, True)] and dt == 0 and bool(sts) and
                             eq(p, sts[0].val, ly.WAITING) is True, w,
                             "waiting does not take exactly the current task off the queue as waiting", p)
                    elif case == ly.COUNT:
                        t = pre[0][2] if pre else None
                        sts = states(t) if t is not None else []
                        c.ob("end-removes", sig == [(-1, True)] and dt == -1 and bool(sts) and
                             eq(p, sts[0].val, ly.STOPPED) is True, w,
                             "an ended task is not removed once, marked stopped and uncounted", p)
                    else:
                        c.ob("start-neutral", not pre and dt == 0, w, "entering the scheduler changes the "
                             "accounting", p)
            if f in ("hev_task_wakeup", "hev_task_run") and full and ctx is not None or \
                    f in ("hev_task_wakeup", "hev_task_run") and p.end == "ret":
                t = argn(prog(), f, 0)
                s0 = [e.val for e in reads(p, t.plus(ly.state))]
                c.ob("state-examined", bool(s0), where_of(p), "%s does not look at the task's state" % f, p)
                if not s0:
                    continue
                s0 = s0[0]
                eff = shared_stores(p) + [e for e, _, _ in qops(p, ly, ctx)]
                if f == "hev_task_wakeup":
                    if eq(p, s0, ly.RUNNING) is True:
                        c.ob("wake-running-noop", p.end == "ret" and not eff, eff[0] if eff else where_of(p),
                             "waking a runnable task has an effect", p)
                    elif eq(p, s0, ly.STOPPED) is True:
                        c.ob("wake-ended-aborts", p.end == "noreturn" and not eff, where_of(p),
                             "waking an ended task does not abort", p)
                    else:
                        ins = [x for x in qops(p, ly, ctx) if x[1] == 1 and x[2] == t]
                        c.ob("wake-waiting-queues", p.end == "ret" and len(ins) == 1, where_of(p),
                             "waking a waiting task does not queue it", p)
                else:
                    if eq(p, s0, ly.STOPPED) is True:
                        ins = [x for x in qops(p, ly, ctx) if x[1] == 1 and x[2] == t]
                        c.ob("run-queues", len(ins) == 1, where_of(p), "starting an ended task does not "
                             "queue it", p)
                        ok = eq(p, lastval(p, t.plus(ly.entry)), argn(prog(), f, 1)) is True and \
                            eq(p, lastval(p, t.plus(ly.data)), argn(prog(), f, 2)) is True
                        c.ob("run-entry", ok, where_of(p), "the started task does not get the given entry "
                             "and data", p)
                    else:
                        c.ob("run-live-noop", not eff, eff[0] if eff else where_of(p),
                             "starting a task that has not ended has an effect", p)
            if f == "hev_task_new" and p.end == "ret" and eq(p, p.val, ZERO) is not True:
                v = load_final(p, p.val.plus(ly.state), 4)
                c.ob("new-is-stopped", v is not None and eq(p, v, ly.STOPPED) is True, where_of(p),
                     "a new task does not start out stopped", p)
    c.does({ly.YIELD, ly.WAITIO, ly.COUNT} <= cases and cases & {0, "other"}, "scheduler handles start, yield, wait and end "
           "(found %s)" % sorted(map(str, cases)))
    c.does(ninsert, "tasks get queued")
    who_writes(c, {("struct." + TASK, ly.state): "task state", ("struct." + CTX, ly.total): "live count",
                   ("struct." + CTX, ly.running): "runnable count"}, "accounting-writers")


def load_final(p, addr, size):
    """value memory holds at the end of the path (zero-initialised memory included)"""
    v = final(p, addr)
    if v is not None:
        return v
    for b, n in p.st.zero:
        d = addr.sub(b)
        if not d.t and d.c >= 0 and (n is None or d.c + size <= n):
            return ZERO
    return None


def who_writes(c, tags, rule, cfg="default"):
    """every function storing to these fields must have been followed into"""
    pr = prog(cfg)
    for name, fn in pr.mod.functions.items():
        if fn.decl:
            continue
        vals = {}
        for b in fn.blocks:
            for i in b.insts:
                if i.op == "gep":
                    vals[i.id] = i.extra[2]
                elif i.op == "store" and i.ops[1][0] == "v" and vals.get(i.ops[1][1]) in tags:
                    src = Analyzer.src(name)
                    ok = src in c.inlined or src in c.fns or src == "hev_task_new"
                    f = i.file or "?"
                    c.ob(rule, ok, "%s:%s (%s)" % ("src/" + f.split("/src/")[-1], i.line, src),
                         "%s is written outside the analysed scheduler transitions" % tags[vals[i.ops[1][1]]])


def C01(c):
    accounting(c)


# ------------------------------------------------------------------ order (C02)
def tree_descents(c, ps, ly, key_less, link_owner, rule):
    """Ordered insertion: in every iteration of a descent loop the step goes left exactly if the new
    element is strictly before the visited one, and the 'is first' flag survives only left steps.
    key_less(p, T, N) -> (proved T < N, proved T >= N); link_owner: offset of the node in its object."""
    sites = {}
    for p in ps:
        for k, e in enumerate(p.events):
            if e.k == "call" and e.name == INS:
                T = e.args[1].plus(-link_owner)
                for l in reversed(p.events[:k]):
                    if l.k == "loop":
                        sites.setdefault((l.stack, l.x[0], l.n), []).append((T, e, l, p))
                        break
                else:
                    c.ob(rule + "-position", False, e, "queued without a search for its position", p)
    n = 0
    visits = {}
    for p in backs(ps):
        evs = body(p)
        fn, blk, init, latch, ev0 = p.val
        l = p.events[ev0] if ev0 < len(p.events) else None
        if l is None or l.k != "loop":
            continue
        key = (l.stack, l.x[0], l.n)
        if key not in sites:
            continue
        # the visited node: read through a cursor, left or right taken
        step = None
        for s, v in latch.items():
            base = v
            if is_load(v) is not None:
                a = loaded_from(v)
                cand = [(a.plus(-ly.left), "left"), (a.plus(-ly.right), "right")]
            else:
                cand = [(v.plus(-ly.left), "left"), (v.plus(-ly.right), "right")]
            for N, d in cand:
                ns = N.sym()
                if ns is None:
                    continue
                # N itself is the cursor or was read through it
                if ns == s or (ns[0] == "load" and ns[1] == S(s)):
                    step = (N, d)
        if step is None:
            c.ob(rule + "-step", False, p.events[-1], "an insertion step goes neither left nor right", p)
            continue
        n += 1
        N, d = step
        visits.setdefault(key, []).append((latch, N))
        ok = False
        for T, e, l2, p2 in sites[key]:
            lt, ge = key_less(p, T, N.plus(-link_owner))
            ok = ok or (lt if d == "left" else ge)
        c.ob(rule + "-step", ok, p.events[-1], "an insertion step goes %s although the new element is not "
             "proved to come %s the visited one" % (d, "before" if d == "left" else "at or after"), p)
        for T, e, l2, p2 in sites[key]:
            fl = e.args[2]
            s = fl.sym()
            if s is not None and s[0] == "phi" and s in latch:
                v = latch[s]
                ok = eq(p, init[s], ZERO) is False and (
                    eq(p, v, ZERO) is True if d == "right" else v == S(s))
                c.ob(rule + "-first-flag", ok, p.events[-1], "the new element may be taken for the first "
                     "one although a step went right (or not although all went left)", p)
    # position and flag at the insertion
    for key, lst in sites.items():
        for T, e, l, p in lst:
            fl = e.args[2]
            s = fl.sym()
            ok = (s is not None and s[0] == "phi" and s in l.x[1])
            if not ok and fl.isconst():
                ok = False
            c.ob(rule + "-first-flag", ok, e, "the 'first element' flag is not the one kept while "
                 "searching", p)
            link = [x for x in p.events if x.k == "store" and x.n < e.n and x.n > l.n and
                    x.val == e.args[1]]
            ok = False
            for x in link:
                a = x.addr.sym()
                if a is not None and a[0] == "phi" and a in l.x[1]:
                    ok = eq(p, x.old, ZERO) is True or any(
                        eq(p, y.val, ZERO) is True for y in reads(p, x.addr) if l.n < y.n < x.n)
            if not ok:
                # link chosen after the search: parent's empty side on the proved side
                for x in link:
                    r = x.addr.sym()
                    for off, d in ((ly.left, "left"), (ly.right, "right")):
                        b = x.addr.plus(-off).sym()
                        if b is not None and b[0] == "phi" and b in l.x[1]:
                            lt, ge = key_less(p, T, S(b).plus(-link_owner))
                            ok = ok or (lt if d == "left" else ge)
                    if x.addr == e.args[0]:
                        ok = True       # empty tree: becomes the root
            c.ob(rule + "-linked", ok, e, "the new element is not linked at the empty place found", p)
            par = val_at(p, e.args[1], e.n, l.n)
            ok = False
            for x in link:
                if par is None:
                    break
                if x.addr in (par.plus(ly.left), par.plus(ly.right)):
                    ok = True           # below a node found by the search
                elif eq(p, par, ZERO) is True and x.addr.sym() not in l.x[1]:
                    ok = True           # the root
                elif par.sym() in l.x[1] and x.addr.sym() in l.x[1]:
                    ok = eq(p, l.x[1][par.sym()], ZERO) is True and all(
                        la.get(par.sym()) == N and la.get(x.addr.sym()) in (N.plus(ly.left), N.plus(ly.right))
                        for la, N in visits.get(key, []))
            c.ob(rule + "-linked", ok, e, "the new element does not get the visited node as parent", p)
    return n, len(sites)


def order(c):
    cfgs = ["default", "clock"]
    nd = ns = 0
    for cfg in cfgs:
        pr = prog(cfg)
        ly = Lay(pr)
        # documented priority range
        lo, hi, dflt = macros(["HEV_TASK_PRIORITY_MIN", "HEV_TASK_PRIORITY_MAX",
                               "HEV_TASK_PRIORITY_DEFAULT"])
        for f in ("hev_task_system_run", "hev_task_wakeup", "hev_task_run"):
            ps = run_paths(c, f, cfg)
            if f == "hev_task_system_run":
                ps = kernel(ps, ly)

            def less(p, T, N):
                kt, kn = final(p, T.plus(ly.key)), final(p, N.plus(ly.key))
                if kt is None or kn is None:
                    return False, False
                return holds(p, cmp("ult", kt, kn)) is True, holds(p, cmp("uge", kt, kn)) is True
            a, b = tree_descents(c, ps, ly, less, ly.node, "order")
            nd += a
            ns += b
            for p in ps:
                if p.end not in ("ret", "noreturn") or p.val == "abort":
                    continue
                ctx = ctx_of(p)
                if ctx is None:
                    continue
                w = where_of(p)
                case = setjmp_case(p, ly, ctx)
                # growth of the key of the task that ran
                if case in (ly.YIELD, ly.WAITIO):
                    q = qops(p, ly, ctx)
                    T = q[0][2] if q else None
                    if T is None:
                        continue
                    ks = stores(p, addr=T.plus(ly.key))
                    first = ks[0] if ks else None
                    ok = False
                    if first is not None:
                        ok = weighted(p, first, T, ly, cfg, ctx)
                    if case == ly.YIELD:
                        c.ob("key-growth", ok, first or w, "the key of the task that ran does not grow by "
                             "its run time weighted with its priority", p)
                        # nothing else changes the key before re-queueing
                        e0 = [e for e, s, t in q if s == 1 and t == T]
                        ok = bool(e0) and len([k for k in ks if k.n < e0[0].n]) == 1
                        c.ob("key-growth", ok, first or w, "the key is changed again before the task is "
                             "re-queued", p)
                    else:
                        e0 = [e for e, s, t in q if s == -1]
                        np = [k for k in ks if is_load(k.val, T.plus(ly.nprio))]
                        c.ob("wait-key", bool(np) and ks[-1] is np[-1], np[0] if np else w,
                             "a waiting task does not restart from its priority", p)
                    if case == ly.YIELD:
                        prio_taken(c, p, T, ly, w)
                # position of woken and started tasks
                if f in ("hev_task_wakeup", "hev_task_run"):
                    T = argn(pr, f, 0)
                    ins = [e for e, s, t in qops(p, ly, ctx) if s == 1 and t == T]
                    if ins:
                        rel_key(c, p, T, ly, ctx, f, ins[0])
                        prio_taken(c, p, T, ly, w)
                # the task chosen
                if f == "hev_task_system_run" and p.end == "noreturn":
                    e = p.events[-1]
                    T = e.args[0].plus(-ly.context)
                    fst = loaded_from(T.plus(ly.node))
                    lastq = max([x[0].n for x in qops(p, ly, ctx)] or [0])
                    ok = fst == ctx.plus(ly.first) and stamp(T.plus(ly.node).sym()) > lastq
                    c.ob("pick-first", ok, e, "the task resumed is not the first of the run queue", p)
                    cs = stores(p, addr=ctx.plus(ly.cur))
                    ok = bool(cs) and eq(p, cs[-1].val, T) is True
                    c.ob("pick-current", ok, e, "the task resumed is not recorded as the current one", p)
                    if cfg == "clock":
                        tm = ctx.plus(ly.time)
                        ok = any(x.args[1] == tm for x in p.calls("clock_gettime")) or \
                            stores(p, addr=tm) and stores(p, addr=tm.plus(8))
                        c.ob("key-growth", bool(ok), e, "a task's run time does not count from when it was resumed", p)
            # woken by an event: same placement
            if f == "hev_task_system_run":
                for p in backs(ps):
                    ctx = ctx_of(p)
                    evs = body(p)
                    for e, s, T in qops(p, ly, ctx, evs):
                        if s == 1:
                            rel_key(c, p, T, ly, ctx, "event", e)
                            prio_taken(c, p, T, ly, e)
        # clamping
        f = "hev_task_set_priority"
        T, v = argn(pr, f, 0), argn(pr, f, 1)
        ps = rets(c.paths(f, cfg))
        for p in ps:
            x = final(p, T.plus(ly.nprio))
            ok = False
            if x is not None:
                if eq(p, x, v) is True:
                    ok = holds(p, cmp("sge", v, C(lo))) is True and holds(p, cmp("sle", v, C(hi))) is True
                elif eq(p, x, C(lo)) is True:
                    ok = holds(p, cmp("sle", v, C(lo))) is True
                elif eq(p, x, C(hi)) is True:
                    ok = holds(p, cmp("sge", v, C(hi))) is True
            c.ob("priority-clamp", ok, where_of(p), "a priority is not stored clamped to %d..%d" % (lo, hi), p)
            other = [e for e in shared_stores(p) if e.addr != T.plus(ly.nprio)]
            c.ob("priority-deferred", not other, other[0] if other else where_of(p),
                 "setting a priority takes effect before the task is next queued", p)
        f = "hev_task_get_priority"
        for p in rets(c.paths(f, cfg)):
            c.ob("priority-get", is_load(p.val, argn(pr, f, 0).plus(ly.nprio)) is not None, where_of(p),
                 "the reported priority is not the one set", p)
        for p in rets(c.paths("hev_task_new", cfg)):
            if eq(p, p.val, ZERO) is True:
                continue
            x = final(p, p.val.plus(ly.nprio))
            c.ob("priority-default", x is not None and eq(p, x, C(dflt)) is True, where_of(p),
                 "a new task does not have the default priority", p)
    cached_first(c)
    c.does(nd >= 4 and ns >= 3, "ordered insertion loops (found %d steps)" % nd)


def prio_taken(c, p, T, ly, w):
    st = stores(p, addr=T.plus(ly.prio))
    ok = bool(st) and (is_load(st[-1].val, T.plus(ly.nprio)) is not None)
    c.ob("priority-taken", ok, st[-1] if st else w, "a queued task does not take over the priority last set", p)


def rel_key(c, p, T, ly, ctx, f, ins):
    """key at queueing = own base + key of the first queued task (0 if none)"""
    k = val_at(p, T.plus(ly.key), ins.n)
    if k is None:
        c.ob("relative-key", False, ins, "a woken task is queued with its old key", p)
        return
    fst = [e.val for e in reads(p, ctx.plus(ly.first)) if e.n < ins.n]
    cur = [e.val for e in reads(p, ctx.plus(ly.cur)) if e.n < ins.n]
    base = None
    minterm = ZERO
    mins = [x for x in fst if eq(p, x, ZERO) is False]
    rest = k
    used = False
    for x in mins:
        ka = x.plus(-ly.node + ly.key)
        for s, q in k.t:
            if s[0] == "load" and s[1] == ka and q == 1:
                rest = k.sub(S(s))
                used = True
    empty = any(eq(p, x, ZERO) is True for x in fst)
    outside = f == "hev_task_run" and cur and any(eq(p, x, ZERO) is True for x in cur)
    s = rest.sym()
    if f == "hev_task_run":
        okb = s is not None and s[0] == "load" and s[1] == T.plus(ly.nprio)
    else:
        okb = s is not None and s[0] == "load" and s[1] in (T.plus(ly.key), T.plus(ly.nprio))
    c.ob("relative-key", okb and (used or empty or outside), ins, "a %s task is not placed at the smallest "
         "queued key plus its priority" % ("started" if f == "hev_task_run" else "woken"), p)


def weighted(p, st, T, ly, cfg, ctx):
    """store adds runtime*priority to the key"""
    if is_load(st.old, T.plus(ly.key)) is None:
        return False
    d = st.val.sub(st.old)
    if cfg != "clock":
        s = d.sym()
        return s is not None and s[0] == "load" and s[1] == T.plus(ly.prio)
    s = d.sym()
    if s is None or s[0] != "op" or s[1] != "mul":
        return False
    for a, b in ((s[2], s[3]), (s[3], s[2])):
        if is_load(a, T.plus(ly.prio)) is not None:
            # b = 1 + 1e9*(now.sec - last.sec) + (now.nsec - last.nsec), borrow included
            t = dict((loaded_from(S(x)), q) for x, q in b.t if x[0] == "load")
            lt = ctx.plus(ly.time)
            now = [k for k in t if k not in (lt, lt.plus(8))]
            if len(b.t) != 4 or len(now) != 2 or b.c != 1:
                return False
            now.sort(key=lambda l: l.c)
            return t.get(lt) == -1000000000 and t.get(lt.plus(8)) == -1 and \
                t[now[0]] == 1000000000 and t[now[1]] == 1 and now[1].sub(now[0]) == C(8)
    return False


_mac = {}


def macros(names):
    """values of integer macros of the public headers (compiled, not text-matched)"""
    key = tuple(names)
    if key in _mac:
        return _mac[key]
    d = tempfile.mkdtemp(prefix="sa-mac-")
    try:
        with open(d + "/m.c", "w") as f:
            f.write("#include <hev-task.h>\n")
            for i, n in enumerate(names):
                f.write("const long long probe%d = %s;\n" % (i, n))
        r = subprocess.run([LLVM + "/clang", "-S", "-emit-llvm", "-w", "-I", REPO + "/include", "-I",
                            REPO + "/src", d + "/m.c", "-o", d + "/m.ll"], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("documented constants not found: " + r.stderr[-200:])
        vals = {}
        for line in open(d + "/m.ll"):
            if line.startswith("@probe"):
                vals[int(line.split()[0][6:])] = int(line.split("i64", 1)[1].split(",")[0])
        _mac[key] = [vals[i] for i in range(len(names))]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return _mac[key]


def cached_first(c, cfg="default"):
    """the cached first node follows insertions, removals and replacements"""
    pr = prog(cfg)
    lm = pr.off("_HevRBTreeCached", "leftmost")
    f = INS
    t, n, fl = argn(pr, f, 0), argn(pr, f, 1), argn(pr, f, 2)
    for p in rets(c.paths(f, cfg, inline={f})):
        st = stores(p, addr=t.plus(lm))
        ic = p.calls("hev_rbtree_insert_color")
        c.ob("cached-first", len(ic) == 1 and ic[0].args[0] == t and ic[0].args[1] == n, where_of(p),
             "the tree is not rebalanced after an insertion", p)
        if eq(p, fl, ZERO) is True:
            c.ob("cached-first", not st, where_of(p), "a node that is not first becomes the cached first", p)
        else:
            c.ob("cached-first", bool(st) and st[-1].val == n and eq(p, fl, ZERO) is False, where_of(p),
                 "a new first node is not cached as the first", p)
    f = ERA
    t, n = argn(pr, f, 0), argn(pr, f, 1)
    seen = 0
    for p in rets(c.paths(f, cfg, inline={f})):
        st = stores(p, addr=t.plus(lm))
        er = p.calls("hev_rbtree_erase")
        nx = p.calls("hev_rbtree_node_next")
        c.ob("cached-first", len(er) == 1 and er[0].args[0] == t and er[0].args[1] == n, where_of(p),
             "erasing does not take the node out of the tree", p)
        rd = [e.val for e in reads(p, t.plus(lm))]
        c.ob("cached-first", bool(rd), where_of(p), "erasing does not look whether the node is the cached first", p)
        if not rd:
            continue
        if eq(p, rd[0], n) is True:
            seen += 1
            ok = len(nx) == 1 and nx[0].args[0] == n and bool(er) and nx[0].n < er[0].n and bool(st) and \
                st[-1].val == nx[0].ret
            c.ob("cached-first", ok, where_of(p), "erasing the first node does not make its successor the "
                 "cached first", p)
        else:
            c.ob("cached-first", not st and eq(p, rd[0], n) is False, where_of(p), "erasing another node "
                 "changes the cached first", p)
    c.does(seen, "erase handles the first node")
    f = "hev_rbtree_cached_replace"
    t, v, n = argn(pr, f, 0), argn(pr, f, 1), argn(pr, f, 2)
    for p in rets(c.paths(f, cfg, inline={f})):
        st = stores(p, addr=t.plus(lm))
        rp = p.calls("hev_rbtree_replace")
        c.ob("cached-first", len(rp) == 1 and rp[0].args == [t, v, n], where_of(p), "replace does not "
             "replace the node in the tree", p)
        rd = [e.val for e in reads(p, t.plus(lm))]
        if rd and eq(p, rd[-1], v) is True:
            c.ob("cached-first", bool(st) and st[-1].val == n, where_of(p),
                 "replacing the first node keeps the old one cached", p)
        else:
            c.ob("cached-first", not st and bool(rd), where_of(p), "replacing another node changes the "
                 "cached first", p)


def C02(c):
    order(c)


# ------------------------------------------------------------------ I/O progress (C03)
def progress(c, cfg="default"):
    pr = prog(cfg)
    ly = Lay(pr)
    evsize = pr.sizeof("epoll_event")
    dptr = pr.off("epoll_event", "data")
    rfd = pr.off("_HevTaskIOReactor", "fd")
    ps = kernel(run_paths(c, "hev_task_system_run", cfg), ly)
    npass = nblock = nnb = nbody = nexit = 0
    for p in ps:
        ctx = ctx_of(p)
        if ctx is None:
            continue
        w = where_of(p)
        ew = p.calls("epoll_wait")
        for e in ew:
            ok = loaded_from(e.args[0]) is not None and \
                (lambda a: loaded_from(a.plus(-rfd)) == ctx.plus(ly.reactor))(loaded_from(e.args[0]))
            c.ob("poll-own-reactor", ok, e, "events are collected from another reactor", p)
            r = Analyzer.root(e.args[1])
            size = absint.ALLOCA_SIZE.get(r)
            if size is not None and e.args[2].isconst():
                off = e.args[1].sub(S(r))
                c.ob("poll-batch-fits", e.args[2].c > 0 and off.isconst() and
                     off.c + e.args[2].c * evsize <= size, e, "the event batch is larger than its storage", p)
            # runnable count when polling
            rv = val_of(p, ctx.plus(ly.running), e.n, ly)
            to = e.args[3]
            if eq(p, to, ZERO) is True:
                nnb += 1
            elif to.isconst() and to.c < 0:
                nblock += 1
                ok = rv is not None and eq(p, rv, ZERO) is True
                c.ob("block-only-if-idle", ok, e, "the scheduler blocks although a task may be runnable", p)
            else:
                ok = rv is not None and eq(p, rv, ZERO) is True
                c.ob("block-only-if-idle", ok, e, "the scheduler may block although a task is runnable", p)
        if p.end == "noreturn" and p.val == "_longjmp":
            npass += 1
            lj = p.events[-1]
            tot, run = None, None
            if ew:
                rv = val_of(p, ctx.plus(ly.running), ew[0].n, ly)
                if eq(p, ew[0].args[3], ZERO) is True:
                    c.ob("poll-when-idle-blocks", rv is not None and eq(p, rv, ZERO) is False, ew[0],
                         "with no runnable task the scheduler polls without waiting", p)
                # leaving the wait with nothing runnable
                fin = final(p, ctx.plus(ly.running))
                if rv is not None and eq(p, rv, ZERO) is True:
                    c.ob("pick-only-if-runnable", fin is not None and eq(p, fin, ZERO) is False, lj,
                         "a task is picked although none may be runnable", p)
                pick = [e for e in reads(p, ctx.plus(ly.first)) if e.n > ew[-1].n]
                c.ob("poll-before-pick", True, lj, "", p)
            else:
                r = final(p, ctx.plus(ly.running))
                t = final(p, ctx.plus(ly.total))
                ok = r is not None and t is not None and holds(p, cmp("uge", r, t)) is True
                c.ob("poll-before-pick", ok, lj, "a task is picked without collecting I/O events although "
                     "some task may be waiting", p)
        if p.end == "ret":
            # leaving the scheduler
            nexit += 1
            t = final(p, ctx.plus(ly.total))
            c.ob("return-only-when-done", t is not None and eq(p, t, ZERO) is True, w,
                 "the scheduler returns although tasks are alive", p)
            cur = final(p, ctx.plus(ly.cur))
            c.ob("return-no-current", cur is not None and eq(p, cur, ZERO) is True, w,
                 "the scheduler returns with a current task set", p)
    # delivery loop
    ivs = induction(ps)
    for p in ps:
        ctx = ctx_of(p)
        ew = p.calls("epoll_wait")
        if not ew or ctx is None:
            continue
        e = ew[-1]
        buf, count = e.args[1], e.ret
        if p.end == "backedge":
            fn, blk, init, latch, ev0 = p.val
            evs = body(p)
            if evs and evs[0].n < e.n:
                continue        # an outer loop
            l = loop_of(p, ev0)
            if l is None:
                continue
            ks = counters(l, ivs)
            rd = []
            for x in evs:
                if x.k == "read":
                    i = index_of(in_iterations(x.addr, l, ivs), buf, evsize)
                    if i is not None:
                        rd.append((x, i[0], i[1]))
            if not rd:
                continue        # the insertion loops nested in it
            nbody += 1
            good = False
            why = "an event is not delivered to its task"
            for x, idx, off in rd:
                if off != dptr:
                    continue
                up = idx == KSYM
                down = idx == count.plus(-1).sub(KSYM)
                inb = any(holds(p, cmp("slt", k, count)) is True for k in ks)
                if not ((up or down) and inb):
                    why = "the events delivered are not exactly the ones returned"
                    continue
                ent = x.val
                tk = [y for y in evs if y.k == "read" and y.addr == ent.plus(ly.entity_task)]
                if not tk:
                    continue
                T = tk[0].val
                st = [y.val for y in evs if y.k == "read" and y.addr == T.plus(ly.state)]
                ins = [y for y, sgn, t in qops(p, ly, ctx, evs) if sgn == 1 and t == T]
                if ins or st and eq(p, st[0], ly.RUNNING) is True:
                    good = True
            c.ob("event-wakes-task", good, p.events[-1], why, p)
        elif p.end in ("noreturn", "ret") and p.val != "abort":
            # all events handled before going on
            ok = holds(p, cmp("sle", count, ZERO)) is True
            for l in p.events:
                if l.k == "loop" and l.n > e.n:
                    ok = ok or any(holds(p, cmp("sge", k, count)) is True for k in counters(l, ivs))
            c.ob("all-events-delivered", ok, p.events[-1], "the scheduler goes on before all returned "
                 "events have been delivered", p)
    c.does(npass and nblock and nnb and nbody and nexit, "scheduler passes: %s" % (
        (npass, nblock, nnb, nbody, nexit),))


def index_of(addr, buf, size):
    """addr = buf + size*idx + off -> (idx, off); pointer cursors count as idx too"""
    d = addr.sub(buf)
    if d.isconst():
        return None
    if all(q % size == 0 for _, q in d.t):
        off = d.c % size
        return L((d.c - off) // size, tuple((s, q // size) for s, q in d.t)), off
    return None


def val_of(p, addr, n, ly):
    """value of a counter just before event n: last store, else last read"""
    v = None
    for e in p.events:
        if e.n >= n:
            break
        if e.k in ("read", "store") and e.addr == addr:
            v = e.val
        elif e.k == "loop" or is_yield(e) or e.k == "call" and e.name in ("_setjmp",):
            # values survive a loop head unless the loop changes them; the decided facts are about
            # the values read last, so a stale value can only lose precision
            pass
    return v


def C03(c):
    progress(c)
    from . import rules_reactor
    rules_reactor.register(c)


# ------------------------------------------------------------------ contexts (C04)
def contexts(c):
    pr = prog()
    ly = Lay(pr)
    # a yielding task
    n = 0
    for p in run_paths(c, "hev_task_yield"):
        ctx = ctx_of(p)
        cur = [e.val for e in reads(p, ctx.plus(ly.cur))] if ctx is not None else []
        if not cur:
            c.ob("yield-saves", False, where_of(p), "yield does not look for the current task", p)
            continue
        if eq(p, cur[0], ZERO) is not False:
            continue        # outside a task: not a yield of a task
        n += 1
        sj = p.calls("_setjmp")
        lj = p.calls("_longjmp")
        ok = len(sj) == 1 and sj[0].args[0] == cur[0].plus(ly.context)
        c.ob("yield-saves", ok, sj[0] if sj else where_of(p), "a yielding task does not save its own context", p)
        if not ok:
            continue
        if p.end == "ret":
            c.ob("yield-resumes", holds(p, cmp("ne", sj[0].ret, ZERO)) is True and not lj, where_of(p),
                 "a yielding task continues without having been resumed by the scheduler", p)
        else:
            ty = argn(pr, "hev_task_yield", 0)
            ok = len(lj) == 1 and p.events[-1] is lj[0] and lj[0].args[0] == ctx.plus(ly.kctx) and \
                eq(p, lj[0].args[1], ty) is True and eq(p, sj[0].ret, ZERO) is True
            c.ob("yield-to-scheduler", ok, lj[0] if lj else where_of(p), "a yielding task does not pass "
                 "control and its yield type to the scheduler", p)
        ss = shared_stores(p)
        c.ob("yield-no-side-effect", not ss, ss[0] if ss else where_of(p),
             "a yielding task changes scheduler state before control is handed over", p)
    c.does(n >= 2, "yield of a task")
    c.ob("yield-types-nonzero", ly.YIELD > 0 and ly.WAITIO > 0 and ly.COUNT > 0 and
         len({ly.YIELD, ly.WAITIO, ly.COUNT}) == 3, "hev-task.h", "yield types are zero or equal")
    # the scheduler
    nres = nend = 0
    for p in kernel(run_paths(c, "hev_task_system_run"), ly):
        ctx = ctx_of(p)
        sj = [e for e in p.calls("_setjmp")]
        lj = p.calls("_longjmp")
        for e in lj:
            nres += 1
            ok = len(sj) >= 1 and sj[0].n < e.n and sj[0].args[0] == ctx.plus(ly.kctx)
            c.ob("scheduler-saves", ok, e, "a task is resumed before the scheduler saved its own context", p)
            ok = e.args[1].isconst() and e.args[1].c != 0
            c.ob("resume-value", ok, e, "a task is resumed with a value it takes for the first return", p)
            cs = stores(p, addr=ctx.plus(ly.cur))
            ok = bool(cs) and eq(p, cs[-1].val.plus(ly.context), e.args[0]) is True
            c.ob("resume-current", ok, e, "control is passed to another context than the current task's", p)
        if p.end == "ret":
            cur = final(p, ctx.plus(ly.cur))
            c.ob("return-no-current", cur is not None and eq(p, cur, ZERO) is True, where_of(p),
                 "the scheduler returns with an ended task still current, so that it is resumed next time", p)
        un = p.calls("hev_task_unref")
        for e in un:
            nend += 1
            case = setjmp_case(p, ly, ctx)
            ok = case == ly.COUNT and len(un) == 1 and is_load(e.args[0], ctx.plus(ly.cur)) is not None
            c.ob("release-on-scheduler", ok, e, "a task is released although it has not ended", p)
            t = Analyzer.root(e.args[0])
            use = [x for x in p.events if x.n > e.n and x.k in ("read", "store") and
                   Analyzer.root(x.addr) == t or x.n > e.n and x.k == "call" and
                   x.name not in ("_longjmp",) and any(Analyzer.root(a) == t for a in x.args)]
            c.ob("no-use-after-release", not use, use[0] if use else e, "a task is used after the scheduler "
                 "released it", p)
        if p.end in ("ret", "noreturn") and p.val != "abort" and setjmp_case(p, ly, ctx) == ly.COUNT:
            c.ob("release-at-end", len(un) == 1, where_of(p), "an ended task is not released", p)
    c.does(nres and nend, "scheduler resumes and releases tasks")
    # endings
    for f, start in (("hev_task_exit", False), ("hev_task_executer", True)):
        ends = 0
        for p in run_paths(c, f):
            w = where_of(p)
            if p.end == "noreturn" and p.val == "abort" or p.end == "backedge":
                continue
            sj = p.calls("_setjmp")
            fresh = start and sj and eq(p, sj[0].ret, ZERO) is True
            if start:
                ok = len(sj) == 1 and sj[0].args[0] == argn(pr, f, 0).plus(ly.context)
                c.ob("start-saves", ok, sj[0] if sj else w, "a new task's first context is not saved", p)
                if fresh:
                    ic = [e for e in p.events if e.k == "icall"]
                    c.ob("start-deferred", p.end == "ret" and not ic, w, "a new task runs before it is "
                         "scheduled", p)
                    continue
                ic = [e for e in p.events if e.k == "icall"]
                me = argn(pr, f, 0)
                ok = len(ic) == 1 and loaded_from(ic[0].x) == me.plus(ly.entry) and \
                    loaded_from(ic[0].args[0]) == me.plus(ly.data)
                c.ob("entry-called", ok, ic[0] if ic else w, "the task's entry is not called once with its "
                     "data", p)
            ends += 1
            ctx = ctx_of(p)
            lj = p.calls("_longjmp")
            ok = p.end == "noreturn" and len(lj) == 1 and ctx is not None and \
                lj[0].args[0] == ctx.plus(ly.kctx) and eq(p, lj[0].args[1], C(ly.COUNT)) is True
            c.ob("end-never-returns", ok, w, "an ending task does not leave for the scheduler for good", p)
            bad = [e for e in p.events if e.k == "call" and e.name in (
                "hev_task_unref", "hev_free", "free", "munmap", "hev_task_stack_destroy")]
            c.ob("end-keeps-own-stack", not bad, bad[0] if bad else w, "a task releases the stack it is "
                 "running on", p)
        c.does(ends, f + " ends the task")
    # starting: the trampoline runs before the task is queued
    k = 0
    for p in rets(run_paths(c, "hev_task_run")):
        ins = p.calls(INS)
        if not ins:
            continue
        k += 1
        ex = p.calls("hev_task_execute")
        ok = len(ex) == 1 and ex[0].args[0] == argn(pr, "hev_task_run", 0) and \
            (ex[0].args[1].sym() or ("",))[:2] == ("fn", "hev_task_executer")
        c.ob("start-prepared", ok, ex[0] if ex else where_of(p), "a task is queued without its first "
             "context prepared on its own stack", p)
    c.does(k, "hev_task_run queues the task")
    # release of memory only through the last reference
    f = "hev_task_unref"
    t = argn(pr, f, 0)
    rc = pr.off(TASK, "ref_count")
    fr = 0
    for p in rets(c.paths(f, opaque={"hev_task_stack_destroy"})):
        fin = [e for e in stores(p, addr=t.plus(rc))]
        fre = [e for e in p.events if e.k == "call" and e.name in ("hev_free", "hev_task_stack_destroy")]
        if fre:
            fr += 1
            ok = bool(fin) and eq(p, fin[-1].val, ZERO) is True
            c.ob("memory-last-reference", ok, fre[0], "a task's memory is released while references "
                 "remain", p)
    c.does(fr, "unref releases the task")
    who_calls(c, {"hev_task_stack_destroy"}, {"hev_task_unref"}, "stack-released-by")


def who_calls(c, callees, allowed, rule, cfg="default"):
    pr = prog(cfg)
    n = 0
    for name, fn in pr.mod.functions.items():
        if fn.decl:
            continue
        for b in fn.blocks:
            for i in b.insts:
                if i.op == "call" and i.extra[0] == "f" and Analyzer.src(i.extra[1]) in callees:
                    n += 1
                    src = Analyzer.src(name)
                    f = i.file or "?"
                    ok = src in allowed or called_only_by(pr, name, allowed)
                    c.ob(rule, ok, "%s:%s (%s)" % ("src/" + f.split("/src/")[-1], i.line, src),
                         "%s is called outside %s" % (Analyzer.src(i.extra[1]), ", ".join(sorted(allowed))))
    c.need(n, "%s is called" % ", ".join(sorted(callees)))


def called_only_by(pr, name, allowed, depth=0):
    """a file-local helper all of whose callers are allowed"""
    fn = pr.mod.functions[name]
    if not fn.internal or depth > 5:
        return False
    callers = [n for n, f in pr.mod.functions.items() if not f.decl and any(
        i.op == "call" and i.extra == ("f", name) for b in f.blocks for i in b.insts)]
    return bool(callers) and all(Analyzer.src(n) in allowed or called_only_by(pr, n, allowed, depth + 1)
                                 for n in callers)


def C04(c):
    contexts(c)


# ------------------------------------------------------------------ join (C05)
def join(c, rules=True):
    pr = prog()
    ly = Lay(pr)
    f = "hev_task_join"
    t = argn(pr, f, 0)
    J = t.plus(ly.joiner)
    ps = c.paths(f)
    nw = 0
    for p in ps:
        w = where_of(p)
        ys = [e for e in p.events if is_yield(e)]
        rd = [e.val for e in reads(p, J)]
        if p.end == "ret" and rd and eq(p, rd[0], ZERO) is False:
            ss = shared_stores(p)
            ok = not ss and not ys and p.val.isconst() and p.val.c < 0
            c.ob("join-second-fails", ok, ss[0] if ss else w, "joining a task that is being joined does not "
                 "fail without side effects", p)
            continue
        for y in ys:
            nw += 1
            st = [e for e in stores(p, addr=J, before=y.n)]
            ok = bool(st) and st[-1].val == SELF and rd and eq(p, rd[0], ZERO) is True
            c.ob("join-registers", ok, y, "the joining task suspends without being registered as the "
                 "joiner", p)
        if p.end == "backedge":
            ss = [e for e in stores(p, addr=J) if e.n > body(p)[0].n]
            c.ob("join-stays-registered", not ss, ss[0] if ss else w, "the joiner is unregistered while it "
                 "waits", p)
        if p.end == "ret":
            yl = last_yield(p)
            st = [e for e in reads(p, t.plus(ly.state)) if e.n > yl and eq(p, e.val, ly.STOPPED) is True]
            ok = bool(st) and eq(p, p.val, ZERO) is True
            c.ob("join-only-after-end", ok, w, "join returns success without having seen the task ended "
                 "after its last suspension", p)
            fin = val_at(p, J, 1 << 60, yl) if ys else final(p, J)
            if ys and fin is None:
                ok = False
            else:
                ok = fin is not None and eq(p, fin, ZERO) is True
            c.ob("join-unregisters", ok, w, "join returns leaving itself registered as the joiner: the task "
                 "cannot be joined again and a later end wakes a task that no longer waits", p)
    c.does(nw, "join suspends")
    c.does(any(eq(p, p.val, ZERO) is True for p in rets(ps)), "join reports success")
    if not rules:
        return
    # the end wakes the joiner

    def wakes_joiner(p, T, before):
        jv = [e.val for e in p.events if e.k == "read" and e.addr == T.plus(ly.joiner)]
        if not jv:
            return False
        j = jv[-1]
        if eq(p, j, ZERO) is True:
            return True
        return any(e.args[0] == j and e.n < before for e in p.calls("hev_task_wakeup"))
    in_sched = []
    for p in c.paths("hev_task_system_run", inline={"hev_task_yield", "hev_task_self"},
                     opaque={"hev_task_unref", "hev_task_system_wakeup_task"}):
        ctx = ctx_of(p)
        if p.end in ("ret", "noreturn") and p.val != "abort" and ctx is not None and \
                setjmp_case(p, ly, ctx) == ly.COUNT:
            un = p.calls("hev_task_unref")
            in_sched.append(bool(un) and wakes_joiner(p, un[0].args[0], un[0].n))
    sched_all = bool(in_sched) and all(in_sched)
    for f in ("hev_task_executer", "hev_task_exit"):
        k = 0
        for p in c.paths(f, inline={"hev_task_self"}):
            lj = p.calls("_longjmp")
            if p.end != "noreturn" or not lj:
                continue
            k += 1
            if f == "hev_task_executer":
                T = [argn(pr, f, 0)]
            else:
                ctx = ctx_of(p)
                T = [e.val for e in reads(p, ctx.plus(ly.cur))]
            if f == "hev_task_executer":
                ctx = ctx_of(p)
                T += [e.val for e in reads(p, ctx.plus(ly.cur))] if ctx is not None else []
            ok = sched_all or any(wakes_joiner(p, x, lj[0].n) for x in T)
            c.ob("end-wakes-joiner", ok, lj[0], "a task ending through %s does not wake the task joining "
                 "it" % ("its entry's return" if f.endswith("executer") else "exit"), p)
        c.does(k, f + " ends the task")


def C05(c):
    join(c)
