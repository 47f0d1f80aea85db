"""C32 start-up and shut-down of the task system."""
from .core import *
from .core import absint
from . import rules_ref
from .rules_itc import known, nonzero, zero
from .rules_own import BOUND, FALL, HEAP, OBJ, REL, kname, last_stores, parts, success, track

SETD = "hev_memory_allocator_set_default"
PARTS = {"reactor": "reactor", "timer": "timer", "stack_detector": "detector"}
OPAQ = BOUND | {SETD, "hev_memory_allocator_default"}


def tls_reads(p):
    return [e for e in p.events if e.k == "read" and (Analyzer.root(e.addr) or ("",))[0] == "tls"]


def sets(p):
    return p.calls("pthread_setspecific")


class Dflt:
    """the thread's default allocator along a path"""

    def __init__(self, c, p):
        self.cur = self.first = S(("op", "default", ZERO, ZERO))
        self.alias = {}
        self.home = {}          # memory -> allocator it came from
        self.gone = {}          # allocator -> event that dropped it
        self.out = []           # allocators taken out of service: (result term, allocator, event)
        res = {}
        for e in p.events:
            if e.k != "call":
                continue
            if e.name == SETD:
                self.alias[e.ret] = self.cur
                self.out.append((e.ret, self.cur, e))
                self.cur = self.of(e.args[0])
                c.ob("allocator-alive", self.cur not in self.gone, e, "a released allocator is made the default", p)
            elif e.name in HEAP and HEAP[e.name] == "hev" or e.name in OBJ and OBJ[e.name] not in (
                    "allocator", "detector"):
                self.home[e.ret] = self.cur
                c.ob("allocator-alive", self.cur not in self.gone, e, "memory is taken from a released allocator", p)
            elif e.name == "hev_memory_allocator_unref":
                a = self.of(e.args[0])
                c.ob("allocator-once", a not in self.gone, e, "an allocator is released twice", p)
                c.ob("allocator-once", a != self.cur or zero(p, e.args[0]), e, "the allocator in use is released", p)
                c.ob("allocator-once", nonzero(p, e.args[0]), e, "an allocator that may not exist is released", p)
                self.gone[a] = e
            elif e.name in REL and REL[e.name] not in ("libc", "fd", "map", "detector", "allocator", "work"):
                h = self.home.get(e.args[0])
                if h is None:
                    h = self.first          # made before the call
                c.ob("allocator-same", h == self.cur and h not in self.gone, e,
                     "memory is given back to another allocator than it came from", p)

    def of(self, t):
        return self.alias.get(t, t)


def context_uses(c, f):
    """fields of the thread's context a function reads"""
    out = set()
    pr = prog()
    if f not in pr.mod.functions or pr.mod.functions[f].decl:
        return out
    for p in c.paths(f, opaque=OPAQ - {f}):
        for e in tls_reads(p):
            out.add(None)
            for x in p.events:
                if x.k == "read" and Analyzer.root(x.addr) == e.val.sym():
                    d = x.addr.sub(e.val)
                    if d.isconst():
                        out.add(d.c)
    return out


def init(c, cfg):
    pr = prog(cfg)
    f = "hev_task_system_init"
    offs = {pr.off("_HevTaskSystemContext", k): v for k, v in PARTS.items()}
    need = {g: context_uses(c, g) for g in OBJ if g in pr.mod.functions}
    good = bad = again = 0
    for p in rets(c.paths(f, cfg, opaque=OPAQ - {f})):
        w = where_of(p)
        r = holds(p, cmp("slt", p.val, ZERO))
        if r is None:
            c.ob("init-result", False, w, "the result does not tell whether initialisation succeeded", p)
            continue
        tr = tls_reads(p)
        c.ob("init-looks", bool(tr), w, "initialises without looking whether the thread is initialised already", p)
        if tr and nonzero(p, tr[0].val):
            again += 1
            eff = [e for e in p.events if e.k in ("call", "icall") and e.name not in
                   ("pthread_once", "pthread_getspecific")] + shared_stores(p)
            c.ob("init-twice", r is True and not eff, eff[0] if eff else w, "a second initialisation disturbs the "
                 "running system", p)
            continue
        if tr:
            c.ob("init-looks", zero(p, tr[0].val), w, "initialises without looking whether the thread is "
                 "initialised already", p)
        D = Dflt(c, p)
        res, _ = track(c, p, f)
        mem = [x for x in res if x.kind != "allocator"]
        made = [x for x in res if x.kind == "allocator"]
        ss = sets(p)
        for e in ss:
            c.ob("init-context", zero(p, e.args[1]) or any(x.val == e.args[1] and x.rel is None or
                 x.val == e.args[1] and x.rel.n > e.n for x in mem), e, "the thread's context is set to something "
                 "else than new or no memory", p)
        ctx = [x.args[1] for x in ss if success(p, x) is True or zero(p, x.args[1])]
        cur = ctx[-1] if ctx else ZERO
        if r is True:
            bad += 1
            c.ob("init-undone", zero(p, cur), w, "the thread keeps a context after a failed initialisation", p)
            for x in mem:
                if x.ok is not False:
                    c.ob("init-undone", x.rel is not None, x.ev, "%s stays behind after a failed initialisation" %
                         kname(x.kind), p)
            c.ob("init-undone", D.cur == D.first, w, "the thread's allocator is not the same as before a failed "
                 "initialisation", p)
            c.ob("init-undone", D.first not in D.gone, w, "the thread's allocator is released by a failed "
                 "initialisation", p)
            for t, a, e in D.out:
                if a != D.first:
                    c.ob("init-undone", a in D.gone or zero(p, t), e, "an allocator stays behind after a failed "
                         "initialisation", p)
            for x in made:
                c.ob("init-undone", x.ok is False or any(a == x.val for _, a, _ in D.out) or x.val in D.gone, x.ev,
                     "an allocator stays behind after a failed initialisation", p)
            continue
        good += 1
        c.ob("init-complete", any(x.val == cur and x.ok is True and x.rel is None for x in mem), w,
             "initialisation succeeds without a context for the thread", p)
        st = last_stores(p)
        for o, k in offs.items():
            e = st.get(cur.plus(o))
            ok = e is not None and any(x.kind == k and x.val == e.val and x.ok is True and x.rel is None for x in mem)
            c.ob("init-complete", ok, w, "initialisation succeeds without the thread's own %s" % k, p)
        for x in mem:
            n = sum(1 for a, e in st.items() if a.sub(cur).isconst() and e.val == x.val)
            c.ob("init-complete", x.val == cur or x.rel is not None or n == 1, x.ev,
                 "%s is not kept exactly once" % kname(x.kind), p)
        for x in made:
            c.ob("init-allocator", D.cur == x.val and x.val not in D.gone, w, "the thread does not end up with its own "
                 "allocator", p)
        if not made:
            c.ob("init-allocator", cfg == "noslice", w, "the thread does not get an allocator of its own", p)
        for t, a, e in D.out:
            c.ob("init-allocator", a in D.gone or zero(p, t), e, "the replaced allocator is not released", p)
        # parts made with the help of others find them in place
        for e in p.events:
            if e.k == "call" and need.get(e.name):
                before = [x for x in ss if x.n < e.n]
                ok = bool(before) and before[-1].args[1] == cur
                c.ob("init-order", ok, e, "a part is made before the thread has the context it looks into", p)
                for o in need[e.name] - {None}:
                    v = val_at(p, cur.plus(o), e.n)
                    c.ob("init-order", v is not None and not zero(p, v), e,
                         "a part is made before another part it needs", p)
    c.does(good, "initialisation succeeds")
    c.does(bad > 1, "initialisation can fail")
    c.does(again, "a second initialisation is refused")


def fini(c, cfg):
    pr = prog(cfg)
    f = "hev_task_system_fini"
    fo = {k: pr.off("_HevTaskSystemContext", k) for k in list(PARTS) + ["dns_proxy"]}
    kinds = dict(PARTS, dns_proxy="proxy")
    uses = {g: context_uses(c, g) for g in REL if g in pr.mod.functions}
    n = 0
    for p in rets(c.paths(f, cfg, opaque=OPAQ - {f})):
        w = where_of(p)
        tr = tls_reads(p)
        if not tr:
            c.ob("fini-complete", False, w, "shuts down without looking at the thread's context", p)
            continue
        ctx = tr[0].val
        if zero(p, ctx):
            eff = [e for e in p.events if e.k == "call" and e.name in REL]
            c.ob("fini-complete", not eff, w, "releases parts of a system that is not there", p)
            continue
        n += 1
        D = Dflt(c, p)
        dead = {}
        freed = None
        rel = [e for e in p.events if e.k == "call" and e.name in REL]
        used = set()
        for k, o in fo.items():
            v = [x.val for x in reads(p, ctx.plus(o))]
            hit = [e for e in rel if REL[e.name] == kinds[k] and any(eq(p, e.args[0], x) is True for x in v)]
            none = k == "dns_proxy" and any(zero(p, x) for x in v)
            c.ob("fini-complete", len(hit) == (0 if none else 1), w, "the %s is released %d times" % (kinds[k],
                 len(hit)), p)
            if k == "dns_proxy" and hit:
                c.ob("fini-complete", nonzero(p, hit[0].args[0]), hit[0], "a lookup proxy that may not exist is "
                     "released", p)
            for e in hit:
                dead[o] = e.n
                used.add(e.n)
        hit = [e for e in rel if REL[e.name] == "hev" and eq(p, e.args[0], ctx) is True]
        c.ob("fini-complete", len(hit) == 1, w, "the context is released %d times" % len(hit), p)
        if hit:
            freed = hit[0].n
            used.add(freed)
            for e in p.events:
                if e.n > freed and e.k in ("read", "store") and Analyzer.root(e.addr) == ctx.sym():
                    c.ob("fini-order", False, e, "the context is used after its release", p)
        ss = sets(p)
        c.ob("fini-context", bool(ss) and zero(p, ss[-1].args[1]), w, "the thread keeps its context after shut-down, "
             "it cannot be initialised again", p)
        unset = [e.n for e in ss if zero(p, e.args[1])]
        for e in rel:
            if REL[e.name] == "allocator":
                used.add(e.n)
            c.ob("fini-else", e.n in used, e, "something is released that is not part of the system", p)
            for o in uses.get(e.name, ()):
                if o is None:
                    ok = not (freed is not None and e.n > freed) and not any(e.n > u for u in unset)
                else:
                    ok = not (o in dead and e.n > dead[o])
                c.ob("fini-order", ok, e, "a part is released with the help of one that is gone", p)
        for t, a, e in D.out:
            c.ob("fini-allocator", a in D.gone or zero(p, t), e, "the thread's allocator is not released", p)
        c.ob("fini-allocator", D.cur not in D.gone and D.cur != D.first and zero(p, D.cur), w,
             "the thread keeps an allocator after shut-down", p)
    c.does(n, "shut-down releases the system")


def C32(c):
    for cfg in ("default", "noslice"):
        init(c, cfg)
        fini(c, cfg)
    key(c)
    parts(c, {"hev_task_io_reactor_new", "hev_task_timer_new", "hev_task_stack_detector_new",
              "hev_task_dns_proxy_new", "hev_memory_allocator_slice_new"})
    from . import rules_mem
    rules_ref.allocator(c)
    c.only = {"slice-destroy"}
    rules_mem.slice_(c, "default")
    c.only = {"alloc-default"}
    rules_mem.C25(c)
    c.only = None


def key(c, fs=("hev_task_system_init", "hev_memory_allocator_set_default", "hev_memory_allocator_default")):
    """the key for the thread's data is made, once for the process, before it is used"""
    pr = prog()
    for f in fs:
        for p in rets(c.paths(f, opaque=OPAQ - {f})):
            tr = tls_reads(p) + sets(p)
            on = p.calls("pthread_once")
            ok = bool(on) and all(e.n > on[0].n for e in tr)
            fn = on[0].args[1].sym() if on else None
            ok = ok and fn is not None and fn[0] == "fn" and fn[1] in pr.mod.functions
            c.ob("thread-key", ok, where_of(p), "thread-specific data is used before its key was made", p)
            if not ok:
                continue
            keys = {Analyzer.root(e.addr)[1] for e in tls_reads(p)}
            for q in rets(c.paths(fn[1])):
                kc = q.calls("pthread_key_create")
                g = Analyzer.root(kc[0].args[0]) if kc else None
                c.ob("thread-key", len(kc) == 1 and zero(q, kc[0].args[1]) and g is not None and
                     all(k in (g, g[1]) for k in keys), where_of(q), "the key for the thread's data is not made", q)
