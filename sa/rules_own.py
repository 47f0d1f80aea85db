"""C18 ownership: what constructors and initialisers acquire is released once or handed out on every exit."""
from .core import *
from .core import absint
from .rules_itc import known, nonzero, zero
from .rules_time import macro_sys

LT0 = lambda v: cmp("slt", v, ZERO)
HEAP = {"hev_malloc": "hev", "hev_malloc0": "hev", "hev_calloc": "hev", "malloc": "libc", "calloc": "libc",
        "hev_memory_allocator_alloc": "hev"}
OBJ = {"hev_task_io_reactor_new": "reactor", "hev_task_timer_new": "timer",
       "hev_task_stack_detector_new": "detector", "hev_task_stack_new": "stack",
       "hev_circular_buffer_new": "ring", "hev_task_dns_proxy_new": "proxy",
       "hev_memory_allocator_slice_new": "allocator", "hev_memory_allocator_simple_new": "allocator",
       "hev_task_new": "task", "hev_task_call_new": "call", "hev_task_channel_select_new": "selector"}
FDS = {"open", "open64", "openat", "openat64", "dup", "dup2", "dup3", "socket", "accept", "accept4", "timerfd_create",
       "epoll_create", "epoll_create1", "eventfd", "signalfd", "inotify_init", "inotify_init1", "memfd_create",
       "creat"}
PAIRS = {"pipe": 0, "pipe2": 0, "socketpair": 3}
REL = {"hev_free": "hev", "free": "libc", "close": "fd", "munmap": "map", "hev_task_io_reactor_destroy": "reactor",
       "hev_task_timer_destroy": "timer", "hev_task_stack_detector_destroy": "detector",
       "hev_task_stack_destroy": "stack", "hev_circular_buffer_unref": "ring", "hev_task_dns_proxy_destroy": "proxy",
       "hev_memory_allocator_unref": "allocator", "hev_task_unref": "task", "hev_task_call_destroy": "call",
       "hev_task_channel_select_destroy": "selector", "hev_task_aide_del": "work"}
NULLOK = {"hev", "libc", "fd"}          # kinds whose release of "nothing" is harmless
TAKEN = {"hev_circular_buffer_ref": "ring", "hev_task_ref": "task", "hev_memory_allocator_ref": "allocator"}
FALL = {"epoll_ctl", "mprotect", "ioctl", "fcntl", "fcntl64", "pthread_setspecific", "pthread_create", "setsockopt",
        "hev_task_aide_init", "hev_task_aide_add", "hev_task_add_fd", "hev_task_mod_fd", "sigaction", "sigaltstack",
        "hev_task_io_reactor_setup"}
BOUND = set(OBJ) | set(REL) | set(TAKEN) | {"hev_task_aide_add", "hev_task_aide_init"}
NAME = {"hev": "memory", "libc": "memory", "fd": "a descriptor", "map": "a mapping", "ring": "a buffer",
        "work": "a registration with the helper thread", "sigaltstack": "the signal stack"}


def kname(k):
    return NAME.get(k, "a signal handler" if k.startswith("sigaction") else "the " + k)


class Res:
    def __init__(self, kind, val, ev, ok):
        self.kind, self.val, self.ev, self.ok, self.rel = kind, val, ev, ok, None

    def ptr(self):
        return self.kind not in ("fd", "work") and not self.kind.startswith("sig")


def success(p, e):
    """did this fallible call succeed on the path?  True / False / None"""
    if e.name in ("pthread_setspecific", "pthread_create"):
        return eq(p, e.ret, ZERO)
    r = holds(p, LT0(e.ret))
    if r is None and eq(p, e.ret, ZERO) is True:
        return True
    if r is None and (known(p, cmp("sge", e.ret, ZERO)) or known(p, cmp("eq", e.ret, ZERO))):
        return True
    return None if r is None else not r


def sig_of(p, e):
    """(kind, address of the new setting, of the saved setting) of a signal-disposition call"""
    if e.name == "sigaltstack":
        return "sigaltstack", e.args[0], e.args[1]
    s = e.args[0]
    return "sigaction%s" % (s.c if s.isconst() else show(s)), e.args[1], e.args[2]


def track(c, p, f, own_arg=None, quiet=False):
    """walk a path: resources acquired, with where they were released; reports misuse on the way"""
    res, dead = [], []
    foreign = []
    ob = (lambda *a: None) if quiet else c.ob
    for e in p.events:
        if e.k in ("read", "store", "atomic", "memcpy", "memset"):
            addrs = [e.addr] if e.k in ("read", "store", "atomic") else [a for a in e.args[:2]]
            for r in dead:
                if r.ptr() and any(isinstance(a, L) and Analyzer.root(a) == Analyzer.root(r.val) for a in addrs):
                    ob("own-use-after", False, e, "%s is used after its release" % kname(r.kind), p)
            for r in res:
                if r.ptr() and r.ok is not True and any(isinstance(a, L) and Analyzer.root(a) == Analyzer.root(r.val)
                                                        for a in addrs):
                    ob("own-unchecked", False, e, "%s is used without having checked that it was acquired" %
                       kname(r.kind), p)
            continue
        if e.k not in ("call", "icall"):
            continue
        nm = e.name if e.k == "call" else None
        kind = REL.get(nm)
        for r in dead:
            for a in e.args:
                if not isinstance(a, L):
                    continue
                hit = Analyzer.root(a) == Analyzer.root(r.val) if r.ptr() else \
                    r.kind == "fd" and a.sym() is not None and a == r.val
                if hit:
                    ob("own-use-after", False, e, "%s is %s after its release" % (
                        kname(r.kind), "released again" if kind else "used"), p)
        if kind:
            hit = [r for r in res if r.rel is None and r.ptr() == (kind not in ("fd", "work")) and
                   eq(p, e.args[0], r.val) is True and not r.kind.startswith("sig")]
            if hit:
                r = hit[0]
                ok = r.kind == kind
                if ok and kind == "map":
                    ok = eq(p, e.args[1], r.ev.args[1]) is True
                ob("own-right-release", ok, e, "%s is not released the way it was acquired" % kname(r.kind), p)
                if r.ok is False and kind not in NULLOK:
                    ob("own-right-release", False, e, "%s that was never acquired is released" % kname(kind), p)
                r.rel = e
                dead.append(r)
                continue
            if kind in NULLOK and zero(p, e.args[0]):
                continue
            if any(Analyzer.root(e.args[0]) == Analyzer.root(r.val) for r in dead if r.ptr()):
                continue                                # reported above
            foreign.append(e)
            if own_arg is not None and Analyzer.root(e.args[0]) == Analyzer.root(own_arg):
                r = Res(kind, e.args[0], e, True)
                r.rel = e
                if e.args[0] == own_arg:
                    dead.append(r)
                continue
            continue
        if nm in ("sigaction", "sigaltstack"):
            k, new, old = sig_of(p, e)
            if zero(p, new):
                continue
            hit = [r for r in res if r.kind == k and r.rel is None and r.val == new]
            if hit:
                hit[-1].rel = e
            elif zero(p, old):
                foreign.append(e)
            else:
                res.append(Res(k, old, e, success(p, e)))
            continue
        if nm in HEAP or nm in OBJ:
            ok = nonzero(p, e.ret) or (False if zero(p, e.ret) else None)
            res.append(Res(HEAP.get(nm) or OBJ[nm], e.ret, e, True if ok else ok))
        elif nm in ("mmap", "mmap64"):
            r = holds(p, cmp("eq", e.ret, C(-1)))
            res.append(Res("map", e.ret, e, None if r is None else not r))
        elif nm in FDS:
            res.append(Res("fd", e.ret, e, success(p, e)))
        elif nm in TAKEN:
            res.append(Res(TAKEN[nm], e.args[0], e, True))
        elif nm in PAIRS:
            a = e.args[PAIRS[nm]]
            for o in (0, 4):
                r = [x.val for x in reads(p, a.plus(o), after=e.n)]
                res.append(Res("fd", r[0] if r else S(("cell", show(a.plus(o)), e.n)), e, success(p, e)))
                res[-1].cell = a.plus(o)
        elif nm == "hev_task_aide_add":
            res.append(Res("work", e.args[0], e, success(p, e)))
    return res, foreign


def last_stores(p):
    m = {}
    for e in p.events:
        if e.k == "store":
            m[e.addr] = e
    return m


def reach(p, res):
    """roots and values held by memory that outlives the call or by the result"""
    own = {Analyzer.root(r.val): r for r in res if r.ptr() and r.ok is not False}
    st = last_stores(p)
    roots, vals = set(), set()
    if isinstance(p.val, L):
        roots.add(Analyzer.root(p.val))
        vals.add(p.val)
    ch = True
    while ch:
        ch = False
        for a, e in st.items():
            ra = Analyzer.root(a)
            if ra is None or ra[0] == "alloca" or (ra in own and ra not in roots):
                continue
            if not isinstance(e.val, L):
                continue
            rv = Analyzer.root(e.val)
            if e.val not in vals or (rv is not None and rv not in roots):
                vals.add(e.val)
                roots.add(rv)
                ch = True
    return roots, vals


def outcome(p, kind):
    if kind == "ptr":
        return True if nonzero(p, p.val) else False if zero(p, p.val) else None
    r = holds(p, LT0(p.val))
    return None if r is None else not r


def ctor(c, f, kind, cfg="default", built=None, **kw):
    """one constructor: returns fields of the object that hold resources: {offset: (kind, optional)}"""
    pr = prog(cfg)
    kw.setdefault("opaque", BOUND - {f})
    good = bad = 0
    fields, seen = {}, []
    me = argn(pr, f, 0) if built else None
    for p in rets(c.paths(f, cfg, **kw)):
        w = where_of(p)
        res, foreign = track(c, p, f)
        for e in foreign:
            a = loaded_from(e.args[0])
            if built and a is not None and Analyzer.root(a) == Analyzer.root(me):
                continue            # the object starts out zeroed: there is nothing to load yet
            c.ob("own-nothing-else", False, e, "something is released that the call did not acquire", p)
        oc = outcome(p, kind) if kind != "scope" else False
        thru = isinstance(p.val, L) and any(eq(p, p.val, r.ev.ret) is True for r in res if r.ok is None)
        if oc is None and thru:
            oc = True
            bad += 1
        if oc is None:
            c.ob("own-result", False, w, "the result does not tell whether the call succeeded", p)
            continue
        if not oc:
            bad += 1
            for r in res:
                if r.ok is False:
                    continue
                if r.ok is None and r.rel is None:
                    c.ob("own-released", False, r.ev, "%s may have been acquired and is not released on a failing "
                         "exit" % kname(r.kind), p)
                    continue
                c.ob("own-released", r.rel is not None, r.ev, "%s is not released %s" % (
                    kname(r.kind), "at the end" if kind == "scope" else "when the call fails"), p)
            for a, e in last_stores(p).items():
                ra = Analyzer.root(a)
                if ra is None or ra[0] == "alloca" or not isinstance(e.val, L):
                    continue
                if built and ra == Analyzer.root(me):
                    continue
                hit = [r for r in res if r.rel is not None and r.ptr() and Analyzer.root(e.val) ==
                       Analyzer.root(r.val)]
                inside = [r for r in res if r.rel is not None and r.ptr() and ra == Analyzer.root(r.val)]
                if hit and not inside:
                    c.ob("own-dangling", False, e, "a reference to %s stays behind after its release" %
                         kname(hit[0].kind), p)
            continue
        good += 1
        roots, vals = reach(p, res)
        for r in res:
            if r.ok is False:
                c.ob("own-complete", False, w, "the call succeeds although it did not get %s" % kname(r.kind), p)
                continue
            if r.ok is None:
                c.ob("own-complete", thru and eq(p, p.val, r.ev.ret) is True, r.ev,
                     "the call succeeds without having checked that it got %s" % kname(r.kind), p)
                continue
            if r.rel is not None:
                if not r.kind.startswith("sig"):
                    back = r.ptr() and Analyzer.root(r.val) in roots or not r.ptr() and r.val in vals
                    c.ob("own-handed-out", not back, r.rel, "%s is handed out and released" % kname(r.kind), p)
                continue
            if r.kind.startswith("sig"):
                ok = Analyzer.root(r.val) in roots
            elif r.ptr():
                ok = Analyzer.root(r.val) in roots
            elif r.kind == "work":
                ok = Analyzer.root(r.val) in roots
            else:
                ok = r.val in vals or getattr(r, "cell", None) is not None and \
                    (Analyzer.root(r.cell) or ("",))[0] != "alloca"
            c.ob("own-handed-out", ok, r.ev, "%s is neither kept nor released" % kname(r.kind), p)
        for e in p.events:
            if e.k == "call" and e.name in FALL and e.ret is not None:
                if e.name.startswith("fcntl") and eq(p, e.args[1], C(macro_sys("F_GETPIPE_SZ"))) is True:
                    continue
                c.ob("own-complete", success(p, e) is True, e, "the call succeeds although a step of it (%s) may "
                     "have failed" % e.name, p)
        # fields of the object that hold resources
        obj = me if built else p.val
        fl = {}
        for r in res:
            if r.ok is not True or r.rel is not None:
                continue
            if r.kind.startswith("sig") or r.kind == "work":
                d = r.val.sub(obj)
                if d.isconst():
                    fl[(d.c, r.kind)] = r.kind
                continue
            for a, e in last_stores(p).items():
                d = a.sub(obj)
                if d.isconst() and e.val == r.val and r.val != obj:
                    fl[(d.c, r.kind)] = r.kind
        seen.append(fl)
        for o, k in fl.items():
            fields[o] = k
        mem = [r for r in res if r.ptr() and r.val == obj]
        if mem:
            fields[None] = mem[0].kind
    c.does(good or kind == "scope", "%s succeeds" % f)
    c.does(bad, "%s can fail" % f)
    return {o: (k, o is not None and any(o not in s for s in seen)) for o, k in fields.items()}


def dtor(c, f, fields, cfg="default", counted=False, **kw):
    """the destructor releases every field the constructor filled, and the memory, exactly once"""
    pr = prog(cfg)
    me = argn(pr, f, 0)
    kw.setdefault("opaque", BOUND - {f})
    did = 0
    for p in rets(c.paths(f, cfg, **kw)):
        w = where_of(p)
        _, rel = track(c, p, f, own_arg=me)
        mine = [e for e in rel if REL.get(e.name) == fields.get(None, ("hev",))[0] and eq(p, e.args[0], me) is True]
        if counted and not mine:
            c.ob("own-destroyed", not rel, w, "parts of the object are released while it is still referenced", p)
            continue
        did += 1
        used = set()
        for o, (k, opt) in fields.items():
            o = o[0] if o else None
            if o is None:
                hit = mine
                nothing = False
            elif k.startswith("sig"):
                hit = [e for e in rel if e.name in ("sigaction", "sigaltstack") and sig_of(p, e)[0] == k and
                       sig_of(p, e)[1] == me.plus(o)]
                nothing = False
            elif k == "work":
                hit = [e for e in rel if e.name == "hev_task_aide_del" and e.args[0] == me.plus(o)]
                nothing = False
            else:
                v = [x.val for x in reads(p, me.plus(o))]
                hit = [e for e in rel if REL.get(e.name) == k and any(eq(p, e.args[0], x) is True for x in v)]
                nothing = opt and any(zero(p, x) or k == "fd" and known(p, LT0(x)) for x in v)
            c.ob("own-destroyed", len(hit) == 1 or nothing and not hit, w, "%s of the object is released %d times"
                 % (kname(k), len(hit)), p)
            used |= {e.n for e in hit}
        for e in rel:
            c.ob("own-nothing-else", e.n in used, e, "the destructor releases something the object does not own", p)
    c.does(did, "%s releases the object" % f)


CTORS = [("hev_circular_buffer_new", "ptr", "hev_circular_buffer_unref", True),
         ("hev_memory_allocator_simple_new", "ptr", None, False),
         ("hev_memory_allocator_slice_new", "ptr", None, False),
         ("hev_task_call_new", "ptr", "hev_task_call_destroy", False),
         ("hev_task_channel_new", "int", None, False),
         ("hev_task_channel_new_with_buffers", "int", None, False),
         ("hev_task_channel_select_new", "ptr", "hev_task_channel_select_destroy", False),
         ("hev_task_cio_fd_new", "ptr", None, False),
         ("hev_task_cio_null_new", "ptr", None, False),
         ("hev_task_cio_socket_new", "ptr", None, False),
         ("hev_task_cio_buffer_new", "ptr", None, False),
         ("hev_task_dns_proxy_new", "ptr", "hev_task_dns_proxy_destroy", False),
         ("hev_task_io_reactor_new", "ptr", "hev_task_io_reactor_destroy", False),
         ("hev_task_new", "ptr", "hev_task_unref", True),
         ("hev_task_stack_detector_new", "ptr", "hev_task_stack_detector_destroy", False),
         ("hev_task_stack_new", "ptr", "hev_task_stack_destroy", False),
         ("hev_task_timer_new", "ptr", "hev_task_timer_destroy", False)]


def C18(c):
    for f, kind, d, cnt in CTORS:
        for cfg in ("default", "heap", "nodetect") if "stack_new" in f else ("default",):
            fl = ctor(c, f, kind, cfg)
            if d:
                dtor(c, d, fl, cfg, cnt)
    ctor(c, "hev_task_cio_buffer_construct", "int", built=True)
    for cfg in ("default", "nosplice"):
        ctor(c, "hev_task_io_splice", "scope", cfg, opaque=BOUND | {"task_io_splice"}, nomem={"task_io_splice"})
    ctor(c, "hev_task_cio_splice", "scope", opaque=BOUND | {"task_cio_splice", "hev_task_io_splice",
                                                            "hev_task_cio_get_fd"},
         nomem={"task_cio_splice", "hev_task_cio_get_fd"})
    # the parts whose making and release have rules of their own
    from . import rules_cio, rules_itc, rules_mem, rules_ref, rules_sys
    c.ctor = set()
    rules_itc.destroy(c)
    rules_cio.C22(c)
    rules_ref.C26(c)
    for cfg in ("default", "noslice"):
        rules_sys.init(c, cfg)
        rules_sys.fini(c, cfg)
    c.only = {"slice-destroy"}
    rules_mem.slice_(c, "default")
    c.only = None


def parts(c, names):
    """making and release of some of the constructors above"""
    for f, kind, d, cnt in CTORS:
        if f in names:
            fl = ctor(c, f, kind)
            if d:
                dtor(c, d, fl, counted=cnt)
