"""C28 process-wide state and the state of each thread's scheduler."""
from .core import *
from .rules_itc import known
from .rules_own import last_stores

SYNC = ("pthread_mutex_", "pthread_cond_", "pthread_once", "pthread_rwlock_", "pthread_spin_")
# pointer arguments these only read (or only keep)
READS = {"write": (1,), "send": (1,), "sendto": (1, 4), "memcmp": (0, 1), "strlen": (0,), "epoll_ctl": (3,),
         "sigaction": (1,), "pthread_setspecific": (1,), "memcpy": (1,), "memmove": (1,), "pthread_sigmask": (1,),
         "timerfd_settime": (2,), "nanosleep": (0,), "poll": (), "pthread_create": (1, 3)}
SAME = {"getpagesize", "sysconf"}
ALLOC = {"hev_malloc", "hev_malloc0", "hev_calloc", "malloc", "calloc"}
# blocks of memory carry nothing from one owner to the next
HEAP_API = {"hev_malloc", "hev_malloc0", "hev_calloc", "hev_realloc", "hev_free"}


def ext(f):
    """name of a library or compiler function without its decorations"""
    for n in ("memcpy", "memmove", "memset"):
        if f.startswith("llvm." + n):
            return n
    return f.lstrip("_").replace("_chk", "") if f.startswith("__") and f.endswith("_chk") else f


class Flow:
    """where the addresses of file-level variables and functions may go: flow-insensitive, by field"""

    def __init__(self, mod):
        self.mod = mod
        self.pts = {}
        self.work = []
        self.edges = {}
        self.loads = []
        self.stores = []
        self.calls = []
        self.cut = set()
        self.own = {}           # addresses within an object, not those of the object
        self.callers = {}
        self.taken = set()

    def run(self):
        m = self.mod
        for f in m.functions.values():
            if not f.decl:
                for b in f.blocks:
                    for i in b.insts:
                        self.inst(f, i)
        for g, d in m.globals.items():
            if d["decl"]:
                continue
            for o in range(0, min(d["size"], 4096), 8):
                v = m.ginit(g, o)
                if v is not None and v[0] in ("g", "f", "gepc"):
                    self.flow(f, v, ("gc", g))
        self.solve()
        return self

    def node(self, f, o):
        return ("v", f.name, o[1])

    def flow(self, f, o, n):
        """operand o of function f goes to node n"""
        if o[0] == "v":
            self.edge(self.node(f, o), n)
        elif o[0] == "gepc":
            self.flow(f, o[1], n)
        elif o[0] in ("g", "f"):
            self.add(n, {(o[0], o[1])})
            if o[0] == "f":
                self.taken.add(o[1])

    def edge(self, a, b):
        if b not in self.edges.setdefault(a, set()):
            self.edges[a].add(b)
            if self.pts.get(a):
                self.add(b, self.pts[a])

    def add(self, n, s):
        if n in self.cut:
            s = {x for x in s if x[0] != "g"}
        if n in self.own:
            s = {x for x in s if x[0] not in ("a", "al") or x == self.own[n]}
        new = s - self.pts.setdefault(n, set())
        if new:
            self.pts[n] |= new
            self.work.append((n, new))

    def at(self, f, o):
        if o[0] == "v":
            return self.pts.get(self.node(f, o), set())
        while o[0] == "gepc":
            o = o[1]
        return {(o[0], o[1])} if o[0] in ("g", "f") else set()

    def inst(self, f, i):
        me = ("v", f.name, i.id)
        if i.op == "gep":
            tag = i.extra[2]
            if tag is not None and len(tag) == 2:
                self.own[me] = ("a", tag)
                self.add(me, {("a", tag)})
            elif tag is None and (i.extra[0] or i.extra[1]):
                self.own[me] = None
            self.flow(f, i.ops[0], me)
        elif i.op in ("bitcast", "inttoptr", "ptrtoint", "freeze", "add", "sub", "and", "or"):
            for o in i.ops:
                self.flow(f, o, me)
        elif i.op == "select":
            for o in i.ops[1:]:
                self.flow(f, o, me)
        elif i.op == "phi":
            for o, _ in i.extra:
                self.flow(f, o, me)
        elif i.op == "alloca":
            self.add(me, {("al", f.name, i.id)})
        elif i.op == "load":
            self.loads.append((f, i))
        elif i.op == "store":
            self.stores.append((f, i))
        elif i.op in ("atomicrmw", "cmpxchg"):
            self.stores.append((f, i))
        elif i.op == "ret":
            for o in i.ops:
                self.flow(f, o, ("ret", f.name))
        elif i.op == "call":
            self.calls.append((f, i))

    @staticmethod
    def cells(s):
        r = set()
        tags = [x for x in s if x[0] == "a"]
        for x in s:
            if x[0] == "a":
                r.add(("cell",) + tuple(x[1]))
            elif x[0] == "al" and not tags:
                r.add(("cell",) + tuple(x[1:]))
            elif x[0] == "g" and not tags:
                r.add(("gc", x[1]))
        return r

    def targets(self, f, i):
        if i.extra[0] == "f":
            return [i.extra[1]]
        return [x[1] for x in self.at(f, i.extra) if x[0] == "f"] if i.extra[0] == "v" else []

    def addrs(self, f, o):
        s = self.at(f, o)
        if o[0] == "gepc" and o[3] is not None and len(o[3]) == 2:
            s = s | {("a", o[3])}
        return s

    def solve(self):
        done = None
        while True:
            while self.work:
                n, s = self.work.pop()
                for b in self.edges.get(n, ()):
                    self.add(b, s)
            for f, i in self.loads:
                for x in self.cells(self.addrs(f, i.ops[0])):
                    self.edge(x, ("v", f.name, i.id))
            for f, i in self.stores:
                if i.op == "store":
                    for x in self.cells(self.addrs(f, i.ops[1])):
                        self.flow(f, i.ops[0], x)
            for f, i in self.calls:
                for t in self.targets(f, i):
                    g = self.mod.functions.get(t)
                    if g is None or g.decl:
                        n = ext(t)
                        if n in ("memcpy", "memmove", "memset", "realloc") and i.ops:
                            self.flow(f, i.ops[0], ("v", f.name, i.id))
                        if n == "pthread_create" and len(i.ops) == 4:
                            for x in self.at(f, i.ops[2]):
                                h = self.mod.functions.get(x[1]) if x[0] == "f" else None
                                if h is not None and h.args:
                                    self.flow(f, i.ops[3], ("v", h.name, h.args[0][0]))
                        for o in i.ops:
                            if o[0] == "f":
                                self.taken.add(o[1])
                        continue
                    self.callers.setdefault(t, set()).add((f.name, i.id))
                    if t in HEAP_API:
                        continue
                    for k, o in enumerate(i.ops):
                        if k < len(g.args):
                            self.flow(f, o, ("v", t, g.args[k][0]))
                    self.edge(("ret", t), ("v", f.name, i.id))
            st = (sum(len(x) for x in self.pts.values()), sum(len(x) for x in self.edges.values()))
            if st == done and not self.work:
                return
            done = st


def locks(fl):
    """locks (file-level ones) certainly held before each instruction: {(function, inst): set}"""
    mod = fl.mod
    fns = [f for f in mod.functions.values() if not f.decl]
    ALL = None
    entry = {}
    for f in fns:
        free = not f.internal or f.name in fl.taken or f.name not in fl.callers
        entry[f.name] = frozenset() if free else ALL

    def name(f, o):
        s = [x[1] for x in fl.at(f, o) if x[0] == "g"]
        return s[0] if len(s) == 1 else None

    # what a call to f adds or removes, in its simplest form: a lock function wrapped
    at = {}
    for _ in range(8):
        changed = False
        for f in fns:
            ins = {b.idx: ALL for b in f.blocks}
            if entry[f.name] is ALL:
                continue
            ins[0] = entry[f.name]
            work = [f.blocks[0]]
            while work:
                b = work.pop()
                h = ins[b.idx]
                for i in b.insts:
                    at[f.name, i.id] = h
                    if i.op == "call" and i.extra[0] == "f":
                        if i.extra[1] == "pthread_mutex_lock":
                            n = name(f, i.ops[0])
                            h = h | {n} if n else h
                        elif i.extra[1] == "pthread_mutex_unlock":
                            n = name(f, i.ops[0])
                            h = h - {n} if n else frozenset()
                        else:
                            a, r = effect(fl, i.extra[1])
                            h = (h - r) | a
                for s in b.succs:
                    new = h if ins[s.idx] is ALL else ins[s.idx] & h
                    if new != ins[s.idx]:
                        ins[s.idx] = new
                        work.append(s)
        for f in fns:
            cs = [at.get(x) for x in fl.callers.get(f.name, ())]
            if not f.internal or f.name in fl.taken or not cs:
                continue
            known_ = [x for x in cs if x is not None]
            new = frozenset.intersection(*known_) if known_ else ALL
            if new != entry[f.name]:
                entry[f.name] = new
                changed = True
        if not changed:
            break
    return at


def effect(fl, name, depth=0):
    """(locks taken, locks let go) by calling an internal function"""
    g = fl.mod.functions.get(name)
    if g is None or g.decl or depth > 4:
        return frozenset(), frozenset()
    c = fl.__dict__.setdefault("_eff", {})
    if name in c:
        return c[name]
    c[name] = (frozenset(), frozenset())
    has = any(i.op == "call" and i.extra[0] == "f" and (i.extra[1].startswith("pthread_mutex_") or
              effect(fl, i.extra[1], depth + 1) != (frozenset(), frozenset())) for b in g.blocks for i in b.insts)
    if has:
        # held at every return, let go anywhere
        out, rel = None, set()
        ins = {0: frozenset()}
        work = [g.blocks[0]]
        while work:
            b = work.pop()
            h = ins[b.idx]
            for i in b.insts:
                if i.op == "call" and i.extra[0] == "f" and i.ops and i.extra[1].startswith("pthread_mutex_"):
                    s = [x[1] for x in fl.at(g, i.ops[0]) if x[0] == "g"]
                    if i.extra[1] == "pthread_mutex_lock" and len(s) == 1:
                        h = h | {s[0]}
                    elif i.extra[1] == "pthread_mutex_unlock":
                        h = h - set(s)
                        rel |= set(s)
                elif i.op == "call" and i.extra[0] == "f":
                    a, r = effect(fl, i.extra[1], depth + 1)
                    h = (h - r) | a
                    rel |= r
                elif i.op == "ret":
                    out = h if out is None else out & h
            for s in b.succs:
                new = h if s.idx not in ins else ins[s.idx] & h
                if ins.get(s.idx) != new:
                    ins[s.idx] = new
                    work.append(s)
        c[name] = (frozenset(out or ()), frozenset(rel))
    return c[name]


def once_only(fl):
    """functions that run at most once in the process (or before it starts)"""
    mod = fl.mod
    roots = set()
    for f, i in fl.calls:
        if i.extra == ("f", "pthread_once") or i.extra == ("f", "call_once"):
            roots |= {x[1] for x in fl.at(f, i.ops[1]) if x[0] == "f"}
    o = 8
    while "llvm.global_ctors" in mod.globals:
        v = mod.ginit("llvm.global_ctors", o)
        if v is None or v[0] != "f":
            break
        roots.add(v[1])
        o += 24
    # not also called in the ordinary way
    roots = {r for r in roots if not fl.callers.get(r)}
    only = set(roots)
    while True:
        new = {t for t, cs in fl.callers.items() if t not in only and cs and all(c in only for c, _ in cs) and
               mod.functions[t].internal and t not in fl.taken - roots}
        if not new:
            return only
        only |= new


def expr(f, o, depth=0):
    """what a value is made of, None if of something that can differ between threads"""
    if o[0] == "c":
        return o[1]
    if o[0] in ("g", "f"):
        return o
    if o[0] != "v" or depth > 8:
        return None
    for b in f.blocks:
        for i in b.insts:
            if i.id == o[1]:
                if i.op == "call" and i.extra[0] == "f" and i.extra[1] in SAME:
                    a = tuple(expr(f, x, depth + 1) for x in i.ops)
                    return None if None in a else (i.extra[1], a)
                if i.op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "trunc", "zext", "sext", "udiv",
                            "sdiv"):
                    a = tuple(expr(f, x, depth + 1) for x in i.ops)
                    return None if None in a else (i.op, a)
                return None
    return None


def core_repo():
    from . import core
    return core.REPO


def at_line(f, i):
    return "%s:%s (%s)" % ((i.file or f.file or "?").replace(core_repo() + "/", ""), i.line, Analyzer.src(f.name))


def gsrc(g):
    return g.rsplit(".", 1)[0]


def variables(c, cfg):
    pr = prog(cfg)
    mod = pr.mod
    mut = {g for g, d in mod.globals.items() if not d["const"] and not d["decl"] and not d["tls"] and
           not g.startswith("llvm.") and not g.startswith(".str")}
    c.need(mut, "file-level variables")
    cut = set()
    fl = Flow(mod).run()
    # objects with file-level storage that are handed around: they are never written, given what they hold
    holders = {}
    for f, i in fl.loads:
        gs = {x[1] for x in fl.pts.get(("v", f.name, i.id), ()) if x[0] == "g" and x[1] in mut}
        for g in gs:
            src = fl.cells(fl.addrs(f, i.ops[0]))
            if any(("g", g) in fl.pts.get(x, ()) and x[0] == "cell" and stored_directly(fl, x, g) for x in src):
                holders.setdefault((f.name, i.id), set()).add(g)
    for (fn, ii), gs in holders.items():
        f = mod.functions[fn]
        if all(untouched(c, cfg, fn, ii, g) for g in gs):
            cut.add(("v", fn, ii))
    if cut:
        fl = Flow(mod)
        fl.cut = cut
        fl.run()
    held = locks(fl)
    once = once_only(fl)
    W = {}
    for f, i in fl.stores:
        a = i.ops[1] if i.op == "store" else i.ops[0]
        for x in fl.at(f, a):
            if x[0] == "g" and x[1] in mut:
                atomic = i.op != "store" or (len(i.extra) > 1 and i.extra[1] not in (None, "notatomic"))
                W.setdefault(x[1], []).append((f, i, atomic, i.ops[0] if i.op == "store" else None, offset(f, a)))
    for f, i in fl.calls:
        for t in fl.targets(f, i):
            g = mod.functions.get(t)
            if g is not None and not g.decl:
                continue
            n = ext(t)
            if n.startswith(SYNC) or n.startswith("llvm."):
                continue
            for k, o in enumerate(i.ops):
                if k in READS.get(n, ()):
                    continue
                for x in fl.at(f, o):
                    if x[0] == "g" and x[1] in mut:
                        W.setdefault(x[1], []).append((f, i, False, None, None))
    c.need(W, "writes to file-level variables")
    for g in sorted(W):
        ws = W[g]
        plain = [w for w in ws if not w[2] and w[0].name not in once]
        if not plain:
            for w in ws:
                c.ob("process-wide", True, at_line(w[0], w[1]), "")
            continue
        common = None
        for w in plain:
            h = held.get((w[0].name, w[1].id))
            h = frozenset() if h is None else h
            common = h if common is None else common & h
        same = same_value(plain)
        mixed = len(plain) != len(ws) and not common
        for f, i, *_ in plain:
            c.ob("process-wide", bool(common) or same and not mixed, at_line(f, i), "the process-wide variable %s is "
                 "written by any thread, without a lock all its writers take, and not only once" % gsrc(g))
    # a cached value stands alone: nothing else is made known by it
    alone = {}
    for g, ws in W.items():
        for f, i, at, v, o in ws:
            if not at and f.name not in once and not held.get((f.name, i.id)):
                alone.setdefault(f.name, set()).add((g, o))
    for fn, gs in alone.items():
        if len(gs) > 1:
            c.ob("process-wide", False, "(%s)" % Analyzer.src(fn), "several process-wide variables are set together "
                 "without a lock")
    # objects of one thread do not hang on variables of all
    S_ = "struct._HevTaskSystemContext"
    for (k, *r), s in fl.pts.items():
        if k == "cell" and r and r[0] == S_:
            for x in s:
                if x[0] == "g" and x[1] in mut:
                    c.ob("own-state", False, "(%s)" % gsrc(x[1]), "a scheduler's part is shared by all threads")
    n = 0
    for f in mod.functions.values():
        if f.decl:
            continue
        for b in f.blocks:
            for i in b.insts:
                if i.op == "gep" and i.extra[2] is not None and i.extra[2][0] == S_:
                    n += 1
                    bad = [x for x in fl.at(f, i.ops[0]) if x[0] == "g"]
                    c.ob("own-state", not bad and not from_global(fl, f, i.ops[0]), at_line(f, i), "a scheduler is "
                         "reached through a variable all threads share")
    c.need(n, "uses of the scheduler's context")
    return fl


def from_global(fl, f, o, depth=0, seen=None):
    """the value may have been loaded out of a plain file-level variable"""
    seen = set() if seen is None else seen
    if o[0] != "v" or depth > 12 or (f.name, o[1]) in seen:
        return False
    seen.add((f.name, o[1]))
    for k, a in enumerate(f.args):
        if a[0] == o[1]:
            for cn, ci in fl.callers.get(f.name, ()):
                cf = fl.mod.functions[cn]
                i = next(x for b in cf.blocks for x in b.insts if x.id == ci)
                if k < len(i.ops) and from_global(fl, cf, i.ops[k], depth + 1, seen):
                    return True
            return False
    i = next((x for b in f.blocks for x in b.insts if x.id == o[1]), None)
    if i is None:
        return False
    if i.op == "load":
        return any(x[0] == "g" and not fl.mod.globals[x[1]]["tls"] and not fl.mod.globals[x[1]]["const"]
                   for x in fl.at(f, i.ops[0]))
    if i.op in ("gep", "bitcast", "freeze"):
        return from_global(fl, f, i.ops[0], depth + 1, seen)
    if i.op == "select":
        return any(from_global(fl, f, x, depth + 1, seen) for x in i.ops[1:])
    if i.op == "phi":
        return any(from_global(fl, f, x, depth + 1, seen) for x, _ in i.extra)
    if i.op == "call":
        for t in fl.targets(f, i):
            g = fl.mod.functions.get(t)
            if g is not None and not g.decl:
                for b in g.blocks:
                    for r in b.insts:
                        if r.op == "ret" and r.ops and from_global(fl, g, r.ops[0], depth + 1, seen):
                            return True
    return False


def offset(f, o):
    if o[0] == "gepc":
        return o[2]
    if o[0] == "v":
        for b in f.blocks:
            for i in b.insts:
                if i.id == o[1] and i.op == "gep":
                    return i.extra[0] if not i.extra[1] else ("?", i.id)
        return ("?", o[1])
    return 0


def same_value(ws):
    by = {}
    for f, i, _, v, o in ws:
        if v is None or isinstance(o, tuple):
            return False
        e = expr(f, v)
        if e is None:
            return False
        by.setdefault(o, set()).add(e)
    return all(len(x) == 1 for x in by.values())


def stored_directly(fl, cell, g):
    for f, i in fl.stores:
        if i.op == "store" and ("g", g) in fl.at(f, i.ops[0]) and cell in fl.cells(fl.addrs(f, i.ops[1])):
            if direct(f, i.ops[0], g):
                return True
    return False


def direct(f, o, g, depth=0):
    while o[0] == "gepc":
        o = o[1]
    if o[0] != "v" or depth > 4:
        return o == ("g", g)
    i = next((x for b in f.blocks for x in b.insts if x.id == o[1]), None)
    if i is None or i.op not in ("phi", "select", "gep", "bitcast", "freeze"):
        return False
    ops = [x for x, _ in i.extra] if i.op == "phi" else i.ops[1:] if i.op == "select" else i.ops[:1]
    return any(direct(f, x, g, depth + 1) for x in ops)


def untouched(c, cfg, fn, ii, g):
    """in the function that takes g out of a field: on no path is it written or passed on, given what it holds"""
    pr = prog(cfg)
    f = pr.mod.functions[fn]
    i = next(x for b in f.blocks for x in b.insts if x.id == ii)
    tag = None
    for b in f.blocks:
        for x in b.insts:
            if ("v", x.id) == i.ops[0] and x.op == "gep":
                tag = x.extra[2]
    if tag is None:
        return False
    try:
        ps = c.paths(fn, cfg)
    except AnalysisError:
        return False
    n = 0
    for p in ps:
        vs = [e for e in p.events if e.k == "read" and e.addr.tag == tag]
        for r in vs:
            n += 1
            s = r.val.sym()
            if s is None:
                return False
            init = False
            # does the path contradict what g holds?
            for e in p.events:
                if e.k == "read" and Analyzer.root(e.addr) == s:
                    o = e.addr.sub(r.val)
                    v = pr.mod.ginit(g, o.c) if o.isconst() else None
                    if v is not None and v[0] == "c" and known(p, cmp("ne", e.val, C(v[1]))):
                        init = True
            if init:
                continue
            for e in p.events:
                if e.n <= r.n:
                    continue
                if e.k in ("store", "memset", "memcpy", "atomic") and isinstance(e.addr, L) and \
                        Analyzer.root(e.addr) == s:
                    return False
                if e.k == "store" and isinstance(e.val, L) and Analyzer.root(e.val) == s:
                    return False
                if e.k in ("call", "icall") and any(isinstance(a, L) and Analyzer.root(a) == s for a in e.args or ()):
                    return False
            if p.end == "ret" and isinstance(p.val, L) and Analyzer.root(p.val) == s:
                return False
    return n > 0


def own(c, cfg):
    """each thread's parts are made for it"""
    pr = prog(cfg)
    X = "_HevTaskSystemContext"
    parts = {"reactor": "hev_task_io_reactor_new", "timer": "hev_task_timer_new",
             "stack_detector": "hev_task_stack_detector_new"}
    op = set(parts.values()) | {"hev_task_timer_destroy", "hev_task_io_reactor_destroy",
                                "hev_memory_allocator_set_default", "hev_memory_allocator_slice_new"}
    n = 0
    for p in rets(c.paths("hev_task_system_init", cfg, opaque=op)):
        if eq(p, p.val, ZERO) is not True:
            continue
        n += 1
        ls = last_stores(p)
        al = [e for e in p.events if e.k == "call" and e.name in ALLOC]
        for fld, mk in parts.items():
            e = [x for a, x in ls.items() if any(a == y.ret.plus(pr.off(X, fld)) for y in al)]
            ok = len(e) == 1 and any(eq(p, e[0].val, y.ret) is True for y in p.calls(mk))
            c.ob("own-state", ok, where_of(p), "the thread's %s is not made for it" % fld.replace("_", " "), p)
    c.does(n, "the task system starts")
    for f in list(parts.values()) + ["hev_memory_allocator_slice_new", "hev_memory_allocator_simple_new"]:
        for p in rets(c.paths(f, cfg)):
            if not known(p, cmp("ne", p.val, ZERO)) and eq(p, p.val, ZERO) is not False:
                continue
            al = [e for e in p.events if e.k == "call" and e.name in ALLOC and eq(p, e.ret, p.val) is True]
            c.ob("own-state", len(al) == 1, where_of(p), "what is made for a thread is not new", p)
    for p in rets(c.paths("hev_task_system_get_context", cfg)):
        f = loaded_from(p.val)
        r = Analyzer.root(f) if f is not None else None
        c.ob("own-state", r is not None and r[0] == "tls", where_of(p), "the calling thread's scheduler is looked for "
             "elsewhere than in its thread-specific data", p)
    for p in rets(c.paths("hev_memory_allocator_default", cfg, opaque={"hev_memory_allocator_simple_new"})):
        f = loaded_from(p.val)
        r = Analyzer.root(f) if f is not None else None
        ok = r is not None and r[0] == "tls" or any(eq(p, p.val, e.ret) is True for e in
                                                    p.calls("hev_memory_allocator_simple_new"))
        c.ob("own-state", ok, where_of(p), "the calling thread's allocator is looked for elsewhere than in its "
             "thread-specific data", p)


def C28(c):
    for cfg in ("default", "heap"):
        variables(c, cfg)
    own(c, "default")
