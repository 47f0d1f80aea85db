"""C26 reference counts."""
from .core import *
from .rules_cio import Klass, laststore, method_of, tab
from .rules_itc import known, nonzero, zero
from .rules_ring import RL, differs1, refs


def counted(c, f):
    """the counting method of plain objects"""
    pr = prog()
    t = tab()
    me, up = argn(pr, f, 0), argn(pr, f, 1)
    ro = pr.off("_HevObject", "ref_count")
    n = set()
    for p in rets(c.paths(f)):
        w = where_of(p)
        st = stores(p, addr=me.plus(ro))
        ic = [e for e in p.events if e.k == "icall"]
        other = [e for e in shared_stores(p) if e.addr != me.plus(ro)]
        c.ob("object-count", not other and len(st) <= 1, w, "counting changes something else", p)
        r = eq(p, up, ZERO)
        c.ob("object-count", r is not None, w, "taking and releasing a reference are not told apart", p)
        old = st[0].old if st else lastval(p, me.plus(ro))
        if r is False:
            n.add("up")
            c.ob("object-count", not ic and bool(st) and st[0].val == old.plus(1), w, "taking a reference does not add "
                 "exactly one", p)
            continue
        if ic:
            n.add("destroy")
            e = ic[0]
            ok = len(ic) == 1 and method_of(e, me, t["destruct"]) and e.args[0] == me
            c.ob("object-destroy", ok, e, "not the object's own destructor is run, once", p)
            c.ob("object-destroy", old is not None and (eq(p, old, C(1)) is True or known(p, cmp("ule", old, C(1)))),
                 e, "the object is destroyed while references are left", p)
            late = [x for x in p.events if x.n > e.n and x.k in ("read", "store") and
                    Analyzer.root(x.addr) == Analyzer.root(me)]
            c.ob("object-destroy", not late, late[0] if late else w, "the object is used after it was destroyed", p)
        else:
            n.add("down")
            ok = bool(st) and st[0].val == old.plus(-1) and differs1(p, old)
            c.ob("object-count", ok, w, "releasing a reference does not subtract exactly one, or the last release does "
                 "not destroy the object", p)
    c.does(n == {"up", "down", "destroy"}, "references are counted up and down")


REL, ACQ = {"release", "acq_rel", "seq_cst"}, {"acquire", "acq_rel", "seq_cst"}


def atomic(c, f):
    """the counting method of objects shared between threads"""
    pr = prog()
    t = tab()
    me, up = argn(pr, f, 0), argn(pr, f, 1)
    cnt = me.plus(pr.off("_HevObject", "ref_count"))
    n = set()
    for p in rets(c.paths(f)):
        w = where_of(p)
        rmw = [e for e in p.events if e.k == "atomic" and e.addr == cnt and e.name not in ("load", "fence")]
        st = [e for e in shared_stores(p) if e.k == "store"]
        c.ob("atomic-count", not st, st[0] if st else w, "the count is changed by a plain store", p)
        at = [e.n for e in p.events if e.k == "atomic" and e.name == "load"]
        rd = [e for e in reads(p, cnt) if e.n + 1 not in at]
        c.ob("atomic-count", not rd, rd[0] if rd else w, "the count is read without synchronisation", p)
        r = eq(p, up, ZERO)
        c.ob("atomic-count", r is not None, w, "taking and releasing a reference are not told apart", p)
        ic = [e for e in p.events if e.k == "icall"]
        ok = len(rmw) == 1 and rmw[0].old is not None and rmw[0].val == rmw[0].old.plus(1 if r is False else -1)
        c.ob("atomic-count", ok, rmw[0] if rmw else w, "a reference is not counted by one atomic step of one", p)
        if not ok:
            continue
        e = rmw[0]
        if r is False:
            n.add("up")
            c.ob("object-destroy", not ic, w, "taking a reference runs a method", p)
            continue
        c.ob("atomic-order", order(e) in REL, e, "what a thread did before it released its reference may become "
             "visible after the release (ordering %s)" % order(e), p)
        if not ic:
            n.add("down")
            c.ob("atomic-count", differs1(p, e.old), w, "the last release does not destroy the object", p)
            late = [x for x in p.events if x.n > e.n and x.k in ("read", "store", "atomic") and x.addr is not None and
                    Analyzer.root(x.addr) == Analyzer.root(me)]
            c.ob("atomic-late", not late, late[0] if late else w, "the object is touched after the reference was given "
                 "up", p)
            continue
        n.add("destroy")
        d = ic[0]
        c.ob("object-destroy", len(ic) == 1 and method_of(d, me, t["destruct"]) and d.args[0] == me and d.n > e.n, d,
             "not the object's own destructor is run, once, after the release", p)
        c.ob("object-destroy", eq(p, e.old, C(1)) is True or known(p, cmp("ule", e.old, C(1))), d,
             "the object is destroyed while references are left", p)
        acq = order(e) in ACQ or any(x.k == "atomic" and e.n < x.n < d.n and order(x) in ACQ and
                                     (x.name == "fence" or x.addr == cnt) for x in p.events)
        c.ob("atomic-order", acq, d, "the destroying thread may not see what other threads did before they released",
             p)
        late = [x for x in p.events if x.n > d.n and x.k in ("read", "store", "atomic") and x.addr is not None and
                Analyzer.root(x.addr) == Analyzer.root(me)]
        c.ob("atomic-late", not late, late[0] if late else w, "the object is touched after it was destroyed", p)
    c.does(n == {"up", "down", "destroy"}, "references are counted up and down")


def order(e):
    x = e.x[1] if isinstance(e.x, tuple) and len(e.x) > 1 else None
    return str(x) if x is not None else "?"


def allocator(c):
    pr = prog()
    refs(c, "hev_memory_allocator_ref", "hev_memory_allocator_unref", pr.off("_HevMemoryAllocator", "ref_count"),
         "allocator", ("free",))
    # destruction happens before the memory goes
    f = "hev_memory_allocator_unref"
    me = argn(pr, f, 0)
    do = pr.off("_HevMemoryAllocator", "destroy")
    for p in rets(c.paths(f)):
        fr = p.calls("free")
        ic = [e for e in p.events if e.k == "icall"]
        d = seen_destroy(p, me.plus(do))
        if fr:
            ok = d is not None and (zero(p, d) and not ic or nonzero(p, d) and len(ic) == 1 and ic[0].x == d and
                                    ic[0].args[0] == me and ic[0].n < fr[0].n)
            c.ob("allocator-destroy", ok, where_of(p), "an allocator is not torn down exactly once before its memory "
                 "goes", p)
        else:
            c.ob("allocator-destroy", not ic, where_of(p), "an allocator is torn down while it is referenced", p)


def C26(c):
    pr = prog()
    from .rules_cio import method
    K = {"object": Klass(c, "hev_object_class"), "atomic": Klass(c, "hev_object_atomic_class")}
    f, _ = method(c, K, "object", "ref")
    if f:
        counted(c, f)
    f, k = method(c, K, "atomic", "ref")
    c.ob("atomic-count", k == "atomic", "(hev_object_atomic_class)", "atomic objects are counted like plain ones")
    if f and k == "atomic":
        atomic(c, f)
    for k in ("object", "atomic"):
        f, _ = method(c, K, k, "destruct")
        c.ob("object-entry", bool(f), "(hev_%s_class)" % ("object" if k == "object" else "object_atomic"),
             "objects have no destructor")
    # the inline entry points
    t = tab()
    for nm, arg in (("hev_object_ref", C(1)), ("hev_object_unref", ZERO)):
        g = sorted(x for x in pr.mod.functions if Analyzer.src(x) == nm and not pr.mod.functions[x].decl)
        for f in g:
            me = argn(pr, f, 0)
            for p in rets(c.paths(f)):
                ic = [e for e in p.events if e.k == "icall"]
                ok = len(ic) == 1 and method_of(ic[0], me, t["ref"]) and ic[0].args[0] == me and \
                    (zero(p, ic[0].args[1]) if arg == ZERO else nonzero(p, ic[0].args[1]))
                c.ob("object-entry", ok, where_of(p), "%s does not run the object's own counting" % nm, p)
    for k, glob in (("hev_object_construct", "object"), ("hev_object_atomic_construct", "atomic")):
        me = argn(pr, k, 0)
        for p in rets(c.paths(k, inline={"hev_object_class"})):
            if known(p, cmp("slt", p.val, ZERO)):
                continue
            v, r = laststore(p, me.plus(pr.off("_HevObject", "klass"))), laststore(p, me.plus(
                pr.off("_HevObject", "ref_count")))
            c.ob("object-entry", v is not None and v == S(K[glob].glob) and r is not None and eq(p, r, C(1)) is True,
                 where_of(p), "a new object does not start with one reference and its own methods", p)
    refs(c, "hev_circular_buffer_ref", "hev_circular_buffer_unref", RL(pr).ref, "ring")
    refs(c, "hev_task_ref", "hev_task_unref", pr.off("_HevTask", "ref_count"), "task")
    allocator(c)
    f = "hev_task_unref"
    me = argn(pr, f, 0)
    so, ao = pr.off("_HevTask", "stack"), pr.off("_HevTask", "list_node")
    for p in rets(c.paths(f, opaque={"hev_task_stack_destroy", "hev_list_del"})):
        fr, sd, ld = p.calls("hev_free"), p.calls("hev_task_stack_destroy"), p.calls("hev_list_del")
        if fr:
            ok = len(sd) == 1 and loaded_from(sd[0].args[0]) == me.plus(so) and sd[0].n < fr[0].n and len(ld) == 1 and \
                ld[0].args[1] == me.plus(ao) and ld[0].n < fr[0].n
            c.ob("task-destroy", ok, where_of(p), "a destroyed task's stack and list entry are not given up exactly "
                 "once before its memory goes", p)
        else:
            c.ob("task-destroy", not sd and not ld, where_of(p), "parts of a task are given up while it is "
                 "referenced", p)


    f = "hev_task_new"
    n = 0
    for p in rets(c.paths(f, opaque={"hev_task_stack_new", "hev_task_stack_get_bottom", "hev_list_add_tail"})):
        if zero(p, p.val):
            continue
        n += 1
        r = laststore(p, p.val.plus(pr.off("_HevTask", "ref_count")))
        c.ob("task-new", r is not None and eq(p, r, C(1)) is True, where_of(p), "a new task does not start with one "
             "reference", p)
        la = p.calls("hev_list_add_tail")
        c.ob("task-new", len(la) == 1 and la[0].args[1] == p.val.plus(ao), where_of(p), "a new task is not entered once in "
             "the list it is later taken from", p)
    c.does(n, "a task can be made")


def seen_destroy(p, addr):
    r = reads(p, addr)
    return r[0].val if r else None
