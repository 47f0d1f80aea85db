"""C13 timer arming, C14 sleep duration."""
import shutil
import subprocess
import tempfile

from .core import *
from . import rules_sched
from .rules_sched import Lay, tree_descents, ctx_of, INS, ERA

NODE, TIMER = "_HevTaskTimerNode", "_HevTaskTimer"
SEC = 1000000000


class TL:
    def __init__(self, pr):
        o = pr.off
        self.base = o(NODE, "base")
        self.sec = o(NODE, "expire.tv_sec")
        self.nsec = o(NODE, "expire.tv_nsec")
        self.task = o(NODE, "task")
        self.tree = o(TIMER, "sort_tree")
        self.first = o(TIMER, "sort_tree.leftmost")
        self.ent = o(TIMER, "sched_entity.task")


def clock_nat(p):
    """values written by clock_gettime: nanoseconds are 0..999999999, seconds not negative"""
    cells = {}
    for e in p.calls("clock_gettime"):
        cells.setdefault(e.args[1].plus(8), []).append(e.n)
        cells.setdefault(e.args[1], []).append(e.n)

    def nat(s):
        if s[0] == "load" and s[1] in cells:
            # the clock value itself, not something stored there later
            n = s[2]
            st = [e.n for e in p.events if e.k == "store" and e.addr == s[1] and e.n < n]
            ck = [x for x in cells[s[1]] if x < n]
            if ck and (not st or max(ck) > max(st)) and not any(
                    is_yield(e) and max(ck) < e.n < n for e in p.events):
                nanos = any(e.args[1].plus(8) == s[1] for e in p.calls("clock_gettime"))
                return (0, SEC - 1) if nanos else (0, 1 << 40)
        return None
    return nat


def sleep_paths(c, f, arith=False):
    kw = {"arith": True} if arith else {}
    return c.paths(f, inline={"hev_task_sleep", "hev_task_usleep", "hev_task_self"}, **kw)


def C13(c):
    pr = prog()
    tl, ly = TL(pr), Lay(pr)
    timer_off = pr.off("_HevTaskSystemContext", "timer")
    fdo = pr.off("_HevTaskTimerTimerFD", "fd")
    steps = sites = ny = nr = 0
    kinds = set()
    for f in ("hev_task_usleep", "hev_task_sleep"):
        ps = sleep_paths(c, f)

        def less(p, T, N):
            a = [lastval(p, x.plus(o)) for x in (T, N) for o in (tl.sec, tl.nsec)]
            ts, tn, ns, nn = a
            if ts is None or ns is None:
                return False, False
            lt = holds(p, cmp("slt", ts, ns)) is True
            gt = holds(p, cmp("sgt", ts, ns)) is True
            same = eq(p, ts, ns) is True
            le = lt or same and tn is not None and nn is not None and holds(p, cmp("sle", tn, nn)) is True
            ge = gt or same and tn is not None and nn is not None and holds(p, cmp("sge", tn, nn)) is True
            return le, ge
        a, b = tree_descents(c, ps, ly, less, tl.base, "expiry-order")
        steps += a
        sites += b
        for p in ps:
            ctx = ctx_of(p)
            if ctx is None:
                continue
            w = where_of(p)
            ins = [e for e in p.events if e.k == "call" and e.name == INS]
            era = [e for e in p.events if e.k == "call" and e.name == ERA]
            if not ins:
                continue
            e0 = ins[0]
            N = e0.args[1].plus(-tl.base)
            tm = e0.args[0].plus(-tl.tree)
            c.ob("own-timer", loaded_from(tm) == ctx.plus(timer_off), e0, "the sleeper is queued in another "
                 "timer than the thread's", p)
            nat = clock_nat(p)
            ns = val_at(p, N.plus(tl.nsec), e0.n)
            lo, hi = bound(p, ns, nat) if ns is not None else (None, None)
            c.ob("expiry-valid", lo is not None and hi is not None and lo >= 0 and hi < SEC, e0,
                 "the nanosecond part of an expiry time is not proved to be below one second "
                 "(%s..%s)" % (lo, hi), p)
            tk = val_at(p, N.plus(tl.task), e0.n)
            c.ob("sleeper-recorded", tk is not None and is_load(tk, ctx.plus(ly.cur)) is not None, e0,
                 "the sleeper entry does not name the sleeping task", p)
            ys = [e for e in p.events if e.k == "call" and e.name == "hev_task_yield"]
            if p.end != "ret" and not ys:
                continue
            for e in ys:
                ny += 1
                c.ob("sleep-waits", eq(p, e.args[0], C(ly.WAITIO)) is True and e.n > e0.n and
                     not [x for x in era if x.n < e.n], e,
                     "a sleeper suspends without being queued, or stays runnable", p)
                fl = e0.args[2]
                arm = armed(p, tm, fdo, tl, e0.n, e.n)
                ent = [x for x in stores(p, addr=tm.plus(tl.ent), after=e0.n, before=e.n)]
                if eq(p, fl, ZERO) is True:
                    kinds.add("behind")
                    # may still re-arm for itself only if first: nothing may be armed
                    c.ob("arm-earliest", not arm and not ent, arm[0][0] if arm else ent[0] if ent else e,
                         "the timer is armed for a sleeper that is not the earliest", p)
                else:
                    kinds.add("first")
                    exp = (val_at(p, N.plus(tl.sec), e0.n), val_at(p, N.plus(tl.nsec), e0.n))
                    ok = bool(arm) and arm[-1][1] is not None and \
                        all(eq(p, x, y) is True for x, y in zip(arm[-1][1], exp)) and \
                        holds(p, cmp("sge", arm[-1][0].ret, ZERO)) is True
                    c.ob("arm-earliest", ok, e, "the new earliest sleeper suspends without the timer being "
                         "armed for its expiry", p)
                    ok = bool(ent) and tk is not None and eq(p, ent[-1].val, tk) is True
                    c.ob("arm-task", ok, e, "the timer is armed for a sleeper but its expiry wakes another "
                         "task", p)
            if p.end != "ret":
                continue
            nr += 1
            ok = len(era) == 1 and era[0].args[0] == e0.args[0] and era[0].args[1] == e0.args[1] and \
                bool(ys) and era[0].n > ys[-1].n
            c.ob("sleeper-leaves", ok, era[0] if era else w, "a sleeper that returns is not taken out of the "
                 "timer exactly once after waking", p)
            if not ok:
                continue
            e1 = era[0]
            fst0 = [e.val for e in reads(p, tm.plus(tl.first)) if ys[-1].n < e.n < e1.n]
            fst1 = [e.val for e in reads(p, tm.plus(tl.first)) if e.n > e1.n]
            notfirst = any(eq(p, x, e0.args[1]) is False for x in fst0)
            arm = armed(p, tm, fdo, tl, e1.n, 1 << 60)
            ent = stores(p, addr=tm.plus(tl.ent), after=e1.n)
            if not fst1:
                kinds.add("left-behind")
                c.ob("rearm-next", notfirst, w, "a sleeper that may have been the earliest leaves without "
                     "re-arming the timer for the next", p)
                c.ob("rearm-next", not arm and not ent, w, "the timer is re-armed without looking at the "
                     "earliest sleeper", p)
                continue
            x = fst1[-1]
            if eq(p, x, ZERO) is True:
                kinds.add("left-last")
                v = ent[-1].val if ent else None
                off = arm and arm[-1][1] is not None and all(eq(p, y, ZERO) is True for y in arm[-1][1])
                s = v.sym() if v is not None else None
                fake = s is not None and s[0] == "glob" and always_running(pr, s[1], ly)
                c.ob("idle-wakes-nobody", notfirst or bool(off) or fake, ent[-1] if ent else w,
                     "after the last sleeper left, an expiry can still wake a task", p)
            else:
                kinds.add("left-next")
                M = x.plus(-tl.base)
                ok = bool(arm) and arm[-1][1] is not None and \
                    loaded_from(arm[-1][1][0]) == M.plus(tl.sec) and \
                    loaded_from(arm[-1][1][1]) == M.plus(tl.nsec) and \
                    holds(p, cmp("sge", arm[-1][0].ret, ZERO)) is True
                c.ob("rearm-next", notfirst or ok, arm[-1][0] if arm else w, "the timer is not re-armed for "
                     "the earliest remaining sleeper", p)
                ok = bool(ent) and loaded_from(ent[-1].val) == M.plus(tl.task)
                c.ob("rearm-task", notfirst or ok, ent[-1] if ent else w, "the re-armed timer does not wake "
                     "the earliest remaining sleeper", p)
    c.does(steps >= 2 and sites >= 1 and ny and nr and {"first", "left-next", "left-last"} <= kinds,
           "sleep queues, arms, waits and re-arms (found %s)" % sorted(kinds))
    # the timer's descriptor wakes through the entity the sleepers set
    f = "hev_task_timer_new"
    k = 0
    for p in rets(c.paths(f)):
        if eq(p, p.val, ZERO) is True:
            continue
        k += 1
        w = where_of(p)
        cr = p.calls("timerfd_create")
        ec = p.calls("epoll_ctl")
        ck = macro_sys("CLOCK_MONOTONIC")
        ok = len(cr) == 1 and eq(p, cr[0].args[0], C(ck)) is True
        c.ob("timer-clock", ok, cr[0] if cr else w, "the timer does not run on the monotonic clock the "
             "expiries use", p)
        ok = bool(cr) and eq(p, load_field(p, p.val.plus(fdo)), cr[0].ret) is True
        c.ob("timer-fd", ok, w, "the timer does not keep its descriptor", p)
        ok = False
        for e in ec:
            ev = e.args[3]
            data = val_at(p, ev.plus(4), e.n)
            evs = val_at(p, ev, e.n)
            ok = ok or bool(cr) and e.args[2] == cr[0].ret and eq(p, e.args[1], C(1)) is True and \
                data == p.val.plus(pr.off(TIMER, "sched_entity")) and evs is not None and \
                has_bits(evs, 1)
        c.ob("timer-registered", ok, ec[0] if ec else w, "the timer's descriptor is not registered to wake "
             "the entity of the earliest sleeper", p)
    c.does(k, "a timer is created")
    # expiries come from the same clock
    for p in sleep_paths(c, "hev_task_usleep"):
        for e in p.calls("clock_gettime"):
            c.ob("timer-clock", eq(p, e.args[0], C(macro_sys("CLOCK_MONOTONIC"))) is True, e,
                 "an expiry is computed from another clock than the timer's", p)


def load_field(p, addr):
    return rules_sched.load_final(p, addr, 4)


def has_bits(v, b):
    """value certainly contains these bits"""
    if v.isconst():
        return v.c & b == b
    s = v.sym()
    return bool(s and s[0] == "op" and s[1] == "or" and s[3].isconst() and s[3].c & b == b)


_sysm = {}


def macro_sys(name):
    """integer constant of the system headers"""
    if name not in _sysm:
        d = tempfile.mkdtemp(prefix="sa-mac-")
        try:
            with open(d + "/m.c", "w") as f:
                f.write("#define _GNU_SOURCE\n#include <time.h>\n#include <errno.h>\n#include <fcntl.h>\n"
                        "#include <poll.h>\n#include <sys/epoll.h>\n#include <sys/socket.h>\n"
                        "#include <sys/timerfd.h>\n#include <sys/mman.h>\n#include <sys/ioctl.h>\n"
                        "#include <unistd.h>\n"
                        "const long long probe = (long long)(%s);\n" % name)
            r = subprocess.run([LLVM + "/clang", "-S", "-emit-llvm", "-w", d + "/m.c", "-o", d + "/m.ll"],
                               capture_output=True, text=True)
            if r.returncode:
                raise AnalysisError("constant %s: %s" % (name, r.stderr[-200:]))
            for line in open(d + "/m.ll"):
                if line.startswith("@probe"):
                    _sysm[name] = int(line.split("i64", 1)[1].split(",")[0])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _sysm[name]


def armed(p, tm, fdo, tl, after, before):
    """timerfd_settime calls on the timer: [(event, (sec, nsec) or None)], absolute, one-shot only"""
    out = []
    for e in p.calls("timerfd_settime"):
        if not after < e.n < before:
            continue
        v = None
        if loaded_from(e.args[0]) == tm.plus(fdo) and eq(p, e.args[1], C(macro_sys("TFD_TIMER_ABSTIME"))) is True:
            sp = e.args[2]
            iv = [val_at(p, sp.plus(o), e.n) for o in (0, 8)]
            vv = [val_at(p, sp.plus(o), e.n) for o in (16, 24)]
            if None not in vv and all(x is not None and eq(p, x, ZERO) is True for x in iv):
                v = tuple(vv)
        out.append((e, v))
    return out


def always_running(pr, g, ly):
    """a static task that is runnable from the start and never written to"""
    st = pr.mod.ginit(g, ly.state)
    if st is None or st[0] != "c" or st[1] != ly.RUNNING.c:
        return False
    # its address is used for nothing but being stored
    for name, fn in pr.mod.functions.items():
        if fn.decl:
            continue
        for b in fn.blocks:
            for i in b.insts:
                for k, o in enumerate(i.ops):
                    if ("g", g) in (o, o[1] if o[0] == "gepc" else None):
                        if not (i.op == "store" and k == 0 and o == ("g", g)) and i.op not in ("phi", "select"):
                            return False
    return True


def C14(c):
    pr = prog()
    tl, ly = TL(pr), Lay(pr)
    bits = 32
    n0 = nz = nw = nar = 0
    for f, unit in (("hev_task_usleep", 1), ("hev_task_sleep", 1000)):
        us = argn(pr, f, 0)
        top = (1 << us.bits) - 1

        for p in sleep_paths(c, f, True):
            cn = clock_nat(p)

            def nat(s, cn=cn, us=us, top=top):
                if s == us.sym():
                    return 0, top
                return cn(s)
            w = where_of(p)
            ys = [e for e in p.events if is_yield(e)]
            ins = [e for e in p.events if e.k == "call" and e.name == INS]
            # narrow arithmetic must not wrap
            for e in p.events:
                if e.k == "arith" and e.size <= 32 and us.sym() in deep_syms(e.val):
                    nar += 1
                    c.ob("duration-exact", wraps(p, e, nat) is False, e, "the duration is computed in %d "
                         "bits and can wrap around" % e.size, p)
            if p.end == "ret" and eq(p, us, ZERO) is True:
                nz += 1
                c.ob("zero-returns", not ys and eq(p, p.val, ZERO) is True, w, "sleeping for zero suspends "
                     "the task", p)
                continue
            if p.end == "ret":
                c.ob("sleep-suspends", bool(ys) and bool(ins), w, "sleeping for a non-zero time returns "
                     "without suspending", p)
            if not ins:
                continue
            e0 = ins[0]
            N = e0.args[1].plus(-tl.base)
            sec, ns = val_at(p, N.plus(tl.sec), e0.n), val_at(p, N.plus(tl.nsec), e0.n)
            ck = [e for e in p.calls("clock_gettime") if e.n < e0.n]
            ok = False
            if sec is not None and ns is not None and ck:
                n0 += 1
                tot = divmod_form(sec.scale(SEC).add(ns))
                for e in ck:
                    # now + duration, whatever way it is split up
                    rest = tot.sub(us.scale(1000 * unit))
                    d = dict((s, q) for s, q in rest.t)
                    now = {}
                    for s, q in d.items():
                        if s[0] == "load" and s[1] in (e.args[1], e.args[1].plus(8)) and s[2] > e.n:
                            now[s[1]] = q
                    ok = ok or rest.c == 0 and len(d) == 2 and now.get(e.args[1]) == SEC and \
                        now.get(e.args[1].plus(8)) == 1
            c.ob("duration-exact", ok, e0, "the expiry time is not the present time plus the requested "
                 "duration", p)
            if p.end != "ret" or not ys:
                continue
            nw += 1
            # the rest
            ck = [e for e in p.calls("clock_gettime") if e.n > ys[-1].n]
            c.ob("rest-measured", len(ck) >= 1, w, "the remaining time is not measured after waking", p)
            if not ck:
                continue
            cur = ck[-1].args[1]
            es, en = [lastread(p, N.plus(o), ys[-1].n) or val_at(p, N.plus(o), 1 << 60) for o in
                      (tl.sec, tl.nsec)]
            cs, cn_ = [lastread(p, cur.plus(o), ck[-1].n) for o in (0, 8)]
            if None in (es, en, cs, cn_):
                c.ob("rest-exact", False, w, "the remaining time is not computed from the expiry and the "
                     "present time", p)
                continue
            R = es.sub(cs).scale(SEC).add(en).sub(cn_)
            nn = en.sym()

            def nat2(s, cn=cn, nn=nn, N=N):
                if s[0] == "load" and s[1] == N.plus(tl.nsec):
                    return 0, SEC - 1       # C13: a valid expiry
                return cn(s)
            lo, hi = bound(p, R, nat2)
            v = p.val
            if v.isconst():
                c.ob("rest-exact", v.c == 0 and hi is not None and hi < 1000 * unit, w, "a constant rest is "
                     "returned although time remains", p)
                continue
            # v = trunc?(rest): floor(R / (1000*unit))
            x = v
            den = 1
            for _ in range(4):
                s = x.sym()
                if s and s[0] == "op" and s[1].startswith("trunc"):
                    x = s[2]
                elif s and s[0] == "op" and s[1] in ("udiv", "sdiv") and s[3].isconst():
                    den *= s[3].c
                    x = s[2]
                else:
                    break
            # x (in units of 1000*unit/den ns) = a*... + div(N, k)
            scale = 1000 * unit // den if 1000 * unit % den == 0 else None
            ok = False
            if scale is not None:
                tot = L(0, ())
                good = True
                for s, q in x.t:
                    if s[0] == "op" and s[1] in ("sdiv", "udiv") and s[3].isconst() and \
                            scale % s[3].c == 0 and q == 1:
                        tot = tot.add(s[2].scale(scale // s[3].c))
                        # floor only if the part is not negative
                        a, b = bound(p, s[2], nat2)
                        good = good and a is not None and a >= 0
                    else:
                        tot = tot.add(S(s), q * scale)
                tot = tot.plus(x.c * scale)
                ok = good and p.st.facts.norm(tot.sub(R)) == ZERO
            c.ob("rest-exact", ok, w, "the rest returned is not the expiry minus the present time in the unit "
                 "asked for", p)
            c.ob("rest-not-negative", lo is not None and lo >= 0, w, "a rest is returned although the time "
                 "may have passed: it would wrap to a huge value", p)
    c.does(n0 >= 2 and nz >= 2 and nw >= 2, "sleep computes an expiry and a rest")
    # the time is waited for: the timer that wakes the task runs on the same clock and is set to its expiry
    c.only = {"timer-clock", "timer-fd", "timer-registered", "own-timer", "arm-earliest", "arm-task", "rearm-next",
              "rearm-task", "expiry-valid", "sleep-waits"}
    C13(c)
    for r in c.only:
        c.need(c.obl.get(r), "rule %s has instances" % r)
    c.only = None


def lastread(p, addr, after):
    v = None
    for e in p.events:
        if e.n > after and e.k in ("read", "store") and e.addr == addr:
            v = e.val
    return v


def deep_syms(l):
    out = set()
    for s in l.syms():
        out.add(s)
        if s[0] == "op":
            for x in s[2:]:
                if isinstance(x, L):
                    out |= deep_syms(x)
    return out
