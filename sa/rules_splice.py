"""C19 splicing: one pass of the loop decided path by path, for every way of moving the bytes."""
from .core import *
from .core import absint
from .rules_io import CIO, CIOK, ERRNO, WAITIO, made
from .rules_itc import known, nonzero, zero
from .rules_time import macro_sys

CB = "hev_circular_buffer_"
CBS = {CB + x for x in ("new", "unref", "writing", "reading", "write_finish", "read_finish", "get_use_size",
                        "get_max_size")}
YIELD = C(1)


class Dir:
    """one direction: what counts as taking bytes in, passing them on, and asking the output to pass on"""

    def __init__(self, name, rd, wr, fl=None):
        self.name, self.rd, self.wr, self.fl = name, rd, wr, fl
        self.bufs = {}

    def buf(self, p):
        """the buffer of this direction, by the buffers made on the path"""
        return self.bufs.get(tuple(e.ret for e in p.calls(CB + "new")))


class Splice:
    def __init__(self, c, f, ps, dirs, rerr, yi, either):
        self.c, self.f, self.ps, self.dirs, self.rerr = c, f, ps, dirs, rerr
        self.pr = prog()
        self.fn, self.data = argn(self.pr, f, yi), argn(self.pr, f, yi + 1)
        self.either = either        # term pairs whose equality makes one end enough, or True

    # -- a pass: the events of one turn of the loop
    def start(self, p):
        if p.end == "backedge":
            return p.val[4]
        l = [i for i, e in enumerate(p.events) if e.k == "loop"]
        return l[-1] if l else None

    def isio(self, e):
        return any(d.rd(e) or d.wr(e) or d.fl and d.fl(e) for d in self.dirs)

    def outcome(self, p, e, kind, d):
        """'more' progress, 'again', 'end', or None if the code does not tell"""
        if holds(p, cmp("sgt", e.ret, ZERO)) is True:
            return "more"
        if holds(p, cmp("sge", e.ret, ZERO)) is True and kind == "fl":
            return "more"
        if holds(p, cmp("sgt", e.ret, ZERO)) is None and kind != "fl":
            return None
        if eq(p, e.ret, ZERO) is True:
            return "end"
        nxt = [x.n for x in p.events if x.n > e.n and self.isio(x)]
        lim = nxt[0] if nxt else 1 << 60
        rd = [x for x in reads(p, self.rerr(d, kind), after=e.n) if x.n < lim]
        for x in rd:
            r = eq(p, x.val, C(macro_sys("EAGAIN")))
            if r is True and holds(p, cmp("slt", e.ret, ZERO)) is True:
                return "again"
            if r is False:
                return "end"
        return None


def run(c, f, ps, dirs, rerr, yi, either, data):
    s = Splice(c, f, ps, dirs, rerr, yi, either)
    data(s)
    gate = {d: gating(s, d) for d in dirs}
    npass = nwait = nstop = 0
    for p in ps:
        i0 = s.start(p)
        if i0 is None or p.end not in ("ret", "backedge"):
            continue
        evs = p.events[i0:]
        sus = [e for e in evs if e.k == "icall" and e.x == s.fn or is_yield(e) and e.k == "call"]
        stat = {d: status(s, p, evs, d, gate[d]) for d in dirs}
        bad = [d for d in dirs if stat[d] is None]
        if bad:
            continue
        npass += 1
        fins = [d for d in dirs if stat[d] == "end"]
        one = s.either is True
        two = s.either is True
        if s.either is not True:
            r = [eq(p, a, b) for a, b in s.either]
            one = True in r
            two = all(x is not False for x in r)        # may be a single descriptor
        must_stop = len(fins) == len(dirs) or bool(fins) and one
        may_stop = must_stop or bool(fins) and two
        ab = [y for y in sus if y.k == "icall" and eq(p, y.ret, ZERO) is not True]
        w = where_of(p)
        names = " and ".join("%s %s" % (d.name, stat[d]) for d in dirs)
        if p.end == "ret" and not ab:
            nstop += 1
            c.ob("splice-stop", must_stop, w, "stops although not finished (%s)" % names, p)
            c.ob("splice-stop", not sus, w, "stops after suspending", p)
            continue
        c.ob("splice-stop", not must_stop, w, "goes on although finished (%s)" % names, p)
        c.ob("splice-stop", not (may_stop and not must_stop), w, "goes on without knowing whether one finished "
             "direction is enough (%s)" % names, p)
        c.ob("splice-suspend", len(sus) == 1, w, "a pass does not end in exactly one suspension", p)
        live = [stat[d] for d in dirs if stat[d] != "end"]
        wait = all(x == "again" for x in live)
        for y in sus:
            nwait += 1
            t = y.args[0]
            if wait:
                c.ob("splice-suspend", eq(p, t, WAITIO) is True, y, "does not wait although every unfinished "
                     "direction was told to try again (%s)" % names, p)
            else:
                c.ob("splice-suspend", eq(p, t, YIELD) is True, y, "waits although a direction may go on without "
                     "a new event (%s)" % names, p)
            if y.k == "icall":
                ok = known(p, cmp("ne", s.fn, ZERO)) and len(y.args) > 1 and y.args[1] == s.data
                c.ob("splice-yielder", ok, y, "the yielder is not called with the caller's data", p)
            else:
                c.ob("splice-yielder", y.name == "hev_task_yield" and eq(p, s.fn, ZERO) is True, y,
                     "the caller's yielder is passed over", p)
        if ab:
            c.ob("splice-yielder", p.end == "ret" and nonzero(p, ab[0].ret), w, "a yielder asking to stop is not "
                 "obeyed", p)
            continue
        # what the next pass will do with each direction
        for d in dirs:
            if gate[d] is None:
                continue
            ph, pred, k = gate[d]
            lv = p.val[3].get(phis(p, i0).get(ph))
            if lv is None:
                continue
            idle = holds(p, cmp(pred, Analyzer.asL(lv), k))
            if stat[d] == "end":
                c.ob("splice-finished", idle is True, w, "a finished direction (%s) is run again" % d.name, p)
            else:
                c.ob("splice-finished", idle is False, w, "an unfinished direction (%s, %s) is not run again"
                     % (d.name, stat[d]), p)
        for d in dirs:
            if gate[d] is not None:
                ph, pred, k = gate[d]
                iv = p.val[2].get(phis(p, i0).get(ph))
                c.ob("splice-finished", iv is not None and holds(p, cmp(pred, Analyzer.asL(iv), k)) is False, w,
                     "a direction (%s) is not run at first" % d.name, p)
    c.does(npass and nwait and nstop, "%s moves bytes, suspends and stops" % f)
    return s


def phis(p, i0):
    """loop variables of the pass by name"""
    init = p.val[2] if p.end == "backedge" else p.events[i0].x[1]
    return {ph[1]: ph for ph in init}


def gating(s, d):
    """the loop variable that tells whether a direction is run in a pass"""
    on, off = [], []
    for p in s.ps:
        i0 = s.start(p)
        if i0 is None or p.end not in ("ret", "backedge"):
            continue
        (on if runs(s, p, p.events[i0:], d) else off).append((p, i0))
    if not off:
        return None
    cand = None
    for p, i0 in off:
        got = set()
        for name, ph in phis(p, i0).items():
            for pred, k in (("slt", ZERO), ("eq", ZERO), ("ne", ZERO), ("sle", ZERO), ("sgt", ZERO)):
                if holds(p, cmp(pred, S(ph), k)) is True:
                    got.add((name, pred, k))
        cand = got if cand is None else cand & got
    for g in sorted(cand or (), key=repr):
        if all(g[0] in phis(p, i0) and holds(p, cmp(g[1], S(phis(p, i0)[g[0]]), g[2])) is False for p, i0 in on):
            return g
    s.c.ob("splice-finished", False, s.f, "whether a direction (%s) is run does not depend on it being finished"
           % d.name, off[0][0])
    return None


def runs(s, p, evs, d):
    if any(d.rd(e) or d.wr(e) for e in evs):
        return True
    b = d.buf(p)
    return b is not None and any(e.k == "call" and e.name in CBS and e.args and e.args[0] == b and
                                     e.name not in (CB + "unref", CB + "new") for e in evs)


def status(s, p, evs, d, gate):
    c = s.c
    if not runs(s, p, evs, d):
        return "end"
    rd = [e for e in evs if d.rd(e)]
    wr = [e for e in evs if d.wr(e)]
    fl = [e for e in evs if d.fl and d.fl(e)]
    if len(rd) > 1 or len(wr) > 1:
        # several steps in one pass: judge by the last of each
        pass
    r = s.outcome(p, rd[-1], "rd", d) if rd else "none"
    w = s.outcome(p, wr[-1], "wr", d) if wr else "none"
    for x, e in ((r, rd), (w, wr)):
        if x is None:
            c.ob("splice-outcome", False, e[-1], "does not tell end and error from being asked to try again", p)
            return None
    c.ob("splice-outcome", True, where_of(p), "", p)
    f = [s.outcome(p, e, "fl", d) for e in fl]
    if w == "none":
        st = {"none": "more", "more": "more", "again": "again", "end": "end"}[r]
        # bytes just taken in must be passed on in the same pass (d.left decides that nothing is held)
    else:
        st = w
    if "again" in f:
        st = "again"
    return st


def released(c, ps):
    """buffers are given back once on every exit"""
    n = 0
    for p in rets(ps):
        for e in p.calls(CB + "new"):
            n += 1
            un = [x for x in p.calls(CB + "unref") if eq(p, x.args[0], e.ret) is True]
            z = eq(p, e.ret, ZERO)
            if z is True:
                continue
            c.ob("splice-release", z is False and len(un) == 1, where_of(p), "a buffer is not released exactly once", p)
            late = [x for x in p.events if un and x.k == "call" and x.name in CBS and x.n > un[0].n and x.args and
                    x.name != CB + "unref" and eq(p, x.args[0], e.ret) is True]
            c.ob("splice-release", not late, where_of(p), "a buffer is used after its release", p)
        for e, fds, cell, fi in made(p):
            n += 1
            if holds(p, cmp("slt", e.ret, ZERO)) is True:
                continue
            ok = holds(p, cmp("slt", e.ret, ZERO)) is False
            for fd in fds:
                cl = [x for x in p.calls("close") if fd is not None and eq(p, x.args[0], fd) is True]
                ok = ok and len(cl) == 1
            c.ob("splice-release", ok, where_of(p), "a pipe is not closed exactly once", p)
        own = [fd for e, fds, _, _ in made(p) for fd in fds if fd is not None]
        for x in p.calls("close"):
            c.ob("splice-release", any(eq(p, x.args[0], fd) is True for fd in own), x,
                 "closes a descriptor it did not make", p)
    c.does(n, "buffers are made")


# -- moving through a circular buffer
def ring(s):
    c = s.c
    P = s.ps
    for d in s.dirs:
        for p in P:
            bufs = set()
            for e in p.events:
                if d.rd(e):
                    q = [x for x in p.calls(CB + "writing") if x.n < e.n]
                    if q:
                        bufs.add(q[-1].args[0])
            for b in bufs:
                k = tuple(e.ret for e in p.calls(CB + "new"))
                c.ob("splice-buffer", d.bufs.setdefault(k, b) == b, s.f, "bytes of one direction (%s) go through "
                     "different buffers" % d.name, p)
        c.does(d.bufs, "%s takes bytes in (%s)" % (s.f, d.name))
    for k, b in s.dirs[0].bufs.items():
        c.ob("splice-buffer", s.dirs[1].bufs.get(k) != b, s.f, "both directions share one buffer")
    for p in P:
        cb = [e for e in p.events if e.k == "call" and e.name in CBS and e.name not in (CB + "new", CB + "unref")]
        used = set()
        for d in s.dirs:
            for what, get, done, name in ((d.rd, "writing", "write_finish", "taken in"),
                                          (d.wr, "reading", "read_finish", "passed on")):
                for e in p.events:
                    if not what(e):
                        continue
                    off = 0
                    q = [x for x in cb if x.n < e.n]
                    g = q[-1] if q else None
                    ok = g is not None and g.name == CB + get and g.args[0] == d.buf(p) and \
                        len(e.args) >= 3 and e.args[1] == g.args[1] and eq(p, e.args[2], g.ret) is True
                    io = [x for x in p.events if g is not None and g.n < x.n < e.n and s.isio(x)]
                    c.ob("splice-buffer", ok and not io, e, "bytes %s (%s) do not use the vector the buffer gave"
                         % (name, d.name), p)
                    nx = [x for x in p.events if x.n > e.n and (s.isio(x) or x in cb)]
                    fin = nx[0] if nx and nx[0] in cb and nx[0].name == CB + done else None
                    if fin is not None:
                        used.add(fin.n)
                    pos = holds(p, cmp("sgt", e.ret, ZERO))
                    if pos is True:
                        ok = fin is not None and fin.args[0] == d.buf(p) and eq(p, fin.args[1], e.ret) is True
                        c.ob("splice-buffer", ok, e, "bytes %s (%s) are not accounted for in the buffer" % (name, d.name), p)
                    elif pos is False:
                        c.ob("splice-buffer", fin is None, e, "bytes are accounted for that were not %s (%s)"
                             % (name, d.name), p)
        for e in cb:
            if e.name in (CB + "write_finish", CB + "read_finish"):
                c.ob("splice-buffer", e.n in used, e, "the buffer is advanced without a transfer", p)
        # every pass offers what is held to the output
        i0 = s.start(p)
        if i0 is None or p.end not in ("ret", "backedge"):
            continue
        evs = p.events[i0:]
        for d in s.dirs:
            if not runs(s, p, evs, d):
                continue
            rd = [e.n for e in evs if d.rd(e)]
            g = [e for e in evs if e.k == "call" and e.name == CB + "reading" and e.args[0] == d.buf(p) and
                 e.n > (rd[-1] if rd else 0)]
            wr = [e for e in evs if d.wr(e)]
            ok = bool(g) and (bool(wr) or zero(p, g[-1].ret))
            c.ob("splice-forward", ok, where_of(p), "bytes held (%s) are not offered to the output" % d.name, p)
            if not rd:
                g = [e for e in evs if e.k == "call" and e.name == CB + "writing" and e.args[0] == d.buf(p)]
                c.ob("splice-forward", bool(g) and zero(p, g[-1].ret), where_of(p), "room in the buffer (%s) is not "
                     "used to take bytes in" % d.name, p)
            if d.fl is not None:
                ok = any(d.fl(e) and (not wr or e.n > wr[-1].n) for e in evs)
                c.ob("splice-forward", ok, where_of(p), "bytes held back by the output stage (%s) are not passed on"
                     % d.name, p)


# -- moving through a pipe
def pipe(s):
    """the count of bytes in the pipe: a cell or a loop variable, zero at first, plus what goes in, less what
    comes out; the output is tried exactly if it is not zero"""
    c = s.c
    for d in s.dirs:
        n = 0
        cells = {}
        phis = {}
        for p in s.ps:
            for e in p.events:
                if d.rd(e) and holds(p, cmp("sgt", e.ret, ZERO)) is True:
                    for st in stores(p):
                        if st.n > e.n and loaded_from(st.val.sub(e.ret)) == st.addr:
                            cells.setdefault(st.addr, 0)
        for p in s.ps:
            if p.end == "backedge":
                rd = [e for e in p.events[p.val[4]:] if d.rd(e)]
                for e in rd:
                    for ph, lv in p.val[3].items():
                        iv = Analyzer.asL(p.val[2][ph])
                        if iv == ZERO and e.ret.sym() in (Analyzer.asL(lv).syms() or ()):
                            phis[ph] = 0
        var = sorted(cells, key=repr)[:1] or sorted(phis, key=repr)[:1]
        c.does(var, "%s counts the bytes in its pipe (%s)" % (s.f, d.name))
        if not var:
            continue
        var = var[0]
        cell = not isinstance(var, tuple)
        for p in s.ps:
            i0 = s.start(p)
            if i0 is None or p.end not in ("ret", "backedge"):
                continue
            evs = p.events[i0:]
            if not runs(s, p, evs, d):
                continue
            n += 1
            rd = [e for e in evs if d.rd(e)]
            wr = [e for e in evs if d.wr(e)]
            for e in rd + wr:
                ok = zero(p, e.args[1]) and zero(p, e.args[3])
                c.ob("splice-buffer", ok, e, "the transfer uses a fixed file position", p)
            c.ob("splice-forward", bool(rd), where_of(p), "nothing is taken in (%s)" % d.name, p)
            if cell:
                r = [e.val for e in reads(p, var) if e.n > p.events[i0].n]
                ws = [e for e in stores(p, addr=var) if e.n > p.events[i0].n]
                cur = r[0] if r else None
                fin = ws[-1].val if ws else cur
                pre = [e for e in stores(p, addr=var) if e.n <= p.events[i0].n]
                c.ob("splice-buffer", bool(pre) and zero(p, pre[-1].val), where_of(p), "the count of held bytes (%s) "
                     "does not start at zero" % d.name, p)
            else:
                cur = S(var)
                fin = Analyzer.asL(p.val[3][var]) if p.end == "backedge" and var in p.val[3] else None
            if cur is None:
                c.ob("splice-forward", False, where_of(p), "whether bytes are held (%s) is not looked at" % d.name, p)
                continue
            want = cur
            for e in rd:
                if holds(p, cmp("sgt", e.ret, ZERO)) is True:
                    want = want.add(e.ret)
            if not wr:
                c.ob("splice-forward", zero(p, want), where_of(p), "bytes held (%s) are not offered to the output"
                     % d.name, p)
            for e in wr:
                if holds(p, cmp("sgt", e.ret, ZERO)) is True:
                    want = want.sub(e.ret)
            if fin is not None:
                c.ob("splice-buffer", eq(p, fin, want) is True, where_of(p), "the count of held bytes (%s) does not "
                     "follow the transfers" % d.name, p)
        c.does(n, "%s runs (%s)" % (s.f, d.name))


# ------------------------------------------------------------------ the two entry points
def io_splice(c, cfg):
    f = "hev_task_io_splice"
    pr = prog(cfg)
    a = [argn(pr, f, i) for i in range(5)]
    ps = c.paths(f, cfg, opaque=CBS | {"hev_task_add_fd"})
    usep = any(p.calls("splice") for p in ps)
    dirs = []
    for name, i, o in (("forward", 0, 3), ("backward", 2, 1)):
        if usep:
            rd = (lambda e, i=i: e.k == "call" and e.name == "splice" and e.args[0] == a[i])
            wr = (lambda e, o=o: e.k == "call" and e.name == "splice" and e.args[2] == a[o])
        else:
            rd = (lambda e, i=i: e.k == "call" and e.name in ("readv", "read") and e.args[0] == a[i])
            wr = (lambda e, o=o: e.k == "call" and e.name in ("writev", "write") and e.args[0] == a[o])
        dirs.append(Dir(name, rd, wr))
    s = run(c, f, ps, dirs, lambda d, k: ERRNO, 5, [(a[0], a[1]), (a[2], a[3])], pipe if usep else ring)
    released(c, ps)
    if usep:
        pipes(c, s, a)
    return usep


def pipes(c, s, a):
    """each direction has its own pipe, written at one end and read at the other"""
    for p in s.ps:
        m = [x for x in made(p) if x[2] is not None]
        ends = {}
        for e in p.events:
            for d in s.dirs:
                if d.rd(e):
                    ends.setdefault(d, []).append((e, "w", e.args[2]))
                elif d.wr(e):
                    ends.setdefault(d, []).append((e, "r", e.args[0]))
        cells = {}
        for d, l in ends.items():
            for e, k, fd in l:
                ok = False
                for x, fds, cell, _ in m:
                    if fds[1 if k == "w" else 0] is not None and \
                            eq(p, fd, fds[1 if k == "w" else 0]) is True:
                        ok = True
                        cells.setdefault(d, set()).add(x.n)
                c.ob("splice-buffer", ok, e, "the transfer (%s) does not use the right end of a pipe" % d.name, p)
            c.ob("splice-buffer", len(cells.get(d, ())) == 1, where_of(p), "bytes of one direction (%s) go through "
                 "different pipes" % d.name, p)
        if len(cells) == 2:
            c.ob("splice-buffer", cells[s.dirs[0]] != cells[s.dirs[1]], where_of(p), "both directions share one "
                 "pipe", p)


def leaves(t):
    s = t.sym()
    if s and s[0] == "op" and s[1] == "or":
        return leaves(s[2]) + leaves(s[3])
    return [t]


def cio_splice(c):
    f = "hev_task_cio_splice"
    pr = prog()
    a, b = argn(pr, f, 0), argn(pr, f, 1)
    ko, eo, nx = pr.off("_HevObject", "klass"), pr.off(CIO, "err"), pr.off(CIO, "next")
    off = {m: pr.off(CIOK, m) for m in ("readv", "writev", "ctrl")}
    ps = c.paths(f, opaque=CBS | {"hev_task_io_splice", "hev_task_cio_get_fd"}, max_paths=300000)

    def meth(e, o, m):
        if e.k != "icall" or not e.args or e.args[0] != o:
            return False
        x = loaded_from(e.x)
        return x is not None and loaded_from(x.plus(-off[m])) == o.plus(ko)

    def other(e):
        return e.k == "icall" and not any(meth(e, o, m) for o in (a, b) for m in off) and \
            e.x != argn(pr, f, 3)
    flush = C(0)
    dirs = []
    for name, i, o in (("forward", a, b), ("backward", b, a)):
        d = Dir(name, lambda e, i=i: meth(e, i, "readv"), lambda e, o=o: meth(e, o, "writev"),
                lambda e, o=o: meth(e, o, "ctrl") and e.args[1] == flush)
        d.i, d.o = i, o
        dirs.append(d)
    for p in ps:
        for e in p.events:
            if other(e):
                c.ob("splice-buffer", False, e, "an unexpected operation is run on an endpoint", p)
    slow = [p for p in ps if not p.calls("hev_task_io_splice")]
    run(c, f, slow, dirs, lambda d, k: (d.i if k == "rd" else d.o).plus(eo), 3, True, ring)
    released(c, ps)
    n = 0
    for p in rets(ps):
        for e in p.calls("hev_task_io_splice"):
            n += 1
            g = {}
            for x in p.calls("hev_task_cio_get_fd"):
                g[(x.args[0], x.args[1])] = x.ret
            w = [g.get((o, C(k))) for o in (a, b) for k in (0, 1)]
            ok = None not in w and list(e.args[:4]) == w and \
                list(e.args[4:7]) == [argn(pr, f, i) for i in (2, 3, 4)]
            c.ob("splice-direct", ok, e, "the descriptors are not spliced as the endpoints are", p)
            if ok:
                nn = [x for x in p.events if x.k == "assume" and x.x[0] == "cmp" and x.x[1] == "sge" and
                      x.x[3] == ZERO]
                got = {y for x in nn for y in leaves(x.x[2])}
                c.ob("splice-direct", all(x in got or known(p, cmp("sge", x, ZERO)) for x in w), e,
                     "an endpoint without a descriptor is spliced by descriptor", p)
            for o in (a, b):
                r = reads(p, o.plus(nx))
                c.ob("splice-direct", bool(r) and zero(p, r[-1].val), e, "the stages of an endpoint are passed by", p)
            c.ob("splice-direct", not p.calls(CB + "new") and p.end == "ret", e, "splices twice", p)
    c.does(n, "plain descriptors are spliced directly")


def C19(c):
    u = io_splice(c, "default")
    v = io_splice(c, "nosplice")
    c.need(u != v, "both ways of splicing are compiled")
    cio_splice(c)
