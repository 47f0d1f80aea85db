"""C29 task stacks: extent, alignment, guard, release; the code that switches to them."""
import glob
import os
import re
import subprocess
import tempfile

from .core import *
from .core import absint
from .rules_itc import known, nonzero, zero
from .rules_own import BOUND, HEAP, last_stores
from .rules_time import macro_sys

PAGES = (4096, 16384, 65536)
MMAP = ("mmap", "mmap64")


def pagesize(s):
    return s[0] == "pure" and s[1] == "getpagesize" or s[0] == "call" and s[1] == "getpagesize"


class Terms:
    """bounds and divisibility of terms, with the page size fixed"""

    def __init__(self, page, env=(), mult=()):
        self.page = page
        self.env = dict(env)            # symbol -> term
        self.mult = dict(mult)          # symbol -> known divisor

    def go(self, t):
        """(low, high, divisor or 0) of t as linear terms"""
        if not isinstance(t, L):
            t = Analyzer.asL(t)
        lo, hi, g = C(t.c), C(t.c), t.c
        d = abs(g)
        from math import gcd
        for s, q in t.t:
            a, b, m = self.sym(s)
            if a is None:
                return None, None, 1
            if q < 0:
                a, b = b, a
            lo, hi = lo.add(a, q), hi.add(b, q)
            d = gcd(d, abs(q) * m)
        return lo, hi, d

    def sym(self, s):
        if pagesize(s):
            return C(self.page), C(self.page), self.page
        if s in self.env:
            return self.go(self.env[s])
        if s[0] == "op":
            if s[1] in ("xor", "and", "or", "shl", "lshr", "mul", "urem", "udiv", "sub"):
                a, b = self.go(s[2]), self.go(s[3])
                if None in (a[0], b[0]):
                    return None, None, 1
                if a[0] == a[1] and b[0] == b[1] and a[0].isconst() and b[0].isconst():
                    x, y = a[0].c, b[0].c
                    v = {"xor": lambda: x ^ y, "and": lambda: x & y, "or": lambda: x | y, "shl": lambda: x << y,
                         "lshr": lambda: x >> y, "mul": lambda: x * y, "urem": lambda: x % y,
                         "udiv": lambda: x // y, "sub": lambda: x - y}[s[1]]()
                    return C(v), C(v), abs(v)
                if s[1] == "and" and b[0] == b[1] and b[0].isconst():
                    k = -b[0].c
                    if k <= 0:                          # an unsigned mask
                        for w in (32, 64):
                            if 0 < (1 << w) + k <= 1 << 20:
                                k = (1 << w) + k
                    if k > 0 and k & (k - 1) == 0:
                        return a[0].plus(1 - k), a[1], k
                if s[1] == "mul" and b[0] == b[1] and b[0].isconst() and b[0].c >= 0:
                    return a[0].scale(b[0].c), a[1].scale(b[0].c), a[2] * b[0].c
                if s[1] == "urem" and b[0] == b[1] and b[0].isconst() and b[0].c > 0:
                    return ZERO, C(b[0].c - 1), 1
                if s[1] == "udiv" and b[0] == b[1] and b[0].isconst():
                    return None, None, 1
            if s[1].startswith("trunc"):
                return self.go(s[2])
        t = S(s)
        return t, t, self.mult.get(s, 1)

    def ge(self, a, b, slack=()):
        """is a >= b for all values (symbols in slack are known >= 0)?"""
        d = self.go(self.exact(a).sub(self.exact(b)))[0]
        return d is not None and d.c >= 0 and all(s in slack and q >= 0 for s, q in d.t)

    def same(self, a, b):
        x, y = self.exact(a), self.exact(b)
        return x is not None and x == y

    def exact(self, t):
        """t with environment and page size filled in, operations kept symbolic"""
        if not isinstance(t, L):
            t = Analyzer.asL(t)
        out = C(t.c)
        for s, q in t.t:
            if pagesize(s):
                v = C(self.page)
            elif s in self.env:
                v = self.exact(self.env[s])
            elif s[0] == "op" and len(s) == 4 and isinstance(s[2], L) and isinstance(s[3], L):
                v = self.fold(s[1], self.exact(s[2]), self.exact(s[3]))
                u = v.sym()
                if u and u[0] == "op" and u[1] in ("udiv", "sdiv") and u[3].isconst() and q % u[3].c == 0:
                    out = out.add(floor2(u[2], u[3].c), q // u[3].c)
                    continue
            else:
                v = S(s)
            out = out.add(v, q)
        return out

    def fold(self, op, a, b):
        lo, hi, _ = Terms(self.page).go(S(("op", op, a, b)))
        if lo is not None and lo == hi and lo.isconst():
            return lo
        if b.isconst() and b.c > 0 and b.c & (b.c - 1) == 0 and op in ("urem", "srem"):
            return a.sub(floor2(a, b.c))
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if y.isconst() and y.c > 0 and y.c & (y.c + 1) == 0 and not x.isconst():
                    return x.sub(floor2(x, y.c + 1))
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                u = x.sym()
                if u and u[0] == "op" and u[1] in ("udiv", "sdiv") and u[3] == y and y.isconst():
                    return floor2(u[2], y.c)
        return S(("op", op, a, b))

    def aligned(self, t, k):
        return self.go(self.exact(t))[2] % k == 0


def floor2(t, k):
    """t rounded down to a multiple of k (a power of two)"""
    if t.isconst():
        return C(t.c // k * k)
    if Terms(4096).go(t)[2] % k == 0:
        return t
    return S(("op", "and", t, C(-k)))


def globals_of_page(c, cfg, f):
    """globals that only ever hold the page size"""
    ok, bad = set(), set()
    for p in c.paths(f, cfg):
        for e in p.events:
            if e.k == "store" and (Analyzer.root(e.addr) or ("",))[0] == "glob":
                g = Analyzer.root(e.addr)
                v = e.val.sym() if isinstance(e.val, L) else None
                (ok if v is not None and pagesize(v) else bad).add(g)
    return ok - bad


def field_env(p, me, stored):
    """what loads of an object's fields give, from the values the constructor left"""
    env = {}
    for e in p.events:
        if e.k == "read":
            d = e.addr.sub(me)
            if d.isconst() and d.c in stored and e.val.sym():
                env[e.val.sym()] = stored[d.c]
    return env


def one(c, f, cfg):
    ps = rets(c.paths(f, cfg))
    if len(ps) != 1 or not isinstance(ps[0].val, L):
        raise AnalysisError("%s is not a plain accessor" % f)
    return ps[0]


def tags(c, f, cfg, base_of, kinds):
    """bytes of an object written (or checked) with a fixed value, as offsets from its start: {offset: value}"""
    out = None
    loops = {}
    ps = c.paths(f, cfg)
    for p in backs(ps):
        b = base_of(p)
        if b is None:
            continue
        for e in p.events[p.val[4]:]:
            if e.k not in kinds or not isinstance(e.addr, L):
                continue
            phis = [(s, q) for s, q in e.addr.t if s[0] == "phi"]
            if len(phis) != 1:
                continue
            s, q = phis[0]
            iv = induction(ps).get(s)
            v = e.val if e.k == "store" else p.st.facts.norm(e.val)
            if iv is None or abs(iv[1] * q) != e.size or not isinstance(v, L) or not v.isconst():
                continue
            n = next((k for k in range(1, 1 << 15) if holds(p, cmp("ne", S(s), iv[0].plus(k * iv[1]))) is True), None)
            at = [e.addr.add(S(s), -q).add(iv[0].plus(i * iv[1]), q).sub(b) for i in range(n or 0)]
            if all(x.isconst() for x in at):
                loops.setdefault(p.val[1], {}).update({x.c: v.c for x in at})
    for p in rets(ps):
        b = base_of(p)
        if b is None:
            continue
        t = {}
        for e in p.events:
            if e.k == "loop" and e.x[0] in loops:
                t.update(loops[e.x[0]])
            if e.k in kinds and isinstance(e.addr, L) and e.addr.sub(b).isconst() and e.size == 4:
                v = e.val if e.k == "store" else p.st.facts.norm(e.val)
                if isinstance(v, L) and v.isconst():
                    t[e.addr.sub(b).c] = v.c
        out = t if out is None else {k: v for k, v in t.items() if out.get(k) == v}
    return out or {}


def backend(c, cfg, detect):
    pr = prog(cfg)
    new = "hev_task_stack_new"
    size = argn(pr, new, 0)
    pg = globals_of_page(c, cfg, new)
    base, bottom = one(c, "hev_task_stack_get_base", cfg), one(c, "hev_task_stack_get_bottom", cfg)
    mb, mt = argn(pr, "hev_task_stack_get_base", 0), argn(pr, "hev_task_stack_get_bottom", 0)
    md = argn(pr, "hev_task_stack_destroy", 0)
    n = 0
    for p in rets(c.paths(new, cfg)):
        w = where_of(p)
        if zero(p, p.val):
            continue
        n += 1
        me = p.val
        st = {a.sub(me).c: e.val for a, e in last_stores(p).items() if a.sub(me).isconst()}
        pages = {e.val.sym(): S(("pure", "getpagesize", ())) for e in p.events if e.k == "read" and
                 Analyzer.root(e.addr) in pg and e.val.sym() and not zero(p, e.val)}
        mm = [e for e in p.events if e.k == "call" and e.name in MMAP]
        own = [e for e in p.events if e.k == "call" and e.name in HEAP and HEAP[e.name] == "hev"]
        c.ob("stack-memory", len(mm) == 1 or not mm and len(own) == 1, w, "a stack has no memory of its own", p)
        if mm:
            e = mm[0]
            fl = e.args[3]
            anon, priv, fixed = macro_sys("MAP_ANONYMOUS"), macro_sys("MAP_PRIVATE"), macro_sys("MAP_FIXED")
            ok = fl.isconst() and fl.c & anon and fl.c & priv and not fl.c & fixed and e.args[2].isconst() and \
                e.args[2].c & 3 == 3
            c.ob("stack-memory", ok, e, "a stack's memory is not private, fresh, readable and writable", p)
            M, ln = e.ret, e.args[1]
        elif own:
            M, ln = own[0].ret, own[0].args[0]
        else:
            continue
        for page in PAGES:
            mult = {M.sym(): page if mm else 16}
            T = Terms(page, pages, mult)
            eb = field_env(base, mb, st)
            et = field_env(bottom, mt, st)
            eb[mb.sym()] = me
            et[mt.sym()] = me
            tb = Terms(page, {**pages, **eb}, mult)
            tt = Terms(page, {**pages, **et}, mult)
            low = C(0).add(M)
            if mm:
                g = [e for e in p.calls("mprotect") if zero(p, e.args[2])]
                other = [e for e in p.calls("mprotect") if not zero(p, e.args[2])]
                c.ob("stack-guard", not other, other[0] if other else w, "the protection of stack memory is changed "
                     "to something else than inaccessible", p)
                if detect:
                    ok = len(g) == 1 and T.same(g[0].args[0], M) and T.ge(g[0].args[1], C(page)) and \
                        g[0].n > mm[0].n
                    c.ob("stack-guard", ok, g[0] if g else w, "no inaccessible page lies at the lower end of the "
                         "stack", p)
                if g:
                    low = M.add(g[0].args[1]) if T.same(g[0].args[0], M) else M.add(ln)
                c.ob("stack-extent", tb.same(base.val, M), where_of(base), "the lower end reported is not that of the "
                     "stack's memory", base)
            else:
                mk = tags(c, new, cfg, lambda q: q.val if q.end == "ret" and nonzero(q, q.val) else
                          (q.calls(own[0].name) or [None])[0].ret if q.end == "backedge" else None, ("store",))
                ck = tags(c, "hev_task_stack_destroy", cfg, lambda q: md, ("read",))
                hdr = pr.sizeof("_HevTaskStack")
                mk = {o: v for o, v in mk.items() if o >= hdr}
                if detect:
                    ok = bool(mk) and sorted(mk) == list(range(min(mk), min(mk) + 4 * len(mk), 4)) and min(mk) == hdr
                    c.ob("stack-guard", ok, w, "no watched area lies at the lower end of the stack", p)
                    c.ob("stack-guard", mk == ck, "(hev_task_stack_destroy)", "the watched area is not checked for the "
                         "values it was filled with when the stack goes")
                top = max(list(mk) + [hdr - 4]) + 4 if mk else hdr
                low = M.plus(top)
                c.ob("stack-extent", tb.same(base.val, M.plus(hdr)), where_of(base), "the lower end reported is not "
                     "that of the stack's memory", base)
            ok = tt.ge(M.add(ln), bottom.val)
            c.ob("stack-extent", ok, where_of(bottom), "a stack starts beyond the end of its memory", p)
            ok = tt.ge(bottom.val, low.add(size))
            c.ob("stack-extent", ok, where_of(bottom), "a stack is smaller than asked for (pages of %d)" % page, p)
            c.ob("stack-aligned", tt.aligned(bottom.val, 16), where_of(bottom), "a stack does not start aligned", p)
            for q in rets(c.paths("hev_task_stack_destroy", cfg)):
                ed = field_env(q, md, st)
                ed[md.sym()] = me
                td = Terms(page, {**pages, **ed}, mult)
                um = q.calls("munmap")
                c.ob("stack-released", len(um) == len(mm), where_of(q), "the stack's memory is not released once", q)
                for e in um:
                    c.ob("stack-released", td.same(e.args[0], M) and td.same(e.args[1], ln), e, "other memory than "
                         "the stack's is released", q)
                fr = [e for e in q.calls("hev_free") if td.same(e.args[0], me)]
                c.ob("stack-released", len(fr) == 1, where_of(q), "the stack's book-keeping is not released once", q)
    c.does(n, "a stack can be made (%s)" % cfg)


def wiring(c):
    """the task uses the stack made for it; asks for the size it was given"""
    pr = prog()
    f = "hev_task_new"
    sz = argn(pr, f, 0)
    off = pr.off("_HevTask", "stack_bottom")
    so = pr.off("_HevTask", "stack")
    n = 0
    op = {"hev_task_stack_new", "hev_task_stack_get_bottom", "hev_task_stack_get_base", "hev_task_stack_destroy"}
    for p in rets(c.paths(f, opaque=op)):
        w = where_of(p)
        sn = p.calls("hev_task_stack_new")
        for e in sn:
            neg = holds(p, cmp("slt", sz, ZERO))
            c.ob("stack-size", eq(p, e.args[0], sz) is True and neg is False or neg is True and
                 known(p, cmp("sge", e.args[0], C(16384))), e, "the stack made is not of the size asked for", p)
        if zero(p, p.val):
            continue
        n += 1
        gb = p.calls("hev_task_stack_get_bottom")
        st = last_stores(p)
        v = st.get(p.val.plus(off))
        s = st.get(p.val.plus(so))
        ok = v is not None and s is not None and len(sn) == 1 and eq(p, s.val, sn[0].ret) is True and \
            any(eq(p, g.ret, v.val) is True and eq(p, g.args[0], sn[0].ret) is True for g in gb)
        c.ob("stack-used", ok, w, "a new task's stack pointer does not start at the upper end of its own stack", p)
    c.does(n, "a task can be made")
    f = "hev_task_call_new"
    base, stk = argn(pr, f, 0), argn(pr, f, 1)
    to = pr.off("_HevTaskCall", "stack_top")
    for p in rets(c.paths(f)):
        if zero(p, p.val):
            continue
        own = [e for e in p.events if e.k == "call" and e.name in HEAP]
        v = last_stores(p).get(p.val.plus(to))
        T = Terms(4096, {}, {p.val.sym(): 16})
        ok = len(own) == 1 and v is not None and T.aligned(v.val, 16)
        c.ob("stack-aligned", ok, where_of(p), "a call's stack does not start aligned", p)
        if ok:
            ok = Terms(4096).ge(own[0].ret.add(own[0].args[0]), T.go(v.val)[1])
            c.ob("stack-extent", ok, where_of(p), "a call's stack starts beyond the end of its memory", p)
            ok = T.ge(v.val, own[0].ret.add(base).add(stk).plus(-15))
            c.ob("stack-extent", ok, where_of(p), "a call's stack is smaller than asked for", p)
    f = "hev_task_call_jump"
    me, ent = argn(pr, f, 0), argn(pr, f, 1)
    ro = me.plus(pr.off("_HevTaskCall", "retval"))
    for p in rets(c.paths(f)):
        x = p.calls("hev_task_execute")
        ok = len(x) == 1 and eq(p, x[0].args[0], me) is True and eq(p, x[0].args[1], ent) is True
        c.ob("call-result", ok, where_of(p), "the call's function is not run once with the call's object", p)
        ok = ok and any(e.k == "read" and e.addr == ro and e.n > x[0].n and eq(p, e.val, p.val) is True
                        for e in p.events)
        c.ob("call-result", ok, where_of(p), "the result set by the function is not what the call returns", p)


# ------------------------------------------------------------------ x86-64 switch code
class Asm:
    """straight-line interpretation of the switch routine: registers and the stack it leaves"""
    SAVED = ("rbx", "rbp", "r12", "r13", "r14", "r15")

    def __init__(self, c, text, fn):
        self.c = c
        self.reg = {r: (r + "0", 0) for r in ("rax", "rdi", "rsi", "rsp", "rdx", "rcx", "r8", "r9", "r10", "r11") +
                    self.SAVED}
        self.mem = {}
        self.loads = []
        self.calls = []
        self.end = None
        for line in self.body(text, fn):
            self.step(line)

    @staticmethod
    def body(text, fn):
        m = re.search(r"(?m)^[0-9a-f]+ <%s>:\n(.*?)(?=^[0-9a-f]+ <|\Z)" % fn, text, re.S | re.M)
        if not m:
            raise AnalysisError("switch routine %s not found" % fn)
        out = []
        for l in m.group(1).splitlines():
            l = re.sub(r"#.*", "", l.partition(":")[2]).strip().replace("\t", " ")
            if l:
                out.append(l)
        return out

    def val(self, o):
        o = o.strip()
        if o.startswith("$"):
            return (None, int(o[1:], 0))
        if o.startswith("%"):
            return self.reg[o[1:]]
        m = re.match(r"(-?(?:0x)?[0-9a-f]*)\(%(\w+)\)$", o)
        if not m:
            raise AnalysisError("operand %s of the switch routine is not understood" % o)
        a = self.reg[m.group(2)]
        a = (a[0], a[1] + (int(m.group(1), 0) if m.group(1) else 0))
        if a in self.mem:
            return self.mem[a]
        self.loads.append(a)
        return (("load", a), 0)

    def put(self, o, v):
        o = o.strip()
        if o.startswith("%"):
            if o[1:] not in self.reg:
                raise AnalysisError("register %s of the switch routine is not understood" % o)
            self.reg[o[1:]] = v
            return
        m = re.match(r"(-?(?:0x)?[0-9a-f]*)\(%(\w+)\)$", o)
        if not m:
            raise AnalysisError("operand %s of the switch routine is not understood" % o)
        a = self.reg[m.group(2)]
        self.mem[(a[0], a[1] + (int(m.group(1), 0) if m.group(1) else 0))] = v

    def push(self, v):
        b, o = self.reg["rsp"]
        self.reg["rsp"] = (b, o - 8)
        self.mem[(b, o - 8)] = v

    def pop(self):
        a = self.reg["rsp"]
        v = self.mem.get(a, (("load", a), 0))
        self.reg["rsp"] = (a[0], a[1] + 8)
        return v

    def step(self, l):
        op, _, rest = l.partition(" ")
        op = op.rstrip("q") if op not in ("q",) else op
        a = [x.strip() for x in re.split(r",(?![^(]*\))", rest)] if rest.strip() else []
        if self.end is not None:
            return
        if op == "mov":
            self.put(a[1], self.val(a[0]))
        elif op in ("sub", "add"):
            d, s = self.val(a[1]), self.val(a[0])
            if s[0] is not None:
                raise AnalysisError("switch routine: %s" % l)
            self.put(a[1], (d[0], d[1] + (s[1] if op == "add" else -s[1])))
        elif op == "lea":
            m = re.match(r"(-?(?:0x)?[0-9a-f]*)\(%(\w+)\)$", a[0])
            b = self.reg[m.group(2)]
            self.put(a[1], (b[0], b[1] + (int(m.group(1), 0) if m.group(1) else 0)))
        elif op == "push":
            self.push(self.val(a[0]))
        elif op == "pop":
            v = self.pop()
            self.put(a[0], v)
        elif op == "call":
            self.calls.append((self.val(a[0].lstrip("*")), dict(self.reg)))
            for r in list(self.reg):
                if r not in self.SAVED and r != "rsp":
                    self.reg[r] = ("clobbered", 0)
        elif op == "ret":
            self.end = dict(self.reg)
        elif op in ("xor", "nop", "endbr64", "cld"):
            if op == "xor":
                self.put(a[1], ("xor", 0))
        else:
            raise AnalysisError("instruction '%s' of the switch routine is not understood" % l)


def switch(c):
    pr = prog()
    s = glob.glob(os.path.join(REPO, "src", "**", "*execute*.S"), recursive=True)
    c.need(s, "the switch routine's source")
    with tempfile.TemporaryDirectory() as d:
        o = os.path.join(d, "x.o")
        r = subprocess.run([LLVM + "/clang", "-c", "-I", REPO + "/src", "-I", REPO + "/include", "-o", o, s[0]],
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("cannot assemble the switch routine: " + r.stderr[-300:])
        r = subprocess.run([LLVM + "/llvm-objdump", "-d", "--no-show-raw-insn", o], capture_output=True, text=True)
    w = os.path.relpath(s[0], REPO) + " (hev_task_execute)"
    A = Asm(c, r.stdout, "hev_task_execute")
    c.ob("switch-call", len(A.calls) == 1 and A.end is not None, w, "the entry is not called exactly once")
    if len(A.calls) != 1 or A.end is None:
        return
    tgt, reg = A.calls[0]
    c.ob("switch-call", tgt == ("rsi0", 0), w, "the entry given is not what is called")
    c.ob("switch-call", reg["rdi"] == ("rdi0", 0), w, "the entry does not get the object it was started with")
    b, o = reg["rsp"]
    ld = b[1] if isinstance(b, tuple) else None
    for st, fl in (("_HevTask", "stack_bottom"), ("_HevTaskCall", "stack_top")):
        c.ob("switch-stack", ld is not None and ld[0] == "rdi0" and ld[1] == pr.off(st, fl), w,
             "the entry does not run on the stack the %s structure names" % st)
    c.ob("switch-stack", o <= 0 and o % 16 == 0, w, "the stack is not aligned when the entry is called")
    c.ob("switch-back", A.end["rsp"] == ("rsp0", 0), w, "the old stack is not found again after the entry returned")
    for x in Asm.SAVED:
        c.ob("switch-back", A.end[x] == (x + "0", 0), w, "register %s is lost for the caller" % x)
    lo = min([a[1] for a in A.mem if a[0] == b] + [0])
    c.ob("switch-stack", all(a[1] < 0 for a in A.mem if a[0] == b), w, "the switch writes beyond the upper end of the "
         "stack")
    c.ob("switch-stack", all(a[0] in (b, "rsp0") for a in A.mem) and all(a[1] < 0 for a in A.mem if a[0] == "rsp0"),
         w, "the switch writes to memory that is not the stack's")


def C29(c):
    backend(c, "default", True)
    backend(c, "nodetect", False)
    backend(c, "heap", True)
    backend(c, "heap2", True)
    backend(c, "heap0", False)
    wiring(c)
    switch(c)
