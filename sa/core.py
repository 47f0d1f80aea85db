"""Program construction, reporting and path queries shared by all checks."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from . import llvmir
from .absint import (AnalysisError, Analyzer, C, Ev, F, L, PTR, S, T, ZERO, bnot, cmp, contains,
                     lstamp, show, show_b, stamp)
from . import absint

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
LLVM = "/usr/lib/llvm-18/bin"

BASE = {"ENABLE_STACK_OVERFLOW_DETECTION": None, "ENABLE_MEMALLOC_SLICE": None,
        "ENABLE_IO_SPLICE_SYSCALL": None, "CONFIG_STACK_BACKEND": "STACK_MMAP",
        "CONFIG_STACK_OVERFLOW_DETECTION": "1", "CONFIG_MEMALLOC_SLICE_ALIGN": "64",
        "CONFIG_MEMALLOC_SLICE_MAX_SIZE": "4096", "CONFIG_MEMALLOC_SLICE_MAX_COUNT": "1000",
        "CONFIG_SCHED_CLOCK": "CLOCK_NONE"}


def _cfg(drop=(), **kw):
    d = dict(BASE)
    for k in drop:
        d.pop(k, None)
    d.update(kw)
    return d


CONFIGS = {
    "default": BASE,
    # the other supported build choices (configs.mk)
    "heap": _cfg(CONFIG_STACK_BACKEND="STACK_HEAP"),
    "noslice": _cfg(drop=("ENABLE_MEMALLOC_SLICE",)),
    "nosplice": _cfg(drop=("ENABLE_IO_SPLICE_SYSCALL",)),
    "clock": _cfg(CONFIG_SCHED_CLOCK="CLOCK_MONOTONIC"),
    "heap2": _cfg(CONFIG_STACK_BACKEND="STACK_HEAP", CONFIG_STACK_OVERFLOW_DETECTION="2"),
    "heap0": _cfg(drop=("ENABLE_STACK_OVERFLOW_DETECTION",), CONFIG_STACK_BACKEND="STACK_HEAP",
                  CONFIG_STACK_OVERFLOW_DETECTION="0"),
    # other limits of the slice allocator
    "slice1": _cfg(CONFIG_MEMALLOC_SLICE_MAX_SIZE="64", CONFIG_MEMALLOC_SLICE_MAX_COUNT="1"),
    "slice7": _cfg(CONFIG_MEMALLOC_SLICE_ALIGN="32", CONFIG_MEMALLOC_SLICE_MAX_SIZE="256",
                   CONFIG_MEMALLOC_SLICE_MAX_COUNT="7"),
    "nodetect": _cfg(drop=("ENABLE_STACK_OVERFLOW_DETECTION",), CONFIG_STACK_OVERFLOW_DETECTION="0"),
}


class Prog:
    """the whole library compiled to IR under one configuration"""

    def __init__(self, cfg="default"):
        self.cfg = cfg
        self.tmp = tempfile.mkdtemp(prefix="sa-ir-")
        try:
            self._build()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def _build(self):
        srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))
        if len(srcs) < 10:
            raise AnalysisError("no sources under %s/src" % REPO)
        defs = ["-D%s%s" % (k, "" if v is None else "=" + v) for k, v in CONFIGS[self.cfg].items()]
        base = [LLVM + "/clang", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names",
                "-g", "-w", "-I", REPO + "/include", "-I" + REPO + "/src"] + defs

        def one(i):
            o = "%s/%d.bc" % (self.tmp, i)
            r = subprocess.run(base + ["-c", "-emit-llvm", srcs[i], "-o", o], capture_output=True,
                               text=True)
            if r.returncode:
                raise AnalysisError("cannot compile %s: %s" % (srcs[i], r.stderr[-600:]))
            ll = "%s/%d.ll" % (self.tmp, i)
            r = subprocess.run([LLVM + "/opt", "-passes=sroa", o, "-S", "-o", ll],
                               capture_output=True, text=True)
            if r.returncode:
                raise AnalysisError("opt: " + r.stderr[-600:])
            return ll
        with ThreadPoolExecutor(8) as ex:
            lls = list(ex.map(one, range(len(srcs))))
        self.mod = llvmir.Module(lls)
        dis = []
        for ll in lls:
            with open(ll) as f:
                dis.append(llvmir.DebugInfo(f.read()))
        self.di = llvmir.Layouts(dis)
        self.nsrc = len(srcs)

    def off(self, struct, field):
        try:
            return self.di.off(struct, field)[0]
        except Exception:
            raise AnalysisError("structure %s has no field %s" % (struct, field))

    def fsize(self, struct, field):
        return self.di.off(struct, field)[1]

    def sizeof(self, struct):
        try:
            return self.di.size(struct)
        except Exception:
            raise AnalysisError("no structure %s" % struct)


_progs = {}


def prog(cfg="default"):
    if cfg not in _progs:
        _progs[cfg] = Prog(cfg)
    return _progs[cfg]


class Check:
    """one run of one property's check"""

    def __init__(self, pid):
        self.pid = pid
        self.viol = []
        self.obl = {}
        self.known = []
        self.fns = set()
        self.npaths = 0
        self.nevents = 0
        self.cfgs = set()
        self.inlined = set()
        self.notes = []
        self.samples = []
        self._cache = {}
        self.only = None        # rules that count (None: all)
        self.last = "?"
        self.t0 = time.time()

    # -- running the interpreter
    def paths(self, fname, cfg="default", **kw):
        key = (fname, cfg, tuple(sorted((k, tuple(sorted(v)) if isinstance(v, (set, frozenset))
                                         else repr(v)) for k, v in kw.items())))
        self.last = fname
        if key in self._cache:
            return self._cache[key]
        pr = prog(cfg)
        self.cfgs.add(cfg)
        args = kw.pop("args", None)
        setup = kw.pop("setup", None)
        a = Analyzer(pr.mod, pr.di, **kw)
        ps = a.run(fname, args, setup)
        if not ps:
            raise AnalysisError("no path through %s" % fname)
        self.fns.add(fname)
        self.npaths += len(ps)
        self.nevents += sum(len(p.events) for p in ps)
        self.inlined |= a.stats["inlined"]
        self._cache[key] = ps
        for p in ps:
            self.sane(p)
        return ps

    def sane(self, p):
        """what no rule survives: values never set are handed on, objects are used beyond their memory"""
        only, self.only = self.only, None
        size = {}
        for e in p.events:
            if e.k in ("read", "store") and any(s == UNDEF for s, _ in e.addr.t):
                self.ob("defined-value", False, e, "a pointer that was never set is followed", p)
            if e.k in ("call", "icall"):
                if any(isinstance(x, L) and x.sym() == UNDEF for x in e.args or ()):
                    self.ob("defined-value", False, e, "a value that was never set is handed on", p)
                if e.k == "call" and e.name in ALLOCS and e.ret is not None and e.args and e.args[-1].isconst():
                    k = e.args[-1].c
                    if len(e.args) == 2:
                        k = k * e.args[0].c if e.args[0].isconst() else None
                    if k is not None and Analyzer.asL(e.ret).sym() is not None:
                        size[Analyzer.asL(e.ret).sym()] = k
            elif e.k == "store" and size and e.size:
                r = Analyzer.root(e.addr)
                d = e.addr.sub(S(r)) if r in size else None
                if d is not None and d.isconst() and (d.c < 0 or d.c + e.size > size[r]):
                    self.ob("inside-object", False, e, "an object is written beyond the memory allocated for it", p)
        self.only = only

    # -- obligations
    def ob(self, rule, ok, where, msg, path=None):
        if self.only is not None and rule not in self.only:
            return ok
        o = self.obl.setdefault(rule, [0, 0])
        o[0] += 1
        if ok:
            o[1] += 1
        else:
            self.fail(rule, where, msg, path)
        return ok

    def fail(self, rule, where, msg, path=None):
        w = where.where if isinstance(where, Ev) else str(where)
        key = (rule, w, msg)
        for v in self.viol:
            if v["key"] == key:
                return
        self.viol.append({"key": key, "rule": rule, "where": w, "msg": msg,
                          "path": [repr(e) for e in path.events][-60:] if path is not None else []})

    def need(self, cond, what):
        """anchor: the rule must have something to talk about"""
        if not cond:
            raise AnalysisError("anchor vanished: %s" % what)

    def does(self, cond, what):
        """the property needs the code to do this at all, on some path of the analysed functions"""
        only, self.only = self.only, None
        self.ob("required-effect", bool(cond), "(%s)" % self.last, "no path does this: %s" % what)
        self.only = only


# ------------------------------------------------------------------ path queries
UNDEF = ("havoc", "undef", 0)
ALLOCS = {"hev_malloc", "hev_malloc0", "hev_calloc", "malloc", "calloc"}
YIELDS = {"hev_task_yield", "hev_task_sleep", "hev_task_usleep", "hev_task_timer_wait",
          "hev_task_join", "hev_task_cond_wait", "hev_task_cond_timedwait"}


def where_of(p):
    f = p.file or "?"
    if "/src/" in f:
        f = "src/" + f.split("/src/", 1)[1]
    return "%s:%s (%s)" % (f, p.line, p.fn)


def rets(ps):
    return [p for p in ps if p.end == "ret"]


def backs(ps):
    return [p for p in ps if p.end == "backedge"]


def is_yield(e, extra=()):
    return e.k == "call" and (e.name in YIELDS or e.name in extra) or e.k == "icall"


def last_yield(p, extra=()):
    n = 0
    for e in p.events:
        if is_yield(e, extra):
            n = e.n
    return n


def stores(p, addr=None, root=None, tag=None, after=0, before=None):
    out = []
    for e in p.events:
        if e.k != "store" and not (e.k == "atomic" and e.val is not None):
            continue
        if e.n <= after or (before is not None and e.n >= before):
            continue
        if addr is not None and e.addr != addr:
            continue
        if root is not None and Analyzer.root(e.addr) != root:
            continue
        if tag is not None and e.tag != tag:
            continue
        out.append(e)
    return out


def shared_stores(p, after=0, before=None):
    """stores to memory that outlives the call (not to own stack objects)"""
    return [e for e in stores(p, after=after, before=before)
            if not ((Analyzer.root(e.addr) or ("",))[0] == "alloca") and
            e.addr != absint.ERRNO]


def final(p, addr, size=None):
    m = p.st.mem.get(addr)
    if m is None or (size is not None and m[0] != size):
        return None
    return m[1]


def lastval(p, addr):
    """last value stored to (or else read from) exactly this address"""
    v = r = None
    for e in p.events:
        if e.k == "store" and e.addr == addr:
            v = e.val
        elif e.k == "read" and e.addr == addr:
            r = e.val
    return v if v is not None else r


def eq(p, a, b):
    if a is None or b is None:
        return None
    if not isinstance(a, L):
        a = Analyzer.asL(a)
    if not isinstance(b, L):
        b = Analyzer.asL(b)
    return p.st.facts.decide(cmp("eq", a, b))


def holds(p, b):
    return p.st.facts.decide(b)


# ------------------------------------------------------------------ induction variables
def induction(ps):
    """loop variables stepping by a constant in every iteration: {phi: (init, step)}"""
    out, bad = {}, set()
    for p in backs(ps):
        fn, blk, init, latch, ev0 = p.val
        for s, v in latch.items():
            d = Analyzer.asL(v).sub(S(s))
            if not d.isconst() or d.c == 0 or s in out and out[s][1] != d.c:
                bad.add(s)
            else:
                out[s] = (Analyzer.asL(init[s]), d.c)
    return {s: x for s, x in out.items() if s not in bad}


def loop_of(p, ev0):
    return p.events[ev0] if ev0 < len(p.events) and p.events[ev0].k == "loop" else None


def counters(l, ivs):
    """the number of completed iterations of loop event l, as terms over its unit-step variables"""
    out = []
    for s in l.x[1]:
        if s in ivs:
            init, st = ivs[s]
            if abs(st) == 1:
                out.append(S(s).sub(init).scale(st))
    return out


KSYM = S(("op", "iteration", ZERO, ZERO))


def in_iterations(t, l, ivs):
    """term with the variables of loop l replaced by init + step * iteration"""
    for s in l.x[1]:
        if s in ivs and any(x == s for x, _ in t.t):
            q = dict(t.t)[s]
            init, st = ivs[s]
            t = t.sub(S(s).scale(q)).add(init.add(KSYM.scale(st)), q)
    return t


# ------------------------------------------------------------------ bounds of linear terms
def nat_range(p, s, nat=None, depth=0):
    """natural range of a symbol (None = unbounded)"""
    if nat:
        r = nat(s)
        if r is not None:
            return r
    f = p.st.facts
    lo = hi = None
    if s[0] == "op" and depth < 4:
        if s[1] == "urem" and s[3].isconst() and s[3].c > 0:
            lo, hi = 0, s[3].c - 1
        elif s[1] in ("udiv", "sdiv") and s[3].isconst() and s[3].c > 0:
            a, b = bound(p, s[2], nat, depth + 1)
            if a is not None and a >= 0:
                lo = a // s[3].c
                hi = b // s[3].c if b is not None else None
        elif s[1] == "and" and s[3].isconst() and s[3].c >= 0:
            lo, hi = 0, s[3].c
        elif s[1].startswith("trunc"):
            n = int(s[1][5:])
            lo, hi = 0, (1 << n) - 1
    elif s[0] == "bool":
        lo, hi = 0, 1
    for sg in ("s", "u"):
        a, b = f.lo.get((sg, ((s, 1),))), f.hi.get((sg, ((s, 1),)))
        if sg == "u" and (a is None and b is None):
            continue
        if sg == "u":
            a = 0 if a is None else a
        if a is not None:
            lo = a if lo is None else max(lo, a)
        if b is not None:
            hi = b if hi is None else min(hi, b)
    return lo, hi


def bound(p, l, nat=None, depth=0):
    """(lo, hi) of a linear term, from natural ranges and the facts of the path"""
    f = p.st.facts
    l = f.norm(l)
    best = [None, None]

    def direct(x):
        lo = hi = x.c
        for s, q in x.t:
            a, b = nat_range(p, s, nat, depth)
            if q < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + q * a
            hi = None if hi is None or b is None else hi + q * b
        return lo, hi

    def upd(lo, hi):
        if lo is not None:
            best[0] = lo if best[0] is None else max(best[0], lo)
        if hi is not None:
            best[1] = hi if best[1] is None else min(best[1], hi)
    forms = {}
    for tab in (f.lo, f.hi):
        for sg, k in tab:
            if len(k) > 1:
                forms[(sg, k)] = (f.lo.get((sg, k)), f.hi.get((sg, k)))

    def search(x, lo0, hi0, d):
        a, b = direct(x)
        upd(None if a is None or lo0 is None else a + lo0, None if b is None or hi0 is None else b + hi0)
        if d == 0:
            return
        for (sg, k), (fl, fh) in forms.items():
            for s, q in k:
                c = dict(x.t).get(s)
                if c is None or c % q:
                    continue
                m = c // q
                rest = x.sub(L(0, k).scale(m))
                if len(rest.t) > len(x.t):
                    continue
                u, v = (fl, fh) if m > 0 else (fh, fl)
                search(rest, None if lo0 is None or u is None else lo0 + m * u,
                       None if hi0 is None or v is None else hi0 + m * v, d - 1)
                break
    search(l, 0, 0, 2)
    return best[0], best[1]


def wraps(p, e, nat=None):
    """may this arithmetic event wrap around?  None if nothing is known"""
    lo, hi = bound(p, e.val, nat)
    nsw = e.x[0][0]
    b = e.size
    mn, mx = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if nsw else (0, (1 << b) - 1)
    return not (lo is not None and lo >= mn and hi is not None and hi <= mx)


def divmod_form(l):
    """replace x % k by x - k*(x / k)"""
    out = L(l.c, ())
    for s, q in l.t:
        if s[0] == "op" and s[1] in ("urem", "srem") and s[3].isconst() and s[3].c > 0:
            d = S(("op", s[1][0] + "div", s[2], s[3]))
            out = out.add(s[2].sub(d.scale(s[3].c)), q)
        else:
            out = out.add(S(s), q)
    return out


def arg(i, name):
    return S(("arg", i, name))


def argn(pr, fname, i):
    """value term of the i-th parameter of a function"""
    fn = pr.mod.functions.get(fname)
    if fn is None or fn.decl:
        raise AnalysisError("function %s is not defined" % fname)
    if i >= len(fn.args):
        raise AnalysisError("function %s has no parameter %d" % (fname, i))
    vid, nm, isptr, bits = fn.args[i]
    s = ("arg", i, nm or "arg%d" % i)
    if isptr:
        PTR.add(s)
    return S(s, None, bits)


SELF = S(("pure", "hev_task_self", ()))


def is_load(v, addr=None):
    """the symbol if v is a value read from memory (at addr)"""
    s = v.sym() if isinstance(v, L) else None
    if s and s[0] == "load" and (addr is None or s[1] == addr):
        return s
    return None


def loaded_from(v):
    s = is_load(v)
    return s[1] if s else None


def is_call(v, *names):
    s = v.sym() if isinstance(v, L) else None
    if s and s[0] == "call" and s[1] in names:
        return s
    return None


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line.split("property=%s " % pid, 1)[1])
    return out


# ------------------------------------------------------------------ driver
def main(pid, fn, rule_text, assumptions):
    """run the check function fn(check) and report"""
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    c = Check(pid)
    c.tier = tier
    os.makedirs(EVID, exist_ok=True)
    try:
        fn(c)
        total = sum(o[0] for o in c.obl.values())
        if total == 0:
            raise AnalysisError("no obligation was generated")
    except Exception as e:
        if not isinstance(e, AnalysisError):
            import traceback
            traceback.print_exc()
        if not c.viol:
            print("analysis-broken: property=%s %s" % (pid, e))
            return 2
        print("analysis-incomplete: property=%s %s" % (pid, e))
    # known findings: identified by rule and function, suppress exactly that report
    kn = known_findings(pid)
    rest = []
    for v in c.viol:
        ident = "%s @ %s" % (v["rule"], v["where"].split("(")[-1].rstrip(")"))
        hit = [k for k in kn if k.startswith(ident + " ")]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
            c.known.append(ident)
        else:
            rest.append(v)
    c.viol = rest
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {
              "explanation": rule_text,
              "configurations": sorted(c.cfgs),
              "entry_functions_analysed": sorted(c.fns),
              "functions_followed_into": len(c.inlined),
              "abstract_paths": c.npaths,
              "effects_on_paths": c.nevents,
              "obligations_by_rule": {k: {"generated": v[0], "satisfied": v[1]}
                                      for k, v in sorted(c.obl.items())},
          },
          "wall_s": round(time.time() - c.t0, 3), "violations": len(c.viol),
          "assumptions": assumptions}
    if c.notes:
        ev["coverage"]["notes"] = c.notes
    if c.known:
        ev["coverage"]["known_findings_hit"] = c.known
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("property=%s functions=%d paths=%d obligations=%d satisfied=%d wall=%.1fs" % (
        pid, len(c.fns), c.npaths, sum(o[0] for o in c.obl.values()),
        sum(o[1] for o in c.obl.values()), ev["wall_s"]))
    rp = os.path.join(EVID, pid + "-violation.txt")
    if c.viol:
        with open(rp, "w") as f:
            for v in c.viol:
                f.write("rule: %s\nat: %s\nwhat: %s\n" % (v["rule"], v["where"], v["msg"]))
                for l in v["path"]:
                    f.write("    %s\n" % l)
                f.write("\n")
        for v in c.viol[:8]:
            print("  %s: %s: %s" % (v["rule"], v["where"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    return 0


def reads(p, addr=None, after=0):
    return [e for e in p.events if e.k == "read" and e.n > after and (addr is None or e.addr == addr)]


def body(p):
    """events of the loop iteration a backedge path ends"""
    ev0 = p.val[4]
    return p.events[ev0:]


def val_at(p, addr, n, since=0):
    """value stored last at addr before event n (after event since), None if not stored"""
    v = None
    for e in p.events:
        if e.n >= n:
            break
        if e.n > since and (e.k == "store" or (e.k == "atomic" and e.val is not None)) and e.addr == addr:
            v = e.val
    return v
