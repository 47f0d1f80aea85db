#!/usr/bin/env python3
"""Systematic small changes of source files against the checks (development aid, not part of any check).

sweep.py OUT FILE...   tries every single deletion, negation and exchange; OUT lists the ones no check reports
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    "hev-memory-allocator-api": "C25 C24 C32", "hev-memory-allocator-simple": "C25 C26 C18 C32 C24",
    "hev-memory-allocator.": "C25 C26 C32 C28", "hev-memory-allocator-slice": "C24 C18 C28 C26",
    "hev-task.c": "C01 C02 C04 C05 C30 C29 C26 C18 C15 C14", "hev-task-call": "C29 C18", "hev-task-executer": "C04 C01 C05",
    "hev-task-stack-": "C29 C18", "hev-task-aide": "C27 C28 C18 C32", "hev-task-cond": "C09 C06 C07",
    "hev-task-mutex": "C08 C06 C07", "hev-task-channel": "C10 C11 C12 C06 C18", "hev-task-timer": "C13 C14 C18 C32 C28",
    "hev-task-io-reactor": "C30 C03 C18 C32 C28 C13", "hev-task-system-schedule": "C01 C02 C03 C04 C05",
    "hev-task-system.": "C32 C01 C18 C28 C04 C03", "hev-object": "C26 C22 C28 C21", "hev-task-stack-detector": "C18 C29 C28 C32",
    "hev-task-cio-socket": "C21 C22 C15 C18", "hev-task-cio-fd": "C21 C22 C18", "hev-task-cio-buffer": "C23 C21 C22 C18",
    "hev-task-cio-null": "C21 C22 C18", "hev-task-cio.c": "C15 C16 C21 C22 C18 C19", "hev-task-cio.h": "C21 C22 C15",
    "hev-list": "C12 C24", "hev-task-dns": "C27 C18 C28", "hev-rbtree": "C31 C02 C13", "hev-task-io-poll": "C30",
    "hev-task-io-pipe": "C17", "hev-task-io-socket": "C15 C16 C17", "hev-circular-buffer": "C20 C26 C18",
    "hev-task-io.c": "C15 C17 C19 C16",
}
SWAP = [("==", "!="), ("!=", "=="), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), ("&&", "||"),
        ("||", "&&"), (" + ", " - "), (" - ", " + "), ("++", "--"), ("--", "++"), ("-1", "0"), (" 0;", " 1;"), (" 1;", " 0;"),
        (" 1)", " 0)"), (" 1)", " 2)"), ("NULL)", "NULL + 1)"), ("POLLIN", "POLLOUT"), ("POLLOUT", "POLLIN"),
        ("head", "tail"), ("tail", "head"), ("first", "last"), ("last", "first"), ("prev", "next"), ("next", "prev"),
        ("HEV_TASK_YIELD", "HEV_TASK_WAITIO"), ("HEV_TASK_WAITIO", "HEV_TASK_YIELD"), ("EAGAIN", "EINTR"),
        ("break;", "continue;"), ("continue;", "break;"), ("size", "0 * size"), ("read", "write"), ("write", "read"),
        ("fd_in", "fd_out"), ("fd_out", "fd_in"), ("_a", "_b"), ("_b", "_a"), ("[0]", "[1]"), ("[1]", "[0]"),
        ("left", "right"), ("right", "left"), ("sizeof (", "1 + sizeof ("), (" & ", " | "), (" | ", " & "), (" * ", " + ")]


def props(f):
    b = os.path.basename(f)
    for k in sorted(PROPS, key=len, reverse=True):
        if b.startswith(k):
            return PROPS[k].split()
    return []


def changes(src):
    ls = src.split("\n")
    com = False
    depth = 0
    for i, l in enumerate(ls):
        t = l.strip()
        if com or t.startswith("/*"):
            com = "*/" not in t
            continue
        if t.startswith("#"):
            continue
        d0, depth = depth, depth + l.count("{") - l.count("}")
        if d0 <= 0:
            continue
        if t.endswith(";") and not re.match(r"^(const |static |struct |union |unsigned |int |char |void |size_t |ssize_t |Hev\w+ \*?\w+(;| =|,)|"
                                            r"break|goto|\}|case|default|else|#)", t):
            j = i
            while not ls[j - 1].strip().endswith((";", "{", "}", "*/", ")", "else", ":")) and ls[j - 1].strip() and \
                    not ls[j - 1].startswith("#"):
                j -= 1
            if not t.startswith("return") or True:
                yield "del %d-%d: %s" % (j + 1, i + 1, " ".join(x.strip() for x in ls[j:i + 1])), j, i + 1, [";"]
        m = re.match(r"^(\s*(?:\} else )?(?:if|while) \()(.*)(\)( \{)?)$", l)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            yield "neg %d: %s" % (i + 1, t), i, i + 1, [m.group(1) + "!(" + m.group(2) + ")" + m.group(3)]
        m = re.match(r"^(\s*)if \((.*)\)( \{)?$", l)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            yield "never %d: %s" % (i + 1, t), i, i + 1, [m.group(1) + "if (0 && (" + m.group(2) + "))" + (m.group(3) or "")]
        for a, b in SWAP:
            for m in re.finditer(re.escape(a), l):
                if "/*" in l[:m.start()]:
                    continue
                yield "%s>%s %d: %s" % (a.strip(), b.strip(), i + 1, t), i, i + 1, [l[:m.start()] + b + l[m.end():]]


DRIVER = """
import sys, os, io, contextlib, importlib
sys.path.insert(0, %r)
from sa import core, registry
out = []
for p in sys.argv[1:]:
    mod, text, ass = registry.CHECKS[p]
    b = io.StringIO()
    try:
        with contextlib.redirect_stdout(b), contextlib.redirect_stderr(b):
            rc = core.main(p, getattr(importlib.import_module("sa." + mod), p), text, ass)
    except Exception as e:
        rc = 2
    if "cannot compile" in b.getvalue():
        print("nocomp"); break
    if rc == 1:
        print("caught " + p); break
    if rc:
        out.append("ERR " + p + " " + b.getvalue().strip().split("\\n")[-1][:160])
else:
    print("QUIET " + "; ".join(out))
sys.stdout.flush(); os._exit(0)
"""


def run(a):
    f, name, i, j, new = a
    d = tempfile.mkdtemp(prefix="sweep-")
    try:
        r = d + "/r"
        shutil.copytree("/repo/src", r + "/src")
        shutil.copytree("/repo/include", r + "/include")
        p = "%s/%s" % (r, f)
        ls = open(p).read().split("\n")
        ls[i:j] = new
        open(p, "w").write("\n".join(ls))
        env = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=d + "/ev")
        try:
            x = subprocess.run([sys.executable, "-c", DRIVER % V] + props(f), env=env, capture_output=True, text=True, timeout=900)
            o = x.stdout.strip() or "DIED " + x.stderr[-200:]
        except subprocess.TimeoutExpired:
            o = "TIMEOUT"
        return "%s | %s | %s" % (o, f, name)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    todo, seen = [], set()
    for f in sys.argv[2:]:
        src = open("/repo/" + f).read()
        for name, i, j, new in changes(src):
            k = (f, i, j, tuple(new))
            if k not in seen:
                seen.add(k)
                todo.append((f, name, i, j, new))
    print(len(todo), "changes")
    sys.stdout.flush()
    n = {}
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex, open(sys.argv[1], "w") as out:
        for o in ex.map(run, todo):
            n[o.split()[0]] = n.get(o.split()[0], 0) + 1
            out.write(o + "\n")
            out.flush()
    print(n)
