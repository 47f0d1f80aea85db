#!/usr/bin/env python3
"""Try source changes against the checks (development aid, not part of any check).

mut.py [-b] [-a] [NAME...]   -b: also build and run the test suite of the changed tree
                             -a: run all checks for bugs too (default: the expected ones)
Changes are in tools/mutants.py: M = [(name, kind, [properties], [(file, old, new[, function]), ...])].
ONLY="C01 ...": run just these checks.
kind 'bug': one of the properties must be reported; kind 'same': every check must stay quiet.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, V + "/tools")
from sa.registry import CHECKS  # noqa: E402
from mutants import M           # noqa: E402


def one(m):
    name, kind, props, edits = m
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        r = d + "/r"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "_build"))
        for f, old, new, *at in edits:
            p = "%s/%s" % (r, f)
            s = open(p).read()
            i = s.find("\n" + at[0] + " (") if at else 0       # only within this function
            if s[i:].count(old) < 1 or i < 0:
                return name, "STALE", "%s: text not found" % f
            open(p, "w").write(s[:i] + s[i:].replace(old, new, 1))
        notes = ""
        if build:
            x = subprocess.run("make -s -j4 static tests 2>&1 | tail -5" if False else
                               "cp -r /opt/vp %s/vp && sed -i 's#/repo#%s#g;s#/opt/vp#%s/vp#g' %s/vp/build.sh %s/vp/test.sh && "
                               "bash %s/vp/build.sh >%s/b.log 2>&1 && bash %s/vp/test.sh %s/o.json >%s/t.log 2>&1"
                               % (d, r, d, d, d, d, d, d, d, d), shell=True, capture_output=True, text=True)
            try:
                o = json.load(open(d + "/o.json"))
                base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", []) or [])
                miss = [t for t in base if t not in o["passed"]] if base else []
                notes = " tests:%d%s" % (len(o["passed"]), " FAILED " + ",".join(miss) if miss else "")
            except Exception as e:
                notes = " BUILD/TEST FAILED"
        env = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=d + "/ev")
        want = sorted(CHECKS) if kind == "same" or allc else [p for p in props if p in CHECKS]
        if os.environ.get("ONLY"):
            want = [p for p in want if p in os.environ["ONLY"].split()]
        hit, err = [], []
        det = ""
        for p in want:
            x = subprocess.run([sys.executable, V + "/check.py", p], capture_output=True, text=True, env=env)
            if x.returncode == 1:
                hit.append(p)
                det += "\n      " + "\n      ".join(l for l in x.stdout.splitlines()[1:4] if l.startswith("  "))
            elif x.returncode:
                err.append(p)
                det += "\n      %s: %s" % (p, (x.stdout + x.stderr).strip().splitlines()[-1][:200])
        if kind == "same":
            st = "ok" if not hit and not err else "ALARM"
        else:
            st = "caught" if set(hit) & set(props) else "MISSED"
        return name, st, "%s%s%s%s" % (",".join(hit), " ERR " + ",".join(err) if err else "", notes,
                                       det if st in ("ALARM", "MISSED") or verb else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    build, allc, verb = "-b" in a, "-a" in a, "-v" in a
    names = [x for x in a if not x.startswith("-")]
    todo = [m for m in M if not names or any(m[0].startswith(n) for n in names)]
    bad = 0
    with ThreadPoolExecutor(3 if build else 6) as ex:
        for n, st, t in ex.map(one, todo):
            print("%-7s %-28s %s" % (st, n, t), flush=True)
            bad += st not in ("ok", "caught")
    print("%d changes, %d to look at" % (len(todo), bad))
