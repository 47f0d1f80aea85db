#!/usr/bin/env python3
"""Make and try a planted bug (development aid).

seed.py make ID PROPERTY SPEC.py     SPEC defines NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (C source)
seed.py try ID...                    apply, build, test, demonstrate, revert (in a scratch copy)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# builds the demonstration against the library as built and runs it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -O1 -w -I include -I src "$here/demo.c" _build/bin/libhev-task-system.a -pthread -ldl -o "$t/demo" || exit 3
cd "$t" && timeout 60 ./demo
"""


def make(sid, prop, spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = "%s/seeded/%s" % (V, sid)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
        for f, old, new in ns["EDITS"]:
            p = "%s/r/%s" % (t, f)
            s = open(p).read()
            assert s.count(old) >= 1, (f, old)
            open(p, "w").write(s.replace(old, new, 1))
        diff = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(t)
    open(d + "/demo.sh", "w").write(ns.get("SH", DEMO_SH))
    os.chmod(d + "/demo.sh", 0o755)
    if "DEMO" in ns:
        open(d + "/demo.c", "w").write(ns["DEMO"])
    json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
              open(d + "/meta.json", "w"), indent=1)


def attempt(sid):
    d = "%s/seeded/%s" % (V, sid)
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        r = t + "/r"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "_build"))
        subprocess.check_call("cp -r /opt/vp %s/vp && sed -i 's#/repo#%s#g;s#/opt/vp#%s/vp#g' %s/vp/build.sh %s/vp/test.sh"
                              % (t, r, t, t, t), shell=True)
        out = []
        for k in (0, 1):
            if k:
                subprocess.check_call("cd %s && git init -q . && git apply %s/patch.diff" % (r, d), shell=True)
            b = subprocess.run("bash %s/vp/build.sh > %s/b.log 2>&1" % (t, t), shell=True).returncode
            res = ""
            if k:
                subprocess.run("bash %s/vp/test.sh %s/o.json > %s/t.log 2>&1" % (t, t, t), shell=True)
                o = json.load(open(t + "/o.json"))
                res = " failed-tests=%s" % ",".join(x for x in o["failed"] if x != "task-dns")
                prop = json.load(open(d + "/meta.json"))["property"]
                e = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=t + "/ev")
                c = subprocess.run(["python3", V + "/check.py", prop], env=e, capture_output=True, text=True)
                res += " %s=%d" % (prop, c.returncode)
                rep = [l for l in c.stdout.splitlines() if l.startswith("  ")][:2]
            try:
                x = subprocess.run(["bash", d + "/demo.sh"], cwd=r, capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired:
                x = None
            out.append("build=%d demo=%s%s" % (b, x.returncode if x else "timeout", res))
            if k == 0 and (x is None or x.returncode):
                out.append("UNCHANGED FAILS: " + (x.stdout + x.stderr)[-400:] if x else "")
        print(sid, "| unchanged:", out[0], "| changed:", out[-1])
        for l in rep:
            print("     ", l.strip()[:200])
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(*sys.argv[2:5])
        attempt(sys.argv[2])
    else:
        for i in sys.argv[2:]:
            attempt(i)
