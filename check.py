#!/usr/bin/env python3
"""check.py ID : decide one property from the current source of the repository."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import core, registry  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    mod, text, assume = registry.CHECKS[pid]
    fn = getattr(importlib.import_module("sa." + mod), pid)
    try:
        rc = core.main(pid, fn, text, assume)
    except Exception as e:      # an error of the check is neither 0 nor 1
        import traceback
        traceback.print_exc()
        print("analysis-broken: property=%s internal error %s" % (pid, e))
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
