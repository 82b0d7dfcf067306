#!/usr/bin/env python3
"""Perform a recorded violation again on /repo's working tree and have the specification judge it.
replay.py FILE...   exit 1 if any is still a violation."""
import json, os, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import run
b = run.build()
work = os.path.join(run.BUILD, "work", "replay-%d" % os.getpid())
code = 0
try:
    for path in sys.argv[1:]:
        j = json.load(open(path))
        c = dict(j["command"], i=0)
        res = run.perform(b, [c], jobs=1)
        v = run.judge([c], res, j["clauses"], work)
        print(path, "clauses", j["clauses"])
        print("  command:", json.dumps(c)[:2000])
        for k, r in enumerate(res[0]):
            print("  step %d: %s" % (k, json.dumps(r)[:2000]))
        print("  verdict:", v.bad or "allowed by the specification", v.problems or "")
        code |= bool(v.bad)
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(code)
