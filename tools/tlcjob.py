#!/usr/bin/env python3
"""Run one check's TLC jobs only, one after another, showing the outcome: tools/tlcjob.py C14 [substring]"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks"), os.path.join(HERE, "tools")]
import importlib, vlib
from registry import CHECKS
prop, sub = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else ""
chk = vlib.Check(prop)
class Stop(Exception): pass
def models(jobs, par=4):
    for m, what, kw in jobs:
        if sub in what:
            kw = dict(kw, expect_ok=False)
            r = vlib.tlc(chk.work, m, **kw)
            print("%s / %s: ok=%s states=%d gen=%d emitted=%d %.1fs" % (m, what, r.ok, r.states, r.generated, len(r.emitted), r.wall))
            if not r.ok: print(r.out[-6000:])
    raise Stop
chk.models = models
try: importlib.import_module(CHECKS[prop][0]).run(chk)
except Stop: pass
finally: chk.work.close()
