#!/usr/bin/env python3
"""Is one seed one exactly repeatable execution?

  PYTHONPATH=/verif /opt/venv/bin/python tools/determinism.py [--runs 60] [--seeds 1,2,3] [C01 C02 ...]

Every plan is executed three times - in batches of 1, 3 and 8 interpreters with different hash
seeds, the second batch in reverse order - and the digests of everything the run logged must
agree.  A run that reports a violation in one batch must report the same class in all.
"""
import argparse
import importlib
import os
import sys
import time

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import runner as R

ap = argparse.ArgumentParser()
ap.add_argument("props", nargs="*")
ap.add_argument("--runs", type=int, default=60)
ap.add_argument("--seeds", default="1,2,3")
a = ap.parse_args()
props = a.props or [f"C{n:02d}" for n in range(1, 40) if os.path.exists(f"{R.HERE if hasattr(R, 'HERE') else '.'}/checks/c{n:02d}.py")]
bad = 0
for p in props:
    mod = R.load(p)
    timeout = mod.TIERS["quick"].get("timeout_s", 120)
    t0 = time.monotonic()
    n = div = 0
    for seed in map(int, a.seeds.split(",")):
        got = {}
        for batch, (jobs, hashes) in enumerate(((8, "01234567"), (3, ("101", "7", "55")), (1, ("429496",)))):
            b = R.Batch(mod, jobs, hashes)

            def on(i, plan, res, hs):
                st, r = res
                got.setdefault(i, []).append((R.digest(r.get("log")), sorted(v["cls"] for v in r["violations"])) if st == "ok" else (st, str(r)[:200]))

            idx = list(range(a.runs))
            if batch == 1:
                idx.reverse()
            if batch == 2:
                idx = idx[::5]
            try:
                b.map(((i, R.make_plan(mod, seed, "quick", i)) for i in idx), timeout, on_result=on)
            finally:
                b.close()
        for i, outs in sorted(got.items()):
            n += len(outs)
            if any(o != outs[0] for o in outs):
                div += 1
                print(f"  {p} seed {seed} run {i} differs: {[str(o)[:60] for o in outs]}")
    bad += div
    print(f"{p}: {n} executions, {div} plans diverged, {time.monotonic() - t0:.0f}s", flush=True)
sys.exit(1 if bad else 0)
