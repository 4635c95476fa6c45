"""Seeded search over simulated runs: plan generation, execution, minimisation, evidence."""
import os
import re
import sys
import json
import time
import random
import struct
import pickle
import hashlib
import threading
import subprocess
import importlib
import copy
import shutil
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
HASH_SEEDS = ("0", "1", "77", "4242", "31337", "99", "123456", "5")


class Zygote:
    def __init__(self, check, opts, hashseed):
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1", NUMBA_DISABLE_JIT="1",
                   NUMBA_CACHE_DIR=os.environ.get("VERIF_NUMBA_CACHE", "/nonexistent-numba-cache"))
        env.pop("PYTHONPATH", None)
        env.pop("NUMBA_CACHE_DIR", None)
        self.hashseed = hashseed
        self.p = subprocess.Popen([PY, os.path.join(HERE, "sim", "zygote.py"), check, *opts],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=HERE,
                                  stderr=subprocess.DEVNULL if not os.environ.get("VERIF_DEBUG") else None)
        self.ready = False

    def wait_ready(self):
        if not self.ready:
            st, info = self._recv()
            if st != "ready":
                raise HarnessError("zygote failed to start:\n" + str(info))
            self.ready = True

    def _recv(self):
        head = self.p.stdout.read(8)
        if len(head) < 8:
            raise HarnessError("zygote died")
        return pickle.loads(self.p.stdout.read(struct.unpack("<Q", head)[0]))

    def send(self, plan, timeout):
        self.wait_ready()
        data = pickle.dumps((plan, timeout))
        self.p.stdin.write(struct.pack("<Q", len(data)) + data)
        self.p.stdin.flush()

    def run(self, plan, timeout):
        self.send(plan, timeout)
        return self._recv()

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


class Twin:
    """Two interpreters with different hash seeds that must log the same run.

    The plan's "role" tells a side which ambient conditions to simulate; whatever a check
    logs has to come out the same on both sides, bit for bit.
    """

    def __init__(self, check, opts, seed_a, seed_b):
        self.a, self.b = Zygote(check, opts, seed_a), Zygote(check, opts, seed_b)
        self.hashseed = f"{seed_a}/{seed_b}"

    def run(self, plan, timeout):
        self.a.send(dict(plan, role="A"), timeout)
        self.b.send(dict(plan, role="B"), timeout)
        ra, rb = self.a._recv(), self.b._recv()
        if ra[0] != "ok":
            return ra
        if rb[0] != "ok":
            return rb
        r = ra[1]
        have = {v["cls"] for v in r["violations"]}
        r["violations"] += [v for v in rb[1]["violations"] if v["cls"] not in have]
        if digest(r["log"]) != digest(rb[1]["log"]) and not r["violations"]:
            la, lb = r["log"], rb[1]["log"]
            k = next((i for i, (x, y) in enumerate(zip(la, lb)) if repr(x) != repr(y)), min(len(la), len(lb)))
            x, y = (repr(l[k])[:300] if k < len(l) else "nothing" for l in (la, lb))
            what = la[k][0] if k < len(la) else "length"
            r["violations"].append({"cls": f"twin/{what}",
                                    "msg": f"the same seeded call in two processes (hash seeds {self.hashseed}, other ambient state): {x} and {y}"})
        return ra

    def close(self):
        self.a.close()
        self.b.close()


class Relay(Twin):
    """Two interpreters: what the first leaves in "relay" is handed to the second.

    The first one is gone by then (its process has ended), as after a crash: only what it
    had written down survives.
    """

    def run(self, plan, timeout):
        ra = self.a.run(dict(plan, role="A"), timeout)
        if ra[0] != "ok":
            return ra
        r = ra[1]
        relay = r.pop("relay", None)
        if relay and not r["violations"]:
            rb = self.b.run(dict(plan, role="B", relay=relay), timeout)
            if rb[0] != "ok":
                return rb
            r["violations"] += rb[1]["violations"]
            r["log"] = [r["log"], rb[1]["log"]]
            merge(r["stats"], rb[1]["stats"])
        return ra


class HarnessError(Exception):
    pass


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return {}
    return {f["key"]: f for f in json.load(open(path))["findings"]
            if f["property"] == prop and f["status"] == "open"}


class Batch:
    """Runs plans on a set of zygotes."""

    def __init__(self, mod, jobs, hashseeds=None):
        self.mod = mod
        self.jobs = jobs
        opts = list(getattr(mod, "ZYGOTE", ()))
        hs = hashseeds or HASH_SEEDS
        name = mod.__name__.split(".")[-1]
        self.pyc = None
        if "no_preload" in opts or "no_import" in opts:
            # runs that import the library themselves read it compiled from the current tree
            self.pyc = tempfile.mkdtemp(prefix="verif-pyc-")
            env = dict(os.environ, PYTHONPYCACHEPREFIX=self.pyc)
            env.pop("PYTHONDONTWRITEBYTECODE", None)
            subprocess.run([PY, "-m", "compileall", "-q", "-j", "8",
                            os.path.join(os.environ.get("VERIF_REPO", "/repo"), "infomeasure")],
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            opts = opts + ["pyc=" + self.pyc]
        if getattr(mod, "TWIN", False) or getattr(mod, "RELAY", False):
            pair = Relay if getattr(mod, "RELAY", False) else Twin
            self.z = [pair(name, opts, hs[i % len(hs)], hs[(i + 3) % len(hs)]) for i in range(jobs if pair is Relay else max(1, (jobs + 1) // 2 + 1))]
        else:
            self.z = [Zygote(name, opts, hs[i % len(hs)]) for i in range(jobs)]

    def map(self, plans, timeout, deadline=None, on_result=None, stop=None):
        """plans: iterator of (index, plan).  Calls on_result(index, plan, result)."""
        lock = threading.Lock()
        it = iter(plans)
        errors = []

        def work(z):
            try:
                while True:
                    with lock:
                        if errors or (stop and stop()) or (deadline and time.monotonic() > deadline):
                            return
                        try:
                            i, plan = next(it)
                        except StopIteration:
                            return
                    res = z.run(plan, timeout)
                    with lock:
                        on_result(i, plan, res, z.hashseed)
            except BaseException as e:
                with lock:
                    errors.append(e)

        ts = [threading.Thread(target=work, args=(z,)) for z in self.z]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise errors[0]

    def close(self):
        for z in self.z:
            z.close()
        if self.pyc:
            shutil.rmtree(self.pyc, ignore_errors=True)


# ------------------------------------------------------------------ minimisation
def _drop_candidates(lst):
    n = len(lst)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield lst[:i] + lst[i + size:]
        size //= 2


def generic_shrink(plan):
    """Smaller plans: fewer ops, fewer faults, fewer tests."""
    for field in ("ops", "threads", "faults", "switches"):
        if isinstance(plan.get(field), list) and plan[field]:
            for cand in _drop_candidates(plan[field]):
                p = copy.deepcopy(plan)
                p[field] = copy.deepcopy(cand)
                yield p
    if isinstance(plan.get("threads"), list):
        for ti, th in enumerate(plan["threads"]):
            if isinstance(th, dict) and isinstance(th.get("ops"), list):
                for cand in _drop_candidates(th["ops"]):
                    p = copy.deepcopy(plan)
                    p["threads"][ti]["ops"] = copy.deepcopy(cand)
                    yield p
    for oi, op in enumerate(plan.get("ops") or []):
        if isinstance(op, list) and len(op) > 2 and op[0] == "test" and isinstance(op[2], int) and op[2] > 2:
            p = copy.deepcopy(plan)
            p["ops"][oi][2] = 2
            yield p


def minimise(mod, plan, cls, zygote, timeout, budget_s=60, hint=None):
    t0 = time.monotonic()
    tried = 0

    def fails(p):
        nonlocal tried
        tried += 1
        st, res = zygote.run(p, timeout)
        return st == "ok" and any(v["cls"] == cls for v in res["violations"])

    if hint:
        cand = dict(copy.deepcopy(plan), **hint)
        if fails(cand):
            plan = cand
    shrinkers = [getattr(mod, "shrink", None), generic_shrink]
    progress = True
    while progress and time.monotonic() - t0 < budget_s:
        progress = False
        for sh in shrinkers:
            if sh is None:
                continue
            for cand in sh(plan):
                if time.monotonic() - t0 > budget_s:
                    break
                try:
                    if cand != plan and fails(cand):
                        plan = cand
                        progress = True
                        break
                except HarnessError:
                    raise
            if progress:
                break
    return plan, tried


# ------------------------------------------------------------------ main entry
def merge(into, add):
    for k, v in add.items():
        if isinstance(v, dict):
            merge(into.setdefault(k, {}), v)
        elif isinstance(v, (list, set, tuple)):
            into.setdefault(k, set()).update(v)
        else:
            into[k] = into.get(k, 0) + v


def digest(log):
    return hashlib.sha256(repr(log).encode()).hexdigest()


def plan_seed(seed, prop, i):
    return int.from_bytes(hashlib.sha256(f"{seed}/{prop}/{i}".encode()).digest()[:8], "big")


def make_plan(mod, seed, tier, i):
    s = plan_seed(seed, mod.PROP, i)
    rng = random.Random(s)
    plan = mod.gen(rng, tier, i)
    plan.setdefault("seed", s)
    plan.setdefault("cpu", rng.choice((1, 2, 3, 4, 8, 64)))
    plan["prop"] = mod.PROP
    plan["run"] = i
    return plan


def run_check(mod, tier, seed, runs=None, time_cap=None, jobs=None, verbose=True):
    prop = mod.PROP
    t0 = time.monotonic()
    jobs = jobs or min(8, os.cpu_count() or 1)
    cfg = mod.TIERS[tier]
    runs = runs or cfg["runs"]
    cap = time_cap or cfg["cap_s"]
    timeout = cfg.get("timeout_s", 60)
    known = known_findings(prop)
    print(f"[{prop}] seed={seed} tier={tier} runs<={runs} cap={cap}s jobs={jobs}", flush=True)

    stats, sigs, samples = {}, set(), []
    n_done = 0
    bad, known_hit, anomalies, replays = {}, {}, [], []
    nontrivial = 0
    logs = {}

    b = Batch(mod, jobs)
    try:
        def on_result(i, plan, res, hashseed):
            nonlocal n_done, nontrivial
            st, r = res
            n_done += 1
            if st != "ok":
                anomalies.append((i, st, r))
                return
            merge(stats, r.get("stats", {}))
            if r.get("sig") is not None and r["sig"] not in sigs:
                sigs.add(r["sig"])
            if r.get("nontrivial"):
                nontrivial += 1
            if len(samples) < 3 and r.get("sample") is not None:
                samples.append({"run": i, "seed": plan["seed"], "case": r["sample"]})
            logs[i] = digest(r.get("log"))
            for v in r["violations"]:
                if v.get("key") in known:
                    known_hit.setdefault(v["key"], (i, v))
                else:
                    bad.setdefault(v["cls"], (i, plan, v))

        first_bad = []

        def stop():
            if len(anomalies) > 20:
                return True
            if bad and not first_bad:
                first_bad.append(time.monotonic())
            return bool(bad) and time.monotonic() - first_bad[0] > 3

        def plans():
            order = range(runs)
            for i in order:
                yield i, make_plan(mod, seed, tier, i)

        b.map(plans(), timeout, deadline=t0 + cap, on_result=on_result, stop=stop)

        # determinism: repeat a sample of the runs on zygotes with other hash seeds
        div = []
        if not bad and logs:
            want = sorted(logs)[:: max(1, len(logs) // cfg.get("recheck", 16))][:cfg.get("recheck", 16)]

            def on2(i, plan, res, hs):
                st, r = res
                if st != "ok" or digest(r.get("log")) != logs[i]:
                    div.append(i)

            b.z.reverse()
            b.map(((i, make_plan(mod, seed, tier, i)) for i in reversed(want)), timeout, on_result=on2)
            rechecked = len(want)
        else:
            rechecked = 0

        viol_lines = []
        if bad:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            for cls in sorted(bad)[:3]:
                i, plan, v = bad[cls]
                small, tried = minimise(mod, plan, cls, b.z[0], timeout,
                                        budget_s=cfg.get("min_s", 40), hint=v.get("hint"))
                st, r = b.z[-1].run(small, timeout)
                vs = [x for x in r["violations"] if x["cls"] == cls] if st == "ok" else []
                if not vs:
                    small, vs = plan, [v]
                name = f"{prop}-{seed}-{i}-{re.sub(r'[^A-Za-z0-9]+', '_', cls)[:60]}.json"
                path = os.path.join(HERE, "replays", name)
                with open(path, "w") as f:
                    json.dump({"property": prop, "class": cls, "verif_seed": seed, "run": i,
                               "message": vs[0]["msg"], "minimised_in": tried, "plan": small}, f, indent=1)
                viol_lines.append((cls, vs[0]["msg"], path))
    finally:
        b.close()

    wall = time.monotonic() - t0
    # A run the harness could not finish decides nothing.  A stray one is noted and counted in the
    # evidence; more than that and the check gives no answer.
    if not bad and (n_done == 0 or len(anomalies) > max(3, n_done // 50)):
        status = 2
    else:
        status = 1 if bad else 0

    cov = {
        "evaluations": n_done,
        "distinct_nontrivial": len(sigs),
        "nontrivial_runs": nontrivial,
        "rule": mod.RULE,
        "samples": samples or [{"note": "no sample"}],
        "simulated_runs_per_hour": round(n_done / max(wall, 1e-9) * 3600),
        "seeds_per_hour": round(n_done / max(wall, 1e-9) * 3600),
        "simulated_time": "none: the library reads no clock and sets no timer; clock reads and sleeps would be simulated",
        "planned_runs": runs,
        "stopped_by_time_cap": n_done < runs and not bad,
        "components_real": getattr(mod, "REAL", []),
        "components_stubbed": getattr(mod, "STUB", []),
        "runs_without_an_answer": len(anomalies),
        "determinism": {"rechecked_runs_on_other_hash_seed": rechecked, "diverged": len(div)},
        "known_findings_seen": sorted(known_hit),
        **jsonable(stats),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
          "violations": len(bad)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for key in sorted(known):
        if known[key].get("status") == "open":
            if key in known_hit:
                print(f"KNOWN-FINDING: property={prop} {known[key]['what']}")
            else:
                print(f"note: listed finding {key} was not seen in this run")
    print(f"[{prop}] {n_done} runs, {len(sigs)} distinct, {wall:.1f}s, "
          f"{cov['simulated_runs_per_hour']} runs/h, faults={jsonable(stats).get('faults', {})}")
    if div:
        print(f"note: {len(div)} of {rechecked} repeated runs differed (runs {div[:5]})")
    for a in anomalies[:3]:
        print(f"harness: run {a[0]} {a[1]}: {str(a[2])[-1500:]}")
    for cls, msg, path in viol_lines:
        print(f"violation class {cls}: {msg}")
        print(f"VIOLATION property={prop} replay={path}")
    sys.stdout.flush()
    return status


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in sorted(x.items(), key=lambda t: str(t[0]))}
    if isinstance(x, (set, frozenset)):
        return len(x)
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    return x


def replay(path):
    rec = json.load(open(path))
    mod = load(rec["property"])
    b = Batch(mod, 1)
    try:
        st, r = b.z[0].run(rec["plan"], 300)
    finally:
        b.close()
    if st != "ok":
        print(f"harness: {st}: {r}")
        return 2
    hits = [v for v in r["violations"] if v["cls"] == rec["class"]]
    other = [v for v in r["violations"] if v["cls"] != rec["class"]]
    for v in hits + other:
        print(f"violation class {v['cls']}: {v['msg']}")
    if hits or other:
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    print("replay: no violation")
    return 0


def load(prop):
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    return importlib.import_module(f"checks.{prop.lower()}")


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("what", help="property id, or 'replay'")
    ap.add_argument("path", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args(argv)
    try:
        if a.what == "replay":
            return replay(a.path)
        return run_check(load(a.what), a.tier, a.seed, a.runs, a.cap, a.jobs)
    except HarnessError as e:
        print(f"harness error: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
