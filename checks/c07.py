"""C07: estimators used from different threads do not disturb each other."""
import copy
import hashlib
from sim import specs as S, engine as E, zygote, seams, sched
from sim.seams import W

PROP = "C07"
LEVEL = "exploration"
RULE = ("one evaluation = one simulated process in which 2-4 threads run histories of public calls under the simulated "
        "scheduler, which may switch at every line (or bytecode instruction) of library code, at library locks and in "
        "the import system; every outcome is compared with that of the same thread alone.  Two evaluations are "
        "distinct when their sequence of (switch step, thread) or their histories differ")
TIERS = {"quick": {"runs": 2500, "cap_s": 110, "timeout_s": 120, "recheck": 24, "min_s": 60},
         "thorough": {"runs": 120000, "cap_s": 3400, "timeout_s": 200, "recheck": 300, "min_s": 150}}
ZYGOTE = ("no_import",)
REAL = ["all of infomeasure", "real threads (one runs at a time)", "the import system's module locks (waiting simulated)",
        "numpy", "scipy", "sparse"]
STUB = ["thread scheduling", "locks created by library code", "OS entropy", "clock", "cpu_count", "multiprocessing.Pool",
        "numba JIT disabled"]
ASSUMPTIONS = ["switches happen inside library code only; numpy, scipy and sparse calls are atomic",
               "jittered approaches are compared within 2e-4 where no seed fixes the jitter"]


def gen(rng, tier, i):
    start = rng.choices(("warm", "package", "import"), (5, 4, 1))[0]
    nt = rng.choices((2, 3, 4), (6, 3, 1))[0]
    focus_a = rng.choice(S.APPROACHES) if rng.random() < 0.75 else None
    focus_m = rng.choice(S.MEASURES) if rng.random() < 0.5 else None
    n = rng.randrange(8, 14) if rng.random() < 0.8 else None
    long = 0.0
    if rng.random() < 0.06:
        n, long = None, 1.0
        focus_m = focus_m or rng.choice(S.MEASURES)
        focus_a = focus_a if focus_a not in (None, "nsb", "kernel", "zhang") else rng.choice(("discrete", "metric", "renyi", "ordinal", "shrink"))
    specs = [S.gen_spec(rng, measure=focus_m, approach=focus_a, n=n, long=long)]
    share = rng.random() < 0.4
    for _ in range(nt - 1):
        r = rng.random()
        if r < 0.25:
            specs.append(copy.deepcopy(specs[0]))
        elif r < 0.7:
            specs.append(S.sibling(rng, specs[0]))
        else:
            specs.append(S.gen_spec(rng, measure=focus_m, approach=focus_a, n=n, long=long))
    if share:
        # one set of arrays for all threads, where the shapes allow
        for s in specs[1:]:
            if len(s["data"]) == len(specs[0]["data"]) and ("cond" in s) == ("cond" in specs[0]) \
                    and S.canon(s["a"]) == S.canon(specs[0]["a"]) and s.get("joint") == specs[0].get("joint"):
                s["data"] = copy.deepcopy(specs[0]["data"])
                if "cond" in s:
                    s["cond"] = copy.deepcopy(specs[0]["cond"])
                if specs[0].get("multi"):
                    s["multi"] = True
                else:
                    s.pop("multi", None)
    threads = []
    for t in range(nt):
        own = [t] if rng.random() < 0.6 else [t, rng.randrange(len(specs))]
        ln = rng.choice((1, 2, 3, 5, 8))
        ops = [["new", 0, own[0]]] if rng.random() < 0.85 else []
        w = {"res": 5, "loc": 3, "calc": 1, "test": 6, "eff": 3, "new": 1, "func": 3, "div": 2, "attr": 1}
        body = E.gen_ops(rng, specs, len(own) + ln, slots=2, weights=w, big_tests=False)
        # the generator opens with one construction per slot; keep those this thread owns
        ops = []
        for o in body:
            o = list(o)
            if o[0] == "new":
                o[2] = own[o[1] % len(own)]
            elif o[0] in ("func",):
                o[1] = rng.choice(own)
            elif o[0] in ("jsd", "kld"):
                pass
            ops.append(o)
        ops = _legal(ops, specs)
        if not ops or rng.random() < 0.15:
            ops.append(["func", own[0]])
        threads.append({"ops": ops})
    mode = rng.choices(("prng", "few"), (6, 5))[0]
    plan = {"specs": specs, "threads": threads, "start": start, "share": share, "mode": mode,
            "p": rng.choice((0.5, 0.2, 0.05, 0.01)), "few": rng.choice((1, 1, 2, 3, 5)),
            "grain": "instr" if rng.random() < 0.3 else "line"}
    return plan


def _legal(ops, specs):
    """Drop questions the estimator in that slot has no answer to (wrong measure)."""
    out, slot = [], {}
    for o in ops:
        if o[0] == "new":
            slot[o[1]] = o[2]
        elif o[0] in ("test", "eff", "attr"):
            s = specs[slot[o[1]]] if o[1] in slot else None
            if s is None or (o[0] == "test" and s["m"] == "h") or (o[0] == "eff" and s["m"] not in ("te", "cte")) \
                    or (o[0] == "attr" and not (s["m"] == "h" and o[2] in E.ATTRS.get(S.canon(s["a"]), ()))):
                continue
        out.append(o)
    return out


LONG = 600000          # steps one thread may take alone; longer histories are left out


def shrink(plan):
    if len(plan["threads"]) > 2:
        for i in range(len(plan["threads"])):
            p = copy.deepcopy(plan)
            p["threads"][i]["ops"] = []
            yield p
    if plan["start"] == "import":
        yield dict(copy.deepcopy(plan), start="package")
    if plan["start"] == "package":
        yield dict(copy.deepcopy(plan), start="warm")
    yield from E.drop_specs(plan)


def _thread_fn(plan, t, inputs, results):
    def go():
        h = E.History(plan)
        h.inputs = inputs
        for op in plan["threads"][t]["ops"]:
            if not h.possible(op):
                results[t].append(None)
                continue
            results[t].append(h.do(op))
    return go


def _inputs(plan):
    from sim.specs import Inputs
    return {i: Inputs(s) for i, s in enumerate(plan["specs"])}


def _per_thread_inputs(plan):
    """Containers handed to the threads; equal data is one shared array when asked for."""
    if not plan["share"]:
        return [_inputs(plan) for _ in plan["threads"]]
    pool = {}
    import json
    base = _inputs(plan)
    for i, s in enumerate(plan["specs"]):
        for j, d in enumerate(s["data"]):
            base[i].data[j] = pool.setdefault(json.dumps(d), base[i].data[j])
        if "cond" in s:
            base[i].cond = pool.setdefault(json.dumps(s["cond"]), base[i].cond)
    return [base for _ in plan["threads"]]


def _start(plan):
    if plan["start"] != "import":
        seams.import_library(preload=plan["start"] == "warm")


def _run(plan, only=None):
    """Run under the scheduler: all threads, or one alone."""
    _start(plan)
    results = [[] for _ in plan["threads"]]
    inputs = _per_thread_inputs(plan)
    which = [only] if only is not None else list(range(len(plan["threads"])))
    fns = [_thread_fn(plan, t, inputs[t], results) for t in which]
    sched.patch_imports()
    s = sched.Scheduler(plan["mode"], plan["seed"], plan["p"], points=plan.get("points"),
                        switches=plan.get("switches") if only is None else [], grain=plan["grain"])
    s.limit = plan.get("limit", LONG)
    outs = s.run(fns)
    return {"results": results, "outs": outs, "record": s.record, "steps": s.step, "deadlocks": s.deadlocks,
            "pairs": s.pairs, "waits": W.fired.get("import_lock_wait", 0)}


def seed_fixes(spec):
    """Are all outcomes a function of the seed?"""
    return "seed" in spec and spec["m"] != "h"


def execute(plan):
    out, log = [], []
    solo = []
    for t in range(len(plan["threads"])):
        st, r = zygote.fork_call(_run, 60, plan, t)
        if st != "ok":
            raise RuntimeError(f"thread alone {st}: {r}")
        if r["outs"][0][0] != "ok" and r["outs"][0][1] == "Livelock":     # just very long at this grain
            return {"violations": [], "stats": {"too_long": 1}, "sig": "too-long", "nontrivial": False, "log": [], "sample": {}}
        if r["outs"][0][0] != "ok":
            raise RuntimeError(f"thread alone raised {r['outs'][0]}")
        solo.append(r)
    total = sum(r["steps"] for r in solo)
    run_plan = dict(plan, limit=4 * total + 100000)
    if plan.get("switches") is None and plan["mode"] == "few":
        import random
        rr = random.Random(f"points-{plan['seed']}")
        run_plan["points"] = sorted(rr.randrange(1, total + 1) for _ in range(plan["few"]))
    st, r = zygote.fork_call(_run, 100, run_plan)
    if st != "ok":
        raise RuntimeError(f"threads {st}: {r}")
    stats = {"switches": len(r["record"]), "steps": r["steps"], "import_lock_waits": r["waits"],
             "switch_location_pairs": r["pairs"], "start": {plan["start"]: 1}, "grain": {plan["grain"]: 1},
             "threads": {str(len(plan["threads"])): 1}, "shared_arrays": int(plan["share"]),
             "approach": [f"{s['m']}/{S.canon(s['a'])}" for s in plan["specs"]]}
    hint = {"switches": r["record"]}
    W_spec = plan["specs"]

    def bad(cls, msg):
        out.append({"cls": cls, "msg": msg, "hint": hint})

    for o in r["outs"]:
        if o[0] != "ok" and o[1] in ("Deadlock", "Livelock", "_DeadlockError"):
            bad(f"{o[1].strip('_').lower()}", f"threads stuck: {r['deadlocks'][:2]} {o[2][-200:]}")
    if not out:
        for t, o in enumerate(r["outs"]):
            if o[0] != "ok":
                bad(f"raised/{o[1]}", f"thread {t}: {o[2][-400:]}")
    for t in range(len(plan["threads"])):
        if out:
            break
        h = {}
        for k, op in enumerate(plan["threads"][t]["ops"]):
            exp = solo[t]["results"][t][k]
            got = r["results"][t][k]
            if op[0] == "new":
                h[op[1]] = op[2]
            if exp is None and got is None:
                continue
            si = op[1] if op[0] in ("func", "jsd", "kld") else h.get(op[1])
            spec = plan["specs"][si]
            cls = f"{op[0]}/{spec['m']}/{S.canon(spec['a'])}"
            where = f"thread {t} {op}: {short(got)}, alone {short(exp)}"
            if (got is None) != (exp is None) or got[0] != exp[0] or (got[0] == "exc" and got != exp):
                bad(cls, where)
                break
            log.append((t, op[0], got if seed_fixes(spec) else got[0]))
            if seed_fixes(spec):
                if not S.close(got, exp, 0):
                    bad(cls, where + " (seeded, must be identical)")
                    break
                continue
            tol = S.tol_for(spec)
            if S.canon(spec["a"]) in ("metric", "renyi", "tsallis") and spec["kw"].get("noise_level", 1) != 0:
                tol = 2e-4
            if got[0] == "test":
                a, b = ("val", got[1]["obs"]), ("val", exp[1]["obs"])
                if len(got[1]["tv"]) != len(exp[1]["tv"]):
                    bad(cls, where)
                    break
            elif got[0] == "eff":
                continue
            else:
                a, b = got, exp
            if not S.close(a, b, tol):
                if (tol > 1e-6) and E.jitter_explains(spec, ("res",) if op[0] == "test" else (op[0],) if op[0] in ("func", "jsd", "kld") else E.question(op), a, tol):
                    continue
                bad(cls, where)
                break
    log.append(("record", r["record"]))
    sg = hashlib.sha256(repr((r["record"], [[o[0] for o in th["ops"]] for th in plan["threads"]],
                              [(s["m"], s["a"]) for s in plan["specs"]])).encode()).hexdigest()[:16]
    return {"violations": out, "stats": stats, "sig": sg, "nontrivial": len(r["record"]) > len(plan["threads"]), "log": log,
            "sample": {"threads": [[o[0] for o in th["ops"]] for th in plan["threads"]],
                       "specs": [f"{s['m']}/{s['a']}" for s in plan["specs"]], "start": plan["start"],
                       "grain": plan["grain"], "switches": len(r["record"]), "steps": r["steps"]}}


def short(o):
    s = repr(o)
    return s if len(s) < 200 else s[:197] + "..."
