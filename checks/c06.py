"""C06: worker count and worker schedule never change a kernel estimate."""
import copy
import hashlib
from sim import specs as S, zygote
from sim.seams import W, NeverReturns

PROP = "C06"
LEVEL = "exploration"
RULE = ("one evaluation = one simulated process: a history of kernel estimates on 20000-66000 points (and small ones) with "
        "various worker numbers, processor counts, chunk schedules and pool or worker failures, each answer compared with "
        "the single-worker answer of a pristine process; two evaluations are distinct when the calls, worker numbers, "
        "sizes, fault points or the chunks' completion order differ")
TIERS = {"quick": {"runs": 900, "cap_s": 110, "timeout_s": 200, "recheck": 12, "min_s": 60},
         "thorough": {"runs": 40000, "cap_s": 3400, "timeout_s": 400, "recheck": 60, "min_s": 150}}
ZYGOTE = ("stub_kde",)
REAL = ["all of infomeasure", "numpy", "scipy.spatial.KDTree (box kernel)", "scipy.stats.gaussian_kde in the runs marked real"]
STUB = ["worker processes (chunks run in this process, in seeded order, arguments and results pickled)",
        "scipy.stats.gaussian_kde (a cheap density of the same shape) in all but the runs marked real",
        "cpu_count", "OS entropy", "clock"]
ASSUMPTIONS = ["a killed worker breaks an executor and leaves a multiprocessing.Pool.map waiting for ever, as the real ones do"]


def gen(rng, tier, i):
    real = i % (120 if tier == "quick" else 400) == 7
    reqs = []
    if real:
        n = rng.choice((20000, 20011))
        r = {"m": "hx", "n": n, "n2": rng.choice((16001, 17003)), "bw": 0.5, "kernel": "gaussian", "dim": 1,
             "workers": rng.choice((2, 3, -1)), "ds": rng.randrange(1 << 30)}
        return {"reqs": [r], "real": True, "faults": {}, "ops": []}
    for _ in range(rng.choice((1, 1, 2, 3))):
        m = rng.choice(("h", "h", "hj", "hx", "mi", "cmi", "te", "cte"))
        big = rng.random() < 0.85
        n = rng.choice((20000, 20001, 20007, 23999, 24000, 25013, 32001, 40007, 49999, 66001, 90011, 130003)) if big else \
            rng.choice((50, 301, 8001, 16001, 19999))
        if m in ("cmi", "te", "cte", "mi"):
            n = min(n, 41000)
        r = {"m": m, "n": n, "bw": rng.choice((0.2, 0.5, 1.0, 2)), "kernel": "gaussian" if rng.random() < 0.9 else "box",
             "dim": rng.choice((1, 1, 1, 2)) if m in ("h", "mi") else 1, "workers": rng.choice((1, 2, 3, 4, 5, 7, 8, 16, -1, -1, 64)),
             "ds": rng.randrange(1 << 30), "via": rng.choice(("estimator", "functional", "class"))}
        if r["kernel"] == "box":
            r["n"] = min(r["n"], 6000)
        if m == "hx":
            r["n2"] = rng.choice((n, 20000, 24001, 3000, 16003))
        if m in ("te", "cte"):
            r["kw"] = {"src_hist_len": rng.choice((1, 2)), "dest_hist_len": rng.choice((1, 2))}
            if rng.random() < 0.3:
                r["kw"]["prop_time"] = rng.choice((0, 3)) if m == "te" else 0
        if rng.random() < 0.3:
            r["base"] = rng.choice((2, 10))
        if reqs and rng.random() < 0.5:
            q = copy.deepcopy(reqs[-1])
            q[rng.choice(("ds", "workers", "bw"))] = None
            q["ds"] = r["ds"] if q["ds"] is None else q["ds"]
            q["workers"] = r["workers"] if q["workers"] is None else q["workers"]
            q["bw"] = r["bw"] if q["bw"] is None else q["bw"]
            r = q
        reqs.append(r)
    ops = []
    for k in range(len(reqs)):
        ops.append(["new", k])
    for _ in range(rng.choice((1, 2, 3, 4))):
        ops.append([rng.choices(("res", "loc", "calc", "func", "cpu", "test"), (5, 5, 2, 2, 2, 1))[0], rng.randrange(len(reqs))])
    faults = {}
    if rng.random() < 0.6:
        for _ in range(rng.choice((1, 1, 2))):
            k = rng.choice(("create", "chunk_before", "chunk_after", "inside", "inside", "slow", "interrupt", "killed"))
            if k == "inside":
                faults["inside_exc"] = rng.choice(("MemoryError", "MemoryError", "OSError", "RuntimeError", "ValueError", "FloatingPointError"))
            top = 4 if k == "create" else 8
            faults.setdefault(k, []).append(rng.choices(range(1, top + 1), [1 / j for j in range(1, top + 1)])[0])
    return {"reqs": reqs, "real": False, "faults": faults, "ops": ops}


def shrink(plan):
    for k in list(plan["faults"]):
        p = copy.deepcopy(plan)
        del p["faults"][k]
        yield p
    for i, r in enumerate(plan["reqs"]):
        for n in (50, 20000):
            if r["n"] > n:
                p = copy.deepcopy(plan)
                p["reqs"][i]["n"] = n
                yield p
        if r["dim"] > 1:
            p = copy.deepcopy(plan)
            p["reqs"][i]["dim"] = 1
            yield p
        if r["workers"] not in (1, 2):
            p = copy.deepcopy(plan)
            p["reqs"][i]["workers"] = 2
            yield p


def data(r):
    import numpy as np
    g = np.random.Generator(np.random.PCG64(r["ds"]))
    n = r["n"]
    k = {"h": 1, "hj": 2, "hx": 2, "mi": 2, "cmi": 3, "te": 2, "cte": 3}[r["m"]]
    x = g.normal(size=n)
    cols = [x]
    for j in range(1, k):
        y = 0.6 * np.roll(cols[-1], 1 if r["m"] in ("te", "cte") else 0) + g.normal(size=n)
        if r["m"] == "hx":
            y = g.normal(0.3, 1.2, size=r["n2"])
        cols.append(y)
    if r["dim"] == 2:
        cols[0] = np.column_stack([cols[0], 0.5 * cols[0] + g.normal(size=n)])
    return cols


def args(r, workers):
    cols = data(r)
    kw = {"bandwidth": r["bw"], "kernel": r["kernel"], "workers": workers, **r.get("kw", {})}
    if "base" in r:
        kw["base"] = r["base"]
    m = {"hj": "h", "hx": "h"}.get(r["m"], r["m"])
    if r["m"] == "hj":
        return m, (tuple(cols),), kw
    if r["m"] in ("cmi", "cte"):
        kw["cond"] = cols[2]
        return m, tuple(cols[:2]), kw
    return m, tuple(cols), kw


def make(r, workers=None):
    import infomeasure as im
    m, a, kw = args(r, r["workers"] if workers is None else workers)
    if m != "h":
        kw["seed"] = r["ds"] % 1000
    if r.get("via") == "class":
        return im.get_estimator_class(measure=m, approach="kernel")(*a, **kw)
    return im.estimator(*a, measure=m, approach="kernel", **kw)


def func(r):
    import infomeasure as im
    m, a, kw = args(r, r["workers"])
    f = {"h": im.entropy, "mi": im.mutual_information, "cmi": im.conditional_mutual_information,
         "te": im.transfer_entropy, "cte": im.conditional_transfer_entropy}[m]
    return f(*a, approach="kernel", **kw)


def ask(est, k):
    """Outcome as data; arrays as numpy arrays (they are long)."""
    import numpy as np
    try:
        if k == "loc":
            return ("arr", np.array(est.local_vals(), dtype=float))
        if k == "calc":
            est.calculate()
        if k == "test":
            r = est.statistical_test(2, "permutation_test")
            return ("arr", np.array([r.observed_value, *r.test_values], dtype=float))
        return ("val", float(est.result()))
    except (Exception, KeyboardInterrupt) as e:
        return ("exc", type(e).__name__)


def golden(r, kinds, real):
    W.pool_faults = {}
    W.real_kde = real
    W.cpu = 1
    est = make(r, workers=1)
    return {k: ask(est, k) for k in kinds}


def same(a, b):
    import numpy as np
    if a[0] != b[0]:
        return False
    if a[0] == "arr":
        return a[1].shape == b[1].shape and bool(np.allclose(a[1], b[1], rtol=1e-9, atol=1e-12, equal_nan=True))
    if a[0] == "val":
        return S.close(a[1], b[1], 1e-9)
    return a[1] == b[1]


def brief(o):
    import numpy as np
    if o[0] == "arr":
        return f"{len(o[1])} values {np.round(o[1][:3], 6).tolist()}.. mean {float(np.mean(o[1])):.9g}"
    return str(o)


def left_behind():
    return [p.n for p in W.pools if p.state == "RUN"]


def execute(plan):
    out, log = [], []
    stats = {"pools": 0, "tasks": 0, "ops": {}, "faults": {}, "failed_calls": 0, "retried": 0, "measure": {}, "real_kde_runs": int(plan["real"]),
             "workers": {}}
    reqs = plan["reqs"]
    ops = plan["ops"] or [["new", 0], ["res", 0], ["res", 0]]
    gold = []
    for k, r in enumerate(reqs):
        kinds = ["res"] + sorted({o[0] for o in ops if o[0] in ("loc", "test") and o[1] == k})
        kinds = [x for x in kinds if not (x == "loc" and r["m"] == "hx") and not (x == "test" and r["m"] in ("h", "hj", "hx"))]
        st, g = zygote.fork_call(golden, 150, r, kinds, plan["real"])
        if st != "ok":
            raise RuntimeError(f"single-worker answer {st}: {g}")
        gold.append(g)
    W.real_kde = plan["real"]
    W.pool_faults = {k: list(v) if isinstance(v, list) else v for k, v in plan["faults"].items()}
    W.pools.clear()
    slots = {}

    def bad(cls, r, msg):
        out.append({"cls": f"{cls}/{r['m']}/{r['kernel']}", "msg": f"{msg}; {r['m']} {r['kernel']} n={r['n']} workers={r['workers']} cpu={W.cpu} pools={W.pool_log[-6:]}"})

    for op in ops:
        k = op[1]
        if k >= len(reqs):
            continue
        r = reqs[k]
        stats["ops"][op[0]] = stats["ops"].get(op[0], 0) + 1
        if op[0] == "cpu":
            W.cpu = W.rng.choice((1, 2, 3, 5, 8, 64))
            continue
        stats["measure"][r["m"]] = 1
        stats["workers"][str(r["workers"])] = 1
        kind = {"calc": "res", "func": "res"}.get(op[0], op[0])
        fired0 = sum(v for f, v in W.fired.items() if "error" in f)

        def call():
            if op[0] == "new":
                try:
                    slots[k] = make(r)
                    return ("ok",)
                except (Exception, KeyboardInterrupt) as e:
                    slots.pop(k, None)
                    return ("exc", type(e).__name__)
            if op[0] == "func":
                try:
                    return ("val", float(func(r)))
                except (Exception, KeyboardInterrupt) as e:
                    return ("exc", type(e).__name__)
            if k not in slots or kind not in gold[k]:
                return None
            return ask(slots[k], op[0])

        try:
            got = call()
        except NeverReturns as e:
            bad("never-ends", r, f"{op[0]}: a worker was killed and the call never ends ({e})")
            break
        fired = sum(v for f, v in W.fired.items() if "error" in f) - fired0
        if got is None:
            continue
        log.append((op[0], k, got[0], fired, hashlib.sha256(got[1].tobytes()).hexdigest()[:12] if got[0] == "arr" else got[1:], tuple(W.pool_log[-3:])))
        if fired:
            stats["failed_calls"] += 1
            if got[0] != "exc":
                bad("swallowed", r, f"{op[0]}: a worker or pool failed ({dict(W.fired)}) but the call returned {brief(got)}")
                break
            if left_behind():
                bad("pool-left", r, f"{op[0]}: failed with {got[1]} and left {len(left_behind())} pool(s) running")
                break
            W.pool_faults = {}
            stats["retried"] += 1
            again = call()
            if op[0] == "new":
                if again != ("ok",):
                    bad("retry", r, f"{op[0]} again after the failure: {again}")
                    break
                continue
            exp = gold[k][kind]
            if op[0] == "test":
                # the generator has moved on; the surrogates are other draws
                if again[0] != exp[0] or not same(("val", float(again[1][0])), ("val", float(exp[1][0]))):
                    bad("retry", r, f"{op[0]} again after the failure: {brief(again)}, single worker {brief(exp)}")
                    break
                gold[k].pop("test")
            elif not same(again, exp):
                bad("retry", r, f"{op[0]} again after the failure: {brief(again)}, single worker {brief(exp)}")
                break
            continue
        if op[0] == "new":
            if got != ("ok",):
                raise RuntimeError(f"construction refused {got}")
            continue
        exp = gold[k][kind]
        if op[0] == "test":
            gold[k].pop("test")          # one seeded draw only
        if not same(got, exp):
            bad(op[0], r, f"{op[0]}: {brief(got)}, single worker {brief(exp)}")
            break
    stats["pools"], stats["tasks"] = len(W.pools), W.pool_tasks
    stats["faults"] = dict(W.fired)
    orders = tuple(o for o in W.pool_log if o[0] == "order")
    stats["completion_orders"] = {hash(o) & 0xffffffff for o in orders}
    sg = hashlib.sha256(repr((ops, [(r["m"], r["n"], r["workers"], r["kernel"]) for r in reqs], plan["faults"], orders)).encode()).hexdigest()[:16]
    return {"violations": out, "stats": stats, "sig": sg, "nontrivial": len(W.pools) > 0, "log": log,
            "sample": {"requests": [{x: r[x] for x in ("m", "n", "workers", "kernel")} for r in reqs], "ops": ops, "faults": plan["faults"],
                       "pools": W.pool_log[:8], "cpu": W.cpu}}
