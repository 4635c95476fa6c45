"""C04: every surrogate is a genuine, uniform shuffle or resample of the source only."""
import random
from sim import specs as S, engine as E, ref as R, zygote
from sim.seams import W

PROP = "C04"
LEVEL = "exploration"
RULE = ("one evaluation = one simulated process in which one estimator is put through a history of significance "
        "tests and effective values; on small data every surrogate is looked up among all legal arrangements of "
        "the source rows (each evaluated by a fresh estimator) and the frequencies are tested against uniformity; "
        "on larger data the surrogates are compared with the reference's own shuffles.  Two evaluations are "
        "distinct when measure, approach, options or history differ")
TIERS = {"quick": {"runs": 1500, "cap_s": 110, "timeout_s": 120, "recheck": 16, "min_s": 60},
         "thorough": {"runs": 60000, "cap_s": 3400, "timeout_s": 200, "recheck": 200, "min_s": 120}}
REAL = ["all of infomeasure", "numpy (its random generators included)", "scipy", "sparse"]
STUB = ["OS entropy", "clock", "cpu_count", "multiprocessing.Pool", "numba JIT disabled"]
ASSUMPTIONS = ["the estimators give the right value for data without surrogates (the reference asks them)",
               "uniformity is rejected at p < 1e-10 only"]
ALPHA = 1e-10


def gen(rng, tier, i):
    m = rng.choices(("mi", "cmi", "te", "cte"), (5, 4, 8, 1))[0]
    a = S.APPROACHES[i % len(S.APPROACHES)] if rng.random() < 0.7 else rng.choice(S.APPROACHES)
    mode = "enum" if rng.random() < 0.8 else "large"
    n = None
    if mode == "enum":
        n = rng.randrange(6, 9) if m in ("mi", "cmi") else rng.randrange(7, 11)
    else:
        n = rng.choice((40, 80, 150)) if a not in ("nsb", "ordinal") else 40
        if a not in ("nsb", "ordinal", "kernel", "zhang", "renyi", "tsallis") and rng.random() < 0.25:
            n = rng.choice((300, 520, 1030, 2100, 4200, 5100, 10100)) if a in S.COUNT else rng.choice((300, 520, 1030))
    s = S.gen_spec(rng, measure=m, approach=a, n=n, cross=False)
    while len(s["data"]) > 2:
        s["data"].pop()
    kw = s["kw"]
    if mode == "enum":
        if a == "kernel":
            kw.pop("workers", None)
        if a in ("metric", "renyi", "tsallis"):
            kw["noise_level"] = 0
            kw["k"] = rng.choice((1, 2))
        if a in S.CONT and rng.random() < 0.6:
            # few distinct source values, so that all resamples can be enumerated
            lv = [round(rng.gauss(0, 1), 3) for _ in range(rng.choice((2, 3)))]
            s["data"][0]["v"] = [[rng.choice(lv)] * 2 if isinstance(x, list) else rng.choice(lv) for x in s["data"][0]["v"]]
    if mode == "large" and rng.random() < 0.5:
        # slowly varying observations: shuffling only nearby ones would change little
        cols = [d["v"] for d in s["data"] + ([s["cond"]] if "cond" in s else [])]
        by = sorted(range(n), key=lambda k: cols[0][k])
        for c in cols if m in ("mi", "cmi") else cols[:1]:
            c[:] = [c[k] for k in by]
    if mode == "large" and S.is_jittered(s) and (m == "cte" or rng.random() < 0.7):
        kw["noise_level"] = 0
    ops = []
    for _ in range(rng.randrange(0, 4)):
        ops.append(rng.choice((["res", 0], ["loc", 0], ["calc", 0], ["test", 0, 2, rng.choice(E.METHODS)])))
    big = 400 if mode == "enum" else 60
    if a in ("nsb", "ordinal"):
        big //= 2
    if n > 200:
        big = 40 if n < 1000 else 24
    body = []
    for meth in E.METHODS:
        left = big
        while left > 0:
            k = rng.choice((2, 5, 20, 60, 200) if n <= 200 else (5, 20, 60))
            k = min(k, max(2, left))
            body.append(["test", 0, k, meth])
            left -= k
        if m in ("te", "cte"):
            body += [["eff", 0, meth]] * (12 if n <= 200 else 2)
    if m in ("te", "cte") and rng.random() < 0.5:
        body += [["eff", 0, None]] * 3
    rng.shuffle(body)
    extra = [["new", 1, 0], ["res", 0], ["loc", 0], ["calc", 0], ["cfg", "statistical_test_method", "bootstrap"],
             ["cfg", "statistical_test_method", "permutation_test"]]
    for _ in range(rng.randrange(0, 3)):
        body.insert(rng.randrange(len(body) + 1), rng.choice(extra))
    return {"specs": [s], "mode": mode, "ops": [["new", 0, 0]] + ops + body,
            "limit": 1300 if tier == "quick" else 6000}


def shrink(plan):
    yield from E.drop_specs(plan)


def _dist(spec, method, limit, mode, seed, n):
    r = R.Reference(spec)
    base = r.value(range(len(r.src)))
    if mode == "enum":
        d = r.distribution(method, limit)
        if d is not None:
            return base, d
        return base, ("sample", r.sample(method, random.Random(seed), 100))
    return base, r.sample(method, random.Random(seed), n)


def execute(plan):
    import infomeasure as im
    spec = plan["specs"][0]
    m, a = spec["m"], S.canon(spec["a"])
    out, log = [], []
    stats = {"cells": {}, "untransformable": {}, "surrogates_judged": 0, "legal_values_enumerated": 0,
             "trivial": 0, "arrangement_source": {}, "cte_identity": 0}
    tol = 1e-7 if not S.is_jittered(spec) else 2e-3
    h = E.History(plan)
    got = {meth: [] for meth in E.METHODS}          # ("t", value) surrogate values in order
    runs = []                                       # one entry per test: (method, values)
    effs = {meth: [] for meth in E.METHODS}
    obs = None
    default = "permutation_test"
    refused = {}                                    # method -> first exception type

    def bad(cls, msg, key=None):
        v = {"cls": f"{cls}/{m}/{a}", "msg": msg + f"; spec {spec['m']}/{spec['a']} {spec['kw']}"}
        if key:
            v["key"] = key
        out.append(v)

    for op in plan["ops"]:
        if op[0] == "cfg":
            im.Config.set(op[1], op[2])
            default = op[2]
            continue
        if not h.possible(op):
            continue
        r = h.do(op)
        log.append((op[0], r))
        if op[0] == "new" and op[1] == 0 and r[0] == "ok" and obs is None:
            pass
        if op[0] == "test" and r[0] == "test":
            if len(r[1]["tv"]) != op[2]:
                bad("count", f"{len(r[1]['tv'])} surrogates carried, {op[2]} requested")
            got[op[3]] += r[1]["tv"]
            runs.append((op[3], r[1]["tv"]))
            obs = r[1]["obs"]
        elif op[0] == "test":
            stats["untransformable"]["test refused " + r[1]] = 1
            refused.setdefault(op[3], r[1])
        elif op[0] == "eff" and r[0] == "eff":
            effs[op[2] or default].append(r[1])
        elif op[0] == "eff":
            stats["untransformable"]["effective value refused " + r[1]] = 1
            refused.setdefault(op[2] or default, r[1])
    if obs is None and h.slots.get(0) is not None:
        r = S.ask(h.slots[0], ("res",))
        obs = r[1] if r[0] == "val" else None
    if obs is None:
        return done(plan, out, stats, log, False)
    # a refusal is only in order when some legal arrangement of the source cannot be computed
    for meth in refused:
        if plan["mode"] != "enum" or m == "cte":
            continue
        st, r = zygote.fork_call(_dist, 100, spec, meth, plan["limit"], "enum", plan["seed"], 60)
        if st == "ok" and isinstance(r[1], list) and S.close(r[0], obs, tol if not S.is_jittered(spec) else 1e-2):
            stats["refusals_judged"] = stats.get("refusals_judged", 0) + 1
            bad(f"refused/{meth}", f"a {meth} raised {refused[meth]}, yet every legal arrangement of the source can be computed")

    nontrivial = False
    for meth in E.METHODS:
        tv = got[meth]
        if effs[meth]:
            tv = tv + [obs - e for e in effs[meth]]
        if not tv:
            continue
        if S.is_jittered(spec) and meth == "bootstrap":
            continue                 # repeated rows: noise decides the ties
        if m == "cte" and all(v == obs or abs(v - obs) <= 1e-9 or (v != v and obs != obs) for v in tv):
            # every surrogate equals the observed value: only possible for all of them if
            # no arrangement changes the value
            st, r = zygote.fork_call(_dist, 100, spec, meth, plan["limit"], plan["mode"], plan["seed"], 30)
            stats["cte_identity"] += 1
            if st == "ok" and r[1] is not None:
                if plan["mode"] == "enum" and isinstance(r[1], list):
                    p_same = sum(w for v, w in r[1] if abs(v - obs) < 1e-9)
                else:
                    vals = r[1][1] if plan["mode"] == "enum" else r[1]
                    p_same = min(0.9, 3 * sum(abs(v - obs) < 1e-9 for v in vals) / len(vals)) if len(vals) > 20 else 1
                if p_same < 1 and len(tv) > 0 and (p_same == 0 or p_same ** len(tv) < ALPHA):
                    bad("cte-identity", f"{len(tv)} {meth} surrogates all equal the observed value", key="cte-never-shuffled")
            continue
        st, r = zygote.fork_call(_dist, 100, spec, meth, plan["limit"], plan["mode"], plan["seed"], 60 if len(spec["data"][0]["v"]) <= 200 else 40)
        if st != "ok":
            if st == "error" and "Untransformable" in r:
                why = r.strip().splitlines()[-1][:60]
                stats["untransformable"][why] = stats["untransformable"].get(why, 0) + 1
                continue
            raise RuntimeError(f"reference {st}: {r}")
        base, dist = r
        if not S.close(base, obs, tol if not S.is_jittered(spec) else 1e-2):
            stats["untransformable"]["base value differs"] = stats["untransformable"].get("base value differs", 0) + 1
            stats["arrangement_source"][f"{m}/{a}/base"] = 1
            continue
        stats["cells"][f"{m}/{a}/{meth}/{plan['mode']}"] = 1
        if plan["mode"] == "enum" and isinstance(dist, list):
            stats["legal_values_enumerated"] += len(dist)
            if len(dist) < 2:
                stats["trivial"] += 1
                if any(R.find(dist, v, tol) is None for v in tv):
                    bad(f"illegal/{meth}", f"surrogate {[v for v in tv if R.find(dist, v, tol) is None][0]} is no legal arrangement's value")
                continue
            nontrivial = True
            counts = [0] * len(dist)
            illegal = None
            for v in tv:
                i = R.find(dist, v, tol)
                if i is None:
                    illegal = v
                    break
                counts[i] += 1
            stats["surrogates_judged"] += len(tv)
            if illegal is not None:
                bad(f"illegal/{meth}", f"surrogate value {illegal!r} is the value of no legal arrangement of the source "
                    f"(legal: {len(dist)} values from {dist[0][0]:.6g} to {dist[-1][0]:.6g}, observed {obs:.6g})")
                continue
            if len(tv) >= 20:
                p, cells = R.chi2_pvalue(counts, [d[1] for d in dist], len(tv), minexp=5)
                if p < ALPHA:
                    bad(f"distribution/{meth}", f"{len(tv)} surrogates over {cells} groups of legal values: p={p:.1e} for uniform draws")
            # repeated surrogate sequences
            ps = sum(d[1] ** 2 for d in dist)
            seqs = [v for mm, v in runs if mm == meth]
            for x in range(len(seqs)):
                for y in range(x):
                    k = min(len(seqs[x]), len(seqs[y]))
                    if ps ** k < 1e-12 and S.close(seqs[x][:k], seqs[y][:k], 1e-12):
                        bad(f"repeat/{meth}", f"two tests of one estimator share their first {k} surrogate values")
                        break
                else:
                    continue
                break
            ev = effs[meth]
            if len(ev) > 1 and ps ** (len(ev) - 1) < 1e-12 and all(S.close(e, ev[0], 1e-12) for e in ev):
                bad(f"repeat-eff/{meth}", f"{len(ev)} effective values are all {ev[0]!r}")
            if 12 <= len(ev):
                c2 = [0] * len(dist)
                for e in ev:
                    c2[R.find(dist, obs - e, tol)] += 1
                p, _ = R.chi2_pvalue(c2, [d[1] for d in dist], len(ev), minexp=3)
                if p < ALPHA:
                    bad(f"distribution-eff/{meth}", f"{len(ev)} effective values: p={p:.1e} for uniform draws")
        else:
            if isinstance(dist, tuple):
                dist = dist[1]
            stats["surrogates_judged"] += len(tv)
            stats["sampled_reference"] = stats.get("sampled_reference", 0) + 1
            a1 = [v for v in tv if v == v and abs(v) != float("inf")]
            b1 = [v for v in dist if v == v and abs(v) != float("inf")]
            if len(a1) < 20 or len(b1) < 20:
                continue
            nontrivial = True
            import numpy as np
            from scipy.stats import ks_2samp, ttest_ind
            d = 6 if not S.is_jittered(spec) else 3
            p = ks_2samp(np.round(a1, d), np.round(b1, d)).pvalue
            if p < ALPHA:
                # the reference's own draws and a second sample of them must agree
                bad(f"distribution/{meth}", f"{len(a1)} surrogates (mean {np.mean(a1):.4g}, sd {np.std(a1):.3g}) against "
                    f"{len(b1)} reference shuffles (mean {np.mean(b1):.4g}, sd {np.std(b1):.3g}): p={p:.1e}")
            sd = np.sqrt(np.var(a1) / len(a1) + np.var(b1) / len(b1)) + 10.0 ** -d
            z = abs(np.mean(a1) - np.mean(b1)) / sd
            if z > 9:
                bad(f"mean/{meth}", f"surrogate mean {np.mean(a1):.5g} against reference {np.mean(b1):.5g}, {z:.1f} standard errors")
    return done(plan, out, stats, log, nontrivial)


def done(plan, out, stats, log, nontrivial):
    import hashlib
    import json
    spec = plan["specs"][0]
    stats["cells"] = list(stats["cells"])
    stats["arrangement_source"] = list(stats["arrangement_source"])
    sig = json.dumps([spec["m"], S.canon(spec["a"]), sorted((k, str(v)) for k, v in spec["kw"].items()), plan["mode"],
                      [o[0] + str(o[-1]) for o in plan["ops"]]])
    return {"violations": out, "stats": stats, "sig": hashlib.sha256(sig.encode()).hexdigest()[:16],
            "nontrivial": nontrivial, "log": log,
            "sample": {"measure": spec["m"], "approach": spec["a"], "options": spec["kw"], "mode": plan["mode"],
                       "rows": len(spec["data"][0]["v"]), "calls": len(plan["ops"])}}
