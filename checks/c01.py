"""C01: what was asked before never changes an answer."""
import copy
from sim import specs as S, engine as E
from sim.seams import W

PROP = "C01"
LEVEL = "exploration"
RULE = ("one evaluation = one simulated process: a random history of 6-40 public calls over up to 4 "
        "estimators (some of them siblings that differ in one respect), every answer compared with that of a "
        "freshly forked pristine process asked only that question; two evaluations are distinct when their "
        "abstract histories (call kind, measure, approach, which estimator) differ")
TIERS = {"quick": {"runs": 5000, "cap_s": 110, "timeout_s": 100, "recheck": 24, "min_s": 40},
         "thorough": {"runs": 120000, "cap_s": 3000, "timeout_s": 100, "recheck": 400, "min_s": 90}}
REAL = ["all of infomeasure", "numpy", "scipy", "sparse"]
STUB = ["OS entropy", "clock", "cpu_count", "multiprocessing.Pool"]
ASSUMPTIONS = ["a process forked right after import answers a single question correctly (self-reference)",
               "jittered approaches are compared within 2e-4, deterministic ones within 1e-9"]
JUDGED = ("res", "glob", "loc", "calc", "test", "func", "jsd", "kld", "attr")


def gen(rng, tier, i):
    focus = rng.choice(S.MEASURES) if rng.random() < 0.75 else None
    r = rng.random()
    app = rng.choice(S.APPROACHES) if r < 0.7 else None
    n = None
    if rng.random() < 0.05:
        n, app = rng.choice((120, 300)), rng.choice(("discrete", "miller_madow", "grassberger", "chao_shen"))
    first = S.gen_spec(rng, measure=focus, approach=app, n=n, long=0.1)
    specs = [first]
    for _ in range(rng.randrange(1, 4)):
        q = rng.random()
        if q < 0.55:
            specs.append(S.sibling(rng, rng.choice(specs)))
        elif q < 0.8:
            specs.append(S.gen_spec(rng, measure=focus, approach=app, n=n, long=0.1))
        else:
            specs.append(S.gen_spec(rng))
    length = rng.choice((6, 8, 10, 14, 20)) if rng.random() < 0.95 else 60
    ops = E.gen_ops(rng, specs, length)
    if rng.random() < 0.04:                # a long life: hundreds of data sets in between
        for _ in range(rng.choice((1, 2))):
            k = rng.randrange(len(specs))
            many = rng.choice((30, 140, 300)) if S.canon(specs[k]["a"]) not in ("nsb", "ordinal", "kernel") else 30
            if len(specs[k]["data"][0]["v"]) < 40:
                ops.insert(rng.randrange(1, len(ops) + 1), ["crowd", k, many, rng.randrange(1000)])
    return {"specs": specs, "ops": ops}


def shrink(plan):
    yield from E.drop_specs(plan)


def execute(plan):
    g = E.Golden()
    out, stats, log = [], {"ops": {}, "approach": {}, "exceptions": 0, "judged": 0, "jitter_ties": 0}, []
    # goldens first: forked from the pristine process
    h = E.History(plan)
    want = {}
    slot = {}
    for i, op in enumerate(plan["ops"]):
        if op[0] == "new":
            slot[op[1]] = op[2]
            continue
        if op[0] == "drop":
            slot.pop(op[1], None)
            continue
        si = op[1] if op[0] in ("func", "jsd", "kld") else slot.get(op[1])
        if si is None or op[0] not in JUDGED or si >= len(plan["specs"]):
            continue
        q = (op[0],) if op[0] in ("func", "jsd", "kld") else E.question(op)
        want[i] = (plan["specs"][si], q, g.get(plan["specs"][si], q))
    kinds = set()
    for i, op in enumerate(plan["ops"]):
        if not h.possible(op):
            continue
        got = h.do(op)
        log.append((op[0], got))
        stats["ops"][op[0]] = stats["ops"].get(op[0], 0) + 1
        kinds.add(op[0])
        if got[0] == "exc":
            stats["exceptions"] += 1
        if i not in want:
            continue
        spec, q, exp = want[i]
        stats["approach"][f"{spec['m']}/{S.canon(spec['a'])}"] = 1
        if op[0] == "test" and got[0] == "test":
            got = ("val", got[1]["obs"])
        elif op[0] == "test":
            continue                         # refusal: judged by C05
        if op[0] == "attr" and exp[0] == "exc":
            continue
        stats["judged"] += 1
        tol = S.tol_for(spec)
        if S.close(got, exp, tol):
            continue
        if S.is_jittered(spec) or (S.canon(spec["a"]) == "metric" and spec["kw"].get("noise_level", 1) != 0):
            if E.jitter_explains(spec, q, got, tol):
                stats["jitter_ties"] += 1
                continue
        out.append({"cls": f"{op[0]}/{spec['m']}/{S.canon(spec['a'])}",
                    "msg": f"op {i} {op}: {short(got)} but a fresh estimator answers {short(exp)}; "
                           f"history {E.shape(plan)[:300]}"})
        break
    stats["approach"] = list(stats["approach"])
    stats["golden_processes"] = g.forks
    return {"violations": out, "stats": stats, "sig": E.sig(plan), "nontrivial": stats["judged"] > 1,
            "sample": E.shape(plan)[:400], "log": log}


def short(o):
    s = repr(o)
    return s if len(s) < 160 else s[:157] + "..."
