"""C13: a call nested inside another call disturbs neither."""
import copy
import hashlib
import random

from sim import specs as S, engine as E, zygote, faults
from sim.seams import W

PROP = "C13"
LEVEL = "exploration"
RULE = ("one evaluation = one simulated process running a random history in which, at chosen points inside a public call "
        "(before an executed library line or a call out of the library), further public calls on other estimators are "
        "made, as a signal handler, logging handler or finaliser would; the outer call's answer, the nested answers and "
        "all later answers are compared with those of a process that made the same calls one after the other; two "
        "evaluations are distinct when the histories, the interrupted call or the points differ")
TIERS = {"quick": {"runs": 2600, "cap_s": 80, "timeout_s": 120, "recheck": 12, "min_s": 40},
         "thorough": {"runs": 100000, "cap_s": 2400, "timeout_s": 200, "recheck": 60, "min_s": 90}}
REAL = ["all of infomeasure", "numpy", "scipy", "sparse"]
STUB = ["signal delivery (the nested calls)", "locks created by library code", "OS entropy", "clock", "cpu_count",
        "multiprocessing.Pool", "numba JIT disabled"]
ASSUMPTIONS = ["nested calls are made at line boundaries of library code or when it calls numpy, scipy, sparse and the like"]


def gen(rng, tier, i):
    m = rng.choices(S.MEASURES, (3, 4, 3, 5, 3))[0]
    a = S.APPROACHES[i % len(S.APPROACHES)] if rng.random() < 0.7 else rng.choice(S.APPROACHES)
    specs = [S.gen_spec(rng, measure=m, approach=a, seeded=True, strings=0.1, n=rng.choice((None, 10, 12)), long=0.04)]
    for _ in range(rng.choice((1, 1, 2))):
        r = rng.random()
        specs.append(S.sibling(rng, specs[0]) if r < 0.6 else
                     S.gen_spec(rng, measure=m if r < 0.7 else None, approach=a if r < 0.9 else None, seeded=True))
    kinds = {"res": 4, "loc": 4, "calc": 2, "new": 1, "func": 2}
    s = specs[0]
    if m != "h":
        kinds["test"] = 7
    if m in ("te", "cte"):
        kinds["eff"] = 4
    if m == "h" and len(s["data"]) == 2 and not s.get("joint"):
        for d, ok in (("jsd", E.JSD_OK), ("kld", E.KLD_OK)):
            if S.canon(s["a"]) in ok:
                kinds[d] = 3

    def call(i, pool):
        k = rng.choices(list(pool), list(pool.values()))[0]
        return {"new": ["new", i, i], "func": ["func", i], "test": ["test", i, rng.choice((2, 3, 5)), rng.choice(E.METHODS)],
                "eff": ["eff", i, rng.choice(E.METHODS)], "jsd": ["jsd", i], "kld": ["kld", i]}.get(k, [k, i])

    outer = call(0, kinds)
    pre = [["new", j, j] for j in range(len(specs))]
    if rng.random() < 0.3:
        pre.append(call(rng.randrange(len(specs)), {"res": 1, "loc": 1, "func": 1}))
    inner = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        j = rng.randrange(1, len(specs))
        pool = {"res": 3, "loc": 3, "calc": 4, "func": 4, "new": 1}
        if specs[j]["m"] != "h":
            pool["test"] = 6
        if specs[j]["m"] in ("te", "cte"):
            pool["eff"] = 3
        inner.append(call(j, pool))
    post = []
    for j in range(len(specs)):
        post += [["res", j], ["loc", j]]
        if specs[j]["m"] != "h":
            post.append(["test", j, 3, rng.choice(E.METHODS)])
    rng.shuffle(post)
    return {"specs": specs, "ops": pre, "outer": outer, "inner": inner, "post": post[:rng.randrange(2, len(post) + 1)],
            "points": 10 if tier == "quick" else 12, "tries": 2 if tier == "quick" else 10,
            "grain": rng.choice(("line", "line", "call")), "salt": rng.randrange(1 << 20), "only": None}


def shrink(plan):
    for f in ("inner", "post"):
        for k in range(len(plan[f])):
            if f == "inner" and len(plan[f]) == 1:
                continue
            p = copy.deepcopy(plan)
            del p[f][k]
            if f == "inner" and p["only"]:
                p["only"] = [[at, j % len(p["inner"])] for at, j in p["only"]]
            yield p
    if plan["only"] and len(plan["only"]) > 1:
        for k in range(len(plan["only"])):
            p = copy.deepcopy(plan)
            del p["only"][k]
            yield p
    yield from E.drop_specs(plan)


def _sites(h, plan):
    faults.INJ.sites = {}
    n = faults.INJ.run(lambda: h.do(plan["outer"]), grain=plan["grain"])[1]
    return n, faults.INJ.sites


def apart(h, plan, order):
    """The same calls, one after the other: what each answers."""
    nested = [h.do(plan["inner"][j]) for j in order]
    return h.do(plan["outer"]), nested, [h.do(op) if h.possible(op) else None for op in plan["post"]]


def within(h, plan, at):
    """The inner calls made from inside the outer one."""
    nested = []
    todo = dict(at)
    where = []

    def observer(n, code, name):
        if n in todo:
            W.fire("nested_call")
            where.append(f"{code.co_qualname} at {name}")
            nested.append(h.do(plan["inner"][todo.pop(n)]))

    out, n, _ = faults.INJ.run(lambda: h.do(plan["outer"]), observer=observer, grain=plan["grain"])
    if out[0] != "ok":
        raise RuntimeError(f"outer call raised {out[1]}")
    return out[1], nested, [h.do(op) if h.possible(op) else None for op in plan["post"]], where, dict(W.fired)


def same(spec, got, exp):
    if got is None or exp is None:
        return got is exp
    if got[0] == "test" and exp[0] == "test":
        a, b = got[1], exp[1]
        return all(S.close(a[x], b[x], 1e-12 if not S.is_jittered(spec) or "seed" in spec else 5e-3) for x in ("tv", "obs", "n", "method"))
    return S.close(got, exp, 1e-12 if not (spec["m"] == "h" and S.canon(spec["a"]) == "metric") else S.tol_for(spec))


def execute(plan):
    out, log = [], []
    stats = {"faults": {}, "outer": {plan["outer"][0]: 1}, "approach": {}, "interrupted_calls": 0, "nested_answers": 0, "sites": 0}
    h = E.History(plan)
    for op in plan["ops"]:
        if h.possible(op):
            log.append((op[0], h.do(op)))
    specs = plan["specs"]

    def spec_of(op):
        i = op[2] if op[0] == "new" else op[1]
        return specs[i]

    w = f"{specs[0]['m']}/{S.canon(specs[0]['a'])}"
    if not h.possible(plan["outer"]) or not all(h.possible(o) for o in plan["inner"]):
        return {"violations": [], "stats": stats, "sig": None, "nontrivial": False, "log": log}
    st, r = zygote.fork_call(_sites, 60, h, plan)
    if st != "ok":
        raise RuntimeError(f"dry run {st}: {r}")
    n, sites = r
    stats["approach"] = [f"{plan['outer'][0]}/{w}"]
    rnd = random.Random(plan["salt"])
    tries = [plan["only"]] if plan["only"] else []
    if not tries:
        for _ in range(plan["tries"]):
            ks = faults.choose(sites, n, 30, rnd)
            ks = sorted(rnd.sample(ks, min(len(ks), rnd.choice((1, 3, plan["points"] // 2, plan["points"])))))
            tries.append([[k, rnd.randrange(len(plan["inner"]))] for k in ks])
    stats["sites"] = len(sites)
    done = 0
    for at in tries:
        if not at:
            continue
        st, exp = zygote.fork_call(apart, 60, h, plan, [j for _, j in at])
        if st != "ok":
            raise RuntimeError(f"sequential run {st}: {exp}")
        st, got = zygote.fork_call(within, 60, h, plan, at)
        if st != "ok":
            raise RuntimeError(f"nested run {st}: {got}")
        done += 1
        for f, c in got[4].items():
            stats["faults"][f] = stats["faults"].get(f, 0) + c
        stats["interrupted_calls"] += bool(got[1])
        stats["nested_answers"] += len(got[1])
        log.append((at, got[:3]))
        hint = {"only": at}
        place = "; ".join(got[3])[:200]
        if not same(spec_of(plan["outer"]), got[0], exp[0]):
            out.append({"cls": f"outer/{plan['outer'][0]}/{w}", "hint": hint,
                        "msg": f"{plan['outer']} on {w} answers {short(got[0])} when {[plan['inner'][j] for _, j in at]} ran inside it ({place}), otherwise {short(exp[0])}; {specs[0]['kw']}"})
        for (k, j), g, e in zip(at, got[1], exp[1]):
            op = plan["inner"][j]
            if not same(spec_of(op), g, e):
                s = spec_of(op)
                out.append({"cls": f"inner/{op[0]}/{s['m']}/{S.canon(s['a'])}", "hint": hint,
                            "msg": f"{op} answers {short(g)} when made inside {plan['outer']} ({place}), otherwise {short(e)}; {s['kw']}"})
                break
        if len(got[1]) == len(at):
            for op, g, e in zip(plan["post"], got[2], exp[2]):
                if not same(spec_of(op), g, e):
                    s = spec_of(op)
                    out.append({"cls": f"after/{op[0]}/{s['m']}/{S.canon(s['a'])}", "hint": hint,
                                "msg": f"after nested calls {op} answers {short(g)}, otherwise {short(e)} ({place}); {s['kw']}"})
                    break
        if out:
            break
    sg = hashlib.sha256(repr((E.shape(plan), plan["outer"], plan["inner"], plan["salt"])).encode()).hexdigest()[:16]
    return {"violations": out[:3], "stats": stats, "sig": sg, "nontrivial": done > 0, "log": log,
            "sample": {"specs": [f"{s['m']}/{s['a']}" for s in specs], "outer": plan["outer"], "inner": plan["inner"], "points": tries[:1]}}


def short(o):
    s = repr(o)
    return s if len(s) < 160 else s[:157] + "..."
