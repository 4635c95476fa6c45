"""C03: a seed fixes every random outcome, nothing else does."""
import copy
import gc
import hashlib
import random
from sim import specs as S, engine as E, zygote
from sim.seams import W

PROP = "C03"
LEVEL = "exploration"
TWIN = True
RULE = ("one evaluation = a pair of simulated processes with different hash seeds, entropy, clocks, processor counts, log "
        "levels, global generator states and foreign activity, that run the same seeded history and must log identical "
        "bits; plus, in the same processes, estimators with other seeds or none, whose surrogates must differ.  Two "
        "evaluations are distinct when their histories, options or seeds differ")
TIERS = {"quick": {"runs": 2000, "cap_s": 100, "timeout_s": 100, "recheck": 16, "min_s": 50},
         "thorough": {"runs": 100000, "cap_s": 3400, "timeout_s": 150, "recheck": 200, "min_s": 120}}
REAL = ["all of infomeasure", "numpy (its random generators included)", "scipy", "sparse", "the interpreter's hash seeds"]
STUB = ["OS entropy", "clock (may stand still)", "cpu_count", "multiprocessing.Pool", "numba JIT disabled"]
ASSUMPTIONS = ["both processes run on one machine with the same libraries and single-threaded BLAS",
               "two independent surrogate sequences coincide with probability below 1e-12 where they are compared"]


def gen(rng, tier, i):
    fm = rng.choice(S.MEASURES[1:]) if rng.random() < 0.8 else None
    fa = S.APPROACHES[i % len(S.APPROACHES)] if rng.random() < 0.8 else None
    specs = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        if specs and rng.random() < 0.6:
            specs.append(S.sibling(rng, specs[0]))
        else:
            specs.append(S.gen_spec(rng, measure=fm, approach=fa, seeded=True, strings=0.25, long=0.1))
        if "seed" in specs[-1] and rng.random() < 0.25:
            specs[-1]["seed"] = rng.choice((0, 2 ** 32 + 5, 2 ** 63, 2 ** 70 + 1, 123456789))
    if rng.random() < 0.25:            # many labelled states: sums over tables of them
        m = rng.choice(("mi", "mi", "cmi", "te", "h"))
        s = S.gen_spec(rng, measure=m, approach=rng.choice(("discrete", "miller_madow", "discrete", "shrink", "bayes", "chao_shen")),
                       seeded=True, n=rng.choice((24, 40)), cross=False)
        if not s.get("joint"):
            for d in s["data"]:
                wide = m != "h" and rng.random() < 0.7
                d["v"] = [[rng.choice("abcdefg"), rng.choice(("up", "down"))] if wide else rng.choice("abcdefgh") for _ in d["v"]]
                d["dt"] = "<U4"
            if "cond" in s:
                s["cond"]["v"] = [rng.choice(("l", "r")) for _ in s["cond"]["v"]]
                s["cond"]["dt"] = "<U4"
            specs.append(s)
    w = {"res": 4, "loc": 4, "calc": 2, "test": 8, "eff": 6, "new": 2, "func": 3, "div": 3, "attr": 1, "drop": 1}
    ops = E.gen_ops(rng, specs, rng.choice((4, 6, 8, 12)), weights=w)
    plan = {"specs": specs, "ops": ops, "repeat": rng.random() < 0.3}
    # divergences and cross entropies: sums whose order must not depend on hashing
    if rng.random() < 0.2:
        a = rng.choice(("discrete", "miller_madow", "bayes", "ordinal"))
        s = S.gen_spec(rng, measure="h", approach=a, cross=True, strings=0.7)
        for _ in range(20):
            if len(s["data"]) == 2 and not s.get("joint"):
                break
            s = S.gen_spec(rng, measure="h", approach=a, cross=True, strings=0.7)
        specs.append(s)
        k = len(specs) - 1
        ops += [["new", 7, k], ["res", 7], ["func", k]] + [["jsd", k], ["kld", k]] * (len(s["data"]) == 2)
    # which seeds to tell apart
    if rng.random() < 0.7:
        m = fm or rng.choice(S.MEASURES[1:-1])
        a = fa or rng.choice(S.APPROACHES)
        n = rng.choice((24, 30, 40)) if a not in ("nsb", "ordinal") else 24
        s = S.gen_spec(rng, measure=m, approach=a, n=n, seeded=False, cross=False)
        s["data"] = s["data"][:2]
        pool = [0, 1, 2, 5, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + 5, 2 ** 64 + 1, 7, 42, 43, 1000, 10 ** 9 + 7]
        seeds = rng.sample(pool, 3)
        plan["apart"] = {"spec": s, "seeds": seeds, "method": rng.choice(E.METHODS), "n": 12,
                         "clock": rng.choice(("still", "normal"))}
    return plan


def shrink(plan):
    if plan.get("apart"):
        p = copy.deepcopy(plan)
        p.pop("apart")
        yield p
    if plan.get("repeat"):
        yield dict(copy.deepcopy(plan), repeat=False)
    if plan["ops"]:
        yield dict(copy.deepcopy(plan), ops=[])
    yield from E.drop_specs(plan)


def _logged(spec, op, got):
    """Outcomes a seed (or nothing at all) must fix."""
    if spec["m"] == "h":
        a = S.canon(spec["a"])
        noisy = a == "metric" or a in ("renyi", "tsallis")
        if noisy and spec["kw"].get("noise_level", 1) != 0:
            return False
    return True


class Ambient:
    """What surrounds the calls; different on the two sides."""

    def __init__(self, role, seed):
        self.rng = random.Random(f"{role}-{seed}")
        W.reset(f"{role}-{seed}", cpu=self.rng.choice((1, 2, 4, 16, 128)))
        self.keep = []
        import numpy as np
        import infomeasure as im
        np.random.seed(self.rng.randrange(1 << 32))
        random.seed(self.rng.random())
        im.Config.set_log_level(self.rng.choice((10, 20, 30, 40)))
        self.n = 0

    def noise(self):
        import numpy as np
        import infomeasure as im
        r = self.rng
        for _ in range(r.choice((0, 0, 1, 2))):
            k = r.randrange(7)
            self.n += 1
            if k == 0:
                np.random.seed(r.randrange(100))
            elif k == 1:
                np.random.random(r.randrange(5))
                random.random()
            elif k == 2:
                W.now += r.choice((-1e6, 1e6, 0.5))
                W.cpu = r.choice((1, 2, 64))
            elif k == 3:
                im.Config.set_log_level(r.choice((10, 40)))
            elif k == 4:
                self.keep.append([object() for _ in range(r.randrange(1000))])
                if r.random() < 0.3:
                    self.keep.clear()
                    gc.collect()
            else:
                s = S.gen_spec(r, approach=r.choice(("discrete", "metric", "miller_madow", "ordinal")), small=True)
                try:
                    e = S.construct(s)
                    S.ask(e, ("res",))
                    if s["m"] != "h":
                        S.ask(e, ("test", 2, r.choice(E.METHODS)))
                    if r.random() < 0.5:
                        self.keep.append(e)
                except Exception:
                    pass


def _seq(spec, seed, plan, amb):
    s = copy.deepcopy(spec)
    if seed is not None:
        s["seed"] = seed
    est = S.construct(s)
    return S.ask(est, ("test", plan["n"], plan["method"]))


def _unseeded_in_fork(spec, ap, salt):
    W.entropy = random.Random(f"fork-{salt}")
    return _seq(spec, None, ap, None)


def _same_by_chance(a, b):
    import collections
    n = len(a)
    c = collections.Counter(round(v, 9) if v == v else None for v in a + b)
    ps = sum(x * x for x in c.values()) / (2 * n) ** 2
    ps = min(1.0, ps + 0.25)            # the frequencies are themselves estimates
    return ps ** n > 1e-5 or len(c) < 6


def execute(plan):
    import numpy as np
    role = plan.get("role", "A")
    out, log = [], []
    stats = {"ops": {}, "approach": [], "seeds_apart": 0, "unseeded_pairs": 0, "ambient_changes": 0, "roles": {role: 1}}
    amb = Ambient(role, plan["seed"])
    S.SEED_AS_NUMPY = role != "A" and plan["seed"] % 3 == 0
    for rep in range(2 if plan["repeat"] else 1):
        h = E.History(plan)
        first = log if rep == 0 else []
        for op in plan["ops"]:
            amb.noise()
            if not h.possible(op):
                continue
            got = h.do(op)
            stats["ops"][op[0]] = stats["ops"].get(op[0], 0) + 1
            if op[0] in ("new", "drop"):
                first.append((op[0], got))
                continue
            spec = h.spec_of(op)
            if _logged(spec, op, got):
                first.append((f"{op[0]}/{spec['m']}/{S.canon(spec['a'])}", got))
        if rep:
            for x, y in zip(log, first):
                if repr(x) != repr(y):
                    out.append({"cls": f"again/{x[0]}", "msg": f"the same seeded history again in one process: {str(x)[:300]} and {str(y)[:300]}"})
                    break
    stats["approach"] = sorted({x[0] for x in log})
    ap = plan.get("apart")
    if ap:
        sp = ap["spec"]
        seqs = {}
        for sd in ap["seeds"]:
            amb.noise()
            r = _seq(sp, sd, ap, amb)
            if r[0] == "test":
                seqs[str(sd)] = r[1]["tv"]
                log.append((f"apart/{sp['m']}/{S.canon(sp['a'])}", r))
        for k in range(3):
            if ap["clock"] == "still":
                W.clock_rng = Still()
            np.random.seed(7)
            random.seed(7)
            if k == 2:
                st, r = zygote.fork_call(_unseeded_in_fork, 60, sp, ap, f"{role}1")
                st2, r2 = zygote.fork_call(_unseeded_in_fork, 60, sp, ap, f"{role}2")
                if st == "ok" and r[0] == "test" and r2[0] == "test":
                    seqs["unseeded in one fork"] = r[1]["tv"]
                    seqs["unseeded in another fork"] = r2[1]["tv"]
                continue
            r = _seq(sp, None, ap, amb)
            if r[0] == "test":
                seqs[f"unseeded {k}"] = r[1]["tv"]
        names = list(seqs)
        if sp["m"] != "cte":
            for x in range(len(names)):
                for y in range(x):
                    a, b = seqs[names[x]], seqs[names[y]]
                    if _same_by_chance(a, b):
                        continue
                    stats["seeds_apart" if "un" not in names[x] else "unseeded_pairs"] += 1
                    if S.close(a, b, 1e-7 if not S.is_jittered(sp) else 1e-5):
                        what = "unseeded" if "un" in names[x] or "un" in names[y] else "seeds"
                        out.append({"cls": f"same-{what}/{sp['m']}/{S.canon(sp['a'])}",
                                    "msg": f"{ap['method']}: {names[x]} and {names[y]} share the surrogate sequence {a[:3]}...; spec {sp['a']} {sp['kw']}"})
    stats["ambient_changes"] = amb.n
    sg = hashlib.sha256(repr((E.shape(plan), [s.get("seed") for s in plan["specs"]], bool(ap))).encode()).hexdigest()[:16]
    return {"violations": out[:3], "stats": stats, "sig": sg, "nontrivial": len(log) > 1, "log": log,
            "sample": {"history": E.shape(plan)[:300], "seeds": [s.get("seed") for s in plan["specs"]],
                       "seeds_told_apart": ap["seeds"] if ap else None}}


class Still:
    def choice(self, x):
        return 0.0
