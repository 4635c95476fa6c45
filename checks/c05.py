"""C05: a significance report describes exactly the surrogates it carries."""
import copy
import hashlib
import math
from sim import specs as S, engine as E, zygote
from sim.seams import W

PROP = "C05"
LEVEL = "exploration"
RULE = ("one evaluation = one simulated process: a random history of tests with and without explicit number and method, "
        "setting changes, refused requests, percentile queries and later calls over 1-3 estimators, every report compared "
        "with a small model and, bit for bit, with the same history without the refused requests; two evaluations are "
        "distinct when history, measure, approach or options differ")
TIERS = {"quick": {"runs": 4000, "cap_s": 100, "timeout_s": 100, "recheck": 24, "min_s": 40},
         "thorough": {"runs": 150000, "cap_s": 3400, "timeout_s": 150, "recheck": 300, "min_s": 120}}
REAL = ["all of infomeasure", "numpy", "scipy", "sparse"]
STUB = ["OS entropy", "clock", "cpu_count", "multiprocessing.Pool", "numba JIT disabled"]
ASSUMPTIONS = ["statistics are compared within 1e-9 relative, p-values within 1e-12"]
BAD_N = (0, 1, -1, -5, 2.5, "3", "x", 5.0, [3])
BAD_M = ("foo", "", "permutation", "Bootstrap ", 3, ["bootstrap"])
PMETH = ("linear", "lower", "higher", "midpoint", "nearest", "hazen", "weibull", "median_unbiased")


def gen(rng, tier, i):
    m = rng.choices(S.MEASURES[1:], (4, 3, 5, 2))[0]
    a = S.APPROACHES[i % len(S.APPROACHES)] if rng.random() < 0.7 else rng.choice(S.APPROACHES)
    specs = [S.gen_spec(rng, measure=m, approach=a, cross=False, n=rng.choice((None, None, 9, 12)), strings=0.05, long=0.1)]
    for _ in range(rng.choice((0, 0, 1, 2))):
        specs.append(S.sibling(rng, specs[0]) if rng.random() < 0.5 else S.gen_spec(rng, measure=rng.choice(S.MEASURES[1:])))
    r = rng.random()
    if r < 0.15:
        # degenerate nulls: a constant variable, or a source equal to the destination
        s = specs[0]
        d = s["data"][rng.randrange(2)]
        if a in S.COUNT:
            d["v"] = [d["v"][0]] * len(d["v"])
        else:
            s["data"][1]["v"] = copy.deepcopy(s["data"][0]["v"])
    elif r < 0.4 and a in S.COUNT:
        # strong dependence or tiny alphabets: many surrogates tie with the observed value
        s = specs[0]
        for d in s["data"]:
            d["v"] = [v if isinstance(v, (list, str)) else v % 2 for v in d["v"]]
    ops = []
    for j in range(len(specs)):
        ops.append(["new", j, j])
    cheap = a in ("discrete", "miller_madow", "metric", "kernel", "shrink", "zhang")
    ops.append(["cfg", "statistical_test_n_tests", rng.choice((2, 3, 4, 6, 10))])
    if rng.random() < 0.3:
        ops.append(["cfg", "statistical_test_method", rng.choice(E.METHODS)])
    slots = list(range(len(specs)))
    reports = 0
    for _ in range(rng.choice((4, 6, 9, 14))):
        k = rng.choices(("test", "bad", "cfg", "pct", "ci", "ask", "effbad", "keep"), (8, 4, 3, 3, 3, 4, 1, 2))[0]
        s = rng.choice(slots)
        if k == "test":
            nt = rng.choice((None, None, 2, 3, 5, 8, 13, "np5", "np3"))
            if cheap and rng.random() < 0.06:
                nt = rng.choice((64, 101, 200, 257, 513, 1030))
            ops.append(["test", s, nt, rng.choice((None,) + E.METHODS)])
            reports += 1
        elif k == "bad":
            ops.append(["badtest", s, rng.choice(BAD_N), rng.choice((None,) + E.METHODS)] if rng.random() < 0.5
                       else ["badtest", s, rng.choice((None, 3, 50)), rng.choice(BAD_M)])
        elif k == "effbad":
            ops.append(["effbad", s, rng.choice(BAD_M[:-1])])
        elif k == "cfg":
            if rng.random() < 0.6:
                ops.append(["cfg", "statistical_test_n_tests", rng.choice((2, 3, 4, 5, 7, 11))])
            elif rng.random() < 0.8:
                ops.append(["cfg", "statistical_test_method", rng.choice(E.METHODS)])
            else:
                ops.append(["badcfg"])
        elif k == "pct" and reports:
            q = rng.choice((50, 5, [2.5, 97.5], [0, 100], 99, 33.3, [10, 20, 90]))
            ops.append(["pct", rng.randrange(reports), q, rng.choice(PMETH)])
        elif k == "ci" and reports:
            ops.append(["ci", rng.randrange(reports), rng.choice((95, 90, 50, 99, 99.9, 1, 0, 100, -5, 150, 0.95)), rng.choice(PMETH)])
        elif k == "keep" and reports:
            ops.append(["keep", rng.randrange(reports)])
        else:
            ops.append([rng.choice(("res", "loc", "calc", "eff")), s])
    for r in range(reports):
        ops.append(["keep", r])
    return {"specs": specs, "ops": ops}


def shrink(plan):
    yield from E.drop_specs(plan)


def num_of(n):
    import numpy as np
    if n == "np5":
        return np.int64(5)
    if n == "np3":
        return np.int32(3)
    return n


class Run:
    def __init__(self, plan, refuse=True):
        self.plan, self.refuse = plan, refuse
        self.out, self.log = [], []
        self.stats = {"reports": 0, "defaults_used": 0, "refused": 0, "percentiles": 0, "intervals": 0, "ties": 0,
                      "zero_deviation": 0, "kept_reports": 0, "ops": {}, "approach": {}}

    def bad(self, cls, msg):
        self.out.append({"cls": cls, "msg": msg})

    def go(self):
        import numpy as np
        import infomeasure as im
        plan = self.plan
        model = {"n": 200, "m": "permutation_test"}
        h = E.History(plan)
        reports = []
        for i, op in enumerate(plan["ops"]):
            if self.out:
                break
            k = op[0]
            self.stats["ops"][k] = self.stats["ops"].get(k, 0) + 1
            if k in ("badtest", "badcfg", "effbad") and not self.refuse:
                continue
            if k == "cfg":
                im.Config.set(op[1], op[2])
                model["n" if op[1].endswith("n_tests") else "m"] = op[2]
                continue
            if k == "badcfg":
                for key, v in (("statistical_test_n_tests", 2.5), ("statistical_test_method", "foo"), ("n_tests", 3)):
                    try:
                        im.Config.set(key, v)
                        self.bad("setting-accepted", f"Config.set({key!r}, {v!r}) was accepted")
                    except (KeyError, TypeError, ValueError):
                        self.stats["refused"] += 1
                continue
            if k in ("new", "res", "loc", "calc", "eff"):
                if not h.possible(op):
                    continue
                if k == "eff" and h.spec_of(op)["m"] not in ("te", "cte"):
                    continue
                got = h.do(op)
                if k != "eff":
                    self.log.append((k, got))
                else:
                    self.log.append((k, got))
                continue
            if k in ("pct", "ci", "keep"):
                if op[1] < len(reports) and reports[op[1]] is not None:
                    self.query(op, *reports[op[1]], np)
                continue
            # ---- tests
            if not h.possible(op):
                if k == "test":
                    reports.append(None)
                continue
            est, spec = h.slots[op[1]], h.spec_of(op)
            where = f"{spec['m']}/{S.canon(spec['a'])}"
            if k == "effbad":
                if spec["m"] not in ("te", "cte"):
                    continue
                try:
                    est.effective_val(op[2])
                    self.bad(f"accepted-eff/{where}", f"effective_val({op[2]!r}) answered")
                except (ValueError, TypeError):
                    self.stats["refused"] += 1
                except Exception as e:
                    self.log.append(("effbad", type(e).__name__))
                continue
            if k == "badtest":
                try:
                    r = est.statistical_test(num_of(op[2]), op[3])
                    self.bad(f"accepted/{where}", f"statistical_test({op[2]!r}, {op[3]!r}) answered with {len(r.test_values)} surrogates")
                except (KeyboardInterrupt, MemoryError):
                    raise
                except Exception as e:
                    self.stats["refused"] += 1
                continue
            n, m = num_of(op[2]), op[3]
            want_n = int(n) if n is not None else model["n"]
            want_m = m if m is not None else model["m"]
            self.stats["defaults_used"] += (n is None) + (m is None)
            try:
                r = est.statistical_test(n, m)
            except (KeyboardInterrupt, MemoryError):
                raise
            except Exception as e:
                reports.append(None)
                self.log.append(("test", type(e).__name__))
                if not isinstance(e, Exception) or not self.refuse:
                    continue
                continue
            rep = S.report(r)
            self.stats["reports"] += 1
            self.stats["approach"][where] = 1
            self.log.append(("test", rep))
            self.judge(where, spec, r, rep, want_n, want_m, est, np)
            reports.append((r, copy.deepcopy(rep), where))
        return self

    def judge(self, where, spec, r, rep, want_n, want_m, est, np):
        tv = [float(x) if not isinstance(x, tuple) else x for x in rep["tv"]]
        if len(tv) != want_n:
            return self.bad(f"count/{where}", f"{len(tv)} surrogates carried, {want_n} asked for")
        if rep["n"] != want_n:
            return self.bad(f"number/{where}", f"reported number {rep['n']}, asked for {want_n}")
        if rep["method"] != want_m:
            return self.bad(f"method/{where}", f"reported method {rep['method']!r}, in force {want_m!r}")
        obs = rep["obs"]
        p = sum(1 for v in tv if v > obs) / len(tv)
        self.stats["ties"] += any(v == obs for v in tv)
        if not abs(p - rep["p"]) <= 1e-12:
            return self.bad(f"p/{where}", f"p-value {rep['p']!r}, {p!r} of the carried values {tv[:6]} lie above {obs!r}")
        own = S.ask(est, ("res",))
        if own[0] == "val" and not S.close(own[1], obs, 1e-12):
            return self.bad(f"observed/{where}", f"observed value {obs!r}, the estimator's global value is {own[1]!r}")
        a = np.asarray(tv, dtype=float)
        with np.errstate(all="ignore"):
            mean, sd = float(a.mean()), float(a.std(ddof=1))
            scale = max(1e-300, float(np.max(np.abs(a)))) if len(a) else 1
            t = (obs - mean) / sd if sd > 0 else math.nan
        if sd == 0:
            self.stats["zero_deviation"] += 1
        if not S.close(mean, rep["mean"], 1e-9):
            return self.bad(f"mean/{where}", f"null mean {rep['mean']!r}, the carried values have {mean!r}")
        if not S.close(sd, rep["std"], 1e-9):
            return self.bad(f"std/{where}", f"null deviation {rep['std']!r}, the carried values have {sd!r}")
        # rounding noise in place of a deviation: either answer stands
        if sd > 1e-12 * scale or sd == 0 or sd != sd:
            if not S.close(t, rep["t"], 1e-7):
                return self.bad(f"t/{where}", f"t-score {rep['t']!r}, expected {t!r} (observed {obs!r}, mean {mean!r}, deviation {sd!r})")

    def query(self, op, r, snap, where, np):
        tv = np.asarray(snap["tv"], dtype=float)
        if op[0] == "keep":
            self.stats["kept_reports"] += 1
            if repr(S.report(r)) != repr(snap):
                self.bad(f"changed/{where}", f"an earlier report now shows {str(S.report(r))[:200]}, it showed {str(snap)[:200]}")
            return
        if op[0] == "pct":
            self.stats["percentiles"] += 1
            got = S.ask_any(lambda: r.percentile(op[2], method=op[3]))
            with np.errstate(all="ignore"):
                exp = S.ask_any(lambda: np.percentile(tv, op[2], method=op[3]))
            if not S.close(got, exp, 1e-12):
                self.bad(f"percentile/{where}", f"percentile({op[2]}, {op[3]}) = {got}, of the carried values {exp}")
            self.log.append(("pct", got))
            return
        self.stats["intervals"] += 1
        lv = op[2]
        got = S.ask_any(lambda: r.confidence_interval(lv, method=op[3]))
        if not 0 < lv < 100:
            self.stats["refused"] += 1
            if got[0] != "exc":
                self.bad(f"interval-accepted/{where}", f"confidence_interval({lv}) = {got}")
            return
        y = (100 - lv) / 2
        with np.errstate(all="ignore"):
            exp = S.ask_any(lambda: np.percentile(tv, [y, 100 - y], method=op[3]))
        if not S.close(got, exp, 1e-12):
            self.bad(f"interval/{where}", f"confidence_interval({lv}, {op[3]}) = {got}, of the carried values {exp}")
        self.log.append(("ci", got))


def _plain(plan):
    r = Run(plan, refuse=False).go()
    return r.log


def execute(plan):
    st, undisturbed = zygote.fork_call(_plain, 60, plan)
    if st != "ok":
        raise RuntimeError(f"undisturbed history {st}: {undisturbed}")
    r = Run(plan).go()
    out = r.out
    if not out:
        seeded = all("seed" in s for s in plan["specs"])
        a = [x for x in r.log]
        if seeded and repr(a) != repr(undisturbed):
            k = next((i for i, (x, y) in enumerate(zip(a, undisturbed)) if repr(x) != repr(y)), None)
            if k is None or a[k][0] != "effbad":
                s = plan["specs"][0]
                out.append({"cls": f"refusal-effect/{s['m']}/{S.canon(s['a'])}",
                            "msg": f"after refused requests a seeded call answers {str(a[k] if k is not None else len(a))[:200]}, "
                                   f"without them {str(undisturbed[k] if k is not None else len(undisturbed))[:200]}"})
        r.stats["refusal_histories"] = int(seeded and any(o[0] in ("badtest", "badcfg", "effbad") for o in plan["ops"]))
    r.stats["approach"] = list(r.stats["approach"])
    sg = hashlib.sha256(repr(([o[0:1] + o[2:] for o in plan["ops"]], [(s["m"], s["a"], sorted(map(str, s["kw"].items()))) for s in plan["specs"]])).encode()).hexdigest()[:16]
    return {"violations": out, "stats": r.stats, "sig": sg, "nontrivial": r.stats["reports"] > 0, "log": r.log,
            "sample": {"specs": [f"{s['m']}/{s['a']}" for s in plan["specs"]], "ops": [o[0] for o in plan["ops"]]}}
