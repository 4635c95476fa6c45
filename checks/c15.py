"""C15: a request that cannot be answered is refused every time and leaves no trace."""
import copy
import hashlib
import random
from sim import specs as S, engine as E, zygote

PROP = "C15"
LEVEL = "exploration"
RULE = ("one evaluation = one simulated process that answers a history of good requests mixed with requests that cannot be "
        "answered (bad data, options, names, numbers), each outcome compared with that of a pristine process asked only "
        "that question, and the good requests compared bit for bit with the same history without the bad ones.  Two "
        "evaluations are distinct when their histories of requests and faults in them differ")
TIERS = {"quick": {"runs": 3000, "cap_s": 100, "timeout_s": 120, "recheck": 16, "min_s": 50},
         "thorough": {"runs": 120000, "cap_s": 3400, "timeout_s": 200, "recheck": 200, "min_s": 120}}
REAL = ["all of infomeasure", "numpy (its random generators included)", "scipy", "sparse"]
STUB = ["OS entropy", "clock", "cpu_count", "multiprocessing.Pool", "numba JIT disabled"]
ASSUMPTIONS = ["refusals are compared by exception type, not by wording",
               "what a request of bad form is answered with in a pristine process is taken as the right outcome (whether it "
               "should be refused at all is a property of one call's input, C26)"]

KW = [("k", 0), ("k", -1), ("k", 10 ** 4), ("k", "3"), ("k", 2.5), ("noise_level", "x"), ("noise_level", -1.0),
      ("bandwidth", 0), ("bandwidth", -1), ("bandwidth", "a"), ("bandwidth", None), ("kernel", "foo"), ("kernel", 3),
      ("embedding_dim", 0), ("embedding_dim", 1), ("embedding_dim", 70), ("embedding_dim", 2.5), ("embedding_dim", "2"),
      ("alpha", -1), ("alpha", "foo"), ("alpha", None), ("alpha", 0), ("q", "foo"), ("q", None), ("q", -1), ("q", 0),
      ("K", 0), ("K", -3), ("K", 1), ("K", "5"), ("base", "foo"), ("base", -1), ("base", 0), ("base", 1), ("base", [2]),
      ("foo", 1), ("prop_time", 10 ** 4), ("prop_time", "1"), ("prop_time", 1.5), ("src_hist_len", 0),
      ("src_hist_len", -1), ("src_hist_len", 60), ("dest_hist_len", 60), ("dest_hist_len", "a"), ("cond_hist_len", 60),
      ("step_size", 0), ("step_size", -1), ("step_size", 1.5), ("step_size", 50), ("offset", 1000), ("offset", "a"),
      ("offset", -1000), ("normalize", True), ("seed", -1), ("seed", "x"), ("seed", 1.5), ("ksg_id", 5), ("ksg_id", "1"),
      ("minkowski_p", 0), ("minkowski_p", "2"), ("workers", 0), ("workers", -3), ("workers", "2"), ("cond", None)]
OWN = {"metric": ("k", "noise_level", "ksg_id", "minkowski_p"), "renyi": ("k", "alpha", "noise_level"),
       "tsallis": ("k", "q", "noise_level"), "kernel": ("bandwidth", "kernel", "workers"), "ordinal": ("embedding_dim", "step_size"),
       "bayes": ("alpha", "K"), "nsb": ("K",), "ansb": ("K", "undersampled")}
HOWS = ("short", "short", "short", "empty", "one", "three", "scalar", "none", "3d", "nan", "inf", "ragged", "object", "dict", "names", "const")
NAMES = ("foo", "", None, 3, "Discrete ", "entropy2")
BAD_N = (0, -1, 1, 2.5, "3", 5.0)
BAD_M = ("foo", "", 3, "Bootstrap")
BAD_SET = (("base", None), ("base", "2"), ("statistical_test_n_tests", 2.5), ("statistical_test_method", "foo"), ("Base", 2), (None, 2))


def spoil(rng, spec):
    """A request that is (mostly) wrong in one respect."""
    s = copy.deepcopy(spec)
    a = S.canon(s["a"])
    if S.is_jittered(s):
        s["kw"]["noise_level"] = 0
    r = rng.random()
    if r < 0.42:
        own = [x for x in KW if x[0] in OWN.get(a, ())]
        mine = [x for x in KW if x[0] in {"h": (), "mi": ("offset", "normalize"), "cmi": ("offset", "normalize", "cond"),
                                          "te": ("prop_time", "src_hist_len", "dest_hist_len", "step_size"),
                                          "cte": ("src_hist_len", "dest_hist_len", "cond_hist_len", "step_size", "prop_time", "cond")}[s["m"]]
                + (("seed",) if s["m"] != "h" else ()) + ("base", "foo")]
        k, v = rng.choice(own if own and rng.random() < 0.45 else mine if rng.random() < 0.75 else KW)
        s["kw"][k] = v
        if k == "seed":
            s.pop("seed", None)
        s["spoilt"] = f"{k}={v!r}"
    elif r < 0.5 and s["kw"]:
        k = rng.choice(sorted(s["kw"]))
        s["kw"].pop(k)
        s["spoilt"] = f"no {k}"
    elif r < 0.86:
        n = len(s["data"]) + ("cond" in s)
        i = rng.randrange(n)
        s["bad"] = [i, rng.choice(HOWS)]
        if s["via"] == "counts":
            s["via"] = "class"
        s["spoilt"] = f"var {i} {s['bad'][1]}"
    elif r < 0.91:
        s["a"] = rng.choice(NAMES)
        s["spoilt"] = f"approach {s['a']!r}"
    elif r < 0.94:
        s["mname"], s["via"] = rng.choice(NAMES), "estimator"
        s["spoilt"] = f"measure {s['mname']!r}"
    elif r < 0.97 and len(s["data"]) > 1:
        s["data"].pop()
        s["spoilt"] = "a variable missing"
    else:
        s["data"] = s["data"] + [copy.deepcopy(s["data"][0])] * rng.choice((1, 2))
        s["spoilt"] = "more variables"
    return s


class Inputs(S.Inputs):
    def __init__(self, spec):
        super().__init__(spec)
        if spec.get("bad"):
            i, how = spec["bad"]
            if i < len(self.data):
                self.data[i] = ruin(self.data[i], how)
            else:
                self.cond = ruin(self.cond, how)

    def kwargs(self):
        kw = super().kwargs()
        if "cond" in self.spec["kw"]:
            kw["cond"] = self.spec["kw"]["cond"]
        return kw


def ruin(x, how):
    import numpy as np
    a = np.asarray(x)
    if how == "short":
        return a[:-2]
    if how == "empty":
        return a[:0]
    if how == "one":
        return a[:1]
    if how == "three":
        return a[:3]
    if how == "scalar":
        return 5
    if how == "none":
        return None
    if how == "3d":
        return np.zeros((len(a), 2, 2), dtype=a.dtype)
    if how in ("nan", "inf"):
        b = a.astype(float) if a.dtype.kind in "iuf" else a.copy()
        b[len(b) // 2] = float(how)
        return b
    if how == "ragged":
        return [[1, 2], [3]] + list(range(len(a) - 2))
    if how == "object":
        b = a.astype(object)
        b[0] = {}
        return b
    if how == "dict":
        return {i: v for i, v in enumerate(a.tolist())}
    if how == "names":
        return np.array(["n%d" % (i % 3) for i in range(len(a))])
    return np.zeros_like(a)


def gen(rng, tier, i):
    m = rng.choice(S.MEASURES) if rng.random() < 0.7 else None
    a = S.APPROACHES[i % len(S.APPROACHES)] if rng.random() < 0.75 else None
    specs = []
    for _ in range(rng.choice((1, 2, 2))):
        s = S.sibling(rng, specs[0]) if specs and rng.random() < 0.6 else \
            S.gen_spec(rng, measure=m, approach=a, n=rng.choice((9, 12, 16, None)), seeded=rng.random() < 0.9 or None)
        if s["m"] == "h" and S.is_jittered(s) and rng.random() < 0.7:
            s["kw"]["noise_level"] = 0
        specs.append(s)
    good = len(specs)
    for _ in range(rng.choice((1, 2, 3))):
        specs.append(spoil(rng, specs[rng.randrange(good)]))
    ops = []
    for j in range(good):
        if rng.random() < 0.6:
            ops.append(["new", j, j])
    for _ in range(rng.choice((6, 9, 14))):
        r = rng.random()
        if r < 0.28:
            b = rng.randrange(good, len(specs))
            k = rng.choice(("new", "new", "new", "func", "div"))
            if k == "div":
                ok = [n for n, l in (("jsd", E.JSD_OK), ("kld", E.KLD_OK)) if S.canon(specs[b]["a"]) in l] \
                    if specs[b]["m"] == "h" and len(specs[b]["data"]) == 2 and isinstance(specs[b]["a"], str) else []
                if ok:
                    ops.append([rng.choice(ok), b])
                continue
            ops += [["func", b]] * rng.choice((1, 1, 2)) if k == "func" else [["new", b, b]] * rng.choice((1, 1, 2))
            for _ in range(rng.choice((0, 1, 2, 3))):
                ops.append(rng.choice((["res", b], ["res", b], ["loc", b], ["calc", b])))
                if specs[b]["m"] != "h" and rng.random() < 0.3:
                    ops.append(["test", b, 3, rng.choice(E.METHODS)])
        elif r < 0.42:
            j = rng.randrange(len(specs))
            ops.append(rng.choice((["badtest", j, rng.choice(BAD_N), rng.choice(E.METHODS)], ["badtest", j, 3, rng.choice(BAD_M)],
                                   ["badeff", j, rng.choice(BAD_M)], ["badset", rng.randrange(len(BAD_SET))], ["badattr", j])))
        else:
            j = rng.randrange(good)
            k = rng.choice(("new", "res", "res", "loc", "calc", "test", "test", "eff", "func", "div"))
            sp = specs[j]
            if k == "test" and sp["m"] != "h":
                ops.append(["test", j, rng.choice((None, 2, 4)) if rng.random() < 0.2 else rng.choice((2, 4)), rng.choice(E.METHODS + (None,))])
            elif k == "eff" and sp["m"] in ("te", "cte"):
                ops.append(["eff", j, rng.choice(E.METHODS)])
            elif k == "func":
                ops.append(["func", j])
            elif k == "div":
                ok = [n for n, l in (("jsd", E.JSD_OK), ("kld", E.KLD_OK)) if S.canon(sp["a"]) in l] \
                    if sp["m"] == "h" and len(sp["data"]) == 2 and not sp.get("joint") else []
                if ok:
                    ops.append([rng.choice(ok), j])
            elif k == "new":
                ops.append(["new", j, j])
            else:
                ops.append([k if k in ("res", "loc", "calc") else "res", j])
    return {"specs": specs, "good": good, "ops": ops}


def shrink(plan):
    for i in range(plan["good"]):
        for t in S.shrink_spec(plan["specs"][i]):
            p = copy.deepcopy(plan)
            p["specs"][i] = t
            yield p


class History(E.History):
    def inputs_of(self, i):
        if i not in self.inputs:
            self.inputs[i] = Inputs(self.specs[i])
        return self.inputs[i]

    def possible(self, op):
        return op[1] in self.slots if op[0] in ("badtest", "badeff", "badattr") else super().possible(op)

    def do(self, op):
        try:
            if op[0] in ("badtest", "badeff", "badattr", "badset"):
                return bad_question(self.slots.get(op[1]), op)
            return super().do(op)
        except MemoryError:
            if op[0] == "new":
                self.slots.pop(op[1], None)
            return ("exc", "MemoryError")


def bad_question(est, op):
    import infomeasure as im
    try:
        if op[0] == "badtest":
            return ("ok", len(est.statistical_test(op[2], op[3]).test_values))
        if op[0] == "badeff":
            est.effective_val(op[2])
        elif op[0] == "badattr":
            est.no_such_answer
        else:
            im.Config.set(*BAD_SET[op[1]])
        return ("ok",)
    except Exception as e:
        return ("exc", type(e).__name__)


def alone(spec, q):
    """The outcome of one question, everything else unasked."""
    h = History({"specs": [spec]})
    if q[0] in ("func", "jsd", "kld"):
        return h.do([q[0], 0])
    if q[0] == "badset":
        return h.do(list(q))
    r = h.do(["new", 0, 0])
    if r[0] == "exc" or q[0] == "new":
        return r
    return h.do([q[0], 0, *q[1:]])


def _without(plan):
    """The history of the good requests only."""
    h = History(plan)
    out = {}
    for i, op in enumerate(plan["ops"]):
        if op[0].startswith("bad") or (op[2] if op[0] == "new" else op[1]) >= plan["good"] or not h.possible(op):
            continue
        out[i] = h.do(op)
    return out, settings()


def settings():
    import infomeasure as im
    return [repr(im.Config.get(k)) for k in ("base", "statistical_test_method", "statistical_test_n_tests")]


def fixed(spec, op):
    """Must this outcome be bit-for-bit the same with and without the bad requests?"""
    if spec["m"] == "h":
        return not (S.canon(spec["a"]) in ("metric", "renyi", "tsallis") and spec["kw"].get("noise_level", 1) != 0)
    return "seed" in spec


def execute(plan):
    out, log = [], []
    stats = {"ops": {}, "refused": 0, "answered_though_spoilt": 0, "judged": 0, "compared_without": 0, "spoilt": {}, "approach": {}}
    memo = {}
    h = History(plan)
    want = {}
    slot = {}
    for i, op in enumerate(plan["ops"]):
        if op[0] == "new":
            slot[op[1]] = op[2]
            si, q = op[2], ("new",)
        elif op[0] in ("func", "jsd", "kld"):
            si, q = op[1], (op[0],)
        elif op[0] == "badset":
            si, q = 0, tuple(op)
        else:
            si = slot.get(op[1])
            q = (op[0], *op[2:])
        if si is None:
            continue
        key = repr((si, q))
        if key not in memo:
            st, r = zygote.fork_call(alone, 60, plan["specs"][si], q)
            if st != "ok":
                raise RuntimeError(f"{st}: {r} for {plan['specs'][si]} {q}")
            memo[key] = r
        want[i] = (si, memo[key])
    st, r = zygote.fork_call(_without, 100, plan)
    if st != "ok":
        raise RuntimeError(f"{st}: {r}")
    clean, conf = r
    for i, op in enumerate(plan["ops"]):
        if not h.possible(op) or i not in want:
            continue
        si, exp = want[i]
        spec = plan["specs"][si]
        got = h.do(op)
        log.append((op[0], got))
        stats["ops"][op[0]] = stats["ops"].get(op[0], 0) + 1
        spoilt = op[0].startswith("bad") or si >= plan["good"]
        where = f"{op[0]}/{spec['m']}/{S.canon(spec['a']) if isinstance(spec['a'], str) else 'name'}"
        stats["approach"][where] = 1
        if spoilt:
            what = spec.get("spoilt") if si >= plan["good"] else str(op[2:])
            stats["spoilt"][str(what).split("=")[0]] = 1
            stats["refused" if got[0] == "exc" else "answered_though_spoilt"] += 1
        stats["judged"] += 1
        same = got[0] == exp[0]
        if same and (got[0] == "exc" or not S.is_jittered(spec)) and got[0] not in ("test", "eff"):
            same = S.close(got, exp, 1e-9)
        if not same and not (spec["m"] == "h" and S.is_jittered(spec) and got[0] == exp[0]):
            out.append({"cls": f"{'refusal' if exp[0] == 'exc' else 'answer'}/{where}",
                        "msg": f"request {i} {op} ({spec.get('spoilt', 'good')}; {spec['m']}/{spec['a']} {spec['kw']}): {short(got)}, "
                               f"alone in a fresh process: {short(exp)}"})
            break
        if i in clean and fixed(spec, op):
            stats["compared_without"] += 1
            if repr(got) != repr(clean[i]):
                out.append({"cls": f"trace/{where}",
                            "msg": f"request {i} {op} ({spec['m']}/{spec['a']} {spec['kw']}): {short(got)}, without the refused requests "
                                   f"before it: {short(clean[i])}"})
                break
    if not out and settings() != conf:
        out.append({"cls": "settings", "msg": f"settings {settings()} after the history, {conf} without the refused requests"})
    stats["approach"] = sorted(stats["approach"])
    stats["spoilt"] = sorted(stats["spoilt"])
    sig = hashlib.sha256(repr([E.shape(plan), [s.get("spoilt") for s in plan["specs"]],
                               [o for o in plan["ops"] if o[0].startswith("bad")]]).encode()).hexdigest()[:16] if True else ""
    return {"violations": out, "stats": stats, "sig": sig, "nontrivial": stats["refused"] > 0 and stats["judged"] > 2,
            "log": log, "sample": {"history": [" ".join(map(str, o)) for o in plan["ops"]][:30],
                                   "spoilt": [s.get("spoilt") for s in plan["specs"]]}}


def short(o):
    s = repr(o)
    return s if len(s) < 200 else s[:197] + "..."
