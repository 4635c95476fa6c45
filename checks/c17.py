"""C17: the noise asked for is what is added, and nothing more."""
import copy
import hashlib
import itertools
import random
from sim import specs as S, engine as E, zygote
from sim.seams import W

PROP = "C17"
LEVEL = "exploration"
RULE = ("one evaluation = one simulated process that runs a history of calculations and significance tests of estimators that "
        "add noise, with the random numbers they draw recorded and changed (magnified, zero, constant, outliers, coarse), each "
        "answer compared with the noiseless estimate of the data plus the recorded noise.  Two evaluations are distinct when "
        "history or random numbers differ")
TIERS = {"quick": {"runs": 9000, "cap_s": 80, "timeout_s": 120, "recheck": 16, "min_s": 40},
         "thorough": {"runs": 150000, "cap_s": 3400, "timeout_s": 200, "recheck": 200, "min_s": 120}}
ZYGOTE = ("record_rng",)
REAL = ["all of infomeasure", "numpy", "scipy"]
STUB = ["normal variates of numpy's generators (recorded, changed as planned)", "OS entropy", "clock", "cpu_count",
        "multiprocessing.Pool"]
ASSUMPTIONS = ["the noiseless estimate (noise_level=0) of given numbers is taken as right; its formula is C20's",
               "the order in which the variables get their noise is left open"]

WEATHER = ("plain", "plain", "gain", "gain", "gain", "zero", "constant", "outlier", "coarse", "sign")


def weather(kind, arg):
    """What becomes of standard normal variates."""
    import numpy as np

    def change(z, no):
        if kind == "gain":
            return z * arg
        if kind == "zero":
            return z * 0.0
        if kind == "constant":
            return z * 0.0 + 0.5
        if kind == "outlier":
            out = np.array(z)
            flat = out.reshape(-1)
            if flat.size:
                flat[(7 * no + 3) % flat.size] *= arg
            return out
        if kind == "coarse":
            return np.round(z * 2) / 2 * arg
        if kind == "sign":
            return np.abs(z) * arg
        return z
    return change


def gen(rng, tier, i):
    specs = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        for _ in range(50):
            a = rng.choice(("metric", "ksg", "metric", "renyi", "tsallis")) if i % 3 else "metric"
            m = S.MEASURES[(i + len(specs)) % 5]
            if m == "h" or (m not in ("mi", "cmi", "te", "cte") and a == "ksg"):
                a = "metric"
            s = S.sibling(rng, specs[0]) if specs and rng.random() < 0.3 else \
                S.gen_spec(rng, measure=m, approach=a, long=0.02, seeded=True)
            if not (S.canon(s["a"]) in ("metric", "renyi", "tsallis") and (s["m"] != "h" or S.canon(s["a"]) == "metric")):
                continue
            r = rng.random()
            if r < 0.2:
                s["kw"].pop("noise_level", None)             # the default
            elif r < 0.28:
                s["kw"]["noise_level"] = 0
            else:
                s["kw"]["noise_level"] = rng.choice((1e-12, 1e-10, 1e-8, 1e-6, 1e-3, 0.05, 0.3, 1, 2.0))
            specs.append(s)
            break
    types = [rng.choice(("", "", "", "float32", "float64", "int64", "bool_")) for _ in specs]
    ops = E.gen_ops(rng, specs, rng.choice((3, 5, 7)), weights={"res": 5, "loc": 3, "calc": 5, "test": 2, "eff": 1.5, "new": 2,
                                                                 "func": 3}, big_tests=False)
    kind = rng.choice(WEATHER)
    lev = [s["kw"].get("noise_level") or 1e-8 for s in specs]
    arg = rng.choice((0.01, 0.1, 0.5, 1, 3)) / rng.choice(lev) if kind in ("gain", "coarse", "sign") else rng.choice((30.0, 1e4, 1e8))
    return {"specs": specs, "ops": ops, "types": types, "weather": [kind, arg]}


def shrink(plan):
    if plan["weather"][0] not in ("plain", "gain"):
        yield dict(copy.deepcopy(plan), weather=["plain", 1])
    yield from E.drop_specs(plan)


def typed(spec, name):
    """The request with the noise level as another kind of number."""
    import numpy as np
    spec = copy.deepcopy(spec)
    nl = spec["kw"].get("noise_level")
    if name and nl is not None and (name.startswith("float") or float(nl) in ((0, 1) if name == "bool_" else (0, 1, 2))):
        spec["kw"]["noise_level"] = getattr(np, name)(nl)
    return spec


def default_level(spec):
    """The noise level an estimator of this kind uses when none is given, from its signature."""
    import infomeasure as im
    import inspect
    cls = im.get_estimator_class(measure=spec["m"], approach=spec["a"])
    for c in cls.__mro__:
        p = inspect.signature(c.__init__).parameters.get("noise_level")
        if p is not None:
            return p.default
    return None


class Plain:
    """A request with its data cut to what enters the calculation, as plain arrays of floats."""

    def __init__(self, spec):
        import numpy as np
        self.spec = copy.deepcopy(spec)
        kw = self.spec["kw"]
        self.level = kw["noise_level"] if "noise_level" in kw else default_level(spec)
        self.spec["kw"]["noise_level"] = 0
        self.spec["via"] = "class" if spec.get("via") == "class" else "estimator"
        inp = S.Inputs(spec)
        v = [np.array(x, dtype=float) for x in inp.data]
        c = None if inp.cond is None else np.array(inp.cond, dtype=float)
        if spec["m"] == "mi" and kw.get("offset"):
            o = kw.pop("offset")
            v = [v[0][:-o], v[1][o:]] if o > 0 else [v[0][-o:], v[1][:o]]
        if spec["m"] in ("te", "cte"):
            p = kw.pop("prop_time", None) or kw.pop("offset", None)
            p = p * kw.get("step_size", 1) if p else 0
            kw.pop("offset", None)
            if p > 0:
                v = [v[0][:-p], v[1][p:]]
            elif p < 0:
                v = [v[0][-p:], v[1][:p]]
        if kw.pop("normalize", False):
            v = [(x - x.min()) / (x.max() - x.min()) for x in v]
            c = None if c is None else (c - c.min()) / (c.max() - c.min())
        self.vars = v + ([] if c is None else [c])
        self.size = sum(x.size for x in self.vars)

    def ask(self, vs, q):
        inp = S.Inputs(self.spec)
        if inp.cond is not None:
            inp.data, inp.cond = list(vs[:-1]), vs[-1]
        else:
            inp.data = list(vs)
        try:
            est = S.construct(self.spec, inp)
        except Exception as e:
            return ("exc", type(e).__name__)
        return S.ask(est, q)


def layouts(vs):
    """The ways a stream of variates can be dealt out to the variables: in every order, one variable
    after the other or observation by observation."""
    n = len(vs)
    for perm in itertools.permutations(range(n)):
        for cut in itertools.product((True, False), repeat=n - 1):
            groups, cur = [], [perm[0]]
            for x, c in zip(perm[1:], cut):
                if c:
                    groups.append(cur)
                    cur = [x]
                else:
                    cur.append(x)
            yield groups + [cur]


def deal(vs, stream, groups):
    import numpy as np
    out = [None] * len(vs)
    pos = 0
    for g in groups:
        if len(g) == 1:
            x = vs[g[0]]
            out[g[0]] = stream[pos:pos + x.size].reshape(x.shape)
            pos += x.size
        else:
            if len({len(vs[i]) for i in g}) > 1:
                return None
            widths = [vs[i].size // len(vs[i]) for i in g]
            n = len(vs[g[0]])
            block = stream[pos:pos + n * sum(widths)].reshape(n, sum(widths))
            pos += block.size
            at = 0
            for i, w in zip(g, widths):
                out[i] = block[:, at:at + w].reshape(vs[i].shape)
                at += w
    return out


def execute(plan):
    import numpy as np
    out, log = [], []
    stats = {"ops": {}, "approach": {}, "weather": {}, "judged": 0, "draws": 0, "noiseless": 0, "tests": 0, "layout": {}, "unjudged": 0}
    specs = [typed(s, plan["types"][i] if i < len(plan.get("types", ())) else "") for i, s in enumerate(plan["specs"])]
    W.draws, W.weather = None, weather(*plan["weather"])
    stats["weather"][plan["weather"][0]] = 1
    plains = []
    for s in specs:
        p = Plain(s)
        # where cutting by hand is not what the library does, the request is not judged
        a, b = E.fresh(dict(copy.deepcopy(s), kw=dict(s["kw"], noise_level=0)), ("res",)), p.ask(p.vars, ("res",))
        p.sound = a[0] == "val" and S.close(a, b, 1e-9)
        plains.append(p)
    slots = {}

    def fits(p, got, stream, q, why):
        """Is got the noiseless estimate of the data plus this noise?"""
        best = None
        first = stats["layout"].get(p.spec["m"] + p.spec["a"])
        order = ([first] if first else []) + list(layouts(p.vars))
        for g in order:
            noise = deal(p.vars, stream, g)
            if noise is None:
                continue
            exp = p.ask([x + p.level * z for x, z in zip(p.vars, noise)], q)
            best = best or exp
            if S.close(got, exp, 1e-9):
                stats["layout"][p.spec["m"] + p.spec["a"]] = g
                return None
        return f"{short(got)}, the noiseless estimate of the data with the noise drawn is {short(best)}"

    for i, op in enumerate(plan["ops"]):
        if op[0] == "new":
            try:
                slots[op[1]] = [S.construct(specs[op[2]]), op[2], None]
            except Exception as e:
                slots.pop(op[1], None)
                log.append(("new", type(e).__name__))
            continue
        if op[0] == "func":
            si, est, stream = op[1], None, None
        else:
            if op[1] not in slots:
                continue
            est, si, stream = slots[op[1]]
        spec, p = specs[si], plains[si]
        if op[0] in ("test", "eff") and (spec["m"] == "h" or len(spec["data"]) > 2):
            continue
        W.draws = []
        if op[0] == "func":
            got = E.func_value(spec)
            q = ("res",)
        else:
            q = E.question(op)
            got = S.ask(est, q)
        drawn = [z for how, z in W.draws]
        W.draws = None
        log.append((op[0], si, got, len(drawn)))
        if not p.sound:
            stats["unjudged"] += 1
            continue
        where = f"{op[0]}/{spec['m']}/{S.canon(spec['a'])}"
        stats["approach"][where] = 1
        stats["ops"][op[0]] = stats["ops"].get(op[0], 0) + 1
        n = sum(z.size for z in drawn)
        stats["draws"] += n
        if got[0] == "exc":
            # local values that there are not, or a test that is refused
            noiseless = p.ask(p.vars, q)
            if noiseless[0] == "exc":
                if stream is None and n == p.size and est is not None and op[0] == "loc":
                    slots[op[1]][2] = np.concatenate([z.reshape(-1) for z in drawn])
                elif n and stream is None and est is not None:
                    slots.pop(op[1], None)
                continue
            if plan["weather"][0] in ("plain", "gain") and op[0] != "test" and op[0] != "eff":
                out.append({"cls": f"refused/{where}", "msg": f"op {i} {op}: {got[1]} with noise {p.level}, {short(noiseless)} without; "
                                                              f"{spec['kw']} {plan['weather']}"})
                break
            slots.pop(op[1], None) if op[0] != "func" else None
            continue
        stats["judged"] += 1
        per = p.size if p.level else 0
        fresh = op[0] in ("calc", "func") or stream is None
        runs = 1 if fresh else 0
        if op[0] in ("test", "eff"):
            stats["tests"] += 1
            runs += op[2] if op[0] == "test" else 1
        if n != runs * per:
            out.append({"cls": f"draws/{where}", "msg": f"op {i} {op}: {n} normal variates drawn, expected {runs} x {per} (noise level "
                                                        f"{p.level}, shapes {[x.shape for x in p.vars]}); {spec['kw']}"})
            break
        flat = np.concatenate([z.reshape(-1) for z in drawn]) if drawn else np.zeros(0)
        if op[0] in ("test", "eff"):
            if fresh:
                # the observed value may have been calculated before or after the surrogates
                v = got[1]["obs"] if op[0] == "test" else None
                ans = S.ask(est, ("res",))
                if v is not None and not S.close(("val", v), ans, 1e-12):
                    out.append({"cls": f"observed/{where}", "msg": f"op {i} {op}: observed {v}, result() {ans}"})
                    break
                maybe = (flat[:per], flat[len(flat) - per:]) if per else (np.zeros(p.size),)
                whys = [fits(p, ans, st, ("res",), "") for st in maybe]
                why = None if None in whys else whys[0]
                slots[op[1]][2] = [st for st, w in zip(maybe, whys) if w is None]
                if why:
                    out.append({"cls": f"value/{where}", "msg": f"op {i} {op}: observed value {why}; {spec['kw']} {plan['weather']}"})
                    break
            continue
        if fresh:
            stream = flat if per else np.zeros(p.size)
            if not per:
                stats["noiseless"] += 1
        if est is not None:
            slots[op[1]][2] = stream
        # (several streams where the value alone does not say which of them the answer was made with)
        whys = [fits(p, got, st, q if q[0] != "calc" else ("res",), "") for st in (stream if isinstance(stream, list) else [stream])]
        why = None if None in whys else whys[0]
        if why:
            out.append({"cls": f"value/{where}", "msg": f"op {i} {op}: {why}; noise level {p.level}, {spec['kw']} {plan['weather']}"})
            break
    W.draws = None
    stats["layout"] = {}
    stats["approach"] = sorted(stats["approach"])
    sig = hashlib.sha256(repr([E.shape(plan), plan["weather"]]).encode()).hexdigest()[:16]
    return {"violations": out, "stats": stats, "sig": sig, "nontrivial": stats["judged"] > 0 and stats["draws"] > 0,
            "log": log, "sample": {"history": E.shape(plan)[:300], "weather": plan["weather"]}}


def short(o):
    s = str(o)
    return s if len(s) < 140 else s[:140] + "..."
