"""C08: the caller's data is never modified."""
import copy
import hashlib
import random
from sim import specs as S, engine as E, zygote, faults
from sim.seams import W

PROP = "C08"
LEVEL = "exploration"
RULE = ("one evaluation = one simulated process: a random history of calls on arrays the caller holds (plain, read-only, "
        "strided, reversed, windows of larger buffers, Fortran-ordered, lists), the bytes of every whole buffer compared "
        "at each call library code makes into numpy/scipy/sparse, after each call and after calls aborted at chosen "
        "points; answers compared with those for plain arrays; two evaluations are distinct when history, containers, "
        "measure, approach or options differ")
TIERS = {"quick": {"runs": 4500, "cap_s": 110, "timeout_s": 150, "recheck": 16, "min_s": 40},
         "thorough": {"runs": 80000, "cap_s": 3400, "timeout_s": 300, "recheck": 200, "min_s": 120}}
REAL = ["all of infomeasure", "numpy", "scipy", "sparse"]
STUB = ["failing callees (the injected exception replaces the call)", "OS entropy", "clock", "cpu_count",
        "multiprocessing.Pool", "numba JIT disabled"]
ASSUMPTIONS = ["a write that is undone before library code next calls numpy, scipy or sparse is not seen"]
CONTAINERS = ("array", "array", "ro", "strided", "view", "neg", "rostrided", "list", "fortran")


def gen(rng, tier, i):
    m = rng.choices(S.MEASURES, (4, 5, 3, 5, 3))[0]
    a = S.APPROACHES[i % len(S.APPROACHES)] if rng.random() < 0.7 else rng.choice(S.APPROACHES)
    specs = []
    for _ in range(rng.choice((1, 1, 2))):
        s = S.gen_spec(rng, measure=m if not specs else None, approach=a, strings=0.05, long=0.08,
                       n=rng.choice((None, None, rng.randrange(8, 14))))
        same = rng.random() < 0.35
        c0 = rng.choice(CONTAINERS)
        for d in s["data"] + ([s["cond"]] if "cond" in s else []):
            d["c"] = c0 if same else rng.choice(CONTAINERS)
            if d["c"] == "list" and (d["dt"] == "float32" or d is s.get("cond") and isinstance(d["v"][0], list)):
                d["c"] = "ro"          # a nested list is read differently; only arrays must agree
        s["alias"] = rng.choice((None, None, None, "same"))     # the same array passed twice
        specs.append(s)
    w = {"res": 4, "loc": 5, "calc": 3, "test": 5, "eff": 4, "new": 1, "func": 4, "div": 4, "attr": 1, "glob": 1}
    ops = E.gen_ops(rng, specs, rng.choice((3, 5, 7)), slots=2, weights=w, big_tests=False)
    abort = None
    if rng.random() < 0.5:
        abort = {"op": E.pick_working(rng, ops), "points": 5 if tier == "quick" else 25, "salt": rng.randrange(1 << 20)}
    return {"specs": specs, "ops": ops, "abort": abort, "grain": "line" if rng.random() < 0.35 else "call"}


def shrink(plan):
    if plan.get("abort"):
        yield dict(copy.deepcopy(plan), abort=None)
    for i, s in enumerate(plan["specs"]):
        for j, d in enumerate(s["data"] + ([s["cond"]] if "cond" in s else [])):
            if d["c"] != "array":
                p = copy.deepcopy(plan)
                t = p["specs"][i]
                (t["data"] + ([t["cond"]] if "cond" in t else []))[j]["c"] = "array"
                yield p
    yield from E.drop_specs(plan)


class Watch:
    """Everything the caller can see of what it passed in."""

    def __init__(self, history):
        import numpy as np
        self.np = np
        self.h = history
        self.items = []
        self.seen = set()

    def refresh(self):
        for i, inp in list(self.h.inputs.items()):
            if i in self.seen:
                continue
            self.seen.add(i)
            objs = list(inp.data) + ([inp.cond] if inp.cond is not None else []) + list(inp.counts)
            for j, o in enumerate(objs):
                self.items.append((i, j, o, self.look(o)))

    def roots(self):
        for i, j, o, _ in self.items:
            if isinstance(o, self.np.ndarray):
                while o.base is not None and isinstance(o.base, self.np.ndarray):
                    o = o.base
                yield i, j, o

    def look(self, o):
        np = self.np
        if isinstance(o, np.ndarray):
            root = o
            while root.base is not None and isinstance(root.base, np.ndarray):
                root = root.base
            return (root.tobytes("A"), o.dtype.str, o.shape, o.strides, o.flags.writeable, root.shape, root.flags.writeable)
        return repr(o), type(o).__name__

    def changed(self):
        for i, j, o, exp in self.items:
            now = self.look(o)
            if now != exp:
                names = ("contents", "dtype", "shape", "strides", "writability", "buffer shape", "buffer writability")
                what = [n for n, x, y in zip(names, now, exp) if x != y]
                return f"input {j} of estimator {i} ({self.h.specs[i]['data'][j]['c'] if j < len(self.h.specs[i]['data']) else 'cond'}): {', '.join(what)} changed"
        return None


class Hist(E.History):
    def inputs_of(self, i):
        fresh = i not in self.inputs
        inp = super().inputs_of(i)
        if fresh and self.specs[i].get("alias") == "same" and len(inp.data) >= 2 and not self.specs[i].get("joint"):
            inp.data[1] = inp.data[0]
        return inp


def plain_spec(s):
    s = copy.deepcopy(s)
    if s.pop("alias", None) == "same" and len(s["data"]) >= 2 and not s.get("joint"):
        s["data"][1] = copy.deepcopy(s["data"][0])
    for d in s["data"] + ([s["cond"]] if "cond" in s else []):
        if d["c"] in ("list", "tuplelist"):
            d["dt"] = "float64" if isinstance(_first(d["v"]), float) or d["dt"].startswith("float") else "int64" if isinstance(_first(d["v"]), int) else d["dt"]
        d["c"] = "array"
    return s


def _first(v):
    return _first(v[0]) if isinstance(v, list) else v


def _aborted(plan, upto, op, k, exc):
    W.fired.clear()
    h = Hist(plan)
    w = Watch(h)
    for i in range(len(plan["specs"])):
        h.inputs_of(i)
    w.refresh()
    for o in plan["ops"][:upto]:
        if h.possible(o):
            h.do(o)
    if not h.possible(op):
        return None, None, 0, {}
    faults.INJ.sites = None if k else {}
    try:
        out, n, fired = faults.INJ.run(lambda: h.do(op), {k: exc} if k else None, grain=plan.get("grain", "call"))
    except Exception as e:
        return f"raised {type(e).__name__}", None, 0, dict(W.fired)
    if not k:
        ab = plan["abort"]
        n = faults.choose(faults.INJ.sites, n, ab["points"], random.Random(ab["salt"]))
    return w.changed(), fired, n, dict(W.fired)


def execute(plan):
    import numpy as np
    out, log = [], []
    stats = {"ops": {}, "faults": {}, "watch_points": 0, "approach": {}, "containers": {}, "aliased_checks": 0, "judged": 0,
             "aborted_calls": 0}
    g = E.Golden()
    for s in plan["specs"]:
        for d in s["data"] + ([s["cond"]] if "cond" in s else []):
            stats["containers"][d["c"]] = stats["containers"].get(d["c"], 0) + 1
    h = Hist(plan)
    # goldens from the pristine process, plain arrays
    want, slot = {}, {}
    for i, op in enumerate(plan["ops"]):
        if op[0] == "new":
            slot[op[1]] = op[2]
            continue
        si = op[1] if op[0] in ("func", "jsd", "kld") else slot.get(op[1])
        if si is None or op[0] in ("drop", "eff"):
            continue
        q = (op[0],) if op[0] in ("func", "jsd", "kld") else E.question(op)
        ps = plain_spec(plan["specs"][si])
        want[i] = (ps, q, g.get(ps, q))
    w = Watch(h)
    for i in range(len(plan["specs"])):
        h.inputs_of(i)
    w.refresh()
    during = []

    def observer(n, code, name):
        stats["watch_points"] += 1
        c = w.changed()
        if c and not during:
            during.append(f"{c}, seen when {code.co_qualname} at {name}")

    for i, op in enumerate(plan["ops"]):
        if out:
            break
        if not h.possible(op):
            continue
        spec = h.spec_of(op) if op[0] not in ("new",) else plan["specs"][op[2]]
        where = f"{spec['m']}/{S.canon(spec['a'])}"
        stats["approach"][f"{where}"] = 1
        stats["ops"][op[0]] = stats["ops"].get(op[0], 0) + 1
        res, n, _ = faults.INJ.run(lambda: h.do(op), observer=observer, grain=plan.get("grain", "call"))
        got = res[1]
        log.append((op[0], got))
        c = w.changed()
        if c:
            out.append({"cls": f"modified/{where}", "msg": f"after {op}: {c}; {spec['kw']} " + (during[0] if during else "")})
            break
        if during:
            out.append({"cls": f"modified-during/{where}", "msg": f"during {op}: {during[0]}; {spec['kw']}"})
            break
        # what was handed out
        est = h.slots.get(op[1]) if op[0] in ("loc", "test", "attr") else None
        if est is not None and got[0] in ("arr", "test", "dict"):
            if op[0] == "loc":
                arrs = [est.local_vals()]
            elif op[0] == "test":
                arrs = [est.statistical_test(2, op[3]).test_values]
            else:
                arrs = [getattr(est, op[2])]
            for a in arrs:
                if isinstance(a, np.ndarray):
                    for ii, jj, root in w.roots():
                        stats["aliased_checks"] += 1
                        if np.shares_memory(a, root):
                            out.append({"cls": f"alias/{where}", "msg": f"{op}: the returned array shares memory with input {jj} of estimator {ii}"})
        if i in want and not out:
            ps, q, exp = want[i]
            if op[0] == "test":
                if got[0] != "test":
                    if exp[0] == "val":
                        st, r = zygote.fork_call(E.fresh, 60, ps, q)
                        if st == "ok" and r[0] == "test":
                            out.append({"cls": f"answer/{op[0]}/{where}", "msg": f"{op}: {got} for {[d['c'] for d in spec['data']]}, plain arrays work; {spec['kw']}"})
                    continue
                got = ("val", got[1]["obs"])
            stats["judged"] += 1
            tol = S.tol_for(spec)
            if S.canon(spec["a"]) in ("metric", "renyi", "tsallis") and spec["kw"].get("noise_level", 1) != 0:
                tol = 2e-4
            if any(d["dt"] == "float32" for d in spec["data"]):
                tol = max(tol, 1e-5)
            if not S.close(got, exp, tol):
                if tol > 1e-5 and E.jitter_explains(ps, q, got, tol):
                    continue
                out.append({"cls": f"answer/{op[0]}/{where}",
                            "msg": f"{op}: {E_short(got)} for {[d['c'] for d in spec['data']]}, {E_short(exp)} for plain arrays; {spec['kw']}"})
    ab = plan.get("abort")
    if ab and not out and ab["op"] < len(plan["ops"]):
        op = plan["ops"][ab["op"]]
        spec = plan["specs"][op[2] if op[0] == "new" else op[1] if op[0] in ("func", "jsd", "kld") else slot.get(op[1], 0)]
        st, r = zygote.fork_call(_aborted, 60, plan, ab["op"], op, 0, None)
        if st == "ok" and r[2]:
            ks = r[2] if ab.get("only") is None else [ab["only"]]
            for k in ks:
                exc = ("MemoryError", "KeyboardInterrupt", "TimeoutError")[(k + ab["salt"]) % 3]
                st, r = zygote.fork_call(_aborted, 60, plan, ab["op"], op, k, exc)
                if st != "ok":
                    raise RuntimeError(f"aborted call {st}: {r}")
                c, fired, n, f = r
                stats["aborted_calls"] += 1
                for x, y in f.items():
                    stats["faults"][x] = stats["faults"].get(x, 0) + y
                log.append((k, c, n))
                if c:
                    out.append({"cls": f"modified-aborted/{spec['m']}/{S.canon(spec['a'])}",
                                "msg": f"{op} aborted by {exc} at point {k} {fired}: {c}; {spec['kw']}",
                                "hint": {"abort": dict(ab, only=k)}})
                    break
    stats["approach"] = list(stats["approach"])
    sg = hashlib.sha256(repr((E.shape(plan), [[d["c"] for d in s["data"]] + [sorted(map(str, s["kw"].items()))] for s in plan["specs"]])).encode()).hexdigest()[:16]
    return {"violations": out[:3], "stats": stats, "sig": sg, "nontrivial": stats["watch_points"] > 0, "log": log,
            "sample": {"history": E.shape(plan)[:300], "containers": [[d["c"] for d in s["data"]] for s in plan["specs"]]}}


def E_short(o):
    s = repr(o)
    return s if len(s) < 160 else s[:157] + "..."
