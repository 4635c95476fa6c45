"""Workloads: what an estimator is asked to work on, as plain JSON.

A spec describes one estimator completely: measure, approach, options, data, seed, entry
point and the kind of container the caller holds the data in.  `gen_spec` draws one,
`sibling` draws one that differs from a given spec in a single respect (which is what
exposes caches keyed too coarsely).
"""
import copy
import json

MEASURES = ("h", "mi", "cmi", "te", "cte")
MEASURE_NAMES = {
    "h": ("h", "entropy", "Entropy"), "mi": ("mi", "mutual_information", "mutual information"),
    "cmi": ("cmi", "conditional_mutual_information", "conditional-mutual-information"),
    "te": ("te", "transfer_entropy"), "cte": ("cte", "conditional_transfer_entropy"),
}
COUNT = ("ansb", "bayes", "bonachela", "chao_shen", "chao_wang_jost", "discrete",
         "grassberger", "miller_madow", "nsb", "shrink", "zhang")
CONT = ("kernel", "metric", "renyi", "tsallis")
APPROACHES = COUNT + CONT + ("ordinal",)
ALIASES = {
    "h": {"chao_shen": ("cs",), "chao_wang_jost": ("cwj",), "metric": ("kl",), "miller_madow": ("mm",),
          "shrink": ("js",), "ordinal": ("symbolic", "permutation")},
    "other": {"metric": ("ksg",), "miller_madow": ("mm",), "ordinal": ("symbolic", "permutation")},
}
ALIAS_TO = {a: k for d in ALIASES.values() for k, v in d.items() for a in v}
LOCAL = ("discrete", "grassberger", "kernel", "metric", "miller_madow", "ordinal", "shrink", "zhang")
BASES = (2, "e", 10, 3, 2.5, 7)


SEED_AS_NUMPY = False       # hand seeds over as numpy integers (C03)


def canon(approach):
    return ALIAS_TO.get(approach, approach)


def is_jittered(spec):
    """Does the library add random noise to this spec's data?"""
    a = canon(spec["a"])
    nl = spec["kw"].get("noise_level", 1e-8)
    if a == "metric":
        return nl != 0
    if a in ("renyi", "tsallis"):
        return spec["m"] != "h" and nl != 0
    return False


def _ints(rng, n, k, lag_of=None, flip=0.3, lag=1):
    if lag_of is None:
        return [rng.randrange(k) for _ in range(n)]
    out = []
    for i in range(n):
        if i >= lag and rng.random() > flip:
            out.append(lag_of[i - lag] % k)
        else:
            out.append(rng.randrange(k))
    return out


def _gaps_ok(vals, gap):
    """Generic position: no two pairwise differences closer than gap."""
    d = sorted(abs(a - b) for i, a in enumerate(vals) for b in vals[:i])
    return all(y - x > gap for x, y in zip(d, d[1:])) and (not d or d[0] > gap)


def _floats(rng, n, nvar, like=None):
    """nvar dependent continuous series in generic position."""
    for _ in range(200):
        cols = []
        for v in range(nvar):
            c = []
            for i in range(n):
                x = rng.gauss(0, 1)
                if v and i and rng.random() < 0.7:
                    x = 0.7 * cols[0][i - 1] + 0.5 * x
                elif v and rng.random() < 0.5:
                    x = 0.6 * cols[0][i] + 0.6 * x
                c.append(round(x, 6 if n < 100 else 10))
            cols.append(c)
        flat = [x for c in cols for x in c]
        if len(set(flat)) == len(flat):
            return cols
    return cols


def gen_spec(rng, measure=None, approach=None, seeded=None, n=None, alias=True, containers=True,
             small=False, cross=True, multidim=True, strings=0.0, long=0.0):
    m = measure or rng.choice(MEASURES)
    a = approach or rng.choice(APPROACHES)
    kw = {}
    spec = {"m": m, "a": a, "kw": kw}
    nvar = {"h": 1, "mi": 2, "cmi": 2, "te": 2, "cte": 2}[m]
    has_cond = m in ("cmi", "cte")
    joint = False
    if m == "h":
        r = rng.random()
        if cross and r < 0.2 and a in ("discrete", "miller_madow", "bayes", "ordinal", "kernel", "metric", "renyi", "tsallis"):
            nvar = 2                       # cross entropy
        elif r < 0.4:
            nvar, joint = 2, True          # joint entropy, a tuple
    if m == "mi" and rng.random() < 0.1 and not small:
        nvar = rng.choice((3, 3, 3, 4, 5))
    far = bool(long and not n and rng.random() < long)
    if far:
        N = rng.choice((100, 129, 150, 256, 300, 513, 1025, 1500)) if rng.random() < 0.5 else rng.randrange(31, 260)
        if rng.random() < 0.06:
            N = rng.choice((2100, 4200, 5100, 8200, 10100, 16400))
            N = min(N, {"kernel": 2100, "metric": 4200, "ordinal": 4200}.get(ALIAS_TO.get(a, a), N))
    elif small:
        N = n or rng.randrange(7, 12)
    else:
        N = n or rng.randrange(8, 31)
    if a in COUNT:
        k = rng.choice((2, 2, 3, 4)) if not far else rng.choice((2, 3, 4, 12, 40, 270))
        base = _ints(rng, N, k)
        cols = [base] + [_ints(rng, N, rng.choice((2, 3)), base, lag=rng.choice((0, 1))) for _ in range(nvar - 1 + has_cond)]
        if rng.random() < 0.3:
            off = rng.choice((-1, 5, 100))
            cols = [[x + off for x in c] for c in cols]
        dt = rng.choice(("int64", "int64", "int32", "int16", "float64"))
        if min(x for c in cols for x in c) < 0 and dt == "uint8":
            dt = "int64"
    else:
        cols = _floats(rng, N, nvar + has_cond)
        dt = rng.choice(("float64", "float64", "float64", "float32")) if a in ("kernel", "ordinal") else "float64"
        if a == "ordinal" and rng.random() < 0.4:
            cols = [_ints(rng, N, rng.choice((4, 9, 50))) for _ in cols]
            dt = rng.choice(("int64", "int32", "float64"))
    if a in COUNT and strings and rng.random() < strings:
        names = ["no", "yes", "up", "down", "x", "alpha", "b", "zz", "left", "q9"]
        rng.shuffle(names)
        cols = [[names[x % 10] if x < 100 else names[x % 10] + "!" for x in c] for c in cols]
        dt = rng.choice(("<U6", "<U12"))
    conts = ("array", "array", "list", "ro", "strided", "view") if containers else ("array",)
    if multidim and rng.random() < (0.2 if a in COUNT else 0.12) and not joint and nvar + has_cond <= 3:
        wide = []
        if a in COUNT:
            wide = [i for i in range(nvar + has_cond) if rng.random() < 0.5] or [0]
            if a == "miller_madow" and m == "cmi":      # refused by the library
                wide = [i for i in wide if i < nvar]
            if m == "h" and nvar == 2:
                wide = []
        elif a == "metric" and m in ("mi", "cmi", "h") or a == "kernel" and m in ("mi", "h") \
                or m == "te" and a != "ordinal":
            wide = [0]
        for i in wide:
            if a not in COUNT:
                extra = _floats(rng, N, 1)[0]
            elif isinstance(cols[i][0], str):
                extra = [rng.choice(("p", "qq", "off")) for _ in range(N)]
            else:
                extra = _ints(rng, N, 2)
            cols[i] = [list(x) for x in zip(cols[i], extra)]
            spec["multi"] = True
    spec["data"] = [{"v": c, "dt": dt, "c": rng.choice(conts)} for c in cols[:nvar]]
    if has_cond:
        spec["cond"] = {"v": cols[nvar], "dt": dt, "c": rng.choice(conts)}
    if joint:
        spec["joint"] = True
    # --- approach options
    if a == "renyi":
        kw["alpha"] = rng.choice((0.5, 0.8, 1.0, 1.5, 2.0))
    elif a == "tsallis":
        kw["q"] = rng.choice((0.5, 0.8, 1.0, 1.5, 2.0))
    elif a == "kernel":
        kw["bandwidth"] = rng.choice((0.3, 0.5, 1.0, 2))
        kw["kernel"] = rng.choice(("box", "gaussian"))
        if rng.random() < 0.25:
            kw["workers"] = rng.choice((1, 2, -1))
    elif a == "bayes":
        kw["alpha"] = rng.choice((0.5, 1.0, 1, 2.0, "jeffrey", "laplace", "sch-grass", "min-max"))
        if rng.random() < 0.25:
            kw["K"] = rng.choice((30, 60))
    elif a == "nsb" and rng.random() < 0.3:
        kw["K"] = rng.choice((30, 60, 90))
    elif a == "ansb" and rng.random() < 0.3:
        pass
    elif a == "ordinal":
        kw["embedding_dim"] = rng.choice((2, 2, 3, 3, 4) if not small else (2, 2, 3))
        if m != "te" and m != "cte" and rng.random() < 0.25 and kw["embedding_dim"] < 4:
            kw["step_size"] = 2
        if rng.random() < 0.3:
            kw["stable"] = True
    if a in ("metric", "renyi", "tsallis"):
        if rng.random() < 0.4:
            kw["k"] = rng.choice((1, 2, 3, 4)) if N > 9 else rng.choice((1, 2))
        elif N <= 9:
            kw["k"] = 2
        if (a == "metric" or m != "h") and rng.random() < 0.45:
            kw["noise_level"] = rng.choice((0, 0, 1e-10, 1e-8))
        if a == "metric" and rng.random() < 0.3:
            kw["ksg_id"] = rng.choice((1, 2))
        if a == "metric" and rng.random() < 0.15:
            kw["minkowski_p"] = rng.choice((1, 2))
    # --- measure options
    if rng.random() < 0.5:
        kw["base"] = rng.choice(BASES)
    if m == "mi" and nvar == 2 and rng.random() < 0.35:
        kw["offset"] = rng.choice((1, 2, -1, -2))
    if m in ("mi", "cmi") and a in ("kernel", "metric", "renyi", "tsallis") and not spec.get("multi") and rng.random() < 0.25:
        kw["normalize"] = True
    if m in ("te", "cte"):
        if rng.random() < 0.5:
            kw["src_hist_len"] = rng.choice((1, 2))
        if rng.random() < 0.4:
            kw["dest_hist_len"] = rng.choice((1, 2))
        if m == "cte" and rng.random() < 0.4:
            kw["cond_hist_len"] = rng.choice((1, 2))
        if rng.random() < 0.3 and not (a == "ordinal" and N < 14):
            kw["step_size"] = rng.choice((1, 2)) if N >= 14 else 1
        if m == "te" and rng.random() < 0.35:
            kw["prop_time"] = rng.choice((1, 2, -1))
    if far and a in ("metric", "renyi", "tsallis"):
        if a == "metric" or m != "h":
            kw["noise_level"] = 0
    if not small and rng.random() < 0.25:
        _vary(rng, spec, a, m, N, containers)
    if m != "h":
        if seeded is True or (seeded is None and rng.random() < 0.75):
            spec["seed"] = rng.choice((0, 1, 2, 3, 42, rng.randrange(1 << 31)))
    if alias and rng.random() < 0.25:
        al = ALIASES["h" if m == "h" else "other"].get(a)
        if al:
            spec["a"] = rng.choice(al)
    spec["via"] = rng.choice(("estimator", "estimator", "class"))
    if m == "h" and a in COUNT and nvar == 1 and not isinstance(cols[0][0], list) and rng.random() < 0.12:
        spec["via"] = "counts"
    return spec


def _vary(rng, spec, a, m, N, containers):
    """The rarer options, element types and layouts."""
    kw = spec["kw"]
    series = spec["data"] + ([spec["cond"]] if "cond" in spec else [])
    if containers:
        for d in series:
            if rng.random() < 0.4:
                d["c"] = rng.choice(("neg", "fortran", "rostrided", "tuplelist"))
    if a in COUNT and series[0]["dt"] in ("int64", "int32", "int16", "float64") and rng.random() < 0.5:
        flat = [x for d in series for v in d["v"] for x in (v if isinstance(v, list) else (v,))]
        fit = ["float32", ">i4", ">f8", "int8" if max(map(abs, flat)) < 128 else ">i2"]
        if min(flat) >= 0:
            fit += ["uint16", "uint64", "uint8" if max(flat) < 256 else "uint32"]
            if max(flat) < 2:
                fit += ["bool", "bool"]
        dt = rng.choice(fit)
        for d in series:
            d["dt"] = dt
    elif a not in COUNT and series[0]["dt"] == "float64" and rng.random() < 0.2:
        for d in series:
            d["dt"] = ">f8"
    if N < 24:
        return
    if a == "kernel" and rng.random() < 0.5:
        kw["bandwidth"] = rng.choice((0.75, 1.5, 5, 0.1 if kw["kernel"] == "gaussian" else 0.6))
    elif a == "renyi" and rng.random() < 0.5:
        kw["alpha"] = rng.choice((0.25, 0.999, 1, 3.0, 2))
    elif a == "tsallis" and rng.random() < 0.5:
        kw["q"] = rng.choice((0.25, 0.999, 1, 3.0, 2))
    elif a == "ordinal" and rng.random() < 0.3:
        kw["embedding_dim"] = rng.choice((1, 2, 4, 5))
    elif a == "metric" and rng.random() < 0.4:
        kw["minkowski_p"] = rng.choice((1, 2, 3, float("inf"))) if m == "h" else rng.choice((2, float("inf")))
    if a in ("metric", "renyi", "tsallis") and rng.random() < 0.4:
        kw["k"] = rng.choice((5, 6, 7))
    if m == "mi" and len(spec["data"]) == 2 and rng.random() < 0.4:
        kw["offset"] = rng.choice((3, 5, -3, -6))
    if m in ("te", "cte"):
        if rng.random() < 0.3:
            kw[rng.choice(("src_hist_len", "dest_hist_len"))] = 3
        if m == "cte" and rng.random() < 0.2:
            kw["cond_hist_len"] = 3
        if m == "te" and rng.random() < 0.3:
            kw["prop_time"] = rng.choice((3, 4, -2, -3))
        if a != "ordinal" and rng.random() < 0.2:
            kw["step_size"] = rng.choice((2, 3))


def sibling(rng, spec):
    """A spec differing from spec in one respect."""
    s = copy.deepcopy(spec)
    a = canon(s["a"])
    r = rng.random()
    if r < 0.12:                                  # same multiset, other order
        d = rng.choice(s["data"])
        rng.shuffle(d["v"])
    elif r < 0.3:                                 # same ends, length and sum; few values differ
        d = rng.choice(s["data"] + ([s["cond"]] if "cond" in s else []))
        v = d["v"]
        cut = len(v) // 3 if len(v) > 12 and rng.random() < 0.6 else 1
        i, j = sorted(rng.sample(range(cut, len(v) - cut), 2))
        if isinstance(v[i], int) and v[i] >= 0 and v[j] > 0 and rng.random() < 0.6:
            v[i], v[j] = v[i] + 1, v[j] - 1
        elif rng.random() < 0.6 or not isinstance(v[i], (int, float)) or v[i] == v[j]:
            v[i], v[j] = v[j], v[i]
        elif isinstance(v[i], int):
            v[i], v[j] = v[j], v[i]
        else:
            g = round(0.05 + rng.random(), 3)
            v[i], v[j] = round(v[i] + g, 6), round(v[j] - g, 6)
    elif r < 0.45:                                # one value of one variable
        d = rng.choice(s["data"] + ([s["cond"]] if "cond" in s else []))
        i = rng.randrange(len(d["v"]))
        if isinstance(d["v"][i], list):
            if isinstance(d["v"][i][0], float):   # a copy would leave jitter as the only distance
                d["v"][i] = [round(x + rng.choice((-1, 1)) * (0.1 + rng.random()), 6) for x in d["v"][i]]
            else:
                d["v"][i] = d["v"][i - 1]
        elif isinstance(d["v"][i], (int, str)):
            d["v"][i] = rng.choice(d["v"])
        else:
            d["v"][i] = round(d["v"][i] + rng.choice((-1, 1)) * (0.1 + rng.random()), 6)
    elif r < 0.6:                                 # the base
        b = rng.choice([b for b in BASES if b != s["kw"].get("base", "e")])
        s["kw"]["base"] = b
    elif r < 0.7 and len(s["data"]) == 2 and not s.get("joint"):   # swapped variables
        s["data"].reverse()
    elif r < 0.78 and "cond" in s:
        rng.shuffle(s["cond"]["v"])
    else:                                         # an option of the approach
        kw = s["kw"]
        if a == "renyi":
            kw["alpha"] = rng.choice([x for x in (0.5, 0.8, 1.0, 1.5, 2.0) if x != kw["alpha"]])
        elif a == "tsallis":
            kw["q"] = rng.choice([x for x in (0.5, 0.8, 1.0, 1.5, 2.0) if x != kw["q"]])
        elif a == "kernel":
            if rng.random() < 0.5:
                kw["bandwidth"] = rng.choice([x for x in (0.3, 0.5, 1.0, 2) if x != kw["bandwidth"]])
            else:
                kw["kernel"] = "box" if kw["kernel"] == "gaussian" else "gaussian"
        elif a == "bayes":
            kw["alpha"] = rng.choice([x for x in (0.5, 1.0, 2.0, "jeffrey", "min-max") if x != kw["alpha"]])
        elif a == "nsb":
            kw["K"] = rng.choice([x for x in (30, 60, 90) if x != kw.get("K")])
        elif a == "ordinal":
            kw["embedding_dim"] = 2 if kw["embedding_dim"] != 2 else 3
        elif a == "metric":
            kw["k"] = rng.choice([x for x in (1, 2, 3) if x != kw.get("k", 4)])
        elif s["m"] in ("te", "cte"):
            kw["dest_hist_len"] = 3 - kw.get("dest_hist_len", 1)
        else:
            rng.shuffle(s["data"][0]["v"])
    if "seed" in s and rng.random() < 0.2:
        s["seed"] = rng.randrange(1000)
    return s


def key(spec, strip=()):
    d = {k: v for k, v in spec.items() if k not in strip}
    return json.dumps(d, sort_keys=True)


def shrink_spec(s):
    """Simpler variants of a spec (for minimisation)."""
    for k in list(s["kw"]):
        if k in ("alpha", "q", "bandwidth", "kernel", "embedding_dim"):
            continue
        t = copy.deepcopy(s)
        del t["kw"][k]
        yield t
    if any(d["c"] != "array" for d in s["data"] + ([s["cond"]] if "cond" in s else [])):
        t = copy.deepcopy(s)
        for d in t["data"] + ([t["cond"]] if "cond" in t else []):
            d["c"] = "array"
        yield t
    if s.get("via") != "estimator":
        t = copy.deepcopy(s)
        t["via"] = "estimator"
        yield t
    if s["a"] != canon(s["a"]):
        t = copy.deepcopy(s)
        t["a"] = canon(s["a"])
        yield t
    n = len(s["data"][0]["v"])
    for cut in (n // 2, n - 2, n - 1):
        if cut >= 7 and cut < n:
            t = copy.deepcopy(s)
            for d in t["data"] + ([t["cond"]] if "cond" in t else []):
                d["v"] = d["v"][:cut]
            yield t


# ------------------------------------------------------------------ building and asking
def to_container(d):
    import numpy as np
    arr = np.array(d["v"], dtype=d["dt"])
    c = d.get("c", "array")
    if c == "list":
        return arr.tolist()
    if c == "ro":
        arr.setflags(write=False)
        return arr
    if c == "strided":
        big = np.zeros((arr.shape[0] * 2, *arr.shape[1:]), dtype=arr.dtype)
        big[::2] = arr
        return big[::2]
    if c == "neg":
        big = np.ascontiguousarray(arr[::-1])
        return big[::-1]
    if c == "fortran":
        return np.asfortranarray(arr)
    if c == "rostrided":
        big = np.zeros((arr.shape[0] * 3, *arr.shape[1:]), dtype=arr.dtype)
        big[::3] = arr
        big.setflags(write=False)
        return big[::3]
    if c == "tuplelist":
        return [tuple(x) if isinstance(x, list) else x for x in arr.tolist()]
    if c == "view":
        big = np.zeros((arr.shape[0] + 4, *arr.shape[1:]), dtype=arr.dtype)
        big[2:-2] = arr
        return big[2:-2]
    return arr


class Inputs:
    """The caller's side of a spec: the containers it passes in."""

    def __init__(self, spec):
        self.spec = spec
        self.data = [to_container(d) for d in spec["data"]]
        self.cond = to_container(spec["cond"]) if "cond" in spec else None
        self.counts = ()
        if spec.get("via") == "counts":
            import numpy as np
            u, c = np.unique(np.array(spec["data"][0]["v"], dtype=spec["data"][0]["dt"]), return_counts=True)
            how = spec["data"][0].get("c", "array")
            self.counts = tuple(to_container({"v": x.tolist(), "dt": x.dtype, "c": how}) for x in (u, c))

    def args(self):
        s = self.spec
        if s.get("joint"):
            return (tuple(self.data),)
        return tuple(self.data)

    def kwargs(self):
        kw = dict(self.spec["kw"])
        if "cond" in self.spec:
            kw["cond"] = self.cond
        if "seed" in self.spec:
            kw["seed"] = self.spec["seed"]
            if SEED_AS_NUMPY and kw["seed"] < 2 ** 62:
                import numpy as np
                kw["seed"] = np.int64(kw["seed"])
        return kw


def construct(spec, inputs=None):
    import infomeasure as im
    inp = inputs or Inputs(spec)
    if spec.get("via") == "class":
        cls = im.get_estimator_class(measure=spec["m"], approach=spec["a"])
        return cls(*inp.args(), **inp.kwargs())
    if spec.get("via") == "counts":
        return im.get_estimator_class(measure=spec["m"], approach=spec["a"]).from_counts(*inp.counts, **inp.kwargs())
    return im.estimator(*inp.args(), measure=spec.get("mname", spec["m"]), approach=spec["a"], **inp.kwargs())


def functional(spec, inputs=None):
    import infomeasure as im
    inp = inputs or Inputs(spec)
    f = {"h": im.entropy, "mi": im.mutual_information, "cmi": im.conditional_mutual_information,
         "te": im.transfer_entropy, "cte": im.conditional_transfer_entropy}[spec["m"]]
    if spec["m"] == "h" and len(spec["data"]) == 2 and not spec.get("joint"):
        f = im.cross_entropy
    return f(*inp.args(), approach=spec["a"], **inp.kwargs())


def num(x):
    import numpy as np
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x[()]
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, complex):
        return ("complex", x.real, x.imag)
    return x


def report(r):
    """Everything a significance report shows."""
    return {"p": num(r.p_value), "t": num(r.t_score), "tv": [num(v) for v in r.test_values],
            "obs": num(r.observed_value), "mean": num(r.null_mean), "std": num(r.null_std),
            "n": num(r.n_tests), "method": r.method}


FAULTS = (MemoryError, KeyboardInterrupt, TimeoutError)


def ask(est, op):
    """Perform one question on an estimator; the outcome as plain data.

    op: ("res",) ("glob",) ("loc",) ("calc",) ("test", n, method) ("eff", method) ("attr", name)
    """
    try:
        k = op[0]
        if k == "res":
            return ("val", num(est.result()))
        if k == "glob":
            return ("val", num(est.global_val()))
        if k == "loc":
            return ("arr", [num(v) for v in est.local_vals()])
        if k == "calc":
            est.calculate()
            return ("val", num(est.result()))
        if k == "test":
            return ("test", report(est.statistical_test(op[1], op[2])))
        if k == "eff":
            return ("eff", num(est.effective_val(op[1]) if len(op) > 1 and op[1] else est.effective_val()))
        if k == "attr":
            v = getattr(est, op[1])
            if isinstance(v, dict):
                return ("dict", sorted((repr(num(a)), num(b)) for a, b in v.items()))
            return ("arr", [num(x) for x in v])
        raise AssertionError(k)
    except (KeyboardInterrupt, MemoryError, TimeoutError):
        raise
    except Exception as e:
        return ("exc", type(e).__name__)


def ask_any(fn):
    """fn() as plain data."""
    import numpy as np
    try:
        v = fn()
    except (KeyboardInterrupt, MemoryError, TimeoutError):
        raise
    except Exception as e:
        return ("exc", type(e).__name__)
    if isinstance(v, (list, tuple)) or isinstance(v, np.ndarray) and v.ndim:
        return ("arr", [num(x) for x in v])
    return ("val", num(v))


def close(a, b, tol):
    """Same answer?  a, b: outcomes or numbers; tol: absolute and relative."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        if a in (float("inf"), float("-inf")) or b in (float("inf"), float("-inf")):
            return False
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


def tol_for(spec):
    return 2e-4 if is_jittered(spec) else 1e-9


def stable_shape(spec):
    return canon(spec["a"]), spec["m"]
