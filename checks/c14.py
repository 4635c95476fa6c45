"""C14: what the caller has dropped is released."""
import copy
import gc
import hashlib
import random
import sys
import weakref

from sim import specs as S, engine as E, zygote, faults
from sim.seams import W

PROP = "C14"
LEVEL = "exploration"
RULE = ("one evaluation = one simulated process running a random history of public calls, some aborted or refused; at "
        "random moments the caller drops estimators, results and data, and weak references must then die, and no object "
        "of the library may be left; in part of the runs the same calls are repeated on ever new data and the library's "
        "module-level tables must not keep growing; two evaluations are distinct when their abstract histories, options "
        "or aborts differ")
TIERS = {"quick": {"runs": 6000, "cap_s": 70, "timeout_s": 120, "recheck": 12, "min_s": 40},
         "thorough": {"runs": 300000, "cap_s": 2000, "timeout_s": 200, "recheck": 60, "min_s": 90}}
REAL = ["all of infomeasure", "numpy", "scipy", "sparse"]
STUB = ["failing callees", "OS entropy", "clock", "cpu_count", "multiprocessing.Pool", "numba JIT disabled"]
ASSUMPTIONS = ["a full garbage collection may be needed (reference cycles are allowed)",
               "memory the library copies into C structures of numpy or scipy is not looked at"]
EXCS = ("MemoryError", "KeyboardInterrupt", "TimeoutError")


def gen(rng, tier, i):
    m = rng.choice(S.MEASURES)
    a = S.APPROACHES[i % len(S.APPROACHES)] if rng.random() < 0.7 else rng.choice(S.APPROACHES)
    specs = [S.gen_spec(rng, measure=m, approach=a, strings=0.1, long=0.08)]
    if rng.random() < 0.4:
        specs.append(S.sibling(rng, specs[0]) if rng.random() < 0.4 else S.gen_spec(rng))
    w = {"res": 4, "glob": 1, "loc": 5, "calc": 3, "test": 5, "eff": 4, "new": 2, "func": 4, "div": 4, "attr": 1, "drop": 2}
    ops = E.gen_ops(rng, specs, rng.choice((3, 5, 8, 12)), slots=2, weights=w, big_tests=False)
    aborts = {}
    if rng.random() < 0.5:
        for _ in range(rng.choice((1, 1, 2))):
            aborts[str(E.pick_working(rng, ops))] = [rng.choice((1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144)), rng.choice(EXCS), rng.choice(("call", "line"))]
    for _ in range(rng.choice((0, 0, 1))):
        ops.insert(rng.randrange(len(ops) + 1), ["refused", rng.choice(("ntests", "method", "length", "base"))])
        aborts = {str(int(k)): v for k, v in aborts.items()}
    cycles = 0
    if rng.random() < 0.3:
        cycles = 6
    return {"specs": specs, "ops": ops, "aborts": aborts, "cycles": cycles, "salt": rng.randrange(1 << 20)}


def shrink(plan):
    for k in list(plan["aborts"]):
        p = copy.deepcopy(plan)
        del p["aborts"][k]
        yield p
    if plan["cycles"]:
        yield dict(copy.deepcopy(plan), cycles=0)
    yield from E.drop_specs(plan)


class Hist(E.History):
    """A caller that keeps nothing longer than it says, and remembers weakly what it had."""

    def __init__(self, plan):
        super().__init__(plan)
        self.refs = []                   # (what, weak reference, op number)
        self.k = 0

    def note(self, what, obj):
        try:
            self.refs.append((what, weakref.ref(obj), self.k))
        except TypeError:
            pass

    def inputs_of(self, i):
        inp = S.Inputs(self.specs[i])    # new arrays each time, kept only by the estimator
        for d in inp.data + ([inp.cond] if inp.cond is not None else []) + list(inp.counts):
            self.note("an array passed in", d)
            if getattr(d, "base", None) is not None:
                self.note("an array passed in (base)", d.base)
        return inp

    def refused(self, kind):
        import infomeasure as im
        import numpy as np
        x, y = np.array([0, 1, 1, 0, 1, 0, 0, 1]), np.array([0, 1, 0, 0, 1, 1, 0, 1])
        for v in (x, y):
            self.note("an array passed to a refused call", v)
        try:
            if kind == "length":
                im.mutual_information(x, y[:-1], approach="discrete")
            elif kind == "base":
                im.entropy(x, approach="discrete", base=-2)
            else:
                e = im.estimator(x, y, measure="mi", approach="discrete")
                self.note("an estimator", e)
                e.statistical_test(-1 if kind == "ntests" else 3, "nope" if kind == "method" else "bootstrap")
        except Exception:
            pass

    def do(self, op):
        if op[0] == "refused":
            self.refused(op[1])
            return ("refused",)
        out = super().do(op)
        if op[0] == "new" and out[0] == "ok":
            self.note("an estimator", self.slots[op[1]])
        if op[0] == "loc" and out[0] == "arr":
            self.note("the local values", self.slots[op[1]].local_vals())
        if op[0] == "test" and out[0] == "test":
            try:
                r = self.slots[op[1]].statistical_test(2, op[3])
            except (KeyboardInterrupt, MemoryError, TimeoutError):
                raise
            except Exception:
                return out
            self.note("a significance report", r)
            self.note("the surrogate values", r.test_values)
        return out


def possible(h, op):
    return op[0] == "refused" or h.possible(op)


def strays(lib_classes):
    """Objects of the library that are still alive."""
    return sorted({f"{type(o).__module__}.{type(o).__qualname__}" for o in gc.get_objects()
                   if type(o) in lib_classes or (getattr(type(o), "__module__", None) or "").startswith("infomeasure.")
                   and not isinstance(o, type)})


def tables():
    """Sizes of everything the library keeps at module and class level."""
    import types
    out = {}

    def size(o, depth=0):
        if isinstance(o, dict):
            return len(o) + (sum(size(v, depth + 1) for v in list(o.values())) if depth < 3 else 0)
        if isinstance(o, (list, set, frozenset, tuple)):
            return len(o) + (sum(size(v, depth + 1) for v in list(o)) if depth < 3 else 0)
        if hasattr(o, "cache_info"):
            i = o.cache_info()
            return 0 if i.maxsize is not None else i.currsize
        if type(o).__name__ == "ndarray":
            return o.size
        if type(o).__name__ in ("deque", "OrderedDict", "defaultdict", "WeakValueDictionary", "WeakKeyDictionary"):
            return len(o)
        return 0

    for name, mod in sorted(sys.modules.items()):
        if not (name == "infomeasure" or name.startswith("infomeasure.")) or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if k.startswith("__") or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, type):
                if v.__module__ == name:
                    for ck, cv in list(vars(v).items()):
                        if ck.startswith("__") and ck.endswith("__") or ck.startswith("_abc"):
                            continue
                        f = getattr(cv, "__func__", cv)
                        n = size(cv) + (size(vars(f)) + size(f.__defaults__ or ()) + size(f.__kwdefaults__ or {}) if isinstance(f, types.FunctionType) else 0)
                        if n:
                            out[f"{name}.{v.__name__}.{ck}"] = n
                continue
            n = size(v)
            f = getattr(v, "__wrapped__", v)
            for g in (v, f):
                if isinstance(g, types.FunctionType):
                    n += size({a: b for a, b in vars(g).items() if a != "__wrapped__"}) + size(g.__defaults__ or ()) + size(g.__kwdefaults__ or {})
                    for c in g.__closure__ or ():
                        try:
                            n += size(c.cell_contents)
                        except ValueError:
                            pass
            if n:
                out[f"{name}.{k}"] = n
    return out


def renew(spec, rnd):
    """Other data of the same kind."""
    for d in spec["data"] + ([spec["cond"]] if "cond" in spec else []):
        if isinstance(d["v"][0], float):
            d["v"] = [round(v + rnd.gauss(0, 0.3), 6) for v in d["v"]]
        elif isinstance(d["v"][0], list) and isinstance(d["v"][0][0], float):
            d["v"] = [[round(x + rnd.gauss(0, 0.3), 6) for x in v] for v in d["v"]]
        elif isinstance(d["v"][0], int):
            s = rnd.randrange(1, 90)
            d["v"] = [v % 100 + s for v in d["v"]]
            rnd.shuffle(d["v"])
            d["v"][rnd.randrange(len(d["v"]))] = d["v"][0]
            if d["dt"] in ("uint8", "int8"):
                d["dt"] = "int64"
        else:
            rnd.shuffle(d["v"])


def _cycles(plan):
    rnd = random.Random(plan["salt"])
    p = copy.deepcopy(plan)
    sizes = []
    for c in range(plan["cycles"]):
        h = Hist(p)
        for op in p["ops"]:
            if possible(h, op):
                h.do(op)
        del h
        for s in p["specs"]:
            renew(s, rnd)
        gc.collect()
        sizes.append(tables())
    return sizes


def execute(plan):
    out, log = [], []
    stats = {"faults": {}, "ops": {}, "approach": {}, "weak_references": 0, "drops": 0, "library_objects_looked_for": 0, "growth_runs": 0, "aborted_calls": 0}
    lib = set()
    h = Hist(plan)
    before = strays(lib)
    last = None
    for k, op in enumerate(plan["ops"]):
        h.k = k
        if not possible(h, op):
            continue
        if op[0] != "refused":
            s = plan["specs"][op[2]] if op[0] == "new" else h.spec_of(op)
            stats["approach"][f"{op[0]}/{s['m']}/{S.canon(s['a'])}"] = 1
            last = f"{s['m']}/{S.canon(s['a'])}"
            del s
        stats["ops"][op[0]] = stats["ops"].get(op[0], 0) + 1
        ab = plan["aborts"].get(str(k))
        if ab:
            got, n, fired = faults.INJ.run(lambda: h.do(op), {ab[0]: ab[1]}, grain=ab[2])
            stats["aborted_calls"] += bool(fired)
            got = got[1] if got[0] == "ok" else ("raised", got[1])
        else:
            got = h.do(op)
        log.append((op[0], got))
        if op[0] == "drop" or op[0] in ("func", "jsd", "kld", "refused"):
            stats["drops"] += 1
            gc.collect()
            kept = alive(h, k)
            if kept:
                out.append(kept + (op,))
                break
    if not out:
        h.k = None
        h.slots.clear()
        gc.collect()
        stats["weak_references"] = len(h.refs)
        log.append(len(h.refs))
        live = [(w, k) for w, r, k in h.refs if r() is not None]
        if live:
            w, k = live[0]
            op = plan["ops"][k]
            out.append((w, k, op))
        else:
            del h.slots
            st = [x for x in strays(lib) if x not in before]
            stats["library_objects_looked_for"] = 1
            if st:
                out.append((f"objects of {st[:4]}", None, None))
    viol = []
    for what, k, op in out:
        sp = ""
        if op and k is not None and plan["ops"][k][0] != "refused":
            o = plan["ops"][k]
            i = o[2] if o[0] == "new" else o[1] if o[0] in ("func", "jsd", "kld") else h.slot_spec.get(o[1], 0)
            s = plan["specs"][i]
            sp = f"{s['m']}/{S.canon(s['a'])}"
        viol.append({"cls": f"kept/{what.split(' of ')[0].replace(' ', '-')}/{sp}",
                     "msg": f"{what} of op {k} ({plan['ops'][k] if k is not None else 'any'}, {sp or last}) is still alive after the caller dropped everything; aborts {plan['aborts']}; history {E.shape(dict(plan, ops=[o for o in plan['ops'] if o[0] != 'refused']))[:300]}"})
    if not viol and plan["cycles"]:
        st, sizes = zygote.fork_call(_cycles, 100, plan)
        if st != "ok":
            raise RuntimeError(f"cycles {st}: {sizes}")
        stats["growth_runs"] = 1
        names = set().union(*sizes)
        for n in sorted(names):
            v = [x.get(n, 0) for x in sizes]
            if all(b > a for a, b in zip(v[1:], v[2:])):
                # a bounded table fills up and then stays: look much further
                st, more = zygote.fork_call(_cycles, 100, dict(plan, cycles=48))
                if st == "ok" and more[-1].get(n, 0) <= more[-16].get(n, 0):
                    continue
                viol.append({"cls": f"grows/{n}", "msg": f"{n} grows with every new data set: sizes {v}; history {E.shape(dict(plan, ops=[o for o in plan['ops'] if o[0] != 'refused']))[:300]}"})
                break
        log.append([sorted(x.items()) for x in sizes][-1:])
    stats["faults"] = dict(W.fired)
    stats["approach"] = list(stats["approach"])
    sg = hashlib.sha256(repr((E.shape(dict(plan, ops=[o for o in plan["ops"] if o[0] != "refused"])), plan["aborts"], plan["cycles"], [sorted(map(str, s["kw"].items())) for s in plan["specs"]])).encode()).hexdigest()[:16]
    return {"violations": viol[:3], "stats": stats, "sig": sg, "nontrivial": len(h.refs) > 0, "log": log,
            "sample": {"ops": [o[:2] for o in plan["ops"]], "specs": [f"{s['m']}/{s['a']}" for s in plan["specs"]], "aborts": plan["aborts"]}}


def alive(h, k):
    """Something of a call that should have left nothing, or of a dropped estimator."""
    for w, r, j in h.refs:
        if j == k and r() is not None:
            return w, j
    return None
