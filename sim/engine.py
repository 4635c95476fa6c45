"""Histories of public calls, and what a pristine process would have answered."""
import gc
import copy
import random

from . import specs as S
from . import zygote
from . import seams
from .seams import W

METHODS = ("permutation_test", "bootstrap")
ATTRS = {"bayes": ("bayes_probs",), "discrete": ("dist_dict",), "miller_madow": ("dist_dict",), "shrink": ("dist_dict",)}
JSD_OK = ("discrete", "miller_madow", "bayes", "shrink", "ordinal", "kernel")
KLD_OK = ("discrete", "miller_madow", "bayes", "ordinal", "kernel", "metric", "renyi", "tsallis")


def divergence(kind, spec, inputs=None):
    import infomeasure as im
    f = im.jensen_shannon_divergence if kind == "jsd" else im.kullback_leiber_divergence
    inp = inputs or S.Inputs(spec)
    try:
        return ("val", S.num(f(*inp.data, approach=spec["a"], **inp.kwargs())))
    except (KeyboardInterrupt, MemoryError, TimeoutError):
        raise
    except Exception as e:
        return ("exc", type(e).__name__)


def func_value(spec, inputs=None):
    try:
        return ("val", S.num(S.functional(spec, inputs)))
    except (KeyboardInterrupt, MemoryError, TimeoutError):
        raise
    except Exception as e:
        return ("exc", type(e).__name__)


def fresh(spec, op):
    """The answer of a fresh estimator to one question (run in a pristine process)."""
    k = op[0]
    if k in ("jsd", "kld"):
        return divergence(k, spec)
    if k == "func":
        return func_value(spec)
    try:
        est = S.construct(spec)
    except Exception as e:
        return ("exc", type(e).__name__)
    return S.ask(est, op)


class Golden:
    """Answers of pristine processes, one forked process per question, remembered."""

    def __init__(self, timeout=60):
        self.memo = {}
        self.timeout = timeout
        self.forks = 0

    def get(self, spec, op):
        if op[0] in ("calc", "glob"):
            op = ("res",)
        if op[0] == "test":
            op = ("res",)
        k = (S.key(spec), tuple(op))
        if k not in self.memo:
            st, out = zygote.fork_call(fresh, self.timeout, spec, op)
            self.forks += 1
            if st != "ok":
                raise RuntimeError(f"golden {st}: {out}")
            self.memo[k] = out
        return self.memo[k]


def _many(spec, op, n):
    out = []
    for i in range(n):
        s = copy.deepcopy(spec)
        if s["m"] != "h":
            s["seed"] = 10_000 + i
        out.append(fresh(s, op))
    return out


def jitter_explains(spec, op, got, tol, n=200):
    """On a mismatch for data the library adds noise to: can noise alone give this value?"""
    if op[0] in ("calc", "glob", "test"):
        op = ("res",)
    st, outs = zygote.fork_call(_many, 120, spec, op, n)
    if st != "ok":
        return True
    return any(S.close(got, o, tol) for o in outs) or _within(got, outs, tol)


def _within(got, outs, tol):
    """Does an answer lie where the answers under other noise lie?  Where the noise decides which
    neighbours count (ties, copies), they scatter over more values than can be sampled."""
    if isinstance(got, (tuple, list)):
        outs = [o for o in outs if isinstance(o, (tuple, list)) and len(o) == len(got)]
        return bool(outs) and all(_within(g, [o[i] for o in outs], tol) for i, g in enumerate(got))
    if isinstance(got, (int, float)) and not isinstance(got, bool) and got == got:
        nums = [o for o in outs if isinstance(o, (int, float)) and o == o and abs(o) != float("inf")]
        if not nums:
            return False
        lo, hi = min(nums), max(nums)
        room = max(tol * max(1.0, abs(lo), abs(hi)), 0.5 * (hi - lo))
        return lo - room <= got <= hi + room
    return any(S.close(got, o, tol) for o in outs)


def plain(spec):
    """The same question asked with ordinary arrays through the ordinary entry point."""
    s = copy.deepcopy(spec)
    for d in s["data"] + ([s["cond"]] if "cond" in s else []):
        d["c"] = "array"
    return s


class History:
    def __init__(self, plan):
        self.specs = plan["specs"]
        self.slots = {}
        self.slot_spec = {}
        self.inputs = {}
        self.reports = []

    def spec_of(self, op):
        if op[0] in ("func", "jsd", "kld"):
            return self.specs[op[1]]
        return self.specs[self.slot_spec[op[1]]]

    def possible(self, op):
        if op[0] in ("res", "glob", "loc", "calc", "test", "eff", "attr", "drop"):
            return op[1] in self.slots
        return True

    def inputs_of(self, i):
        if i not in self.inputs:
            self.inputs[i] = S.Inputs(self.specs[i])
        return self.inputs[i]

    def do(self, op):
        """Perform an op; returns its outcome."""
        k = op[0]
        if k == "new":
            try:
                self.slots[op[1]] = S.construct(self.specs[op[2]], self.inputs_of(op[2]))
                self.slot_spec[op[1]] = op[2]
                return ("ok",)
            except (KeyboardInterrupt, MemoryError, TimeoutError):
                raise
            except Exception as e:
                self.slots.pop(op[1], None)
                return ("exc", type(e).__name__)
        if k == "drop":
            self.slots.pop(op[1], None)
            gc.collect()
            return ("ok",)
        if k == "crowd":
            return self.crowd(*op[1:])
        if k in ("jsd", "kld"):
            return divergence(k, self.specs[op[1]], self.inputs_of(op[1]))
        if k == "func":
            return func_value(self.specs[op[1]], self.inputs_of(op[1]))
        return S.ask(self.slots[op[1]], question(op))


    def crowd(self, i, count, seed):
        """Many other estimators come and go: same kind and shape, other data."""
        r = random.Random(seed)
        n = 0
        for _ in range(count):
            s = copy.deepcopy(self.specs[i])
            perm = list(range(len(s["data"][0]["v"])))
            r.shuffle(perm)
            d = s["data"][0]
            d["v"] = [d["v"][j] for j in perm if j < len(d["v"])]
            try:
                e = S.construct(s)
                n += S.ask(e, ("res",))[0] == "val"
                if r.random() < 0.3:
                    S.ask(e, ("loc",))
            except (KeyboardInterrupt, MemoryError, TimeoutError):
                raise
            except Exception:
                pass
        return ("crowd", n)


def question(op):
    """Strip the slot number."""
    return (op[0], *op[2:])


def gen_ops(rng, specs, n, slots=3, tests=True, weights=None, big_tests=True):
    """A random history over the specs."""
    ops = []
    live = {}
    for i in range(min(len(specs), slots)):
        ops.append(["new", i, i])
        live[i] = i
    kinds = weights or {"res": 5, "glob": 1, "loc": 4, "calc": 2, "test": 5, "eff": 3, "new": 2, "drop": 1, "func": 2, "div": 2, "attr": 1}
    names, wts = list(kinds), list(kinds.values())
    while len(ops) < n:
        k = rng.choices(names, wts)[0]
        if k == "new":
            s = rng.randrange(slots)
            live[s] = rng.randrange(len(specs))
            ops.append(["new", s, live[s]])
            continue
        if k == "func":
            ops.append(["func", rng.randrange(len(specs))])
            continue
        if k == "div":
            c = [i for i, s in enumerate(specs) if s["m"] == "h" and len(s["data"]) == 2 and not s.get("joint")]
            if c:
                i = rng.choice(c)
                ok = [n for n, l in (("jsd", JSD_OK), ("kld", KLD_OK)) if S.canon(specs[i]["a"]) in l]
                if ok:
                    ops.append([rng.choice(ok), i])
            continue
        if not live:
            continue
        s = rng.choice(list(live))
        sp = specs[live[s]]
        if k == "drop":
            ops.append(["drop", s])
            del live[s]
        elif k == "test":
            if sp["m"] != "h":
                nt = rng.choice((2, 2, 3, 5, 9))
                if big_tests and rng.random() < 0.04 and S.canon(sp["a"]) in ("discrete", "miller_madow", "metric"):
                    nt = 120
                ops.append(["test", s, nt, rng.choice(METHODS)])
        elif k == "eff":
            if sp["m"] in ("te", "cte"):
                ops.append(["eff", s, rng.choice(METHODS + (None,))])
        elif k == "attr":
            at = ATTRS.get(S.canon(sp["a"]))
            if at and sp["m"] == "h" and not (len(sp["data"]) == 2 and not sp.get("joint")):
                ops.append(["attr", s, rng.choice(at)])
        else:
            ops.append([k, s])
    return ops


def pick_working(rng, ops):
    """Index of an op that really computes something (not one whose answer is remembered)."""
    asked, best = set(), []
    for k, o in enumerate(ops):
        if o[0] == "new":
            asked.discard(o[1])
        elif o[0] in ("res", "glob", "loc", "attr"):
            if o[1] not in asked:
                best.append(k)
            asked.add(o[1])
        elif o[0] != "drop":
            best.append(k)
    return rng.choice(best) if best and rng.random() < 0.9 else rng.randrange(len(ops))


def shape(plan):
    """Abstract shape of a history: what makes two runs different for coverage."""
    sp = plan["specs"]
    out = []
    slot = {}
    for op in plan["ops"]:
        if op[0] == "new":
            slot[op[1]] = op[2]
        i = op[2] if op[0] == "new" else op[1] if op[0] in ("func", "jsd", "kld") else slot.get(op[1])
        if i is None or i >= len(sp):
            continue
        s = sp[i]
        out.append(f"{op[0]}{op[3][0] if op[0] == 'test' and op[3] else ''}:{s['m']}/{S.canon(s['a'])}#{i}")
    return "|".join(out)


def sig(plan):
    import hashlib
    return hashlib.sha256(shape(plan).encode()).hexdigest()[:16]


def drop_specs(plan):
    """Shrink candidates: simpler specs; renumbering kept simple by leaving unused specs."""
    for i, s in enumerate(plan["specs"]):
        for t in S.shrink_spec(s):
            p = copy.deepcopy(plan)
            p["specs"][i] = t
            yield p
