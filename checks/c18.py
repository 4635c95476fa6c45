"""C18: after a fork, parent and child carry on independently."""
import atexit
import copy
import hashlib
import os
import pickle
import random
import select
import signal
import threading

from sim import specs as S, engine as E, zygote, faults, seams
from sim.seams import W

PROP = "C18"
LEVEL = "exploration"
RULE = ("one evaluation = one simulated process with a random history that is forked at planned points - between calls, inside a "
        "call (a signal handler forking, the child carrying on with the call) or while another thread is inside a call (the child "
        "has only the forking thread) - up to three times; the children run their own calls and end, before the parent goes on or "
        "after it; all answers compared with those of the same calls without any fork.  Two evaluations are distinct when history, "
        "fork points or the order of parent and children differ")
TIERS = {"quick": {"runs": 2400, "cap_s": 80, "timeout_s": 160, "recheck": 12, "min_s": 40},
         "thorough": {"runs": 100000, "cap_s": 2400, "timeout_s": 240, "recheck": 60, "min_s": 90}}
ZYGOTE = ("stub_kde",)
REAL = ["all of infomeasure", "numpy", "scipy", "sparse", "fork, pipes and process ends"]
STUB = ["process ids", "when the process forks and who runs first", "locks created by library code", "OS entropy (a stream of its own in "
        "each process)", "clock", "cpu_count", "scipy.stats.gaussian_kde (a cheap density of the same shape)",
        "multiprocessing.Pool and executors (unusable in another process than their own)",
        "numba JIT disabled"]
ASSUMPTIONS = ["a fork happens at line boundaries of library code or when it calls numpy, scipy, sparse and the like",
               "a lock held by a thread that the fork leaves behind is never released in the child"]


KDE = {"m": "h", "a": "kernel", "kw": {}}


def gen(rng, tier, i):
    m = rng.choices(S.MEASURES, (2, 4, 3, 5, 3))[0]
    a = S.APPROACHES[i % len(S.APPROACHES)] if rng.random() < 0.7 else rng.choice(S.APPROACHES)
    specs = [S.gen_spec(rng, measure=m, approach=a, seeded=True, strings=0.1, n=rng.choice((None, 10, 12)), long=0.04)]
    for _ in range(rng.choice((1, 1, 2))):
        r = rng.random()
        specs.append(S.sibling(rng, specs[0]) if r < 0.5 else
                     S.gen_spec(rng, measure=m if r < 0.7 else None, approach=a if r < 0.9 else None, seeded=True))
    for s in specs:
        if S.is_jittered(s):
            s["kw"]["noise_level"] = 0           # each process has entropy of its own
    # one whose estimators draw their own entropy
    u = S.gen_spec(rng, measure=rng.choice(("mi", "cmi", "te")), approach=rng.choice((a if a != "nsb" else "discrete", "metric", "renyi", "kernel", "ordinal", "discrete")),
                   n=24, multidim=False)
    u.pop("seed", None)
    specs.append(u)
    last = len(specs) - 1

    def call(i):
        pool = {"res": 3, "loc": 3, "calc": 3, "func": 3, "new": 1}
        if specs[i]["m"] != "h":
            pool["test"] = 6
        if specs[i]["m"] in ("te", "cte"):
            pool["eff"] = 3
        k = rng.choices(list(pool), list(pool.values()))[0]
        return {"new": ["new", i, i], "func": ["func", i], "test": ["test", i, rng.choice((2, 3, 5)), rng.choice(E.METHODS)],
                "eff": ["eff", i, rng.choice(E.METHODS)]}.get(k, [k, i])

    def calls(lo, n):
        return [call(rng.randrange(lo, last)) for _ in range(n)]
    pre = [["new", j, j] for j in range(last)] + calls(0, rng.choice((0, 0, 1, 2)))
    if rng.random() < 0.5:
        pre += [["new", last, last], ["test", last, 3, "permutation_test"]]
    forks = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        how = rng.choice(("between", "signal", "thread", "thread"))
        forks.append({"how": how, "first": rng.choice(("child", "child", "parent")),
                      "ops": calls(1 if how == "thread" and last > 1 else 0, rng.choice((1, 2, 4)))})
    if i % 12 == 5:                               # large enough for worker processes
        kde = ["kde", rng.choice((20000, 20011, 33000)), rng.choice((2, 3, -1)), rng.randrange(1000)]
        if rng.random() < 0.7:
            pre.append(kde)
        for f in forks:
            if rng.random() < 0.7:
                f["ops"].insert(rng.randrange(len(f["ops"]) + 1), kde[:2] + [rng.choice((kde[2], 2)), kde[3]])
    return {"specs": specs, "ops": pre, "outer": call(0), "forks": forks, "post": calls(0, rng.choice((1, 2, 3))),
            "grain": rng.choice(("line", "line", "call")), "salt": rng.randrange(1 << 20), "only": None,
            "method": rng.choice(E.METHODS)}


def shrink(plan):
    for f in ("post", "forks"):
        for k in range(len(plan[f])):
            if f == "forks" and len(plan[f]) == 1:
                continue
            p = copy.deepcopy(plan)
            del p[f][k]
            if f == "forks" and p["only"]:
                p["only"] = [x for j, x in enumerate(p["only"]) if j != k]
            yield p
    for j, f in enumerate(plan["forks"]):
        for k in range(len(f["ops"])):
            if len(f["ops"]) > 1:
                p = copy.deepcopy(plan)
                del p["forks"][j]["ops"][k]
                yield p


def _sites(h, plan):
    faults.INJ.sites = {}
    n = faults.INJ.run(lambda: h.do(plan["outer"]), grain=plan["grain"])[1]
    return n, faults.INJ.sites


def do(h, op):
    if op[0] == "kde":
        import numpy as np
        import infomeasure as im
        x = np.random.Generator(np.random.PCG64(op[3])).normal(size=op[1])
        try:
            return ("val", float(im.entropy(x, approach="kernel", kernel="gaussian", bandwidth=0.5, workers=op[2])))
        except Exception as e:
            return ("exc", type(e).__name__)
    return h.do(op)


def run_ops(h, ops):
    return [do(h, op) if h.possible(op) else None for op in ops]


def surrogates(h, plan):
    """The surrogates of an estimator made without a seed."""
    n = len(plan["specs"]) - 1
    a = h.do(["new", 99, n])
    t = h.do(["test", 99, 20, plan["method"]]) if a == ("ok",) else a
    return list(t[1]["tv"]) if t[0] == "test" else None


def variety(h, plan):
    """Do generators that start differently ever give the same surrogates?"""
    out = []
    for k in range(8):
        W.entropy = random.Random(f"variety-{plan['salt']}-{k}")
        t = surrogates(h, plan)
        if t is None or max(t.count(x) for x in t) > len(t) // 2:
            return False
        out.append(repr(t))
    return len(set(out)) == len(out)


def no_fork(h, plan, ops):
    """What the same calls answer in a process that does not fork."""
    return run_ops(h, ops)


class Children:
    def __init__(self, h, plan):
        self.h, self.plan, self.out, self.late, self.me = h, plan, {}, [], None
        self.tail = None

    def spawn(self, k):
        """Forks; in a child that is to carry on by itself returns True."""
        f = self.plan["forks"][k]
        r, w = os.pipe()
        go_r, go_w = os.pipe()
        W.fire(f"fork_{f['how']}_{f['first']}_first")
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.close(go_w)
            self.late, self.me = [], k
            W.pid, W.entropy = 1001 + k, random.Random(f"entropy-{self.plan['salt']}-child{k}")
            if f["first"] == "parent":
                os.read(go_r, 1)
            if f["how"] == "thread":
                self.tail = w
                t = threading.Thread(target=self.finish)
                t.start()
                t.join()
                os._exit(0)
            self.tail = w
            return True
        os.close(w)
        os.close(go_r)
        if f["first"] == "child":
            os.close(go_w)
            self.collect(k, pid, r)
        else:
            self.late.append((k, pid, r, go_w))
        return False

    def finish(self, first=None):
        """The rest of a child's life."""
        try:
            out = ("ok", [first, run_ops(self.h, self.plan["forks"][self.me]["ops"]), surrogates(self.h, self.plan)])
            atexit._run_exitfuncs()
        except BaseException as e:
            out = ("raised", f"{type(e).__name__}: {e}")
        data = pickle.dumps(out)
        while data:
            data = data[os.write(self.tail, data):]
        os._exit(0)

    def collect(self, k, pid, r):
        data, end = b"", seams._real_monotonic() + 45
        while True:
            left = end - seams._real_monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                data = pickle.dumps(("hang", "no answer within 45 s"))
                break
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
        os.close(r)
        status = os.waitpid(pid, 0)[1]
        self.out[k] = pickle.loads(data) if data else ("raised", f"ended with status {status}")

    def wait(self):
        for k, pid, r, go in self.late:
            os.write(go, b"x")
            os.close(go)
            self.collect(k, pid, r)
        self.late = []


def forked(h, plan, at):
    """The history with its forks; at[k] is the point in the outer call, 0 for before it."""
    W.pid = 1000
    os.getpid = lambda: W.pid
    c = Children(h, plan)
    for k, f in enumerate(plan["forks"]):
        if f["how"] == "between" and c.me is None and c.spawn(k):
            c.finish()
    where = {}

    def observer(n, code, name):
        if c.me is not None:
            return
        for k, f in enumerate(plan["forks"]):
            if f["how"] != "between" and at[k] == n and k not in where:
                where[k] = f"{code.co_qualname} at {name}"
                if c.spawn(k):
                    return

    o, n, _ = faults.INJ.run(lambda: h.do(plan["outer"]), observer=observer, grain=plan["grain"])
    if c.me is not None:
        c.finish(o)
    post = run_ops(h, plan["post"])
    own = surrogates(h, plan)
    c.wait()
    return o, post, own, c.out, where, dict(W.fired)


def same(spec, got, exp):
    if got is None or exp is None:
        return got is exp
    if got[0] == "test" and exp[0] == "test":
        a, b = got[1], exp[1]
        return all(S.close(a[x], b[x], 1e-12 if not S.is_jittered(spec) or "seed" in spec else 5e-3) for x in ("tv", "obs", "n", "method"))
    return S.close(got, exp, 1e-12 if not (spec["m"] == "h" and S.canon(spec["a"]) == "metric") else S.tol_for(spec))


def execute(plan):
    out, log = [], []
    stats = {"faults": {}, "forks": {}, "approach": {}, "children": 0, "answers": 0, "streams_compared": 0, "sites": 0}
    h = E.History(plan)
    specs = plan["specs"]
    for op in plan["ops"]:
        if h.possible(op):
            log.append((op[0], do(h, op)))
    w = f"{specs[0]['m']}/{S.canon(specs[0]['a'])}"
    if not h.possible(plan["outer"]):
        return {"violations": [], "stats": stats, "sig": None, "nontrivial": False, "log": log}

    def away(fn, *args, t=100):
        st, r = zygote.fork_call(fn, t, h, plan, *args)
        if st != "ok":
            raise RuntimeError(f"{fn.__name__} {st}: {r}")
        return r
    n, sites = away(_sites)
    rnd = random.Random(plan["salt"])
    at = plan["only"]
    if at is None:
        ks = faults.choose(sites, n, 40, rnd) if n else []
        at = [0 if f["how"] == "between" or not ks else rnd.choice(ks) for f in plan["forks"]]
    stats["sites"] = len(sites)
    stats["approach"] = [f"{plan['outer'][0]}/{w}"]
    st, r = zygote.fork_call(forked, 150, h, plan, at)
    hint = {"only": at}
    if st != "ok":
        out.append({"cls": f"parent/{st}/{w}", "hint": hint, "msg": f"parent of forks {[f['how'] for f in plan['forks']]}: {st}: {str(r)[-300:]}"})
        return {"violations": out, "stats": stats, "sig": None, "nontrivial": True, "log": log}
    o, post, own, kids, where, fired = r
    stats["faults"] = fired
    log.append((at, o, post, own, sorted(kids.items())))

    def spec_of(op):
        return KDE if op[0] == "kde" else specs[op[2] if op[0] == "new" else op[1]]

    def compare(who, ops, got, exp, place):
        for op, g, e in zip(ops, got, exp):
            stats["answers"] += 1
            if not same(spec_of(op), g, e):
                s = spec_of(op)
                out.append({"cls": f"{who}/{op[0]}/{s['m']}/{S.canon(s['a'])}", "hint": hint,
                            "msg": f"{who}: {op} answers {short(g)}, without the fork {short(e)} ({place}); {s['kw']}"})
                return
    if o[0] != "ok":
        out.append({"cls": f"parent/raised/{w}", "hint": hint, "msg": f"{plan['outer']} on {w} raised {o[1]} around forks"})
        return {"violations": out, "stats": stats, "sig": None, "nontrivial": True, "log": log}
    streams = {"parent": own}
    ops = [plan["outer"]] + plan["post"]
    compare("parent", ops, [o[1]] + post, away(no_fork, ops), f"forks {sorted(where.values())} {[f['how'] for f in plan['forks']]}"[:200])
    for k, f in enumerate(plan["forks"]):
        if k not in kids:
            continue
        stats["children"] += 1
        stats["forks"][f["how"]] = stats["forks"].get(f["how"], 0) + 1
        st, v = kids[k]
        place = f"{f['how']} fork {where.get(k, 'before the call')}, {f['first']} first"
        if st != "ok":
            out.append({"cls": f"child/{f['how']}/{st}/{w}", "hint": hint, "msg": f"child of {place}, {f['ops']}: {st} {v}"})
            continue
        ops = ([plan["outer"]] if f["how"] == "signal" and k in where else []) + f["ops"]
        got = ([v[0][1]] if f["how"] == "signal" and k in where else []) + v[1]
        if f["how"] == "thread" and any(spec_of(x) is specs[0] for x in f["ops"]):
            continue
        compare(f"child/{f['how']}", ops, got, away(no_fork, ops), place)
        streams[f"child {k}"] = v[2]
    real = {k: repr(s) for k, s in streams.items() if s is not None}
    if len(real) > 1 and len(set(real.values())) < len(real) and away(variety):
        out.append({"cls": f"streams/{specs[-1]['m']}/{S.canon(specs[-1]['a'])}", "hint": hint,
                    "msg": f"estimators made without a seed after a fork share surrogates: {short(real)}; {specs[-1]['kw']}"})
    stats["streams_compared"] += len(real) > 1
    sg = hashlib.sha256(repr((E.shape(plan), plan["outer"], plan["forks"], plan["salt"])).encode()).hexdigest()[:16]
    return {"violations": out[:3], "stats": stats, "sig": sg, "nontrivial": bool(kids), "log": log,
            "sample": {"specs": [f"{s['m']}/{s['a']}" for s in specs], "outer": plan["outer"], "forks": plan["forks"], "at": at}}


def short(o):
    s = repr(o)
    return s if len(s) < 160 else s[:157] + "..."
