"""C16: the caller's surroundings never change an answer."""
import copy
import hashlib
import json
import os
import random
import subprocess
import sys
from sim import specs as S, engine as E, zygote

PROP = "C16"
LEVEL = "exploration"
RULE = ("one evaluation = one simulated process that answers a history of calls while the surroundings a caller controls "
        "(floating-point error handling, warning filters, print options, locale, streams, logging, working directory, "
        "environment, recursion limit, garbage collector, signals, tracing) are changed between the calls; every answer is "
        "compared with a pristine process's.  Two evaluations are distinct when history or surroundings differ")
TIERS = {"quick": {"runs": 3500, "cap_s": 100, "timeout_s": 150, "recheck": 16, "min_s": 50},
         "thorough": {"runs": 100000, "cap_s": 3400, "timeout_s": 200, "recheck": 200, "min_s": 120}}
REAL = ["all of infomeasure", "numpy (its random generators included)", "scipy", "sparse", "the interpreter's -O, -OO, -W and -X options"]
STUB = ["OS entropy", "clock", "cpu_count", "multiprocessing.Pool", "numba JIT disabled"]
ASSUMPTIONS = ["where the caller asked for floating-point errors or warnings to be raised, such an exception is an answer too",
               "answers are compared within 1e-9 relative"]

KINDS = ("fp-raise", "fp-warn", "fp-call", "fp-ignore", "warn-error", "warn-always", "print", "print-legacy", "locale", "stdout",
         "stderr", "log-level", "log-broken", "log-off", "log-record", "cwd", "env", "recursion", "gc-off", "gc-often", "switch",
         "decimal", "seed", "trace", "profile", "signal", "tz", "umask", "intdigits", "stack", "lognew", "logstrict", "excepthook")


class Surroundings:
    """Changes what surrounds the calls and puts it back."""

    def __init__(self):
        self.undo = []
        self.may_raise = set()
        self.on = []

    def apply(self, kind, arg):
        import numpy as np
        import logging
        import warnings
        import gc
        u = self.undo.append
        if kind.startswith("fp-"):
            how = kind[3:]
            old = np.seterr(all=how)
            u(lambda: np.seterr(**old))
            if how == "call":
                oldc = np.seterrcall(lambda *a: None)
                u(lambda: np.seterrcall(oldc))
            if how == "raise":
                self.may_raise.add("FloatingPointError")
        elif kind in ("warn-error", "warn-always"):
            c = warnings.catch_warnings()
            c.__enter__()
            u(lambda: c.__exit__(None, None, None))
            warnings.simplefilter("error" if kind == "warn-error" else "always")
            warnings.showwarning = lambda *a, **k: None
            if kind == "warn-error":
                self.may_raise.add("Warning")
        elif kind == "print":
            old = np.get_printoptions()
            u(lambda: np.set_printoptions(**{k: v for k, v in old.items() if k != "override_repr"}))
            np.set_printoptions(**[{"precision": 1, "threshold": 2, "edgeitems": 1}, {"precision": 0, "suppress": True},
                                   {"threshold": 0, "edgeitems": 1}, {"floatmode": "fixed", "precision": 2}, {"linewidth": 10, "sign": "+"},
                                   {"threshold": 1, "edgeitems": 0}, {"formatter": {"all": lambda x: "x"}}][arg % 7])
        elif kind == "print-legacy":
            old = np.get_printoptions()
            u(lambda: np.set_printoptions(**{k: v for k, v in old.items() if k != "override_repr"}))
            np.set_printoptions(legacy=("1.13", "1.21", "1.25")[arg % 3])
        elif kind == "locale":
            import locale
            old = locale.setlocale(locale.LC_ALL)
            u(lambda: locale.setlocale(locale.LC_ALL, old))
            for name in (("de_DE.UTF-8", "tr_TR.UTF-8", "C.UTF-8", "C")[arg % 4], "C.UTF-8", "C"):
                try:
                    locale.setlocale(locale.LC_ALL, name)
                    break
                except locale.Error:
                    pass
        elif kind in ("stdout", "stderr"):
            old = getattr(sys, kind)
            u(lambda: setattr(sys, kind, old))
            setattr(sys, kind, (None, Broken(), Broken(ValueError))[arg % 3])
        elif kind in ("log-level", "log-broken", "log-off", "log-record", "lognew", "logstrict"):
            lg = logging.getLogger("infomeasure")
            root = logging.getLogger()
            if kind == "log-level":
                a, b, p = lg.level, root.level, lg.propagate
                u(lambda: (lg.setLevel(a), root.setLevel(b), setattr(lg, "propagate", p)))
                lg.setLevel((1, 10, 20, 50, 0)[arg % 5])
                root.setLevel((1, 50)[arg % 2])
                lg.propagate = bool(arg % 3)
            elif kind == "log-broken":
                hs, lv, ex = lg.handlers[:], lg.level, logging.raiseExceptions
                h = logging.StreamHandler(Broken())
                u(lambda: (lg.handlers.__setitem__(slice(None), hs), lg.setLevel(lv), setattr(logging, "raiseExceptions", ex)))
                lg.addHandler(h)
                lg.setLevel(10)
                logging.raiseExceptions = False
            elif kind == "log-off":
                old = root.manager.disable
                u(lambda: logging.disable(old))
                logging.disable(logging.CRITICAL)
            elif kind == "log-record":
                old = logging.getLogRecordFactory()
                lv = lg.level
                u(lambda: (logging.setLogRecordFactory(old), lg.setLevel(lv)))

                def rec(*a, **k):
                    r = old(*a, **k)
                    r.getMessage()
                    return r

                logging.setLogRecordFactory(rec)
                lg.setLevel(1)
            elif kind == "lognew":
                lv = lg.level
                h = logging.NullHandler()
                u(lambda: (lg.removeHandler(h), lg.setLevel(lv)))
                lg.addHandler(h)
                lg.setLevel(10)
            else:
                f = Strict()
                lv = lg.level
                u(lambda: (lg.removeFilter(f), lg.setLevel(lv)))
                lg.addFilter(f)
                lg.setLevel(10)
        elif kind == "cwd":
            import tempfile
            if any(k == "cwd" for k in self.on):
                return
            self.on.append("cwd")
            u(lambda: self.on.remove("cwd"))
            old = os.getcwd()
            d = tempfile.mkdtemp(prefix="c16-")
            os.chdir(d)
            u(lambda: os.chdir(old))
            if arg % 2:
                os.rmdir(d)
            else:
                u(lambda: os.path.isdir(d) and os.rmdir(d))
        elif kind == "env":
            old = dict(os.environ)

            def back():
                os.environ.clear()
                os.environ.update(old)

            u(back)
            for k, v in ({"TMPDIR": "/nonexistent", "HOME": "/nonexistent"}, {"LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8"},
                         {"OMP_NUM_THREADS": "3", "NUMEXPR_MAX_THREADS": "1"}, {"PYTHONOPTIMIZE": "2", "DEBUG": "1"},
                         {"INFOMEASURE_BASE": "2", "LOGLEVEL": "DEBUG", "BASE": "2"})[arg % 5].items():
                os.environ[k] = v
            if arg % 7 == 0:
                os.environ.clear()
        elif kind == "recursion":
            old = sys.getrecursionlimit()
            u(lambda: sys.setrecursionlimit(old))
            depth = len(__import__("inspect").stack(0))
            sys.setrecursionlimit(depth + (25, 40, 60, 120, 5000)[arg % 5])
            if arg % 5 != 4:
                self.may_raise.add("RecursionError")
        elif kind in ("gc-off", "gc-often"):
            old, on = gc.get_threshold(), gc.isenabled()
            u(lambda: (gc.set_threshold(*old), gc.enable() if on else gc.disable()))
            if kind == "gc-off":
                gc.disable()
            else:
                gc.set_threshold((1, 10, 50)[arg % 3], 1, 1)
        elif kind == "switch":
            old = sys.getswitchinterval()
            u(lambda: sys.setswitchinterval(old))
            sys.setswitchinterval((1e-6, 10)[arg % 2])
        elif kind == "decimal":
            import decimal
            old = decimal.getcontext()
            u(lambda: decimal.setcontext(old))
            decimal.setcontext(decimal.Context(prec=2, rounding=decimal.ROUND_UP))
        elif kind == "seed":
            np.random.seed(arg % 10)
            random.seed(arg)
        elif kind == "trace":
            old = sys.gettrace()
            u(lambda: sys.settrace(old))
            sys.settrace(lambda f, e, a: (lambda *x: None) if "infomeasure" in f.f_code.co_filename else None)
        elif kind == "profile":
            old = sys.getprofile()
            u(lambda: sys.setprofile(old))
            sys.setprofile(lambda f, e, a: None)
        elif kind == "signal":
            import signal
            old = signal.getsignal(signal.SIGUSR1)
            u(lambda: signal.signal(signal.SIGUSR1, old or signal.SIG_DFL))
            signal.signal(signal.SIGUSR1, lambda *a: None)
        elif kind == "tz":
            import time
            old = os.environ.get("TZ")

            def back():
                os.environ.pop("TZ", None)
                if old is not None:
                    os.environ["TZ"] = old
                time.tzset()

            u(back)
            os.environ["TZ"] = ("Asia/Kathmandu", "UTC+14", "XXX-23")[arg % 3]
            time.tzset()
        elif kind == "umask":
            old = os.umask((0o777, 0)[arg % 2])
            u(lambda: os.umask(old))
        elif kind == "intdigits":
            old = sys.get_int_max_str_digits()
            u(lambda: sys.set_int_max_str_digits(old))
            sys.set_int_max_str_digits(640)
        elif kind == "stack":
            import threading
            old = threading.stack_size()
            u(lambda: threading.stack_size(old))
            threading.stack_size(1 << 18)
        elif kind == "excepthook":
            old = sys.excepthook, sys.unraisablehook
            u(lambda: (setattr(sys, "excepthook", old[0]), setattr(sys, "unraisablehook", old[1])))
            sys.excepthook = sys.unraisablehook = lambda *a: None
        else:
            raise AssertionError(kind)

    def restore(self):
        while self.undo:
            self.undo.pop()()
        self.may_raise.clear()

    def allows(self, got):
        """May the caller's own wish explain this exception?"""
        if got[0] != "exc":
            return False
        if got[1] in self.may_raise:
            return True
        return "Warning" in self.may_raise and got[1].endswith("Warning")


class Broken:
    """A stream that cannot be written to."""
    encoding = "ascii"

    def __init__(self, exc=OSError):
        self.exc = exc

    def write(self, s):
        raise self.exc("broken stream")

    def flush(self):
        raise self.exc("broken stream")


class Strict:
    """A logging filter that looks at each message and drops it."""

    def filter(self, record):
        record.getMessage()
        return False


def extreme(rng, m):
    """A request whose intermediate results overflow, vanish or lose all their digits."""
    m = rng.choice((m or "h", "h", "mi"))
    if rng.random() < 0.5:
        s = S.gen_spec(rng, measure=m, approach=rng.choice(("nsb", "nsb", "nsb", "bayes", "ansb", "zhang", "chao_wang_jost", "grassberger", "bonachela")),
                       n=rng.choice((rng.randrange(136, 157), rng.randrange(31, 260))), multidim=False)
        if rng.random() < 0.6:
            for d in s["data"] + ([s["cond"]] if "cond" in s else []):
                low = min(d["v"])
                d["v"] = [low + (x - low) % 2 for x in d["v"]]
            s["kw"].pop("K", None)
    else:
        s = S.gen_spec(rng, measure=m, approach=rng.choice(("kernel", "metric", "renyi", "tsallis", "renyi", "tsallis")))
        f = 10.0 ** rng.choice((-310, 300, 30, rng.randrange(-160, -60), rng.randrange(-160, -60), rng.randrange(60, 160)))
        for key in ("alpha", "q"):
            if key in s["kw"] and S.canon(s["a"]) in ("renyi", "tsallis"):
                s["kw"][key] = rng.choice((0.3, 0.5, 1.5, 2, 2.5, 3.5))
        for d in s["data"] + ([s["cond"]] if "cond" in s else []):
            if d["dt"] == "float64":
                d["v"] = [[y * f for y in x] if isinstance(x, list) else x * f for x in d["v"]]
        if "bandwidth" in s["kw"] and rng.random() < 0.7:
            s["kw"]["bandwidth"] *= f
        if S.is_jittered(s):
            s["kw"]["noise_level"] = 0
    return s


def sweep(rng, i):
    """Many kinds of request asked once, in one kind of surroundings."""
    theme = KINDS[i % len(KINDS)]
    specs, ops, around = [], [], []
    edge = rng.random() < 0.3
    if edge:
        theme = rng.choice(("fp-raise", "warn-error", "warn-always", KINDS[i % 6]))
    for j in range(rng.choice((8, 12))):
        s = extreme(rng, None) if edge else S.gen_spec(rng, measure=rng.choice(("h",) + S.MEASURES), approach=S.APPROACHES[(i // len(KINDS) + 7 * j) % len(S.APPROACHES)],
                       strings=0.1, long=0.1, seeded=True)
        if S.is_jittered(s):
            s["kw"]["noise_level"] = 0
        specs.append(s)
        q = rng.choice((["func", j], ["res", 0], ["res", 0], ["loc", 0], ["test", 0, 3, rng.choice(("permutation_test", "bootstrap"))]))
        if q[0] == "test" and s["m"] == "h":
            q = ["loc", 0]
        more = [q] if q[0] == "func" else [["new", 0, j], q]
        ops += more
        around += [[[theme, rng.randrange(1000)]]] + [None] * (len(more) - 1)
    return {"specs": specs, "ops": ops, "around": around}


def gen(rng, tier, i):
    m = rng.choice(S.MEASURES) if rng.random() < 0.7 else None
    a = S.APPROACHES[i % len(S.APPROACHES)] if rng.random() < 0.8 else None
    if rng.random() < 0.03:
        s = S.gen_spec(rng, measure=m, approach=a)
        s["seed"] = 3
        if s["m"] == "h":
            s.pop("seed")
        if S.is_jittered(s):
            s["kw"]["noise_level"] = 0
        return {"specs": [s], "ops": [], "interpreter": {
            "flags": rng.choice((["-O"], ["-OO"], ["-OO", "-W", "error::UserWarning"], ["-X", "dev"], ["-X", "utf8=0"], ["-I"], ["-b"], ["-u"])),
            "env": rng.choice(({"LC_ALL": "C"}, {"LC_ALL": "C.UTF-8", "TZ": "Asia/Tokyo"}, {"COLUMNS": "20", "TERM": "dumb"},
                               {"PYTHONUTF8": "0", "LANG": "POSIX"}, {"PYTHONMALLOC": "debug"}, {"HOME": "/nonexistent", "TMPDIR": "/nonexistent"}))}}
    specs = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        s = S.sibling(rng, specs[0]) if specs and rng.random() < 0.4 else S.gen_spec(rng, measure=m, approach=a, strings=0.15, long=0.25)
        if S.is_jittered(s) and rng.random() < 0.85:
            s["kw"]["noise_level"] = 0
        specs.append(s)
    if rng.random() < 0.15:            # values that make logarithms and divisions complain
        s = copy.deepcopy(specs[0])
        if S.is_jittered(s):
            s["kw"]["noise_level"] = 0
        for d in s["data"] + ([s["cond"]] if "cond" in s else []):
            if not isinstance(d["v"][0], (list, str)) and rng.random() < 0.7:
                d["v"] = [d["v"][0]] * len(d["v"])
        specs.append(s)
    if rng.random() < 0.35:
        return sweep(rng, i)
    edge = rng.random() < 0.4
    if edge:                           # at the edges of what floating-point numbers can hold
        specs = [extreme(rng, m)] + specs[:1]
    ops = E.gen_ops(rng, specs, rng.choice((5, 8, 12)), weights={"res": 5, "loc": 4, "calc": 2, "test": 5, "eff": 3, "new": 3,
                                                                  "drop": 0.5, "func": 4, "div": 3, "attr": 1})
    # every kind of surroundings meets every approach in the course of a few hundred runs
    theme = KINDS[(i // len(S.APPROACHES)) % len(KINDS)] if not edge or rng.random() < 0.5 else rng.choice(KINDS[:6])
    around = []
    for j in range(len(ops)):
        r = rng.random()
        if r < 0.45 or not around:
            around.append([[theme if rng.random() < 0.6 else rng.choice(KINDS), rng.randrange(1000)]
                           for _ in range(rng.choice((1, 1, 1, 2, 4)))])
            if edge and rng.random() < 0.5:
                around[-1].insert(0, [rng.choice(("fp-raise", "fp-raise", "warn-error", "warn-always")), 0])
        elif r < 0.7:
            around.append(None)                    # as before
        else:
            around.append([])                      # back to normal
    return {"specs": specs, "ops": ops, "around": around}


def shrink(plan):
    if plan.get("around"):
        for j, ar in enumerate(plan["around"]):
            if ar and len(ar) > 1:
                for k in range(len(ar)):
                    p = copy.deepcopy(plan)
                    del p["around"][j][k]
                    yield p
    yield from E.drop_specs(plan)


SCRIPT = """
import sys, json
sys.path.insert(0, sys.argv[1])
sys.path.insert(0, sys.argv[2])
from sim import specs as S, engine as E
spec = json.loads(sys.argv[3])
import warnings
out = []
for q in json.loads(sys.argv[4]):
    with warnings.catch_warnings():
        if "error" not in " ".join(sys.warnoptions):
            warnings.simplefilter("ignore")
        out.append(E.fresh(spec, tuple(q)))
import os
os.write(int(sys.argv[5]), json.dumps(out).encode())
"""


def interpreter(plan):
    """The same questions in an interpreter started another way."""
    spec = plan["specs"][0]
    qs = [("res",), ("loc",), ("func",)] + ([("test", 4, "permutation_test"), ("test", 3, "bootstrap")] if spec["m"] != "h" else [])
    st, want = zygote.fork_call(_answers, 60, spec, qs)
    if st != "ok":
        raise RuntimeError(want)
    from sim import seams
    it = plan["interpreter"]
    env = dict(os.environ, **it["env"])
    repo = os.path.dirname(os.path.dirname(os.path.abspath(sys.modules["infomeasure"].__file__)))
    r, w = os.pipe()
    p = subprocess.run([sys.executable, "-B", *it["flags"], "-c", SCRIPT, zygote.HERE, repo, json.dumps(spec), json.dumps(qs), str(w)],
                       env=env, pass_fds=(w,), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=100)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    if p.returncode or not data:
        return qs, want, [("died", p.stderr.decode(errors="replace")[-300:])] * len(qs)
    return qs, want, json.loads(data)


def _answers(spec, qs):
    return [E.fresh(spec, q) for q in qs]


def execute(plan):
    if plan.get("interpreter"):
        return execute_interpreter(plan)
    g = E.Golden()
    out, log = [], []
    stats = {"ops": {}, "surroundings": {}, "approach": {}, "judged": 0, "raised_as_asked": {}, "jitter_ties": 0, "tests_compared": 0}
    h = E.History(plan)
    # pristine answers first, in ordinary surroundings
    slot, want = {}, {}
    for i, op in enumerate(plan["ops"]):
        if op[0] == "new":
            slot[op[1]] = op[2]
            continue
        if op[0] == "drop":
            slot.pop(op[1], None)
            continue
        si = op[1] if op[0] in ("func", "jsd", "kld") else slot.get(op[1])
        if si is None or si >= len(plan["specs"]):
            continue
        q = (op[0],) if op[0] in ("func", "jsd", "kld") else E.question(op)
        if op[0] != "eff":
            want[i] = (plan["specs"][si], q, g.get(plan["specs"][si], q))
    st, r = zygote.fork_call(_calm, 100, plan)
    if st != "ok":
        raise RuntimeError(f"{st}: {r}")
    calm = r
    here = Surroundings()
    upset = set()                       # slots whose calls were cut short by the caller's own wish
    new_around = plan["around"]
    cur = []
    try:
        for i, op in enumerate(plan["ops"]):
            ar = new_around[i] if i < len(new_around) else None
            if ar is not None:
                here.restore()
                cur = []
                try:
                    for k, a in ar:
                        here.apply(k, a)
                        cur.append(k)
                except RecursionError:
                    here.restore()
                    cur = []
            if not h.possible(op):
                continue
            for k in cur:
                stats["surroundings"][k] = stats["surroundings"].get(k, 0) + 1
            try:
                got = h.do(op)
            except RecursionError:
                got = ("exc", "RecursionError")
            if "recursion" in cur:       # judge with room to breathe
                lim = sys.getrecursionlimit()
                sys.setrecursionlimit(10000)
            stats["ops"][op[0]] = stats["ops"].get(op[0], 0) + 1
            if here.allows(got):
                stats["raised_as_asked"][got[1]] = stats["raised_as_asked"].get(got[1], 0) + 1
                log.append((op[0], "as asked"))
                if op[0] in ("test", "eff", "new"):
                    upset.add(op[1])
            else:
                log.append((op[0], got))
                if op[0] == "new":
                    upset.discard(op[1])
                v = judge(plan, i, op, got, want.get(i), calm.get(i), h, upset, stats)
                if v:
                    out.append({"cls": v[0], "msg": f"{v[1]}; surroundings {cur}, {E.shape(plan)[:200]}"})
                    break
            if "recursion" in cur:
                sys.setrecursionlimit(lim)
    finally:
        sys.setrecursionlimit(max(1000, sys.getrecursionlimit()))
        here.restore()
    stats["approach"] = sorted(stats["approach"])
    sig = hashlib.sha256(repr([E.shape(plan), plan["around"]]).encode()).hexdigest()[:16]
    return {"violations": out, "stats": stats, "sig": sig, "nontrivial": stats["judged"] > 1 and bool(stats["surroundings"]),
            "log": log, "sample": {"history": E.shape(plan)[:300], "surroundings": [a for a in plan["around"] if a][:6]}}


def _calm(plan):
    """The same history in ordinary surroundings."""
    h = E.History(plan)
    return {i: h.do(op) for i, op in enumerate(plan["ops"]) if h.possible(op)}


def judge(plan, i, op, got, want, calm, h, upset, stats):
    if op[0] == "drop":
        return None
    spec = plan["specs"][op[2]] if op[0] == "new" else h.spec_of(op)
    where = f"{op[0]}/{spec['m']}/{S.canon(spec['a'])}"
    stats["approach"][where] = 1
    if op[0] == "new":
        stats["judged"] += 1
        if calm is not None and got[0] != calm[0]:
            return f"new/{where}", f"constructing gave {got}, in ordinary surroundings {calm}"
        return None
    if op[0] in ("test", "eff"):
        if calm is None or op[1] in upset or "seed" not in spec:
            if op[0] == "test" and got[0] == "test" and want and want[2][0] == "val" and not S.is_jittered(spec) \
                    and not S.close(got[1]["obs"], want[2][1], 1e-9):
                return f"observed/{where}", f"observed value {got[1]['obs']!r}, in ordinary surroundings {want[2][1]!r}"
            return None
        stats["tests_compared"] += 1
        if got[0] != calm[0] or not S.close(got, calm, 1e-9 if not S.is_jittered(spec) else 1e-6):
            return f"surrogates/{where}", f"request {i} {op}: {short(got)}, in ordinary surroundings {short(calm)}"
        return None
    if want is None:
        return None
    _, q, exp = want
    if op[0] == "attr" and exp[0] == "exc":
        return None
    stats["judged"] += 1
    tol = S.tol_for(spec)
    if S.close(got, exp, tol):
        return None
    if S.is_jittered(spec) or (S.canon(spec["a"]) == "metric" and spec["kw"].get("noise_level", 1) != 0):
        if E.jitter_explains(spec, q, got, tol):
            stats["jitter_ties"] += 1
            return None
    return where, f"request {i} {op}: {short(got)}, in ordinary surroundings {short(exp)}; {spec['kw']}"


def execute_interpreter(plan):
    spec = plan["specs"][0]
    it = plan["interpreter"]
    qs, want, got = interpreter(plan)
    out = []
    name = " ".join(it["flags"])
    for q, a, b in zip(qs, want, got):
        a, b = json.loads(json.dumps(a)), json.loads(json.dumps(b))
        if b[0] == "exc" and b[1].endswith("Warning") and "error" in name:
            continue
        if not S.close(a, b, 1e-9):
            out.append({"cls": f"interpreter/{q[0]}/{spec['m']}/{S.canon(spec['a'])}",
                        "msg": f"{q}: {short(b)} under python {name} with {it['env']}, normally {short(a)}; {spec['kw']}"})
            break
    return {"violations": out, "stats": {"interpreters": {name: 1}, "judged": len(qs)}, "nontrivial": True,
            "sig": hashlib.sha256(repr([S.key(spec), it]).encode()).hexdigest()[:16],
            "log": [json.loads(json.dumps(x)) for x in got],
            "sample": {"spec": f"{spec['m']}/{spec['a']}", "interpreter": it}}


def short(o):
    s = repr(o)
    return s if len(s) < 200 else s[:197] + "..."
