"""C10: calls leave the process as they found it."""
import copy
import hashlib
import os
import random
import shutil
import tempfile
from sim import specs as S, engine as E, zygote, faults
from sim.seams import W

PROP = "C10"
LEVEL = "exploration"
RULE = ("one evaluation = one simulated process with a random ambient state (error handling, filters, print options, "
        "settings, logging, environment, handlers, limits) in which a random history of calls, good and refused, is run, "
        "some aborted at chosen points or by failing pools, and the whole ambient state compared after every call; two "
        "evaluations are distinct when history, options or fault points differ")
TIERS = {"quick": {"runs": 2600, "cap_s": 110, "timeout_s": 150, "recheck": 16, "min_s": 40},
         "thorough": {"runs": 100000, "cap_s": 3400, "timeout_s": 300, "recheck": 200, "min_s": 120}}
ZYGOTE = ("no_preload", "stub_kde")
REAL = ["all of infomeasure", "numpy", "scipy", "sparse", "the process state (descriptors, threads, children, files)"]
STUB = ["multiprocessing.Pool and executors (their life cycle is watched)", "scipy.stats.gaussian_kde (cheap density)",
        "failing callees", "OS entropy", "clock", "cpu_count", "numba JIT disabled"]
ASSUMPTIONS = ["importing the library itself is not a call (it configures logging once)",
               "state changed and restored within one call is not seen"]
BAD = ("approach", "measure", "length", "empty", "bandwidth", "history", "alpha", "method", "ntests", "normalize", "cond")


def gen(rng, tier, i):
    m = rng.choice(S.MEASURES)
    a = S.APPROACHES[i % len(S.APPROACHES)]
    specs = [S.gen_spec(rng, measure=m, approach=a, strings=0.1, long=0.08)]
    for _ in range(rng.choice((0, 1, 2))):
        specs.append(S.gen_spec(rng, measure=m if rng.random() < 0.4 else None))
    if rng.random() < 0.15:
        # degenerate data: where divisions by zero and warnings live
        d = rng.choice(specs[0]["data"])
        d["v"] = [d["v"][0]] * len(d["v"])
    w = {"res": 4, "loc": 5, "calc": 2, "test": 5, "eff": 3, "new": 2, "func": 4, "div": 4, "attr": 1, "drop": 1}
    ops = E.gen_ops(rng, specs, rng.choice((3, 5, 8)), weights=w)
    for o in ops:
        if o[0] == "test":
            o[2] = None if rng.random() < 0.3 else o[2]
            o[3] = None if rng.random() < 0.3 else o[3]
    for _ in range(rng.choice((0, 0, 1, 2))):
        ops.insert(rng.randrange(len(ops) + 1), ["bad", rng.choice(BAD), rng.randrange(len(specs))])
    if rng.random() < 0.08:
        ops.insert(rng.randrange(len(ops) + 1), ["big", rng.choice(("h", "mi", "te")), rng.choice((2, 3, -1)), rng.choice((20000, 24001)), rng.randrange(1 << 30)])
    plan = {"specs": specs, "ops": ops, "ambient": rng.randrange(1 << 30), "faults": {}}
    if any(o[0] == "big" for o in ops) and rng.random() < 0.5:
        plan["faults"] = {rng.choice(("create", "chunk_before", "interrupt")): [rng.choice((1, 1, 2, 3))]}
    plan["abort"] = None
    if rng.random() < 0.7:
        plan["abort"] = {"op": E.pick_working(rng, ops), "points": 25 if tier == "quick" else 30, "salt": rng.randrange(1 << 20),
                         "grain": "line" if rng.random() < 0.5 else "call"}
    return plan


def shrink(plan):
    if plan.get("abort"):
        yield dict(copy.deepcopy(plan), abort=None)
    if plan.get("faults"):
        yield dict(copy.deepcopy(plan), faults={})
    yield from E.drop_specs(plan)


def bad_call(kind, spec):
    import infomeasure as im
    x, y = [1, 2, 1, 2, 1, 1], [1, 1, 2, 2, 1, 2]
    if kind == "approach":
        im.entropy(x, approach="nope")
    elif kind == "measure":
        im.estimator(x, y, measure="nope", approach="discrete")
    elif kind == "length":
        im.mutual_information(x, y[:-1], approach=spec["a"], **spec["kw"])
    elif kind == "empty":
        im.entropy([], approach=spec["a"], **{k: v for k, v in spec["kw"].items() if k == "base"})
    elif kind == "bandwidth":
        im.entropy([0.1, 0.2, 0.4], approach="kernel", bandwidth=-1, kernel="box")
    elif kind == "history":
        im.transfer_entropy(x, y, approach="discrete", src_hist_len=50)
    elif kind == "alpha":
        im.entropy(x, approach="bayes", alpha="nope")
    elif kind == "method":
        im.estimator(x, y, measure="mi", approach="discrete").statistical_test(3, "nope")
    elif kind == "ntests":
        im.estimator(x, y, measure="te", approach="discrete").statistical_test(-3)
    elif kind == "normalize":
        im.estimator([x, x], [y, y], measure="mi", approach="kernel", bandwidth=1, kernel="box", normalize=True)
    elif kind == "cond":
        im.conditional_mutual_information(x, y, approach="discrete")


def big_call(op):
    import numpy as np
    import infomeasure as im
    g = np.random.Generator(np.random.PCG64(op[4]))
    n, kw = op[3], dict(approach="kernel", bandwidth=0.5, kernel="gaussian", workers=op[2])
    x, y = g.normal(size=n), g.normal(size=n)
    if op[1] == "h":
        return im.entropy(x, **kw)
    return (im.mutual_information if op[1] == "mi" else im.transfer_entropy)(x, y, **kw)


# ------------------------------------------------------------------ process state
def set_ambient(seed, scratch):
    import logging, signal, sys, warnings
    import numpy as np
    import scipy.special
    import infomeasure as im
    r = random.Random(seed)
    os.chdir(scratch)
    os.environ["TMPDIR"] = os.path.join(scratch, "tmp")
    os.mkdir(os.environ["TMPDIR"])
    tempfile.tempdir = None
    os.environ["VERIF_AMBIENT"] = str(r.random())
    for n in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS", "NUMEXPR_NUM_THREADS", "PYTHONHASHSEED"):
        os.environ.pop(n, None)
        if r.random() < 0.5:
            os.environ[n] = str(r.randrange(2, 9))
    np.random.seed(r.randrange(1 << 32))
    random.seed(r.random())
    np.seterr(**{k: r.choice(("ignore", "warn", "warn", "raise") if r.random() < 0.3 else ("ignore", "warn")) for k in ("divide", "over", "under", "invalid")})
    if r.random() < 0.3:
        scipy.special.seterr(all=r.choice(("warn", "ignore")))
    np.set_printoptions(precision=r.randrange(3, 12), suppress=r.random() < 0.5, threshold=r.choice((5, 1000)))
    warnings.resetwarnings()
    for _ in range(r.randrange(3)):
        warnings.simplefilter(r.choice(("ignore", "always", "default", "error")), r.choice((UserWarning, RuntimeWarning, DeprecationWarning)))
    warnings.showwarning = lambda *a, **k: None
    sys.setrecursionlimit(r.choice((1000, 1500, 4000)))
    signal.signal(signal.SIGINT, lambda *a: None if r else None)
    if r.random() < 0.5:
        signal.signal(signal.SIGALRM, _handler)
    logging.getLogger().setLevel(r.choice((10, 20, 30, 50)))
    im.Config.set_log_level(r.choice((10, 20, 30, 40)))
    logging.disable(r.choice((0, 0, 10)))
    if r.random() < 0.5:
        im.Config.set("base", r.choice((2, 10, 3.5)))
        im.Config.set("statistical_test_method", r.choice(E.METHODS))
    im.Config.set("statistical_test_n_tests", r.choice((2, 3, 4)))
    import gc
    gc.set_threshold(r.choice((700, 5000)), 10, 10)


def _handler(*a):
    pass


def state():
    import gc, locale, logging, multiprocessing, resource, signal, sys, threading, warnings
    import decimal
    import numpy as np
    import scipy.special
    import infomeasure as im
    s = {}
    rs = np.random.get_state()
    s["numpy global random generator"] = (rs[0], rs[1].tobytes(), *rs[2:])
    s["random module generator"] = random.getstate()
    s["floating-point error handling"] = (np.geterr(), id(np.geterrcall()), np.getbufsize())
    s["scipy error handling"] = scipy.special.geterr()
    s["warning filters"] = ([(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters], id(warnings.showwarning), warnings.defaultaction if hasattr(warnings, "defaultaction") else None)
    s["print options"] = {k: str(v) for k, v in np.get_printoptions().items()}
    s["settings"] = {k: im.Config.get(k) for k in ("base", "statistical_test_method", "statistical_test_n_tests")}
    lg = {}
    for n in ("", "infomeasure"):
        x = logging.getLogger(n)
        lg[n] = (x.level, [id(h) for h in x.handlers], [h.level for h in x.handlers], x.propagate, x.disabled, len(x.filters))
    for n, x in sorted(logging.root.manager.loggerDict.items()):
        if isinstance(x, logging.Logger) and (x.level or x.handlers or x.disabled or not x.propagate):
            lg[n] = (x.level, [id(h) for h in x.handlers], x.propagate, x.disabled)
    s["logging configuration"] = (lg, logging.root.manager.disable, logging.raiseExceptions, id(logging.lastResort), id(logging.getLoggerClass()), id(logging.getLogRecordFactory()))
    s["environment"] = dict(os.environ)
    s["working directory"] = os.getcwd()
    s["recursion limit"] = sys.getrecursionlimit()
    s["signal handlers"] = [(int(n), str(signal.getsignal(n))) for n in sorted(signal.valid_signals())] + [signal.getitimer(x) for x in (0, 1, 2)]
    s["signal mask"] = sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, [])))
    s["threads"] = sorted(t.name for t in threading.enumerate())
    s["children"] = len(multiprocessing.active_children())
    s["hooks"] = (id(sys.excepthook), id(sys.stdout), id(sys.stderr), id(sys.displayhook), sys.gettrace(), sys.getprofile(), id(threading.excepthook), id(sys.unraisablehook))
    s["import path"] = list(sys.path)
    s["garbage collector"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug())
    s["switch interval"] = sys.getswitchinterval()
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["decimal context"] = repr(decimal.getcontext())
    s["limits"] = [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_CPU, resource.RLIMIT_STACK)] + [os.getpriority(os.PRIO_PROCESS, 0)]
    s["start method"] = multiprocessing.get_start_method(allow_none=True)
    um = os.umask(0o22)
    os.umask(um)
    s["file mode mask"] = um
    s["integer digits limit"] = sys.get_int_max_str_digits()
    s["open files"] = sorted(_fds())
    s["files"] = sorted(os.path.join(d, f) for d, ds, fs in os.walk(os.environ.get("TMPDIR_ROOT", ".")) for f in fs + ds)
    s["worker pools"] = sum(p.state == "RUN" for p in W.pools)
    return s


def _fds():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append((int(f), os.readlink(f"/proc/self/fd/{f}")))
        except OSError:
            pass
    return out


def compare(a, b):
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                d = [i for i in sorted(set(x) | set(y)) if x.get(i) != y.get(i)]
                return k, f"{k}: " + ", ".join(f"{i} was {x.get(i)!r} is {y.get(i)!r}" for i in d[:4])
            return k, f"{k}: was {str(x)[:200]}, is {str(y)[:200]}"
    return None


def perform(h, op):
    if op[0] == "bad":
        try:
            bad_call(op[1], h.specs[op[2]])
            return ("answered",)
        except (KeyboardInterrupt, MemoryError, TimeoutError):
            raise
        except Exception as e:
            return ("exc", type(e).__name__)
    if op[0] == "big":
        try:
            return ("val", S.num(big_call(op)))
        except (Exception, KeyboardInterrupt) as e:
            return ("exc", type(e).__name__)
    return h.do(op)


def possible(h, op):
    return op[0] in ("bad", "big") or h.possible(op)


def where(h, op):
    if op[0] in ("bad", "big"):
        return f"{op[0]}-{op[1]}"
    s = h.specs[op[2]] if op[0] == "new" else h.spec_of(op)
    return f"{op[0]}/{s['m']}/{S.canon(s['a'])}"


def _dry(h, op, ab):
    faults.INJ.sites = {}
    try:
        n = faults.INJ.run(lambda: perform(h, op), grain=ab.get("grain", "call"))[1]
    except Exception:
        n = 0
    return faults.choose(faults.INJ.sites, n, ab["points"], random.Random(ab["salt"]))


def _abort(h, op, ab, ks):
    """Op aborted at each of the points in turn; what that left behind.  Runs in its own fork."""
    W.fired.clear()
    before = state()
    faults.INJ.sites = None
    log = []
    for k in ks:
        exc = ("MemoryError", "KeyboardInterrupt", "TimeoutError")[(k + ab["salt"]) % 3]
        try:
            res, n, fired = faults.INJ.run(lambda: perform(h, op), {k: exc}, grain=ab.get("grain", "call"))
        except Exception as e:
            res, n, fired = ("raised", type(e).__name__), 0, []
        log.append((k, exc, res[0], n, fired))
        c = compare(before, state())
        if c or not fired:
            break
    return log, c, dict(W.fired)


def _history(plan, scratch, aborting):
    """The run proper, in its own process and scratch folder."""
    set_ambient(plan["ambient"], scratch)
    W.pool_faults = {k: list(v) for k, v in plan["faults"].items()}
    h = E.History(plan)
    for i in range(len(plan["specs"])):
        h.inputs_of(i)
    stats = {"ops": {}, "approach": set(), "states_compared": 0, "aborted_calls": 0, "faults": {}}
    log, out = [], []
    faults.INJ.install()
    before = state()
    ab = plan.get("abort")
    for i, op in enumerate(plan["ops"]):
        if not possible(h, op):
            continue
        w = where(h, op)
        if aborting and i == ab["op"]:
            st, r = zygote.fork_call(_dry, 60, h, op, ab)
            ks = ab["only"] if ab.get("only") else r if st == "ok" else []
            if ks:
                st, r = zygote.fork_call(_abort, 60, h, op, ab, ks)
                if st != "ok":
                    raise RuntimeError(f"aborted call {st}: {r}")
                log.append((op[0], r[0]))
                stats["aborted_calls"] += sum(bool(x[4]) for x in r[0])
                stats["states_compared"] += len(r[0])
                merge(stats["faults"], r[2])
                if r[1]:
                    ks = ks[:len(r[0])]
                    st, alone = zygote.fork_call(_abort, 60, h, op, ab, ks[-1:])
                    k, exc, _, _, fired = r[0][-1]
                    out.append({"cls": f"{r[1][0]}/aborted", "msg": f"after {w} aborted by {exc} at point {k} {fired}: {r[1][1]}",
                                "hint": {"abort": dict(ab, only=ks[-1:] if st == "ok" and alone[1] else ks)}})
            break
        got = perform(h, op)
        log.append((op[0], got if op[0] != "big" else got[0]))
        if aborting:
            continue
        stats["ops"][op[0]] = stats["ops"].get(op[0], 0) + 1
        stats["approach"].add(w)
        stats["states_compared"] += 1
        c = compare(before, state())
        if c:
            out.append({"cls": c[0], "msg": f"after {w}: {c[1]}"})
            break
    stats["approach"] = list(stats["approach"])
    if not aborting:
        merge(stats["faults"], dict(W.fired))
    return out, log, stats


def _in_scratch(fn, timeout, plan, *args):
    d = tempfile.mkdtemp(prefix="verif-c10-")
    try:
        return zygote.fork_call(fn, timeout, plan, d, *args)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, list):
            a[k] = sorted(set(a.get(k, [])) | set(v))
        else:
            a[k] = a.get(k, 0) + v


def execute(plan):
    st, r = _in_scratch(_history, 100, plan, False)
    if st != "ok":
        raise RuntimeError(f"history {st}: {r}")
    out, log, stats = r
    ab = plan.get("abort")
    if ab and not out and ab["op"] < len(plan["ops"]):
        st, r = _in_scratch(_history, 100, plan, True)
        if st != "ok":
            raise RuntimeError(f"aborted history {st}: {r}")
        log.append(r[1])
        out += r[0]
        merge(stats, r[2])
    sg = hashlib.sha256(repr((E.shape({"specs": plan["specs"], "ops": [o for o in plan["ops"] if o[0] not in ("bad", "big")]}),
                              [o for o in plan["ops"] if o[0] in ("bad", "big")], [sorted(map(str, s["kw"].items())) for s in plan["specs"]], ab)).encode()).hexdigest()[:16]
    return {"violations": out[:3], "stats": stats, "sig": sg, "nontrivial": stats["states_compared"] > 0, "log": log,
            "sample": {"ops": [o[:2] for o in plan["ops"]], "specs": [f"{s['m']}/{s['a']}" for s in plan["specs"]], "abort": ab, "faults": plan["faults"]}}
