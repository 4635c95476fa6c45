"""C11: first use may fail or come in any order."""
import copy
import dis
import hashlib
import sys
from sim import specs as S, engine as E, zygote, seams, faults
from sim.seams import W

PROP = "C11"
LEVEL = "exploration"
RULE = ("one evaluation = one fresh interpreter without the library, in which a random sequence of first uses runs through "
        "random entry points and aliases, some failing at a chosen import statement, executed line or file read during the "
        "loading; answers and classes are compared with those of a process that loaded everything undisturbed; two "
        "evaluations are distinct when sequence, entry points or fault points differ")
TIERS = {"quick": {"runs": 1500, "cap_s": 100, "timeout_s": 90, "recheck": 24, "min_s": 40},
         "thorough": {"runs": 120000, "cap_s": 3400, "timeout_s": 200, "recheck": 300, "min_s": 150}}
ZYGOTE = ("no_import",)
REAL = ["all of infomeasure and its loading", "the import system", "numpy", "scipy", "sparse"]
STUB = ["failing imports, reads and lines", "OS entropy", "clock", "cpu_count", "multiprocessing.Pool", "numba JIT disabled"]
ASSUMPTIONS = ["third-party packages are already loaded", "answers are compared up to 2e-4 where the library adds unseeded noise"]

FUNCS = {"h": ("entropy", "h"), "mi": ("mutual_information", "mi"), "cmi": ("conditional_mutual_information", "cmi", "mutual_information", "mi"),
         "te": ("transfer_entropy", "te"), "cte": ("conditional_transfer_entropy", "cte", "transfer_entropy", "te")}
MNAMES = {"h": ("h", "H", "entropy", "Entropy"), "mi": ("mi", "MI", "mutual_information", "Mutual Information", "mutual-information"),
          "cmi": ("cmi", "CMI", "mi", "conditional_mutual_information", "Conditional-Mutual Information", "mutual_information"),
          "te": ("te", "TE", "transfer_entropy", "Transfer Entropy", "transfer-entropy"),
          "cte": ("cte", "CTE", "te", "conditional_transfer_entropy", "conditional transfer entropy")}
CNAMES = {"h": ("h", "entropy", "Entropy"), "mi": ("mi", "MI", "mutual_information"), "cmi": ("cmi", "conditional_mutual_information"),
          "te": ("te", "Transfer_Entropy", "transfer_entropy"), "cte": ("cte", "CTE", "conditional_transfer_entropy")}
PKG_OF = {"h": "entropy", "mi": "mutual_information", "cmi": "mutual_information", "te": "transfer_entropy", "cte": "transfer_entropy"}
KINDS = ("import", "import", "line", "line", "read")
EXCS = {"import": ("ImportError", "ModuleNotFoundError", "MemoryError", "KeyboardInterrupt", "OSError"),
        "line": ("MemoryError", "KeyboardInterrupt", "TimeoutError"), "read": ("OSError", "MemoryError", "KeyboardInterrupt")}
ORDINARY = (ImportError, OSError)


def gen(rng, tier, i):
    n = rng.choice((1, 2, 3, 4, 6))
    specs = []
    fm = rng.choice(S.MEASURES) if rng.random() < 0.3 else None
    fa = S.APPROACHES[i % len(S.APPROACHES)] if rng.random() < 0.6 else None
    for _ in range(n):
        s = S.gen_spec(rng, measure=fm if rng.random() < 0.7 else None, approach=fa if rng.random() < 0.5 else None,
                       containers=False, alias=False, n=rng.randrange(10, 16), cross=True)
        specs.append(s)
    ops = []
    # how the library comes in: plain import, or some deep module first
    r = rng.random()
    if r < 0.55:
        ops.append(["import", "infomeasure"])
    elif r < 0.7:
        ops.append(["import", rng.choice(("infomeasure.estimators", "infomeasure.utils", "infomeasure.utils.config", "infomeasure.utils.data",
                                          "infomeasure.estimators.base", "infomeasure.estimators.functional", "infomeasure.composite_measures",
                                          "infomeasure.estimators.entropy", "infomeasure.estimators.mutual_information",
                                          "infomeasure.estimators.transfer_entropy", "infomeasure.estimators.mixins"))])
    elif r < 0.8:
        ops.append(["module", rng.randrange(n)])
    for j in rng.sample(range(n), n):
        ops.append(["use", j, entry(rng, specs[j])])
        while rng.random() < 0.35:
            ops.append(rng.choice((["again", j], ["use", j, entry(rng, specs[j])], ["classes", j, rng.randrange(1 << 20)],
                                   ["use", rng.randrange(n), None])))
            if ops[-1][0] == "use" and ops[-1][2] is None:
                ops[-1][2] = entry(rng, specs[ops[-1][1]])
        k = specs[j]
        if k["m"] == "h" and len(k["data"]) == 2 and not k.get("joint"):
            for d, ok in (("jsd", E.JSD_OK), ("kld", E.KLD_OK)):
                if k["a"] in ok and rng.random() < 0.4:
                    ops.append(["div", j, d, rng.choice((0, 1)), entry(rng, k)["a"]])
    faults = []
    if rng.random() < 0.75:
        for _ in range(rng.choice((1, 1, 2, 3))):
            kind = rng.choice(KINDS)
            faults.append({"op": min(rng.choice((0, 0, 1, rng.randrange(len(ops)))), len(ops) - 1), "kind": kind,
                           "exc": rng.choice(EXCS[kind]), "u": rng.random(), "retry": rng.choice(("now", "now", "later"))})
    return {"specs": specs, "ops": ops, "faults": faults}


def entry(rng, spec):
    m, a = spec["m"], spec["a"]
    al = (a,) + S.ALIASES["h" if m == "h" else "other"].get(a, ())
    name = rng.choice(al)
    if rng.random() < 0.2:
        name = rng.choice((name.upper(), name.title()))
    via = rng.choice(("estimator", "func", "class", "direct"))
    if m == "h" and len(spec["data"]) == 1 and not spec.get("joint") and rng.random() < 0.3:
        al = (a,) + S.ALIASES["other"].get(a, ())
        return {"via": "single", "a": rng.choice(al), "name": rng.choice(MNAMES["mi"])}
    if via == "func":
        if m == "h" and len(spec["data"]) == 2 and not spec.get("joint"):
            nm = rng.choice(("cross_entropy", "hx", "entropy", "h"))
        else:
            nm = rng.choice(FUNCS[m])
    elif via == "estimator":
        nm = rng.choice(MNAMES[m])
        if m == "h" and len(spec["data"]) == 2 and not spec.get("joint"):
            nm = rng.choice(("cross_entropy", "hx", "entropy", "Cross-Entropy"))
    else:
        nm = rng.choice(CNAMES[m])
    return {"via": via, "a": name, "name": nm}


def shrink(plan):
    for i in range(len(plan["faults"])):
        p = copy.deepcopy(plan)
        del p["faults"][i]
        yield p
    yield from E.drop_specs(plan)


# ------------------------------------------------------------------ failing loads
IMPORT_NAME = dis.opmap["IMPORT_NAME"]


class Loader:
    """Counts import statements, executed lines and file reads of the library while it
    loads, and raises at the one asked for."""

    TOOL = 3

    def __init__(self):
        import builtins
        import importlib.machinery as mach
        self.mon = sys.monitoring
        self.on = False
        self.counts = {}
        self.at = None
        self.exc = None
        self.fired = None
        self.in_self = False
        real_import = builtins.__import__
        real_get = mach.SourceFileLoader.get_data
        me = self

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if me.on:
                f = sys._getframe(1)
                if name.split(".")[0] == "infomeasure" or seams.in_pkg(f.f_code.co_filename) \
                        and f.f_code.co_code[f.f_lasti] == IMPORT_NAME:      # not numpy importing from C
                    me.hit("import", name or "." * level)
            return real_import(name, globals, locals, fromlist, level)

        def get_data(ldr, path):
            if me.on and ("infomeasure" in str(path)):
                me.hit("read", str(path).rsplit("/", 1)[-1])
            return real_get(ldr, path)

        builtins.__import__ = imp
        mach.SourceFileLoader.get_data = get_data
        self.mon.use_tool_id(self.TOOL, "verif-load")
        self.mon.register_callback(self.TOOL, self.mon.events.LINE, self.line)

    def line(self, code, no):
        if not seams.in_pkg(code.co_filename):
            return self.mon.DISABLE
        if not self.on:
            return
        body = not code.co_flags & 1            # module or class body
        if not body:
            if self.in_self:
                return
            if code.co_argcount and code.co_varnames[0] == "self":
                self.in_self = True             # an estimator has been made: no longer loading
                return
        if no not in faults.busy_lines(code) or no in faults.skipped_lines(code.co_filename):
            return
        self.hit("line", f"{code.co_name}:{no}")

    def hit(self, kind, what):
        n = self.counts[kind] = self.counts.get(kind, 0) + 1
        if self.at == (kind, n):
            self.fired = (kind, n, what)
            W.fire(f"{self.exc}_at_{kind}")
            e = {"ImportError": ImportError, "ModuleNotFoundError": ModuleNotFoundError, "MemoryError": MemoryError,
                 "KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError, "TimeoutError": TimeoutError}[self.exc]
            raise (e(5, "injected") if e is OSError else e("injected"))

    def run(self, fn, at=None, exc=None):
        self.counts, self.at, self.exc, self.fired, self.in_self = {}, at, exc, None, False
        self.on = True
        self.mon.restart_events()
        self.mon.set_events(self.TOOL, self.mon.events.LINE)
        try:
            try:
                return ("ok", fn())
            finally:
                self.on = False
                self.mon.set_events(self.TOOL, 0)
        except BaseException as e:
            if self.fired is None:
                raise
            return ("raised", e)


def chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


# ------------------------------------------------------------------ asking
def answer(spec, ent, classes, inputs=None):
    """(outcome, class or None, estimator or None) through the entry point."""
    import importlib
    inp = inputs or S.Inputs(spec)
    via = ent["via"]
    est = cls = None
    try:
        if via == "func":
            import infomeasure as im
            return ("val", S.num(getattr(im, ent["name"])(*inp.args(), approach=ent["a"], **inp.kwargs()))), None, None
        if via in ("estimator", "single"):
            import infomeasure as im
            est = im.estimator(*inp.args(), measure=ent["name"], approach=ent["a"], **inp.kwargs())
            cls = type(est)
        else:
            if via == "class":
                import infomeasure as im
                cls = im.get_estimator_class(measure=ent["name"], approach=ent["a"])
            else:
                mod = importlib.import_module(f"infomeasure.estimators.{PKG_OF[spec['m']]}")
                cls = getattr(mod, classes[1])
            est = cls(*inp.args(), **inp.kwargs())
        return S.ask(est, ("res",)), cls, est
    except (KeyboardInterrupt, MemoryError, TimeoutError, ImportError, OSError):
        raise
    except Exception as e:
        return ("exc", type(e).__name__), cls, None


CANON = {"h": "h", "mi": "mi", "cmi": "cmi", "te": "te", "cte": "cte"}


def _golden(specs):
    """Answers and class names of a process that loaded everything undisturbed."""
    seams.import_library(preload=True)
    out = []
    for s in specs:
        o, cls, _ = answer(s, {"via": "class", "a": s["a"], "name": CANON[s["m"]]}, None)
        d = {k: E.divergence(k, s) for k, ok in (("jsd", E.JSD_OK), ("kld", E.KLD_OK))
             if s["m"] == "h" and len(s["data"]) == 2 and not s.get("joint") and s["a"] in ok}
        out.append((o, (cls.__module__, cls.__qualname__) if cls else None, d))
    return out


def quiet():
    import logging
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(logging.NullHandler())
    lg = logging.getLogger("infomeasure")
    if lg.level != logging.ERROR:
        lg.setLevel(logging.ERROR)


def divergence(plan, op):
    import infomeasure as im
    s = plan["specs"][op[1]]
    inp = S.Inputs(s)
    f = getattr(im, {"jsd": ("jensen_shannon_divergence", "jsd"), "kld": ("kullback_leiber_divergence", "kld")}[op[2]][op[3]])
    try:
        return ("val", S.num(f(*inp.data, approach=op[4], **inp.kwargs())))
    except (KeyboardInterrupt, MemoryError, TimeoutError, ImportError, OSError):
        raise
    except Exception as e:
        return ("exc", type(e).__name__)


def stale_bases(cls):
    """Classes in the ancestry that the loaded modules no longer contain."""
    for k in cls.__mro__:
        if k.__module__.split(".")[0] == "infomeasure" and "<locals>" not in k.__qualname__ and k.__qualname__.isidentifier():
            m = sys.modules.get(k.__module__)
            if m is None or getattr(m, k.__qualname__, None) is not k:
                return f"{k.__module__}.{k.__qualname__}"
    return None


def _run(plan, golden):
    L = Loader()
    out, log = [], []
    stats = {"ops": {}, "entries": {}, "load_points": 0, "failed_loads": 0, "retries": 0, "approach": set()}
    held = {}                      # spec -> (estimator, its answer)
    classes = {}                   # (measure, canonical approach) -> class

    def bad(cls, msg):
        out.append({"cls": cls, "msg": msg})

    def same(i, got, what=None):
        exp = golden[i][0] if what is None else golden[i][2][what]
        s = plan["specs"][i]
        tol = 0 if seed_fixes(s) and what is None else S.tol_for(s)
        if what or S.canon(s["a"]) in ("metric", "renyi", "tsallis"):
            tol = max(tol, 2e-4) if not (seed_fixes(s) and what is None) else tol
        if S.close(got, exp, tol):
            return True
        return tol > 1e-6 and E.jitter_explains(s, ("res",) if what is None else (what,), got, tol)

    def do(op):
        k = op[0]
        if stats["failed_loads"] and "infomeasure" not in sys.modules:
            # the import of the package itself failed: the next attempt starts with that import.  (Python would
            # otherwise look for submodules below a parent that is gone, for any package.)
            import infomeasure  # noqa
            quiet()
        if k == "import":
            __import__(op[1])
            quiet()
            return None
        if k == "module":
            g = golden[op[1]][1]
            if g:
                __import__(g[0], fromlist=[g[1]])
                quiet()
            return None
        if k == "use":
            return answer(plan["specs"][op[1]], op[2], golden[op[1]][1])
        if k == "div":
            return divergence(plan, op)
        if k == "again":
            return S.ask(held[op[1]][0], ("calc",))
        if k == "classes":
            import random
            import infomeasure as im
            r = random.Random(op[2])
            s = plan["specs"][op[1]]
            got = []
            for _ in range(3):
                al = (s["a"],) + S.ALIASES["h" if s["m"] == "h" else "other"].get(s["a"], ())
                got.append(im.get_estimator_class(measure=r.choice(CNAMES[s["m"]]), approach=r.choice(al)))
            return got

    def check(op, r, note):
        k = op[0]
        w = {"use": lambda: f"use-{op[2]['via']}", "div": lambda: op[2]}.get(k, lambda: k)()
        if k in ("import", "module"):
            return
        i = op[1]
        s = plan["specs"][i]
        tag = f"{s['m']}/{s['a']}"
        if k == "use":
            got, cls, est = r
            if not same(i, got):
                bad(f"answer/{w}", f"{tag} via {op[2]}{note}: {got}, undisturbed {golden[i][0]}")
            g = golden[i][1]
            if cls is not None and g and (cls.__module__, cls.__qualname__) != tuple(g):
                bad(f"class/{w}", f"{tag} via {op[2]}{note}: class {cls}, undisturbed {g}")
            if cls is not None:
                same_class(s, cls, op, note)
            if est is not None:
                held[i] = (est, got)
            log.append((k, got if seed_fixes(s) else got[0]))
        elif k == "div":
            if not same(i, r, op[2]):
                bad(f"answer/{w}", f"{tag} {op}{note}: {r}, undisturbed {golden[i][2][op[2]]}")
            log.append((k, r[0]))
        elif k == "again":
            if not S.is_jittered(s) and not S.close(r, held[i][1], 0):
                bad("in-use", f"{tag}: an estimator in use answers {r}, before {held[i][1]}{note}")
        elif k == "classes":
            for c in r:
                same_class(s, c, op, note)

    def same_class(s, cls, op, note):
        key = (s["m"], S.canon(s["a"]))
        if classes.setdefault(key, cls) is not cls:
            bad("class/identity", f"{key} {op}{note}: another class object than at an earlier use")
        b = stale_bases(cls)
        if b:
            bad("class/stale", f"{key} {op}{note}: {cls} derives from {b}, which its module no longer has")

    queue = [(i, op) for i, op in enumerate(plan["ops"])]
    while queue and not out:
        i, op = queue.pop(0)
        if op[0] == "again" and op[1] not in held:
            continue
        if op[0] == "div" and op[2] not in golden[op[1]][2]:
            continue
        stats["ops"][op[0]] = stats["ops"].get(op[0], 0) + 1
        if op[0] == "use":
            stats["entries"][op[2]["via"]] = stats["entries"].get(op[2]["via"], 0) + 1
            stats["approach"].add(f"{plan['specs'][op[1]]['m']}/{plan['specs'][op[1]]['a']}")
        note = ""
        again_later = False
        done = False
        for f in [f for f in plan["faults"] if f["op"] == i]:
            # how many points does this load pass?  count in a forked twin of this very process
            if f.get("at") is None:
                st, n = zygote.fork_call(_count, 60, L, do, op)
                if st != "ok":
                    raise RuntimeError(f"count {st}: {n}")
                total = n.get(f["kind"], 0)
                if not total:
                    continue
                at = 1 + int(f["u"] * total)
            else:
                at = f["at"]
            stats["load_points"] += 1
            st, r = L.run(lambda: do(op), (f["kind"], at), f["exc"])
            where = f" (after {f['exc']} at {L.fired})"
            if L.fired is None:
                check(op, r, note)
                done = True
                break
            quiet()
            stats["failed_loads"] += 1
            if st == "ok":
                if f["exc"] in ("MemoryError", "KeyboardInterrupt", "TimeoutError"):
                    bad(f"swallowed/{f['exc']}", f"{op}: {f['exc']} at {L.fired} while loading did not reach the caller")
                else:
                    check(op, r, where)      # an absorbed failure must at least not change the answer
                done = True
                break
            if f["exc"] not in [type(e).__name__ for e in chain(r)]:
                bad("error/lost", f"{op}: {f['exc']} at {L.fired} reached the caller as {type(r).__name__}: {r}")
            note = where
            del r
            # what is in use keeps working
            for j, (est, ans) in held.items():
                s = plan["specs"][j]
                if ans[0] != "val" or S.is_jittered(s):
                    continue
                now = S.ask(est, ("calc",))
                if not S.close(now, ans, 0):
                    bad("in-use", f"{s['m']}/{s['a']}: an estimator in use answers {now}, before {ans}{note}")
            if f["retry"] == "later":
                again_later = True
                break
        if out:
            break
        if done:
            continue
        if again_later:
            queue.append((-1, op))
            continue
        if note:
            stats["retries"] += 1
        try:
            r = do(op)
        except BaseException as e:
            if op[0] in ("import", "module") and not note:
                raise
            bad("retry/fails" if note or i == -1 else "use/fails", f"{op}{note}: {type(e).__name__}: {e}")
            break
        check(op, r, note)
    stats["approach"] = list(stats["approach"])
    stats["faults"] = dict(W.fired)
    return out, log, stats


def _count(L, do, op):
    try:
        L.run(lambda: do(op))
    except Exception:
        pass
    return L.counts


def seed_fixes(spec):
    return ("seed" in spec and spec["m"] != "h") or not S.is_jittered(spec) and S.canon(spec["a"]) not in ("metric", "renyi", "tsallis")


def execute(plan):
    st, golden = zygote.fork_call(_golden, 80, plan["specs"])
    if st != "ok":
        raise RuntimeError(f"undisturbed {st}: {golden}")
    st, r = zygote.fork_call(_run, 80, plan, golden)
    if st != "ok":
        raise RuntimeError(f"run {st}: {r}")
    out, log, stats = r
    shape = ([(o[0], o[1] if o[0] == "import" else None, o[2] if len(o) > 2 and o[0] == "use" else None) for o in plan["ops"]],
             [(s["m"], s["a"]) for s in plan["specs"]], [(f["op"], f["kind"], f["exc"], round(f["u"], 4)) for f in plan["faults"]])
    return {"violations": out[:3], "stats": stats, "sig": hashlib.sha256(repr(shape).encode()).hexdigest()[:16],
            "nontrivial": bool(stats["ops"]), "log": log,
            "sample": {"ops": [o[:2] + [o[2]["via"]] if o[0] == "use" else o[:2] for o in plan["ops"]],
                       "specs": [f"{s['m']}/{s['a']}" for s in plan["specs"]],
                       "faults": [[f["op"], f["kind"], f["exc"]] for f in plan["faults"]]}}
