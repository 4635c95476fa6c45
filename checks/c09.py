"""C09: settings take effect at once, for everything after, and only when valid."""
import copy
import hashlib
from sim import specs as S, engine as E, zygote
from sim.seams import W

PROP = "C09"
LEVEL = "exploration"
RULE = ("one evaluation = one simulated process: a random history of settings (accepted, refused, reset, unit helpers) "
        "interleaved with constructions, values, tests, functional calls and divergences, refined against a small map "
        "model and against pristine processes asked with the model's base passed explicitly; two evaluations are "
        "distinct when their histories or estimators differ")
TIERS = {"quick": {"runs": 6000, "cap_s": 100, "timeout_s": 100, "recheck": 16, "min_s": 40},
         "thorough": {"runs": 150000, "cap_s": 3400, "timeout_s": 150, "recheck": 200, "min_s": 120}}
REAL = ["all of infomeasure", "numpy", "scipy", "sparse"]
STUB = ["OS entropy", "clock", "cpu_count", "multiprocessing.Pool", "numba JIT disabled"]
ASSUMPTIONS = ["bases are positive numbers other than 1, or 'e'; booleans as numbers are not exercised",
               "a pristine process answers correctly when the base is passed explicitly"]
UNITS = {2: (("bits", "bit", "shannons", "shannon", "Bits", "SHANNON"), "bit/shannon"),
         "e": (("nats", "nat", "nit", "nepit", "Nat"), "nat/nit/nepit"),
         10: (("hartleys", "hartley", "bans", "ban", "dits", "dit", "DIT"), "hartley/ban/dit")}
DEFAULTS = {"base": "e", "statistical_test_method": "permutation_test", "statistical_test_n_tests": 200}
BAD = (("base", None), ("base", "2"), ("base", "bits"), ("base", "E"), ("base", [2]), ("base", 2j), ("base", ""),
       ("statistical_test_n_tests", 2.5), ("statistical_test_n_tests", "7"), ("statistical_test_n_tests", None), ("statistical_test_n_tests", 3.0),
       ("statistical_test_method", "foo"), ("statistical_test_method", None), ("statistical_test_method", 3),
       ("statistical_test_method", "Bootstrap"), ("statistical_test_method", ""),
       ("Base", 2), ("n_tests", 3), ("", 1), ("statistical_test", 5), (None, 2), ("log_level", 10))


def gen(rng, tier, i):
    m = rng.choice(S.MEASURES)
    a = S.APPROACHES[i % len(S.APPROACHES)] if rng.random() < 0.7 else None
    if rng.random() < 0.2:
        return gen_defaults(rng, a)
    specs = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        s = S.gen_spec(rng, measure=m if rng.random() < 0.6 else None, approach=a if rng.random() < 0.7 else None,
                       n=rng.choice((9, 12, None)))
        if rng.random() < 0.85:
            s["kw"].pop("base", None)
        if rng.random() < 0.6 and S.is_jittered(s):
            s["kw"]["noise_level"] = 0
        specs.append(s)
    if rng.random() < 0.25:
        ap = rng.choice(E.JSD_OK + E.KLD_OK)
        s = S.gen_spec(rng, measure="h", approach=ap)
        for _ in range(30):
            if len(s["data"]) == 2 and not s.get("joint"):
                break
            s = S.gen_spec(rng, measure="h", approach=ap)
        s["kw"].pop("base", None)
        specs.append(s)
    ops = []
    live = {}
    tests = False
    for _ in range(rng.choice((5, 8, 12, 18))):
        r = rng.random()
        if r < 0.27:
            k = rng.choices(("base", "n", "m", "unit"), (5, 2, 2, 3))[0]
            if k == "base":
                ops.append(["set", "base", rng.choice(S.BASES + (2.0, 4))])
            elif k == "n":
                ops.append(["set", "statistical_test_n_tests", rng.choice((2, 3, 5, 7, 10))])
            elif k == "m":
                ops.append(["set", "statistical_test_method", rng.choice(E.METHODS)])
            else:
                ops.append(["unit", rng.choice([u for v in UNITS.values() for u in v[0]])])
        elif r < 0.42:
            ops.append(rng.choice((["bad", rng.randrange(len(BAD))], ["bad", rng.randrange(len(BAD))], ["badunit", rng.choice(("foo", "", "base2", "bitsy", None, 2, "e"))],
                                   ["badget", rng.choice(("foo", None, "BASE"))])))
        elif r < 0.5:
            ops.append(["reset"] if rng.random() < 0.5 else ["look"])
        elif r < 0.7 or not live:
            s = rng.randrange(4)
            live[s] = rng.randrange(len(specs))
            ops.append(["new", s, live[s]])
        elif r < 0.78:
            ops.append(["func", rng.randrange(len(specs))])
        elif r < 0.83:
            c = [j for j, s in enumerate(specs) if s["m"] == "h" and len(s["data"]) == 2 and not s.get("joint")]
            if c:
                j = rng.choice(c)
                ok = [n for n, l in (("jsd", E.JSD_OK), ("kld", E.KLD_OK)) if S.canon(specs[j]["a"]) in l]
                if ok:
                    ops.append([rng.choice(ok), j])
        else:
            s = rng.choice(list(live))
            m_ = specs[live[s]]["m"]
            k = rng.choice(("res", "res", "loc", "calc", "test", "test", "eff"))
            if k == "test" and m_ != "h":
                ops.append(["test", s, rng.choice((None, None, 2, 4)), rng.choice((None, None) + E.METHODS)])
                tests = True
            elif k == "eff" and m_ in ("te", "cte"):
                ops.append(["eff", s, rng.choice((None, None) + E.METHODS)])
            else:
                ops.append([k if k in ("res", "loc", "calc") else "res", s])
    if tests and rng.random() < 0.95:
        ops.insert(0, ["set", "statistical_test_n_tests", rng.choice((3, 4, 6))])
        ops = [o for o in ops if o != ["reset"] or rng.random() < 0.15]
    threads = [j for j in range(len(ops)) if rng.random() < 0.3] if rng.random() < 0.3 else []
    return {"specs": specs, "ops": ops, "aside": threads}


def gen_defaults(rng, a):
    """A history about the configured defaults of a significance test and of the effective value."""
    specs = []
    for _ in range(rng.choice((1, 2))):
        s = S.gen_spec(rng, measure=rng.choice(("te", "te", "te", "mi", "cmi")), approach=a, n=rng.choice((14, 20, 30)))
        s["seed"] = rng.randrange(1, 1000)
        if S.is_jittered(s):
            s["kw"]["noise_level"] = 0
        if rng.random() < 0.7:
            s["kw"].pop("base", None)
        specs.append(s)
    ops = [["set", "statistical_test_n_tests", rng.choice((2, 3, 4))]]
    for _ in range(rng.randrange(3, 8)):
        j = rng.randrange(len(specs))
        te = specs[j]["m"] == "te"
        ops.append(rng.choice((
            ["set", "statistical_test_method", rng.choice(E.METHODS)],
            ["set", "statistical_test_method", "bootstrap"],
            ["set", "base", rng.choice((2, 3, 10, "e"))],
            ["set", "statistical_test_n_tests", rng.choice((2, 3, 5))],
            ["bad", rng.randrange(len(BAD))])))
        ops.append(["new", j, j])
        for _ in range(rng.choice((1, 1, 2))):
            q = rng.choice(("eff", "eff", "test", "res"))
            if q == "eff" and te:
                ops.append(["eff", j, rng.choice((None, None, None) + E.METHODS)])
            elif q == "res":
                ops.append(["res", j])
            else:
                ops.append(["test", j, rng.choice((None, None, 2)), rng.choice((None, None) + E.METHODS)])
    threads = [j for j in range(len(ops)) if rng.random() < 0.3] if rng.random() < 0.2 else []
    return {"specs": specs, "ops": ops, "aside": threads}


def elsewhere(fn):
    """fn() in another thread, which ends before we go on."""
    import threading
    box = []

    def body():
        try:
            box.append((True, fn()))
        except BaseException as e:
            box.append((False, e))

    t = threading.Thread(target=body)
    t.start()
    t.join()
    if not box[0][0]:
        raise box[0][1]
    return box[0][1]


def shrink(plan):
    if plan.get("aside"):
        yield dict(copy.deepcopy(plan), aside=[])
    yield from E.drop_specs(plan)


def with_base(spec, base):
    s = copy.deepcopy(spec)
    s["kw"].setdefault("base", base)
    return s


def _test(spec, n, method):
    return E.fresh(spec, ("test", n, method))


def simulate(plan):
    """Which base each call should use (a dry run of the model)."""
    model = dict(DEFAULTS)
    slot_base, slot_spec = {}, {}
    want = {}
    for i, op in enumerate(plan["ops"]):
        k = op[0]
        if k == "set":
            model[op[1]] = op[2]
        elif k == "unit":
            model["base"] = next(b for b, v in UNITS.items() if op[1] in v[0])
        elif k == "reset":
            model = dict(DEFAULTS)
        elif k == "new":
            slot_base[op[1]], slot_spec[op[1]] = model["base"], op[2]
        elif k in ("func", "jsd", "kld"):
            want[i] = (with_base(plan["specs"][op[1]], model["base"]), (k,))
        elif k in ("res", "loc", "calc", "test", "eff") and op[1] in slot_spec:
            q = ("res",) if k in ("calc", "test") else ("res",) if k == "eff" else (k,)
            want[i] = (with_base(plan["specs"][slot_spec[op[1]]], slot_base[op[1]]), q)
    return want


def execute(plan):
    import infomeasure as im
    out, log = [], []
    stats = {"ops": {}, "refused": 0, "judged": 0, "tests_compared": 0, "approach": {}, "base_changes_after_construction": 0, "in_another_thread": 0}
    g = E.Golden()
    want = {}
    for i, (s, q) in simulate(plan).items():
        want[i] = (s, q, g.get(s, q))
    model = dict(DEFAULTS)
    h = E.History(plan)
    drawn = set()                     # slots that have used their generator
    slot_base = {}

    def settings():
        return {k: im.Config.get(k) for k in DEFAULTS}

    def bad(cls, msg):
        out.append({"cls": cls, "msg": msg})

    threads = set(plan.get("aside") or ())
    for i, op in enumerate(plan["ops"]):
        if out:
            break
        k = op[0]
        at = elsewhere if i in threads else (lambda fn: fn())
        stats["in_another_thread"] += i in threads
        stats["ops"][k] = stats["ops"].get(k, 0) + 1
        if k == "set":
            try:
                at(lambda: im.Config.set(op[1], op[2]))
            except Exception as e:
                bad(f"set-refused/{op[1]}", f"Config.set({op[1]!r}, {op[2]!r}) raised {type(e).__name__}: {e}")
                break
            model[op[1]] = op[2]
        elif k == "unit":
            try:
                at(lambda: im.Config.set_logarithmic_unit(op[1]))
            except Exception as e:
                bad("unit-refused", f"set_logarithmic_unit({op[1]!r}) raised {type(e).__name__}: {e}")
                break
            model["base"] = next(b for b, v in UNITS.items() if op[1] in v[0])
        elif k == "reset":
            at(im.Config.reset)
            model = dict(DEFAULTS)
        elif k in ("bad", "badunit", "badget"):
            try:
                if k == "bad":
                    what = f"Config.set{BAD[op[1]]!r}"
                    at(lambda: im.Config.set(*BAD[op[1]]))
                elif k == "badunit":
                    what = f"set_logarithmic_unit({op[1]!r})"
                    at(lambda: im.Config.set_logarithmic_unit(op[1]))
                else:
                    what = f"Config.get({op[1]!r})"
                    im.Config.get(op[1])
                bad("accepted", f"{what} was accepted; settings {settings()}")
                break
            except Exception:
                stats["refused"] += 1
        if k in ("set", "unit", "reset", "bad", "badunit", "badget", "look"):
            now = settings()
            if repr(now) != repr(model):
                bad(f"map/{k}", f"after {op if k != 'bad' else BAD[op[1]]}: settings {now}, should be {model}")
                break
            name = next((v[1] for b, v in UNITS.items() if b == model["base"]), None)
            un = im.Config.get_logarithmic_unit()
            if (name is not None and un != name) or (name is None and un in [v[1] for v in UNITS.values()]):
                bad("unit-name", f"base {model['base']!r}: unit reported as {un!r}")
                break
            de = S.ask_any(lambda: im.Config.get_logarithmic_unit_description())
            if (de[0] == "exc") != (name is None):
                bad("unit-description", f"base {model['base']!r}: description {de}")
                break
            log.append((k, now))
            continue
        if k == "new":
            got = at(lambda: h.do(op))
            drawn.discard(op[1])
            slot_base[op[1]] = model["base"]
            log.append((k, got))
            continue
        if not h.possible(op):
            continue
        spec, q, exp = want[i]
        orig = plan["specs"][op[1]] if k in ("func", "jsd", "kld") else h.spec_of(op)
        where = f"{spec['m']}/{S.canon(spec['a'])}"
        stats["approach"][f"{where}/{k}"] = 1
        if k in ("res", "loc", "calc", "test", "eff") and slot_base[op[1]] != model["base"]:
            stats["base_changes_after_construction"] += 1
        tol = S.tol_for(spec)
        noisy = S.canon(spec["a"]) in ("metric", "renyi", "tsallis") and spec["kw"].get("noise_level", 1) != 0
        if noisy:
            tol = 2e-4
        if k in ("test", "eff"):
            n, m = (op[2], op[3]) if k == "test" else (1, op[2])
            wn, wm = n if n is not None else model["statistical_test_n_tests"], m or model["statistical_test_method"]
            try:
                if k == "test":
                    got = ("test", S.report(at(lambda: h.slots[op[1]].statistical_test(n, m))))
                else:
                    got = ("eff", S.num(at(lambda: h.slots[op[1]].effective_val(m))))
            except (KeyboardInterrupt, MemoryError, TimeoutError):
                raise
            except Exception as e:
                got = ("exc", type(e).__name__)
            log.append((k, got))
            first = op[1] not in drawn
            drawn.add(op[1])
            if got[0] == "exc":
                st, r = zygote.fork_call(_test, 60, spec, 2, wm)
                if st == "ok" and r[0] == "test":
                    bad(f"{k}/{where}", f"{op} raised {got[1]} with settings {model}")
                continue
            if k == "test":
                if got[1]["n"] != wn or len(got[1]["tv"]) != wn or got[1]["method"] != wm:
                    bad(f"test-defaults/{where}", f"{op} ran {len(got[1]['tv'])} tests (reported {got[1]['n']}) by {got[1]['method']}, settings say {wn} by {wm}")
                    break
                if exp[0] == "val" and not S.close(got[1]["obs"], exp[1], tol) and not (noisy and E.jitter_explains(spec, q, ("val", got[1]["obs"]), tol)):
                    bad(f"test-base/{where}", f"{op} observes {got[1]['obs']!r}, base {spec['kw']['base']!r} at construction gives {exp[1]!r}; settings {model}")
                    break
            if first and "seed" in spec and not S.is_jittered(spec) and exp[0] == "val" and exp[1] == exp[1]:
                st, r = zygote.fork_call(_test, 60, spec, max(2, wn), wm)
                if st == "ok" and r[0] == "test":
                    stats["tests_compared"] += 1
                    have = got[1]["tv"] if k == "test" else [exp[1] - got[1]]
                    if k == "eff" and isinstance(got[1], float) and got[1] != got[1]:
                        continue        # value minus surrogate has no number: nothing to compare
                    if not S.close(have, r[1]["tv"][:len(have)], 1e-9):
                        bad(f"surrogate-base/{where}", f"{op}: surrogates {have[:3]}, with base {spec['kw']['base']!r} (at construction) {r[1]['tv'][:3]}; settings {model}")
                        break
            continue
        got = at(lambda: h.do(op))
        if k == "calc" or k == "res":
            pass
        log.append((k, got))
        stats["judged"] += 1
        if not S.close(got, exp, tol):
            if noisy and E.jitter_explains(spec, q, got, tol):
                continue
            bad(f"{k}/{where}", f"{op}: {short(got)}, with base {spec['kw']['base']!r} passed explicitly {short(exp)}; base setting now {model['base']!r}; options {orig['kw']}")
    stats["approach"] = list(stats["approach"])
    stats["golden_processes"] = g.forks
    sg = hashlib.sha256(repr((plan["ops"], [(s["m"], s["a"], sorted(map(str, s["kw"].items()))) for s in plan["specs"]])).encode()).hexdigest()[:16]
    return {"violations": out, "stats": stats, "sig": sg, "nontrivial": stats["judged"] > 0, "log": log,
            "sample": {"specs": [f"{s['m']}/{s['a']}" for s in plan["specs"]], "ops": [o if o[0] in ("set", "unit", "bad") else o[0] for o in plan["ops"]]}}


def short(o):
    s = repr(o)
    return s if len(s) < 160 else s[:157] + "..."
