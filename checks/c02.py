"""C02: an aborted call leaves no trace."""
import copy
import random
from sim import specs as S, engine as E, ref as R, zygote, faults
from sim.seams import W

PROP = "C02"
LEVEL = "exploration"
RULE = ("one evaluation = one simulated process: a random history brings estimators into some state, then one call is "
        "aborted at a chosen point (an exception raised by the k-th call library code makes into numpy/scipy/sparse, or "
        "before the k-th executed line of library code), "
        "in a separate fork for each of up to M points spread over the whole call, and the answers afterwards are "
        "compared with undisturbed ones; two evaluations are distinct when the history, the aborted call or its "
        "estimator's measure/approach/options differ")
TIERS = {"quick": {"runs": 900, "cap_s": 110, "timeout_s": 150, "recheck": 16, "min_s": 50},
         "thorough": {"runs": 40000, "cap_s": 3400, "timeout_s": 400, "recheck": 100, "min_s": 120}}
REAL = ["all of infomeasure", "numpy", "scipy", "sparse"]
STUB = ["failing callees (the injected exception replaces the call)", "OS entropy", "clock", "cpu_count",
        "multiprocessing.Pool", "numba JIT disabled"]
ASSUMPTIONS = ["fault points are calls from library code into numpy, scipy, sparse, collections, math, itertools, and "
               "executed lines of library code outside finally and except bodies (and try/with lines)"]
EXCS = ("MemoryError", "KeyboardInterrupt", "TimeoutError")


def gen(rng, tier, i):
    m = rng.choices(S.MEASURES, (3, 5, 3, 6, 3))[0]
    a = S.APPROACHES[i % len(S.APPROACHES)] if rng.random() < 0.6 else rng.choice(S.APPROACHES)
    n = rng.randrange(7, 10) if m != "te" and m != "cte" else rng.randrange(8, 11)
    far = rng.random() < 0.02 and a not in ("nsb", "kernel", "zhang")
    n = None if far else n
    s = S.gen_spec(rng, measure=m, approach=a, n=n, long=1.0 if far else 0.0)
    if a in ("metric", "renyi", "tsallis"):
        s["kw"]["k"] = rng.choice((1, 2))
        if m != "h" or a == "metric":
            s["kw"]["noise_level"] = 0 if rng.random() < 0.75 else 1e-10
    specs = [s, S.sibling(rng, s) if rng.random() < 0.5 else S.gen_spec(rng, n=n)]
    # the call to abort
    kinds = {"res": 4, "loc": 4, "calc": 2, "new": 1, "func": 1}
    if m != "h":
        kinds["test"] = 8
    if m in ("te", "cte"):
        kinds["eff"] = 5
    if m == "h" and len(s["data"]) == 2 and not s.get("joint"):
        for d, ok in (("jsd", E.JSD_OK), ("kld", E.KLD_OK)):
            if S.canon(s["a"]) in ok:
                kinds[d] = 3
    k = rng.choices(list(kinds), list(kinds.values()))[0]
    op = {"res": ["res", 0], "loc": ["loc", 0], "calc": ["calc", 0], "new": ["new", 0, 0], "func": ["func", 0],
          "test": ["test", 0, rng.choice((2, 3, 5)), rng.choice(E.METHODS)], "eff": ["eff", 0, rng.choice(E.METHODS)],
          "jsd": ["jsd", 0], "kld": ["kld", 0]}[k]
    pre = [["new", 0, 0], ["new", 1, 1]]
    pool = [["res", 0], ["loc", 0], ["res", 1], ["loc", 1], ["func", 0]]
    if m != "h":
        pool += [["test", 0, 2, rng.choice(E.METHODS)]] * 2
    for _ in range(rng.choice((0, 0, 1, 2, 3))):
        pre.append(rng.choice(pool))
    post = [["calc", 0], ["loc", 0], ["res", 0], ["res", 1], ["loc", 1], ["func", 0]]
    if m != "h":
        post += [["test", 0, 4, x] for x in E.METHODS]
    if m in ("te", "cte"):
        post += [["eff", 0, x] for x in E.METHODS]
    rng.shuffle(post)
    post = post[:rng.randrange(3, len(post) + 1)]
    post.insert(0 if rng.random() < 0.5 else rng.randrange(len(post) + 1), ["retry"])
    return {"specs": specs, "ops": pre, "abort": op, "post": post, "points": 20 if tier == "quick" else 120,
            "twice": rng.random() < 0.25, "grain": "line" if rng.random() < 0.4 else "call", "salt": rng.randrange(1 << 20), "limit": 300}


def shrink(plan):
    for i in range(len(plan["post"])):
        p = copy.deepcopy(plan)
        del p["post"][i]
        yield p
    if plan["twice"]:
        p = copy.deepcopy(plan)
        p["twice"] = False
        yield p
    yield from E.drop_specs(plan)


def _dist(spec, method, limit):
    try:
        r = R.Reference(spec)
        base = r.value(range(len(r.src)))
        d = r.distribution(method, limit)
        if d is None:
            return None
        return base, d
    except R.Untransformable:
        return None


def _count(h, op, grain, m, salt):
    faults.INJ.sites = {}
    out, n, _ = faults.INJ.run(lambda: h.do(op), grain=grain)
    return out, n, faults.choose(faults.INJ.sites, n, m, random.Random(salt)), len(faults.INJ.sites)


def judged(exp_kind):
    return exp_kind in ("val", "arr", "exc")


def _child(h, plan, k, exc, second, gold, legal, settings):
    """Abort, then look at everything.  Runs in its own fork."""
    import infomeasure as im
    W.fired.clear()
    op = plan["abort"]
    log = []
    at = {k: exc}
    out, n, fired = faults.INJ.run(lambda: h.do(op), at, grain=plan.get("grain", "call"))
    where = f"{exc} at point {k} ({fired[0][2]} at/calling {fired[0][3]})" if fired else f"point {k} not reached"
    log.append((out[0], str(out[1])[:80], len(fired)))
    if fired and out != ("raised", exc):
        return [("swallowed", f"{where}: the exception never reached the caller of {op}, which got {short(out[1])}")], log, dict(W.fired)
    if fired and second:
        k2 = 1 + (k * 7919 + plan["salt"]) % max(1, n)
        if h.possible(op) or op[0] in ("new", "func", "jsd", "kld"):
            out2, n2, f2 = faults.INJ.run(lambda: h.do(op), {k2: exc}, grain=plan.get("grain", "call"))
            if f2 and out2 != ("raised", exc):
                return [("swallowed", f"second abort {exc} at point {k2}: got {short(out2[1])}")], log, dict(W.fired)
            where += f", retried and aborted again at {k2}"
    bad = []
    if {x: im.Config.get(x) for x in settings} != settings:
        bad.append(("settings", f"{where}: settings are now { {x: im.Config.get(x) for x in settings} }"))
    # an estimator whose construction was aborted does not exist for the caller
    if op[0] == "new":
        h.slots.pop(0, None)
    for p in plan["post"]:
        q = op if p == ["retry"] else p
        if not h.possible(q):
            continue
        got = h.do(q)
        log.append((q[0], got))
        if q[0] == "new":
            if got[0] != "ok":
                bad.append(("retry", f"after {where}: constructing again fails with {got}"))
            continue
        if q[0] in ("test", "eff"):
            spec = h.spec_of(q)
            if got[0] == "exc":
                if gold["can_test"].get(h.slot_spec[q[1]], False):
                    bad.append((f"{'retry' if p == ['retry'] else q[0]}", f"after {where}: {q} fails with {got[1]}"))
                continue
            meth = q[3] if q[0] == "test" else q[2]
            base = gold["res"].get(h.slot_spec[q[1]])
            if q[0] == "test" and base and base[0] == "val" and not h_close(spec, ("val", got[1]["obs"]), base, ("res",)):
                bad.append(("observed", f"after {where}: observed value {got[1]['obs']} instead of {base[1]}"))
            lg = legal.get(meth) if h.slot_spec[q[1]] == 0 else None
            if lg is None or base is None or base[0] != "val":
                continue
            tol = 1e-7 if not S.is_jittered(spec) else 5e-3
            vals = got[1]["tv"] if q[0] == "test" else [base[1] - got[1]]
            for v in vals:
                if spec["m"] == "cte" and (v == base[1] or abs(v - base[1]) < max(tol, 1e-9)):
                    continue
                if R.find(lg[1], v, tol) is None:
                    bad.append(("surrogates", f"after {where}: {q} reports surrogate {v!r}, the value of no arrangement of the undisturbed data"))
                    break
            continue
        i = q[1] if q[0] in ("func", "jsd", "kld") else h.slot_spec[q[1]]
        kk = "res" if q[0] in ("calc", "glob") else q[0]
        exp = gold[kk].get(i)
        if exp is None:
            continue
        if not h_close(h.specs[i], got, exp, (kk,)):
            bad.append((f"{'retry-' if p == ['retry'] else ''}{q[0]}", f"after {where}: {q} answers {short(got)}, undisturbed {short(exp)}"))
    return bad, log, dict(W.fired)


def h_close(spec, got, exp, q):
    tol = S.tol_for(spec)
    if S.close(got, exp, tol):
        return True
    return S.is_jittered(spec) and E.jitter_explains(spec, q, got, tol)


def execute(plan):
    import infomeasure as im
    g = E.Golden()
    specs = plan["specs"]
    out, log = [], []
    stats = {"faults": {}, "aborted_op": {}, "points_total": 0, "points_tried": 0, "approach": {}, "points_not_reached": 0}
    gold = {k: {} for k in ("res", "loc", "func", "jsd", "kld")}
    gold["can_test"] = {}
    used = {tuple(o) for o in plan["post"]} | {tuple(plan["abort"])}
    for i in range(len(specs)):
        gold["res"][i] = g.get(specs[i], ("res",))
        if any(o[0] == "loc" for o in used):
            gold["loc"][i] = g.get(specs[i], ("loc",))
        for k in ("func", "jsd", "kld"):
            if any(o[0] == k and o[1] == i for o in used if len(o) > 1):
                gold[k][i] = g.get(specs[i], (k,))
        if specs[i]["m"] != "h":
            st, r = zygote.fork_call(E.fresh, 60, specs[i], ("test", 2, "permutation_test"))
            gold["can_test"][i] = st == "ok" and r[0] == "test"
    legal = {}
    if specs[0]["m"] != "h":
        for meth in E.METHODS:
            if any(meth in o for o in used):
                st, r = zygote.fork_call(_dist, 100, specs[0], meth, plan["limit"])
                if st == "ok" and r and S.close(("val", r[0]), gold["res"][0], 1e-6 if not S.is_jittered(specs[0]) else 1e-2):
                    legal[meth] = r
    stats["legal_sets"] = len(legal)
    h = E.History(plan)
    for op in plan["ops"]:
        if h.possible(op):
            log.append((op[0], h.do(op)))
    settings = {x: im.Config.get(x) for x in ("base", "statistical_test_method", "statistical_test_n_tests")}
    op = plan["abort"]
    if not h.possible(op):
        return {"violations": [], "stats": stats, "sig": None, "nontrivial": False, "log": log}
    st, r = zygote.fork_call(_count, 60, h, op, plan.get("grain", "call"), plan["points"], plan["salt"])
    if st != "ok":
        raise RuntimeError(f"dry run {st}: {r}")
    total = r[1]
    stats["points_total"] = total
    stats["grain"] = {plan.get("grain", "call"): 1}
    stats["aborted_op"][op[0]] = 1
    stats["approach"] = [f"{specs[0]['m']}/{S.canon(specs[0]['a'])}/{op[0]}"]
    stats["sites"] = r[3]
    ks = [plan["only"]] if plan.get("only") is not None else r[2]
    for k in ks:
        exc = EXCS[(k + plan["salt"]) % 3]
        st, r = zygote.fork_call(_child, 100, h, plan, k, exc, plan["twice"], gold, legal, settings)
        if st != "ok":
            raise RuntimeError(f"aborted call {st}: {r}")
        bad, lg, fired = r
        stats["points_tried"] += 1
        log.append((k, lg))
        for f, c in fired.items():
            stats["faults"][f] = stats["faults"].get(f, 0) + c
        if not fired:
            stats["points_not_reached"] += 1
        for cls, msg in bad:
            out.append({"cls": f"{cls}/{op[0]}/{specs[0]['m']}/{S.canon(specs[0]['a'])}",
                        "msg": f"{specs[0]['m']}/{specs[0]['a']} {specs[0]['kw']}: {msg}", "hint": {"only": k}})
        if out:
            break
    return {"violations": out, "stats": stats, "nontrivial": stats["points_tried"] > 0, "log": log,
            "sig": _sig(plan),
            "sample": {"history": E.shape(plan), "aborted": op, "points": total, "tried": len(ks)}}


def _sig(plan):
    import hashlib
    return hashlib.sha256(repr((E.shape(plan), plan["abort"], sorted(map(str, plan["specs"][0]["kw"].items())))).encode()).hexdigest()[:16]


def short(o):
    s = repr(o)
    return s if len(s) < 160 else s[:157] + "..."
