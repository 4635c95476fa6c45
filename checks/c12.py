"""C12: an estimator can be copied, pickled and resumed elsewhere."""
import copy
import hashlib
import pickle
import random

from sim import specs as S, engine as E, zygote, faults
from sim.seams import W

PROP = "C12"
LEVEL = "exploration"
RELAY = True
ZYGOTE = ("no_preload",)
RULE = ("one evaluation = one simulated process running a random history of public calls (some of them aborted) in which "
        "estimators are copied or pickled at random points; copies carry on next to the original, pickles carry on in "
        "another interpreter (other hash seed, nothing loaded yet) after the first process has ended; every later answer "
        "is compared with that of a process in which nobody copied anything; two evaluations are distinct when the "
        "abstract history or the snapshots differ")
TIERS = {"quick": {"runs": 3000, "cap_s": 80, "timeout_s": 120, "recheck": 12, "min_s": 40},
         "thorough": {"runs": 100000, "cap_s": 2400, "timeout_s": 200, "recheck": 60, "min_s": 90}}
REAL = ["all of infomeasure", "pickle", "copy", "numpy", "scipy", "sparse"]
STUB = ["OS entropy", "clock", "cpu_count", "multiprocessing.Pool", "locks created by library code (not picklable, as real ones)",
        "numba JIT disabled"]
ASSUMPTIONS = ["answers are compared within 1e-9 (a restored array may be laid out differently in memory)"]
HOWS = ("pickle2", "pickle4", "pickle5", "pickle5", "deepcopy", "deepcopy", "copy")
EXCS = ("MemoryError", "KeyboardInterrupt", "TimeoutError")


def gen(rng, tier, i):
    m = rng.choices(S.MEASURES, (5, 4, 3, 5, 3))[0]
    a = S.APPROACHES[i % len(S.APPROACHES)] if rng.random() < 0.7 else rng.choice(S.APPROACHES)
    if m == "h" and rng.random() < 0.4:
        a = rng.choice(("ordinal", "ordinal", "metric", "kernel", "nsb", "bayes", "shrink"))
    specs = [S.gen_spec(rng, measure=m, approach=a, strings=0.1, long=0.08)]
    for _ in range(rng.choice((0, 0, 1))):
        specs.append(S.sibling(rng, specs[0]) if rng.random() < 0.5 else S.gen_spec(rng))
    w = {"res": 4, "glob": 1, "loc": 4, "calc": 3, "test": 6, "eff": 5, "attr": 1}
    ops = E.gen_ops(rng, specs, rng.choice((4, 6, 9, 12)), slots=len(specs), weights=w)
    first = len(specs)
    snaps = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        snaps.append({"after": rng.randrange(first - 1, len(ops)), "slot": rng.randrange(len(specs)), "how": rng.choice(HOWS),
                      "where": rng.choice(("here", "here", "there", "there", "instead")), "lead": rng.random() < 0.5})
    if rng.random() < 0.7:            # every kind of question after the last copy
        for j in sorted({s["slot"] for s in snaps}):
            tail = [["loc", j]] + [["res", j]] * (rng.random() < 0.5) + [["calc", j]] * (rng.random() < 0.3)
            if specs[j]["m"] != "h" and len(specs[j]["data"]) == 2:
                tail.append(["test", j, rng.choice((2, 3)), rng.choice(E.METHODS)])
            if specs[j]["m"] in ("te", "cte"):
                tail.append(["eff", j, rng.choice(E.METHODS)])
            rng.shuffle(tail)
            ops += tail
    abort = None
    if rng.random() < 0.3 and len(ops) > first:
        abort = {"op": rng.randrange(first, len(ops)), "at": rng.choice((1, 2, 3, 5, 8, 13, 21, 40, 80, 160)),
                 "exc": rng.choice(EXCS), "grain": rng.choice(("call", "line"))}
    return {"specs": specs, "ops": ops, "snaps": snaps, "abort": abort}


def shrink(plan):
    for k in range(len(plan["snaps"])):
        if len(plan["snaps"]) > 1:
            p = copy.deepcopy(plan)
            del p["snaps"][k]
            yield p
    if plan.get("abort"):
        yield dict(copy.deepcopy(plan), abort=None)
    for k in range(len(plan["ops"])):
        p = copy.deepcopy(plan)
        del p["ops"][k]
        for s in p["snaps"]:
            s["after"] -= s["after"] >= k
        if p.get("abort"):
            if p["abort"]["op"] == k:
                p["abort"] = None
            else:
                p["abort"]["op"] -= p["abort"]["op"] > k
        if all(s["after"] >= 0 for s in p["snaps"]):
            yield p
    yield from E.drop_specs(plan)


def step(h, plan, k, op):
    ab = plan.get("abort")
    if ab and ab["op"] == k:
        out, n, fired = faults.INJ.run(lambda: h.do(op), {ab["at"]: ab["exc"]}, grain=ab["grain"])
        return out[1] if out[0] == "ok" else ("raised", out[1])
    return h.do(op)


def undisturbed(plan):
    """The history without any copying."""
    h = E.History(plan)
    return [step(h, plan, k, op) if h.possible(op) else None for k, op in enumerate(plan["ops"])]


def same(got, exp):
    if got[0] == "test" and exp[0] == "test":
        a, b = got[1], exp[1]
        return all(S.close(a[x], b[x], 1e-9) for x in ("tv", "obs", "n", "method"))
    return S.close(got, exp, 1e-9)


def later(plan, snap):
    """The calls the original gets after the snapshot, on that estimator."""
    out = []
    for k in range(snap["after"] + 1, len(plan["ops"])):
        op = plan["ops"][k]
        if op[0] == "new":
            if op[1] == snap["slot"]:
                break
            continue
        if op[1] == snap["slot"]:
            out.append(k)
    return out


def take(est, how):
    if how == "deepcopy":
        return copy.deepcopy(est)
    if how == "copy":
        return copy.copy(est)
    return pickle.dumps(est, protocol=int(how[-1]))


def execute(plan):
    return first(plan) if plan.get("role", "A") == "A" else second(plan)


def first(plan):
    out, log, relay = [], [], []
    stats = {"snapshots": {}, "approach": {}, "answers_of_copies": 0, "answers_after_restart": 0, "reports_pickled": 0, "faults": {}}
    st, ref = zygote.fork_call(undisturbed, 100, plan)
    if st != "ok":
        raise RuntimeError(f"undisturbed run {st}: {ref}")
    h = E.History(plan)
    copies = []                       # (estimator, generator of its questions, snap)
    taken = 0
    for k, op in enumerate(plan["ops"]):
        if out:
            break
        if h.possible(op):
            # a copy may be asked before or after the original
            for c in [c for c in copies if c["snap"]["lead"]]:
                ask_copy(c, k, plan, out, stats)
            got = step(h, plan, k, op)
            for c in [c for c in copies if not c["snap"]["lead"]]:
                ask_copy(c, k, plan, out, stats)
            log.append((op[0], got))
            spec = plan["specs"][op[2]] if op[0] == "new" else h.spec_of(op) if op[0] != "drop" else None
            if spec and not same(got, ref[k]):
                out.append({"cls": f"original/{op[0]}/{spec['m']}/{S.canon(spec['a'])}",
                            "msg": f"{op}: it answers {short(got)} after copies were made, used or put in its place, otherwise {short(ref[k])}; {spec['kw']}"})
                break
            if op[0] == "test" and got[0] == "test":
                report_trip(h, op, out, stats)
        for sn in plan["snaps"]:
            if sn["after"] != k or sn["slot"] not in h.slots:
                continue
            est, spec = h.slots[sn["slot"]], plan["specs"][h.slot_spec[sn["slot"]]]
            w = f"{spec['m']}/{S.canon(spec['a'])}"
            try:
                t = take(est, sn["how"])
            except (KeyboardInterrupt, MemoryError, TimeoutError):
                raise
            except Exception as e:
                out.append({"cls": f"refused/{sn['how']}/{w}", "msg": f"{sn['how']} of a {w} estimator after {E.shape(dict(plan, ops=plan['ops'][:k + 1]))}: {type(e).__name__}: {e}"})
                break
            taken += 1
            key = f"{sn['how']}/{sn['where']}"
            stats["snapshots"][key] = stats["snapshots"].get(key, 0) + 1
            stats["approach"][w] = 1
            if sn["how"] == "copy" or sn["where"] == "instead":
                # the original is given up, its copy carries on in its place
                h.slots[sn["slot"]] = pickle.loads(t) if isinstance(t, bytes) else t
                del t, est
                continue
            if sn["where"] == "there" and isinstance(t, bytes):
                relay.append((t, sn, w, [(x, ref[x]) for x in later(plan, sn)]))
                continue
            if isinstance(t, bytes):
                t = pickle.loads(t)
            copies.append({"est": t, "snap": sn, "w": w, "ks": later(plan, sn), "ref": ref, "dead": False})
            del t, est
    stats["approach"] = list(stats["approach"])
    stats["faults"] = dict(W.fired)
    sg = hashlib.sha256(repr((E.shape(plan), plan["snaps"], plan["abort"], sorted(map(str, plan["specs"][0]["kw"].items())))).encode()).hexdigest()[:16]
    return {"violations": out[:3], "stats": stats, "sig": sg, "nontrivial": taken > 0, "log": log, "relay": relay,
            "sample": {"history": E.shape(plan)[:300], "snapshots": plan["snaps"], "abort": plan["abort"]}}


def ask_copy(c, k, plan, out, stats):
    if c["dead"] or k not in c["ks"]:
        return
    if plan.get("abort") and plan["abort"]["op"] == k:
        c["dead"] = True             # the original lost random draws there; the copy does not
        return
    q = E.question(plan["ops"][k])
    if q[0] == "drop":
        c["dead"] = True
        return
    got = S.ask(c["est"], q)
    stats["answers_of_copies"] += 1
    if not same(got, c["ref"][k]):
        out.append({"cls": f"copy/{q[0]}/{c['w']}",
                    "msg": f"{q}: a {c['snap']['how']} of a {c['w']} estimator answers {short(got)}, the original {short(c['ref'][k])}"})
        c["dead"] = True


def report_trip(h, op, out, stats):
    """A report survives pickling with all its numbers."""
    import infomeasure as im
    est = h.slots[op[1]]
    e2 = copy.deepcopy(est)
    try:
        r = e2.statistical_test(2, op[3])
    except (KeyboardInterrupt, MemoryError, TimeoutError):
        raise
    except Exception:
        return
    for how in ("pickle", "deepcopy", "copy"):
        try:
            q = pickle.loads(pickle.dumps(r)) if how == "pickle" else copy.deepcopy(r) if how == "deepcopy" else copy.copy(r)
            a, b = S.report(r), S.report(q)
            ok = repr(a) == repr(b) and repr(S.num(r.percentile(30))) == repr(S.num(q.percentile(30)))
            msg = f"{a} and {b}"
        except Exception as e:
            ok, msg = False, f"{type(e).__name__}: {e}"
        stats["reports_pickled"] += 1
        if not ok:
            out.append({"cls": f"report/{how}", "msg": f"a significance report after {how}: {msg}"})


def second(plan):
    """Another process: everything is gone but the pickles."""
    out, log = [], []
    stats = {"answers_after_restart": 0}
    for blob, sn, w, ks in plan["relay"]:
        try:
            est = pickle.loads(blob)
        except (KeyboardInterrupt, MemoryError, TimeoutError):
            raise
        except Exception as e:
            out.append({"cls": f"unreadable/{w}", "msg": f"a pickled {w} estimator cannot be restored in another process: {type(e).__name__}: {e}"})
            break
        for k, exp in ks:
            if plan.get("abort") and plan["abort"]["op"] == k:
                break
            q = E.question(plan["ops"][k])
            if q[0] == "drop":
                break
            got = S.ask(est, q)
            log.append((q[0], got))
            stats["answers_after_restart"] += 1
            if not same(got, exp):
                out.append({"cls": f"restart/{q[0]}/{w}",
                            "msg": f"{q}: a {w} estimator restored from a pickle in another process answers {short(got)}, the original {short(exp)}"})
                break
    return {"violations": out[:3], "stats": stats, "log": log}


def short(o):
    s = repr(o)
    return s if len(s) < 200 else s[:197] + "..."
