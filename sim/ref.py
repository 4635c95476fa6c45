"""What a surrogate may be: an executable reference for significance tests.

For a spec the reference works out which observations the estimator is documented to use,
which of them are the *source* observations, and how to ask the real estimator for the value
it gives when those rows are arranged in a stated way.  Surrogates reported by the library
are then judged against all legal arrangements (small data) or against a sample of them.
Nothing here looks inside an estimator.
"""
import copy
import itertools
import math

from . import specs as S

try:
    import numpy as np
except ImportError:          # pragma: no cover
    np = None


class Untransformable(Exception):
    """The reference cannot express this spec (counted, never an alarm)."""


def _arr(d):
    a = np.array(d["v"], dtype=d["dt"])
    # a list carries no element type: what the library makes of it is what counts
    return np.asarray(a.tolist()) if d.get("c") in ("list", "tuplelist") else a


def _symbols(x, dim, step, stable=True):
    """Own ordinal symbolisation (rank order of each window) as integer labels."""
    n = len(x) - (dim - 1) * step
    rows = [tuple(np.argsort(x[i:i + (dim - 1) * step + 1:step], kind="stable").tolist()) for i in range(n)]
    lab = {r: i for i, r in enumerate(sorted(set(rows)))}
    return np.array([lab[r] for r in rows])


def _spec_data(a):
    return {"v": a.tolist(), "dt": a.dtype.str, "c": "array"}


class Reference:
    """rows: the source observations; value(index) -> the measure with rows[index]."""

    def __init__(self, spec):
        self.spec = spec
        m, a = spec["m"], S.canon(spec["a"])
        self.m = m
        kw = dict(spec["kw"])
        if m in ("mi", "cmi"):
            if len(spec["data"]) != 2:
                raise Untransformable("more than two variables")
            x, y = (_arr(d) for d in spec["data"])
            z = _arr(spec["cond"]) if "cond" in spec else None
            off = kw.pop("offset", 0) or 0
            if off > 0:
                x, y = x[:-off], y[off:]
            elif off < 0:
                x, y = x[-off:], y[:off]
            if kw.pop("normalize", False):
                f = lambda v: (v - v.min(axis=0)) / (v.max(axis=0) - v.min(axis=0))
                x, y = f(x), f(y)
                z = f(z) if z is not None else None
            if a == "ordinal":
                dim, step = kw.pop("embedding_dim"), kw.pop("step_size", 1)
                kw.pop("stable", None)
                self._no_ties(x, y, z)
                x, y = _symbols(x, dim, step), _symbols(y, dim, step)
                z = _symbols(z, dim, step) if z is not None else None
                a = "discrete"
            self.src, self.rest, self.kw, self.a = x, (y, z), kw, a
        elif m in ("te", "cte"):
            x, y = (_arr(d) for d in spec["data"])
            z = _arr(spec["cond"]) if "cond" in spec else None
            step = kw.get("step_size", 1)
            p = kw.pop("prop_time", 0) or 0
            if p > 0:
                x, y = x[:-p * step], y[p * step:]
            elif p < 0:
                x, y = x[-p * step:], y[:p * step]
            ls, ld, lc = kw.pop("src_hist_len", 1), kw.get("dest_hist_len", 1), kw.get("cond_hist_len", 1) if m == "cte" else 1
            if a == "ordinal":
                dim = kw.pop("embedding_dim")
                kw.pop("stable", None)
                self._no_ties(x, y, z)
                x, y = _symbols(x, dim, step), _symbols(y, dim, step)
                z = _symbols(z, dim, step) if z is not None else None
                a = "discrete"
            n = len(y)
            big = max(ls, ld, lc) * step
            base = np.arange(big, n, step)
            idx = base[:, None] - np.arange(step, (ls + 1) * step, step)[::-1]
            rows = x[idx].reshape(len(base), -1)
            # the same observations with a history of length one over wider rows
            lead = big - max(1, ld, lc) * step
            self.place = base - step - lead
            self.y = y[lead:]
            self.z = z[lead:] if z is not None else None
            self.n = n - lead
            self.src, self.kw, self.a = rows, kw, a
        else:
            raise Untransformable("no significance test")
        if len(self.src) < 3:
            raise Untransformable("too few rows")

    @staticmethod
    def _no_ties(*vs):
        for v in vs:
            if v is not None and len(set(v.tolist())) != len(v):
                raise Untransformable("ties")

    def arranged(self, index):
        rows = self.src[np.asarray(index)]
        kw = dict(self.kw)
        if self.m in ("mi", "cmi"):
            s = {"m": self.m, "a": self.a, "kw": kw, "data": [_spec_data(rows), _spec_data(self.rest[0])]}
            if self.rest[1] is not None:
                s["cond"] = _spec_data(self.rest[1])
        else:
            src = np.zeros((self.n, rows.shape[1]), dtype=rows.dtype)
            src[self.place] = rows
            if rows.shape[1] == 1:
                src = src[:, 0]
            s = {"m": self.m, "a": self.a, "kw": kw, "data": [_spec_data(src), _spec_data(self.y)]}
            if self.z is not None:
                s["cond"] = _spec_data(self.z)
        s["seed"] = 7
        return s

    def value(self, index):
        s = self.arranged(index)
        out = S.ask(S.construct(s), ("res",))
        if out[0] != "val":
            raise Untransformable(f"arranged data refused: {out}")
        return out[1]

    # ------------------------------------------------------------ the legal set
    def classes(self, method, limit):
        """All legal arrangements up to equal rows: list of (index, weight); None if too many."""
        rows = [tuple(np.atleast_1d(r).tolist()) for r in self.src]
        n = len(rows)
        first = {}
        lab = [first.setdefault(r, i) for i, r in enumerate(rows)]
        labels = sorted(set(lab))
        cnt = {l: lab.count(l) for l in labels}
        if method == "permutation_test":
            total = math.factorial(n)
            for c in cnt.values():
                total //= math.factorial(c)
            if total > limit:
                return None
            return [(ix, 1.0 / total) for ix in _multiset_perms(cnt, n)]
        if len(labels) ** n > limit:
            return None
        p = {l: cnt[l] / n for l in labels}
        out = []
        for ix in itertools.product(labels, repeat=n):
            w = 1.0
            for l in ix:
                w *= p[l]
            out.append((ix, w))
        return out

    def distribution(self, method, limit, tol=1e-9):
        """Sorted list of (value, probability) over all legal surrogates, or None."""
        cl = self.classes(method, limit)
        if cl is None:
            return None
        vals = []
        for ix, w in cl:
            vals.append((self.value(ix), w))
        nan = sum(w for v, w in vals if v != v)
        vals = sorted((v, w) for v, w in vals if v == v)
        out = []
        for v, w in vals:
            if out and v == out[-1][0]:
                out[-1][1] += w
            elif out and abs(v - out[-1][0]) <= tol * max(1, abs(v)):
                out[-1][1] += w
            else:
                out.append([v, w])
        if nan:
            out.append([float("nan"), nan])
        return [(v, w) for v, w in out]

    def sample(self, method, rng, n):
        N = len(self.src)
        out = []
        for _ in range(n):
            if method == "permutation_test":
                ix = list(range(N))
                rng.shuffle(ix)
            else:
                ix = [rng.randrange(N) for _ in range(N)]
            out.append(self.value(ix))
        return out


def _multiset_perms(cnt, n):
    labels = sorted(cnt)
    left = dict(cnt)
    cur = []

    def rec():
        if len(cur) == n:
            yield tuple(cur)
            return
        for l in labels:
            if left[l]:
                left[l] -= 1
                cur.append(l)
                yield from rec()
                cur.pop()
                left[l] += 1
    yield from rec()


def find(dist, v, tol):
    """Index of the legal value equal to v, or None."""
    import bisect
    if v != v:
        return len(dist) - 1 if dist and dist[-1][0] != dist[-1][0] else None
    vals = [d[0] for d in dist if d[0] == d[0]]
    i = bisect.bisect_left(vals, v)
    best = None
    for j in (i - 1, i):
        if 0 <= j < len(vals) and (vals[j] == v or abs(vals[j] - v) <= tol * max(1, abs(v))):
            if best is None or vals[j] == v or abs(vals[j] - v) < abs(vals[best] - v):
                best = j
    return best


def chi2_pvalue(counts, probs, total, minexp=8):
    """p-value of observed counts against probabilities, small cells pooled."""
    from scipy.stats import chi2
    order = sorted(range(len(probs)), key=lambda i: probs[i])
    cells, c, p = [], 0, 0.0
    for i in order:
        c += counts[i]
        p += probs[i]
        if p * total >= minexp:
            cells.append((c, p))
            c, p = 0, 0.0
    if p > 0 or c:
        if cells:
            cc, pp = cells.pop()
            cells.append((cc + c, pp + p))
        else:
            cells.append((c, p))
    if len(cells) < 2:
        return 1.0, len(cells)
    x2 = sum((o - q * total) ** 2 / (q * total) for o, q in cells)
    return float(chi2.sf(x2, len(cells) - 1)), len(cells)
