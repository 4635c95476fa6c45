"""Faults inside calls: an exception at the k-th call from library code into heavy work.

A fault point is a call made by library code (any frame whose file lies in the package) to
something outside it that does real work - numpy, scipy, sparse, collections: the places
where memory runs out, a timeout handler fires or Ctrl-C is noticed.  Trivial builtins,
logging and context-manager plumbing are not fault points, so an ordinary `finally` can
always do its work.

With grain "line" every executed line of library code that calls, computes or loops is a point
instead: the exception is raised before the line runs (an asynchronous exception).  Lines of `finally` and `except`
bodies and `try`/`with` lines are not points, so clean-up code itself is never cut short.
"""
import ast
import dis
import sys
import types

from . import seams

TOOL = 4
mon = sys.monitoring
HEAVY = ("numpy", "scipy", "sparse", "numba", "collections", "_collections", "itertools", "math", "_operator")
EXC = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "TimeoutError": TimeoutError}

_cache = {}
_NOT = {"__enter__", "__exit__", "errstate", "seterr", "catch_warnings", "shares_memory", "issubdtype", "result_type", "dtype"}


def _heavy_uncached(c):
    t = type(c)
    name = getattr(c, "__name__", "")
    if name in _NOT:
        return None
    if isinstance(c, types.FunctionType):
        m = c.__module__ or ""
    elif isinstance(c, types.MethodType):
        m = getattr(c.__func__, "__module__", "") or ""
    elif isinstance(c, type):
        m = c.__module__ or ""
        if issubclass(c, BaseException):
            return None
    elif isinstance(c, types.BuiltinFunctionType):
        s = c.__self__
        m = c.__module__ or ""
        if s is not None and not isinstance(s, types.ModuleType):
            m = type(s).__module__ or ""
    else:
        m = t.__module__ or ""
        if isinstance(getattr(c, "__module__", None), str):
            m = c.__module__
    root = m.split(".")[0]
    return name or t.__name__ if root in HEAVY else None


def heavy(c):
    try:
        return _heavy_uncached(c)
    except Exception:
        return None


_skip = {}


def skipped_lines(filename):
    """Lines of a file at which no asynchronous exception is raised."""
    if filename not in _skip:
        out = set()
        try:
            with open(filename) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            if isinstance(n, (ast.Try, ast.TryStar)):
                out.add(n.lineno)
                for b in n.finalbody:
                    out.update(range(b.lineno, b.end_lineno + 1))
                for h in n.handlers:
                    out.update(range(h.lineno, h.end_lineno + 1))
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                out.update(range(n.lineno, n.body[0].lineno))
        _skip[filename] = out
    return _skip[filename]


_busy = {}


def busy_lines(code):
    """Lines at which an asynchronous exception or an allocation failure is possible: those that
    call, compute or loop.  CPython looks for signals when a function starts, after calls and when
    a loop jumps back; a line that only moves references between names cannot be cut off."""
    if code not in _busy:
        lines = set()
        line = None
        for i in dis.get_instructions(code):
            line = i.positions.lineno or line
            if i.opname.startswith("CALL") and not i.opname.startswith("CALL_INTRINSIC") or i.opname in _BUSY_OPS:
                lines.add(line)
        _busy[code] = lines
    return _busy[code]


_BUSY_OPS = {"BINARY_OP", "BINARY_SLICE", "STORE_SLICE", "FOR_ITER", "GET_ITER", "JUMP_BACKWARD", "IMPORT_NAME", "IMPORT_FROM",
             "LIST_EXTEND", "LIST_APPEND", "SET_ADD", "MAP_ADD", "YIELD_VALUE", "UNARY_NEGATIVE", "UNARY_INVERT"}


class Injector:
    """Counts fault points; raises at the ones asked for."""

    def __init__(self):
        self.active = False
        self.count = 0
        self.at = None            # {count: exception name}
        self.fired = []
        self.sites = None
        self.observer = None
        self.installed = False

    def install(self):
        if not self.installed:
            try:
                mon.use_tool_id(TOOL, "verif-faults")
            except ValueError:
                pass
            mon.register_callback(TOOL, mon.events.CALL, self._call)
            mon.register_callback(TOOL, mon.events.LINE, self._line)
            self.installed = True

    def _call(self, code, off, callable_, arg0):
        if not seams.in_pkg(code.co_filename):
            return mon.DISABLE
        if not self.active:
            return
        n = heavy(callable_)
        if n is None:
            return
        self._point(code, n, off)

    def _line(self, code, line):
        if not seams.in_pkg(code.co_filename):
            return mon.DISABLE
        if self.active and code.co_name not in ("<module>", "__del__", "__exit__") and line in busy_lines(code) \
                and line not in skipped_lines(code.co_filename):
            self._point(code, f"line {line}", line)

    def _point(self, code, n, pos):
        self.count += 1
        if self.sites is not None:
            self.sites.setdefault((stateful(code), code.co_filename, code.co_qualname, pos), []).append(self.count)
        if self.observer is not None:
            self.active = False
            try:
                self.observer(self.count, code, n)
            finally:
                self.active = True
        if self.at and self.count in self.at:
            exc = self.at[self.count]
            self.fired.append((self.count, exc, code.co_qualname, n))
            seams.W.fire(exc)
            raise EXC[exc]("injected")

    def run(self, fn, at=None, observer=None, grain="call"):
        """fn() with faults at the given counts; returns ("ok", value) or ("raised", exc name)
        plus the number of points passed and the faults that fired."""
        self.install()
        self.count, self.at, self.fired, self.observer = 0, dict(at or {}), [], observer
        self.active = True
        mon.set_events(TOOL, mon.events.LINE if grain == "line" else mon.events.CALL)
        mon.restart_events()
        try:
            try:
                out = ("ok", fn())
            finally:
                self.active = False
                mon.set_events(TOOL, 0)
        except BaseException as e:
            out = ("raised", type(e).__name__)
            if not self.fired and not isinstance(e, (MemoryError, KeyboardInterrupt, TimeoutError)):
                raise
        return out, self.count, list(self.fired)


_state = {}


def stateful(code):
    """Does this function change objects that outlive it (other than the one it creates)?"""
    if code not in _state:
        ops = {i.opname for i in dis.get_instructions(code)}
        _state[code] = 0 if code.co_name == "__init__" else 2 if ops & {"STORE_ATTR", "STORE_GLOBAL", "DELETE_ATTR"} else \
            1 if ops & {"STORE_SUBSCR", "STORE_DEREF"} else 0
    return _state[code]


def choose(sites, total, m, rnd):
    """Up to m fault points: spread over the places in the code rather than over the run, with
    preference for functions that change objects."""
    if total <= m:
        return list(range(1, total + 1))
    ks = {1, total}
    places = sorted(sites)
    rnd.shuffle(places)
    hot = [p for p in places if p[0] == 2]
    warm = [p for p in places if p[0] == 1]
    h, w = max(1, m * 2 // 5), max(1, m // 10)
    cold = [p for p in places if not p[0]]
    places = hot[:h] + warm[:w] + cold + hot[h:] + warm[w:]
    for p in places:
        if len(ks) >= m * 9 // 10:
            break
        o = sites[p]
        ks.add(rnd.choice((o[0], o[-1], rnd.choice(o))))
    while len(ks) < m:
        ks.add(rnd.choice((rnd.randrange(1, total + 1), max(1, total - rnd.randrange(12)))))
        m -= 1 if len(ks) > m // 2 and rnd.random() < 0.05 else 0
    return sorted(ks)


INJ = Injector()
