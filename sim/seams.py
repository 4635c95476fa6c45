"""The seams: everything nondeterministic the library can meet, under our control.

`install()` has to run before the library is imported.  It replaces

* OS entropy (what an unseeded ``default_rng()`` draws)      -> seeded stream
* wall and monotonic clocks                                  -> simulated clock
* the processor count                                        -> a number we choose
* process pools and executors                                -> SimPool (in-process,
  every chunk scheduled by our PRNG, worker/pool failures injected)
* locks created by library code                              -> SimLock (known to the
  thread scheduler)

and then imports the library from REPO.  Nothing in REPO is changed.
"""
import os
import sys
import pickle
import random
import time as _time
import threading
from concurrent.futures import Future
from concurrent.futures.process import BrokenProcessPool

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "infomeasure") + os.sep

_real_monotonic = _time.monotonic
_real_lock = threading.Lock
_real_rlock = threading.RLock


def in_pkg(filename: str) -> bool:
    return filename.startswith(PKG)


class World:
    """State of the simulated environment; reset per run from the run's plan."""

    def __init__(self):
        self.reset(0)

    def reset(self, seed, cpu=4):
        self.rng = random.Random(f"env-{seed}")
        self.entropy = random.Random(f"entropy-{seed}")
        self.clock_rng = random.Random(f"clock-{seed}")
        self.now = 1.7e9
        self.cpu = cpu
        self.pools = []              # every SimPool ever made in this run
        self.pool_faults = {}        # {"create": [..], "chunk": [..]}
        self.pool_creates = 0
        self.pool_tasks = 0
        self.in_worker = False
        self.worker_calls = 0
        self.pool_execs = 0
        self.pool_log = []
        self.fired = {}
        self.scheduler = None        # set while threads are simulated
        self.entropy_draws = 0
        self.real_kde = False
        self.clock_reads = 0
        self.sleeps = 0
        self.pid = None              # of the simulated process, where the run forks
        self.draws = None            # normal variates handed out, while they are recorded
        self.weather = None          # what is made of them

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1


W = World()


# ---------------------------------------------------------------- entropy, clock, cpu
def _randbits(k):
    W.entropy_draws += 1
    return W.entropy.getrandbits(k)


def _clock():
    W.clock_reads += 1
    W.now += W.clock_rng.choice((0.0, 1e-6, 1e-3, 1.0, 3600.0))
    return W.now


_real_sleep = _time.sleep


def _sleep(seconds):
    """Library code sleeps in simulated time; whoever sleeps without end never returns."""
    if not in_pkg(sys._getframe(1).f_code.co_filename):
        return _real_sleep(seconds)
    if seconds < 0:
        raise ValueError("sleep length must be non-negative")
    W.now += seconds
    W.sleeps += 1
    if W.sleeps > 5000:
        raise NeverReturns("sleeps again and again and nothing changes meanwhile")


def _cpu_count():
    return W.cpu


# ---------------------------------------------------------------- process pools
class PoolFault(OSError):
    """Injected: the pool or a worker could not be created."""


class WorkerFault(MemoryError):
    """Injected: a worker ran out of memory."""


class _AsyncResult:
    def __init__(self, pool, tasks, chunked, callback=None, error_callback=None, single=False):
        self._pool, self._tasks = pool, tasks
        self._done = False
        self._cb, self._ecb, self._single = callback, error_callback, single
        self._value = self._error = None

    def _run(self):
        if self._done:
            return
        self._done = True
        try:
            out = self._pool._execute(self._tasks)
            self._value = out[0] if self._single else out
            if self._cb:
                self._cb(self._value)
        except BaseException as e:
            self._error = e
            if self._ecb:
                self._ecb(e)

    def get(self, timeout=None):
        self._run()
        if isinstance(self._error, NeverReturns) and timeout is not None:
            import multiprocessing
            raise multiprocessing.TimeoutError()
        if self._error is not None:
            raise self._error
        return self._value

    result = get

    def wait(self, timeout=None):
        self._run()

    def ready(self):
        return self._done

    def done(self):
        return self._done

    def exception(self, timeout=None):
        self._run()
        return self._error

    def successful(self):
        return self._done and self._error is None

    def add_done_callback(self, fn):
        self._run()
        fn(self)

    def cancel(self):
        return False


class NeverReturns(BaseException):
    """The simulated call would wait for ever."""


class SimPool:
    """Stands in for multiprocessing.Pool and the executors.

    Work is executed in this process.  Arguments and results cross a pickle boundary as
    they would between processes; the chunks run in an order our PRNG picks (results are
    still handed back as the real API would hand them back), and chunks or the pool
    itself fail when the plan says so.
    """

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None,
                 context=None, max_workers=None, mp_context=None, thread_name_prefix="", **kw):
        n = processes if processes is not None else max_workers
        if n is None:
            n = W.cpu
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        W.pool_creates += 1
        if W.pool_creates in W.pool_faults.get("create", ()):
            W.fire("pool_create_error")
            raise PoolFault(11, "Resource temporarily unavailable (injected)")
        self.n = n
        self.pid = W.pid
        self.state = "RUN"
        W.pools.append(self)
        W.pool_log.append(("pool", n))
        if initializer:
            initializer(*initargs)

    lossy = True

    def _lost(self):
        """A worker was killed: a Pool starts another one, but nothing brings its task back."""
        raise NeverReturns("a killed worker's task never comes back and nothing waits with a time limit")

    # --- execution
    def _execute(self, tasks):
        if self.state != "RUN":
            raise ValueError("Pool not running")
        if self.pid != W.pid:
            raise NeverReturns("the pool belongs to another process: no thread here hands its tasks out")
        tasks = list(tasks)
        W.pool_execs += 1
        if W.pool_execs in W.pool_faults.get("interrupt", ()):
            W.fire("interrupt_error_while_waiting")
            raise KeyboardInterrupt("injected: interrupted while the workers run")
        order = list(range(len(tasks)))
        W.rng.shuffle(order)
        results = [None] * len(tasks)
        errors = {}
        finish = []
        for i in order:
            W.pool_tasks += 1
            no = W.pool_tasks
            finish.append(i)
            try:
                fn, args, kwds = pickle.loads(pickle.dumps(tasks[i]))
                if no in W.pool_faults.get("killed", ()) and self.lossy:
                    W.fire("worker_killed_error")
                    self._lost()
                if no in W.pool_faults.get("chunk_before", ()):
                    W.fire("worker_error_before")
                    raise WorkerFault("injected: worker ran out of memory")
                W.in_worker = True
                try:
                    r = fn(*args, **kwds)
                finally:
                    W.in_worker = False
                if no in W.pool_faults.get("chunk_after", ()):
                    W.fire("worker_error_after")
                    raise WorkerFault("injected: worker ran out of memory")
                if no in W.pool_faults.get("slow", ()):
                    W.fire("worker_slow")
                    W.now += 1e5
                results[i] = pickle.loads(pickle.dumps(r))
            except Exception as e:
                errors[i] = e
        W.pool_log.append(("order", tuple(finish)))
        self._last_finish = finish
        if errors:
            # the first failing chunk to finish determines the error, as in the real map
            raise errors[next(i for i in finish if i in errors)]
        return results

    # --- multiprocessing.Pool API
    def map(self, func, iterable, chunksize=None, *more, timeout=None):
        if not isinstance(chunksize, (int, type(None))):      # executor.map(f, a, b)
            iterables = (iterable, chunksize) + more
            return iter(self._execute([(func, args, {}) for args in zip(*iterables)]))
        return self._execute([(func, (x,), {}) for x in iterable])

    def starmap(self, func, iterable, chunksize=None):
        return self._execute([(func, tuple(x), {}) for x in iterable])

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    def imap_unordered(self, func, iterable, chunksize=1):
        out = self.map(func, iterable)
        return iter([out[i] for i in self._last_finish])

    def apply(self, func, args=(), kwds={}):
        return self._execute([(func, tuple(args), dict(kwds))])[0]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return _AsyncResult(self, [(func, tuple(args), dict(kwds))], False, callback, error_callback, True)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _AsyncResult(self, [(func, (x,), {}) for x in iterable], True, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _AsyncResult(self, [(func, tuple(x), {}) for x in iterable], True, callback, error_callback)

    def close(self):
        if self.state == "RUN":
            self.state = "CLOSE"

    def terminate(self):
        self.state = "TERMINATE"

    def join(self):
        if self.state == "RUN":
            raise ValueError("Pool is still running")
        self.state = "JOINED"

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()
        self.join()


class SimExecutor(SimPool):
    def _lost(self):
        self.state = "BROKEN"
        raise BrokenProcessPool("injected: a process in the process pool was terminated abruptly")

    def _execute(self, tasks):
        if self.state == "BROKEN":
            raise BrokenProcessPool("injected: the pool is broken")
        return super()._execute(tasks)

    def submit(self, fn, /, *args, **kwds):
        f = Future()
        try:
            f.set_result(self._execute([(fn, args, kwds)])[0])
        except (KeyboardInterrupt, NeverReturns):
            raise
        except BaseException as e:
            f.set_exception(e)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return iter(self._execute([(fn, args, {}) for args in zip(*iterables)]))

    def shutdown(self, wait=True, cancel_futures=False):
        self.state = "JOINED" if wait else "CLOSE"

    def __exit__(self, *a):
        self.shutdown()


def _as_completed(fs, timeout=None):
    """Futures in the order a seeded schedule finishes them (all are done when handed out)."""
    fs = list(dict.fromkeys(fs))
    W.rng.shuffle(fs)
    W.pool_log.append(("order", len(fs)))
    return iter(fs)


class SimThreads(SimExecutor):
    lossy = False                  # threads are not killed one by one


def _make_pool(*args, **kw):
    # context.BaseContext.Pool is called as a method
    if args and not isinstance(args[0], (int, type(None))):
        args = args[1:]
    return SimPool(*args, **kw)


# ---------------------------------------------------------------- locks
class SimLock:
    """A lock the thread scheduler knows; outside a simulation a plain lock."""

    def __init__(self, reentrant=False):
        self.owner, self.depth, self.reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.reentrant and self.owner == me:
            self.depth += 1
            return True
        while self.owner is not None:
            if not blocking:
                return False
            if W.scheduler is None or not W.scheduler.is_sim_thread():
                raise RuntimeError("deadlock: lock held and nothing else can run")
            W.scheduler.block(self)
        self.owner, self.depth = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self.owner == threading.get_ident()


def _lock_factory():
    if in_pkg(sys._getframe(1).f_code.co_filename):
        return SimLock()
    return _real_lock()


def _rlock_factory():
    if in_pkg(sys._getframe(1).f_code.co_filename):
        return SimLock(reentrant=True)
    return _real_rlock()


# ---------------------------------------------------------------- random numbers
def _record_generators():
    """numpy's random generators, their normal variates recorded and changed as the plan says."""
    import numpy as np
    import numpy.random as nr
    base, original = nr.Generator, nr.default_rng

    class Generator(base):
        def _hand(self, how, z):
            if W.draws is None:
                return z
            z = np.asarray(z, dtype=float) if W.weather is None else W.weather(np.asarray(z, dtype=float), len(W.draws))
            W.draws.append((how, z.copy()))
            return z

        def normal(self, loc=0.0, scale=1.0, size=None):
            if W.draws is None:
                return super().normal(loc, scale, size)
            if size is None:
                size = np.broadcast_shapes(np.shape(loc), np.shape(scale))
            out = loc + scale * self._hand("normal", super().standard_normal(size))
            return out if np.ndim(out) else float(out)

        def standard_normal(self, size=None, dtype=float, out=None):
            z = self._hand("standard", super().standard_normal(size))
            if out is not None:
                out[...] = z
                return out
            return z if np.ndim(z) else float(z)

    def default_rng(seed=None):
        g = original(seed)
        return g if isinstance(seed, (base, nr.BitGenerator)) else Generator(g.bit_generator)

    Generator.__module__, Generator.__qualname__ = base.__module__, base.__qualname__
    nr.default_rng = default_rng


# ---------------------------------------------------------------- installation
_installed = False


def install(stub_kde=False, import_lib=True, preload=True, pyc=None, record_rng=False):
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)

    import multiprocessing
    import multiprocessing.pool
    import multiprocessing.context
    import concurrent.futures
    import concurrent.futures.process
    import concurrent.futures.thread

    import numpy.random.bit_generator as bg
    import numpy, scipy, scipy.spatial, scipy.stats, scipy.special, scipy.integrate, scipy.optimize  # noqa
    import sparse  # noqa  (pulls numba)

    sys.pycache_prefix = pyc or "/nonexistent-pycache"   # never read a stale .pyc of the library
    bg.randbits = _randbits
    multiprocessing.cpu_count = _cpu_count
    os.cpu_count = _cpu_count
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = _cpu_count
    os.sched_getaffinity = lambda pid=0: set(range(W.cpu))
    multiprocessing.context.BaseContext.cpu_count = lambda self: W.cpu
    multiprocessing.Pool = SimPool
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimPool
    multiprocessing.context.BaseContext.Pool = _make_pool
    multiprocessing.context.DefaultContext.Pool = _make_pool
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    concurrent.futures.as_completed = concurrent.futures._base.as_completed = _as_completed
    concurrent.futures.ThreadPoolExecutor = SimThreads
    concurrent.futures.process.ProcessPoolExecutor = SimExecutor
    concurrent.futures.thread.ThreadPoolExecutor = SimThreads
    for name in ("time", "monotonic", "perf_counter"):
        setattr(_time, name, _clock)
    _time.sleep = _sleep
    for name in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        setattr(_time, name, lambda: int(_clock() * 1e9))
    threading.Lock = _lock_factory
    threading.RLock = _rlock_factory

    if stub_kde:
        install_stub_kde()
    if record_rng:
        _record_generators()
    _warm_up()
    if import_lib:
        import_library(preload)


def _warm_up():
    """Compile what the sparse package compiles lazily; does not touch the library."""
    import numpy as np
    from sparse import COO, asnumpy
    c = COO(coords=[np.array([0, 1, 1]), np.array([0, 0, 1])], data=np.ones(3, dtype=np.uint64), shape=(2, 2), fill_value=0)
    asnumpy(c.sum(axis=0)); asnumpy(c.sum(axis=(1,))); c.sum(); c.nonzero()
    c[(np.array([0, 1]), np.array([0, 1]))].data
    c3 = COO(coords=[np.array([0, 1, 1]), np.array([0, 0, 1]), np.array([0, 1, 1])], data=np.ones(3, dtype=np.uint64), shape=(2, 2, 2), fill_value=0)
    asnumpy(c3.sum(axis=(0, 1))); asnumpy(c3.sum(axis=(1,))); c3.sum()
    c3[(np.array([0, 1]), np.array([0, 1]), np.array([0, 1]))].data


def import_library(preload=True):
    import importlib
    import logging
    import infomeasure
    if not os.path.realpath(infomeasure.__file__).startswith(PKG):
        raise RuntimeError(f"library imported from {infomeasure.__file__}, not {PKG}")
    if preload:
        import pkgutil
        for m in pkgutil.walk_packages(infomeasure.__path__, "infomeasure."):
            if ".test_" in m.name or m.name.rsplit(".", 1)[-1].startswith("test_"):
                continue
            importlib.import_module(m.name)
    root = logging.getLogger()
    for h in list(root.handlers):      # the library calls logging.basicConfig on import
        root.removeHandler(h)
    root.addHandler(logging.NullHandler())
    logging.getLogger("infomeasure").setLevel(logging.ERROR)
    return infomeasure


# ---------------------------------------------------------------- cheap density stub
INSIDE = {"MemoryError": MemoryError, "OSError": OSError, "RuntimeError": RuntimeError, "ValueError": ValueError,
          "FloatingPointError": FloatingPointError}


def install_stub_kde():
    """Replace scipy's gaussian_kde by a cheap one of the same shape.

    Like the real one its value at a query point depends on the whole data set and the
    bandwidth and on nothing else, but it costs O(n) instead of O(n^2), so the parallel
    path (20000 points and more) can be simulated thousands of times.
    """
    import numpy as np
    import scipy.stats

    def failing():
        """Inside a worker the density estimate itself may run out of memory."""
        if W.in_worker:
            W.worker_calls += 1
            if W.worker_calls in W.pool_faults.get("inside", ()):
                W.fire("worker_error_inside")
                raise INSIDE[W.pool_faults.get("inside_exc", "MemoryError")]("injected: inside a worker")

    class StubKDE:
        def __init__(self, dataset, bw_method=None, weights=None):
            failing()
            self.dataset = np.atleast_2d(np.asarray(dataset))
            self.d, self.n = self.dataset.shape
            if self.n <= 1:
                raise ValueError("`dataset` input should have multiple elements.")
            self.factor = float(bw_method)
            pick = np.linspace(0, self.n - 1, 7).astype(int)
            self._centres = self.dataset[:, pick]
            self._mean = self.dataset.mean(axis=1)
            self._spread = self.dataset.std(axis=1) + 1e-3

        def evaluate(self, points):
            failing()
            points = np.atleast_2d(np.asarray(points))
            if points.shape[0] != self.d:
                if points.shape[0] == 1 and points.shape[1] == self.d:
                    points = points.reshape(self.d, 1)
                else:
                    raise ValueError("points have wrong dimension")
            out = np.full(points.shape[1], 1e-3)
            for c in (*self._centres.T, self._mean):
                z = (points - c[:, None]) / (self._spread[:, None] * (0.5 + self.factor))
                out += 1.0 / (1.0 + (z * z).sum(axis=0))
            return out / self.factor

        __call__ = evaluate
        pdf = evaluate

    import scipy.stats._kde
    real = scipy.stats._kde.gaussian_kde

    class KDE(StubKDE):
        """The stub, or the real thing in runs that ask for it."""

        def __new__(cls, *args, **kw):
            if W.real_kde:
                return real(*args, **kw)
            return object.__new__(cls)

    KDE.__name__ = KDE.__qualname__ = "gaussian_kde"
    scipy.stats.gaussian_kde = KDE
    scipy.stats._kde.gaussian_kde = KDE
