"""A thread scheduler: real threads, but exactly one runs, and we choose which.

Every line (or every bytecode instruction) of library code is a point where the running
thread may be parked and another one resumed.  Locks made by library code and the import
system's module locks are known to the scheduler, so a parked thread holding one makes
others wait in simulated, not in real, time; when nobody can run that is a deadlock.

The decisions are either drawn from a seeded PRNG (and recorded) or read from a list
[[step, thread], ...], which is how a recorded run is repeated.
"""
import sys
import _thread
import random
import threading

from . import seams
from .seams import W

TOOL = 3
mon = sys.monitoring


class Deadlock(BaseException):
    pass


class Livelock(BaseException):
    pass


class _T:
    __slots__ = ("i", "fn", "baton", "ident", "done", "wait_for", "outcome", "loc", "steps")

    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.ident = None
        self.done = False
        self.wait_for = None         # callable: True once the thread may go on
        self.outcome = None
        self.loc = None
        self.steps = 0


class Scheduler:
    def __init__(self, mode, seed=0, p=0.1, points=None, switches=None, grain="line", limit=3_000_000):
        self.mode, self.p, self.grain = mode, p, grain
        self.rng = random.Random(f"sched-{seed}")
        self.points = set(points or ())
        self.explicit = {s: t for s, t in switches} if switches is not None else None
        self.step = 0
        self.limit = limit
        self.record = []
        self.deadlocks = []
        self.pairs = set()
        self.threads = []
        self.by_ident = {}
        self.current = None
        self.active = False
        self.main = _thread.allocate_lock()
        self.main.acquire()

    # ---------------------------------------------------------- called by simulated locks
    def is_sim_thread(self):
        return self.active and _thread.get_ident() in self.by_ident

    def block(self, lock):
        self.block_until(lambda: not lock.locked())

    def block_until(self, ready):
        t = self.by_ident[_thread.get_ident()]
        t.wait_for = ready
        self.step += 1
        nxt = self._choose(t, forced=True)
        if nxt is None:
            t.wait_for = None
            self.deadlocks.append([x.loc for x in self.threads])
            raise Deadlock("every thread waits for another")
        if nxt is not t:
            self._hand_over(t, nxt)
        t.wait_for = None

    # ---------------------------------------------------------- decisions
    def _runnable(self):
        return [t for t in self.threads if not t.done and (t.wait_for is None or t.wait_for())]

    def _choose(self, t, forced):
        cand = self._runnable()
        if not cand:
            return None
        if self.explicit is not None:
            want = self.explicit.get(self.step)
            if want is not None:
                for c in cand:
                    if c.i == want:
                        return c
            return cand[0] if forced else t
        if not forced:
            others = [c for c in cand if c is not t]
            if not others:
                return t
            return others[self.rng.randrange(len(others))] if len(others) > 1 else others[0]
        return cand[self.rng.randrange(len(cand))] if len(cand) > 1 else cand[0]

    def _want_switch(self):
        if self.explicit is not None:
            return self.step in self.explicit
        if self.mode == "few":
            return self.step in self.points
        return self.rng.random() < self.p

    def _hand_over(self, t, nxt):
        self.record.append([self.step, nxt.i])
        self.pairs.add(hash_pair(t.loc, nxt.loc))
        self.current = nxt
        nxt.baton.release()
        if t is not None and not t.done:
            t.baton.acquire()

    # ---------------------------------------------------------- monitoring callbacks
    def _line(self, code, line):
        if not seams.in_pkg(code.co_filename):
            return mon.DISABLE
        self._point(code, line)

    def _instr(self, code, off):
        if not seams.in_pkg(code.co_filename):
            return mon.DISABLE
        self._point(code, off)

    def _point(self, code, where):
        if not self.active:
            return
        t = self.by_ident.get(_thread.get_ident())
        if t is None:
            return
        self.step += 1
        t.steps += 1
        if self.step > self.limit:
            self.deadlocks.append([x.loc for x in self.threads])
            raise Livelock(f"no end after {self.limit} steps")
        t.loc = (code.co_filename[len(seams.PKG):], code.co_qualname, where)
        if self._want_switch():
            nxt = self._choose(t, forced=False)
            if nxt is not None and nxt is not t:
                self._hand_over(t, nxt)

    # ---------------------------------------------------------- running
    def _body(self, t):
        t.baton.acquire()
        try:
            t.outcome = ("ok", t.fn())
        except BaseException as e:
            import traceback
            t.outcome = ("raised", type(e).__name__, traceback.format_exc()[-1500:])
        t.done = True
        self.step += 1
        nxt = self._choose(t, forced=True)
        if nxt is not None:
            self._hand_over(t, nxt)
        else:
            left = [x for x in self.threads if not x.done]
            if left:
                self.deadlocks.append([x.loc for x in self.threads])
                # wake one; it finds nobody runnable and raises
                left[0].wait_for = None
                self.current = left[0]
                self.dead = True
                left[0].baton.release()
            else:
                self.main.release()

    def run(self, fns):
        self.threads = [_T(i, f) for i, f in enumerate(fns)]
        ths = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.threads]
        for th, t in zip(ths, self.threads):
            th.start()
            t.ident = th.ident
            self.by_ident[t.ident] = t
        try:
            mon.use_tool_id(TOOL, "verif-sched")
        except ValueError:
            pass
        ev = mon.events.LINE if self.grain == "line" else mon.events.INSTRUCTION
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, self._instr)
        W.scheduler = self
        self.active = True
        mon.restart_events()
        mon.set_events(TOOL, ev)
        try:
            self.step += 1
            nxt = self._choose(self.threads[0], forced=True)
            self.record.append([self.step, nxt.i])
            self.current = nxt
            nxt.baton.release()
            self.main.acquire()
        finally:
            self.active = False
            mon.set_events(TOOL, 0)
            W.scheduler = None
        for th in ths:
            th.join()
        return [t.outcome for t in self.threads]


def hash_pair(a, b):
    import zlib
    return zlib.crc32(repr((a, b)).encode())


# ------------------------------------------------------------------ import system
def patch_imports():
    """Make the import system's per-module locks wait in simulated time."""
    import importlib._bootstrap as ib
    cls = ib._ModuleLock
    real = cls.acquire
    manager = ib._BlockingOnManager

    def acquire(self):
        s = W.scheduler
        if s is None or not s.is_sim_thread():
            return real(self)
        tid = _thread.get_ident()
        with manager(tid, self):
            while True:
                if self.count == [] or self.owner == tid:
                    self.owner = tid
                    self.count.append(True)
                    return True
                if self.has_deadlock():
                    raise ib._DeadlockError(f"deadlock detected by {self!r}")
                W.fire("import_lock_wait")
                s.block_until(lambda: self.count == [])

    cls.acquire = acquire
