"""A pristine interpreter that forks one child per simulated run.

Reads length-prefixed pickled plans on stdin, answers length-prefixed pickled results on
stdout.  The parent of all children has only imported the library, never called it, so
every run starts from the state of a fresh process.
"""
import os
import sys
import struct
import pickle
import select
import signal
import importlib
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from sim import seams  # noqa: E402


def read_exact(fd, n):
    buf = b""
    while len(buf) < n:
        b = os.read(fd, n - len(buf))
        if not b:
            return None
        buf += b
    return buf


def fork_call(fn, timeout, *args):
    """Run fn(*args) in a forked child; returns ("ok", value) or ("crash"/"hang", info)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except BaseException:
                out = ("error", traceback.format_exc())
            data = pickle.dumps(out)
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    t0 = seams._real_monotonic()
    try:
        while True:
            left = timeout - (seams._real_monotonic() - t0)
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return ("hang", f"no answer within {timeout} s")
            ready, _, _ = select.select([r], [], [], left)
            if ready:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                chunks.append(b)
    finally:
        os.close(r)
    _, status = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if not data:
        return ("crash", f"child ended with status {status}")
    return pickle.loads(data)


def main():
    check = sys.argv[1]
    opts = sys.argv[2:]
    out_fd = os.dup(1)
    os.dup2(2, 1)                      # stray prints go to stderr
    null = os.open(os.devnull, os.O_RDONLY)
    in_fd = os.dup(0)
    os.dup2(null, 0)
    try:
        import resource
        gb = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (gb, gb))
    except Exception:
        pass
    try:
        seams.install(stub_kde="stub_kde" in opts, import_lib="no_import" not in opts,
                      preload="no_preload" not in opts, record_rng="record_rng" in opts,
                      pyc=next((o[4:] for o in opts if o.startswith("pyc=")), None))
        mod = importlib.import_module(f"checks.{check}")
        import warnings
        warnings.simplefilter("ignore")
        hello = ("ready", None)
    except BaseException:
        hello = ("failed", traceback.format_exc())

    def send(obj):
        data = pickle.dumps(obj)
        os.write(out_fd, struct.pack("<Q", len(data)))
        view = memoryview(data)
        while view:
            n = os.write(out_fd, view)
            view = view[n:]

    import gc
    gc.collect()
    gc.freeze()
    send(hello)
    if hello[0] != "ready":
        return
    while True:
        head = read_exact(in_fd, 8)
        if head is None:
            return
        plan, timeout = pickle.loads(read_exact(in_fd, struct.unpack("<Q", head)[0]))
        seams.W.reset(plan.get("seed", 0), plan.get("cpu", 4))
        send(fork_call(mod.execute, timeout, plan))


if __name__ == "__main__":
    main()
