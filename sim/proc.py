"""Forked children: every run, and every reference computation, gets a pristine process image."""
import os
import pickle
import select
import signal
import sys

from .kernel import REAL_PERF, HarnessError


class ChildTimeout(HarnessError):
    pass


class ChildDied(HarnessError):
    pass


class ChildError(HarnessError):
    """The harness code in the child raised."""


def _read_all(fd, end):
    buf = []
    while True:
        left = end - REAL_PERF()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], min(left, 5.0))
        if not r:
            continue
        c = os.read(fd, 1 << 16)
        if not c:
            return b"".join(buf)
        buf.append(c)


_depth = 0


def spawn(fn, *args):
    """-> (pid, fd): fn(*args) runs in a forked child; its pickled result arrives on fd."""
    global _depth
    rd, wr = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(wr)
        return pid, rd
    code = 0
    try:
        if _depth == 0:
            os.setpgid(0, 0)  # the whole run (with its own reference children) can be ended at once
        _depth += 1
        os.close(rd)
        try:
            data = pickle.dumps(("ok", fn(*args)), 2)
        except BaseException as ex:
            import traceback

            data = pickle.dumps(("err", "%s\n%s" % (ex.__class__.__name__, traceback.format_exc()[-3000:])), 2)
        view = memoryview(data)
        while view:
            n = os.write(wr, view)
            view = view[n:]
        os.close(wr)
    except BaseException:
        code = 3
    finally:
        os._exit(code)


def collect(pid, fd, end):
    data = _read_all(fd, end)
    os.close(fd)
    if data is None:
        for kill in (os.killpg, os.kill):
            try:
                kill(pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
        raise ChildTimeout("child exceeded its wall-clock allowance")
    _, status = os.waitpid(pid, 0)
    if not data:
        raise ChildDied("child ended without a result (status %d)" % status)
    kind, val = pickle.loads(data)
    if kind == "err":
        raise ChildError(val)
    return val


def forked(fn, *args, wall=60.0):
    pid, fd = spawn(fn, *args)
    return collect(pid, fd, REAL_PERF() + wall)
