"""The simulator kernel: one process lifetime of simpy with every source of nondeterminism owned by the simulator.

    boot(cfg)      installs the seams and imports the instrumented package afresh ("process start")
    st             the point counter: every yield point of the package passes through it
    Clock, SimSet, SimLock, Sched, Injector ...
"""
import builtins
import gc
import hashlib
import io
import os
import random
import sys
import zlib
import time
import warnings
import weakref
import _thread

from . import instrument

REAL_TIME = time.time
REAL_PERF = time.perf_counter
_alloc = _thread.allocate_lock
INF = 1 << 62


class SimStop(BaseException):
    """Raised by the kernel when a run exceeds its step limit (never caught by `except Exception`)."""


class SimDeadlock(BaseException):
    pass


class HarnessError(Exception):
    """A fault of the simulator itself; never reported as a violation."""


class State:
    __slots__ = ("n", "nxt", "h", "nxth", "limit", "inject_at", "inject_hot", "exc", "shield", "sched", "injected",
                 "where", "tick", "ticks", "rec")

    def reset(self):
        self.n = 0  # yield points passed
        self.h = 0  # of which next to a write of shared state
        self.nxt = INF
        self.nxth = INF
        self.limit = INF
        self.inject_at = INF
        self.inject_hot = INF
        self.exc = None
        self.shield = 0
        self.sched = None
        self.injected = None
        self.where = None
        self.tick = None  # periodic callback (invariant checks): (period, fn)
        self.ticks = INF
        self.rec = None  # list that receives the location of every point


st = State()
st.reset()


def _location(depth):
    f = sys._getframe(depth)
    return "%s:%s:%d" % (os.path.basename(f.f_code.co_filename), f.f_code.co_name, f.f_lineno)


def _rearm():
    if st.rec is not None:
        st.nxt = 0
        st.nxth = INF
        return
    st.nxt = min(st.limit, st.inject_at, st.ticks, st.sched.at if st.sched is not None else INF)
    st.nxth = min(st.inject_hot, st.sched.at_hot if st.sched is not None else INF)


def _fire(hot):
    """Something is due at this point."""
    if st.rec is not None:
        f = sys._getframe(2)
        st.rec.append((f.f_code, f.f_lineno))
        if len(st.rec) >= st.limit:
            raise SimStop("too many points to record")
        return
    if st.n >= st.limit:
        st.limit = st.n + 200_000  # again, should something swallow it
        _rearm()
        raise SimStop("step limit")
    if st.n >= st.ticks:
        period, fn = st.tick
        save = st.n, st.h, st.limit, st.inject_at, st.inject_hot, st.sched
        st.ticks = INF
        st.limit = st.inject_at = st.inject_hot = INF
        st.sched = None
        _rearm()
        fn()
        st.n, st.h, st.limit, st.inject_at, st.inject_hot, st.sched = save
        st.ticks = st.n + period
        _rearm()
    if st.n >= st.inject_at or st.h >= st.inject_hot:
        if st.shield == 0:
            st.inject_at = INF
            st.inject_hot = INF
            st.injected = st.exc
            st.where = _location(3)
            _rearm()
            raise st.exc
        # inside an except/finally suite: deliver at the first point after it
    s = st.sched
    if s is not None and (st.n >= s.at or st.h >= s.at_hot):
        if s.lines is None or s.due(sys._getframe(2)):
            s.preempt(_location(3))


def _p():
    st.n += 1
    if st.n >= st.nxt:
        _fire(False)


def _hp():
    st.n += 1
    st.h += 1
    if st.n >= st.nxt or st.h >= st.nxth:
        _fire(True)


def _v(x):
    st.n += 1
    if st.n >= st.nxt:
        _fire(False)
    return x


def _hv(x):
    st.n += 1
    st.h += 1
    if st.n >= st.nxt or st.h >= st.nxth:
        _fire(True)
    return x


def _se():
    st.shield += 1


def _sx():
    st.shield -= 1


class quiet:
    """The harness itself is looking at library objects: no faults, no preemption, no counting."""

    def __enter__(self):
        self.save = (st.n, st.h, st.nxt, st.nxth)
        st.nxt = INF
        st.nxth = INF

    def __exit__(self, *a):
        st.n, st.h, st.nxt, st.nxth = self.save
        return False


# ------------------------------------------------------------------------------------------------ set order
class _Order:
    seed = 0


def _key(x):
    return hashlib.blake2b(("%d|%s|%r" % (_Order.seed, type(x).__name__, x)).encode(), digest_size=8).digest()


class SimSet(set):
    """A set whose iteration order is chosen by the simulator (as a hash seed would), not by insertion."""

    def __iter__(self):
        items = list((set if isinstance(self, set) else frozenset).__iter__(self))
        if _Order.seed:
            try:
                items.sort(key=_key)
            except Exception:
                pass
        return iter(items)

    def pop(self):
        for x in self:
            self.remove(x)
            return x
        raise KeyError("pop from an empty set")

    def _w(name):
        base = getattr(set, name)

        def f(self, *a):
            r = base(self, *a)
            return SimSet(r) if isinstance(r, set) else r

        f.__name__ = name
        return f

    for _n in ("__or__", "__and__", "__sub__", "__xor__", "__ror__", "__rand__", "__rsub__", "__rxor__", "union",
               "intersection", "difference", "symmetric_difference", "copy"):
        locals()[_n] = _w(_n)
    del _n, _w


class _SetMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, set)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, set)


class SetName(SimSet, metaclass=_SetMeta):
    """What the name `set` is bound to inside the package."""


class _FrozenMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, frozenset)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, frozenset)


class FrozenName(frozenset, metaclass=_FrozenMeta):
    """What the name `frozenset` is bound to inside the package."""

    __iter__ = SimSet.__iter__


# ------------------------------------------------------------------------------------------- identities and hashes
class _Ids:
    """What id() says inside the package: addresses in an order chosen by the simulator; the address of an object that no
    longer exists is given to a later one."""

    seen = {}  # real id -> (reference, number)
    free = []
    fresh = 0
    calls = 0


def sim_id(o):
    T = _Ids
    rid = id(o)
    ent = T.seen.get(rid)
    if ent is not None and ent[0]() is o:
        n = ent[1]
    else:
        if ent is not None:
            T.seen[("gone", ent[1])] = ent
        T.calls += 1
        if T.calls % 5 == 0 and T.calls < 500:
            gc.collect()
            for k in [k for k, (w, n) in T.seen.items() if w() is None]:
                T.free.append(T.seen.pop(k)[1])
            T.free.sort()
        if T.free:
            n = T.free.pop()
        else:
            T.fresh += 1
            n = T.fresh
        try:
            T.seen[rid] = (weakref.ref(o), n)
        except TypeError:
            T.seen[rid] = ((lambda: o), n)
    k = (n * 2654435761 + _Order.seed * 40503) % (1 << 24) if _Order.seed else n
    return 0x7F0000000000 + 48 * k


def sim_hash(x):
    """hash(): of text, and of what is made of text, it differs from one process to the next."""
    if isinstance(x, (str, bytes)):
        b = x.encode("utf-8", "surrogatepass") if isinstance(x, str) else x
        return int.from_bytes(hashlib.blake2b(b"%d|" % _Order.seed + b, digest_size=8).digest(), "little", signed=True) >> 3
    if isinstance(x, tuple):
        return hash(tuple(sim_hash(i) for i in x))
    if isinstance(x, frozenset):
        return hash(frozenset(sim_hash(i) for i in x))
    h = hash(x)  # as refused by the object
    t = type(x).__hash__
    if t is object.__hash__:
        return sim_id(x) >> 4
    return h


# ---------------------------------------------------------------------------------------------------- clock
class Clock:
    """Virtual time.  t = rate * points + jumps; the wall clock is t plus steps in either direction.

    script: {"rate": s per yield point, "jumps": [[unit, k, dt], ...], "wall": [[unit, k, ds], ...]}
    unit "p": when k yield points have passed since the first reading of any clock under this script;
    unit "r": just before the k-th reading (k >= 2: the first reading is the start of the measurement).
    """

    def __init__(self):
        self.load({})

    def load(self, script):
        self.rate = script.get("rate", 0.0)
        self.jumps = [list(j) for j in script.get("jumps", [])]
        self.wall = [list(j) for j in script.get("wall", [])]
        self.t = 0.0
        self.stalled = 0.0
        self.w = 1.7e9
        self.reads = 0
        self.last_n = st.n
        self.n0 = None
        self.t0 = None
        self.fired = {"jump": 0, "wall_step_back": 0, "wall_step_forward": 0}
        self.read_log = []  # (points since the first reading, t) at each reading
        self.on_read = None
        self.done_p = []
        return self

    def advance(self):
        dn = st.n - self.last_n
        if dn > 0:
            self.last_n = st.n
            self.t += dn * self.rate
        if self.n0 is None:
            return
        rel = st.n - self.n0
        for lst, which in ((self.jumps, 0), (self.wall, 1)):
            while lst:
                due = None
                for j in lst:
                    if (j[0] == "p" and rel >= j[1]) or (j[0] == "r" and self.reads >= j[1]):
                        due = j
                        break
                if due is None:
                    break
                lst.remove(due)
                if which == 0:
                    self.t += due[2]
                    self.stalled += due[2]
                    self.done_p.append((due[1] if due[0] == "p" else rel, due[2]))
                    self.fired["jump"] += 1
                else:
                    self.w += due[2]
                    self.fired["wall_step_back" if due[2] < 0 else "wall_step_forward"] += 1

    def read(self, wall):
        self.reads += 1
        self.advance()
        if self.n0 is None:
            self.n0 = st.n
            self.t0 = self.t
        self.read_log.append((st.n - self.n0, self.t))
        if self.on_read is not None:
            with quiet():
                self.on_read(self)
        return self.t + self.w if wall else self.t + 1000.0

    def elapsed(self):
        """Simulated seconds since the first reading."""
        self.advance()
        return 0.0 if self.t0 is None else self.t - self.t0

    def crossing(self, budget):
        """Points since the first reading at which `budget` simulated seconds had passed, or None (so far)."""
        self.advance()
        if self.t0 is None or self.t - self.t0 < budget:
            return None
        t, n = 0.0, 0
        marks = sorted(self.done_p)
        for k, dt in marks:
            if self.rate > 0 and t + (k - n) * self.rate >= budget:
                break
            t += (k - n) * self.rate + dt
            n = k
            if t >= budget:
                return n
        return n + int((budget - t) / self.rate) if self.rate > 0 else n

    def sleep(self, s):
        self.t += max(0.0, s)
        self.stalled += max(0.0, s)


clock = Clock()


def _install_clock():
    time.time = lambda: clock.read(True)
    time.time_ns = lambda: int(clock.read(True) * 1e9)
    for n in ("monotonic", "perf_counter"):
        setattr(time, n, lambda: clock.read(False))
        setattr(time, n + "_ns", lambda: int(clock.read(False) * 1e9))
    for n in ("process_time", "thread_time"):  # a stalled process uses none of it
        setattr(time, n, lambda: clock.read(False) - clock.stalled)
        setattr(time, n + "_ns", lambda: int((clock.read(False) - clock.stalled) * 1e9))
    time.sleep = clock.sleep


# --------------------------------------------------------------------------------------------------- random
_urand = random.Random(0)


def _urandom(n):
    return bytes(_urand.getrandbits(8) for _ in range(n))


def seed_random(s):
    random.seed(s)
    _urand.seed(s)


# ------------------------------------------------------------------------------------------------- warnings
class Warned:
    log = []  # (thread index or None, category, text)


def _showwarning(message, category, filename, lineno, file=None, line=None):
    """What reaches the user: the interpreter's own filters stay in charge (all on, at process start)."""
    if issubclass(category, (ResourceWarning, SyntaxWarning)):
        return  # from the interpreter, at instants of its own choosing
    s = st.sched
    Warned.log.append((s.cur if s is not None else None, category.__name__, str(message)))


# ---------------------------------------------------------------------------------------------------- locks
class SimLock:
    """threading.Lock / RLock as seen by the package: blocking is a scheduling decision of the simulator."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        s = st.sched
        return ("t", s.cur) if s is not None else ("main",)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while True:
            if self.owner is None:
                self.owner, self.count = me, 1
                return True
            if self.reentrant and self.owner == me:
                self.count += 1
                return True
            if not blocking:
                return False
            s = st.sched
            if s is None or self.owner == me:
                if timeout is not None and timeout >= 0:
                    return False
                raise SimDeadlock("lock already held by the only runnable thread")
            s.block()

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == self._me()


class SimRLock(SimLock):
    reentrant = True


# ------------------------------------------------------------------------------------------------ scheduler
class Sched:
    """Runs callables on real threads of which exactly one holds the baton; every hand-over is decided here.

    plan: [[unit, delta, target], ...]: after `delta` more points ("a") or shared-write points ("h") hand over to
    the target-th other live thread.  When the plan is used up each thread runs to completion in index order.

    A plan may instead be {"line": [seed, density, prob], "skip": n, "max": m}: hand over, with the given probability,
    at every shared-write point on the lines that the seed picks (each line, of the package or of one "file", with the given density);
    of these hand-overs the first n are left out and at most m are made.
    """

    lines = None

    def __init__(self, fns, plan, first=0):
        self.fns = fns
        if isinstance(plan, dict):
            self.lines = plan
            self.rng = random.Random(plan["line"][0])
            self.chosen = {}
            self.dues = 0
            plan = []
        self.first = first
        self.plan = list(plan)
        self.pos = 0
        self.n = len(fns)
        self.locks = []
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.cur = None
        self.at = INF
        self.at_hot = INF
        self.target = 0
        self.switches = []  # (from, to, location)
        self.main = _alloc()
        self.error = None
        self.blocked_streak = 0
        self.shields = [0] * self.n
        self.deadlock = False

    def _arm(self):
        self.at = INF
        self.at_hot = INF
        if self.lines is not None:
            self.target = 0
            if len(self.switches) < self.lines["max"]:
                self.at_hot = st.h + 1
        elif self.pos < len(self.plan):
            unit, delta, self.target = self.plan[self.pos]
            self.pos += 1
            if unit == "a":
                self.at = st.n + max(1, delta)
            else:
                self.at_hot = st.h + max(1, delta)
        _rearm()

    def _others(self):
        return [i for i in range(self.n) if not self.done[i] and i != self.cur]

    def due(self, frame):
        """A shared-write point: is its line one of those at which to hand over?"""
        key = (frame.f_code, frame.f_lineno)
        c = self.chosen.get(key)
        if c is None:
            file = os.path.basename(key[0].co_filename)
            h = zlib.crc32(("%s:%s:%d:%d" % (file, key[0].co_name, key[1], self.lines["line"][0])).encode())
            c = self.chosen[key] = h % 10000 < 10000 * self.lines["line"][1] and self.lines.get("file") in (None, file)
        if c and self.rng.random() < self.lines["line"][2]:
            self.dues += 1
            if self.dues > self.lines["skip"]:
                return True
        self._arm()
        return False

    def preempt(self, where):
        self.blocked_streak = 0
        others = self._others()
        tgt = self.target
        self._arm()
        if not others:
            return
        self._switch(others[tgt % len(others)], where)

    def block(self):
        others = self._others()
        self.blocked_streak += 1
        if not others or self.blocked_streak > 4 * self.n + 8:
            self.deadlock = True
            raise SimDeadlock("all threads blocked")
        nxt = [i for i in others if i > self.cur]
        self._switch(nxt[0] if nxt else others[0], "block")

    def _switch(self, to, where):
        me = self.cur
        self.switches.append((me, to, where))
        self.shields[me] = st.shield
        st.shield = self.shields[to]
        self.cur = to
        self.locks[to].release()
        self.locks[me].acquire()
        if self.error is not None:
            raise SimStop("abandoned")

    def _body(self, i):
        self.locks[i].acquire()
        if self.error is None:
            try:
                self.results[i] = ("ok", self.fns[i]())
            except SimStop as e:
                self.results[i] = ("stop", str(e))
                if self.error is None:
                    self.error = "stop"
            except SimDeadlock as e:
                self.results[i] = ("deadlock", str(e))
                self.error = "deadlock"
            except BaseException as e:
                self.results[i] = ("exc", e)
        self.done[i] = True
        rest = [j for j in range(self.n) if not self.done[j]]
        if rest:
            self.cur = rest[0]
            st.shield = self.shields[rest[0]]
            self.blocked_streak = 0
            self.locks[rest[0]].release()
        else:
            self.main.release()

    def run(self):
        self.locks = [_alloc() for _ in range(self.n)]
        for l in self.locks:
            l.acquire()
        self.main.acquire()
        _thread.stack_size(64 * 1024 * 1024)
        for i in range(self.n):
            _thread.start_new_thread(self._body, (i,))
        self.cur = self.first
        st.sched = self
        st.shield = 0
        self._arm()
        self.locks[self.first].release()
        self.main.acquire()
        st.sched = None
        st.shield = 0
        _rearm()
        return self.results


# --------------------------------------------------------------------------------------------------- boot
HOOKS = {"_sim_p_": _p, "_sim_hp_": _hp, "_sim_v_": _v, "_sim_hv_": _hv, "_sim_se_": _se, "_sim_sx_": _sx, "_sim_set_": SimSet,
         "set": SetName, "frozenset": FrozenName, "id": sim_id, "hash": sim_hash}
_seams = False


def _install_seams():
    global _seams
    if _seams:
        return
    _seams = True
    import threading
    import functools
    import numpy  # noqa: F401  (before the seams: its own use of time/random is not part of the system)

    _install_clock()
    os.urandom = _urandom
    random._urandom = _urandom
    warnings.resetwarnings()
    warnings.simplefilter("always")
    warnings.showwarning = _showwarning
    threading.Lock = SimLock
    threading.RLock = SimRLock
    functools.RLock = SimRLock
    sys.breakpointhook = lambda *a, **k: None
    sys.setrecursionlimit(4000)


def boot(import_seed=0, order_seed=0):
    """Process start: seams in place, package imported afresh from the working tree."""
    _install_seams()
    st.reset()
    clock.load({})
    Warned.log = []
    seed_random(import_seed)
    _Order.seed = order_seed
    _Ids.seen, _Ids.free, _Ids.fresh, _Ids.calls = {}, [], 0, 0
    instrument.install(HOOKS)
    instrument.purge()
    import simpy
    import simpy.expr
    import simpy.integration
    import simpy.regex
    import simpy.simplify
    import simpy.transforms
    import simpy.utils
    import simpy.debug.logger
    import simpy.debug.tree
    import simpy.debug.utils
    import simpy.polynomial

    if not simpy.__file__.startswith(instrument.REPO_SRC):
        raise HarnessError("simpy imported from " + simpy.__file__)
    return simpy


def set_order(seed):
    _Order.seed = seed


class limits:
    """with limits(points=N): SimStop after N more points."""

    def __init__(self, points):
        self.points = points

    def __enter__(self):
        st.limit = st.n + self.points
        _rearm()

    def __exit__(self, *a):
        st.limit = INF
        _rearm()
        return False


def inject(exc, after=None, after_hot=None):
    st.exc = exc
    st.injected = None
    st.where = None
    st.inject_at = st.n + after if after is not None else INF
    st.inject_hot = st.h + after_hot if after_hot is not None else INF
    _rearm()


def disarm():
    st.inject_at = INF
    st.inject_hot = INF
    st.shield = 0
    _rearm()


def every(period, fn):
    st.tick = (period, fn)
    st.ticks = st.n + period
    _rearm()


def no_ticks():
    st.ticks = INF
    _rearm()


class recording:
    """with recording(limit) as rec: rec[i] is the location (code, line) of the i-th point passed."""

    def __init__(self, limit):
        self.limit = limit

    def __enter__(self):
        self.save = st.limit
        st.limit = self.limit
        st.rec = []
        _rearm()
        return st.rec

    def __exit__(self, *a):
        st.rec = None
        st.limit = self.save
        _rearm()
        return False


def strata(rec):
    """Locations -> {(file, function, line): [index of each pass]}, so that a rare line is as likely to be chosen as a busy one."""
    out = {}
    for i, key in enumerate(rec):
        l = out.get(key)
        if l is None:
            out[key] = [i]
        else:
            l.append(i)
    return sorted(((os.path.basename(c.co_filename), c.co_name, n), l) for (c, n), l in out.items())


def choose(strata_, f, g):
    """-> how many points to let pass so that the next one is the chosen pass of the chosen line of the chosen file."""
    if not strata_:
        return 1
    files = sorted({k[0] for k, _ in strata_})
    f *= len(files)
    file = files[min(len(files) - 1, int(f))]
    ls = [l for k, l in strata_ if k[0] == file]
    l = ls[min(len(ls) - 1, int((f - int(f)) * len(ls)))]
    return l[min(len(l) - 1, int(g * len(l)))] + 1
