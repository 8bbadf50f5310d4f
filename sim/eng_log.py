"""C10, C11: the integration log on a failing disk, and searches that are watched."""
import builtins
import errno
import io
import os
import random
import shutil
import sys
import tempfile

from . import exprs as E
from . import gen as G
from . import kernel as K
from . import proc
from . import search as S
from .eng_answer import Watch
from .eng_deadline import concrete, fail_warnings, frozen_ref, gen_clock, gen_job, pick, shrink_clock, shrink_job
from .engine import Engine, Result
from .runner import list_shrinks

NAME = "integration_log.txt"


# ------------------------------------------------------------------------------------------------------ disk
class Disk:
    """Files under the scratch directory, opened for writing by the package, on a disk whose faults are scripted.

    fault: {"at": open|write|flush|close, "k": n-th such operation, "errno": e, "torn": share of the last write that arrives}
    slow: simulated seconds per write."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.fault = None
        self.slow = 0.0
        self.reset()

    def reset(self):
        self.counts = {"open": 0, "write": 0, "flush": 0, "close": 0}
        self.fired = None

    def hit(self, op):
        self.counts[op] += 1
        f = self.fault
        if f and self.fired is None and f["at"] == op and self.counts[op] == f["k"]:
            e = getattr(errno, f["errno"])
            self.fired = OSError(e, os.strerror(e) + " [injected]")
            return self.fired
        return None

    def inside(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        return isinstance(p, str) and p.startswith(self.root + os.sep)

    def install(self):
        real = self.real = (builtins.open, io.open)
        disk = self

        def open_(file, mode="r", *a, **k):
            if not isinstance(file, int) and disk.inside(file) and set(mode) & set("wax+"):
                ex = disk.hit("open")
                if ex is not None:
                    raise ex
                return File(disk, real[0](file, mode, *a, **k))
            return real[0](file, mode, *a, **k)

        builtins.open = io.open = open_
        replace, rename = os.replace, os.rename

        def moved(fn):
            def mv(a, b, *x, **k):
                if disk.inside(b):
                    ex = disk.hit("close")
                    if ex is not None:
                        raise ex
                return fn(a, b, *x, **k)
            return mv

        os.replace, os.rename = moved(replace), moved(rename)
        self.undo = (replace, rename)

    def remove(self):
        builtins.open, io.open = self.real
        os.replace, os.rename = self.undo


class File:
    def __init__(self, disk, f):
        self._disk = disk
        self._f = f

    def write(self, s):
        d = self._disk
        if d.slow:
            K.clock.sleep(d.slow)
        ex = d.hit("write")
        if ex is not None:
            part = s[: int(len(s) * d.fault.get("torn", 0.0))]
            if part:
                self._f.write(part)
            raise ex
        return self._f.write(s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        ex = self._disk.hit("flush")
        if ex is not None:
            raise ex
        self._f.flush()

    def close(self):
        if self._f.closed:
            return
        ex = self._disk.hit("close")
        if ex is not None:
            try:
                self._f.flush()
                n = self._f.tell()
                self._f.truncate(int(n * self._disk.fault.get("torn", 0.0)))  # what was still in memory is lost
            finally:
                self._f.close()
            raise ex
        self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, n):
        return getattr(self._f, n)


def scratch():
    return tempfile.mkdtemp(prefix="simpy-sim-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)


def chain(ex):
    seen = []
    while ex is not None and ex not in seen:
        seen.append(ex)
        ex = ex.__cause__ or ex.__context__
    return seen


# ------------------------------------------------------------------------------------------------------- C10
class Passing(S.Capture):
    """Notes the clock at the moment an entry is made and passes it to the real log."""

    def __init__(self, inner):
        super().__init__(inner)
        self.at = []

    def log(self, expr, time_spent, root, *a, **k):
        c = K.clock
        self.at.append((c.read_log[-1][1] - c.t0) if c.read_log else 0.0)
        super().log(expr, time_spent, root, *a, **k)

    def __getattr__(self, n):
        if n in ("inner", "entries", "at"):
            raise AttributeError(n)
        return getattr(self.inner, n)


def listing(tree, root, solution):
    out = []
    with K.quiet():
        (tree.print_solution_tree if solution else tree.print_tree)(root, func=lambda x: out.append("%s\n" % x))
    return "".join(out)


class C10(Engine):
    PROP = "C10"
    RUNS_QUICK = 600
    RUNS_THOROUGH = 30000
    MEASURE = "distinct (step kinds so far, entries held, fault or interruption and where it struck, outcome)"
    RULE = ("one run = one process: 1-7 integrations under scripted clocks, with dumps to a failing disk, interrupted dumps and healthy dumps between, or "
            "1-3 integrating threads with 1-2 dumping threads; non-trivial = a distinct script with at least one fault that struck or one preemption")
    ASSUMPTIONS = ["the log writes through open() (or pathlib, os.replace) below the current directory", "the disk reports its errors at open, write, flush, close or rename"]
    STUBS = Engine.STUBS + ["disk: real files in a scratch directory behind open/write/flush/close wrappers that fail on script", "thread scheduler (baton, seeded plan)"]

    def gen(self, r, i, tier):
        if r.random() < 0.25:
            return self.gen_threads(r)
        jobs = [self.job(r) for _ in range(pick(r, (1, 1, 2, 3, 4)))]
        script = []
        for _ in range(r.choice([1, 2, 3, 4, 5, 7])):
            script.append(["int", r.randrange(len(jobs)), self.clock(r)])
            while r.random() < 0.45:
                script.append(self.dump(r))
        if r.random() < 0.15:
            script.insert(0, self.dump(r))
        if r.random() < 0.7:
            script.append(self.dump(r))
        script.append(["dump", None])
        return {"jobs": jobs, "script": script}

    def job(self, r):
        j = gen_job(r, 0.2, 0.25, 0.25)
        if r.random() < 0.4:
            j["src"] = G.cheap(r)
        j["limit"] = 300_000
        return j

    def clock(self, r):
        c = gen_clock(r, pick(r, ("idle", "idle", "slow", "pause", "pause", "expire", "late")))
        c["horizon"] = int(10 ** r.uniform(3, 4.6))
        return c

    def dump(self, r):
        k = r.random()
        if k < 0.15:
            return ["dump", None]
        if k < 0.22:
            return ["slowdump", r.uniform(0.01, 5)]
        if k < 0.4:
            return ["cutdump", pick(r, ("KeyboardInterrupt", "MemoryError", "RecursionError")), r.random(), r.random()]
        at = pick(r, ("open", "write", "write", "write", "flush", "close"))
        return ["dump", {"at": at, "f": r.random() ** pick(r, (1, 1, 3)), "errno": pick(r, ("ENOSPC", "EIO", "EACCES", "EROFS", "EMFILE", "EDQUOT")),
                         "torn": pick(r, (0.0, r.random(), 1.0))}]

    def gen_threads(self, r):
        jobs = [self.job(r) for _ in range(pick(r, (1, 2, 3)))]
        for j in jobs:
            j["src"] = G.cheap(r)
        threads = [["int", [r.randrange(len(jobs)) for _ in range(pick(r, (1, 2, 3)))]] for _ in range(pick(r, (1, 2, 3)))]
        threads += [["dump", pick(r, (1, 2, 3))] for _ in range(pick(r, (1, 1, 2)))]
        n = len(threads)
        plan = []
        first = n - 1 if r.random() < 0.6 else r.randrange(n)
        for i in range(pick(r, (1, 2, 3, 4, 6, 8))):
            k = r.random()
            unit = "d" if k < (0.8 if i == 0 and first == n - 1 else 0.35) else "i" if k < 0.85 else "a"
            plan.append([unit, r.random(), r.random(), r.randrange(n)])
        return {"jobs": jobs, "threads": threads, "pre": [r.randrange(len(jobs)) for _ in range(pick(r, (0, 1, 2, 2)))], "plan": plan, "first": first}

    # ---- the model
    def run(self, scn):
        res = Result()
        d = scratch()
        cwd = os.getcwd()
        try:
            os.chdir(d)
            disk = Disk(d)
            disk.install()
            try:
                if "threads" in scn:
                    self.threads(scn, res, disk)
                else:
                    self.script(scn, res, disk)
            finally:
                disk.remove()
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
        return res.done()

    def memory(self, res, log, model, what):
        """The log's entries against the model's."""
        with K.quiet():
            data = dict(log.data)
        if set(data) != set(model):
            lost = [k for k in model if k not in data]
            extra = [k for k in data if k not in model]
            res.viol("entry-lost" if lost else "entry-invented", "%s: the log lacks %s, has unexpected %s" % (what, lost[:3], extra[:3]))
            return False
        for k, m in model.items():
            e = data[k]
            t = float(e.time_spent)
            if not (m["lo"] - 1e-6 <= t <= m["hi"] + 1e-6):
                res.viol("wrong-time", "%s: the entry for %s says %.6f s; by the clock the integration took %.6f to %.6f s" % (what, k, t, m["lo"], m["hi"]))
                return False
            if e.root is not m["root"]:
                res.viol("wrong-tree", "%s: the entry for %s does not hold the tree of the latest integration of it" % (what, k))
                return False
        return True

    def text(self, res, log, model, what):
        """The dumped file against the log."""
        import simpy.debug.tree as tree

        try:
            with open(NAME) as f:
                text = f.read()
        except OSError as ex:
            res.viol("no-log-file", "%s: %s" % (what, ex))
            return
        with K.quiet():
            data = dict(log.data)
        want = {"%s: %s" % (k, v.time_spent): v.time_spent for k, v in data.items()}
        lines = text.split("\n")
        got = []
        for l in lines:
            if l in want:
                got.append(l)
            else:
                break
        if sorted(got) != sorted(want):
            res.viol("dump-incomplete", "%s: the file begins with %r; expected the %d entries %r" % (what, got[:6], len(want), sorted(want)[:6]))
            return
        ts = [want[l] for l in got]
        if any(a < b for a, b in zip(ts, ts[1:])):
            res.viol("dump-order", "%s: times in the file are not slowest first: %s" % (what, ts))
            return
        if not data:
            return
        rest = "\n".join(lines[len(got):])
        top = max(ts)
        for v in data.values():
            if v.time_spent != top:
                continue
            a, b = listing(tree, v.root, True), listing(tree, v.root, False)
            i = rest.find(a)
            if i >= 0 and rest.find(b, i + len(a)) >= 0:
                return
        slowest = [k for k, v in data.items() if v.time_spent == top][0]
        res.viol("dump-trees", "%s: the file does not go on with the solution tree and the search tree of the slowest entry (%s): %r" % (what, slowest, rest[:600]))

    def script(self, scn, res, disk):
        from simpy.debug.logger import Logger

        log = Logger()
        model = {}
        kinds = []
        for step in scn["script"]:
            what = "after %s, %s" % (kinds[-8:], step)
            if step[0] == "int":
                job = dict(scn["jobs"][step[1]])
                clk = step[2]
                if "total" in clk or clk.get("jumps"):
                    ref = proc.forked(frozen_ref, job, wall=self.WALL)
                    if ref["kind"] == "build":
                        kinds.append("skip")
                        continue
                    span = ref["span"] if ref["kind"] != "stop" else clk["horizon"]
                    job["clock"] = concrete(clk, max(2, span), max(2, ref["reads"]), ref["read_points"])
                rec = S.do_search(job, want_obj=True, capture=Passing(log))
                kinds.append("int:" + rec["kind"])
                res.d["points"] += rec.get("points", 0)
                if rec["kind"] == "build":
                    continue
                res.d["sim_time"] += rec["elapsed"]
                for k, v in rec["faults"].items():
                    res.fault("clock_" + k, v)
                cap = rec["capture"]
                res.event("int", rec["integrand"], S.outcome(rec)[:100], "%.6f" % rec["elapsed"], len(cap.entries))
                if rec["kind"] == "stop":
                    break
                if rec["kind"] in ("ok", "none") and len(cap.entries) != 1:
                    res.viol("not-recorded", "%s: integrate(%s) ended (%s) and made %d entries in the log" % (what, rec["integrand"], rec["kind"], len(cap.entries)))
                    break
                for (ex, t, root), at in zip(cap.entries, cap.at):
                    model[rec["integrand"]] = {"lo": at, "hi": rec["elapsed"], "root": root}
                if not self.memory(res, log, model, what):
                    break
                continue
            if not self.dump_step(res, disk, log, model, step, kinds, what):
                break
        res.d["sample"] = {"script": kinds, "entries": len(model)}

    def _count(self, disk, log):
        """What a dump does, in a throw-away copy of the process."""
        disk.reset()
        n0 = K.st.n
        with K.recording(250_000) as rec:
            try:
                log.dump()
            except (Exception, K.SimStop):
                pass
        return dict(disk.counts), K.strata(rec), K.st.n - n0

    def dump_step(self, res, disk, log, model, step, kinds, what):
        fault = None
        disk.fault = None
        disk.slow = 0.0
        if step[0] == "slowdump":
            disk.slow = step[1]
            res.fault("disk_slow")
        if step[0] == "cutdump" or step[1] is not None and step[0] == "dump":
            counts, strata, _ = proc.forked(self._count, disk, log, wall=self.WALL)
        if step[0] == "dump" and step[1] is not None:
            f = step[1]
            n = counts[f["at"]]
            if n:
                disk.fault = fault = dict(f, k=1 + min(n - 1, int(f["f"] * n)))
        disk.reset()
        err = None
        cut = None
        if step[0] == "cutdump":
            cut = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RecursionError": RecursionError}[step[1]]("injected")
            K.inject(cut, after=K.choose(strata, step[2], step[3]))
        try:
            with K.limits(400_000):
                log.dump()
        except K.SimStop:
            kinds.append("stop")
            K.disarm()
            return False
        except (Exception, KeyboardInterrupt) as ex:
            err = ex
        K.disarm()
        if cut is not None:
            struck = K.st.injected is cut
            kinds.append("cut@%s" % (K.st.where if struck else None))
            if struck:
                res.fault("interrupt_" + step[1])
                res.nontrivial(step, kinds)
        elif fault is not None:
            struck = disk.fired is not None
            kinds.append("%s@%s%s" % (fault["errno"], fault["at"], fault["k"] if struck else "-"))
            if struck:
                res.fault("disk_%s_%s" % (fault["at"], fault["errno"]))
                res.nontrivial(step, kinds)
        else:
            struck = False
            kinds.append(step[0])
        res.event(kinds[-1], type(err).__name__, len(model))
        res.cov(kinds[-4:], len(model), type(err).__name__)
        hit = cut if cut is not None else disk.fired
        if struck:
            if err is None:
                res.viol("error-swallowed", "%s: %r struck during the dump and was not reported" % (what, hit))
                return False
            if hit not in chain(err):
                res.viol("error-masked", "%s: %r struck during the dump, the caller saw %r" % (what, hit, err))
                return False
        elif err is not None:
            res.viol("dump-fails", "%s: the dump of %d entries failed on a healthy disk: %r in %s" % (what, len(model), err, S._where(err)))
            return False
        if not self.memory(res, log, model, what):
            return False
        if not struck:
            self.text(res, log, model, what)
        return not res.d["viol"]

    # ---- threads
    def threads(self, scn, res, disk):
        from simpy.debug.logger import Logger

        log = Logger()
        model = {}
        ns = S.make_ns()
        S.attach_log(log)
        K.clock.load({})
        exprs = []
        for j in scn["jobs"]:
            try:
                exprs.append(eval(j["src"], ns))
            except Exception:
                exprs.append(ns["x"] + len(exprs))
        from simpy.expr import _cast

        exprs = [_cast(e) for e in exprs]
        with K.quiet():
            keys = [str(e) for e in exprs]
        done = set()

        def integ(i):
            try:
                ns["integrate"](exprs[i], ns["x"])
            except (K.SimStop, K.SimDeadlock):
                raise
            except Exception:
                return
            done.add(keys[i])

        with K.limits(1_500_000):
            try:
                for i in scn["pre"]:
                    integ(i)
            except K.SimStop:
                return

        def body(t):
            def run():
                if t[0] == "int":
                    for i in t[1]:
                        integ(i % len(exprs))
                else:
                    for _ in range(t[1]):
                        log.dump()
            return run

        plan = []
        strata = None
        for s in scn["plan"]:
            if s[0] == "a":
                plan.append(["a", int(10 ** (3.5 * s[1])), s[3]])
                continue
            if strata is None:
                strata = proc.forked(self._strata, log, exprs, ns, wall=self.WALL)
            plan.append(["a", K.choose(strata[s[0]], s[1], s[2]), s[3]])
        fns = [body(t) for t in scn["threads"]]
        sched = K.Sched(fns, plan, scn["first"] % len(fns))
        n0 = K.st.n
        with K.limits(3_000_000):
            out = sched.run()
        res.d["points"] += K.st.n - n0
        res.fault("preemption", len(sched.switches))
        if any(o is None or o[0] == "stop" for o in out):
            res.stat("out_of_steps")
            return
        what = "threads %s, switches %s" % (scn["threads"], sched.switches[:8])
        res.event(sched.switches, [o[0] for o in out], sorted(done))
        res.cov("threads", len(done), [w for _, _, w in sched.switches])
        if sched.switches:
            res.nontrivial(scn["threads"], sched.switches, keys)
        for t, o in zip(scn["threads"], out):
            if o[0] != "ok":
                res.viol("dump-fails" if t[0] == "dump" else "integration-fails", "%s: %s of %r" % (what, o, t))
                return
        with K.quiet():
            data = dict(log.data)
        lost = [k for k in done if k not in data]
        if lost:
            res.viol("entry-lost", "%s: integrations of %s ran to an end, the log has only %s" % (what, lost, sorted(data)))
            return
        log.dump()
        self.text(res, log, model, what)
        res.d["sample"] = {"threads": scn["threads"], "switches": len(sched.switches), "entries": len(data)}

    def _strata(self, log, exprs, ns):
        """Where a dump ("d") and an integration ("i") can be preempted, counted from their beginning."""
        out = {}
        for unit in "di":
            with K.recording(150_000) as rec:
                try:
                    if unit == "d":
                        log.dump()
                    else:
                        ns["integrate"](exprs[0], ns["x"])
                except (Exception, K.SimStop):
                    pass
            st = K.strata(rec)
            out[unit] = [(k, l) for k, l in st if k[0] == "logger.py"] or st if unit == "d" else st
        return out

    def shrink(self, scn):
        if "threads" in scn:
            for key in ("plan", "pre"):
                for ys in list_shrinks(scn[key]):
                    yield dict(scn, **{key: ys})
            if len(scn["threads"]) > 2:
                for i in range(len(scn["threads"])):
                    yield dict(scn, threads=scn["threads"][:i] + scn["threads"][i + 1:])
            return
        for ys in list_shrinks(scn["script"]):
            if ys:
                yield dict(scn, script=ys)
        for i, s in enumerate(scn["script"]):
            if s[0] == "int":
                for c in shrink_clock(s[2]):
                    yield dict(scn, script=scn["script"][:i] + [["int", s[1], c]] + scn["script"][i + 1:])
        for i, j in enumerate(scn["jobs"]):
            for j2 in shrink_job(j):
                yield dict(scn, jobs=scn["jobs"][:i] + [j2] + scn["jobs"][i + 1:])


# ------------------------------------------------------------------------------------------------------- C11
class WriterBroke(Exception):
    pass


class Out:
    """sys.stdout as the package sees it: keeps, dawdles over or refuses what is printed."""

    once = False  # only the one line is refused

    def __init__(self, fail_at=None, slow=0.0, exc=None):
        self.text = []
        self.n = 0
        self.fail_at = fail_at
        self.slow = slow
        self.exc = exc

    def write(self, s):
        self.n += 1
        if self.slow:
            K.clock.sleep(self.slow)
        if self.fail_at is not None and (self.n == self.fail_at if self.once else self.n >= self.fail_at):
            raise self.exc
        self.text.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def func(self, line):
        self.write("%s\n" % (line,))


def printers(tree):
    out = {"print_tree": lambda root, w: tree.print_tree(root, func=w), "print_solution_tree": lambda root, w: tree.print_solution_tree(root, func=w)}
    for stale in (True, False):
        for fails in (True, False):
            out["print_tree(%s,%s,True)" % (stale, fails)] = lambda root, w, a=stale, b=fails: tree.print_tree(root, a, b, True, func=w)
    return out


def shown(root, stale, fails):
    """Transforms of the nodes a listing shows, in order."""
    if not stale and root.is_stale or not fails and root.is_failed:
        return []
    out = [type(root.transform).__name__]
    for c in root.children:
        out += shown(c, stale, fails)
    return out


class C11(Engine):
    PROP = "C11"
    RUNS_QUICK = 650
    RUNS_THOROUGH = 30000
    MEASURE = "distinct (outcome, nodes in the tree, way of watching, where the writer failed)"
    RULE = ("one run = one integration under a scripted clock, alone and then watched in 2-5 ways (log, debug output to a working, slow or failing writer, "
            "trees printed while the search goes on and afterwards); non-trivial = a distinct (integrand, clock, watcher) that printed something")
    ASSUMPTIONS = ["debug output goes to sys.stdout or to the writer passed in", "breakpoint() returns at once (a debugger that only looks)"]
    STUBS = Engine.STUBS + ["sys.stdout (scripted writer)"]

    def gen(self, r, i, tier):
        job = gen_job(r, 0.15, 0.2, 0.2)
        if r.random() < 0.25:
            job["src"] = G.cheap(r)
        job["limit"] = 500_000
        clk = gen_clock(r, pick(r, ("idle", "idle", "slow", "pause", "expire", "expire", "expire", "late")))
        clk["horizon"] = int(10 ** r.uniform(3, 4.8))
        ways = []
        for _ in range(pick(r, (2, 3, 4, 5))):
            k = pick(r, ("log", "debug", "debug", "debugfail", "midprint", "midprint", "both"))
            ways.append([k, r.random() ** 2, pick(r, ("WriterBroke", "OSError", "ValueError", "UnicodeEncodeError", "KeyboardInterrupt", "BrokenPipeError")),
                         pick(r, (0, 0, r.uniform(0.01, 3))), r.randrange(1 << 30)])
        prints = [[pick(r, ("print_tree", "print_solution_tree", "print_tree(True,True,True)", "print_tree(True,False,True)", "print_tree(False,True,True)",
                            "print_tree(False,False,True)")), r.random(), pick(r, ("WriterBroke", "OSError", "ValueError", "KeyboardInterrupt", "StopIteration"))]
                  for _ in range(pick(r, (2, 3, 4)))]
        return {"job": job, "clk": clk, "ways": ways, "prints": prints}

    @staticmethod
    def err(name):
        if name == "UnicodeEncodeError":
            return UnicodeEncodeError("ascii", "x", 0, 1, "injected")
        if name == "WriterBroke":
            return WriterBroke("injected")
        return getattr(builtins, name)("injected")

    def _alone(self, job):
        j = dict(job, log=False)
        rec = S.do_search(j, want_obj=True)
        return dict(S.plain(rec), operand=E.dump(rec["expr"]) if "expr" in rec else None)

    def _watched(self, job, way):
        """-> (record, what was printed, error raised by the writer or None, what is wrong)"""
        import simpy.debug.tree as tree
        from simpy.debug.logger import Logger

        kind, f, exc, slow, seed = way
        bad = []
        j = dict(job, limit=3 * job["limit"])
        out = Out(slow=slow if kind != "midprint" else 0.0)
        e = None
        if kind in ("debug", "debugfail", "both"):
            j["opts"] = dict(j.get("opts", {}), debug=True)
        if kind == "debugfail":
            e = out.exc = self.err(exc)
            out.fail_at = 1 + int(f * 60)
            out.once = seed % 2 == 0
        watch = None
        r = random.Random(seed)
        if kind == "midprint":
            watch = Watch()
            ps = printers(tree)

            def look(clock):
                if watch.roots and r.random() < 0.7:
                    name = pick(r, sorted(ps))
                    before = S.tree_text(watch.roots[0])
                    a, b = Out(), Out()
                    w = Out(fail_at=r.randrange(1, 8), exc=WriterBroke("injected"))
                    try:
                        ps[name](watch.roots[0], a.func)
                        if r.random() < 0.4:
                            try:
                                ps[name](watch.roots[0], w.func)
                            except WriterBroke:
                                pass
                        ps[name](watch.roots[0], b.func)
                    except Exception as ex:
                        bad.append(("cannot-print", "%s during the search: %r in %s" % (name, ex, S._where(ex))))
                    else:
                        out.text += a.text
                        if a.text != b.text:
                            bad.append(("prints-differ", "%s during the search gave different text the second time" % name))
                    if S.tree_text(watch.roots[0]) != before:
                        bad.append(("tree-changed", "%s during the search changed the tree" % name))

            j["on_read"] = lambda cap: look
        stdout = sys.stdout
        cap = Passing(Logger()) if kind in ("log", "both", "debugfail") else None
        raised = None
        sys.stdout = out
        try:
            rec = S.do_search(j, want_obj=True, capture=cap, catch=e)
        finally:
            sys.stdout = stdout
            if watch is not None:
                watch.close()
        raised = rec.pop("caught", None)
        if out.fail_at is None or out.n < out.fail_at:
            raised = None  # the search's own error: nothing was refused by the writer
        rec.pop("capture", None)
        return dict(S.plain(rec), operand=E.dump(rec["expr"]) if "expr" in rec else None), "".join(out.text), out.n, raised, bad

    def run(self, scn):
        res = Result()
        job, clk = dict(scn["job"]), scn["clk"]
        ref = proc.forked(frozen_ref, job, wall=self.WALL)
        if ref["kind"] == "build":
            return res.done()
        span = ref["span"] if ref["kind"] != "stop" else clk["horizon"]
        if ref["kind"] == "stop" and not clk.get("jumps") and "total" not in clk:
            res.stat("endless_skipped")
            return res.done()
        job["clock"] = concrete(clk, max(2, span), max(2, ref["reads"]), ref["read_points"])
        alone = proc.forked(self._alone, job, wall=self.WALL)
        res.d["points"] += alone["points"]
        if alone["kind"] == "stop":
            res.stat("out_of_steps")
            return res.done()
        what = "integrate(%s) wrt %s opts=%s clock=%s" % (alone["integrand"], alone["var"], job.get("opts"), job["clock"])
        for way in scn["ways"]:
            rec, text, n, raised, bad = proc.forked(self._watched, job, way, wall=self.WALL)
            res.d["points"] += rec["points"]
            res.d["sim_time"] += rec["elapsed"]
            res.stat("watched_" + way[0])
            for k, t in bad:
                res.viol(k, "%s: %s" % (what, t))
            if text or raised:
                res.nontrivial(job, way)
            if way[3] and way[0] in ("debug", "both") and n:
                res.fault("writer_slow")
            res.event(way[0], S.outcome(rec)[:200], n, raised)
            res.cov(rec["kind"], way[0], min(n, 50), raised)
            if raised is not None:
                res.fault("writer_failed")
                if raised != "same":
                    res.viol("writer-error-masked", "%s, watched by %s: the writer's error came out as %s" % (what, way, raised))
                continue
            if way[0] == "debugfail" and n > 0 and n >= 1 + int(way[1] * 60):
                res.fault("writer_failed")
                res.viol("writer-error-swallowed", "%s, watched by %s: the writer failed and the call went on: %s" % (what, way, S.outcome(rec)[:200]))
                continue
            if rec["kind"] == "stop" and text is not None and (rec["elapsed"] < S.BUDGET or (rec.get("steps_after") or 0) <= 3):
                res.stat("out_of_steps_while_watched")  # printing a large tree takes steps, too
                continue
            if S.outcome(rec) != S.outcome(alone):
                res.viol("watching-changes-answer", "%s, watched by %s: %s; alone: %s" % (what, way, S.outcome(rec)[:400] + rec.get("msg", ""), S.outcome(alone)[:400]))
            elif rec["warn"] != alone["warn"]:
                res.viol("watching-changes-warnings", "%s, watched by %s: %s; alone: %s" % (what, way, rec["warn"], alone["warn"]))
            elif rec["operand"] != alone["operand"]:
                res.viol("watching-changes-operand", "%s, watched by %s: %s; alone: %s" % (what, way, rec["operand"], alone["operand"]))
            if way[0] in ("debug", "both") and rec["kind"] in ("ok", "none") and not text.strip():
                res.viol("nothing-printed", "%s with debug output: nothing was printed" % what)
            if res.d["viol"]:
                return res.done()
        self.prints(res, scn, job, what, alone)
        return res.done()

    @staticmethod
    def _first_prints(job):
        """What each printer makes of the tree, in a process that has printed nothing before."""
        import simpy.debug.tree as tree

        rec = S.do_search(job, want_obj=True)
        text = {}
        if rec.get("roots"):
            for name, f in sorted(printers(tree).items()):
                o = Out()
                try:
                    with K.limits(600_000):
                        f(rec["roots"][-1], o.func)
                except (K.SimStop, Exception):
                    break
                text[name] = "".join(o.text)
        return text

    def prints(self, res, scn, job, what, alone):
        import simpy.debug.tree as tree

        ps = printers(tree)
        fresh = proc.forked(self._first_prints, job, wall=self.WALL)
        other = S.do_search({"src": "x*cos(2*x)", "opts": {}, "limit": 300_000}, want_obj=True)
        for name in sorted(ps):
            try:
                with K.limits(300_000):
                    ps[name](other["roots"][-1], Out().func)
            except (K.SimStop, Exception):
                pass
        rec = S.do_search(job, want_obj=True)
        if S.outcome(rec) != S.outcome(alone):
            res.viol("watching-changes-answer", "%s, with a log: %s; alone: %s" % (what, S.outcome(rec)[:400], S.outcome(alone)[:400]))
            return
        if not rec.get("roots"):
            return
        root = rec["roots"][-1]
        before = S.tree_text(root)
        operand = E.dump(rec["expr"])
        res.stat("trees_" + ("solved" if rec["kind"] == "ok" else "cut_off" if any("TIMED" in t for t in fail_warnings(rec)) else rec["kind"]))
        first = {}
        for name in sorted(ps):
            o = Out()
            try:
                with K.limits(600_000):
                    ps[name](root, o.func)
            except K.SimStop:
                return
            except Exception as ex:
                res.viol("cannot-print", "%s: %s of the tree it ended with (%s) fails: %r in %s" % (what, name, rec["kind"], ex, S._where(ex)))
                return
            first[name] = o
            if fresh.get(name) not in (None, "".join(o.text)):
                res.viol("prints-differ", "%s: %s in a process that has printed another tree:\n%s\n-- in one that has not:\n%s" % (
                    what, name, "".join(o.text)[:400], fresh[name][:400]))
                return
            flags = (True, True) if name == "print_tree" else (False, False) if name == "print_solution_tree" else ("(True" in name, ",True,True)" in name)
            with K.quiet():
                want = shown(root, *flags)
            got = [l for t in o.text for l in t.split("\n") if l.strip()]
            if len(got) != len(want) or any("(%s)" % w not in g for w, g in zip(want, got)):
                res.viol("listing-wrong", "%s: %s lists %d sub-problems, the tree has %d to show: %s" % (what, name, len(got), len(want), got[:8]))
                return
        for name, f, exc in scn["prints"]:
            n = first[name].n
            e = self.err(exc)
            w = Out(fail_at=1 + min(n - 1, int(f * n)), exc=e)
            w.once = int(f * 1e6) % 2 == 0
            if n == 0:
                continue
            res.fault("writer_failed")
            try:
                ps[name](root, w.func)
            except BaseException as ex:
                if isinstance(ex, (K.SimStop, K.SimDeadlock)):
                    raise
                if ex is not e:
                    res.viol("writer-error-masked", "%s: %s to a writer that fails at line %d with %r gave %r" % (what, name, w.fail_at, e, ex))
                    return
            else:
                res.viol("writer-error-swallowed", "%s: %s to a writer that fails at line %d with %r returned" % (what, name, w.fail_at, e))
                return
            if w.text != first[name].text[: w.fail_at - 1]:
                res.viol("prints-differ", "%s: %s to a failing writer printed other lines" % (what, name))
                return
            o = Out()
            ps[name](root, o.func)
            if o.text != first[name].text:
                res.viol("prints-differ", "%s: %s printed again gives different text:\n%s\n--\n%s" % (what, name, "".join(first[name].text)[:400], "".join(o.text)[:400]))
                return
            res.cov("print", name, n, w.fail_at)
        if S.tree_text(root) != before:
            res.viol("tree-changed", "%s: printing changed the tree" % what)
        elif E.dump(rec["expr"]) != operand:
            res.viol("operand-changed", "%s: printing changed the integrand" % what)
        res.d["sample"] = {"integrand": rec["integrand"], "ways": [w[0] for w in scn["ways"]], "outcome": rec["kind"], "lines": {k: v.n for k, v in first.items()}}

    def shrink(self, scn):
        for key in ("ways", "prints"):
            for ys in list_shrinks(scn[key]):
                yield dict(scn, **{key: ys})
        for c in shrink_clock(scn["clk"]):
            yield dict(scn, clk=dict(c, horizon=scn["clk"]["horizon"]))
        for j in shrink_job(scn["job"]):
            yield dict(scn, job=j)
