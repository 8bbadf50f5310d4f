"""C06, C07: caller threads that share expressions, one of which holds the baton at any time; every hand-over is decided
by the seeded plan.  What each call returns is compared with what it returns alone in a process of its own."""
import random

from . import exprs as E
from . import gen as G
from . import kernel as K
from . import ops as O
from . import proc
from . import search as S
from .engine import Engine, Result
from .eng_deadline import pick, shrink_job
from .runner import list_shrinks


def gen_plan(r, n, files=(None, "expr.py", "regex.py", "simplify.py")):
    """Abstract plan.  "pin": stop thread t at a given fraction of its own work and let the others run (possibly more
    than once); "frac": hand-overs at fractions of the total work; "delta": a dense run of short turns; "line": hand-overs
    at certain lines, wherever and by whomever they are reached."""
    k = r.random()
    if k < 0.5:
        file = pick(r, (None,) + files)
        return {"line": [r.randrange(1 << 30), r.choice([0.02, 0.05, 0.1, 0.2, 0.4] if file is None else [0.05, 0.1, 0.2, 0.4, 1]), r.choice([1, 1, 0.5, 0.1])],
                "file": file, "skip": 0, "max": 300, "first": r.randrange(n)}
    k = r.random()
    unit = pick(r, ("a", "h", "h", "h"))
    if k < 0.55:
        m = r.choice([1, 1, 1, 2, 3])
        return {"unit": unit, "pin": [[r.randrange(n), r.random(), r.randrange(n)] for _ in range(m)]}
    if k < 0.75:
        m = r.choice([1, 2, 2, 3, 4, 6, 9])
        pos = sorted(r.random() ** r.choice([1, 1, 2]) for _ in range(m))
        return {"unit": unit, "frac": [[p, r.randrange(n)] for p in pos]}
    mean = r.choice([1, 1, 2, 3, 5, 10, 30, 100])
    ln = r.choice([10, 30, 80])
    skip = 0 if r.random() < 0.6 else int(10 ** r.uniform(0, 4))
    ds = [[1 + int(r.expovariate(1.0 / mean)), r.randrange(n)] for _ in range(ln)]
    ds[0][0] += skip
    return {"unit": unit, "delta": ds}


def concrete_plan(plan, work):
    """work: [(points, shared-write points)] of each thread alone.  -> (starting thread, plan for the scheduler)"""
    if "line" in plan:
        return plan["first"], plan
    u = plan["unit"]
    j = 0 if u == "a" else 1
    if "delta" in plan:
        return 0, [[u, d, t] for d, t in plan["delta"]]
    if "pin" in plan:
        out = []
        for t, f, target in plan["pin"]:
            # counted from the previous hand-over; exact for the first pin
            out.append([u, max(1, 1 + int(f * work[t % len(work)][j])), target])
        return plan["pin"][0][0] % len(work), out
    tot = sum(w[j] for w in work)
    out, last = [], 0
    for f, t in plan["frac"]:
        at = max(1, int(f * tot))
        out.append([u, max(1, at - last), t])
        last = max(last, at)
    return 0, out


def shrink_plan(plan):
    if "line" in plan:
        m = plan["max"]
        for k in (1, 2, 3, 5, 10, 30, 100, m - 1):
            if k < m:
                yield dict(plan, max=k)
        for k in (64, 16, 4, 1):
            yield dict(plan, skip=plan["skip"] + k)
        return
    key = [k for k in plan if k != "unit"][0]
    xs = plan[key]
    if key == "delta":
        # merge neighbours instead of dropping time
        n = len(xs)
        if n > 3:
            yield dict(plan, delta=xs[: n // 2])
            yield dict(plan, delta=xs[: n - n // 4])
        for i in range(n - 1):
            m = xs[:i] + [[xs[i][0] + xs[i + 1][0], xs[i + 1][1]]] + xs[i + 2:]
            yield dict(plan, delta=m)
        if n > 1:
            yield dict(plan, delta=xs[:-1])
    else:
        for ys in list_shrinks(xs):
            if ys:
                yield dict(plan, **{key: ys})


class Shared(Engine):
    MEASURE = "distinct sequences of (from, to, function in which the hand-over happened)"
    ASSUMPTIONS = [
        "threads switch only at yield points (before statements, around calls, attribute and item loads, comparisons and "
        "conditional branches, inside augmented assignments); memory is sequentially consistent",
        "operations of the interpreter itself (a dict store, list.append, attribute store) are atomic",
        "locks come from the threading module",
    ]
    STUBS = Engine.STUBS + ["thread scheduling (real threads, one runs at a time; the hand-over points come from the seeded plan)"]


class C06(Shared):
    PROP = "C06"
    RUNS_QUICK = 900
    RUNS_THOROUGH = 60000
    RULE = ("one run = one process with 1-12 rounds; a round = 2-3 threads, each with 1-4 operations on shared expressions, under one "
            "switch plan; non-trivial = a distinct round (pool, operations, sequence of hand-overs) with a hand-over inside the library")

    def _round(self, r, small):
        n = r.choice([2, 2, 2, 3])
        pool = O.pool(r, r.choice([1, 1, 2]) if small else None, small)
        style = r.random()
        threads = []
        plan = None
        if style < 0.4:  # one call stopped somewhere while another thread does many things with the same objects
            p = r.randrange(len(pool))
            threads = [[O.pick_op(r, len(pool), O.CACHED, p)], [O.pick_op(r, len(pool), O.QUICK, p if r.random() < 0.8 else None) for _ in range(r.randint(4, 9))]]
            n = 2
            plan = {"unit": pick(r, ("a", "h", "h", "h")), "pin": [[0, r.random(), 0]]}
        elif style < 0.6:  # the same operations everywhere
            names = O.CACHED if r.random() < 0.8 else None
            ops = [O.pick_op(r, len(pool), names) for _ in range(r.randint(1, 2 if small else 3))]
            threads = [list(ops) for _ in range(n)]
        elif style < 0.7:  # operations that keep their results side by side
            fam = pick(r, O.FAMILIES)
            p = r.randrange(len(pool))
            threads = [[O.pick_op(r, len(pool), fam, p) for _ in range(r.randint(2, 5))] for _ in range(n)]
            if r.random() < 0.7:
                plan = {"line": [r.randrange(1 << 30), r.choice([0.1, 0.2, 0.4, 1]), r.choice([1, 0.5, 0.5, 0.2])], "file": pick(r, (None, "expr.py", "regex.py")),
                        "skip": 0, "max": 300, "first": r.randrange(n)}
        else:
            names = O.CACHED if style < 0.93 else None
            p = r.randrange(len(pool)) if r.random() < 0.7 else None
            for _ in range(n):
                threads.append([O.pick_op(r, len(pool), names, p) for _ in range(r.choice([1, 1, 2, 3] if small else [1, 2, 3, 4]))])
        warm = []
        if r.random() < 0.3:
            warm = [O.pick_op(r, len(pool), O.CACHED) for _ in range(r.randint(1, 4))]
        return {"pool": pool, "warm": warm, "threads": threads, "plan": plan or gen_plan(r, n)}

    def gen(self, r, i, tier):
        small = r.random() < 0.9
        m = r.choice([6, 9, 12]) if small else r.choice([1, 1, 2])
        return {"rounds": [self._round(r, small) for _ in range(m)], "probe": r.randrange(1 << 30)}

    # -- in child processes
    @staticmethod
    def _setup(rnd):
        ns = O.namespace()
        ps = O.build_pool(rnd["pool"], ns)
        with K.limits(200_000):
            for op in rnd["warm"]:
                O.run_op(op, ps, ns)
        return ns, ps

    def _probes(self, scn, k):
        r = random.Random(scn["probe"] + k)
        return O.PROBES if k == len(scn["rounds"]) - 1 and r.random() < 0.5 else r.sample(O.PROBES, 3)

    def _reference(self, scn):
        """Each thread's calls on a pool of its own, then the probes on untouched expressions."""
        out = []
        for k, rnd in enumerate(scn["rounds"]):
            refs = []
            for ops in rnd["threads"]:
                ns, ps = self._setup(rnd)
                n0, h0 = K.st.n, K.st.h
                with K.limits(250_000):
                    o = [O.run_op(op, ps, ns) for op in ops]
                refs.append((o, K.st.n - n0, K.st.h - h0))
            ns, ps = self._setup(dict(rnd, warm=[]))
            out.append((refs, O.probe(ps, ns, limit=3000, names=self._probes(scn, k))))
        return out

    def run(self, scn):
        res = Result()
        for k, (rnd, (refs, probes)) in enumerate(zip(scn["rounds"], proc.forked(self._reference, scn, wall=self.WALL))):
            if any("stop" in out for out, _, _ in refs):
                res.stat("rounds_skipped_too_long")
                continue
            if not self._play(res, scn, k, rnd, refs, probes):
                break
        return res.done()

    def _play(self, res, scn, k, rnd, refs, probes):
        ns, ps = self._setup(rnd)

        def body(ops):
            return lambda: [O.run_op(op, ps, ns) for op in ops]

        first, plan = concrete_plan(rnd["plan"], [(a, b) for _, a, b in refs])
        total = sum(a for _, a, _ in refs)
        sched = K.Sched([body(ops) for ops in rnd["threads"]], plan, first)
        n0 = K.st.n
        with K.limits(3 * total + 500_000):
            got = sched.run()
        res.d["points"] += K.st.n - n0
        res.stat("rounds")
        res.fault("thread_switch", len(sched.switches))
        res.fault("threads_started", len(rnd["threads"]))
        inside = [s for s in sched.switches if s[2] != "block"]
        if inside:
            res.nontrivial(rnd["pool"], rnd["threads"], inside)
        res.cov([(a, b, w.split(":")[1] if ":" in w else w) for a, b, w in inside[:12]])
        for _, _, w in inside:
            res.probe("switch_in_" + w.split(":")[0])
        if sched.deadlock:
            res.viol("deadlock", "threads %s on %s: all blocked" % (rnd["threads"], rnd["pool"]))
            return False
        ok = True
        for t, (want, _, _) in enumerate(refs):
            g = got[t]
            if g is None or g[0] != "ok":
                if g is not None and g[0] == "exc":
                    raise K.HarnessError("thread body raised %r" % (g[1],))
                res.viol("thread-does-not-finish", "thread %d of %s did not finish (%r)" % (t, rnd["threads"], g))
                ok = False
                continue
            for op, a, b in zip(rnd["threads"][t], g[1], want):
                res.event(k, t, op["n"], a[:200])
                if a != b:
                    res.viol("thread-result", "round %d thread %d: %s of %s gave %s; alone: %s" % (
                        k, t, op["n"], self._show(rnd, op), a[:300], b[:300]))
                    ok = False
        if ok:
            for a, b in zip(O.probe(ps, ns, limit=3000, names=self._probes(scn, k)), probes):
                if a != b and not a.endswith(" stop") and not b.endswith(" stop"):
                    res.viol("shared-expression-changed", "after the threads of round %d: %s; freshly built: %s" % (k, a[:300], b[:300]))
                    ok = False
                    break
        if res.d["sample"] is None:
            res.d["sample"] = {"switches": sched.switches[:6], "results": [g[1] if g else None for g in got]}
        return ok

    @staticmethod
    def _show(rnd, op):
        n = len(rnd["pool"])
        return "%s, %s" % (rnd["pool"][op["p"] % n], rnd["pool"][op["q"] % n])

    def shrink(self, scn):
        rs = scn["rounds"]
        if len(rs) > 1:
            for k in range(len(rs)):
                yield dict(scn, rounds=[rs[k]])
            for ys in list_shrinks(rs):
                if ys:
                    yield dict(scn, rounds=ys)
            return
        for r2 in self._shrink_round(rs[0]):
            yield dict(scn, rounds=[r2])

    def _shrink_round(self, scn):
        if scn["warm"]:
            yield dict(scn, warm=[])
        ts = scn["threads"]
        if len(ts) > 2:
            for i in range(len(ts)):
                yield dict(scn, threads=ts[:i] + ts[i + 1:])
        for i, ops in enumerate(ts):
            if len(ops) > 1:
                for o2 in list_shrinks(ops):
                    if o2:
                        yield dict(scn, threads=ts[:i] + [o2] + ts[i + 1:])
        for p in shrink_plan(scn["plan"]):
            yield dict(scn, plan=p)


CHEAP_FAIL = ["e**(x**2)", "1/log(x)", "sqrt(sin(x))", "x**x", "asin(x)**2", "sqrt(x**2+a)"]
# integrands that go through the same transform, so that what one search keeps about it can meet what another one keeps
THEMES = {
    "byparts": ["x*cos(x)", "x*e**(-x)", "x*sin(2*x)", "log(x)", "log(x)/x**2", "x**2*e**x", "x*log(x)", "atan(x)", "asin(x)", "x*e**(3*x)", "x*cos(x/2)"],
    "cyclic": ["e**x*sin(x)", "e**x*cos(x)", "e**(2*x)*cos(x)", "e**x*sin(2*x)", "e**(-x)*cos(x)"],
    "trigsub": ["sin(x)**3", "cos(x)**5", "tan(x)**4", "sin(x)**2*cos(x)**3", "sec(x)**2*tan(x)**2", "sec(x)", "sin(x)*cos(x)", "5*csc(x)**2"],
    "linear": ["sin(4*x)", "2*cos(2*x-5)", "(2*x-5)**10", "e**(3*x+1)", "tan(3*x)", "sqrt(2*x+1)", "1/(5*x-2)", "cos(a*x+b)"],
    "usub": ["x*e**(x**2)", "e**x/(1+e**x)", "log(x)/x", "x/(x**2+1)", "cos(x)*e**(sin(x))", "2*x*cos(x**2)", "sin(log(x))/x"],
    "polyusub": ["8*x/sqrt(1-4*x**2)", "x**3*e**(x**4)", "3*x**2*(x**3+1)**6", "x**2/sqrt(1-x**3)", "x*sin(x**2)", "x**2*cos(x**3)"],
    "invtrig": ["1/sqrt(4-x**2)", "sqrt(1-x**2)", "1/(x**2+4)", "x**2/sqrt(1-x**2)", "1/(1+x**2)**2", "1/(9+x**2)"],
    "partial": ["(x+8)/(x*(x+6))", "(2*x+3)/(x-3)/(x+3)", "(18-12*x)/(4*x-1)/(x-4)", "1/(x**2-4)", "(x-2)/(2*x+1)/(x+3)", "1/(x*(x+1))"],
    "polydiv": ["(x-5)/(-2*x+2)", "(x**3-1)/(x+2)", "(x-1)/(2*x+4)", "(2*x**3+4*x**2-5)/(x+3)", "x**2/(x+1)"],
    "square": ["1/(3*x**2+6*x+78)", "1/(x**2-8*x+65)", "1/sqrt(-(x**2)-6*x+40)", "1/(x**2+2*x+10)"],
    "products": ["cos(x)*cos(2*x)", "sin(2*x)*cos(3*x)", "sin(x)*cos(2*x)*sin(2*x)", "sin(x)*sin(3*x)"],
    "powers": ["sin(x)**2", "cos(x)**2", "sin(x)**4", "tan(x)**2", "cot(x)**2", "(1+sin(x))**2"],
    "constants": ["3*sin(x)", "a*cos(x)", "5*e**x/7", "-2*log(x)", "a*b*x**3", "pi*tan(x)"],
    "sums": ["x**2+sin(x)", "e**x-1/x", "3*x**5-x**3+6", "5/x-3*e**x", "cos(x)+x*e**x", "tan(x)+log(x)"],
    "fails": CHEAP_FAIL,
}


class C07(Shared):
    PROP = "C07"
    RUNS_QUICK = 420
    RUNS_THOROUGH = 20000
    RULE = ("one run = 1-6 rounds of 2-3 integrations at once under one switch plan, or 2-6 integrations in a row, in one process; non-trivial = a "
            "distinct (integrands, options, sequence of hand-overs)")

    def _job(self, r, shared, theme=None):
        k = r.random()
        if shared and k < 0.55:
            src = "p%d" % r.randrange(shared)
        elif theme and r.random() < 0.85:
            src = pick(r, THEMES[theme])
        elif k < 0.75:
            src = G.cheap(r)
        elif k < 0.85:
            src = pick(r, CHEAP_FAIL)
        else:
            src = G.integrand(r)
        job = {"src": src, "opts": {}}
        if r.random() < 0.3:
            job["opts"] = {"breadth_first": True}
        if r.random() < 0.25:
            a = r.randint(-1, 2)
            job["bounds"] = [str(a), str(a + r.randint(1, 2))]
        return job

    def _round(self, r):
        theme = pick(r, sorted(THEMES)) if r.random() < 0.7 else None
        pool = []
        if not theme or r.random() < 0.4:
            pool = [pick(r, THEMES[theme]) if theme else G.cheap(r) if r.random() < 0.6 else pick(r, G.CORPUS) for _ in range(r.choice([0, 1, 1, 2]))]
        n = r.choice([2, 2, 2, 3])
        jobs = [self._job(r, len(pool), theme) for _ in range(n)]
        if r.random() < 0.25:
            jobs = [dict(jobs[0]) for _ in range(n)]
        rnd = {"pool": pool, "jobs": jobs, "plan": gen_plan(r, n, ("transforms.py", "transforms.py", "integration.py", "expr.py", "regex.py")), "rng": r.randrange(1 << 30), "expire": {}}
        if r.random() < 0.12:
            rnd["expire"] = {"all": int(10 ** r.uniform(3, 5.3))}
        return rnd

    def gen(self, r, i, tier):
        if r.random() < 0.25:
            theme = pick(r, sorted(THEMES)) if r.random() < 0.4 else None
            pool = [G.cheap(r) if r.random() < 0.6 else pick(r, G.CORPUS) for _ in range(r.choice([0, 1, 1, 2]))]
            jobs = [self._job(r, len(pool), theme) for _ in range(r.randint(2, 6))]
            return {"pool": pool, "jobs": jobs, "plan": None, "rng": r.randrange(1 << 30), "expire": {
                str(k): int(10 ** r.uniform(2, 5)) for k in range(len(jobs)) if r.random() < 0.2}}
        return {"rounds": [self._round(r) for _ in range(r.choice([1, 4, 5, 6, 6]))]}

    made = None  # in the process of a run: names of symbols made by the package

    @classmethod
    def masked(cls, texts):
        return [S.mask(t, set(cls.made) - cls.known) for t in texts]

    LIMIT = 1_500_000
    LIMIT_ROUND = 400_000

    @staticmethod
    def _setup(scn):
        ns = O.namespace()
        O.build_pool(scn["pool"], ns)
        if C07.made is None:
            C07.known = {v.name for v in ns.values() if type(v).__name__ == "Symbol"}
            C07.made = S.learn()[0]
        del C07.made[:]
        K.seed_random(scn["rng"])
        K.clock.load({})
        K.Warned.log = []
        return ns

    @staticmethod
    def _integrate(job, ns):
        def f():
            from simpy.expr import _cast

            expr = _cast(eval(O.code(job["src"]), ns))
            return ns["integrate"](expr, S.bounds_of(job, ns), **job["opts"])

        return f

    def _alone(self, scn, job, limit=None):
        ns = self._setup(scn)
        n0, h0 = K.st.n, K.st.h
        with K.limits(limit or self.LIMIT):
            o = O.outcome(self._integrate(job, ns))
        return o, K.st.n - n0, K.st.h - h0, sorted(self.masked([t for _, _, t in K.Warned.log]))

    def _references(self, scn):
        """Each integration alone in a process of its own."""
        return [proc.forked(self._alone, scn, job, wall=self.WALL) for job in scn["jobs"]]

    def _round_references(self, scn):
        """Each integration alone, with objects of its own (one process for all of them)."""
        return [[self._alone(rnd, job, self.LIMIT_ROUND) for job in rnd["jobs"]] for rnd in scn["rounds"]]

    def _show(self, scn, job):
        return "integrate(%s%s%s) with %s" % (job["src"], ", %s" % job["bounds"] if job.get("bounds") else "", ", breadth_first" if job["opts"] else "", scn["pool"])

    def _judge(self, res, scn, t, job, got, warned, ref, may_expire):
        want, _, _, wwarn = ref
        res.event(t, job["src"], got[:200], warned)
        what = self._show(scn, job)
        if got == want:
            if may_expire and got == "ok:None":
                warned = [w.replace(", TIMED OUT", "") for w in warned]
                wwarn = [w.replace(", TIMED OUT", "") for w in wwarn]
            if sorted(warned) != wwarn:
                res.viol("warnings-mixed", "%s warned %r; alone %r" % (what, warned, wwarn))
            return
        if may_expire and got == "ok:None":
            fails = [w for w in warned if "integrate" in w.lower() or "timed out" in w.lower()]
            if len(fails) != 1 or "TIMED OUT" not in fails[0].upper():
                res.viol("warnings-mixed", "%s ran out of time and warned %r" % (what, warned))
            return
        res.viol("integration-result", "%s gave %s; alone: %s" % (what, got[:300], want[:300]))

    def run(self, scn):
        res = Result()
        if "rounds" not in scn:
            return self._sequential(scn, proc.forked(self._references, scn, wall=self.WALL), res)
        for rnd, refs in zip(scn["rounds"], proc.forked(self._round_references, scn, wall=self.WALL)):
            if any(r[0] == "stop" for r in refs):
                res.stat("rounds_skipped_endless")
                continue
            self._play(rnd, refs, res)
            if res.d["viol"]:
                break
        return res.done()

    def _play(self, scn, refs, res):
        res.stat("rounds")
        total = sum(r[1] for r in refs)
        ns = self._setup(scn)
        exp = scn["expire"].get("all")
        if exp:
            K.clock.load({"jumps": [["p", exp, 2.5]]})
        first, plan = concrete_plan(scn["plan"], [(r[1], r[2]) for r in refs])
        sched = K.Sched([lambda job=job: O.outcome(self._integrate(job, ns)) for job in scn["jobs"]], plan, first)
        n0 = K.st.n
        with K.limits(3 * total + 2_000_000):
            got = sched.run()
        res.d["points"] += K.st.n - n0
        res.d["sim_time"] += K.clock.elapsed()
        res.fault("thread_switch", len(sched.switches))
        for k, v in K.clock.fired.items():
            res.fault("clock_" + k, v)
        inside = [s for s in sched.switches if s[2] != "block"]
        if inside:
            res.nontrivial(scn["pool"], scn["jobs"], inside)
        res.cov([(a, b, w.split(":")[1] if ":" in w else w) for a, b, w in inside[:12]])
        for _, _, w in inside:
            res.probe("switch_in_" + w.split(":")[0])
        if sched.deadlock:
            res.viol("deadlock", "%s: all blocked" % [self._show(scn, j) for j in scn["jobs"]])
            return
        for t, job in enumerate(scn["jobs"]):
            g = got[t]
            if g is not None and g[0] == "exc":
                raise K.HarnessError("thread body raised %r" % (g[1],))
            if g is None or g[0] != "ok" or g[1] == "stop":
                res.viol("thread-does-not-finish", "%s did not finish next to %s" % (self._show(scn, job), scn["jobs"]))
                continue
            self._judge(res, scn, t, job, g[1], self.masked([x for th, _, x in K.Warned.log if th == t]), refs[t], bool(exp))
        if res.d["sample"] is None:
            res.d["sample"] = {"switches": sched.switches[:6], "results": [g[1] if g else None for g in got]}

    def _sequential(self, scn, refs, res):
        ns = self._setup(scn)
        res.fault("history_runs")
        for t, (job, ref) in enumerate(zip(scn["jobs"], refs)):
            exp = scn["expire"].get(str(t))
            K.clock.load({"jumps": [["p", exp, 2.5]]} if exp else {})
            K.Warned.log = []
            n0 = K.st.n
            with K.limits(2 * self.LIMIT):
                got = O.outcome(self._integrate(job, ns))
            res.d["points"] += K.st.n - n0
            res.d["sim_time"] += K.clock.elapsed()
            for k, v in K.clock.fired.items():
                res.fault("clock_" + k, v)
            if ref[0] == "stop":
                res.stat("endless")
                continue
            if got == "stop":
                res.viol("does-not-finish", "%s did not finish after %s" % (self._show(scn, job), scn["jobs"][:t]))
                break
            self._judge(res, scn, t, job, got, self.masked([x for _, _, x in K.Warned.log]), ref, bool(exp))
        res.nontrivial(scn["pool"], scn["jobs"])
        res.cov("history", [j["src"] for j in scn["jobs"]])
        return res.done()

    def shrink(self, scn):
        if "rounds" not in scn:
            yield from self._shrink_round(scn)
            return
        rs = scn["rounds"]
        if len(rs) > 1:
            for k in range(len(rs)):
                yield dict(scn, rounds=[rs[k]])
            for ys in list_shrinks(rs):
                if ys:
                    yield dict(scn, rounds=ys)
            return
        for r2 in self._shrink_round(rs[0]):
            yield dict(scn, rounds=[r2])

    def _shrink_round(self, scn):
        js = scn["jobs"]
        if len(js) > (1 if scn["plan"] is None else 2):
            for i in range(len(js)):
                if scn["plan"] is None and scn["expire"]:
                    continue
                yield dict(scn, jobs=js[:i] + js[i + 1:])
        if scn["expire"]:
            for k in list(scn["expire"]):
                yield dict(scn, expire={a: b for a, b in scn["expire"].items() if a != k})
        for i, job in enumerate(js):
            for j2 in shrink_job(job):
                yield dict(scn, jobs=js[:i] + [j2] + js[i + 1:])
        if scn["plan"]:
            for p in shrink_plan(scn["plan"]):
                yield dict(scn, plan=p)
