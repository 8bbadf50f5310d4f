"""C01, C02, C03: the time budget, under a virtual clock whose every movement the simulator decides."""
import copy
import random

from . import exprs as E
from . import gen as G
from . import kernel as K
from . import proc
from . import search as S
from .engine import Engine, Result

SAFE = 1.93  # simulated seconds that are certainly less than the two-second budget
BIG = (2.0001, 2.5, 3.0, 10.0, 3600.0, 1e6)
AFTER_BOUND = 8_000_000  # yield points; the largest single step met on the reference tree is below 1,000,000


def pick(r, xs):
    return xs[r.randrange(len(xs))]


def wall_steps(r):
    out = []
    for _ in range(r.randint(1, 2)):
        d = pick(r, (-1e6, -86400.0, -3600.0, -5.0, -2.0, -0.7, 0.9, 2.0, 3.0, 3600.0, 1e6))
        out.append([pick(r, ("f", "f", "r")), r.random(), d])
    return out


def gen_clock(r, mode):
    """An abstract clock script; positions are fractions of the reference run ("f": of its points, "r": of its reads)."""
    c = {"mode": mode}
    if mode in ("slow", "slowjump"):
        c["total"] = r.uniform(0.2, SAFE if mode == "slow" else 1.0)
    if mode == "pause":  # pauses that stay inside the budget
        n = r.randint(1, 3)
        left = SAFE
        c["jumps"] = []
        for _ in range(n):
            d = r.uniform(0.05, left * 0.9)
            left -= d
            c["jumps"].append([pick(r, ("f", "r")), r.random(), d])
    if mode == "slowjump":
        c["jumps"] = [[pick(r, ("f", "r")), r.random(), r.uniform(0.1, 0.9)]]
    if mode == "expire":
        c["jumps"] = [[pick(r, ("f", "f", "r", "last")), r.random() ** pick(r, (1, 1, 3)), pick(r, BIG)]]
        if r.random() < 0.3:
            c["jumps"].append(["f", r.random(), r.uniform(0.1, 1.5)])
    if mode == "near":  # an early stall that leaves little of the budget
        d = r.uniform(0.9, SAFE)
        c["jumps"] = [[pick(r, ("f", "f", "r")), r.random() ** 3, d]]
        if r.random() < 0.3:
            c["total"] = r.uniform(0.0, SAFE - d)
    if mode == "steps":  # stalls that add up
        c["jumps"] = [["f", r.random() ** pick(r, (1, 1, 2)), r.uniform(0.2, 1.9)] for _ in range(r.randint(2, 6))]
    if mode == "late":  # runs slowly so that the budget is spent part-way
        c["total"] = r.uniform(2.5, 40.0)
    if r.random() < 0.25:
        c["wall"] = wall_steps(r)
    return c


def concrete(c, span, reads, read_points):
    """Concrete clock script for a reference run of `span` points after the first of `reads` clock readings."""
    out = {"jumps": [], "wall": []}
    if "total" in c:
        out["rate"] = c["total"] / max(1, span)

    def pos(u, f):
        if u == "f":
            return ["p", max(1, int(f * span))]
        if u == "last":  # inside the last step
            lo = read_points[-2] if len(read_points) > 1 else 0
            hi = max(read_points[-1] if read_points else span, lo + 1)
            return ["p", max(1, int(lo + f * (hi - lo)))]
        if u == "p":
            return ["p", int(f)]
        return ["r", 2 + int(f * max(1, reads - 1))]

    for u, f, d in c.get("jumps", ()):
        out["jumps"].append(pos(u, f) + [d])
    for u, f, d in c.get("wall", ()):
        out["wall"].append(pos(u, f) + [d])
    return out


def frozen_ref(job):
    j = dict(job)
    j["clock"] = {}
    if j.get("ref_limit"):
        j["limit"] = j["ref_limit"]
    return S.plain(S.do_search(j))


def gen_job(r, endless=0.0, exhaust=0.05, definite=0.3, long=0.2):
    k = r.random()
    if k < endless:
        src = G.endless(r)
    elif k < endless + exhaust:
        src = pick(r, G.EXHAUST) if r.random() < 0.6 else G.exhausting(r)
    elif k < endless + exhaust + 0.12:
        src = G.cheap(r)
    elif k < endless + exhaust + 0.12 + long:
        src = G.long(r)
    else:
        src = G.integrand(r)
    job = {"src": src, "names": G.rename(r, 0.2), "rng": r.randrange(1 << 30), "opts": {}}
    if k < endless:
        job["endless"] = True
    if r.random() < definite:
        a = r.randint(-3, 4)
        job["bounds"] = [pick(r, (str(a), "F(1,%d)" % r.randint(2, 5), "a", "y", "pi/6")), pick(r, (str(a + r.randint(1, 4)), "pi/4", "b", "pi/3", "inf"))]
    if r.random() < 0.2:
        job["opts"] = {"breadth_first": True}
    if r.random() < 0.25:
        job["infer"] = True
    return job


def shrink_job(job):
    if job.get("names"):
        yield dict(job, names={})
    if job.get("bounds"):
        yield dict(job, bounds=None)
    if job.get("opts"):
        yield dict(job, opts={})
    if job.get("infer"):
        yield dict(job, infer=False)
    for simple in ("x", "1/x", "x*cos(x)", "sin(x)/x", "sqrt(x**2+11)"):
        if len(simple) < len(job["src"]):
            yield dict(job, src=simple)


def shrink_clock(c):
    for key in ("wall", "jumps"):
        if c.get(key):
            for i in range(len(c[key])):
                d = dict(c)
                d[key] = c[key][:i] + c[key][i + 1:]
                yield d
            for i, (u, f, dt) in enumerate(c[key]):
                for f2 in (0.0, 0.5):
                    if f2 < f:
                        d = copy.deepcopy(c)
                        d[key][i][1] = f2
                        yield d
    if "total" in c:
        d = dict(c)
        del d["total"]
        yield d


class Deadline(Engine):
    """Shared: a scenario is a list of (job, clock script) run one after another in one process."""

    RULE = ("one run = one process lifetime with 1-3 integrations, each under its own clock script; non-trivial = a distinct "
            "(integrand, options, clock script) whose search read the clock at least twice and during which simulated time moved")
    MEASURE = "distinct (outcome, number of search steps begun, step in which the budget ran out, clock mode)"
    ASSUMPTIONS = [
        "the simulated process is single-threaded and reads time only through the time module",
        "time passes only at yield points (before statements and around calls, loads and comparisons of simpy code)",
        "a frozen clock represents a search that is never short of time",
    ]
    multi = (1, 1, 1, 2, 2, 3)

    def jobs(self, r):
        raise NotImplementedError

    def gen(self, rng, i, tier):
        n = pick(rng, self.multi)
        return {"jobs": [self.jobs(rng) for _ in range(n)], "gap": rng.random() < 0.3}

    def judge(self, res, job, clk, ref, rec):
        raise NotImplementedError

    def run(self, scn):
        res = Result()
        refs = []
        for job, clk in scn["jobs"]:
            refs.append(proc.forked(frozen_ref, job, wall=self.WALL))
        for (job, clk), ref in zip(scn["jobs"], refs):
            if ref["kind"] == "build":
                res.stat("skipped_not_constructible")
                continue
            span = ref["span"] if ref["kind"] != "stop" else clk.get("horizon", 400_000)
            script = concrete(clk, max(2, span), max(2, ref["reads"]), ref["read_points"])
            j = dict(job)
            j["clock"] = script
            j["limit"] = max(12_000_000, 3 * ref["points"] if ref["kind"] != "stop" else 0)
            rec = S.do_search(j, want_obj=True)
            res.d["points"] += rec["points"]
            res.d["sim_time"] += rec["elapsed"]
            for k, v in rec["faults"].items():
                res.fault("clock_" + k, v)
            if script.get("rate"):
                res.fault("clock_slow")
            step_at = sum(1 for p in rec["read_points"] if rec["crossing"] is not None and p < rec["crossing"])
            res.cov(S.outcome(rec)[:40], rec.get("steps"), step_at if rec["crossing"] is not None else None, clk["mode"])
            if rec["reads"] >= 2 and (rec["elapsed"] > 0 or any(rec["faults"].values())):
                res.nontrivial(job, script)
            res.event(job["src"], clk["mode"], S.outcome(rec), rec["points"], rec["reads"], "%.6f" % rec["elapsed"], rec["warn"])
            if rec["crossing"] is not None:
                res.probe("budget_spent")
                if rec["kind"] == "ok":
                    res.probe("budget_spent_but_solved")
                if rec["kind"] == "none":
                    res.probe("withheld_by_deadline")
            self.judge(res, job, clk, ref, rec)
            if res.d["sample"] is None:
                res.d["sample"] = {"integrand": rec["integrand"], "clock": script, "reference": ref.get("repr", ref["kind"]),
                                   "got": rec.get("repr", rec["kind"]), "elapsed": rec["elapsed"], "warnings": [w[1] for w in rec["warn"]],
                                   "points_after_budget": rec["after_points"]}
            if scn.get("gap"):
                pass
        return res.done()

    def shrink(self, scn):
        js = scn["jobs"]
        if len(js) > 1:
            for i in range(len(js)):
                yield dict(scn, jobs=js[:i] + js[i + 1:])
        for i, (job, clk) in enumerate(js):
            for c2 in shrink_clock(clk):
                yield dict(scn, jobs=js[:i] + [[job, c2]] + js[i + 1:])
            for j2 in shrink_job(job):
                yield dict(scn, jobs=js[:i] + [[j2, clk]] + js[i + 1:])


def fail_warnings(rec):
    return [t for c, t in rec["warn"] if "integrate" in t.lower() or "timed out" in t.lower()]


class C01(Deadline):
    PROP = "C01"
    RUNS_QUICK = 800
    RUNS_THOROUGH = 30000

    def jobs(self, r):
        mode = pick(r, ("slow", "pause", "near", "slowjump", "expire", "expire", "expire", "late", "steps"))
        job = gen_job(r, 0.15)
        if job.get("endless"):
            clk = gen_clock(r, pick(r, ("expire", "late", "steps")))
            clk["horizon"] = int(10 ** r.uniform(3.5, 5.8))
            job["limit"] = 1_500_000
            return [job, clk]
        return [job, gen_clock(r, mode)]

    def judge(self, res, job, clk, ref, rec):
        got, want = S.outcome(rec), S.outcome(ref)
        what = "integrate(%s) wrt %s opts=%s" % (rec["integrand"], rec["var"], job.get("opts"))
        if ref["kind"] == "stop":
            res.stat("reference_endless")
            if rec["kind"] == "exc":
                res.viol("deadline-raises", "%s raised %s at %s after the clock moved %.3f s" % (what, rec["exc"], rec["tb"], rec["elapsed"]))
            elif rec["kind"] == "ok" and not job.get("bounds"):
                # with all the time in the world there may be an answer: whether this is one, its derivative tells
                from .eng_answer import judge_antiderivative

                bad = judge_antiderivative(rec["obj"], rec["expr"], rec["var"])["bad"]
                if bad:
                    res.viol("deadline-changes-answer", "%s: got %s, which is not an antiderivative (clock moved %.3f s): %s" % (
                        what, rec["repr"], rec["elapsed"], bad[:2]))
            return
        if rec["kind"] == "stop":
            res.viol("deadline-hang", "%s: did not return within %d points; %d without clock movement" % (what, rec["points"], ref["points"]))
            return
        if got == want:
            return
        if rec["kind"] == "exc":
            res.viol("deadline-raises", "%s raised %s (%s) in %s; with an idle clock: %s" % (
                what, rec["exc"], rec["msg"], rec["tb"], ref.get("repr", ref["kind"])))
        elif rec["kind"] == "ok":
            res.viol("deadline-changes-answer", "%s: got %s; with an idle clock: %s (clock moved %.3f s)" % (
                what, rec["repr"], ref.get("repr", ref["kind"]), rec["elapsed"]))
        elif rec["elapsed"] < 1.95:
            res.viol("withheld-early", "%s: answer withheld although only %.3f s had passed; with an idle clock: %s" % (
                what, rec["elapsed"], ref.get("repr", ref["kind"])))


class C02(Deadline):
    PROP = "C02"
    RUNS_QUICK = 420
    RUNS_THOROUGH = 20000
    multi = (1, 1, 1, 2)

    def jobs(self, r):
        k = r.random()
        job = gen_job(r, 0.6 if k < 0.75 else 0.0, 0.05, 0.1)
        if k < 0.12:  # many open possibilities, and the budget is spent late
            job["src"] = G.endless_wide(r)
            job["endless"] = True
            job["bounds"] = None
            job["ref_limit"] = 100_000
            h = int(10 ** r.uniform(5.5, 6.7))
            return [job, {"mode": "expire", "horizon": h, "jumps": [["f", 1 - r.random() ** 2, pick(r, (2.0001, 2.0001, 2.2, 3.0))]]}]
        if k < 0.2:  # part after part is solved; the budget is spent at one of the readings in between
            job["src"] = G.long(r) if r.random() < 0.4 else G.many(r)
            job["bounds"] = None
            return [job, {"mode": "expire", "horizon": 400_000, "jumps": [["r", r.random(), pick(r, BIG)]]}]
        if k < 0.75:
            clk = {"mode": "expire", "horizon": int(10 ** r.uniform(3.5, 6.3))}
            k = r.random()
            if k < 0.3:
                clk["jumps"] = gen_clock(r, pick(r, ("steps", "near")))["jumps"]
            elif k < 0.7:
                clk["jumps"] = [[pick(r, ("f", "f", "f", "r")), r.random(), pick(r, BIG)]]
                if r.random() < 0.3:
                    clk["jumps"].append(["f", r.random(), r.uniform(0.1, 1.9)])
            else:
                clk["total"] = r.uniform(2.2, 20.0)
            if r.random() < 0.5:
                clk["wall"] = wall_steps(r)
        else:
            clk = {"mode": "wallonly", "wall": wall_steps(r)}
            if r.random() < 0.4:
                clk["total"] = r.uniform(0.1, 1.5)
        return [job, clk]

    def run(self, scn):
        # the endless integrands need no full reference: they are known by running out of a modest allowance
        for job, clk in scn["jobs"]:
            job["limit"] = max(2_500_000, 2 * clk.get("horizon", 0))
        return super().run(scn)

    def judge(self, res, job, clk, ref, rec):
        what = "integrate(%s) wrt %s opts=%s" % (rec["integrand"], rec["var"], job.get("opts"))
        if rec["crossing"] is not None and rec["elapsed"] >= 2.0:
            res.stat("budget_spent_runs")
            if rec["kind"] == "stop" and rec["after_points"] >= AFTER_BOUND:
                res.viol("runs-on", "%s: still running %d points after the %s-second budget was spent (at point %d)" % (
                    what, rec["after_points"], S.BUDGET, rec["crossing"]))
            elif rec.get("steps_after") is not None and rec["steps_after"] > 1:
                res.viol("more-steps", "%s: %d further search steps were begun after the budget was spent (at point %d of %d)" % (
                    what, rec["steps_after"], rec["crossing"], rec["span"]))
            elif rec.get("steps_after_seen"):
                res.viol("more-steps", "%s: a search step was begun although the clock had been read after the budget was spent (at point %d of %d)" % (
                    what, rec["crossing"], rec["span"]))
            elif rec["after_points"] is not None and rec["after_points"] > AFTER_BOUND:
                res.viol("runs-on", "%s: %d points of work after the budget was spent" % (what, rec["after_points"]))
        elif rec["elapsed"] < 1.95 and ref["kind"] not in ("stop", "build"):
            if S.outcome(rec) != S.outcome(ref) and rec["kind"] != "stop":
                res.viol("wall-step-shortens", "%s: %s instead of %s although only %.3f s passed (wall steps %s)" % (
                    what, rec.get("repr", rec["kind"]), ref.get("repr", ref["kind"]), rec["elapsed"], clk.get("wall")))


class C03(Deadline):
    PROP = "C03"
    RUNS_QUICK = 900
    RUNS_THOROUGH = 25000

    def jobs(self, r):
        mode = pick(r, ("idle", "idle", "slow", "pause", "near", "expire", "expire", "expire", "late", "steps"))
        job = gen_job(r, 0.12, 0.5, 0.2)
        clk = gen_clock(r, mode)
        if job.get("endless"):
            clk = gen_clock(r, pick(r, ("expire", "late", "steps")))
            clk["horizon"] = int(10 ** r.uniform(3.5, 5.8))
        return [job, clk]

    def run(self, scn):
        for job, clk in scn["jobs"]:
            job["limit"] = 2_500_000
        return super().run(scn)

    def judge(self, res, job, clk, ref, rec):
        what = "integrate(%s) wrt %s opts=%s" % (rec["integrand"], rec["var"], job.get("opts"))
        if rec["kind"] in ("stop", "exc", "build"):
            return
        fw = fail_warnings(rec)
        res.stat("outcome_" + rec["kind"])
        if rec["kind"] == "ok":
            if fw:
                res.viol("warning-with-answer", "%s: returned %s and warned %r" % (what, rec["repr"], fw))
            return
        if len(fw) != 1:
            res.viol("warning-count", "%s: returned None with %d failure warnings: %r" % (what, len(fw), rec["warn"]))
            return
        text = fw[0]
        if rec["integrand"] not in text or rec["var"] not in text.replace(rec["integrand"], "", 1):
            res.viol("warning-names", "%s: the warning does not name integrand and variable: %r" % (what, text))
        timed = "timed out" in text.lower()
        res.stat("warned_timeout" if timed else "warned_exhausted")
        if rec["crossing"] is None and rec["elapsed"] < 1.95 and timed:
            res.viol("false-timeout", "%s: reported as timed out after %.3f s: %r" % (what, rec["elapsed"], text))
            return
        # possibilities left untried?  Judged on the tree the search ended with, and against the same search with time to spare.
        root = rec["roots"][-1] if rec.get("roots") else None
        if root is not None:
            with K.quiet():
                solved, failed = S.own_status(root)
            if timed and failed:
                res.viol("exhausted-reported-timeout", "%s: every possibility had been tried, yet: %r" % (what, text))
            if not timed and not failed:
                res.viol("timeout-reported-exhausted", "%s: open possibilities remained, yet: %r" % (what, text))
        if ref["kind"] == "stop" and not timed:
            res.viol("timeout-reported-exhausted", "%s: the search is endless, yet: %r" % (what, text))
        if ref["kind"] == "ok" and not timed:
            res.viol("timeout-reported-exhausted", "%s: the same search finds %s when given time, yet: %r" % (what, ref["repr"], text))
        if ref["kind"] == "none" and rec.get("steps") is not None and ref.get("steps") is not None:
            if rec["steps"] < ref["steps"] and not timed:
                res.viol("timeout-reported-exhausted", "%s: cut off in step %d of %d, yet: %r" % (what, rec["steps"], ref["steps"], text))
            if timed and rec["steps"] >= ref["steps"] and rec["reads"] >= ref["reads"]:
                res.probe("cut_off_in_last_step")
                res.viol("exhausted-reported-timeout", "%s: all %d steps were done, yet: %r" % (what, rec["steps"], text))
            if not timed and rec["crossing"] is not None:
                res.probe("budget_spent_in_last_step_of_exhausted_search")
