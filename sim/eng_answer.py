"""C05, C12: what the search finds, and what its tree says, along every exploration schedule the simulator can choose."""
import math
import random
import re

from . import exprs as E
from . import gen as G
from . import kernel as K
from . import proc
from . import search as S
from .engine import Engine, Result
from .eng_deadline import pick, shrink_job, gen_clock, concrete, shrink_clock

TRIG = ("sin", "cos", "tan", "sec", "csc", "cot")


def trig_inners(*exprs):
    out = []

    def w(e):
        if type(e).__name__ in TRIG:
            out.append(e.inner)
        for c in e.children():
            w(c)

    with K.quiet():
        for e in exprs:
            w(e)
    return out


def principal(inners, env):
    """Every trigonometric argument lies in the open first quadrant (modulo full turns)."""
    for i in inners:
        try:
            v = E.neval(i, env)
        except E.Undef:
            return False
        if not (math.cos(v) > 1e-3 and math.sin(v) > 1e-3):
            return False
    return True


def sample_points(r, nm, var, inners, n=16, tries=500):
    """Points in the first quadrant of all trigonometric arguments, then points anywhere."""
    prin, anyw = [], []
    for k in range(tries):
        env = {}
        for s in nm:
            env[s] = r.uniform(0.15, 2.2)
        m = k % 5
        env[var] = (r.uniform(0.01, 0.3), r.uniform(0.1, 1.4), r.uniform(-3, 3), r.uniform(0.5, 6), r.uniform(-1, 1))[m]
        if principal(inners, env):
            if len(prin) < n:
                prin.append(env)
        elif len(anyw) < n:
            anyw.append(env)
        if len(prin) >= n and (len(anyw) >= n or not inners):
            break
    return prin, anyw


def judge_antiderivative(F, f, var, seed=11, n=14):
    """-> dict(used, bad (in the first quadrant), branch (elsewhere))"""
    r = random.Random(seed)
    nm = E.names(F) | E.names(f) | {var}
    inn = trig_inners(F, f)
    prin, anyw = sample_points(r, nm, var, inn, n)
    used, bad = E.antiderivative_disagreement(F, f, var, prin)
    used2, bad2 = E.antiderivative_disagreement(F, f, var, anyw)
    return {"used": used, "bad": bad, "used2": used2, "branch": bad2}


def judge_definite(val, f, var, a, b, seed=12):
    """-> (used, list of disagreements) for parameters drawn at random; only where the quadrature is trustworthy."""
    r = random.Random(seed)
    nm = (E.names(val) | E.names(f) | E.names(a) | E.names(b)) - {var}
    more = nm or var in E.names(a) | E.names(b)
    inn = trig_inners(f)
    bad, used = [], 0
    for _ in range(4 if more else 1):
        env = {s: r.uniform(0.3, 2.0) for s in nm}
        env[var] = r.uniform(0.3, 2.0)
        try:
            lo, hi = E.neval(a, env), E.neval(b, env)
            if abs(hi - lo) > 12 or lo == hi:
                continue
            ok = all(principal(inn, dict(env, **{var: lo + (hi - lo) * q / 24.0})) for q in range(25)) if inn else True
            if not ok:
                continue
            want = E.quad(f, var, lo, hi, env, 160)
            want2 = E.quad(f, var, lo, hi, env, 90)
            want3 = E.quad(f, var, lo, hi, env, 37)
            if max(abs(want - want2), abs(want - want3)) > 1e-7 * max(1.0, abs(want)):
                continue
            got, gerr = E.nerr(val, env)
        except E.Undef:
            continue
        used += 1
        if abs(got - want) > 1e-5 * max(1.0, abs(want)) + 20 * gerr:
            bad.append((env, got, want))
    return used, bad


def gen_schedule(r):
    k = r.random()
    if k < 0.2:
        return {}
    s = {}
    if r.random() < 0.5:
        s["maxnest"] = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 100])
    if r.random() < 0.6:
        s["heur"] = r.randrange(1 << 20)
        s["drop"] = r.choice([0, 0, 1, 1, 2, 3, 4])
    if r.random() < 0.55:
        s["rand"] = r.randrange(1 << 20)
        s["eps"] = r.choice([0.1, 0.3, 0.6, 1.0])
    return s


def gen_answer_job(r, definite=0.25):
    k = r.random()
    job = {"src": G.integrand(r) if k < 0.86 else G.long(r) if k < 0.93 else G.nested(r), "names": G.rename(r, 0.25), "rng": r.randrange(1 << 30), "opts": {}}
    if r.random() < definite:
        if r.random() < 0.5:
            a = r.randint(-2, 3)
            job["bounds"] = [str(a), str(a + r.randint(1, 3))]
        else:
            job["bounds"] = [pick(r, ("F(1,%d)" % r.randint(3, 7), "pi/8", "a", "0", "x")), pick(r, ("F(1,2)", "pi/4", "pi/6", "a+1", "x", "b"))]
        if r.random() < 0.15:
            job["bounds"].reverse()
    if r.random() < 0.3:
        job["infer"] = True
    if r.random() < 0.3:
        job["opts"] = {"breadth_first": True}
    job["limit"] = 5_000_000
    return job


def shrink_schedule(s):
    for k in list(s):
        d = dict(s)
        del d[k]
        yield d
    if s.get("drop"):
        yield dict(s, drop=0)
    if s.get("eps") not in (None, 1.0):
        yield dict(s, eps=1.0)


class Answer(Engine):
    MEASURE = "distinct (set of transforms on the path of the answer, number of search steps, schedule kind)"
    ASSUMPTIONS = [
        "correctness is judged numerically at sampled points by an evaluator independent of the library",
        "exploration order is varied through the breadth_first option, the DEPTH_FIRST_MAX_NESTING attribute, the HEURISTICS list "
        "and the choice of the next node; what does not exist in this form is left alone",
    ]

    def gen(self, rng, i, tier):
        scn = {"job": gen_answer_job(rng), "sched": gen_schedule(rng)}
        if rng.random() < 0.15:
            scn["clock"] = gen_clock(rng, pick(rng, ("expire", "late", "pause")))
            scn["clock"]["horizon"] = int(10 ** rng.uniform(4, 5.5))
        return scn

    def execute(self, scn, res, **kw):
        job = dict(scn["job"])
        eff = S.apply_schedule(scn.get("sched", {}))
        if scn.get("clock"):
            job["clock"] = concrete(scn["clock"], scn["clock"].get("horizon", 50_000), 6, [])
        job.update(kw)
        rec = S.do_search(job, want_obj=True)
        res.d["points"] += rec.get("points", 0)
        res.d["sim_time"] += rec.get("elapsed", 0)
        for e_ in eff:
            res.fault("schedule_" + e_)
        if job["opts"].get("breadth_first"):
            res.fault("schedule_breadth_first")
        for k, v in rec.get("faults", {}).items():
            res.fault("clock_" + k, v)
        res.stat("outcome_" + rec["kind"])
        res.event(job["src"], S.outcome(rec), rec.get("points"))
        return job, rec, eff

    def shrink(self, scn):
        if scn.get("clock"):
            yield {k: v for k, v in scn.items() if k != "clock"}
        for s in shrink_schedule(scn.get("sched", {})):
            yield dict(scn, sched=s)
        for j in shrink_job(scn["job"]):
            yield dict(scn, job=j)


class C05(Answer):
    PROP = "C05"
    RUNS_QUICK = 5000
    RUNS_THOROUGH = 60000
    RULE = ("one run = one integration of a generated integrand along one generated exploration schedule; non-trivial = a distinct "
            "(integrand, schedule) that returned an answer which could be compared numerically at 5 or more points")

    def run(self, scn):
        res = Result()
        job, rec, eff = self.execute(scn, res)
        if rec["kind"] != "ok":
            return res.done()
        f, F, var = rec["expr"], rec["obj"], rec["var"]
        path = sorted(S.path_transforms(rec["roots"][-1])) if rec.get("roots") else []
        for t in path:
            res.probe("answer_uses_" + t)
        res.cov(path, rec.get("steps"), sorted(eff), job["opts"])
        what = "integrate(%s) wrt %s bounds=%s schedule=%s" % (rec["integrand"], var, job.get("bounds"), scn.get("sched"))
        if job.get("bounds"):
            v, a, b = S.bounds_of(job, rec["ns"])
            used, bad = judge_definite(F, f, var, _c(a), _c(b))
            if used:
                res.nontrivial(job, scn.get("sched"))
                res.stat("definite_compared")
            if bad:
                env, got, want = bad[0]
                res.viol("wrong-definite", "%s = %s: value %.8g, quadrature %.8g at %s" % (what, rec["repr"], got, want, env))
            inside = None
        else:
            j = judge_antiderivative(F, f, var)
            if j["used"] >= 5:
                res.nontrivial(job, scn.get("sched"))
                res.stat("points_compared", j["used"] + j["used2"])
            if j["bad"]:
                env, got, want = j["bad"][0]
                res.viol("wrong-antiderivative", "%s = %s: derivative %.8g, integrand %.8g at %s (%d of %d points; path %s)" % (
                    what, rec["repr"], got, want, env, len(j["bad"]), j["used"], path))
            elif j["branch"]:
                env, got, want = j["branch"][0]
                if {"TrigUSub2", "InverseTrigUSub", "CompleteTheSquare"} & set(path):
                    res.d["known"].append("trig-branch")
                else:
                    res.viol("wrong-antiderivative-branch", "%s = %s: derivative %.8g, integrand %.8g at %s (path %s)" % (
                        what, rec["repr"], got, want, env, path))
        if res.d["sample"] is None:
            res.d["sample"] = {"integrand": rec["integrand"], "answer": rec["repr"], "path": path}
        return res.done()


    @staticmethod
    def _known(key):
        if key == "trig-branch":
            rec = S.do_search({"src": "x + csc(x)**2", "opts": {}}, want_obj=True)
            return rec["kind"] == "ok" and bool(E.antiderivative_disagreement(rec["obj"], rec["expr"], "x", [{"x": 2.0}])[1])
        return False

    def known_still_fails(self, key):
        return proc.forked(self._known, key)


def _c(v):
    from simpy.expr import _cast

    return _cast(v)


# ------------------------------------------------------------------------------------------------------- C13
_NOT_FINITE = re.compile(r"\b(inf|nan)\b")


def usable(job, rec):
    """The integrand is a finite real function: at enough points, or on the whole interval."""
    if _NOT_FINITE.search(rec["integrand"]):
        return False
    f, var = rec["expr"], rec["var"]
    r = random.Random(3)
    if job.get("bounds"):
        v, a, b = S.bounds_of(job, rec["ns"])
        a, b = _c(a), _c(b)
        nm = E.names(f) | E.names(a) | E.names(b)
        for _ in range(4):
            env = {s: r.uniform(0.3, 2) for s in nm}
            env.setdefault(var, r.uniform(0.3, 2))
            try:
                lo, hi = E.neval(a, env), E.neval(b, env)
                for end in (lo, hi):
                    E.neval(f, dict(env, **{var: end}))
                qs = [E.quad(f, var, lo, hi, env, n) for n in (160, 90, 37)]
            except E.Undef:
                continue
            if max(qs) - min(qs) <= 1e-6 * max(1.0, abs(qs[0])):
                return True
        return False
    n = 0
    nm = E.names(f) | {var}
    for _ in range(200):
        env = {s: r.uniform(0.1, 2.2) for s in nm}
        env[var] = (r.uniform(-3, 3), r.uniform(0.01, 1), r.uniform(1, 9))[r.randrange(3)]
        try:
            if abs(E.neval(f, env)) < 1e6:
                n += 1
        except E.Undef:
            pass
    return n >= 10


def refused(rec):
    """The differentiation of f(x)**g(x) is refused with NotImplementedError, by design."""

    def powx(e):
        if type(e).__name__ == "Power" and rec["var"] in E.names(e.base) and rec["var"] in E.names(e.exponent):
            return True
        return any(powx(c) for c in e.children())

    with K.quiet():
        return rec["exc"] == "NotImplementedError" and powx(rec["expr"])


def has_decimal(e):
    with K.quiet():
        return type(e).__name__ == "Float" or any(has_decimal(c) for c in e.children())


class C13(Answer):
    PROP = "C13"
    RUNS_QUICK = 4000
    RUNS_THOROUGH = 120000
    RULE = ("one run = one integration of a generated integrand along one generated exploration schedule and clock; non-trivial = a "
            "distinct (integrand, schedule) that ended in an answer or an error although the integrand is a finite real function")

    def gen(self, rng, i, tier):
        scn = super().gen(rng, i, tier)
        k = rng.random()
        if k < 0.3:
            scn["job"]["src"] = G.wild(rng)
        elif k < 0.45:
            scn["job"]["src"] = G.repeated(rng)
        elif k < 0.55:
            scn["job"]["src"] = G.decimal(rng)
        return scn

    def run(self, scn):
        res = Result()
        job, rec, eff = self.execute(scn, res)
        if rec["kind"] not in ("ok", "exc") or not usable(job, rec):
            return res.done()
        what = "integrate(%s) wrt %s bounds=%s opts=%s schedule=%s" % (rec["integrand"], rec["var"], job.get("bounds"), job.get("opts"), scn.get("sched"))
        res.nontrivial(job, scn.get("sched"))
        path = sorted(S.path_transforms(rec["roots"][-1])) if rec.get("roots") else []
        res.cov(path, rec.get("steps"), sorted(eff), rec["kind"])
        if rec["kind"] == "exc":
            if refused(rec):
                res.stat("refused")
            elif rec["msg"] == "math domain error" and job.get("bounds") and has_decimal(rec["expr"]):
                res.stat("decimal_outside_domain")  # the antiderivative, at decimal bounds outside its own domain
            else:
                res.viol("internal-error", "%s raised %s: %s in %s" % (what, rec["exc"], rec["msg"], rec["tb"]))
        elif _NOT_FINITE.search(rec["repr"]):
            res.viol("infinite-answer", "%s = %s" % (what, rec["repr"]))
        res.d["sample"] = {"integrand": rec["integrand"], "answer": rec.get("repr", rec["kind"]), "path": path}
        return res.done()


# ------------------------------------------------------------------------------------------------------- C12
_COMM = ("Sum", "Prod")


def pose(expr, var):
    """What integral a node poses, up to the name of the variable and the order of terms and factors."""
    name = var.name

    def w(e):
        n = type(e).__name__
        if n == "Symbol":
            return "@" if e.name == name else "S" + e.name
        ch = e.children()
        if not ch:
            return E._dump(e, 1)
        ts = [w(c) for c in ch]
        return n + "(" + ",".join(sorted(ts) if n in _COMM else ts) + ")"

    return w(expr)


class Watch:
    """Remembers the search tree as it grows and compares what it says at each observation with what it said before."""

    def __init__(self):
        self.roots = []
        self.seen = {}  # id(node) -> (node, solved, failed)
        self.bad = []
        self.observations = 0
        self.undo = None
        try:
            import simpy.transforms as T

            cls = T.Node
            orig = cls.__init__
        except Exception:
            return

        def init(obj, *a, **k):
            orig(obj, *a, **k)
            if getattr(obj, "parent", None) is None and not self.roots:
                self.roots.append(obj)

        cls.__init__ = init

        def undo():
            cls.__init__ = orig

        self.undo = undo

    def close(self):
        if self.undo:
            self.undo()

    def look(self, *_):
        if not self.roots or self.bad:
            return
        self.observations += 1
        root = self.roots[0]
        for n in S.walk(root):
            s, f = n.is_solved, n.is_failed
            s0, f0 = S.own_status(n)
            text = lambda: "%r (%s, via %s)" % (n.expr, n.var, type(n.transform).__name__)  # noqa: E731
            if s and f:
                self.bad.append(("solved-and-failed", text()))
            if bool(s) != s0 or bool(f) != f0:
                self.bad.append(("status", "%s says solved=%r failed=%r, its parts say solved=%r failed=%r" % (text(), s, f, s0, f0)))
            old = self.seen.get(id(n))
            if old is None:
                if not n.is_filler and n.type != "FAILURE" and n.parent is not None:
                    me = pose(n.expr, n.var)
                    p = n.parent
                    while p is not None:
                        if not p.is_filler and pose(p.expr, p.var) == me:
                            self.bad.append(("explored-below-itself", "%s is explored below an ancestor that poses the same integral" % text()))
                            break
                        p = p.parent
            else:
                if (old[1] and not s) or (old[2] and not f):
                    self.bad.append(("status-went-back", "%s was solved=%r failed=%r, now solved=%r failed=%r" % (text(), old[1], old[2], s, f)))
            self.seen[id(n)] = (n, s, f)
            if self.bad:
                return
        if not root.is_finished:
            open_ = [l for l in S.walk(root) if not l.children and not l.is_finished]
            todo = []
            for l in open_:
                p = l.parent
                while p is not None and not p.is_finished:
                    p = p.parent
                if p is None:
                    todo.append(l)
            if not todo:
                self.bad.append(("nothing-open", "the search for %r is unfinished but has nothing left to work on" % (root.expr,)))


class C12(Answer):
    PROP = "C12"
    RUNS_QUICK = 2800
    RUNS_THOROUGH = 40000
    MEASURE = "distinct (transforms in the tree, number of nodes, number of observations, outcome)"
    RULE = ("one run = one integration along one generated exploration schedule, its tree read at every clock reading; non-trivial = a "
            "distinct (integrand, schedule) whose tree had 5 or more nodes")

    def run(self, scn):
        res = Result()
        watch = Watch()
        try:
            job, rec, eff = self.execute(scn, res, on_read=lambda cap: watch.look)
        finally:
            watch.close()
        if rec["kind"] == "build":
            return res.done()
        what = "integrate(%s) wrt %s opts=%s schedule=%s" % (rec["integrand"], rec["var"], job.get("opts"), scn.get("sched"))
        root = rec["roots"][-1] if rec.get("roots") else (watch.roots[0] if watch.roots else None)
        if root is None:
            return res.done()
        with K.quiet():
            watch.look()
            nodes = list(S.walk(root))
        res.stat("observations", watch.observations)
        res.stat("nodes", len(nodes))
        if len(nodes) >= 5:
            res.nontrivial(job, scn.get("sched"))
        res.cov(sorted({type(n.transform).__name__ for n in nodes}), len(nodes), watch.observations, rec["kind"])
        for k, t in watch.bad:
            res.viol(k, "%s: %s" % (what, t))
        if rec["kind"] == "ok" and not watch.bad:
            self.solutions(res, rec, root, nodes, what)
        res.d["sample"] = {"integrand": rec["integrand"], "nodes": len(nodes), "observations": watch.observations, "outcome": rec.get("repr", rec["kind"])}
        return res.done()

    def solutions(self, res, rec, root, nodes, what):
        with K.quiet():
            for n in nodes:
                # the path of the answer: parts of what is solved
                if n.solution is None or not n.is_solved:
                    continue
                if n.children and n.type != "SOLUTION":
                    have = [c.solution is not None for c in n.children]
                    if n.type == "AND" and not all(have) or not any(have):
                        res.viol("solution-from-nothing", "%s: %r carries a solution but its parts do not" % (what, n.expr))
                        return
            if root.solution is None:
                res.viol("no-solution", "%s: answered, but the root of the tree carries no solution" % what)
                return
        done = set()
        for n in nodes:
            if n.is_filler or n.solution is None:
                continue
            key = (E.dump(n.expr), E.dump(n.solution))
            if key in done or len(done) > 25:
                continue
            done.add(key)
            j = judge_antiderivative(n.solution, n.expr, n.var.name, n=8)
            res.stat("solutions_compared")
            if j["bad"]:
                env, got, want = j["bad"][0]
                res.viol("wrong-solution", "%s: sub-problem %r wrt %s carries %r: derivative %.8g, integrand %.8g at %s" % (
                    what, n.expr, n.var, n.solution, got, want, env))
                return
