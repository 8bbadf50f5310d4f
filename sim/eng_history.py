"""C08, C09: what is left behind - by a computation cut off at a seeded instant, and by any history of operations."""
import dataclasses
import random

from . import exprs as E
from . import gen as G
from . import kernel as K
from . import ops as O
from . import proc
from .engine import Engine, Result
from .eng_deadline import pick
from .runner import list_shrinks

KINDS = {"K": KeyboardInterrupt, "M": MemoryError, "R": RecursionError}


class C08(Engine):
    PROP = "C08"
    RUNS_QUICK = 520
    RUNS_THOROUGH = 60000
    MEASURE = "distinct (function interrupted and line, kind of error)"
    RULE = ("one run = one process with 1-10 rounds; a round = an operation on shared expressions cut off 1-3 times at seeded instants, then "
            "repeated and probed; non-trivial = a distinct (pool, operation, instants, kinds) where the error was raised inside the library")
    ASSUMPTIONS = [
        "the asynchronous error arrives at a yield point (before statements, around calls, loads, stores, comparisons), outside except and finally suites",
        "operations of the interpreter itself (a dict store, list.append, attribute store) are atomic",
    ]

    def _round(self, r, small):
        pool = O.pool(r, r.choice([1, 1, 2]) if small else None, small)
        k = r.random()
        if k < (0.12 if small else 0.5):
            p = len(pool)
            pool = pool + [G.cheap(r)]
            op = {"n": pick(r, ("integrate", "integrate", "integrate_bf", "integrate_def")), "p": p, "q": 0}
        else:
            op = O.pick_op(r, len(pool), O.CACHED if k < 0.45 else O.OUTER if k < 0.85 else None)
        warm = [O.pick_op(r, len(pool), O.CACHED) for _ in range(r.randint(1, 3))] if r.random() < 0.3 else []
        m = r.choice([1, 1, 1, 2, 3])
        storm = r.random() < (0.15 if op["n"] in O.SEARCH and small else 0.07)  # what every interruption leaves behind adds up
        if storm:
            m = r.choice([20, 40, 60])
            pool[0] = O.deep(r)
            warm = []
            if op["n"] in O.SEARCH:
                m = r.choice([30, 60])
            elif r.random() < 0.7:
                op = O.pick_op(r, len(pool), O.CACHED, 0)
            else:
                op["p"] = 0
        cuts = [[pick(r, ("K", "M", "R")), pick(r, ("a", "h", "l", "l")), r.random(), r.random()] for _ in range(m)]
        rnd = {"pool": pool, "warm": warm, "op": op, "cuts": cuts, "probe": r.randrange(1 << 30)}
        return dict(rnd, storm=True) if storm else rnd

    def gen(self, r, i, tier):
        small = r.random() < 0.85
        return {"rounds": [self._round(r, small) for _ in range(r.choice([6, 8, 10]) if small else r.choice([1, 2, 3]))], "glob": r.randrange(1 << 30)}

    @staticmethod
    def _setup(rnd):
        ns = O.namespace()
        ps = O.build_pool(rnd["pool"], ns)
        with K.limits(200_000):
            for op in rnd["warm"]:
                O.run_op(op, ps, ns)
        return ns, ps

    @staticmethod
    def _later(rnd, ns, ps, ref=None):
        """What is computed afterwards: the operation itself, then some probes."""
        with K.limits(400_000):
            out = [O.run_op(rnd["op"], ps, ns)]
        r = random.Random(rnd["probe"])
        names = O.PROBES if r.random() < 0.2 else r.sample(O.PROBES, 4)
        return out + O.probe(ps, ns, limit=4000, names=names)

    @staticmethod
    def _globs(scn):
        r = random.Random(scn["glob"])
        return O.global_probe(O.GLOBALS if r.random() < 0.1 else r.sample(O.GLOBALS, 3))

    def _reference(self, scn):
        out = []
        for rnd in scn["rounds"]:
            ns, ps = self._setup(rnd)
            n0, h0 = K.st.n, K.st.h
            with K.limits(250_000):
                first = O.run_op(rnd["op"], ps, ns)
            w = (K.st.n - n0, K.st.h - h0)
            lines = []
            for c in rnd["cuts"]:
                if c[1] == "l":
                    if not lines and w[0] < 60_000:
                        ns, ps = self._setup(rnd)
                        with K.recording(w[0] + 10_000) as rec:
                            O.run_op(rnd["op"], ps, ns)
                        lines = K.strata(rec)
                    w = w + (K.choose(lines, c[2], c[3]) if lines else 1 + int(c[2] * w[0]),)
                else:
                    w = w + (1 + int(c[2] * w[0 if c[1] == "a" else 1]),)
            ns, ps = self._setup(rnd)
            out.append((first, w, self._later(rnd, ns, ps)))
        return out, self._globs(scn)

    def run(self, scn):
        res = Result()
        refs, globs = proc.forked(self._reference, scn, wall=self.WALL)
        broke = False
        for k, (rnd, ref) in enumerate(zip(scn["rounds"], refs)):
            if ref[0] == "stop":
                res.stat("rounds_skipped_too_long")
                continue
            if not self._play(res, rnd, k, *ref):
                broke = True
                break
        if not broke:
            for a, b in zip(self._globs(scn), globs):
                res.event(a[:200])
                if a != b and not a.endswith("stop") and not b.endswith("stop"):
                    res.viol("later-computation-elsewhere", "after %s: %s; in a process never interrupted: %s" % (
                        [(r_["pool"], O.OPS[r_["op"]["n"]][0]) for r_ in scn["rounds"]][-2:], a[:300], b[-300:]))
                    break
        return res.done()

    def _play(self, res, rnd, k, first, work, later):
        ns, ps = self._setup(rnd)
        src = O.OPS[rnd["op"]["n"]][0]
        what = "%s with P=%s, Q=%s" % (src, rnd["pool"][rnd["op"]["p"] % len(ps)], rnd["pool"][rnd["op"]["q"] % len(ps)])
        hit = []
        for (kind, unit, _, _), at in zip(rnd["cuts"], work[2:]):
            exc = KINDS[kind]("simulated")
            K.st.shield = 0
            if rnd.get("storm") and hit:  # each time on new objects
                ns, ps = self._setup(rnd)
            K.inject(exc, after=at if unit != "h" else None, after_hot=at if unit == "h" else None)
            n0 = K.st.n
            got = None
            try:
                with K.limits(600_000):
                    O.call(rnd["op"], ps, ns)
                got = "returned"
            except K.SimStop:
                got = "stop"
            except BaseException as ex:
                got = "same" if ex is exc else "exc:%s(%s)" % (type(ex).__name__, str(ex)[:80])
            fired, where = K.st.injected is not None, K.st.where
            K.disarm()
            res.d["points"] += K.st.n - n0
            if not fired:
                res.stat("cut_not_reached")
                continue
            res.fault(type(exc).__name__)
            hit.append(where)
            res.cov(where, kind)
            res.probe("cut_in_" + where.split(":")[0])
            res.event(k, rnd["op"]["n"], kind, where, got)
            if got != "same":
                res.viol("error-does-not-arrive", "%s raised at %s inside %s: the caller saw %s" % (type(exc).__name__, where, what, got))
                return False
        if hit:
            res.nontrivial(rnd["pool"], rnd["op"], hit)
        res.stat("rounds")
        again = self._later(rnd, ns, ps)
        for a, b in zip(again, later):
            if a != b and not a.endswith("stop") and not b.endswith("stop"):
                res.viol("later-computation", "%s interrupted at %s; later: %s; never interrupted: %s" % (what, hit, a[:300], b[:300]))
                return False
        if res.d["sample"] is None and hit:
            res.d["sample"] = {"operation": what, "interrupted_at": hit, "kinds": rnd["cuts"], "later": again[:3]}
        return True

    def shrink(self, scn):
        rs = scn["rounds"]
        if len(rs) > 1:
            for k in range(len(rs)):
                yield dict(scn, rounds=[rs[k]])
            for ys in list_shrinks(rs):
                if ys:
                    yield dict(scn, rounds=ys)
            return
        rnd = rs[0]
        if rnd["warm"]:
            yield dict(scn, rounds=[dict(rnd, warm=[])])
        if len(rnd["cuts"]) > 1:
            for ys in list_shrinks(rnd["cuts"]):
                if ys:
                    yield dict(scn, rounds=[dict(rnd, cuts=ys)])
        for kind in "KM":
            for i, c in enumerate(rnd["cuts"]):
                if c[0] > kind:
                    cs = list(rnd["cuts"])
                    cs[i] = [kind] + c[1:]
                    yield dict(scn, rounds=[dict(rnd, cuts=cs)])


# ------------------------------------------------------------------------------------------------------- C09
def spec(e):
    """Structure of an expression as plain data: class name and dataclass fields."""
    n = type(e).__name__
    if n == "Symbol":
        return ("Symbol", e.name)
    if n in ("Rat", "Float"):
        return (n, e.value)
    if not e.children():
        return (n,)
    out = [n]
    for f in dataclasses.fields(e):
        v = getattr(e, f.name)
        out.append((f.name, [spec(t) for t in v] if isinstance(v, list) else spec(v) if hasattr(v, "children") else ("raw", v)))
    return tuple(out)


def rebuild(s):
    """The same structure out of brand-new objects that remember nothing."""
    import simpy.expr as X

    cls = getattr(X, s[0])
    if s[0] == "Symbol":
        return cls(s[1])
    if s[0] in ("Rat", "Float"):
        return cls(s[1])
    if len(s) == 1:
        return cls()
    o = object.__new__(cls)
    for name, v in s[1:]:
        o.__dict__[name] = [rebuild(t) for t in v] if isinstance(v, list) else v[1] if v[0] == "raw" else rebuild(v)
    X.Expr.__post_init__(o)
    return o


class C09(Engine):
    PROP = "C09"
    RUNS_QUICK = 1000
    RUNS_THOROUGH = 40000
    MEASURE = "distinct (operation, classes of its operands, class of its result)"
    RULE = ("one run = one process with a history of 6-40 operations over a growing pool of shared expressions; non-trivial = a distinct "
            "(pool, operations) in which an operation was applied to the result of an earlier one")
    ASSUMPTIONS = ["an expression is the value of its dataclass fields (class, terms, base, exponent, inner, name, value)"]

    def gen(self, r, i, tier):
        pool = O.pool(r, r.choice([2, 3, 3, 4]), r.random() < 0.6)
        n = r.choice([8, 12, 16, 24, 32])
        ops = []
        for _ in range(n):
            op = O.pick_op(r, 1 << 20, O.CACHED if r.random() < 0.4 else None)
            if r.random() < 0.03:
                op["n"] = pick(r, sorted(O.SEARCH))
            if r.random() < 0.35:
                op["p"] = -1 - int(r.random() ** 2 * 4)  # something recent
            if r.random() < 0.2:
                op["q"] = -1 - int(r.random() ** 2 * 4)
            ops.append(op)
        if r.random() < 0.4:  # things easily taken for one another
            for _ in range(r.choice([1, 2, 3])):
                self._alike(r, pool, ops)
        return {"pool": pool, "ops": ops, "fresh": r.randrange(1 << 30)}

    @staticmethod
    def _alike(r, pool, ops):
        """Two calls that differ only in which of two look-alikes they are about, or only in an argument."""
        k = r.random()
        q = r.randrange(1 << 20)
        if k < 0.6:
            two = list(pick(r, O.ALIKE))
            if r.random() < 0.5:
                two.reverse()
            if r.random() < 0.3:
                f = r.choice(["sin(%s)", "(%s)**2", "x*(%s)", "1+(%s)", "e**(%s)", "(%s)*cos(x)"])
                two = [f % t for t in two]
            at = r.randrange(len(pool) + 1) if not pool or not any(s.find("p%d" % i) >= 0 for s in pool for i in range(9)) else len(pool)
            pool[at:at] = two
            n = O.pick_op(r, 1)["n"] if r.random() < 0.65 else pick(r, ("integrate", "integrate", "integrate_y", "integrate_def", "simplify"))
            new = [{"n": n, "p": at + j, "q": q, "v": 1} for j in (0, 1)]
            if n == "integrate" and r.random() < 0.4:
                new[1]["n"] = "integrate_y"
        else:
            n = list(pick(r, O.KIN))
            if r.random() < 0.5:
                n.reverse()
            p = r.randrange(len(pool))
            if n[0] in O.SEARCH and r.random() < 0.7:
                pool.append(r.choice([G.cheap(r), "x*cos(x*y)", "x*e**(x*y)", "log(x*y)", "x*y*sin(x+y)"]))
                p = len(pool) - 1
            new = [{"n": m, "p": p, "q": q, "v": 1} for m in n]
        for o in new:
            if o["n"].endswith(("_w", "_wf", "_ws")):
                o["w"] = q % len(O.PATTERNS)
        at = r.randrange(3)
        ops[at:at] = new  # while the pool is still what it was

    LIMIT = 60_000
    MAXPOOL = 24

    def _history(self, scn):
        """-> per operation (op, operand specs, outcome, what changed)"""
        from simpy.expr import Expr

        ns = O.namespace()
        ps = O.build_pool(scn["pool"], ns)
        with K.quiet():
            shape = [E.dump(p) for p in ps]
            text = [O.outcome(lambda: repr(p)) for p in ps]
            pats = ns["_pats"]
            pshape = [E.dump(p) for p in pats]
        out = []
        r = random.Random(scn["fresh"])
        for j, op in enumerate(scn["ops"]):
            p, q = op["p"] % len(ps), op["q"] % len(ps)
            rec = {"op": op, "p": p, "q": q, "changed": None, "P": E.dump(ps[p]), "Q": E.dump(ps[q])}
            sp = sq = None
            try:
                with K.quiet():
                    sp, sq = spec(ps[p]), spec(ps[q])
                    if E.dump(rebuild(sp)) != rec["P"] or E.dump(rebuild(sq)) != rec["Q"]:
                        sp = None
            except Exception:
                sp = None
            rec["spec"] = (sp, sq)
            o = {"n": op["n"], "p": p, "q": q, "w": op.get("w")}
            n0 = K.st.n
            val = None
            try:
                with K.limits(400_000 if op["n"] in O.SEARCH else self.LIMIT):
                    val = O.call(o, ps, ns)
                rec["out"] = "ok:" + E.dump(val)
            except K.SimStop:
                rec["out"] = "stop"
            except Exception as ex:
                rec["out"] = "exc:" + type(ex).__name__
            rec["points"] = K.st.n - n0
            with K.quiet():
                full = r.random() < 0.25 or j == len(scn["ops"]) - 1
                for m, x in enumerate(ps):
                    if E.dump(x) != shape[m]:
                        rec["changed"] = "member %d was %s and is now %s" % (m, shape[m], E.dump(x))
                        break
                    if full or m in (p, q):
                        t = O.outcome(lambda: repr(x))
                        if t != text[m]:
                            rec["changed"] = "member %d printed as %s and now prints as %s" % (m, text[m], t)
                            break
                for m, x in enumerate(pats):
                    if E.dump(x) != pshape[m]:
                        rec["changed"] = "pattern %s is now %s" % (pshape[m], E.dump(x))
            out.append(rec)
            if rec["changed"]:
                break
            if isinstance(val, (list, tuple)):
                val = next((v for v in val if isinstance(v, Expr)), None)
            if isinstance(val, Expr) and E.size(val) <= 60 and not any(n.startswith("any:") for n in E.names(val)):
                if len(ps) >= self.MAXPOOL:
                    del ps[0], shape[0], text[0]
                ps.append(val)
                with K.quiet():
                    shape.append(E.dump(val))
                    text.append(O.outcome(lambda: repr(val)))
                rec["joined"] = True
        # everything still on hand behaves like a fresh copy of itself
        return out

    def _fresh(self, sp, sq, n, w):
        ns = O.namespace()
        ps = [rebuild(sp), rebuild(sq)]
        if w is not None:
            O.build_patterns(ns)
        with K.limits(600_000):
            return O.run_op({"n": n, "p": 0, "q": 1, "w": w}, ps, ns)

    def run(self, scn):
        res = Result()
        hist = proc.forked(self._history, scn, wall=self.WALL)
        r = random.Random(scn["fresh"] + 1)
        pick_ = set(r.sample(range(len(hist)), min(len(hist), 7))) | {len(hist) - 1} | {j for j, h_ in enumerate(hist) if h_["op"].get("v")}
        chained = False
        for j, rec in enumerate(hist):
            op = rec["op"]
            src = O.OPS[op["n"]][0]
            res.event(j, op["n"], rec["out"][:200])
            res.d["points"] += rec["points"]
            res.fault("operation")
            res.cov(op["n"], rec["P"].split("(")[0], rec["Q"].split("(")[0] if "Q" in src else "", rec["out"].split("(")[0])
            chained = chained or rec["p"] >= len(scn["pool"])
            if rec["changed"]:
                res.viol("expression-changed", "step %d, %s with P=%s, Q=%s: %s" % (j, src, rec["P"], rec["Q"], rec["changed"]))
                break
            if j in pick_ and rec["spec"][0] is not None and rec["out"] != "stop":
                want = proc.forked(self._fresh, rec["spec"][0], rec["spec"][1], op["n"], op.get("w"), wall=self.WALL)
                res.fault("restart")
                if want != "stop" and want != rec["out"]:
                    res.viol("history-matters", "step %d, %s with P=%s, Q=%s gave %s; in a fresh process: %s" % (
                        j, src, rec["P"][:300], rec["Q"][:300], rec["out"][:300], want[:300]))
                    break
        if chained:
            res.nontrivial(scn["pool"], scn["ops"])
        res.d["sample"] = {"pool": scn["pool"], "results": [h_["out"][:80] for h_ in hist[:4]]}
        return res.done()

    def shrink(self, scn):
        ops = scn["ops"]
        n = len(ops)
        if n > 4:
            yield dict(scn, ops=ops[n // 2:])
            yield dict(scn, ops=ops[: n // 2])
        for i in range(n):
            if n > 1:
                yield dict(scn, ops=ops[:i] + ops[i + 1:])
        if len(scn["pool"]) > 1:
            for i in range(len(scn["pool"])):
                yield dict(scn, pool=scn["pool"][:i] + scn["pool"][i + 1:])
