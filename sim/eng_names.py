"""C04: the same calls in simulated processes that differ only in random state, set order and what was drawn before."""
import random
import re

from . import exprs as E
from . import gen as G
from . import kernel as K
from . import ops as O
from . import proc
from . import search as S
from .engine import Engine, Result
from .eng_deadline import pick
from .runner import list_shrinks

SPECIAL_NAMES = ["u", "u_0", "u_1", "u_m", "u_z", "u_Zz9", "u_aaaaaaaaaa", "u_9999999999", "U", "any_x", "any_find", "any_m", "factor_a", "t", "v", "X", "i", "f",
                 "theta", "x1", "\\phi", "uu", "z", "_", "x_1", "A", "zz", "any", "w", "tt", "ub", "b_u"]


class Extreme(random.Random):
    """A generator in a state that draws from the ends of its range (for a while)."""

    def __init__(self, seed):
        self.left = 0
        super().__init__(seed)
        self.side = random.Random(seed + 1)
        self.left = 1 << 30

    def random(self):
        v = super().random()
        if self.left:
            self.left -= 1
            k = self.side.random()
            if k < 0.25:
                return v * 0.016
            if k < 0.5:
                return 1 - (1 - v) * 0.016
        return v


def amb(r):
    """Integrands for which more than one entry of a heuristic's table (or more than one substitution) fits."""
    a, b = r.choice(["1-x**2", "1-x**2", "4-x**2"]), r.choice(["1+x**2", "x**2+1", "x**2-1"])
    return r.choice(["1/((%s)*(%s))", "sqrt(%s)*(%s)", "(%s)/(%s)", "1/(sqrt(%s)*(%s))", "x**2/(%s)+1/(%s)", "x/((%s)*(%s))", "(%s)**F(-3,2)*(%s)", "(%s)**2/(%s)**2",
                     "sin(x)*cos(x)*(%s)/(%s)", "x**3*(%s)**F(1,2)*(%s)**F(-1,2)"]) % (a, b)


def install(inst):
    for n in ("random", "uniform", "randint", "choice", "randrange", "sample", "shuffle", "choices", "getrandbits", "seed", "getstate", "setstate", "randbytes"):
        if hasattr(inst, n):
            setattr(random, n, getattr(inst, n))
    random._inst = inst


class C04(Engine):
    PROP = "C04"
    RUNS_QUICK = 500
    RUNS_THOROUGH = 30000
    MEASURE = "distinct (operation, variant kind, class of result)"
    RULE = ("one run = 3-12 calls made in 3-5 simulated processes that differ in random state at import and at each call, and in set order; "
            "non-trivial = a distinct (expressions, calls, names) whose calls drew random names or iterated a set")
    ASSUMPTIONS = ["random numbers come from the random module (or os.urandom)", "the order of symbols() and of other answers that are sets is not specified; their members are",
                   "sets are iterated only through set objects made by the package under its own names (literals, comprehensions, set())"]

    def gen(self, r, i, tier):
        names = {}
        if r.random() < 0.55:
            ids = ["x", "y", "a", "b", "c", "k", "w"]
            ns = r.sample(SPECIAL_NAMES, len(ids))
            names = {k: v for k, v in zip(ids, ns) if r.random() < 0.6}
        pool = []
        for _ in range(r.choice([1, 2, 2, 3])):
            k = r.random()
            pool.append(G.cheap(r) if k < 0.2 else G.integrand(r) if k < 0.45 else r.choice(O.SPECIAL) if k < 0.65 else O.rand_expr(r, r.choice([2, 3])))
        ops = []
        for _ in range(r.choice([3, 4, 6, 8])):
            op = O.pick_op(r, len(pool))
            k = r.random()
            if k < 0.35:
                op["n"] = pick(r, ("integrate", "integrate", "integrate", "integrate_bf", "integrate_def", "integrate_y"))
            elif k < 0.65:
                op["n"] = pick(r, O.OUTER)
            ops.append(op)
        if r.random() < 0.3:  # something for the alternatives of a heuristic to choose between
            pool[0] = amb(r)
        variants = []
        adv = None
        if r.random() < 0.6:
            adv = {"user": r.randrange(1 << 20), "name": r.randrange(1 << 20), "rng": r.randrange(1 << 30), "mode": pick(r, ("reset", "reset", "plain"))}
        for _ in range(r.choice([1, 2] if adv else [2, 3, 4])):
            variants.append({"import": r.randrange(1 << 30) if r.random() < 0.7 else 0, "order": r.randrange(1, 1 << 20) if r.random() < 0.7 else 0,
                             "rng": r.randrange(1 << 30), "mode": pick(r, ("plain", "reset", "extreme", "extreme", "skip"))})
        return {"pool": pool, "ops": ops, "names": names, "variants": variants, "adv": adv}

    def _calls(self, scn, var):
        """One process: -> [(outcome, names in the result that occur in no operand)]"""
        K.boot(var["import"], 0)
        K.set_order(var["order"])
        K.seed_random(var["rng"])
        if var["mode"] == "extreme":
            install(Extreme(var["rng"]))
        ns = O.namespace()
        import simpy.expr as X

        for k, v in scn["names"].items():
            ns[k] = X.Symbol(v)
        learned = S.learn()
        if var["mode"] == "skip":
            for _ in range(var["rng"] % 50):
                random.random()
        ps = O.build_pool(scn["pool"], ns)
        user = set()
        for p in ps:
            user |= E.names(p)
        user |= {scn["names"].get(k, k) for k in "xya"} | {"b", "c", "k", "w"} | set(scn["names"].values())
        occ = sorted(k for k, v in ns.items() if type(v).__name__ == "Symbol" and any(v.name in E.names(p) for p in ps))
        del learned[0][:]
        st0 = random.getstate()
        out = []
        K.Warned.log = []
        for op in scn["ops"]:
            if var["mode"] == "reset":
                K.seed_random(var["rng"])
            n0 = K.st.n
            foreign = []
            try:
                with K.limits(150_000 if op["n"] in O.SEARCH else 40_000):
                    v = O.call(op, ps, ns)
                if op["n"] in ("anys_w", "mul_w", "eq_w"):
                    v = type(v).__name__  # mentions the key of any_
                if op["n"] in ("symbols", "anys"):
                    v = sorted(E.dump(t) for t in v)
                o = "ok:" + E.dump(v)
                if hasattr(v, "children") and op["n"] != "anys":
                    foreign = sorted(E.names(v) - user)
                elif isinstance(v, str):
                    foreign = []
            except K.SimStop:
                o = "stop"
            except Exception as ex:
                o = "exc:" + type(ex).__name__
            out.append((o, foreign, K.st.n - n0))
        drew = st0 != random.getstate()
        made = [n for n in dict.fromkeys(learned[0] + learned[1]) if n not in user]
        warn = [S.mask(t, made) for _, _, t in K.Warned.log]
        return out, warn, drew, made, occ, user

    def run(self, scn):
        res = Result()
        base = {"import": 0, "order": 0, "rng": 1, "mode": "plain"}
        ref, rwarn, drew, _, _, _ = proc.forked(self._calls, scn, base, wall=self.WALL)
        for op, (o, foreign, n) in zip(scn["ops"], ref):
            res.d["points"] += n
            res.event(op["n"], o[:200])
            if foreign:
                res.viol("foreign-name", "%s gave %s, which mentions %s" % (self._show(scn, op), o[:400], foreign))
        sensitive = drew
        for var in scn["variants"]:
            got, warn, _, _, _, _ = proc.forked(self._calls, scn, var, wall=self.WALL)
            res.fault("process_restart")
            res.fault("random_state_" + var["mode"])
            if var["order"]:
                res.fault("set_order")
                sensitive = True
            if var["import"]:
                res.fault("import_time_random_state")
            for op, (a, _, _), (b, foreign, n) in zip(scn["ops"], ref, got):
                res.d["points"] += n
                res.cov(op["n"], var["mode"], bool(var["order"]), b.split("(")[0])
                if foreign:
                    res.viol("foreign-name", "%s gave %s, which mentions %s" % (self._show(scn, op), b[:400], foreign))
                if a != b and a != "stop" and b != "stop":
                    res.viol("depends-on-process", "%s gave %s with %s; %s with %s" % (self._show(scn, op), a[:350], base, b[:350], var))
                if (a == "stop") != (b == "stop"):
                    res.stat("one_side_out_of_steps")
            if warn != rwarn and not any(o == "stop" for o, _, _ in ref + got):
                res.viol("warning-depends-on-process", "%s: warnings %s with %s; %s with %s" % ([self._show(scn, o) for o in scn["ops"]][:3], rwarn, base, warn, var))
        if scn.get("adv"):
            self._adversary(scn, res)
        if sensitive:
            res.nontrivial(scn["pool"], scn["ops"], scn["names"])
        res.d["sample"] = {"pool": scn["pool"], "names": scn["names"], "results": [o[:100] for o, _, _ in ref]}
        return res.done()

    def _adversary(self, scn, res):
        """A user symbol gets a name the library made up itself in a process with the same random state."""
        a = scn["adv"]
        var = {"import": 0, "order": 0, "rng": a["rng"], "mode": a["mode"]}
        out, _, _, names, occ, used = proc.forked(self._calls, scn, var, wall=self.WALL)
        names = [n for n in names if n and n[-1].isalnum()]
        if not names or not occ:
            res.stat("no_generated_name")
            return
        made = [n for n in names if not n.startswith("any_")]
        if made and a["name"] % 4:
            names = made
        name = names[(a["name"] >> 2) % len(names)]
        user = occ[a["user"] % len(occ)]
        near = name[:-1] + chr(ord(name[-1]) - 1)  # sorts where the other one sorts
        if near in used:
            res.stat("neighbouring_name_taken")
            return
        got = {}
        for n in (near, name):
            got[n] = proc.forked(self._calls, dict(scn, names=dict(scn["names"], **{user: n})), var, wall=self.WALL)
        again = name in got[near][3]
        res.fault("user_name_is_a_generated_name")
        if again:
            res.fault("user_name_is_generated_again")
        pat = re.compile(r"(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])" % re.escape(name))
        for op, (x, fx, _), (y, fy, n) in zip(scn["ops"], got[near][0], got[name][0]):
            res.d["points"] += n
            if op["n"] in ("latex", "debug_repr") or "stop" in (x, y):
                continue
            y = pat.sub(lambda m: near, y)
            res.cov(op["n"], "adversary", again, y.split("(")[0])
            if fx or fy:
                res.viol("foreign-name", "%s gave %s, which mentions %s" % (self._show(scn, op), (y if fy else x)[:400], fx + fy))
            if x != y:
                res.viol("depends-on-name", "%s gave %s when %s is named %r; %s when it is named %r (seed %d before every call)" % (
                    self._show(scn, op), x[:350], user, near, y[:350], name, a["rng"]))

    def _show(self, scn, op):
        n = len(scn["pool"])
        return "%s with P=%s, Q=%s, names=%s" % (O.OPS[op["n"]][0], scn["pool"][op["p"] % n], scn["pool"][op["q"] % n], scn["names"])

    def shrink(self, scn):
        for key in ("ops", "variants"):
            if len(scn[key]) > 1:
                for ys in list_shrinks(scn[key]):
                    if ys:
                        yield dict(scn, **{key: ys})
        if scn.get("adv"):
            yield dict(scn, adv=None)
            if scn["variants"]:
                yield dict(scn, variants=[])
        for k in scn["names"]:
            yield dict(scn, names={a: b for a, b in scn["names"].items() if a != k})
        for i, v in enumerate(scn["variants"]):
            for k, d in (("import", 0), ("order", 0), ("mode", "plain")):
                if v[k] != d:
                    yield dict(scn, variants=scn["variants"][:i] + [dict(v, **{k: d})] + scn["variants"][i + 1:])
