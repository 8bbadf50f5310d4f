"""One integration under the simulator: clock script, random state, exploration schedule, observation of its tree."""
import random
import sys

from . import kernel as K
from . import exprs as E

BUDGET = 2.0


class Markers:
    """Counts heuristic expansions (one per search step) through the first class of the HEURISTICS list."""

    def __init__(self):
        self.count = 0
        self.after = 0
        self.after_seen = 0
        self.available = False
        self.undo = None
        try:
            import simpy.transforms as T

            cls = T.HEURISTICS[0]
            orig = cls.__dict__["check"]
        except Exception:
            return
        self.available = True

        def check(obj, *a, **k):
            self.count += 1
            if K.clock.elapsed() >= BUDGET:
                self.after += 1
                # the search has read a clock since the budget was spent, and begins a step all the same
                if K.clock.read_log[-1][1] - K.clock.t0 >= BUDGET + 1e-6:
                    self.after_seen += 1
            return orig(obj, *a, **k)

        cls.check = check

        def undo():
            cls.check = orig

        self.undo = undo

    def close(self):
        if self.undo:
            self.undo()


class Capture:
    """A log object: remembers what the search hands it (and optionally passes it on)."""

    def __init__(self, inner=None):
        self.entries = []
        self.inner = inner

    def log(self, expr, time_spent, root, *a, **k):
        self.entries.append((expr, time_spent, root))
        if self.inner is not None:
            self.inner.log(expr, time_spent, root, *a, **k)


def attach_log(obj):
    import simpy.integration as I

    if not hasattr(I, "Integration") or not hasattr(I.Integration, "logger"):
        return False
    I.Integration.logger = obj
    return True


# ------------------------------------------------------------------------------------------ generated names
def learn():
    """-> lists that fill with the names of the symbols made from here on; and with those of the patterns."""
    import simpy.expr as X
    import simpy.regex as R

    made, keys = [], []
    orig = X.Symbol.__init__

    def init(self, *a, **k):
        orig(self, *a, **k)
        with K.quiet():
            made.append(self.name)

    X.Symbol.__init__ = init
    if hasattr(R, "Any_") and hasattr(R.Any_, "key"):
        orig2 = R.Any_.__init__

        def init2(self, *a, **k):
            orig2(self, *a, **k)
            with K.quiet():
                keys.append(repr(self))

        R.Any_.__init__ = init2
        if hasattr(R, "any_"):
            keys.append(repr(R.any_))
    return made, keys


def mask(text, names):
    """A warning may mention an intermediate variable; which name it has is chance."""
    for n in sorted(names, key=len, reverse=True):
        if n in text:
            text = text.replace(n, "<generated>")
    return text


# ------------------------------------------------------------------------------------- exploration schedules
def apply_schedule(sch):
    """sch: {"maxnest": int, "heur": seed, "drop": k, "rand": seed} -> list of what took effect.

    Only exploration order changes: the complexity threshold, the order / subset of the heuristics list and the
    choice of the next open sub-problem.  Anything that does not exist in this form is left alone."""
    import simpy.integration as I
    import simpy.transforms as T

    eff = []
    if sch.get("maxnest") is not None and hasattr(I.Integration, "DEPTH_FIRST_MAX_NESTING"):
        I.Integration.DEPTH_FIRST_MAX_NESTING = sch["maxnest"]
        eff.append("maxnest")
    if sch.get("heur") is not None and isinstance(getattr(T, "HEURISTICS", None), list):
        r = random.Random(sch["heur"])
        h = list(T.HEURISTICS)
        r.shuffle(h)
        d = min(sch.get("drop", 0), len(h) - 2)
        if d > 0:
            h = h[d:]
        T.HEURISTICS[:] = h
        eff.append("heuristics")
    if sch.get("rand") is not None and hasattr(I.Integration, "_get_next_node_post_heuristic"):
        r = random.Random(sch["rand"])
        orig = I.Integration._get_next_node_post_heuristic
        eps = sch.get("eps", 0.5)

        def choose(self, node, *a, **k):
            with K.quiet():
                root = node
                while root.parent is not None:
                    root = root.parent
                leaves = [l for l in root.unfinished_leaves if not l.is_stale]
                pick = r.random() < eps
            if leaves and pick:
                return leaves[r.randrange(len(leaves))]
            return orig(self, node, *a, **k)

        I.Integration._get_next_node_post_heuristic = choose
        eff.append("random-node")
    return eff


# --------------------------------------------------------------------------------------------- one search
def make_ns(names=None):
    ns = E.namespace()
    import simpy.expr as X

    for k, v in (names or {}).items():
        ns[k] = X.Symbol(v)
    return ns


def bounds_of(job, ns):
    v = ns[job.get("var", "x")]
    b = job.get("bounds")
    if not b:
        return v
    return (v, eval(b[0], ns), eval(b[1], ns))


def call_bounds(job, ns, expr):
    """What the caller passes: the variable may be left out if the integrand has exactly one symbol."""
    v = bounds_of(job, ns)
    if job.get("infer") and E.names(expr) == {ns[job.get("var", "x")].name}:
        return v[1:] if isinstance(v, tuple) else None
    return v


def do_search(job, ns=None, expr=None, want_obj=False, markers=True, warned=None, capture=None, catch=None):
    """Runs one integration; -> record (plain data; plus "obj"/"root"/"expr" when want_obj)."""
    ns = ns or make_ns(job.get("names"))
    rec = {}
    if expr is None:
        try:
            expr = eval(job["src"], ns)
        except K.SimStop:
            raise
        except Exception as ex:
            return {"kind": "build", "exc": type(ex).__name__}
    from simpy.expr import _cast

    try:
        expr = _cast(expr)
        bounds = call_bounds(job, ns, expr)
    except Exception as ex:
        return {"kind": "build", "exc": type(ex).__name__}
    if job.get("rng") is not None:
        K.seed_random(job["rng"])
    with K.quiet():
        rec["integrand"] = str(expr)
        rec["var"] = str(ns[job.get("var", "x")])
    mk = Markers() if markers else None
    cap = capture if capture is not None else Capture()
    log_on = attach_log(cap) if job.get("log", True) else False
    K.Warned.log = []
    clock = K.clock.load(job.get("clock", {}))
    if job.get("on_read"):
        clock.on_read = job["on_read"](cap)
    n0, h0 = K.st.n, K.st.h
    try:
        with K.limits(job.get("limit", 12_000_000)):
            res = ns["integrate"](expr, bounds, **job.get("opts", {}))
        if res is None:
            rec["kind"] = "none"
        else:
            rec["kind"] = "ok"
            rec["dump"] = E.dump(res)
            with K.quiet():
                rec["repr"] = repr(res)
    except K.SimStop:
        rec["kind"] = "stop"
        res = None
    except BaseException as ex:
        if catch is not None:  # the caller's own fault was to come out
            rec["caught"] = "same" if ex is catch else "%s: %s" % (type(ex).__name__, ex)
        elif not isinstance(ex, Exception):
            raise
        rec["kind"] = "exc"
        rec["exc"] = type(ex).__name__
        rec["msg"] = str(ex)[:200]
        rec["tb"] = _where(ex)
        res = None
    n1 = K.st.n
    rec["points"] = n1 - n0
    rec["hot"] = K.st.h - h0
    rec["reads"] = clock.reads
    rec["elapsed"] = clock.elapsed()
    rec["span"] = (n1 - clock.n0) if clock.n0 is not None else 0
    rec["read_points"] = [p for p, _ in clock.read_log][:400]
    cr = clock.crossing(BUDGET)
    rec["crossing"] = cr
    rec["after_points"] = rec["span"] - cr if cr is not None else None
    rec["faults"] = dict(clock.fired)
    rec["warn"] = [[c, t] for _, c, t in K.Warned.log]
    if mk is not None:
        rec["steps"] = mk.count if mk.available else None
        rec["steps_after"] = mk.after if mk.available else None
        rec["steps_after_seen"] = mk.after_seen if mk.available else None
        mk.close()
    if log_on:
        rec["logged"] = [t for _, t, _ in cap.entries]
    if want_obj:
        rec["obj"] = res
        rec["expr"] = expr
        rec["roots"] = [r for _, _, r in cap.entries]
        rec["ns"] = ns
        rec["capture"] = cap
    return rec


def _where(ex):
    tb = ex.__traceback__
    out = []
    while tb is not None:
        c = tb.tb_frame.f_code
        out.append(c.co_name)
        tb = tb.tb_next
    return ">".join(out[-3:])


def outcome(rec):
    """What the caller sees (for comparison between runs)."""
    if rec["kind"] == "ok":
        return "ok:" + rec["dump"]
    if rec["kind"] == "exc":
        return "exc:" + rec["exc"]
    return rec["kind"]


def plain(rec):
    return {k: v for k, v in rec.items() if k not in ("obj", "expr", "roots", "ns", "capture")}


# ------------------------------------------------------------------------------------------- tree snapshots
def walk(node):
    yield node
    for c in node.children:
        yield from walk(c)


def own_status(node):
    """(solved, failed) by an independent reading of the AND/OR tree."""
    t = node.type
    if t == "SOLUTION":
        return True, False
    if t == "FAILURE":
        return False, True
    ch = node.children
    if not ch:
        return False, False
    st = [own_status(c) for c in ch]
    if t == "OR":
        return any(s for s, _ in st), all(f for _, f in st)
    return all(s for s, _ in st), any(f for _, f in st)


def tree_text(root):
    out = []

    def w(n, d):
        out.append("%s%s|%s|%s|%s|%s|%s" % (" " * d, type(n.transform).__name__, n.type, n.is_filler, E.dump(n.expr),
                                            E.dump(n.var), E.dump(n.solution)))
        for c in n.children:
            w(c, d + 1)

    with K.quiet():
        w(root, 0)
    return "\n".join(out)


def path_transforms(root):
    """Names of the transforms on the path of the answer."""
    out = set()

    def w(n):
        if n.transform is not None:
            out.add(type(n.transform).__name__)
        ch = [c for c in n.children if own_status(c)[0]]
        if n.type == "OR":
            ch = [c for c in ch if c.solution is not None][:1] or ch[:1]
        for c in ch:
            w(c)

    with K.quiet():
        w(root)
    return out
