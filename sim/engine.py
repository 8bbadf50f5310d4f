"""Base of all engines (one per property)."""
import hashlib


class Engine:
    PROP = None
    WALL = 90.0  # seconds of real time allowed for one run (harness error beyond)
    RUNS_QUICK = 400
    RUNS_THOROUGH = 20000
    RULE = ""
    MEASURE = ""
    ASSUMPTIONS = []
    REAL = ["every module of simpy under /repo/src/simpy, compiled from the working tree with yield points inserted"]
    STUBS = ["time.* clocks (virtual clock)", "random / os.urandom (seeded)", "set iteration order (seeded)",
             "warnings.showwarning (recorder; the filters are the interpreter's)", "threading locks (simulated)", "breakpoint() (no-op)"]

    def prepare(self):
        pass

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, scn):
        raise NotImplementedError

    def shrink(self, scn):
        return iter(())

    def known_still_fails(self, key):
        return False


def h(*parts):
    return hashlib.blake2b("|".join(str(p) for p in parts).encode(), digest_size=8).hexdigest()


class Result:
    """Accumulates what a run reports."""

    def __init__(self):
        self.d = {"viol": [], "stats": {}, "cov": [], "nontrivial": [], "known": [], "sim_time": 0.0, "points": 0,
                  "sample": None, "digest": ""}
        self.log = []

    def viol(self, kind, detail):
        self.d["viol"].append({"kind": kind, "detail": str(detail)[:1500]})

    def stat(self, k, n=1):
        if n:
            self.d["stats"][k] = self.d["stats"].get(k, 0) + n

    def fault(self, k, n=1):
        self.stat("fault:" + k, n)

    def probe(self, k, n=1):
        self.stat("probe:" + k, n)

    def cov(self, *parts):
        self.d["cov"].append(h(*parts))

    def nontrivial(self, *parts):
        self.d["nontrivial"].append(h(*parts))

    def event(self, *parts):
        self.log.append(" ".join(str(p) for p in parts))

    def done(self):
        self.d["digest"] = hashlib.blake2b("\n".join(self.log).encode(), digest_size=12).hexdigest()
        self.d["trace"] = self.log[-60:]
        return self.d
