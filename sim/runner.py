"""Seeded batch runner: generates scenarios, runs each in a pristine forked process, shrinks, replays, reports.

    runner.main(property)             run the batch            exit 0 / 1 (VIOLATION line) / 2 (harness error)
    runner.main(property, --replay F) re-execute one replay file in this fresh process
Every scenario is a pure function of (VERIF_SEED, property, index); its execution is a pure function of the scenario
and the code in /repo.
"""
import argparse
import collections
import hashlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys

from . import instrument
from . import kernel as K
from . import proc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def rng_for(seed, prop, i):
    h = hashlib.sha256(("%s/%s/%s" % (seed, prop, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def _clear_pyc_guard():
    sys.dont_write_bytecode = True


class Batch:
    def __init__(self, eng, seed, tier, runs, workers, cap_s, digest=False):
        self.eng, self.seed, self.tier, self.runs, self.workers = eng, seed, tier, runs, workers
        self.cap_s = cap_s
        self.digest = digest
        self.stats = collections.Counter()
        self.cov = set()
        self.nontrivial = set()
        self.done = 0
        self.sim_time = 0.0
        self.points = 0
        self.viol = []
        self.known = collections.Counter()
        self.errors = []
        self.samples = []
        self.digests = {}

    def one(self, i):
        """In the worker: generate and execute run i in a forked child."""
        rng = rng_for(self.seed, self.eng.PROP, i)
        scn = self.eng.gen(rng, i, self.tier)
        for attempt in (1, 2):
            try:
                return scn, proc.forked(self.eng.run, scn, wall=self.eng.WALL * attempt)
            except proc.ChildTimeout as ex:
                err = ex
            except proc.HarnessError as ex:
                return scn, {"error": "%s: %s" % (type(ex).__name__, ex)}
        return scn, {"error": "wall-clock timeout: %s" % err}

    def _worker(self, idx_fd, out_fd):
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        while True:
            b = os.read(idx_fd, 4)
            if len(b) < 4:
                break
            i = int.from_bytes(b, "big")
            scn, res = self.one(i)
            res["i"] = i
            if res.get("viol") or res.get("error") or i < 40:
                res["scn"] = scn
            data = pickle.dumps(res, 2)
            data = len(data).to_bytes(4, "big") + data
            while data:
                n = os.write(out_fd, data)
                data = data[n:]
        os._exit(0)

    def run(self):
        start = K.REAL_PERF()
        idx_r, idx_w = os.pipe()
        outs = {}
        pids = []
        for _ in range(self.workers):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(idx_w)
                    os.close(r)
                    for fd in outs:
                        os.close(fd)
                    self._worker(idx_r, w)
                except BaseException:
                    import traceback

                    traceback.print_exc()
                finally:
                    os._exit(4)
            os.close(w)
            outs[r] = b""
            pids.append(pid)
        nxt = 0
        fed = 0
        inflight = 0
        stop = False
        idx_open = True
        while outs:
            if idx_open:
                while not stop and nxt < self.runs and inflight < self.workers * 3:
                    os.write(idx_w, nxt.to_bytes(4, "big"))
                    nxt += 1
                    inflight += 1
                if stop or nxt >= self.runs:
                    os.close(idx_w)
                    idx_open = False
                    if stop:  # take back what no worker has picked up yet
                        while select.select([idx_r], [], [], 0)[0]:
                            b = os.read(idx_r, 4)
                            if len(b) < 4:
                                break
                            inflight -= 1
            ready, _, _ = select.select(list(outs), [], [], 1.0)
            for fd in ready:
                c = os.read(fd, 1 << 20)
                if not c:
                    os.close(fd)
                    del outs[fd]
                    continue
                buf = outs[fd] + c
                while len(buf) >= 4:
                    n = int.from_bytes(buf[:4], "big")
                    if len(buf) < 4 + n:
                        break
                    self._absorb(pickle.loads(buf[4:4 + n]))
                    inflight -= 1
                    buf = buf[4 + n:]
                outs[fd] = buf
            if not stop and (self.viol or K.REAL_PERF() - start > self.cap_s or len(self.errors) > 20):
                stop = True
                if not self.viol:
                    self.stats["stopped_early_by_wall_clock"] += 1
        os.close(idx_r)
        for p in pids:
            _, stt = os.waitpid(p, 0)
            if stt:
                self.errors.append("worker ended with status %d" % stt)
        self.wall = K.REAL_PERF() - start

    def _absorb(self, res):
        if res.get("error"):
            self.errors.append("run %d: %s" % (res["i"], res["error"]))
            return
        self.done += 1
        for k, v in res.get("stats", {}).items():
            self.stats[k] += v
        self.sim_time += res.get("sim_time", 0.0)
        self.points += res.get("points", 0)
        self.cov.update(res.get("cov", ()))
        self.nontrivial.update(res.get("nontrivial", ()))
        for k in res.get("known", ()):
            self.known[k] += 1
        if res.get("viol"):
            self.viol.append((res["i"], res["scn"], res["viol"]))
        if res["i"] < 40 and len(self.samples) < 6 and res.get("sample") is not None:
            self.samples.append({"run": res["i"], "scenario": res.get("scn"), "observed": res["sample"]})
        if self.digest:
            self.digests[res["i"]] = res.get("digest", "")


# ------------------------------------------------------------------------------------------------- shrinking
def shrink(eng, scn, kind, cap_s=60.0):
    end = K.REAL_PERF() + cap_s
    steps = 0
    tried = 0
    seen = set()

    def fails(c):
        try:
            res = proc.forked(eng.run, c, wall=eng.WALL)
        except proc.HarnessError:
            return False
        return any(v["kind"] == kind for v in res.get("viol", ()))

    progress = True
    while progress and K.REAL_PERF() < end:
        progress = False
        for c in eng.shrink(scn):
            if K.REAL_PERF() > end:
                break
            key = json.dumps(c, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            if fails(c):
                scn = c
                steps += 1
                progress = True
                break
    return scn, steps, tried


def list_shrinks(xs):
    """Drop halves, then single elements."""
    n = len(xs)
    if n > 3:
        yield xs[: n // 2]
        yield xs[n // 2:]
    for i in range(n):
        yield xs[:i] + xs[i + 1:]


# ---------------------------------------------------------------------------------------------------- known
def known_list(prop):
    """[(key, text)] of findings recorded (not repaired) for prop."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line[len("finding: property=%s " % prop):]
                key, _, text = rest.partition(" ")
                out.append((key.split("=", 1)[1], text))
    return out


# ----------------------------------------------------------------------------------------------------- main
def replay_file(eng, path):
    with open(path) as f:
        data = json.load(f)
    res = proc.forked(eng.run, data["scenario"], wall=eng.WALL * 2)
    return data, res


def main(eng, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--digest")
    ap.add_argument("--one", type=int)
    a = ap.parse_args(argv)
    sys.dont_write_bytecode = True
    import warnings

    warnings.simplefilter("ignore")
    os.makedirs(OUT, exist_ok=True)
    t0 = K.REAL_PERF()
    try:
        instrument.compile_package()
        K.boot(0, 0)
        eng.prepare()
    except Exception:
        import traceback

        traceback.print_exc()
        print("HARNESS-ERROR property=%s cannot load the package" % eng.PROP)
        return 2

    if a.replay:
        data, res = replay_file(eng, a.replay)
        for v in res.get("viol", ()):
            print("  %s: %s" % (v["kind"], v["detail"]))
        if any(v["kind"] == data["violation"]["kind"] for v in res.get("viol", ())):
            print("VIOLATION property=%s replay=%s" % (eng.PROP, os.path.abspath(a.replay)))
            return 1
        print("replay of %s: no violation" % a.replay)
        return 0
    if a.one is not None:
        scn = eng.gen(rng_for(a.seed, eng.PROP, a.one), a.one, a.tier)
        print(json.dumps(scn))
        print(json.dumps(proc.forked(eng.run, scn, wall=eng.WALL), default=str))
        return 0

    known = known_list(eng.PROP)
    runs = a.runs or (eng.RUNS_THOROUGH if a.tier == "thorough" else eng.RUNS_QUICK)
    cap = 7200 if a.tier == "thorough" else 420
    b = Batch(eng, a.seed, a.tier, runs, a.workers, cap, bool(a.digest))
    b.run()
    code = 0
    report = None
    for key, text in known:
        try:
            still = eng.known_still_fails(key)
        except Exception as ex:
            b.errors.append("known finding %s: %r" % (key, ex))
            continue
        if still:
            print("KNOWN-FINDING: property=%s %s" % (eng.PROP, text))
    if b.viol:
        b.viol.sort(key=lambda v: v[0])
        for i, scn, viols in b.viol[:4]:
            kind = viols[0]["kind"]
            small, steps, tried = shrink(eng, scn, kind, 60.0 if a.tier == "quick" else 300.0)
            for cand, sh in ((small, True), (scn, False)):
                res = None
                try:
                    res = proc.forked(eng.run, cand, wall=eng.WALL)
                except proc.HarnessError:
                    continue
                hit = [v for v in res.get("viol", ()) if v["kind"] == kind]
                if not hit:
                    continue
                path = os.path.join(OUT, "replay-%s-%d-%d.json" % (eng.PROP, a.seed, i))
                with open(path, "w") as f:
                    json.dump({"property": eng.PROP, "seed": a.seed, "run": i, "scenario": cand, "violation": hit[0],
                               "trace": res.get("trace"), "digest": res.get("digest"), "shrunk": sh,
                               "shrink_steps": steps, "shrink_tried": tried, "original_scenario": scn}, f, indent=1)
                rc = subprocess.call([sys.executable, os.path.join(VERIF, "check.py"), eng.PROP, "--replay", path],
                                     stdout=subprocess.DEVNULL, cwd=VERIF)
                if rc == 1:
                    report = (hit[0], path)
                    break
            if report:
                break
            b.errors.append("violation of run %d did not replay: %s" % (i, viols[0]))
        if report:
            v, path = report
            print("%s: %s" % (v["kind"], v["detail"]))
            print("VIOLATION property=%s replay=%s" % (eng.PROP, path))
            code = 1
    if b.errors and code == 0:
        code = 2
        for e in b.errors[:10]:
            print("HARNESS-ERROR property=%s %s" % (eng.PROP, e))
    wall = K.REAL_PERF() - t0
    faults = {k[6:]: v for k, v in sorted(b.stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(b.stats.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(b.stats.items()) if not k.startswith(("fault:", "probe:"))}
    ev = {
        "property": eng.PROP, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
        "level": "exploration", "wall_s": round(wall, 2), "violations": 1 if report else 0,
        "assumptions": eng.ASSUMPTIONS,
        "coverage": {
            "evaluations": b.done,
            "distinct_nontrivial": len(b.nontrivial),
            "rule": eng.RULE,
            "samples": b.samples[:4] or [{"note": "no sample"}],
            "runs_per_hour": int(b.done / max(b.wall, 1e-9) * 3600),
            "seeds": "VERIF_SEED=%d, run indices 0..%d; one derived seed per run" % (a.seed, max(0, b.done - 1)),
            "simulated_seconds": round(b.sim_time, 1),
            "yield_points_executed": b.points,
            "faults_injected": faults,
            "reach_probes": probes,
            "distinct_states": {"measure": eng.MEASURE, "count": len(b.cov)},
            "counts": other,
            "known_findings_met": dict(b.known),
            "real_code": eng.REAL, "stubs": eng.STUBS,
            "workers": a.workers, "harness_errors": len(b.errors),
        },
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % eng.PROP)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % eng.PROP))
    if a.digest:
        with open(a.digest, "w") as f:
            for i in sorted(b.digests):
                f.write("%d %s\n" % (i, b.digests[i]))
    print("property=%s runs=%d nontrivial=%d states=%d wall=%.1fs exit=%d" % (
        eng.PROP, b.done, len(b.nontrivial), len(b.cov), wall, code))
    return code
