"""Writes /verif/MANIFEST.json from the engines that exist and the properties that do not have one."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sim.checks import ENGINES  # noqa: E402

NOTE = {
    "C01": "Every generated (integrand, options, clock script) is run on the real search under a virtual clock and compared with the same search on a frozen clock; assumes time is read through the time module and passes only at yield points.",
    "C02": "Work done after the virtual clock passes the budget is counted in yield points and in heuristic steps of the real search; wall-clock steps are injected separately from elapsed time.",
    "C03": "The warning of every failed search is compared with an independent reading of the AND/OR tree it ended with and with the same search on a frozen clock.",
    "C04": "Every generated history is executed in several simulated processes that differ only in random state, set order and names, and must agree structurally.",
    "C05": "Answers along generated exploration schedules of the real search are compared numerically with an evaluator independent of the library; assumes exploration order is steered through the listed attributes.",
    "C06": "Real threads, one running at a time, switched at seeded points of the real code; results compared with each thread run alone; assumes interpreter-level atomicity of single container operations.",
    "C07": "As C06 for whole integrations, plus sequential histories with expiring clocks.",
    "C08": "KeyboardInterrupt, MemoryError and RecursionError are raised at seeded points of the real code; every later call is compared with a process that was never interrupted.",
    "C09": "Seeded operation histories over shared expressions; structure and printed form of everything obtained earlier are re-read, results compared with fresh processes.",
    "C10": "The real logger writes to a scratch directory through a file layer that injects OSErrors at open, at the n-th write, at flush and at close; dumps are also interrupted at seeded points and preempted by integrating threads; contents compared with a reference model of the log.",
    "C11": "The same integration with and without log, debug output and tree printing (writers that fail at seeded lines; trees cut off by the virtual clock) must agree.",
    "C13": "Every generated integration (degenerate coincidences, decimals, arbitrary compositions) along generated exploration schedules and clocks must end in an answer made of finite quantities or in None; explicit refusals (NotImplementedError for f(x)**g(x)) are not errors.",
    "C12": "The live search tree is read at every clock reading and at seeded points in between, and checked against an independent AND/OR evaluation.",
}
NA = "a pure function of its arguments: no schedule, clock, fault, crash point or history enters the statement, so there is nothing for a simulator to decide; sampling inputs would be ordinary property-based testing"

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ENGINES:
        checks.append({"property": i, "quick_cmd": "./check.py %s" % i, "thorough_cmd": "./check.py %s --tier thorough" % i,
                       "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
                       "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA if int(i[1:]) >= 20 else "not built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B tools/selfcheck.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the yield points are inserted by an import hook (sim/instrument.py) into the code compiled from /repo's working tree; every seam is installed by sim/kernel.py."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
