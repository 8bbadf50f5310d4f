"""setup_cmd: the package loads under the simulator and one seed gives one execution."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import checks  # noqa: F401,E402
from sim import instrument, kernel, proc, search  # noqa: E402


def once():
    kernel.boot(3, 5)
    r = search.plain(search.do_search({"src": "x*e**x*sin(x)", "rng": 7, "clock": {"rate": 1e-6}}))
    return r["points"], r["hot"], r.get("repr"), r["elapsed"], r["reads"]


if __name__ == "__main__":
    instrument.compile_package()
    a, b = proc.forked(once), proc.forked(once)
    print("simpy under the simulator:", a)
    if a != b:
        print("not deterministic:", b)
        sys.exit(1)
