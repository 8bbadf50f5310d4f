#!/opt/venv/bin/python
"""check.py <property> [--replay FILE] ...: see sim/runner.py"""
import os
import sys

# The simulator decides every random choice; a bigger nursery only makes short-lived PyPy processes faster.
if "PYPY_GC_NURSERY" not in os.environ:
    os.environ["PYPY_GC_NURSERY"] = "4M"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import checks, runner  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) < 2 or sys.argv[1] not in checks.ENGINES:
        print("usage: check.py %s [options]" % "|".join(sorted(checks.ENGINES)))
        sys.exit(2)
    sys.exit(runner.main(checks.ENGINES[sys.argv[1]](), sys.argv[2:]))
