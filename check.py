#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property of /repo's current source.

Builds the MIR dumper and the type-checked program of /repo (both CPU configurations of the project's CI) in a
temporary directory, runs the rules of the property over it, and writes evidence/<ID>.json.
"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)
import report  # noqa: E402
from mir import Program  # noqa: E402
from absint import BudgetExceeded  # noqa: E402

CPUS = ("x86-64", "x86-64-v3")


LIMIT = 780             # seconds


class TimeUp(Exception):
    pass


def time_up(sig, frame):
    raise TimeUp("the analysis did not end within %d seconds" % LIMIT)


def main():
    signal.signal(signal.SIGALRM, time_up)
    signal.alarm(LIMIT)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    R = report.Report(pid)
    R.tier = tier
    facts = os.environ.get("ND_FACTS")
    tmp = None
    try:
        if not facts:
            tmp = tempfile.mkdtemp(prefix="ndcheck-%s-" % pid)
            facts = tmp
            p = subprocess.run(["bash", os.path.join(HERE, "lib", "facts.sh"), tmp], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode != 0:
                sys.stderr.write(p.stdout[-4000:])
                R.violation("build", "the tree does not build, so nothing about it can be shown", "cargo check --bin nd")
        if not R.violations:
            mod = importlib.import_module("rules." + pid.lower())
            for cpu in CPUS:
                R.cpu = cpu
                mod.run(Program(os.path.join(facts, cpu, "nd.json")), R)
            R.explanation = (mod.__doc__ or "").strip()
            R.assumptions = getattr(mod, "ASSUMPTIONS", [])
    except (BudgetExceeded, TimeUp) as e:
        R.undecided.append(str(e))
    except Exception:
        import traceback
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        R.violation("analysis-failed", "the analysis could not be completed on this tree: " + tb.strip().splitlines()[-1],
                    "check.py")
    finally:
        signal.alarm(0)
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    return R.finish(HERE, tier, time.time() - t0)


if __name__ == "__main__":
    sys.exit(main())
