#!/opt/venv/bin/python
"""Soak the rare branches of the generators: rare.py ID [RUNS [SEED]].

Every choice with a probability below 1.5 % is made often here, so that a generator mistake in a rarely drawn configuration
(which would be a false alarm once in tens of thousands of runs) shows up in minutes.  Not a registered check."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

from props import PROPS
from sim import core, runner

pid = sys.argv[1]
runs = int(sys.argv[2]) if len(sys.argv) > 2 else 300
os.environ["VERIF_SEED"] = sys.argv[3] if len(sys.argv) > 3 else "1"
Stream = core.Stream
chance, wpick = Stream.chance, Stream.wpick
Stream.chance = lambda self, p: chance(self, 0.3 if 0 < p < 0.015 else p)


def boosted(self, items):
    total = sum(w for w, _ in items)
    return wpick(self, [(total * 0.25 if 0 < w < 0.015 * total else w, v) for w, v in items])


Stream.wpick = boosted
prop = PROPS[pid]
prop.quick = runs
rc = runner.main(["check.py", "run", pid, "quick"], PROPS)
sys.stdout.flush()
os._exit(rc)
