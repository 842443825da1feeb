#!/opt/venv/bin/python
"""Runs every check twice over the same seeds, with different worker counts and hash seeds, and compares the event-log
hashes of all runs.  tools/determinism.py [RUNS] [ID...]"""
import os
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
runs = sys.argv[1] if len(sys.argv) > 1 else "2000"
ids = sys.argv[2:] or ["C%02d" % i for i in range(1, 23)]
bad = 0
for pid in ids:
    res = []
    for workers, hs in (("8", "0"), ("3", "12345")):
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "digests")
            env = dict(os.environ, SALT_SIM_RUNS=runs, SALT_SIM_WORKERS=workers, PYTHONHASHSEED=hs, SALT_SIM_DIGESTS=f,
                       SALT_SIM_KEEP_HASH="1")
            r = subprocess.run([sys.executable, "-B", "check.py", "run", pid, "quick"], cwd=here, env=env,
                               capture_output=True, text=True)
            res.append((r.returncode, open(f).read().split() if os.path.exists(f) else None))
    same = res[0] == res[1] and res[0][0] == 0
    bad += not same
    a, b = (set(x[1] or ()) for x in res)
    print(pid, "identical" if same else "DIFFERENT", len(a), "distinct event logs", "" if same else
          "%d only in the first, %d only in the second, exit codes %s" % (len(a - b), len(b - a), [x[0] for x in res]), flush=True)
sys.exit(1 if bad else 0)
