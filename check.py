#!/opt/venv/bin/python
"""Entry point of every check: see sim/runner.py."""
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-salt-sim-pycache"   # never read a stale .pyc of the code under test
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get("PYTHONHASHSEED") is None and "SALT_SIM_KEEP_HASH" not in os.environ:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

if __name__ == "__main__":
    try:
        from props import PROPS
        from sim import runner
        rc = runner.main(sys.argv, PROPS)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
