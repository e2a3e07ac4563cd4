#!/opt/venv/bin/python
"""Run one check: check.py C01 [quick|thorough]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-cache"  # never read or write stale bytecode
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO_SRC", "/repo/pysrc"))
if os.environ.get("VERIF_ENV"):
    from mc import envs  # noqa: E402

    envs.apply()
os.environ.setdefault("TZ", "UTC")
import time  # noqa: E402

time.tzset()


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from mc import core

    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    sys.exit(core.main(mod, tier, seed))


if __name__ == "__main__":
    main()
