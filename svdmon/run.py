"""python -m svdmon.run Cnn [--replay FILE]"""
import importlib
import os
import sys


def main():
    prop = sys.argv[1]
    os.environ.setdefault("PYTHONHASHSEED", "0")
    mod = importlib.import_module(f"svdmon.checks.{prop.lower()}")
    from svdmon import harness
    sys.stdout.flush()
    rc = harness.main(mod, sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)


main()
