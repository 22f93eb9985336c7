#!/usr/bin/env python3
"""Run the check of one property:  run_check.py <ID> [--replay FILE] [--jobs N]

Exit 0: held on everything explored (known findings are printed, not raised).
Exit 1: a line `VIOLATION property=<ID> replay=<path>` was printed.
Exit 2: the check itself could not run (never a verdict).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"

if __name__ == "__main__":
    if os.path.exists(VENV) and sys.prefix != "/opt/venv" and not os.environ.get("HV_REEXEC"):
        os.environ["HV_REEXEC"] = "1"
        os.execv(VENV, [VENV] + sys.argv)
    if os.environ.get("PYTHONHASHSEED") != "0" and not os.environ.get("HV_REEXEC2"):
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["HV_REEXEC2"] = "1"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    from hv import runner
    sys.exit(runner.main(sys.argv[1:]))
