"""Plays C01 cases in a process with another hash seed (see props/c01.py)."""
import json
import os
import sys

from . import boot


def main():
    proto = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    boot.ensure_hypothesis()
    boot.import_repo()
    from .props import c01
    for line in sys.stdin:
        case = json.loads(line)
        try:
            res = {"out": repr(c01.rollout(case, 1))}
        except Exception as e:  # noqa: BLE001
            import traceback
            res = {"error": traceback.format_exc()}
        proto.write(json.dumps(res) + "\n")
        proto.flush()


if __name__ == "__main__":
    main()
