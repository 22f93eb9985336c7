"""Worker process: runs generated cases of one property and answers one JSON line per job."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

from . import boot
from .core import Violation, HarnessError, Rec, case_key

CASE_CPU = float(os.environ.get("HV_CASE_CPU", "120"))
SHRINK_WALL = 25.0


class CaseTimeout(BaseException):
    pass


class Fail(Exception):
    """Single failure type seen by Hypothesis, raised at a single place."""


def _alarm(signum, frame):
    raise CaseTimeout()


def judge(sub, case, rec):
    """Run one case. Returns None, or the message of the violation."""
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    try:
        sub.check(case, rec)
        return None
    except Violation as e:
        return str(e)
    except HarnessError:
        raise
    except CaseTimeout:
        return "no result after %.0f s of CPU time" % CASE_CPU
    except Exception as e:  # noqa: BLE001
        from hypothesis.errors import UnsatisfiedAssumption
        if isinstance(e, UnsatisfiedAssumption):
            raise
        root = os.path.realpath(os.path.join(boot.REPO, "highway_env")) + os.sep
        tb = traceback.extract_tb(e.__traceback__)
        if any(os.path.realpath(f.filename).startswith(root) for f in tb):
            return "unexpected %s on a valid input: %s\n%s" % (
                type(e).__name__, e, "".join(traceback.format_list(tb[-6:])))
        if isinstance(e, (LookupError, TypeError, ValueError, ArithmeticError)):
            # The check could not read what the code answered (absent entry, wrong shape, type or kind of number).
            return "the outcome cannot be interpreted, %s: %s\n%s" % (
                type(e).__name__, e, "".join(traceback.format_list(tb[-3:])))
        raise HarnessError("".join(traceback.format_exception(type(e), e, e.__traceback__))[-3500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def run_gen(sub, job, deadline):
    from hypothesis import given, settings, seed, HealthCheck, Phase, assume  # noqa: F401
    st = {"evaluations": 0, "truncated": 0, "labels": {}, "samples": []}
    keys = set()
    failed = {}          # case key -> message
    first_fail = [None]
    last = [None]
    err = [None]

    def body(case):
        k = case_key(case)
        if err[0] is not None:
            return
        if k in failed:
            last[0] = (case, failed[k])
            raise Fail()
        now = time.time()
        if first_fail[0] is not None:
            if now - first_fail[0] > SHRINK_WALL:
                return
        elif now > deadline:
            st["truncated"] += 1
            return
        rec = Rec()
        try:
            msg = judge(sub, case, rec)
        except HarnessError as e:
            err[0] = str(e) + "\ncase: " + json.dumps(case)[:2000]
            return
        if first_fail[0] is None:
            st["evaluations"] += 1
            for lb in set(rec.labels):
                st["labels"][lb] = st["labels"].get(lb, 0) + 1
            if rec.nontrivial:
                if k not in keys and len(keys) in (max(1, job["n"] // 4), max(2, job["n"] // 2)):
                    st["samples"].append(case)
                keys.add(k)
        if msg is not None:
            failed[k] = msg
            if first_fail[0] is None:
                first_fail[0] = time.time()
            last[0] = (case, msg)
            raise Fail()

    test = given(sub.strategy())(body)
    test = settings(max_examples=job["n"], database=None, deadline=None, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                    print_blob=False)(test)
    test = seed(job["seed"])(test)
    status, message, case = "ok", "", None
    try:
        test()
    except Fail:
        pass
    except BaseException as e:  # noqa: BLE001
        if last[0] is None:
            err[0] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3500:]
    if last[0] is not None:
        # smallest failing case seen
        status, (case, message) = "violation", last[0]
    elif err[0] is not None:
        status, message = "error", err[0]
    st.update(status=status, message=message, case=case, keys=sorted(keys))
    return st


def main():
    pid, deadline = sys.argv[1], float(sys.argv[2])
    proto = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # whatever the code under test prints goes to stderr
    sys.stdout = sys.stderr
    signal.signal(signal.SIGPROF, _alarm)
    boot.ensure_hypothesis()
    boot.import_repo()
    prop = importlib.import_module("hv.props." + pid.lower()).PROP
    for line in sys.stdin:
        job = json.loads(line)
        if job["kind"] == "describe":
            proto.write(json.dumps({
                "pid": prop.pid, "rule": prop.rule, "assumptions": prop.assumptions,
                "subs": [{"name": s.name, "quick": s.quick, "thorough": s.thorough, "shards": s.shards,
                          "clause": s.clause} for s in prop.subs]}) + "\n")
            proto.flush()
            continue
        sub = prop.sub(job["sub"])
        if job["kind"] == "fixture":
            res = {"status": "ok", "message": "", "case": job["case"]}
            try:
                msg = judge(sub, job["case"], Rec())
                if msg is not None:
                    res.update(status="violation", message=msg)
            except HarnessError as e:
                res.update(status="error", message=str(e))
        else:
            res = run_gen(sub, job, deadline)
        proto.write(json.dumps(res) + "\n")
        proto.flush()


if __name__ == "__main__":
    main()
