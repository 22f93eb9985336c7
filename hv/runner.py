"""Parent process: plan, dispatch to workers, collect, write evidence, decide the exit code."""
import json
import os
import queue
import subprocess
import sys
import threading
import time

from . import boot
from .core import derive_seed, HarnessError

QUICK_WALL = 600.0
# how much of the quick case counts to run per property, so that every quick check uses some 20 to 40 s
SHARE = {"C01": 1.6, "C03": 2, "C04": 1.7, "C05": 1.3, "C06": 1.4, "C08": 2, "C09": 1.5, "C10": 2, "C11": 1.5, "C12": 1.6,
         "C13": 2, "C14": 2, "C15": 2, "C16": 2, "C17": 2, "C18": 1.3, "C19": 1.6, "C20": 2.5, "C22": 2.2, "C23": 2, "C24": 2.2,
         "C33": 2}
THOROUGH_WALL = 6 * 3600.0


def load_findings(pid):
    out = []
    path = os.path.join(boot.HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: "):
                    d = json.loads(line[len("finding: "):])
                    if d["property"] == pid:
                        out.append(d)
    return out


class Worker:
    def __init__(self, pid, deadline):
        self.proc = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "hv.worker", pid, str(deadline)],
            cwd=boot.HERE, env=boot.child_env(), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, text=True)
        self.err = []
        t = threading.Thread(target=self._drain, daemon=True)
        t.start()

    def _drain(self):
        for line in self.proc.stderr:
            self.err.append(line)
            del self.err[:-60]

    def run(self, job):
        self.proc.stdin.write(json.dumps(job) + "\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            self.proc.wait()
            time.sleep(0.2)
            raise HarnessError("worker ended (rc %s) during %s\n%s"
                               % (self.proc.returncode, {k: v for k, v in job.items() if k != "case"},
                                  "".join(self.err[-25:])))
        return json.loads(line)

    def stop(self):
        try:
            self.proc.kill()
        except OSError:
            pass


def plan(prop, tier, seed):
    jobs = []
    for s in prop["subs"]:
        n = s["quick"] if tier == "quick" else s["thorough"]
        scale = float(os.environ.get("HV_SCALE", "1")) * (SHARE.get(prop["pid"], 1) if tier == "quick" else 1)
        n = max(1, int(n * scale))
        shards = s["shards"] or max(1, min(8, n // 10))
        if tier != "quick":
            shards = max(shards, min(64, n // 50))
        shards = min(shards, n)
        per = [n // shards + (1 if i < n % shards else 0) for i in range(shards)]
        for i, k in enumerate(per):
            if k:
                jobs.append({"kind": "gen", "sub": s["name"], "shard": i, "n": k,
                             "seed": derive_seed(seed, prop["pid"], s["name"], i)})
    # interleave the sub-checks so that a truncated run still touches all of them
    jobs.sort(key=lambda j: (j["shard"], j["sub"]))
    return jobs


def main(argv):
    pid = argv[0]
    replay = None
    njobs = int(os.environ.get("HV_JOBS", str(min(8, os.cpu_count() or 1))))
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    if "--jobs" in argv:
        njobs = int(argv[argv.index("--jobs") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    deadline = t0 + (QUICK_WALL if tier == "quick" else float(os.environ.get("HV_WALL", THOROUGH_WALL)))
    first = Worker(pid, deadline)
    try:
        prop = first.run({"kind": "describe"})
    except HarnessError as e:
        print("ERROR: cannot load the check of %s: %s" % (pid, e))
        return 2

    if replay:
        with open(replay) as f:
            rp = json.load(f)
        w = first
        try:
            res = w.run({"kind": "fixture", "sub": rp["sub"], "case": rp["case"]})
        finally:
            w.stop()
        if res["status"] == "violation":
            print(res["message"])
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(replay)))
            return 1
        if res["status"] == "error":
            print("ERROR:", res["message"])
            return 2
        print("replay passes")
        return 0

    findings = load_findings(pid)
    jobs = [{"kind": "fixture", "sub": f["sub"], "case": f["case"], "finding": i}
            for i, f in enumerate(findings)] + plan(prop, tier, seed)
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    results, errors = [], []
    stop = threading.Event()
    lock = threading.Lock()
    workers = []
    spare = [first]

    def loop():
        try:
            with lock:
                w = spare.pop() if spare else None
            w = w or Worker(pid, deadline)
        except Exception as e:  # noqa: BLE001
            errors.append(str(e))
            stop.set()
            return
        with lock:
            workers.append(w)
        while not stop.is_set():
            try:
                j = q.get_nowait()
            except queue.Empty:
                break
            try:
                r = w.run(j)
            except HarnessError as e:
                if not stop.is_set():
                    errors.append(str(e))
                    stop.set()
                break
            r["job"] = j
            with lock:
                results.append(r)
            if r["status"] == "error":
                errors.append(r["message"])
                stop.set()
            if r["status"] == "violation" and "finding" not in j:
                stop.set()
        w.stop()

    threads = [threading.Thread(target=loop, daemon=True) for _ in range(max(1, min(njobs, len(jobs))))]
    for t in threads:
        t.start()
    hard = deadline + 150
    while any(t.is_alive() for t in threads) and time.time() < hard:
        for t in threads:
            t.join(0.05)
        if stop.is_set():
            # a verdict (or an error) is in: end the rest
            for w in list(workers):
                w.stop()
            for t in threads:
                t.join(5)
            break
    hung = any(t.is_alive() for t in threads)
    for w in list(workers):
        w.stop()
    if hung and not stop.is_set():
        errors.append("a worker did not answer in time")

    known, violations = [], []
    evaluations, keys, labels, samples, truncated = 0, set(), {}, [], 0
    per_sub = {}
    for r in results:
        j = r["job"]
        if "finding" in j:
            f = findings[j["finding"]]
            if r["status"] == "violation":
                known.append("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
            continue
        evaluations += r["evaluations"]
        truncated += r.get("truncated", 0)
        keys.update(j["sub"] + k for k in r["keys"])
        d = per_sub.setdefault(j["sub"], {"evaluations": 0, "nontrivial": 0})
        d["evaluations"] += r["evaluations"]
        d["nontrivial"] += len(r["keys"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        if j["shard"] == 0 or len(samples) < 3:
            samples.extend({"sub": j["sub"], "case": c} for c in r["samples"][:1])
        if r["status"] == "violation":
            violations.append(r)

    known.sort()
    rc = 0
    if violations:
        v = violations[0]
        rdir = os.path.join(boot.HERE, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (pid, v["job"]["sub"]))
        with open(path, "w") as f:
            json.dump({"property": pid, "sub": v["job"]["sub"], "case": v["case"], "message": v["message"],
                       "seed": seed, "tier": tier}, f, indent=1)
        rc = 1
    elif errors:
        rc = 2
    elif evaluations == 0:
        errors.append("no case was run")
        rc = 2
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(keys),
            "rule": prop["rule"],
            "samples": samples[:12],
            "per_subcheck": per_sub,
            "situations": dict(sorted(labels.items())),
            "skipped_for_time": truncated,
            "clauses": {s["name"]: s["clause"] for s in prop["subs"]},
        },
        "assumptions": prop["assumptions"],
        "wall_s": round(wall, 3),
        "violations": len(violations),
        "known_findings": known,
        "errors": errors[:3],
    }
    edir = os.path.join(boot.HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    tmp = os.path.join(edir, ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(edir, pid + ".json"))
    for k in known:
        print(k)
    print("%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs%s"
          % (pid, tier, seed, evaluations, len(keys), wall,
             " skipped_for_time=%d" % truncated if truncated else ""))
    if rc == 1:
        print("sub-check:", violations[0]["job"]["sub"])
        print(violations[0]["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    elif rc == 2:
        for e in errors[:3]:
            print("ERROR:", e[:4000])
    return rc
