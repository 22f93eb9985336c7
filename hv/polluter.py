"""Server of C02: every rollout is played in its own fork of a process that imported the package and used nothing yet.

Requests and answers are JSON lines. A request names cases to play alone and histories in which they are mixed."""
import json
import os
import pickle
import signal
import sys

from . import boot

PARAMS = ("DISTANCE_WANTED", "COMFORT_ACC_MAX", "COMFORT_ACC_MIN")


def forked(f, seconds=90):
    """f() in a child; its result, or {"error": ...}."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(seconds)
            try:
                res = ("ok", f())
            except Exception:  # noqa: BLE001
                import traceback
                res = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as out:
                pickle.dump(res, out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as inp:
        data = inp.read()
    os.waitpid(pid, 0)
    if not data:
        return ("died", None)
    return pickle.loads(data)


def classes(cls):
    out = [cls]
    for c in cls.__subclasses__():
        out += classes(c)
    return out


def snapshot():
    from highway_env.vehicle.behavior import IDMVehicle
    return [(c, k, c.__dict__.get(k)) for c in classes(IDMVehicle) for k in PARAMS]


def put_back(snap):
    for c, k, v in snap:
        if v is None:
            if k in c.__dict__:
                delattr(c, k)
        else:
            setattr(c, k, v)


def main():
    proto = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    boot.ensure_hypothesis()
    boot.import_repo()
    from . import envs
    from highway_env.utils import class_from_path
    from highway_env.vehicle.behavior import IDMVehicle
    primed = []

    def prime(cases):
        """What creating the intersections among these cases is known to do."""
        if not primed:
            def values():
                envs.make("intersection-v0", {}, 0)
                return [getattr(IDMVehicle, k) for k in PARAMS]
            kind, v = forked(values)
            primed.append(v if kind == "ok" else None)
        for c in cases:
            if c["env"].startswith("intersection") and primed[0]:
                cls = class_from_path(c["config"].get("other_vehicles_type", "highway_env.vehicle.behavior.IDMVehicle"))
                for k, v in zip(PARAMS, primed[0]):
                    setattr(cls, k, v)

    def play(c):
        env, obs = envs.build(c)
        return (envs.plain(obs), envs.scene(env), tuple(envs.run(env, envs.actions_of(c))))

    def pollution(job):
        if job["restore"]:
            alone = [forked(lambda: play(c)) for c in job["victims"]]
        else:
            alone = [forked(lambda: [play(c) for c in job["victims"]])]
            if alone[0][0] == "ok":
                alone = [("ok", x) for x in alone[0][1]]
        bad = next((x for x in alone if x[0] != "ok"), None)
        if bad:
            return {"error": bad[1]} if bad[0] == "error" else {"died": True}

        def after():
            snap = snapshot()
            for c in job["polluters"]:
                play(c)
            if job["restore"]:
                put_back(snap)
            out = []
            for c in job["victims"]:
                out.append(play(c))
                if job["restore"]:
                    put_back(snap)
            return out
        kind, res = forked(after)
        if kind != "ok":
            return {"error": res} if kind == "error" else {"died": True}
        for c, b, x in zip(job["victims"], alone, res):
            d = envs.first_difference(b[1], x)
            if d:
                return {"diff": "%s seed %s: %s" % (c["env"], c["seed"], d)}
        return {"diff": None}

    def mixed(job):
        cases = job["cases"]

        def alone(c):
            prime(cases)
            return play(c)

        def together():
            prime(cases)
            made = [envs.build(c) for c in cases]
            out = [[envs.plain(obs), None, []] for _, obs in made]
            for c, (env, _), o in zip(cases, made, out):
                o[1] = envs.scene(env)
            todo = [list(envs.actions_of(c)) for c in cases]
            over = [False] * len(cases)
            for k in list(job["order"]) + [i for i in range(len(cases)) for _ in todo[i]]:
                if k >= len(cases) or over[k] or len(out[k][2]) >= len(todo[k]):
                    continue
                got = envs.run(made[k][0], [todo[k][len(out[k][2])]])
                out[k][2] += got
                over[k] = done_of(got[0])
            return out

        def done_of(step):
            return step[2] is True or isinstance(step[2], tuple) and any(step[2])
        single = [forked(lambda: alone(c)) for c in cases]
        bad = next((x for x in single if x[0] != "ok"), None)
        if bad:
            return {"error": bad[1]} if bad[0] == "error" else {"died": True}
        kind, res = forked(together)
        if kind != "ok":
            return {"error": res} if kind == "error" else {"died": True}
        for k, (c, a, b) in enumerate(zip(cases, single, res)):
            a = a[1]
            d = envs.first_difference((a[0], a[1], tuple(a[2])), (b[0], b[1], tuple(b[2][:len(a[2])])))
            if d:
                return {"diff": "%s (environment %d of %d): %s" % (c["env"], k, len(cases), d)}
        return {"diff": None}

    for line in sys.stdin:
        job = json.loads(line)
        try:
            res = pollution(job) if job["kind"] == "pollution" else mixed(job)
        except Exception:  # noqa: BLE001
            import traceback
            res = {"harness": traceback.format_exc()}
        proto.write(json.dumps(res) + "\n")
        proto.flush()


if __name__ == "__main__":
    main()
