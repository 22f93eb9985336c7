"""C01 reproducibility."""
import json
import os
import random
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from .. import boot, envs
from ..core import Prop, Sub, Violation, HarnessError, require

envs.prime()


def rollout(case, episodes):
    env, obs = envs.build(case)
    out = [envs.plain(obs), envs.scene(env)]
    for e in range(episodes):
        if e:
            out.append(envs.plain(env.reset()))
        out.append(tuple(envs.run(env, envs.actions_of(case))))
    env.close()
    return tuple(out)


def check_twin(case, rec):
    random.seed(case["noise"])
    np.random.seed(case["noise"])
    a = rollout(case, case["episodes"])
    random.seed(case["noise"] + 1)
    np.random.seed(case["noise"] + 1)
    [np.random.rand() for _ in range(case["noise"] % 7)]
    b = rollout(case, case["episodes"])
    d = envs.first_difference(a, b)
    require(d is None, "two runs of the same seed, configuration and actions differ at %s", d)
    rec.hit(case["env"])


def check_history(case, rec):
    """Seeding makes the next episodes independent of whatever the instance did before."""
    a = rollout(case, 1)
    env, _ = envs.build(dict(case, seed=case["other"]))
    envs.run(env, envs.actions_of(case)[:case["before"]])
    for _ in range(case["noise"] % 3):
        env.reset()
    env.seed(case["seed"])
    obs = env.reset()
    b = (envs.plain(obs), envs.scene(env), tuple(envs.run(env, envs.actions_of(case))))
    d = envs.first_difference(a, b)
    require(d is None, "an instance that already ran, then was seeded and reset, differs from a new one at %s", d)
    rec.hit(case["env"])


def check_seeds_matter(case, rec):
    """Different seeds do give different scenes (for the environments whose scene is random)."""
    scenes = set()
    for k in range(6):
        env, _ = envs.make(case["env"], dict(case["config"]), case["seed"] + 17 * k)
        s = envs.scene(env)
        scenes.add(repr([v[1:4] for v in s[2]] + [o[1] for o in s[3]]))
    require(len(scenes) > 1, "six different seeds gave the same initial scene in %s", case["env"])
    rec.hit(case["env"])


class Remote:
    """A process with another string hash seed, playing the same cases."""
    proc = None

    @classmethod
    def ask(cls, case):
        if cls.proc is None or cls.proc.poll() is not None:
            cls.proc = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "hv.remote"], cwd=boot.HERE,
                                        env=boot.child_env(hashseed="12345"), stdin=subprocess.PIPE,
                                        stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        cls.proc.stdin.write(json.dumps(case) + "\n")
        cls.proc.stdin.flush()
        line = cls.proc.stdout.readline()
        if not line:
            raise HarnessError("remote process ended")
        return json.loads(line)


def check_process(case, rec):
    mine = repr(rollout(case, 1))
    got = Remote.ask(case)
    if "error" in got:
        raise HarnessError(got["error"])
    theirs = got["out"]
    if mine != theirs:
        k = next((i for i, (x, y) in enumerate(zip(mine, theirs)) if x != y), min(len(mine), len(theirs)))
        raise Violation("a process with another PYTHONHASHSEED differs: ...%s... vs ...%s..."
                        % (mine[max(0, k - 80):k + 80], theirs[max(0, k - 80):k + 80]))
    rec.hit(case["env"])


def with_extra(**extra):
    @st.composite
    def s(draw):
        c = draw(envs.env_case(max_steps=5))
        for k, v in extra.items():
            c[k] = draw(v)
        return c
    return s()


PROP = Prop(
    "C01",
    "A case is an environment id, a configuration (action and observation types, traffic, frequencies, horizon), a "
    "seed and an action sequence; it is non-trivial when at least one step was played and both sides were compared "
    "on every observation, reward, flag, info and vehicle state.",
    [
        Sub("twin", lambda: with_extra(noise=st.integers(0, 1000), episodes=st.integers(1, 2)), check_twin, 130,
            clause="same id, configuration, seed and actions: identical outcomes, whatever the global random state"),
        Sub("history", lambda: with_extra(noise=st.integers(0, 5), other=st.integers(0, 1000),
                                          before=st.integers(0, 5)), check_history, 90,
            clause="seed() then reset() erases the past of the instance"),
        Sub("process", lambda: envs.env_case(max_steps=5), check_process, 70, shards=4,
            clause="another process, with another hash seed, gives the same outcomes"),
        Sub("seeds", lambda: st.builds(
            lambda e, s: {"env": e, "config": {"vehicles_count": 5} if e == "highway-v0" else {}, "seed": s},
            st.sampled_from(["highway-v0", "roundabout-v0", "intersection-v0", "two-way-v0", "parking-v0",
                             "summon-v0"]), st.integers(0, 10 ** 6)), check_seeds_matter, 12,
            clause="the seed does select the scene"),
    ],
    ["the process is first put in the state left by creating one intersection environment (known finding of C02)"])
