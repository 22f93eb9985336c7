"""C03 the gym contract: spaces, observations, rewards, flags, infos."""
import copy
import math
import numbers

import numpy as np
from hypothesis import strategies as st

from .. import envs
from ..core import Prop, Sub, require

envs.prime()


def finite(x):
    if isinstance(x, dict):
        return all(finite(v) for v in x.values())
    if isinstance(x, (tuple, list)):
        return all(finite(v) for v in x)
    return bool(np.all(np.isfinite(np.asarray(x, dtype=float))))


def same(a, b):
    return envs.plain(a) == envs.plain(b)


def judge_obs(env, obs, what):
    require(finite(obs), "%s has values that are not finite: %s", what, obs)
    sp = env.observation_space
    require(type(sp).__name__ in ("Box", "Dict", "Tuple"), "observation space %s", sp)
    require(sp.contains(obs), "%s is outside the observation space %s: %s", what, sp, obs)


def expected_shape(case):
    """Shape of a non multi-agent observation from its configuration, where it is fixed by it."""
    o = case["config"].get("observation")
    if not o:
        return None
    if o["type"] == "Kinematics":
        return (o.get("vehicles_count", 5), len(o.get("features", ["presence", "x", "y", "vx", "vy"])))
    if o["type"] == "OccupancyGrid":
        size, step = o.get("grid_size", [[-27.5, 27.5]] * 2), o.get("grid_step", [5, 5])
        return (len(o.get("features", ["presence", "vx", "vy"])), int((size[1][1] - size[1][0]) // step[1]),
                int((size[0][1] - size[0][0]) // step[0]))
    if o["type"] == "TimeToCollision":
        f = case["config"].get("policy_frequency", 1)
        return (3, 3, int(o.get("horizon", 10) * f))
    return None


def judge_step(env, case, action, res, what):
    require(isinstance(res, tuple) and len(res) == 4, "%s returned %s", what, res)
    obs, reward, done, info = res
    judge_obs(env, obs, "the observation of " + what)
    agents = "agents_rewards" in info
    if case["env"] == "intersection-multi-agent-v1":
        require(isinstance(reward, tuple) and isinstance(done, tuple) and len(reward) == len(done) ==
                envs.case_agents(case), "%s: per-agent reward %s, termination %s", what, reward, done)
        require(all(isinstance(d, (bool, np.bool_)) for d in done), "%s: termination flags %s", what, done)
        require(finite(reward), "%s: rewards %s", what, reward)
    else:
        if case["env"] == "lane-keeping-v0":
            reward = np.squeeze(reward)
        require(np.ndim(reward) == 0 and math.isfinite(float(reward)), "%s: reward %r", what, reward)
        require(isinstance(done, (bool, np.bool_)), "%s: termination flag %r", what, done)
    require(isinstance(info, dict), "%s: info %r", what, info)
    if case["env"] != "lane-keeping-v0":
        v = env.unwrapped.vehicle
        require("speed" in info and float(info["speed"]) == float(v.speed), "%s: info speed %r, the vehicle drives at %r",
                what, info.get("speed"), v.speed)
        require("crashed" in info and bool(info["crashed"]) == bool(v.crashed), "%s: info crashed %r", what,
                info.get("crashed"))
        require("action" in info and same(info["action"], action), "%s: info action %r for %r", what, info.get("action"),
                action)
        if case["env"].startswith(("highway", "intersection", "two-way")):
            require("cost" in info and np.ndim(info["cost"]) == 0 and float(info["cost"]) >= 0, "%s: info cost %r", what,
                    info.get("cost"))
        if case["env"].startswith("intersection"):
            require(agents and len(info["agents_rewards"]) == len(info["agents_dones"]) == envs.case_agents(case),
                    "%s: per-agent information %s", what, info)
        if case["env"].startswith(("parking", "summon")):
            require("is_success" in info, "%s: no is_success in %s", what, info)


def check_contract(case, rec):
    """Every observation lies in the declared space, and every step returns what gym promises."""
    env, obs = envs.build(case)
    space, aspace = env.observation_space, env.action_space
    judge_obs(env, obs, "the first observation")
    shape = expected_shape(case)
    if shape is not None:
        require(np.shape(obs) == shape, "observation of shape %s, configured as %s", np.shape(obs), shape)
    kept = []
    for k, a in enumerate(envs.actions_of(case)):
        require(env.action_space.contains(a), "the action space %s does not contain %r", env.action_space, a)
        kept.append((obs, copy.deepcopy(obs)))
        res = env.step(a)
        judge_step(env, case, a, res, "step %d" % k)
        obs = res[0]
        require(env.observation_space == space and env.action_space == aspace, "the spaces changed during the episode")
        rec.hit(case["env"])
        if not isinstance(res[2], tuple) and res[2]:
            break
    for k, (o, before) in enumerate(kept):
        require(same(o, before), "observation %d was modified by later steps", k)
    obs = env.reset()
    judge_obs(env, obs, "the observation after a second reset")
    require(env.observation_space == space and env.action_space == aspace, "the spaces changed at reset")


def check_actions(case, rec):
    """The action space has one entry per configured axis or label; all its samples are playable."""
    env, _ = envs.build(case)
    kind = envs.case_kind(case)

    def judge(sp, k):
        if k[0] == "d":
            require(type(sp).__name__ == "Discrete" and sp.n == k[1], "action space %s for %s meta-actions", sp, k[1])
        elif k[0] == "c":
            require(type(sp).__name__ == "Box" and sp.shape == (k[1],) and np.all(sp.low == -1) and np.all(sp.high == 1),
                    "action space %s for %d continuous axes", sp, k[1])
        else:
            require(type(sp).__name__ == "Tuple" and len(sp.spaces) == envs.case_agents(case), "action space %s for %d "
                    "agents", sp, envs.case_agents(case))
            for s in sp.spaces:
                judge(s, k[1])
    judge(env.action_space, kind)
    env.action_space.seed(case["sample"])
    for k in range(3):
        a = env.action_space.sample()
        res = env.step(a)
        judge_step(env, case, a, res, "the step of the sampled action %r" % (a,))
        if res[2] if not isinstance(res[2], tuple) else any(res[2]):
            break
    rec.hit(case["env"])


def check_registered(case, rec):
    """gym.make gives a playable environment for every documented id; its episodes end by the registered horizon."""
    import gym
    env = gym.make(case["env"])
    env.seed(case["seed"])
    obs = env.reset()
    require(env.observation_space.contains(obs), "the first observation of gym.make(%s) is outside its space", case["env"])
    env.action_space.seed(case["seed"])
    for k in range(case["n"]):
        o, r, d, i = env.step(env.action_space.sample())
        require(env.observation_space.contains(o), "an observation of gym.make(%s) is outside its space", case["env"])
        if any(d) if isinstance(d, tuple) else d:
            break
    env.close()
    rec.hit(case["env"])


@st.composite
def with_sample(draw):
    c = draw(envs.env_case(max_steps=1, ids=envs.ALL_IDS))
    c["sample"] = draw(st.integers(0, 10 ** 6))
    return c


PROP = Prop(
    "C03",
    "A case is an environment id, a working configuration (observation and action types, agents, frequencies), a seed "
    "and actions; non-trivial when at least one step was judged.",
    [
        Sub("contract", lambda: envs.env_case(ids=envs.ALL_IDS, max_steps=6), check_contract, 300, 6000,
            clause="observations in the declared, constant space and not aliased; scalar finite rewards, boolean flags, "
            "documented infos"),
        Sub("actions", with_sample, check_actions, 150, 3000, clause="the action space matches the configuration and all "
            "its samples are playable"),
        Sub("registered", lambda: st.builds(lambda e, s, n: {"env": e, "seed": s, "n": n},
                                            st.sampled_from([e for e in envs.ALL_IDS if e != "highway-v0"]),
                                            st.integers(0, 999), st.integers(1, 6)), check_registered, 40, 300,
            clause="registered ids"),
    ],
    ["continuous actions are not generated for the environments that cannot play them (known findings)",
     "goal environments are observed with goal observations; time-to-collision needs discrete speeds"])
