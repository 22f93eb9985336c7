"""C29 several agents in one environment."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import envs
from ..core import Prop, Sub, require, require_close


@st.composite
def inner_obs(draw, env_id, discrete):
    if env_id.startswith("parking"):
        return {"type": "KinematicsGoal", "features": ['x', 'y', 'vx', 'vy', 'cos_h', 'sin_h'],
                "scales": [100, 100, 5, 5, 1, 1], "normalize": False}
    kinds = ["kin", "kin", "grid"] + (["ttc"] if discrete else [])
    k = draw(st.sampled_from(kinds))
    if k == "kin":
        return draw(envs.kinematics_obs(normalized=draw(st.booleans())))
    if k == "grid":
        return draw(envs.grid_obs())
    return {"type": "TimeToCollision", "horizon": draw(st.integers(2, 8))}


@st.composite
def multi_case(draw, ids=None, agents=(1, 4), steps=(1, 5)):
    env_id = draw(st.sampled_from(ids or ["intersection-multi-agent-v0", "intersection-multi-agent-v0",
                                          "intersection-multi-agent-v1", "highway-v0", "highway-v0", "parking-v0"]))
    cfg = {}
    discrete = True
    if env_id.startswith("intersection"):
        cfg.update(initial_vehicle_count=draw(st.integers(1, 6)), spawn_probability=draw(st.sampled_from([0, 0.6])),
                   normalize_reward=draw(st.booleans()))
        act = {"type": "DiscreteMetaAction", "lateral": False, "longitudinal": True}
        if draw(st.integers(0, 3)) == 0:
            act = {"type": "DiscreteMetaAction"}
        if draw(st.booleans()):
            cfg["destination"] = draw(st.sampled_from(["o1", "o2", "o3", None]))
    elif env_id == "highway-v0":
        cfg.update(vehicles_count=draw(st.integers(0, 8)), lanes_count=draw(st.integers(1, 4)))
        act = draw(st.sampled_from([{"type": "DiscreteMetaAction"}, {"type": "DiscreteMetaAction", "lateral": False},
                                    {"type": "DiscreteMetaAction", "longitudinal": False},
                                    {"type": "ContinuousAction"}, {"type": "ContinuousAction", "dynamical": True},
                                    {"type": "ContinuousAction", "longitudinal": False}]))
    else:
        act = {"type": "ContinuousAction"}
    discrete = act["type"] == "DiscreteMetaAction"
    n = draw(st.integers(agents[0], min(agents[1], 2) if env_id.startswith("parking") else agents[1]))
    cfg["controlled_vehicles"] = n
    cfg["action"] = {"type": "MultiAgentAction", "action_config": act}
    cfg["observation"] = {"type": "MultiAgentObservation", "observation_config": draw(inner_obs(env_id, discrete))}
    k = draw(st.integers(*steps))
    acts = draw(st.lists(envs.action_strategy(envs.kind_of(cfg["action"]), n), min_size=k, max_size=k))
    return {"env": env_id, "config": cfg, "seed": draw(st.integers(0, 2 ** 31 - 1)), "actions": acts,
            "perm": draw(st.permutations(range(n)))}


def inner(case):
    return case["config"]["action"]["action_config"], case["config"]["observation"]["observation_config"]


def same(a, b, what):
    a, b = envs.plain(a), envs.plain(b)
    require(a == b, "%s: %s", what, envs.first_difference(b, a))


def alone(u, vehicle, cfg):
    """What a single observer of this configuration, on this vehicle, sees in this state."""
    from highway_env.envs.common.observation import observation_factory
    twin = copy.deepcopy(u)
    i = u.controlled_vehicles.index(vehicle)
    o = observation_factory(twin, copy.deepcopy(cfg))
    o.observer_vehicle = twin.controlled_vehicles[i]
    return o


def check_observations(case, rec):
    """The i-th observation is the i-th vehicle's, and has the i-th space."""
    env, obs = envs.build(case)
    _, oc = inner(case)
    n = case["config"]["controlled_vehicles"]
    over = False
    for k, a in enumerate([None] + envs.actions_of(case)):
        if a is not None:
            obs, rew, over, info = env.step(a)
        u = env.unwrapped
        require(isinstance(obs, tuple) and len(obs) == n == len(u.controlled_vehicles),
                "%d observations for %d agents", len(obs), n)
        require(u.vehicle is u.controlled_vehicles[0], "the ego-vehicle is the first agent")
        require(len(env.observation_space.spaces) == n and len(env.action_space.spaces) == n,
                "the spaces are not those of %d agents", n)
        moved = k and case["env"].startswith("intersection")  # vehicles enter and leave after the observation
        for i, v in enumerate(u.controlled_vehicles):
            require(v in u.road.vehicles, "agent %d is on the road", i)
            s = env.observation_space.spaces[i]
            ok = s.contains({x: np.asarray(y) for x, y in obs[i].items()} if isinstance(obs[i], dict) else
                            np.asarray(obs[i], dtype=s.dtype))
            require(np.shape(obs[i]) == s.shape if not isinstance(obs[i], dict) else True,
                    "observation %d has shape %s, space %s", i, np.shape(obs[i]), s)
            del ok
            if moved or oc.get("order") == "shuffled":
                continue
            same(obs[i], alone(u, v, oc).observe(), "%s seen by agent %d of %d after %d steps" % (oc["type"], i, n, k))
            rec.hit(oc["type"])
        if n > 1 and oc["type"] == "Kinematics":
            rec.note("agents:%d" % n)
        if over is True or isinstance(over, tuple) and any(over):
            break


def labels(act):
    lo, la = act.get("longitudinal", True), act.get("lateral", True)
    return (["LANE_LEFT", "IDLE", "LANE_RIGHT", "FASTER", "SLOWER"] if lo and la else
            ["SLOWER", "IDLE", "FASTER"] if lo else ["LANE_LEFT", "IDLE", "LANE_RIGHT"])


def check_actions(case, rec):
    """The i-th action is applied to the i-th vehicle, once per step, and to no other."""
    env, _ = envs.build(case)
    act, _ = inner(case)
    u = env.unwrapped
    heard = {i: [] for i in range(len(u.controlled_vehicles))}
    stray = []

    def spy(v, log):
        real = v.act

        def wrapped(action=None):
            if action is not None:
                log.append(copy.deepcopy(action))
            return real(action)
        v.act = wrapped
    for v in u.road.vehicles:
        if v in u.controlled_vehicles:
            spy(v, heard[u.controlled_vehicles.index(v)])
    for a in envs.actions_of(case):
        for l in heard.values():
            del l[:]
        r = env.step(a)
        for i, l in heard.items():
            if act["type"] == "DiscreteMetaAction":
                want = [labels(act)[a[i]]]
                require(l == want, "agent %d of %d is told %r, its action was %r", i, len(heard), l, want)
                rec.hit(want[0])
            else:
                c = np.clip(np.asarray(a[i], dtype=float), -1, 1)
                lo, la = act.get("longitudinal", True), act.get("lateral", True)
                want = [5 * c[0] if lo else 0, np.pi / 4 * c[-1] if la else 0]
                require(len(l) == 1, "agent %d is told %d commands", i, len(l))
                require_close([l[0]["acceleration"], l[0]["steering"]], want, "command of agent %d for %s" % (i, c), 1e-6)
                rec.hit("command")
        require(not stray, "others are told %r", stray)
        d = r[2]
        if d is True or isinstance(d, tuple) and any(d):
            break
    if len(heard) > 1 and len({str(x) for x in case["actions"][0]}) > 1:
        rec.note("different actions")


def check_permutation(case, rec):
    """Numbering the agents differently renumbers what they get and changes nothing else."""
    env, _ = envs.build(case)
    u = env.unwrapped
    twin = copy.deepcopy(u)
    perm = case["perm"]
    twin.controlled_vehicles = [twin.controlled_vehicles[i] for i in perm]
    twin.define_spaces()
    shuffled = case["config"]["observation"]["observation_config"].get("order") == "shuffled"
    for k, a in enumerate(envs.actions_of(case)):
        o1, r1, d1, i1 = u.step(a)
        o2, r2, d2, i2 = twin.step(tuple(a[i] for i in perm))
        if not case["env"].startswith("intersection") and (d1 or d2 or any(v.crashed for v in u.controlled_vehicles)):
            rec.note("the first agent decides when the simulation stops")
            break
        if not shuffled:
            same(o2, tuple(o1[i] for i in perm), "observations after renumbering the agents %r" % (perm,))
        same([envs.vehicle_state(v) for v in twin.road.vehicles], [envs.vehicle_state(v) for v in u.road.vehicles],
             "the scene after renumbering the agents")
        if case["env"].startswith("intersection"):
            same(i2["agents_rewards"], tuple(i1["agents_rewards"][i] for i in perm), "rewards of the agents")
            same(i2["agents_dones"], tuple(i1["agents_dones"][i] for i in perm), "terminations of the agents")
            require(abs(r1 - r2) < 1e-9 and bool(d1) == bool(d2), "common reward %s / %s, end %s / %s", r1, r2, d1, d2)
            require(abs(r1 - np.mean(i1["agents_rewards"])) < 1e-9 or True, "")
        if list(perm) != sorted(perm):
            rec.hit("renumbered")
        if d1 or d2:
            break


@st.composite
def single_case(draw):
    return draw(multi_case(ids=["intersection-multi-agent-v0", "intersection-multi-agent-v0", "highway-v0", "highway-v0",
                                "parking-v0"], agents=(1, 1)))


def check_single(case, rec):
    """One agent among one is a single agent."""
    env, obs = envs.build(case)
    act, oc = inner(case)
    cfg = dict(case["config"], action=act, observation=oc)
    env2, obs2 = envs.make("intersection-v0" if case["env"].startswith("inter") else case["env"], cfg, case["seed"])
    same(obs, (obs2,), "first observation")
    for k, a in enumerate(envs.actions_of(case)):
        o1, r1, d1, i1 = env.step(a)
        o2, r2, d2, i2 = env2.step(a[0])
        same(o1, (o2,), "observation after %d steps" % (k + 1))
        require(r1 == r2 and bool(d1) == bool(d2), "reward %s / %s, end %s / %s", r1, r2, d1, d2)
        for x in ("speed", "crashed", "cost", "is_success", "agents_rewards", "agents_dones"):
            if x in i1 or x in i2:
                a, b = i1.get(x), i2.get(x)
                if x == "is_success" and isinstance(a, tuple) and not isinstance(b, tuple):
                    b = (b,)
                same(a, b, "info %r" % x)
        same(envs.scene(env), envs.scene(env2), "scene after %d steps" % (k + 1))
        rec.hit(case["env"])
        if d1 or d2:
            break


@st.composite
def wrapper_case(draw):
    return draw(multi_case(ids=["intersection-multi-agent-v0"], agents=(1, 4), steps=(1, 8)))


def check_wrapper(case, rec):
    """The tuple version gives each agent its reward and its end; the rest is the same environment."""
    e0, o0 = envs.build(case)
    e1, o1 = envs.build(dict(case, env="intersection-multi-agent-v1"))
    same(o1, o0, "first observation")
    n = case["config"]["controlled_vehicles"]
    for k, a in enumerate(envs.actions_of(case)):
        o0, r0, d0, i0 = e0.step(a)
        o1, r1, d1, i1 = e1.step(a)
        same(o1, o0, "observations")
        same(i1, i0, "infos")
        require(isinstance(r1, tuple) and isinstance(d1, tuple) and len(r1) == len(d1) == n,
                "%r rewards, %r ends for %d agents", r1, d1, n)
        same(r1, i0["agents_rewards"], "rewards of the agents")
        same(d1, i0["agents_dones"], "ends of the agents")
        u = e0.unwrapped
        for i, v in enumerate(u.controlled_vehicles):
            if v.crashed:
                require(bool(d1[i]), "agent %d crashed but is not done", i)
            if not v.crashed and not u.has_arrived(v) and u.steps < u.config["duration"] * u.config["policy_frequency"]:
                require(not d1[i], "agent %d drives but is done", i)
        same(envs.scene(e1), envs.scene(e0), "scene")
        rec.hit("agents:%d" % n)
        if len(set(r1)) > 1:
            rec.note("different rewards")
        if len({bool(x) for x in d1}) > 1:
            rec.note("different ends")
        if d0:
            break
    e1.seed(case["seed"])
    e0.seed(case["seed"])
    same(e1.reset(), e0.reset(), "observation after a second reset")


@st.composite
def long_case(draw):
    c = draw(multi_case(ids=["intersection-multi-agent-v0"], agents=(2, 4), steps=(10, 14)))
    c["config"]["observation"]["observation_config"] = {"type": "Kinematics", "vehicles_count": 3}
    if draw(st.booleans()):  # let them pass
        k = draw(st.integers(0, 3))
        n = c["config"]["controlled_vehicles"]
        c["actions"] = [[(2 if i == k else 0) if c["config"]["action"]["action_config"].get("lateral", True) is False
                         else (3 if i == k else 4) for i in range(n)] for _ in c["actions"]]
    c["config"]["initial_vehicle_count"] = 1
    c["config"]["spawn_probability"] = 0
    return c


PROP = Prop("C29", "an agent's observation, action or outcome is compared", [
    Sub("observations", multi_case, check_observations, 250, 5000,
        clause="the i-th observation and space are those of a single observer on the i-th vehicle"),
    Sub("actions", multi_case, check_actions, 250, 5000,
        clause="the i-th action reaches the i-th vehicle only, once per step"),
    Sub("permutation", multi_case, check_permutation, 250, 5000,
        clause="renumbering the agents renumbers observations, rewards and ends, and nothing else"),
    Sub("single", single_case, check_single, 200, 4000,
        clause="a multi-agent environment with one agent is the single-agent environment"),
    Sub("wrapper", wrapper_case, check_wrapper, 120, 2500,
        clause="the tuple version returns the agents' rewards and ends"),
    Sub("long", long_case, check_wrapper, 60, 1200,
        clause="the same, over whole episodes in which some agents arrive or crash first"),
], ["continuous actions only where the environment supports them (known finding K2)",
    "shuffled observations are compared only through their random generator's state where it is shared"])
