"""Generation and driving of environments: JSON-able cases, construction, snapshots."""
import math

import numpy as np
from hypothesis import strategies as st

from .core import HarnessError

ALL_IDS = ["highway-v0", "merge-v0", "roundabout-v0", "intersection-v0", "intersection-multi-agent-v0",
           "intersection-multi-agent-v1", "two-way-v0", "parking-v0", "parking-ActionRepeat-v0",
           "summon-v0", "summon-ActionRepeat-v0", "lane-keeping-v0"]

VEHICLE_TYPES = ["highway_env.vehicle.behavior.IDMVehicle",
                 "highway_env.vehicle.behavior.LinearVehicle",
                 "highway_env.vehicle.behavior.AggressiveVehicle",
                 "highway_env.vehicle.behavior.DefensiveVehicle"]

DISCRETE = {"type": "DiscreteMetaAction"}
CONTINUOUS = {"type": "ContinuousAction"}


def prime():
    """Known finding C02: IntersectionEnv writes on the class of its traffic vehicles. Put the process in the state
    that follows, once, so that this listed defect does not mask (or imitate) another one."""
    try:
        make("intersection-v0", {}, 0)
    except Exception:  # noqa: BLE001  (judged by the checks themselves)
        pass


def env_class(env_id):
    import gym
    from gym.envs.registration import load
    ep = gym.envs.registry.env_specs[env_id].entry_point
    return load(ep) if isinstance(ep, str) else ep


def make(env_id, config=None, seed=None):
    """A seeded, reset environment of the registered id, without gym's time limit. Returns (env, first observation)."""
    cls = env_class(env_id)
    config = config or {}
    if env_id.endswith("ActionRepeat-v0"):
        env = cls()
        env.configure(config)
    else:
        env = cls(dict(config)) if config else cls()
    if seed is not None:
        env.seed(seed)
    return env, env.reset()


# ------------------------------------------------------------------- actions

def kind_of(action_cfg):
    if action_cfg["type"] == "DiscreteMetaAction":
        lo, la = action_cfg.get("longitudinal", True), action_cfg.get("lateral", True)
        return ("d", 5 if lo and la else 3)
    if action_cfg["type"] == "ContinuousAction":
        lo, la = action_cfg.get("longitudinal", True), action_cfg.get("lateral", True)
        return ("c", 2 if lo and la else 1)
    return ("m", kind_of(action_cfg["action_config"]))


def action_strategy(kind, agents=1):
    if kind[0] == "d":
        return st.integers(0, kind[1] - 1)
    if kind[0] == "c":
        comp = st.one_of(st.sampled_from([-1.0, 0.0, 1.0]),
                         st.floats(-1, 1, allow_nan=False).map(lambda x: round(x, 3)))
        return st.lists(comp, min_size=kind[1], max_size=kind[1])
    return st.lists(action_strategy(kind[1]), min_size=agents, max_size=agents)


def decode(action, kind):
    if kind[0] == "d":
        return int(action)
    if kind[0] == "c":
        return np.array(action, dtype=float)
    return tuple(decode(a, kind[1]) for a in action)


DEFAULT_ACTION = {
    "highway-v0": DISCRETE, "merge-v0": DISCRETE, "roundabout-v0": DISCRETE, "two-way-v0": DISCRETE,
    "intersection-v0": {"type": "DiscreteMetaAction", "lateral": False},
    "intersection-multi-agent-v0": {"type": "MultiAgentAction",
                                    "action_config": {"type": "DiscreteMetaAction", "lateral": False}},
    "intersection-multi-agent-v1": {"type": "MultiAgentAction",
                                    "action_config": {"type": "DiscreteMetaAction", "lateral": False}},
    "parking-v0": CONTINUOUS, "parking-ActionRepeat-v0": CONTINUOUS,
    "summon-v0": CONTINUOUS, "summon-ActionRepeat-v0": CONTINUOUS,
    "lane-keeping-v0": {"type": "ContinuousAction", "longitudinal": False, "dynamical": True},
}


def case_kind(case):
    return kind_of(case["config"].get("action", DEFAULT_ACTION[case["env"]]))


def case_agents(case):
    return case["config"].get("controlled_vehicles",
                              2 if "multi-agent" in case["env"] else 1)


KIN_FEATURES = ["presence", "x", "y", "vx", "vy", "cos_h", "sin_h", "cos_d", "sin_d"]


@st.composite
def kinematics_obs(draw, normalized=True):
    cfg = {"type": "Kinematics"}
    if draw(st.booleans()):
        cfg["features"] = draw(st.lists(st.sampled_from(KIN_FEATURES), min_size=1, max_size=7, unique=True))
    if draw(st.booleans()):
        cfg["vehicles_count"] = draw(st.integers(1, 15))
    if draw(st.booleans()):
        cfg["absolute"] = draw(st.booleans())
    if draw(st.booleans()):
        cfg["see_behind"] = draw(st.booleans())
    if draw(st.booleans()):
        cfg["order"] = draw(st.sampled_from(["sorted", "shuffled"]))
    if draw(st.booleans()):
        cfg["observe_intentions"] = draw(st.booleans())
    if not normalized and draw(st.booleans()):
        cfg["normalize"] = False
    return cfg


@st.composite
def grid_obs(draw):
    cfg = {"type": "OccupancyGrid"}
    if draw(st.booleans()):
        cfg["features"] = draw(st.lists(st.sampled_from(["presence", "vx", "vy", "cos_h", "sin_h"]), min_size=1,
                                        max_size=4, unique=True))
    if draw(st.booleans()):
        nx, ny = draw(st.integers(1, 12)), draw(st.integers(1, 12))
        sx, sy = draw(st.sampled_from([2, 4, 5, 10])), draw(st.sampled_from([2, 4, 5]))
        x0 = draw(st.sampled_from([-0.5, -0.25, -0.75]))
        cfg["grid_size"] = [[x0 * nx * sx, (1 + x0) * nx * sx], [-ny * sy / 2, ny * sy / 2]]
        cfg["grid_step"] = [sx, sy]
    return cfg


def obs_strategy(env_id, kind):
    if env_id.startswith(("parking", "summon")):
        return st.none()
    if env_id == "lane-keeping-v0":
        return st.one_of(st.none(), kinematics_obs())
    basic = [st.none(), kinematics_obs(), grid_obs()]
    if kind[0] == "d" and env_id != "merge-x":
        basic.append(st.builds(lambda h: {"type": "TimeToCollision", "horizon": h}, st.integers(2, 10)))
    inner = [kinematics_obs(), grid_obs()]
    if kind[0] == "m" and kind[1][0] == "d":
        inner.append(st.just({"type": "TimeToCollision", "horizon": 5}))
    multi = st.one_of(*inner).map(lambda o: {"type": "MultiAgentObservation", "observation_config": o})
    if kind[0] == "m":
        return st.one_of(st.none(), multi) if "multi" in env_id else st.one_of(multi, *basic[:2])
    return st.one_of(*basic)


@st.composite
def env_case(draw, ids=None, min_steps=1, max_steps=6, obs=True, actions=True, freqs=True, multi=True,
             vehicle_types=True, weights=None):
    """A working environment configuration, a seed and an action sequence."""
    ids = ids or ["highway-v0", "highway-v0", "merge-v0", "roundabout-v0", "intersection-v0",
                  "intersection-multi-agent-v0", "two-way-v0", "parking-v0", "parking-ActionRepeat-v0",
                  "summon-v0", "lane-keeping-v0"]
    env_id = draw(st.sampled_from(ids))
    cfg = {}
    kind = kind_of(DEFAULT_ACTION[env_id])
    if env_id == "highway-v0":
        cfg["vehicles_count"] = draw(st.integers(0, 12))
        cfg["lanes_count"] = draw(st.integers(1, 5))
        cfg["duration"] = draw(st.sampled_from([3, 8, 40]))
        if draw(st.booleans()):
            cfg["vehicles_density"] = draw(st.sampled_from([0.5, 1, 2]))
        if draw(st.booleans()):
            cfg["ego_spacing"] = draw(st.sampled_from([0.5, 1, 2]))
        if draw(st.booleans()):
            cfg["offroad_terminal"] = True
        if draw(st.booleans()):
            cfg["initial_lane_id"] = draw(st.integers(0, cfg["lanes_count"] - 1))
    elif env_id == "roundabout-v0":
        if draw(st.booleans()):
            cfg["incoming_vehicle_destination"] = draw(st.integers(0, 2))
        cfg["duration"] = draw(st.sampled_from([3, 11]))
    elif env_id.startswith("intersection"):
        cfg["duration"] = draw(st.sampled_from([3, 13]))
        cfg["initial_vehicle_count"] = draw(st.integers(1, 8))
        cfg["spawn_probability"] = draw(st.sampled_from([0, 0.3, 0.6, 1]))
        if draw(st.booleans()):
            cfg["destination"] = draw(st.sampled_from(["o1", "o2", "o3", None]))
        if draw(st.booleans()):
            cfg["normalize_reward"] = draw(st.booleans())
        if "multi" in env_id:
            cfg["controlled_vehicles"] = draw(st.integers(1, 3))
    elif env_id.startswith("parking"):
        if draw(st.booleans()):
            cfg["duration"] = draw(st.sampled_from([3, 8]))
    elif env_id.startswith("summon"):
        cfg["vehicles_count"] = draw(st.integers(0, 10))
    # ---- action type
    if actions:
        if env_id == "highway-v0":
            a = draw(st.sampled_from(["d", "d", "d", "c", "m"] if multi else ["d", "d", "d", "c"]))
            act = None
            if a == "d":
                lo, la = draw(st.sampled_from([(True, True), (True, True), (True, False), (False, True)]))
                act = {"type": "DiscreteMetaAction", "longitudinal": lo, "lateral": la}
            elif a == "c":
                lo, la = draw(st.sampled_from([(True, True), (True, False), (False, True)]))
                act = {"type": "ContinuousAction", "longitudinal": lo, "lateral": la,
                       "dynamical": draw(st.booleans())}
            else:
                act = {"type": "MultiAgentAction",
                       "action_config": draw(st.sampled_from([DISCRETE, CONTINUOUS]))}
                cfg["controlled_vehicles"] = draw(st.integers(1, 3))
            cfg["action"] = act
        elif env_id in ("merge-v0", "roundabout-v0", "two-way-v0"):
            if draw(st.integers(0, 3)) == 0:
                lo, la = draw(st.sampled_from([(True, False), (False, True)]))
                cfg["action"] = {"type": "DiscreteMetaAction", "longitudinal": lo, "lateral": la}
        elif env_id == "intersection-v0":
            if draw(st.integers(0, 3)) == 0:
                cfg["action"] = {"type": "DiscreteMetaAction"}
        elif env_id.startswith(("parking", "summon")):
            if draw(st.integers(0, 2)) == 0:
                lo, la = draw(st.sampled_from([(True, True), (True, False), (False, True)]))
                cfg["action"] = {"type": "ContinuousAction", "longitudinal": lo, "lateral": la,
                                 "dynamical": draw(st.booleans())}
            if env_id == "parking-v0" and multi and draw(st.integers(0, 3)) == 0:
                cfg["controlled_vehicles"] = 2
                cfg["action"] = {"type": "MultiAgentAction", "action_config": CONTINUOUS}
                cfg["observation"] = {"type": "MultiAgentObservation", "observation_config": {
                    "type": "KinematicsGoal", "features": ['x', 'y', 'vx', 'vy', 'cos_h', 'sin_h'],
                    "scales": [100, 100, 5, 5, 1, 1], "normalize": False}}
        if "action" in cfg:
            kind = kind_of(cfg["action"])
    if obs and "observation" not in cfg:
        o = draw(obs_strategy(env_id, kind))
        if o is not None:
            cfg["observation"] = o
    if freqs and draw(st.booleans()):
        if env_id.startswith("intersection"):
            cfg["policy_frequency"] = draw(st.sampled_from([1, 2, 5]))
        elif env_id == "lane-keeping-v0":
            pass
        else:
            cfg["simulation_frequency"] = draw(st.sampled_from([5, 10, 15, 16]))
            cfg["policy_frequency"] = draw(st.sampled_from([1, 2, 5]))
    if vehicle_types and draw(st.integers(0, 2)) == 0 and not env_id.startswith(("parking", "lane")):
        cfg["other_vehicles_type"] = draw(st.sampled_from(VEHICLE_TYPES))
    agents = cfg.get("controlled_vehicles", 2 if "multi-agent" in env_id else 1)
    n = draw(st.integers(min_steps, max_steps))
    acts = draw(st.lists(action_strategy(kind, agents), min_size=n, max_size=n))
    return {"env": env_id, "config": cfg, "seed": draw(st.integers(0, 2 ** 31 - 1)), "actions": acts}


def build(case, **extra):
    cfg = {k: (dict(v) if isinstance(v, dict) else v) for k, v in case["config"].items()}
    cfg.update(extra)
    return make(case["env"], cfg, case["seed"])


def actions_of(case):
    k = case_kind(case)
    return [decode(a, k) for a in case["actions"]]


# ------------------------------------------------------------------ snapshots

def plain(x):
    """Observations, rewards, infos to comparable plain data; floats kept exact."""
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, tuple(plain(v) for v in x.ravel().tolist()))
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return "nan" if math.isnan(x) else x
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, (np.integer, int)):
        return int(x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), plain(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(plain(v) for v in x)
    if x is None or isinstance(x, str):
        return x
    raise HarnessError("cannot compare %r" % type(x))


def vehicle_state(v):
    return (type(v).__name__, plain(np.array(v.position, dtype=float)), float(np.squeeze(v.heading)),
            float(np.squeeze(v.speed)), bool(v.crashed), plain(getattr(v, "lane_index", None)),
            plain(getattr(v, "target_lane_index", None)), plain(getattr(v, "target_speed", None)),
            plain(getattr(v, "speed_index", None)), plain(getattr(v, "route", None)),
            plain(getattr(v, "timer", None)), plain(getattr(v, "lateral_speed", None)),
            plain(getattr(v, "yaw_rate", None)))


def scene(env):
    """The complete dynamic state a user can see: every vehicle, object, clock and flag, in road order."""
    u = env.unwrapped
    return (u.time, u.steps,
            tuple(vehicle_state(v) for v in u.road.vehicles),
            tuple((type(o).__name__, plain(np.array(o.position, dtype=float)), float(o.heading), bool(o.hit))
                  for o in u.road.objects),
            tuple(u.road.vehicles.index(v) if v in u.road.vehicles else -1 for v in u.controlled_vehicles))


def run(env, actions):
    """Outcomes of the actions, with the scene after each."""
    out = []
    for a in actions:
        o, r, d, i = env.step(a)
        out.append((plain(o), plain(r), plain(d), plain(i), scene(env)))
        if plain(d) is True or (isinstance(d, tuple) and any(d)):
            break
    return out


def first_difference(a, b, path="$"):
    if type(a) is not type(b):
        return "%s: %r vs %r" % (path, a, b)
    if isinstance(a, tuple):
        if len(a) != len(b):
            return "%s: %d vs %d elements" % (path, len(a), len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, "%s.%d" % (path, k))
            if d:
                return d
        return None
    return None if a == b else "%s: %r vs %r" % (path, a, b)
