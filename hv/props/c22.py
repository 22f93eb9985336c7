"""C22 rewards of the driving environments."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import envs, geo
from ..core import Prop, Sub, require, require_close

envs.prime()


@st.composite
def tweak(draw, agents, env_id):
    """A change of the state of one agent before a step, to reach rare situations."""
    t = {"who": draw(st.integers(0, agents - 1))}
    kind = draw(st.sampled_from(["none", "none", "crash", "speed", "lat", "jump", "jump"]))
    if kind == "crash":
        t["crash"] = True
    if kind == "speed" or draw(st.integers(0, 4)) == 0:
        t["speed"] = draw(st.one_of(geo.fl(0, 38), geo.fl(0, 38), geo.fl(-30, 0) if env_id == "highway-v0" else geo.fl(0, 10)))
    if kind == "lat":
        t["lat"] = draw(geo.fl(-12, 12))
    if kind == "jump":
        roads = {"intersection": [["il%d" % k, "o%d" % k, 0] for k in range(4)],
                 "merge": [["b", "c", 2], ["b", "c", 0], ["b", "c", 1], ["c", "d", 0]],
                 "two-way": [["a", "b", 0], ["a", "b", 1], ["b", "a", 0]],
                 "roundabout": [["se", "ex", 0], ["se", "ex", 1], ["ex", "ee", 0]]}.get(env_id.split("-")[0])
        if roads:
            t["road"] = draw(st.sampled_from(roads))
            t["s"] = draw(st.one_of(geo.fl(0, 60), geo.fl(20, 30)))
    return t


@st.composite
def reward_case(draw, ids):
    c = draw(envs.env_case(ids=ids, obs=False, max_steps=4))
    agents = envs.case_agents(c)
    if c["env"] == "highway-v0":
        c["config"]["collision_reward"] = draw(st.sampled_from([-1, -1, -5, -0.3, 0]))
        if draw(st.booleans()):
            lo = draw(geo.fl(0, 30, 1))
            c["config"]["reward_speed_range"] = [lo, round(lo + draw(geo.fl(1, 20, 1)), 1)]
    if c["env"].startswith("intersection") and draw(st.booleans()):
        c["config"]["collision_reward"] = draw(st.sampled_from([-5, -1, -10]))
    c["tweaks"] = [draw(tweak(agents, c["env"])) for _ in c["actions"]]
    return c


def apply(env, t):
    v = env.controlled_vehicles[t["who"] % len(env.controlled_vehicles)]
    if "road" in t:
        lane = env.road.network.get_lane(tuple(t["road"]))
        v.position = np.array(lane.position(t["s"], 0), dtype=float)
        v.heading = lane.heading_at(t["s"])
        v.lane_index = v.target_lane_index = tuple(t["road"])
        v.lane = lane
        if getattr(v, "route", None):
            v.route = [tuple(t["road"])]
    if "lat" in t:
        v.position = v.position + np.array([0.0, t["lat"]])
    if "speed" in t:
        v.speed = t["speed"]
    if t.get("crash"):
        v.crashed = True


def lin(x, lo, hi):
    return (x - lo) / (hi - lo)


def on_straight(lane, p, margin=5):
    s, r = lane.local_coordinates(p)
    return abs(r) <= lane.width_at(s) / 2 and -margin <= s < lane.length + margin, \
        min(abs(abs(r) - lane.width_at(s) / 2), abs(s + margin), abs(s - lane.length - margin))


def is_controlled(v):
    return hasattr(v, "target_speed")


def label(action, cfg):
    """Meaning of a discrete action index."""
    a = cfg.get("action", {"type": "DiscreteMetaAction"})
    lo, la = a.get("longitudinal", True), a.get("lateral", True)
    names = ["LANE_LEFT", "IDLE", "LANE_RIGHT", "FASTER", "SLOWER"] if lo and la else \
        ["SLOWER", "IDLE", "FASTER"] if lo else ["LANE_LEFT", "IDLE", "LANE_RIGHT"]
    return names[action]


def highway(env, case, action):
    v, cfg = env.vehicle, env.config
    on, edge = on_straight(v.lane, v.position)
    n = len(env.road.network.graph[v.lane_index[0]][v.lane_index[1]])
    lane = v.target_lane_index[2] if is_controlled(v) else v.lane_index[2]
    lo, hi = case["config"].get("reward_speed_range", [20, 30])
    c = case["config"].get("collision_reward", -1)
    r = c * v.crashed + 0.1 * lane / max(n - 1, 1) + 0.4 * min(1, max(0, lin(v.speed, lo, hi)))
    r = lin(r, c, 0.5) if on else 0.0
    return None if edge < 1e-6 else r, (0, 1)


def merge(env, case, action):
    v = env.vehicle
    if not case["config"].get("action", {}).get("lateral", True):
        return None, None                                   # which indices are lane changes is not specified there
    r = -1 * v.crashed + 0.1 * v.lane_index[2] + 0.2 * v.speed_index / 2
    altruistic = 0
    for w in env.road.vehicles:
        if tuple(w.lane_index) == ("b", "c", 2) and is_controlled(w):
            altruistic += -0.5 * (w.target_speed - w.speed) / w.target_speed
    r += altruistic - 0.05 * (label(action, case["config"]) in ("LANE_LEFT", "LANE_RIGHT"))
    usual = not altruistic and v.lane_index[2] < 2
    return lin(r, -1.5, 0.3), (0, 1) if usual else None


def roundabout(env, case, action):
    v = env.vehicle
    # lane change actions are 0 and 2 whatever the action set
    r = -1 * v.crashed + 0.2 * v.speed_index / 2 - 0.05 * (action in (0, 2))
    if not case["config"].get("action", {}).get("lateral", True):
        return None, (0, 1)
    return lin(r, -1.05, 0.2), (0, 1)


def arrived(env, v, distance=25):
    a, b, _ = v.lane_index
    if not ("il" in a and "o" in b):
        return False, 1.0
    s = env.road.network.get_lane(v.lane_index).local_coordinates(v.position)[0]
    return s >= distance, abs(s - distance)


def intersection_agent(env, case, v):
    c = case["config"].get("collision_reward", -5)
    there, edge = arrived(env, v)
    r = 1 if there else c * v.crashed + 1 * (v.speed_index == 2)
    if case["config"].get("normalize_reward", False):
        r = lin(r, c, 1)
    return r, edge


def intersection(env, case, action):
    each = [intersection_agent(env, case, v) for v in env.controlled_vehicles]
    r = sum(x for x, _ in each) / len(each)
    rng = (0, 1) if case["config"].get("normalize_reward", False) else (case["config"].get("collision_reward", -5), 1)
    return None if any(e < 1e-6 for _, e in each) else r, rng


def two_way(env, case, action):
    v = env.vehicle
    n = len(env.road.network.graph[v.lane_index[0]][v.lane_index[1]])
    r = 0.8 * v.speed_index / 2
    if n > 1 and v.target_lane_index[:2] == v.lane_index[:2]:
        return r + 0.2 * (n - 1 - v.target_lane_index[2]) / (n - 1), (0, 1)
    return None, None


MODELS = {"highway": highway, "merge": merge, "roundabout": roundabout, "intersection": intersection, "two": two_way}


def check_formula(case, rec):
    """The reward of a step is the documented function of the state it leads to."""
    env, _ = envs.build(case)
    env = env.unwrapped
    model = MODELS[case["env"].split("-")[0]]
    for k, (a, t) in enumerate(zip(envs.actions_of(case), case["tweaks"])):
        apply(env, t)
        _, r, d, info = env.step(a)
        want, rng = model(env, case, a)
        require(math.isfinite(float(r)), "reward %r of step %d", r, k)
        if want is not None:
            require_close(float(r), want, "reward of step %d (action %s, %s)" % (k, a, t), atol=1e-9)
            v = env.vehicle
            rec.hit(case["env"])
            for cond, name in ((any(w.crashed for w in env.controlled_vehicles), "crash"),
                               ("road" in t, "rare place"), ("lat" in t, "lateral offset")):
                if cond:
                    rec.note(name)
        if rng is not None:
            require(rng[0] - 1e-9 <= r <= rng[1] + 1e-9, "reward %r out of %s at step %d", r, rng, k)
        if case["env"].startswith("intersection"):
            each = info["agents_rewards"]
            require(isinstance(each, tuple) and len(each) == len(env.controlled_vehicles), "agents_rewards %r", each)
            for v, x in zip(env.controlled_vehicles, each):
                w, edge = intersection_agent(env, case, v)
                if edge > 1e-6:
                    require_close(float(x), w, "reward of an agent at step %d" % k, atol=1e-9)
        if d and not ("crash" in t):
            break


# --------------------------------------------------------------- metamorphic orders

def check_order(case, rec):
    """In the same scene, a crash never pays, driving faster never costs."""
    env, _ = envs.build(case)
    env = env.unwrapped
    for a in envs.actions_of(case)[:-1]:
        if env.step(a)[2]:
            return
    a = envs.actions_of(case)[-1]
    import copy
    rewards = {}
    for name in ("free", "crashed"):
        e = copy.deepcopy(env)
        if name == "crashed":
            e.vehicle.crashed = True
            e.vehicle.speed = 0.0 if case["stop"] else e.vehicle.speed
        _, r, _, _ = e.step(a)
        rewards[name] = float(r), bool(e.vehicle.crashed)
    if rewards["free"][1]:
        return
    require(rewards["crashed"][0] <= rewards["free"][0] + 1e-9 or case["env"].startswith(("two-way", "intersection")),
            "%s: crashing pays %g, not crashing %g", case["env"], rewards["crashed"][0], rewards["free"][0])
    rec.hit(case["env"])


@st.composite
def order_case(draw):
    c = draw(reward_case(["highway-v0", "merge-v0", "roundabout-v0"]))
    if c["env"] == "highway-v0":
        c["config"]["vehicles_count"] = min(c["config"]["vehicles_count"], 6)
        c["config"]["action"] = {"type": "DiscreteMetaAction"}
        c["config"].pop("controlled_vehicles", None)
        c["actions"] = draw(st.lists(st.integers(0, 4), min_size=1, max_size=3))
    c.pop("tweaks")
    c["stop"] = draw(st.booleans())
    return c


# ------------------------------------------------------------------ lane keeping

@st.composite
def keep_case(draw):
    n = draw(st.integers(1, 8))
    return {"env": "lane-keeping-v0", "config": {}, "seed": draw(st.integers(0, 10 ** 6)),
            "actions": draw(st.lists(st.lists(geo.fl(-1, 1), min_size=1, max_size=1), min_size=n, max_size=n)),
            "jumps": draw(st.lists(st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["cd", "ab"]),
                          geo.fl(0, 80), geo.fl(-7, 7)).map(list)), min_size=n, max_size=n))}


def check_keep(case, rec):
    """1 - (lateral offset / width)^2 with respect to the current lane, which advances when it is left."""
    env, _ = envs.build(case)
    net = env.road.network
    todo = [net.get_lane(("c", "d", 0)), net.get_lane(("a", "b", 0))]
    cur = todo.pop(0)
    for k, (a, j) in enumerate(zip(envs.actions_of(case), case["jumps"])):
        if j:
            lane = net.get_lane((j[0][0], j[0][1], 0))
            env.vehicle.position = np.array(lane.position(j[1], j[2]))
        s, r = cur.local_coordinates(env.vehicle.position)
        if min(abs(abs(r) - 5), abs(s + 5), abs(s - cur.length - 5)) < 1e-6:
            return
        if todo and not (abs(r) <= 5 and -5 <= s < cur.length + 5):
            cur = todo.pop(0)
            rec.note("next lane")
        _, rew, done, _ = env.step(np.array(a).reshape(-1, 1) if case["seed"] % 2 else np.array(a))
        _, r = cur.local_coordinates(env.vehicle.position)
        require_close(float(rew), 1 - (r / 10) ** 2, "reward of step %d, %.3f m from the lane" % (k, r), atol=1e-9)
        require(not done, "lane keeping never ends by itself")
        rec.hit()


# ------------------------------------------------------------------ end of the road

def check_long(case, rec):
    """Long episodes (no time limit of gym): the reward stays a finite number."""
    env, _ = envs.make("two-way-v0", {"policy_frequency": case["freq"]}, case["seed"])
    env.road.vehicles = [env.vehicle]
    env.vehicle.position = np.array([case["x"], 4.0 * case["lane"]])
    env.vehicle.lane_index = env.vehicle.target_lane_index = ("a", "b", case["lane"])
    for a in case["actions"]:
        _, r, d, i = env.step(a)
        require(math.isfinite(r) and -0.21 <= r <= 1 + 1e-9, "reward %r at %s on %s", r, env.vehicle.position,
                env.vehicle.lane_index)
        require(math.isfinite(i["cost"]), "cost %r", i["cost"])
        if env.vehicle.lane_index[0] == "b":
            rec.hit("back on the other road")


PROP = Prop(
    "C22",
    "A case is an environment, a configuration, a seed, actions and changes of state before them (crash, speed, "
    "offset, place); non-trivial when the reward of at least one step was compared.",
    [
        Sub("highway", lambda: reward_case(["highway-v0"]), check_formula, 250, 5000, clause="highway reward, any action "
            "type, speed range and collision reward"),
        Sub("roads", lambda: reward_case(["merge-v0", "roundabout-v0", "two-way-v0", "merge-v0"]), check_formula, 220, 5000,
            clause="merge, roundabout, two-way rewards"),
        Sub("intersection", lambda: reward_case(["intersection-v0", "intersection-multi-agent-v0"]), check_formula, 160,
            4000, clause="intersection reward: mean over agents, per-agent rewards, arrival, normalisation"),
        Sub("order", order_case, check_order, 120, 2500, clause="a crash never increases the reward"),
        Sub("keep", keep_case, check_keep, 120, 2500, clause="lane keeping reward and the lane it refers to"),
        Sub("long", lambda: st.builds(lambda s, x, l, f, a: {"seed": s, "x": x, "lane": l, "freq": f, "actions": a},
                                      st.integers(0, 999), geo.fl(600, 790), st.integers(0, 1), st.sampled_from([1, 1, 3]),
                                      st.lists(st.integers(0, 4), min_size=6, max_size=14)),
            check_long, 50, 800, clause="rewards past the end of the two-way road"),
    ],
    ["states on the border of the road or of the arrival area (1e-6) are not judged",
     "the merge and roundabout rewards identify lane changes by index: action sets without lane changes are judged "
     "without that term's sign, i.e. on range only"])
