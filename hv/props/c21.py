"""C21 time-to-collision grids, their observation, and the finite MDP built on them."""
import math
import sys
import types

import numpy as np
from hypothesis import strategies as st

from .. import envs, geo, traffic
from ..core import Prop, Sub, require, require_close, fmt
from .c11 import connected_oracle

envs.prime()
MAYBE = 1e-6


def speeds_of(ego):
    n = ego.SPEED_COUNT
    return [ego.SPEED_MIN + (ego.SPEED_MAX - ego.SPEED_MIN) * k / (n - 1) if n > 1 else ego.SPEED_MIN for k in range(n)]


def unit(h):
    return np.array([math.cos(h), math.sin(h)])


def grids(env, ego, quantum, horizon):
    """(low, high): bounds of each cell. They differ where a time to collision is on the edge of a cell."""
    net = env.road.network
    graph = {a: list(b) for a, b in net.graph.items()}
    count = {(a, b): len(net.graph[a][b]) for a in net.graph for b in net.graph[a]}
    lanes = count[ego.lane_index[:2]]
    steps = int(math.floor(horizon / quantum + 1e-9))
    speeds = speeds_of(ego)
    low, high = np.zeros((len(speeds), lanes, steps)), np.zeros((len(speeds), lanes, steps))
    mine = net.get_lane(ego.lane_index)
    s0 = mine.local_coordinates(ego.position)[0]
    for o in env.road.vehicles:
        if o is ego:
            continue
        if not connected_oracle(graph, tuple(ego.lane_index), tuple(o.lane_index),
                                [tuple(r) for r in ego.route] if ego.route else None, False, 3):
            continue
        gap = mine.local_coordinates(o.position)[0] - s0
        where = [o.lane_index[2]] if count[o.lane_index[:2]] == lanes else list(range(lanes))
        along = o.speed * float(np.dot(unit(o.heading), unit(ego.heading)))
        for k, v in enumerate(speeds):
            if v == o.speed:
                continue
            closing = v - along
            if abs(closing) <= 1e-2:
                closing = 1e-2 if closing > 0 else -1e-2
            edgy = abs(abs(v - along) - 1e-2) < 1e-9 or abs(v - along) < 1e-9
            for shift, cost in ((0.0, 1.0), (-5.0, 0.5), (5.0, 0.5)):
                t = (gap + shift) / closing
                u = t / quantum
                sure = set() if t < 0 else {math.floor(u), math.ceil(u)}
                maybe = set(sure)
                r = round(u)
                exact = (shift + gap) * 4 % 1 == 0 and math.frexp(abs(closing))[0] == 0.5 and quantum in (0.5, 1, 2)
                if exact:  # no rounding: a multiple of the quantum is one cell
                    pass
                elif abs(u - r) < MAYBE * max(1, abs(u)):
                    sure = {r} if t >= 0 and r > 0 else set()
                    maybe = {r - 1, r, r + 1}
                if edgy:
                    sure, maybe = set(), set(range(steps))
                for n in maybe:
                    if 0 <= n < steps:
                        high[k, where, n] = np.maximum(high[k, where, n], cost)
                        if n in sure:
                            low[k, where, n] = np.maximum(low[k, where, n], cost)
    return low, high


def judge_grid(grid, low, high, what, rec):
    grid = np.asarray(grid, dtype=float)
    require(grid.shape == low.shape, "%s: shape %s, expected %s", what, grid.shape, low.shape)
    bad = np.argwhere((grid < low - 1e-9) | (grid > high + 1e-9))
    if len(bad):
        c = tuple(bad[0])
        require(False, "%s: cell (speed %d, lane %d, time %d) is %g, expected %g%s (%d cells differ)", what, c[0], c[1],
                c[2], grid[c], low[c], "" if low[c] == high[c] else " to %g" % high[c], len(bad))
    if low.any():
        rec.hit("collision predicted")


# -------------------------------------------------------------- generated scenes

@st.composite
def scene_case(draw):
    c = draw(traffic.lanes_scene(ego_types=("controller.MDPVehicle",), max_lanes=4, max_bodies=6, objects=False,
                                 spread=150))
    c["range"] = draw(st.sampled_from([[3, 20, 30], [3, 0, 16], [5, 10, 35], [2, 5, 25], [1, 15, 30], [4, -5, 20]]))
    c["quantum"] = draw(st.sampled_from([1.0, 0.5, 0.2, 1 / 3, 2.0]))
    c["horizon"] = draw(st.integers(2, 12))
    c["turn"] = draw(st.lists(st.sampled_from([0, 0, 0, math.pi, math.pi / 2, 2.0]), min_size=8, max_size=8))
    c["shift"] = draw(geo.fl(-150, 300, 2))
    return c


@st.composite
def round_case(draw):
    """Whole positions and speeds, many times to collision being multiples of the quantum."""
    c = draw(scene_case())
    lo = draw(st.sampled_from([8, 16, 20]))
    c.update(range=[draw(st.sampled_from([2, 3])), lo, lo + draw(st.sampled_from([8, 16]))], turn=[0] * 8,
             quantum=draw(st.sampled_from([0.5, 1.0, 2.0])))
    for b in c["bodies"]:
        b.update(x=float(round(b["x"])), dh=0.0, v=float(lo + draw(st.sampled_from([-8, -4, -2, -1, 1, 2, 4, 8, 16, 12]))))
    return c


def scene_env(case, shift=0.0):
    c = dict(case, bodies=[dict(b, x=b["x"] + shift) for b in case["bodies"]])
    env, _ = envs.make("highway-v0", {"vehicles_count": 0, "lanes_count": 1}, 0)
    road, bodies = traffic.build(c)
    ego = bodies[0]
    ego.SPEED_COUNT, ego.SPEED_MIN, ego.SPEED_MAX = case["range"]
    for b, t in zip(bodies[1:], case["turn"]):
        b.heading += t
    env.road, env.vehicle = road, ego
    return env, ego, bodies


def check_grid(case, rec):
    """Each cell tells whether (1), or nearly (1/2), a vehicle will be met there at constant speeds."""
    from highway_env.envs.common.finite_mdp import compute_ttc_grid
    env, ego, bodies = scene_env(case)
    before = [(tuple(v.position), v.heading, v.speed) for v in env.road.vehicles]
    grid = compute_ttc_grid(env, time_quantization=case["quantum"], horizon=case["horizon"], vehicle=ego)
    judge_grid(grid, *grids(env, ego, case["quantum"], case["horizon"]), "TTC grid", rec)
    require(before == [(tuple(v.position), v.heading, v.speed) for v in env.road.vehicles], "the scene was modified")
    require(np.array_equal(grid, compute_ttc_grid(env, case["quantum"], case["horizon"])),
            "by default the observer is the ego vehicle")
    for w in env.road.vehicles[1:2]:
        if hasattr(w, "index_to_speed"):
            g = compute_ttc_grid(env, case["quantum"], case["horizon"], w)
            judge_grid(g, *grids(env, w, case["quantum"], case["horizon"]), "TTC grid of another observer", rec)


def check_meaning(case, rec):
    """Metamorphic: a full cell is a real meeting — drive both at constant speed along the lane for that long."""
    from highway_env.envs.common.finite_mdp import compute_ttc_grid
    env, ego, bodies = scene_env(dict(case, turn=[0] * 8))
    q = case["quantum"]
    grid = compute_ttc_grid(env, q, case["horizon"], ego)
    for k, i, t in np.argwhere(grid == 1):
        v = speeds_of(ego)[k]
        met = False
        for o in bodies[1:]:
            if o.lane_index[2] != i:
                continue
            vo = o.speed * math.cos(o.heading - ego.heading)
            d = [(o.position[0] - ego.position[0]) + (vo - v) * w * q for w in (t - 1, t, t + 1)]
            met = met or min(d) <= 1e-6 <= max(d) + 2e-6 or abs(v - vo) < 0.05
        require(met, "cell (speed %g, lane %d, time %g) announces a collision with nobody", v, i, t * q)
        rec.hit("meeting")
    base = grids(*(lambda e, g, _: (e, g, q, case["horizon"]))(*scene_env(dict(case, turn=[0] * 8))))
    env2, ego2, _ = scene_env(dict(case, turn=[0] * 8), case["shift"])
    judge_grid(compute_ttc_grid(env2, q, case["horizon"], ego2), *base, "TTC grid of the same scene %g m further"
               % case["shift"], rec)
    if len(bodies) > 1:
        env3, ego3, b3 = scene_env(dict(case, turn=[0] * 8))
        env3.road.vehicles.pop()
        less = compute_ttc_grid(env3, q, case["horizon"], ego3)
        require((less <= grid).all(), "removing a vehicle raised cells of the grid")


# ---------------------------------------------------------------- environments

@st.composite
def obs_case(draw):
    ids = ["highway-v0", "highway-v0", "merge-v0", "roundabout-v0", "intersection-v0", "intersection-multi-agent-v0",
           "two-way-v0"]
    c = draw(envs.env_case(ids=ids, obs=False, actions=False, max_steps=5, vehicle_types=True))
    c["config"].pop("action", None)
    if c["env"] == "highway-v0":
        c["config"].update(vehicles_count=draw(st.integers(1, 12)), vehicles_density=draw(st.sampled_from([1, 2])))
        if draw(st.integers(0, 3)) == 0:
            c["config"].update(controlled_vehicles=2, action={"type": "MultiAgentAction",
                                                              "action_config": envs.DISCRETE})
            acts = st.lists(envs.action_strategy(("m", ("d", 5)), 2), min_size=1, max_size=4)
            c["actions"] = draw(acts)
    o = {"type": "TimeToCollision"}
    if draw(st.booleans()):
        o["horizon"] = draw(st.integers(2, 12))
    multi = envs.case_kind(c)[0] == "m"
    c["config"]["observation"] = {"type": "MultiAgentObservation", "observation_config": o} if multi else o
    return c


def window(grid, ego):
    """3 speeds around the chosen one (clamped), 3 lanes around the current one (no lane = full)."""
    out = np.ones((3, 3, grid.shape[2]))
    for a in range(3):
        k = min(max(ego.speed_index + a - 1, 0), grid.shape[0] - 1)
        for b in range(3):
            i = ego.lane_index[2] + b - 1
            if 0 <= i < grid.shape[1]:
                out[a, b] = grid[k, i]
    return out


def check_obs(case, rec):
    """The observation is the part of the grid around the current lane and speed, for every agent."""
    env, obs = envs.build(case)
    env = env.unwrapped
    cfg = case["config"]["observation"]
    multi = "observation_config" in cfg
    cfg = cfg.get("observation_config", cfg)
    freq = env.config["policy_frequency"]

    def each(o, what):
        egos = list(env.controlled_vehicles) if multi else [env.vehicle]
        require(not multi or len(o) == len(egos), "%s: %d observations", what, len(o))
        for k, (v, x) in enumerate(zip(egos, o if multi else (o,))):
            low, high = grids(env, v, 1 / freq, cfg.get("horizon", 10))
            judge_grid(x, window(low, v), window(high, v), "%s (agent %d)" % (what, k), rec)
    each(obs, "first observation")
    for k, a in enumerate(envs.actions_of(case)):
        o, _, d, _ = env.step(a)
        if not case["env"].startswith("intersection"):
            each(o, "observation of step %d" % k)
        each(env.observation_type.observe(), "observation after step %d" % k)
        if d:
            break
    rec.note(case["env"])


# ------------------------------------------------------------------ finite MDP

def stub():
    """finite_mdp is not a dependency that is installed: record what would be given to it."""
    m = types.ModuleType("finite_mdp.mdp")

    class DeterministicMDP:
        def __init__(self, transition, reward, terminal=None, state=0):
            self.transition, self.reward, self.terminal, self.state = transition, reward, terminal, state
    m.DeterministicMDP = DeterministicMDP
    p = types.ModuleType("finite_mdp")
    p.mdp = m
    sys.modules["finite_mdp"], sys.modules["finite_mdp.mdp"] = p, m


@st.composite
def mdp_case(draw):
    env_id = draw(st.sampled_from(["highway-v0", "highway-v0", "highway-v0", "roundabout-v0", "merge-v0"]))
    cfg = {"policy_frequency": draw(st.sampled_from([1, 1, 2]))}
    if env_id == "highway-v0":
        cfg.update(lanes_count=draw(st.integers(1, 4)), vehicles_count=draw(st.integers(1, 10)),
                   vehicles_density=draw(st.sampled_from([1, 2])))
    if env_id == "highway-v0" or True:
        cfg["collision_reward"] = draw(st.sampled_from([-1, -3, -0.5, 0]))
    return {"env": env_id, "config": cfg, "seed": draw(st.integers(0, 2 ** 31 - 1)),
            "actions": draw(st.lists(st.integers(0, 4), max_size=3))}


def check_mdp(case, rec):
    """State, moves, rewards and ends of the finite MDP are those of the grid."""
    stub()
    env, _ = envs.build(case)
    env = env.unwrapped
    for a in envs.actions_of(case):
        if env.step(a)[2]:
            break
    ego = env.vehicle
    mdp = env.to_finite_mdp()
    low, high = grids(env, ego, 1 / env.config["policy_frequency"], 10)
    shape = low.shape
    require(tuple(mdp.original_shape) == shape, "shape %s, expected %s", mdp.original_shape, shape)
    nv, nl, nt = shape
    n = nv * nl * nt

    def idx(v, i, t):
        return (min(max(v, 0), nv - 1) * nl + min(max(i, 0), nl - 1)) * nt + min(max(t, 0), nt - 1)
    require(int(mdp.state) == idx(ego.speed_index, ego.lane_index[2], 0), "current state %s is not (%d, %d, 0)",
            mdp.state, ego.speed_index, ego.lane_index[2])
    tr, rew, term = np.asarray(mdp.transition), np.asarray(mdp.reward, dtype=float), np.asarray(mdp.terminal)
    require(tr.shape == (n, 5) and rew.shape == (n, 5) and term.shape == (n,), "shapes %s %s %s", tr.shape, rew.shape,
            term.shape)
    change = env.LANE_CHANGE_REWARD
    for v in range(nv):
        for i in range(nl):
            for t in range(nt):
                s = idx(v, i, t)
                dv = 1 if t == 0 else 0
                want = [idx(v, i - 1, t + 1), idx(v, i, t + 1), idx(v, i + 1, t + 1), idx(v + dv, i, t + 1),
                        idx(v - dv, i, t + 1)]
                require(list(tr[s]) == want, "moves from (speed %d, lane %d, time %d): %s, expected %s", v, i, t,
                        list(tr[s]), want)
                if low[v, i, t] != high[v, i, t]:
                    continue
                base = env.config["collision_reward"] * low[v, i, t] + env.RIGHT_LANE_REWARD * i / max(nl - 1, 1) \
                    + env.HIGH_SPEED_REWARD * v / max(nv - 1, 1)
                require_close(rew[s], [base + change, base, base + change, base, base],
                              "rewards in (speed %d, lane %d, time %d)" % (v, i, t), atol=1e-9)
                require(bool(term[s]) == (low[v, i, t] == 1 or t == nt - 1), "terminal in (%d, %d, %d) is %s, grid %g",
                        v, i, t, term[s], low[v, i, t])
    if low.any():
        rec.hit(case["env"])
    # planning in it: following any action for the whole horizon ends in the last time slice
    s = int(mdp.state)
    for _ in range(nt + 2):
        s = int(tr[s, 1])
    require(s % nt == nt - 1, "staying idle for the horizon does not reach its end")


PROP = Prop(
    "C21",
    "A case is a scene of several vehicles with an observer that has discrete speeds, a time step and a horizon, or an "
    "environment with a seed and actions; non-trivial when some collision is predicted.",
    [
        Sub("grid", scene_case, check_grid, 900, 20000, clause="cells against the own constant-speed prediction"),
        Sub("round", round_case, check_grid, 300, 6000, clause="the same with whole times to collision, without tolerance"),
        Sub("meaning", scene_case, check_meaning, 500, 10000, clause="a full cell is a meeting; translation invariance; "
            "monotonicity"),
        Sub("obs", obs_case, check_obs, 220, 5000, clause="observed window around the lane and speed, every agent"),
        Sub("mdp", mdp_case, check_mdp, 120, 2500, clause="states, transitions, rewards, terminal states of the MDP"),
    ],
    ["a time to collision on the edge of a cell (1e-6) may fall on either side",
     "finite_mdp itself is not installed: a recording stand-in replaces its DeterministicMDP class"])
