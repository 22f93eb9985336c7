"""C20 occupancy grid observations."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import envs, geo
from ..core import Prop, Sub, require, fmt
from .c19 import feature

FEATURES = ["presence", "vx", "vy", "cos_h", "sin_h", "x", "y", "cos_d", "sin_d"]


@st.composite
def grid_cfg(draw):
    cfg = {"type": "OccupancyGrid"}
    if draw(st.integers(0, 3)):
        cfg["features"] = draw(st.lists(st.sampled_from(FEATURES), min_size=1, max_size=6, unique=True))
    if draw(st.integers(0, 3)):
        nx, ny = draw(st.integers(1, 16)), draw(st.integers(1, 14))
        sx, sy = draw(st.sampled_from([1, 2, 4, 5, 10, 2.5, 20, 60])), draw(st.sampled_from([1, 2, 4, 5, 3, 12, 30]))
        x0, y0 = draw(geo.fl(-1, 0.2, 2)), draw(geo.fl(-1, 0.2, 2))
        x0, y0 = round(x0 * nx * sx * 4) / 4, round(y0 * ny * sy * 4) / 4     # exact in floating point
        fx = draw(st.sampled_from([0, 0, 0.5]))     # an extent that is not a multiple of the step is floored
        cfg["grid_size"] = [[x0, x0 + nx * sx + fx * sx], [y0, y0 + ny * sy]]
        cfg["grid_step"] = [sx, sy]
    if draw(st.integers(0, 2)) == 0:
        r = {}
        for f in draw(st.lists(st.sampled_from(["x", "y", "vx", "vy", "cos_h"]), min_size=1, max_size=4, unique=True)):
            lo = draw(geo.fl(-100, 20, 1))
            r[f] = [lo, round(lo + draw(geo.fl(1, 200, 1)), 1)]
        cfg["features_range"] = r
    return cfg


@st.composite
def grid_case(draw):
    ids = ["highway-v0", "highway-v0", "merge-v0", "roundabout-v0", "intersection-v0", "intersection-multi-agent-v0",
           "two-way-v0"]
    c = draw(envs.env_case(ids=ids, obs=False, max_steps=3, freqs=False))
    if c["env"] == "highway-v0":
        c["config"].update(vehicles_count=draw(st.integers(0, 15)), vehicles_density=draw(st.sampled_from([1, 2, 4])))
        if draw(st.booleans()):
            c["config"]["initial_lane_id"] = draw(st.integers(0, c["config"]["lanes_count"] - 1))
    o = draw(grid_cfg())
    if c["env"] == "intersection-multi-agent-v0" or c["config"].get("action", {}).get("type") == "MultiAgentAction":
        c["config"]["observation"] = {"type": "MultiAgentObservation", "observation_config": o}
    else:
        c["config"]["observation"] = o
    return c


def judge(env, ego, cfg, obs, what, rec):
    names = cfg.get("features", ["presence", "vx", "vy"])
    (x0, x1), (y0, y1) = cfg.get("grid_size", [[-27.5, 27.5], [-27.5, 27.5]])
    sx, sy = cfg.get("grid_step", [5, 5])
    nx, ny = int(math.floor((x1 - x0) / sx + 1e-9)), int(math.floor((y1 - y0) / sy + 1e-9))
    ranges = cfg.get("features_range") or {"vx": [-60, 60], "vy": [-60, 60]}
    obs = np.asarray(obs, dtype=float)
    require(obs.shape == (len(names), ny, nx), "%s: shape %s, expected %s (features, y, x)", what, obs.shape,
            (len(names), ny, nx))
    cells, blurred = {}, set()
    for v in env.road.vehicles:
        dx, dy = feature(v, "x") - feature(ego, "x"), feature(v, "y") - feature(ego, "y")
        u, w = (dx - x0) / sx, (dy - y0) / sy
        i, j = math.floor(u), math.floor(w)
        vals = []
        for f in names:
            x = feature(v, f)
            if f in ("x", "y", "vx", "vy"):
                x -= feature(ego, f)
            if f in ranges:
                lo, hi = ranges[f]
                x = -1 + 2 * (x - lo) / (hi - lo)
            vals.append(min(1.0, max(-1.0, x)))
        edges = {(i, j)}
        if abs(u - round(u)) < 1e-6:
            edges |= {(round(u) - 1, b) for _, b in set(edges)} | {(round(u), b) for _, b in set(edges)}
        if abs(w - round(w)) < 1e-6:
            edges |= {(a, round(w) - 1) for a, _ in set(edges)} | {(a, round(w)) for a, _ in set(edges)}
        if len(edges) > 1:
            blurred |= edges
        for e in edges:
            cells.setdefault(e, []).append(vals)
        if v is not ego and 0 <= i < nx and 0 <= j < ny:
            rec.hit("traffic in the grid")
        elif v is not ego:
            rec.note("traffic out of the grid")
    for j in range(ny):
        for i in range(nx):
            got = obs[:, j, i]
            if (i, j) not in cells:
                require(not got.any(), "%s: cell x %d, y %d is %s, nobody is there (%s)", what, i, j, fmt(got), cfg)
                continue
            ok = any(np.allclose(got, c, atol=1e-6) for c in cells[i, j]) or ((i, j) in blurred and not got.any())
            require(ok, "%s: cell x %d, y %d is %s, vehicles there have %s (%s)", what, i, j, fmt(got), cells[i, j], cfg)


def check(case, rec):
    """Each cell shows a vehicle that is in it, and only those."""
    env, obs = envs.build(case)
    env = env.unwrapped
    cfg = case["config"]["observation"]
    multi = "observation_config" in cfg
    cfg = cfg.get("observation_config", cfg)

    def each(o, what):
        egos = list(env.controlled_vehicles) if multi else [env.vehicle]
        for k, (v, x) in enumerate(zip(egos, o if multi else (o,))):
            judge(env, v, cfg, x, "%s (agent %d)" % (what, k), rec)
    each(obs, "first observation")
    for k, a in enumerate(envs.actions_of(case)):
        o, _, d, _ = env.step(a)
        if not case["env"].startswith("intersection"):
            each(o, "observation of step %d" % k)
        each(env.observation_type.observe(), "observation after step %d" % k)
        if d:
            break
    egos = list(env.controlled_vehicles)
    rest = [v for v in env.road.vehicles if not any(v is e for e in egos)]
    for v in rest[::2]:                 # wrecks at rest are shown as well
        v.crashed, v.speed = True, 0
    each(env.observation_type.observe(), "with wrecks")
    for v in rest:
        env.road.vehicles.remove(v)
    each(env.observation_type.observe(), "after the traffic left")
    rec.note(case["env"])


PROP = Prop(
    "C20",
    "A case is an environment with traffic, a grid configuration (features, extent, steps, ranges), a seed and actions; "
    "non-trivial when at least one other vehicle is in the grid.",
    [Sub("cells", grid_case, check, 350, 8000, clause="each cell shows the features of a vehicle that is in it, or zeros; "
         "shape, normalisation, clipping, for every agent")],
    ["a vehicle on the border of a cell (1e-6) may be in either", "with several vehicles in a cell any of them may show"])
