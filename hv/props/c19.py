"""C19 kinematics observations."""
import numpy as np
from hypothesis import strategies as st

from .. import envs, geo
from ..core import Prop, Sub, require, require_close, fmt

envs.prime()
FEATURES = ["presence", "x", "y", "vx", "vy", "cos_h", "sin_h", "cos_d", "sin_d", "heading"]


@st.composite
def obs_cfg(draw):
    cfg = {"type": "Kinematics"}
    if draw(st.integers(0, 3)):
        cfg["features"] = draw(st.lists(st.sampled_from(FEATURES), min_size=1, max_size=8, unique=True))
    if draw(st.integers(0, 3)):
        cfg["vehicles_count"] = draw(st.integers(1, 14) if draw(st.integers(0, 5)) else st.integers(14, 40))
    for k in ("absolute", "see_behind", "observe_intentions", "normalize", "clip"):
        if draw(st.integers(0, 2)) == 0:
            cfg[k] = draw(st.booleans())
    if "clip" not in cfg and draw(st.booleans()):
        cfg["clip"] = False
    if draw(st.integers(0, 3)) == 0:
        cfg["order"] = draw(st.sampled_from(["sorted", "shuffled"]))
    if draw(st.booleans()):
        r = {}
        for f in draw(st.lists(st.sampled_from(["x", "y", "vx", "vy", "cos_h", "heading"]), min_size=2, max_size=6,
                               unique=True)):
            lo = draw(geo.fl(-120, 20, 1))
            r[f] = [lo, round(lo + draw(geo.fl(1, 200, 1)), 1)] if draw(st.booleans()) else \
                draw(st.sampled_from([[-1, 1], [-2, 2], [0, 1], [-0.2, 0.1], [-10, 3]]))
        cfg["features_range"] = r
    return cfg


@st.composite
def kin_case(draw):
    ids = ["highway-v0", "highway-v0", "merge-v0", "roundabout-v0", "intersection-v0", "intersection-multi-agent-v0",
           "two-way-v0", "lane-keeping-v0"]
    c = draw(envs.env_case(ids=ids, obs=False, max_steps=3, freqs=False))
    if c["env"] == "highway-v0":
        c["config"]["vehicles_count"] = draw(st.integers(0, 20) if draw(st.integers(0, 5)) else st.integers(20, 40))
        if draw(st.integers(0, 3)) == 0:
            c["config"]["vehicles_density"] = draw(st.sampled_from([2, 3]))
    o = draw(obs_cfg())
    if c["env"] == "intersection-multi-agent-v0" or c["config"].get("action", {}).get("type") == "MultiAgentAction":
        c["config"]["observation"] = {"type": "MultiAgentObservation", "observation_config": o}
    else:
        c["config"]["observation"] = o
    # any state: displaced, turned, fast or backing vehicles
    c["scatter"] = draw(st.lists(st.tuples(st.integers(0, 12), geo.fl(-60, 60, 1), geo.fl(-9, 9, 1), geo.fl(-4, 4, 2),
                                           geo.fl(-15, 40, 1)), max_size=5))
    return c


def feature(v, name, intentions=True):
    h = float(np.squeeze(v.heading))
    vel = np.squeeze(np.asarray(v.velocity, dtype=float)) if "Bicycle" in type(v).__name__ \
        else float(v.speed) * np.array([np.cos(h), np.sin(h)])
    p = np.array(v.position, dtype=float)
    if name in ("cos_d", "sin_d"):
        if not intentions or not getattr(v, "route", None):
            return 0.0
        a, b, i = v.route[-1]
        lane = v.road.network.get_lane((a, b, i or 0))
        d = lane.position(lane.length, 0) - p
        n = np.linalg.norm(d)
        return 0.0 if n == 0 else float(d[0 if name == "cos_d" else 1] / n)
    return float({"presence": 1, "x": p[0], "y": p[1], "vx": vel[0], "vy": vel[1], "heading": h, "cos_h": np.cos(h),
                  "sin_h": np.sin(h)}[name])


def default_range(env, ego):
    n = len(env.road.network.all_side_lanes(ego.lane_index))
    return {"x": [-150, 150], "y": [-4 * n, 4 * n], "vx": [-60, 60], "vy": [-60, 60]}


def expected(env, ego, cfg, ranges):
    """(rows, sure): rows of the observation in order, and whether that order (and choice) is unambiguous."""
    count = cfg.get("vehicles_count", 5)
    names = cfg.get("features", ["presence", "x", "y", "vx", "vy"])
    lane = env.road.network.get_lane(ego.lane_index)
    s0 = lane.local_coordinates(ego.position)[0]
    near, sure = [], True
    for v in env.road.vehicles:
        if v is ego:
            continue
        r = np.linalg.norm(v.position - ego.position)
        s = lane.local_coordinates(v.position)[0] - s0
        if abs(r - env.PERCEPTION_DISTANCE) < 1e-6 or (not cfg.get("see_behind", False) and abs(s + 10) < 1e-6):
            sure = False
        if r < env.PERCEPTION_DISTANCE and (cfg.get("see_behind", False) or s > -10):
            near.append((abs(s), v))
    near.sort(key=lambda t: t[0])
    if any(b[0] - a[0] < 1e-9 for a, b in zip(near, near[1:])):
        sure = False
    rows = [[feature(ego, f) for f in names]]
    for _, v in near[:count - 1]:
        row = []
        for f in names:
            x = feature(v, f, cfg.get("observe_intentions", False))
            if f in ("x", "y", "vx", "vy") and not cfg.get("absolute", False):
                x -= feature(ego, f)
            row.append(x)
        rows.append(row)
    if cfg.get("normalize", True):
        for row in rows:
            for j, f in enumerate(names):
                if f in ranges:
                    lo, hi = ranges[f]
                    row[j] = -1 + 2 * (row[j] - lo) / (hi - lo)
                    if cfg.get("clip", True):
                        row[j] = min(1.0, max(-1.0, row[j]))
    rows += [[0.0] * len(names) for _ in range(count - len(rows))]
    return np.array(rows), sure, len(near)


def judge(env, egos, cfg, ranges, obs, what, rec):
    many = isinstance(obs, tuple)
    require(not many or len(obs) == len(egos), "%s: %d observations for %d agents", what, len(obs), len(egos))
    for k, (ego, o) in enumerate(zip(egos, obs if many else (obs,))):
        want, sure, near = expected(env, ego, cfg, ranges[k])
        o = np.asarray(o, dtype=float)
        require(o.shape == want.shape, "%s: shape %s instead of %s", what, o.shape, want.shape)
        if not sure:
            continue
        if cfg.get("order", "sorted") == "shuffled":
            require_close(o[0], want[0], "%s: first row" % what, atol=1e-6)
            left = [r for r in want[1:]]
            for r in o[1:]:
                hit = next((i for i, w in enumerate(left) if np.allclose(r, w, atol=1e-6, rtol=1e-6)), None)
                require(hit is not None, "%s: row %s of a shuffled observation is not one of %s", what, fmt(r), fmt(left))
                left.pop(hit)
        else:
            require_close(o, want, "%s of vehicle %d (%s)" % (what, k, cfg), atol=1e-6)
        if near:
            rec.hit("crowded" if near > cfg.get("vehicles_count", 5) - 1 else "padded" if near <
                    cfg.get("vehicles_count", 5) - 1 else "exact")


def check(case, rec):
    """Every row of the observation is the one that its definition gives for the scene."""
    env, obs = envs.build(case)
    env = env.unwrapped
    cfg = case["config"]["observation"]
    cfg = cfg.get("observation_config", cfg)
    multi = "observation_config" in case["config"]["observation"]

    def egos():
        return list(env.controlled_vehicles) if multi else [env.vehicle]
    ranges = [cfg.get("features_range") or default_range(env, v) for v in egos()]
    judge(env, egos(), cfg, ranges, obs, "first observation", rec)
    for k, a in enumerate(envs.actions_of(case)):
        o, _, d, _ = env.step(a)
        if not case["env"].startswith(("intersection", "lane-keeping")):
            judge(env, egos(), cfg, ranges, o, "observation of step %d" % k, rec)
        judge(env, egos(), cfg, ranges, env.observation_type.observe(), "observation after step %d" % k, rec)
        rec.note(case["env"])
        if d:
            break
    for i, x, y, h, v in case["scatter"]:
        if i < len(env.road.vehicles):
            w = env.road.vehicles[i]
            w.position = np.array(w.position, dtype=float) + np.array([x, y])
            w.heading, w.speed = float(np.squeeze(w.heading)) + h, v
            w.on_state_update()
    if case["scatter"]:
        # ranges are those of the road of the first observation
        judge(env, egos(), cfg, ranges, env.observation_type.observe(), "observation of a scattered scene", rec)


def check_frame(case, rec):
    """Relative observations do not depend on where along the road the scene is."""
    from highway_env.vehicle.behavior import IDMVehicle
    rows = []
    for shift in (0.0, case["shift"]):
        env, _ = envs.make("highway-v0", {"vehicles_count": 0, "observation": {
            "type": "Kinematics", "vehicles_count": case["count"], "see_behind": case["behind"],
            "features": ["presence", "x", "y", "vx", "vy", "cos_h"]}}, 0)
        lane = env.road.network.get_lane(("0", "1", case["lane"]))
        env.vehicle.position = lane.position(500 + shift, 0)
        env.vehicle.lane_index = ("0", "1", case["lane"])
        env.vehicle.lane = lane
        for x, lid, v in case["others"]:
            env.road.vehicles.append(IDMVehicle(env.road, env.road.network.get_lane(("0", "1", lid)).position(
                500 + shift + x, 0), 0, v))
        rows.append(env.observation_type.observe()[1:])
    require_close(rows[0], rows[1], "relative observation of the same scene %.1f m further" % case["shift"], atol=1e-6)
    rec.hit()


def check_shuffled(case, rec):
    """Over many observations of one scene, every vehicle shows in every row; the observer always in the first."""
    from highway_env.vehicle.behavior import IDMVehicle
    n = case["n"]
    env, _ = envs.make("highway-v0", {"vehicles_count": 0, "observation": {
        "type": "Kinematics", "vehicles_count": n + 1, "order": "shuffled", "see_behind": True}}, case["seed"])
    for k in range(n):
        env.road.vehicles.append(IDMVehicle(env.road, env.vehicle.position + np.array([7.0 * (k + 1), 0]), 0, 20))
    seen = [set() for _ in range(n)]
    for _ in range(40 * n):
        o = env.observation_type.observe()
        xs = [round(float(x), 6) for x in o[:, 1]]
        for k in range(n):
            seen[k].add(xs[k + 1])
    require(all(len(s) == n for s in seen), "vehicles shown in each of the %d shuffled rows: %s", n, [len(s) for s in seen])
    rec.hit("rows:%d" % n)


PROP = Prop(
    "C19",
    "A case is an environment with traffic, a Kinematics configuration (features, count, ranges, flags), a seed and "
    "actions; non-trivial when at least one other vehicle is in sight.",
    [
        Sub("rows", kin_case, check, 500, 10000, clause="rows, order, relative features, normalisation, clipping, padding, "
            "for every agent"),
        Sub("shuffled", lambda: st.builds(lambda n, s: {"n": n, "seed": s}, st.integers(2, 5), st.integers(0, 10 ** 6)),
            check_shuffled, 8, 60, clause="shuffled rows: every vehicle may show in every row"),
        Sub("shift", lambda: st.builds(lambda s, c, b, l, o: {"shift": s, "count": c, "behind": b, "lane": l, "others": o},
                                       geo.fl(-400, 3000, 1), st.integers(2, 6), st.booleans(), st.integers(0, 3),
                                       st.lists(st.tuples(geo.fl(-150, 150, 1), st.integers(0, 3), geo.fl(0, 30, 1)),
                                                min_size=1, max_size=6, unique_by=lambda t: round(abs(t[0]) * 5))),
            check_frame, 100, 1500, clause="invariance by translation along the road"),
    ],
    ["vehicles at equal distance (1e-9), or on the edge of the perceived area (1e-6), are not judged",
     "the default ranges follow the number of lanes of the road where the episode starts"])
