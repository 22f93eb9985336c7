"""C30 predicted and recorded trajectories."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import envs, geo, traffic
from ..core import Prop, Sub, require, require_close, wrap

LABELS = {5: ["LANE_LEFT", "IDLE", "LANE_RIGHT", "FASTER", "SLOWER"]}


def labels_of(cfg):
    if cfg.get("longitudinal", True) and cfg.get("lateral", True):
        return LABELS[5]
    return ["SLOWER", "IDLE", "FASTER"] if cfg.get("longitudinal", True) else ["LANE_LEFT", "IDLE", "LANE_RIGHT"]


def state(v):
    return (np.array(v.position, dtype=float), float(v.heading), float(v.speed))


def meta(v):
    return (tuple(v.lane_index), tuple(v.target_lane_index), v.speed_index, float(v.target_speed),
            envs.plain(v.route))


# ---------------------------------------------------------------- futures of an environment

@st.composite
def future_case(draw):
    env = draw(st.sampled_from(["highway-v0", "highway-v0", "merge-v0", "roundabout-v0", "intersection-v0",
                                "two-way-v0"]))
    cfg = {"simulation_frequency": draw(st.sampled_from([5, 10, 15, 16, 30]))}
    if env == "highway-v0":
        cfg.update(vehicles_count=draw(st.integers(0, 5)), lanes_count=draw(st.integers(1, 4)), duration=100)
    elif env.startswith("intersection"):
        cfg.update(initial_vehicle_count=draw(st.integers(1, 4)), spawn_probability=0)
    act = {"type": "DiscreteMetaAction"}
    which = draw(st.integers(0, 3))
    if which == 0:
        act["longitudinal"] = False
    elif which == 1 or (env.startswith("intersection") and which == 2):
        act["lateral"] = False
    cfg["action"] = act
    f = cfg["simulation_frequency"]
    p = draw(st.sampled_from([q for q in (1, 2, 5) if f % q == 0]))
    cfg["policy_frequency"] = p
    per = f // p
    n = 3 if len(labels_of(act)) == 3 else 5
    return {"env": env, "config": cfg, "seed": draw(st.integers(0, 2 ** 31 - 1)),
            "warm": draw(st.lists(st.integers(0, n - 1), min_size=0, max_size=3)),
            "plan": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=5)),
            "save": draw(st.sampled_from([k for k in (1, 2, 3, 5, 7, per) if k <= per * 2])),
            "random": draw(st.booleans())}


def check_future(case, rec):
    """The prediction for a plan is what happens when the plan is executed."""
    cfg = dict(case["config"])
    labels = labels_of(cfg["action"])
    env, _ = envs.make(case["env"], cfg, case["seed"])
    for a in case["warm"]:
        _, _, d, _ = env.step(a)
        if d:
            rec.note("over during the warm-up")
            return
    v = env.vehicle
    f, p = cfg["simulation_frequency"], cfg["policy_frequency"]
    per, save = f // p, case["save"]
    before = envs.scene(env)
    rng = envs.plain(tuple(env.road.np_random.get_state()[1:3]))
    ids = {labels[i]: i for i in range(len(labels))}
    plan = [labels[a] for a in case["plan"]]
    got = v.predict_trajectory(plan, per / f, save / f, 1 / f)
    require(envs.scene(env) == before, "predicting changed the scene: %s",
            envs.first_difference(before, envs.scene(env)))
    require(envs.plain(tuple(env.road.np_random.get_state()[1:3])) == rng, "predicting consumed random numbers")
    # the real future, frame by frame
    frames = []
    road, real_step = env.road, env.road.step

    def spy(dt):
        real_step(dt)
        frames.append((state(v), meta(v), bool(v.crashed)))
    road.step = spy
    for a in plan:
        _, _, d, _ = env.step(ids[a])
        if v.crashed:
            break
        if d and case["env"].startswith("intersection"):
            break
    require(len(got) == (len(plan) * per) // save, "%d states predicted, expected %d", len(got),
            (len(plan) * per) // save)
    n = 0
    for k, w in enumerate(got):
        i = (k + 1) * save - 1
        if i >= len(frames) or any(fr[2] for fr in frames[:i + 1]):
            rec.note("crash")
            break
        (q, h, s), m, _ = frames[i]
        n += 1
        require_close(w.position, q, "%s: position predicted after %d frames" % (plan, i + 1), 1e-7)
        require(abs(wrap(w.heading - h)) < 1e-7 and abs(w.speed - s) < 1e-7,
                "after %d frames of %s: predicted heading %s and speed %s, got %s and %s", i + 1, plan, w.heading,
                w.speed, h, s)
        if i + 1 < len(frames):
            require(meta(w) == m, "after %d frames of %s: predicted lanes and targets %r, got %r", i + 1, plan, meta(w), m)
        require(w is not v and w.road is not None, "a prediction is another vehicle")
    require(len({id(w) for w in got}) == len(got), "the predicted states are distinct snapshots")
    if n:
        rec.hit(case["env"])
        if len(set(plan)) > 1:
            rec.note("several actions")
        if tuple(got[n - 1].lane_index) != before[2][before[4][0]][5]:
            rec.note("changes lane or road")


# ---------------------------------------------------------------- constant speed along routes

@st.composite
def route_case(draw):
    kind = draw(st.sampled_from(["geo", "geo", "any"]))
    spec = draw(geo.geometric_network()) if kind == "geo" else draw(geo.network_spec(nodes=4, roads=6, max_lanes=2))
    models = geo.model_network(spec)
    cur = draw(st.sampled_from(sorted(models)))
    g = geo.successors(spec)
    counts = {(e["from"], e["to"]): len(e["lanes"]) for e in spec}
    start = draw(st.sampled_from(["none", "here", "here", "dropped", "dropped"]))
    route, a = None, cur[1]
    if start != "none":
        route = [list(cur)] if start == "here" else []
        for _ in range(draw(st.integers(1 if start == "dropped" else 0, 4))):
            if a not in g:
                break
            b = draw(st.sampled_from(g[a]))
            i = draw(st.integers(0, counts[a, b] - 1))
            route.append([a, b, None if counts[a, b] == 1 and draw(st.booleans()) else i])
            a = b
        route = route or None
    return {"net": spec, "cur": list(cur), "route": route, "s": draw(geo.fl(0, 1)), "r": draw(geo.fl(-2, 2)),
            "v": draw(st.one_of(geo.fl(0, 30), st.integers(1, 30).map(float), geo.fl(-5, 0))),
            "times": draw(st.lists(st.one_of(geo.fl(0, 12), st.integers(0, 10).map(float)), min_size=1, max_size=6)),
            "c": draw(st.sampled_from(["controller.ControlledVehicle", "controller.MDPVehicle",
                                       "behavior.IDMVehicle", "behavior.LinearVehicle"]))}


def check_route(case, rec):
    from highway_env.road.road import Road
    models = geo.model_network(case["net"])
    road = Road(geo.real_network(case["net"]), np_random=np.random.RandomState(0))
    cur = tuple(case["cur"])
    m = models[cur]
    s0 = case["s"] * m.length
    route = [tuple(r) for r in case["route"]] if case["route"] else None
    v = traffic.cls_of(case["c"])(road, list(m.position(s0, case["r"])), m.heading(s0), case["v"],
                                  route=list(route) if route else None)
    here = tuple(v.lane_index)
    if here != cur:
        rec.note("other lanes are closer")
        if route and here[:2] != cur[:2]:
            return
        m = models[here]
    if m.ambiguous(v.position):
        return
    s0 = m.local(v.position)[0]
    pos, head = v.predict_trajectory_constant_speed(np.array(case["times"]))
    require((v.route is None) == (route is None) and (route is None or [tuple(r) for r in v.route] == route),
            "predicting changed the route %r to %r", route, v.route)
    require(len(pos) == len(case["times"]) == len(head), "as many positions and headings as times")
    chain = list(route or [here])
    if chain[0][:2] != here[:2]:
        chain = [here] + chain
    lanes = [models[a, b, i or 0] for a, b, i in chain]
    crossed = 0
    for t, q, h in zip(case["times"], pos, head):
        s, k = s0 + case["v"] * t, 0
        tie = False
        while k < len(lanes) - 1:
            if abs(s - lanes[k].length) < 1e-6:
                tie = True
            if s <= lanes[k].length:
                break
            s, k = s - lanes[k].length, k + 1
        if tie:
            continue
        crossed = max(crossed, k)
        require_close(q, lanes[k].position(s, 0), "position expected in %s s (lane %d of %r)" % (t, k, chain), 1e-5)
        require(abs(wrap(h - lanes[k].heading(s))) < 1e-5, "heading expected in %s s: %s, on the lane %s", t, h,
                lanes[k].heading(s))
    rec.hit("next lanes:%d" % crossed)
    if route and route[0][:2] != here[:2]:
        rec.note("current lane dropped")


@st.composite
def cruise_case(draw):
    k = draw(st.integers(1, 4))
    cuts = draw(st.lists(st.integers(20, 120), min_size=k, max_size=k))
    ang = draw(geo.fl(-3.1, 3.1))
    return {"cuts": cuts, "ang": ang, "s": draw(geo.fl(0, 15)), "v": draw(geo.fl(3, 30)), "plan": draw(st.booleans()),
            "steps": draw(st.integers(1, 60)), "dt": draw(st.sampled_from([0.05, 1 / 15, 0.1])),
            "c": draw(st.sampled_from(["controller.ControlledVehicle", "behavior.IDMVehicle"]))}


def check_cruise(case, rec):
    """A vehicle that keeps its speed on a straight itinerary is where it was expected."""
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.road.lane import StraightLane
    net, x = RoadNetwork(), 0.0
    c, s = math.cos(case["ang"]), math.sin(case["ang"])
    for i, l in enumerate(case["cuts"]):
        net.add_lane(str(i), str(i + 1), StraightLane([x * c, x * s], [(x + l) * c, (x + l) * s], speed_limit=100))
        x += l
    road = Road(net, np_random=np.random.RandomState(0))
    v = traffic.cls_of(case["c"])(road, [case["s"] * c, case["s"] * s], case["ang"], case["v"],
                                  target_speed=case["v"])
    if case["plan"]:
        v.plan_route_to(str(len(case["cuts"])))
    elif len(case["cuts"]) > 1:
        v.route = [(str(i), str(i + 1), 0) for i in range(len(case["cuts"]))]
    road.vehicles.append(v)
    pos, head = v.predict_trajectory_constant_speed(np.arange(1, case["steps"] + 1) * case["dt"])
    d = np.array([c, s])
    for k in range(case["steps"]):
        road.act()
        road.step(case["dt"])
        if float(d @ v.position) > x - 1:
            break
        if case["c"] == "behavior.IDMVehicle" and abs(v.speed - case["v"]) > 1e-9:
            rec.note("slows")
            return
        require_close(v.position, pos[k], "position after %d steps at constant speed" % (k + 1), 1e-5)
        require(abs(wrap(v.heading - head[k])) < 1e-6, "heading after %d steps", k + 1)
        if d @ v.position > sum(case["cuts"][:1]):
            rec.note("several roads")
        rec.hit(case["c"])


# ---------------------------------------------------------------- recorded history

@st.composite
def history_case(draw):
    c = draw(traffic.lanes_scene(ego_types=("controller.MDPVehicle", "kinematics.Vehicle", "behavior.IDMVehicle",
                                            "behavior.LinearVehicle"), max_bodies=3, objects=False))
    c["steps"] = draw(st.one_of(st.integers(1, 12), st.sampled_from([29, 30, 31, 40])))
    c["dt"] = draw(st.sampled_from([0.05, 1 / 15, 0.2]))
    c["record"] = draw(st.integers(0, 4)) > 0
    return c


def check_history(case, rec):
    road, made = traffic.build(case)
    road.record_history = case["record"]
    own = {id(v): [] for v in road.vehicles}
    for _ in range(case["steps"]):
        road.act()
        road.step(case["dt"])
        for v in road.vehicles:
            own[id(v)].append(state(v))
    for v in road.vehicles:
        h = list(v.history)
        if not case["record"]:
            require(not h, "nothing is recorded unless asked")
            continue
        want = own[id(v)][::-1]
        require(len(h) <= 30 and len(h) >= min(30, len(want)), "%d states recorded after %d steps", len(h), len(want))
        for k, w in enumerate(want[:len(h)]):
            require_close(h[k].position, w[0], "position recorded %d steps ago" % k, 1e-9)
            require(abs(h[k].heading - w[1]) < 1e-9, "heading recorded %d steps ago", k)
            # (collisions are resolved after recording: the speed may then change)
            require(h[k].crashed or v.crashed or abs(h[k].speed - w[2]) < 1e-9, "speed recorded %d steps ago: %s, was %s", k,
                    h[k].speed, w[2])
            require(type(h[k]) is type(v), "a %s is recorded for a %s", type(h[k]), type(v))
            require(h[k] is not v, "a record is a copy")
    if case["record"]:
        rec.hit("full" if case["steps"] >= 30 else "short")


PROP = Prop("C30", "a plan is executed without crash for at least one saved state, a predicted place is compared, a "
                   "history is recorded", [
    Sub("futures", future_case, check_future, 500, 12000,
        clause="predict_trajectory gives the states reached when the actions are executed, and changes nothing"),
    Sub("routes", route_case, check_route, 2500, 60000,
        clause="constant-speed predictions follow the planned lanes, over any times, and leave the route as it is"),
    Sub("cruise", cruise_case, check_cruise, 600, 12000,
        clause="at constant speed on a straight itinerary, the vehicle drives what was predicted"),
    Sub("history", history_case, check_history, 300, 6000,
        clause="the recorded history is the last states, newest first, at most thirty"),
], ["action durations are whole numbers of simulation steps",
    "unspecified lane numbers only on single-lane roads"])
