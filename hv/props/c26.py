"""C26 populating the roads: random vehicles, first scenes, flow of the intersection."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import envs, geo, traffic
from ..core import Prop, Sub, require, require_close, wrap
from .c22 import arrived

envs.prime()
CLASSES = ["kinematics.Vehicle", "controller.ControlledVehicle", "controller.MDPVehicle", "behavior.IDMVehicle",
           "behavior.LinearVehicle", "dynamics.BicycleVehicle"]


# ------------------------------------------------------------ random vehicles

@st.composite
def random_case(draw):
    if draw(st.booleans()):
        n = draw(st.integers(1, 6))
        spec = [{"from": "a", "to": "b", "lanes": [{"t": "straight", "start": [0, 4 * i], "end": [5000, 4 * i]}
                                                   for i in range(n)]}]
    else:
        spec = draw(geo.network_spec(nodes=4, roads=5, span=400))
    return {"net": spec, "seed": draw(st.integers(0, 10 ** 6)), "cls": draw(st.sampled_from(CLASSES)),
            "n": draw(st.integers(1, 8)), "speed": draw(st.one_of(st.none(), geo.fl(1, 35), st.just(0))),
            "lane": draw(st.booleans()), "spacing": draw(st.sampled_from([1, 1, 2, 0.5, 0.25, 0]))}


def check_random(case, rec):
    """On a lane of the network, centred, along it, spaced ahead of everybody, with the wanted or an usual speed."""
    from highway_env.road.road import Road
    net, models = geo.real_network(case["net"]), geo.model_network(case["net"])
    road = Road(net, np_random=np.random.RandomState(case["seed"]))
    width = min(len(e["lanes"]) for e in case["net"])
    lane_id = (case["seed"] % width) if case["lane"] else None
    cls = traffic.cls_of(case["cls"])
    for k in range(case["n"]):
        before = len(road.vehicles)
        v = cls.create_random(road, speed=case["speed"], lane_id=lane_id, spacing=case["spacing"])
        require(type(v) is cls, "a %s instead of a %s", type(v).__name__, cls.__name__)
        require(len(road.vehicles) == before, "the new vehicle was put on the road")
        if case["speed"] is None:
            require(23 <= v.speed <= 25, "random speed %r", v.speed)
        else:
            require(v.speed == case["speed"], "speed %r, wanted %r", v.speed, case["speed"])
        ok = []
        for key, m in models.items():
            if lane_id is not None and key[2] != lane_id:
                continue
            s, r = m.local(v.position)
            if abs(r) < 1e-6 and abs(wrap(v.heading - m.heading(s))) < 1e-6 or m.ambiguous(v.position):
                lanes = sum(1 for q in models if q[:2] == key[:2])
                offset = case["spacing"] * 1.5 * v.speed * math.exp(-lanes / 6)
                ref = max([m.local(w.position)[0] for w in road.vehicles], default=3 * offset)
                hard = m.ambiguous(v.position) or any(m.ambiguous(w.position) for w in road.vehicles)
                if hard or 0.9 * offset - 1e-6 <= s - ref <= 1.1 * offset + 1e-6 or m.d["t"] == "circular":
                    ok.append(key)
        require(bool(ok), "vehicle %d at %s (heading %.3f, speed %.2f) is not %g times the usual spacing ahead on a lane (id "
                "%s) of the network", k, v.position, v.heading, v.speed, case["spacing"], lane_id)
        road.vehicles.append(v)
        rec.hit("first" if k == 0 else "after others")


def check_spread(case, rec):
    """Every lane gets vehicles; spacings and speeds vary within their ranges."""
    env, _ = envs.make("highway-v0", {"lanes_count": case["lanes"], "vehicles_count": 30 * case["lanes"]}, case["seed"])
    vs = env.road.vehicles[1:]
    require(len(vs) == 30 * case["lanes"], "%d vehicles", len(vs))
    ids = {int(round(v.position[1] / 4)) for v in vs}
    require(ids == set(range(case["lanes"])), "lanes used: %s of %d", sorted(ids), case["lanes"])
    speeds = [v.speed for v in vs]
    require(min(speeds) >= 23 and max(speeds) <= 25 and max(speeds) - min(speeds) > 1, "speeds %s to %s", min(speeds),
            max(speeds))
    gaps = [(b.position[0] - a.position[0]) / (1.5 * b.speed * math.exp(-case["lanes"] / 6)) for a, b in zip(vs, vs[1:])]
    require(0.9 - 1e-6 <= min(gaps) < 0.95 and 1.05 < max(gaps) <= 1.1 + 1e-6, "relative gaps %s to %s", min(gaps), max(gaps))
    rec.hit()


def check_copy(case, rec):
    """create_from: same place, speed and plans; make_on_lane: on the lane, at its speed limit by default."""
    spec = [{"from": "a", "to": "b", "lanes": [dict(l, speed_limit=12) for l in case["lanes"]]}]
    from highway_env.road.road import Road
    net, models = geo.real_network(spec), geo.model_network(spec)
    road = Road(net, np_random=np.random.RandomState(0))
    i = case["i"] % len(case["lanes"])
    m = models["a", "b", i]
    s = case["u"] * m.length
    cls, other = traffic.cls_of(case["cls"]), traffic.cls_of(case["other"])
    v = cls.make_on_lane(road, ("a", "b", i), s, case["speed"])
    require(type(v) is cls, "make_on_lane gives a %s", type(v).__name__)
    require_close(v.position, m.position(s, 0), "make_on_lane position")
    require(abs(wrap(v.heading - m.heading(s))) < 1e-6, "make_on_lane heading")
    require(v.speed == (net.get_lane(("a", "b", i)).speed_limit if case["speed"] is None else case["speed"]),
            "make_on_lane speed %r, asked %r", v.speed, case["speed"])
    plain = case["cls"] in ("kinematics.Vehicle", "dynamics.BicycleVehicle")
    if plain and case["other"] not in ("kinematics.Vehicle", "dynamics.BicycleVehicle"):
        return
    if not plain:
        v.target_speed = case["ts"]
        v.target_lane_index = ("a", "b", (i + 1) % len(case["lanes"]))
        v.route = [("a", "b", i)]
        if case["cls"].startswith("behavior"):
            v.timer = case["timer"]
    w = other.create_from(v)
    require(type(w) is other and w is not v, "create_from gives a %s", type(w).__name__)
    require(np.array_equal(w.position, v.position) and w.heading == v.heading and w.speed == v.speed and w.road is road,
            "create_from changes the state")
    require(w.position is not v.position, "create_from shares the position")
    if not plain and hasattr(w, "target_speed"):
        if case["other"] != "controller.MDPVehicle":
            require(w.target_speed == v.target_speed, "target speed %r, the original has %r", w.target_speed, v.target_speed)
        require(w.target_lane_index == v.target_lane_index, "target lane %r, the original has %r", w.target_lane_index,
                v.target_lane_index)
        require(w.route == v.route, "route %r, the original has %r", w.route, v.route)
        if case["cls"].startswith("behavior") and case["other"].startswith("behavior"):
            require(w.timer == v.timer, "timer %r, the original has %r", w.timer, v.timer)
    rec.hit(case["other"])


# ---------------------------------------------------------------- first scenes

@st.composite
def scene_case(draw):
    c = draw(envs.env_case(ids=["highway-v0", "highway-v0", "intersection-v0", "intersection-multi-agent-v0", "merge-v0",
                                "roundabout-v0", "two-way-v0", "parking-v0", "summon-v0"], max_steps=1, obs=False,
                           freqs=False))
    if c["env"] == "highway-v0":
        c["config"]["vehicles_density"] = draw(st.sampled_from([0.5, 1, 1, 2, 0.25, 5]))
        c["config"]["ego_spacing"] = draw(st.sampled_from([0.5, 1, 2, 3]))
    if c["env"] == "intersection-multi-agent-v0":
        c["config"]["controlled_vehicles"] = draw(st.integers(1, 4))
    c["resets"] = draw(st.integers(0, 2))
    return c


def no_overlap(vs, what):
    for i, v in enumerate(vs):
        for w in vs[i + 1:]:
            require(geo.body_gap((v.position, v.heading), (w.position, w.heading)) > -1e-9, "%s: two vehicles start in each "
                    "other, at %s and %s", what, v.position, w.position)


def check_scene(case, rec):
    """The first scene has the configured population, on lanes, without crash, the ego vehicle where it should be."""
    env, _ = envs.build(case)
    env = env.unwrapped
    cfg = case["config"]
    for k in range(case["resets"] + 1):
        if k:
            env.reset()
        vs, egos = env.road.vehicles, env.controlled_vehicles
        require(not any(v.crashed for v in egos), "the ego vehicle starts crashed")
        require(all(any(v is w for w in vs) for v in egos), "a controlled vehicle is not on the road")
        require(len({id(v) for v in vs}) == len(vs), "a vehicle is listed twice")
        require(all(v.road is env.road for v in vs), "a vehicle belongs to another road")
        require(len(egos) == envs.case_agents(case), "%d agents, configured %d", len(egos), envs.case_agents(case))
        if case["env"] == "highway-v0":
            highway_scene(env, cfg, vs, egos)
        elif case["env"].startswith("intersection"):
            intersection_scene(env, cfg, vs, egos, case)
        elif case["env"] == "parking-v0":
            require(len(vs) == len(egos), "%d vehicles on the parking", len(vs))
            for j, v in enumerate(egos):
                require_close(v.position, [20 * j, 0], "start of agent %d" % j, atol=1e-9)
                require(0 <= v.heading < 2 * math.pi + 1e-9 and v.speed == 0, "start: heading %r, speed %r", v.heading, v.speed)
        elif case["env"] == "summon-v0":
            v = env.vehicle
            require(len(vs) <= 1 + cfg.get("vehicles_count", 10), "%d vehicles", len(vs))
            require(v.speed == 0, "the ego vehicle starts at %r m/s", v.speed)
            for w in vs:
                require(w is v or np.linalg.norm(w.position - v.position) >= 20, "a vehicle at %.2f m of the ego vehicle",
                        np.linalg.norm(w.position - v.position))
        elif case["env"] == "merge-v0":
            require_close(env.vehicle.position, [30, 4], "ego start")
            require(env.vehicle.speed == 30 and len(vs) == 5, "ego speed %r, %d vehicles", env.vehicle.speed, len(vs))
            require(sum(v.lane_index[:2] == ("j", "k") for v in vs) == 1, "one vehicle is on the access ramp")
            require(len(env.road.objects) == 1, "%d objects", len(env.road.objects))
            end = env.road.network.get_lane(("b", "c", 2))
            require_close(env.road.objects[0].position, end.position(end.length, 0), "end of the merging lane")
            no_overlap(vs, "merge")
        elif case["env"] == "roundabout-v0":
            require(env.vehicle.lane_index == ("ser", "ses", 0) and env.vehicle.speed == 8 and len(vs) == 5,
                    "ego on %r at %r, %d vehicles", env.vehicle.lane_index, env.vehicle.speed, len(vs))
            s = env.road.network.get_lane(("ser", "ses", 0)).local_coordinates(env.vehicle.position)
            require_close(s, [125, 0], "ego start on its lane")
            for w in vs:
                if w is env.vehicle:
                    continue
                d = cfg.get("incoming_vehicle_destination")
                ends = ["exr", "sxr", "nxr"]
                require(w.route and w.route[-1][1] in ends, "destination of the traffic: %r", w.route)
                if w is vs[1] and d is not None:
                    require(w.route[-1][1] == ends[d], "the incoming vehicle goes to %r, configured %r", w.route[-1][1], ends[d])
        elif case["env"] == "two-way-v0":
            require_close(env.vehicle.position, [30, 4], "ego start")
            same = [w for w in vs if w is not env.vehicle and abs(wrap(w.heading)) < 1e-9]
            back = [w for w in vs if abs(wrap(w.heading - math.pi)) < 1e-9]
            require(len(same) == 3 and len(back) == 2, "%d in front, %d incoming", len(same), len(back))
            require(all(abs(w.position[1] - 4) < 1e-9 for w in same) and all(abs(w.position[1]) < 1e-9 for w in back),
                    "traffic on the wrong side of the road")
            require(all(w.target_lane_index == ("b", "a", 0) for w in back), "the incoming vehicles aim at %r",
                    [w.target_lane_index for w in back])
        rec.hit(case["env"])


def highway_scene(env, cfg, vs, egos):
    n = cfg["lanes_count"]
    require(len(vs) == cfg["vehicles_count"] + len(egos), "%d vehicles, configured %d and %d agents", len(vs),
            cfg["vehicles_count"], len(egos))
    require(vs[:len(egos)] == egos, "the agents are not the first on the road")
    require(len(env.road.network.lanes_list()) == n, "%d lanes, configured %d", len(env.road.network.lanes_list()), n)
    x = None
    for k, v in enumerate(vs):
        ego = k < len(egos)
        gap = (cfg.get("ego_spacing", 2) if ego else 1 / cfg["vehicles_density"]) * 1.5 * v.speed * math.exp(-n / 6)
        ref = x if x is not None else 3 * gap
        require(0.9 * gap - 1e-6 <= v.position[0] - ref <= 1.1 * gap + 1e-6, "vehicle %d is %.2f m ahead of the previous one, "
                "usual gap %.2f", k, v.position[0] - ref, gap)
        x = v.position[0]
        lane = v.position[1] / 4
        require(abs(lane - round(lane)) < 1e-9 and 0 <= round(lane) < n and v.heading == 0, "vehicle %d at %s", k, v.position)
        if ego:
            require(v.speed == 25, "the ego vehicle starts at %r m/s", v.speed)
            if cfg.get("initial_lane_id") is not None:
                require(round(lane) == cfg["initial_lane_id"], "the ego vehicle is on lane %d, configured %r", round(lane),
                        cfg["initial_lane_id"])
        else:
            require(type(v).__name__ == cfg.get("other_vehicles_type", "a.IDMVehicle").split(".")[-1], "traffic made of %s",
                    type(v).__name__)
    if 0.9 * 1.5 * 23 * math.exp(-n / 6) * min(cfg.get("ego_spacing", 2), 1 / cfg["vehicles_density"]) > 5:
        no_overlap(vs, "highway")


def intersection_scene(env, cfg, vs, egos, case):
    require(len(vs) <= cfg["initial_vehicle_count"] + len(egos), "%d vehicles, configured %d", len(vs),
            cfg["initial_vehicle_count"])
    for j, v in enumerate(egos):
        idx = ("o%d" % (j % 4), "ir%d" % (j % 4), 0)
        require(tuple(v.lane_index) == idx, "agent %d starts on %r", j, v.lane_index)
        s, r = env.road.network.get_lane(idx).local_coordinates(v.position)
        require(abs(r) < 1e-6 and 30 < s < 90, "agent %d starts at s = %.2f, r = %.2f", j, s, r)
        require(v.speed == 10 and v.target_speed == 9, "agent %d starts at %r with target %r", j, v.speed, v.target_speed)
        dest = cfg.get("destination", "o1")
        if j == 0:
            ends = [dest] if dest else ["o1", "o2", "o3"]
            require(v.route[-1][1] in ends, "agent 0 goes to %r, configured %r", v.route[-1][1], dest)
    last = egos[-1]
    for w in vs:
        require(w in egos or np.linalg.norm(w.position - last.position) >= 20, "a vehicle at %.2f m of the last agent",
                np.linalg.norm(w.position - last.position))
        if w not in egos:
            require(bool(w.route) and w.route[-1][1] in ("o0", "o1", "o2", "o3"), "traffic with the route %r", w.route)


# --------------------------------------------------------- flow of the intersection

@st.composite
def flow_case(draw):
    e = draw(st.sampled_from(["intersection-v0", "intersection-v0", "intersection-multi-agent-v0"]))
    n = draw(st.integers(2, 6))
    agents = draw(st.integers(1, 3)) if "multi" in e else 1
    cfg = {"initial_vehicle_count": draw(st.integers(1, 8)), "spawn_probability": draw(st.sampled_from([0, 0.3, 0.6, 1])),
           "duration": 100}
    if "multi" in e:
        cfg["controlled_vehicles"] = agents
    jumps = draw(st.lists(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 3), geo.fl(60, 99)), max_size=3), min_size=n,
                          max_size=n))
    return {"env": e, "config": cfg, "seed": draw(st.integers(0, 10 ** 6)), "jumps": jumps, "slow": draw(st.booleans()),
            "wrecks": draw(st.sampled_from([0, 0, 1, 15])),
            "noroute": draw(st.lists(st.integers(0, 20), min_size=n, max_size=n))}


def leaving(env, v):
    a, b, _ = v.lane_index
    if not ("il" in a and "o" in b):
        return False, 1.0
    lane = env.road.network.get_lane(v.lane_index)
    d = lane.local_coordinates(v.position)[0] - (lane.length - 20)
    return d >= 0, abs(d)


def check_flow(case, rec):
    """Between decisions: who leaves is removed, nobody else; at most one vehicle enters, far from the others."""
    env, _ = envs.make(case["env"], case["config"], case["seed"])
    multi = "multi" in case["env"]
    for k, jumps in enumerate(case["jumps"]):
        for who, exit_, s in jumps:
            v = env.road.vehicles[who % len(env.road.vehicles)]
            idx = ("il%d" % exit_, "o%d" % exit_, 0)
            lane = env.road.network.get_lane(idx)
            if any(w is not v and np.linalg.norm(w.position - lane.position(s, 0)) < 12 for w in env.road.vehicles):
                continue
            v.position, v.heading = np.array(lane.position(s, 0)), lane.heading_at(s)
            v.lane_index = v.target_lane_index = idx
            v.lane, v.route = lane, [idx]
            if case["slow"]:
                v.speed = 1.0
            if case["wrecks"] and v not in env.controlled_vehicles and s > 60 + case["wrecks"]:
                v.crashed = True
        others = [v for v in env.road.vehicles if v not in env.controlled_vehicles]
        if others and case["noroute"][k] < len(others):
            others[case["noroute"][k]].route = None
        before = list(env.road.vehicles)
        egos = list(env.controlled_vehicles)
        _, _, d, _ = env.step(tuple(1 for _ in egos) if multi else 1)
        after = env.road.vehicles
        require(list(env.controlled_vehicles) == egos, "the agents changed")
        for v in egos:
            require(any(v is w for w in after), "a controlled vehicle was removed")
        for v in before:
            gone = not any(v is w for w in after)
            out, edge = leaving(env, v)
            if v in egos or edge < 1e-6:
                continue
            require(gone == bool(out or v.route is None), "a vehicle on %r (s to the limit: %s, route %r) was %s",
                    v.lane_index, edge, v.route, "removed" if gone else "kept")
            if gone:
                rec.hit("left")
        new = [v for v in after if not any(v is w for w in before)]
        require(len(new) <= (0 if case["config"]["spawn_probability"] == 0 else 1), "%d new vehicles", len(new))
        for v in new:
            a = v.lane_index[0]
            require(a.startswith("o") and v.route[0][:2] == v.lane_index[:2], "a vehicle enters on %r", v.lane_index)
            s, r = v.lane.local_coordinates(v.position)
            require(abs(r) < 1e-6 and -1 <= s <= 11 and 2 < v.speed < 14, "a vehicle enters at s = %.2f, r = %.2f, %.1f m/s", s, r,
                    v.speed)
            require(v.route[-1][1].startswith("o") and v.route[-1][1] != a, "a vehicle enters from %s to %r", a, v.route)
            for w in after:
                require(w is v or np.linalg.norm(w.position - v.position) >= 15, "a vehicle enters %.2f m from another",
                        np.linalg.norm(w.position - v.position))
            rec.hit("entered")
        if d:
            break


def check_rate(case, rec):
    """The entering flow has the configured probability, uses every entry and every turn."""
    env, _ = envs.make("intersection-v0", {"initial_vehicle_count": 1, "spawn_probability": case["p"], "duration": 10 ** 6,
                                           "simulation_frequency": 5}, case["seed"])
    n, count, entries, turns = 60, 0, set(), set()
    ego = env.vehicle
    for _ in range(n):
        env.road.vehicles = [ego]
        ego.position, ego.speed, ego.target_speed = np.array([2.0, 50.0]), 0.0, 0.0
        ego.crashed = False
        env.steps = 0
        env.step(0)
        new = [v for v in env.road.vehicles if v is not ego]
        count += len(new)
        for v in new:
            a, b = int(v.route[0][0][1:]), int(v.route[-1][1][1:])
            entries.add(a)
            turns.add((b - a) % 4)
    p = case["p"]
    require(abs(count - n * p) <= 5 * math.sqrt(n * p * (1 - p)) + 1e-9, "%d vehicles entered in %d decisions with probability "
            "%g", count, n, p)
    if p == 1:
        require(entries == {0, 1, 2, 3} and turns == {1, 2, 3}, "entries %s, turns %s", entries, turns)
    rec.hit("p=%g" % p)


def check_support(case, rec):
    """Over many resets, every option of the random choices of an environment occurs."""
    e = case["env"]
    cfg, n = {"parking-v0": ({}, 500), "summon-v0": ({}, 120), "highway-v0": ({"vehicles_count": 3}, 120),
              "intersection-v0": ({"destination": None, "initial_vehicle_count": 3, "simulation_frequency": 5}, 100),
              "roundabout-v0": ({"incoming_vehicle_destination": None}, 80), "two-way-v0": ({}, 60)}[e]
    env, _ = envs.make(e, dict(cfg), case["seed"])
    got = {}

    def see(key, x):
        got.setdefault(key, []).append(x)
    for _ in range(n):
        env.reset()
        v, net = env.vehicle, env.road.network
        rest = [w for w in env.road.vehicles if w is not v]
        if e in ("parking-v0", "summon-v0"):
            see("direction of the ego vehicle", int((v.heading % (2 * math.pi)) / (math.pi / 4)))
            see("goal", tuple(np.round(env.goal.position, 3)))
        if e == "summon-v0":
            for w in rest:
                if w.lane_index[0] == "d":
                    see("driving lane", w.lane_index[2])
                else:
                    see("parked row", w.lane_index[:2])
        elif e == "highway-v0":
            see("lane of the ego vehicle", int(round(v.position[1] / 4)))
            for w in rest:
                see("lane of the traffic", int(round(w.position[1] / 4)))
        elif e == "intersection-v0":
            see("destination of the ego vehicle", v.route[-1][1])
            for w in rest:
                see("destination of the traffic", w.route[-1][1])
        elif e == "roundabout-v0":
            for k, w in enumerate(rest):
                see("destination of vehicle %d" % k, w.route[-1][1])
        if e in ("roundabout-v0", "two-way-v0"):
            for k, w in enumerate(rest):
                see("number %d: place" % k, round(float(np.dot(w.position, [1, 0.37])), 6))
                see("number %d: speed" % k, round(float(w.speed), 6))
    lanes4, corners = set(range(4)), {"o0", "o1", "o2", "o3"}
    want = {"direction of the ego vehicle": set(range(8)), "driving lane": set(range(5)), "parked row": {("a", "b"), ("b", "c")},
            "lane of the ego vehicle": lanes4, "lane of the traffic": lanes4, "destination of the traffic": corners,
            "destination of the ego vehicle": {"o1", "o2", "o3"}}
    if e == "parking-v0":
        net = env.road.network
        want["goal"] = {tuple(np.round(lane.position(lane.length / 2, 0), 3)) for lane in net.lanes_list()}
        require(len(want["goal"]) == 30, "%d parking spots", len(want["goal"]))
    elif e == "summon-v0":
        want["goal"] = {(-40.0, 0.0), (40.0, 0.0)}
    for key, seen in got.items():
        if "number" in key:
            require(len(set(seen)) > n / 2, "%s, %s: only %d values in %d resets", e, key, len(set(seen)), n)
        else:
            opts = want.get(key, {"exr", "sxr", "nxr"})
            require(set(seen) == opts, "%s, %s: %s in %d resets, the options are %s", e, key, sorted(set(seen)), n, sorted(opts))
    rec.hit(e)


PROP = Prop(
    "C26",
    "A case is a network with vehicles to create at random, an environment and a seed for its first scenes, or an "
    "intersection driven with vehicles placed near its exits; non-trivial when a vehicle was created, entered or left.",
    [
        Sub("random", random_case, check_random, 500, 12000, clause="create_random: lane, position, spacing, speed"),
        Sub("spread", lambda: st.builds(lambda l, s: {"lanes": l, "seed": s}, st.integers(1, 5), st.integers(0, 10 ** 6)),
            check_spread, 20, 200, clause="random vehicles use every lane and the whole ranges"),
        Sub("copy", lambda: st.builds(lambda ls, i, u, c, o, s, ts, t: {"lanes": ls, "i": i, "u": u, "cls": c, "other": o,
                                                                        "speed": s, "ts": ts, "timer": t},
                                      st.lists(geo.straight_spec(span=100), min_size=1, max_size=3), st.integers(0, 2),
                                      geo.fl(0, 1), st.sampled_from(CLASSES), st.sampled_from(CLASSES[:5]),
                                      st.one_of(st.none(), geo.fl(0, 30)), geo.fl(0, 30), geo.fl(0, 1)),
            check_copy, 600, 12000, clause="create_from and make_on_lane"),
        Sub("scene", scene_case, check_scene, 220, 4000, clause="first scenes of every environment, after each reset"),
        Sub("flow", flow_case, check_flow, 120, 2500, clause="vehicles entering and leaving the intersection"),
        Sub("support", lambda: st.builds(lambda e, s: {"env": e, "seed": s}, st.sampled_from([
            "parking-v0", "summon-v0", "highway-v0", "intersection-v0", "roundabout-v0", "two-way-v0"]),
            st.integers(0, 10 ** 6)), check_support, 14, 70, clause="every option of the random choices occurs"),
        Sub("rate", lambda: st.builds(lambda p, s: {"p": p, "seed": s}, st.sampled_from([0, 0.2, 0.5, 0.6, 1]),
                                      st.integers(0, 10 ** 6)), check_rate, 14, 150, clause="probability of entering, entries "
            "and turns"),
    ],
    ["the traffic of summon and two-way may start with close vehicles, as its random placement allows",
     "the rate of entries is compared at 5 standard deviations (fixed seeds)"])
