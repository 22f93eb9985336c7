"""C16 car following."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geo, envs, traffic
from ..core import Prop, Sub, require, require_close

envs.prime()
EGO = ("behavior.IDMVehicle", "behavior.IDMVehicle", "behavior.LinearVehicle", "behavior.AggressiveVehicle",
       "behavior.DefensiveVehicle")


@st.composite
def law_scene(draw):
    case = draw(traffic.lanes_scene(EGO))
    if draw(st.booleans()):       # a lane change is in progress
        case["bodies"][0]["tl"] = draw(st.integers(0, case["n"] - 1))
    return case


def check_law(case, rec):
    """The command applied by each driver is the one of its model, for the vehicle in front of it on its lane."""
    road, bodies = traffic.build(case)
    v = bodies[0]
    front, rear = traffic.neighbours(road, v, v.lane_index[2])
    want = traffic.law(v, v, front)
    got = v.acceleration(v, front, rear)
    require_close(got, want, "acceleration of %s behind %s" % (v, front), atol=1e-6)
    require_close(v.acceleration(v), traffic.law(v, v, None), "free acceleration", atol=1e-6)
    v.act()
    require_close(v.action["acceleration"], max(-6.0, min(6.0, want)), "applied acceleration", atol=1e-6)
    require(abs(v.action["steering"]) <= math.pi / 3 + 1e-9, "steering command %r", v.action["steering"])
    for w in bodies[1:3]:
        if traffic.is_object(w):
            require(v.acceleration(w, v) == 0 or abs(v.acceleration(w, v)) < 1e-12, "an object accelerates")
            continue
        require_close(v.acceleration(w, v), traffic.law(v, w, v), "acceleration attributed to %s" % w, atol=1e-6)
        for pr in (True, False):
            require_close(v.desired_gap(w, v, pr), traffic.gap_wanted(v, w, v, pr), "desired gap", atol=1e-6)
    if front is not None:
        rec.hit("following" if v.lane_index == v.target_lane_index else "following while changing lane")
    v.crashed = True
    before = dict(v.action)
    v.act()
    require(v.action == before, "a crashed driver takes decisions")


def check_monotone(case, rec):
    """Braking more when closer, when the leader is slower, when faster than wanted."""
    from highway_env.road.road import Road, RoadNetwork
    road = Road(RoadNetwork.straight_road_network(1, length=2000))
    cls = traffic.cls_of(case["c"])

    def a(gap, v, vf, target):
        e = cls(road, [100, 0], 0, v, target_speed=target, timer=0.0)
        f = cls(road, [100 + gap, 0], 0, vf, target_speed=20, timer=0.0)
        return e.acceleration(e, f), e.acceleration(e)
    g, v, vf, t, d = case["gap"], case["v"], case["vf"], case["t"], case["d"]
    base, free = a(g, v, vf, t)
    require(a(g + d, v, vf, t)[0] >= base - 1e-9, "farther from the leader, less acceleration: %s", case)
    require(a(g, v, vf + d, t)[0] >= base - 1e-9 or (v == 0), "a faster leader reduces the acceleration: %s", case) \
        if case["c"] != "behavior.IDMVehicle" or traffic_gap_positive(cls, v, vf + d) else None
    require(a(g, v, vf, t + d)[0] >= base - 1e-9, "a larger target speed reduces the acceleration: %s", case)
    require(base <= free + 1e-9, "a leader increases the acceleration: %s", case)
    require(abs(a(g, v, vf, v)[1]) < 1e-6 if v > 0.1 else True, "acceleration at the target speed on a free road")
    require((free > 0) == (v < t) or abs(v - t) < 1e-6, "free acceleration %r at %r for a target of %r", free, v, t)
    rec.hit(case["c"])


def traffic_gap_positive(cls, v, vf):
    """The law squares the desired gap: its sense holds while the gap is positive."""
    ab = -cls.COMFORT_ACC_MAX * cls.COMFORT_ACC_MIN
    return cls.DISTANCE_WANTED + v * cls.TIME_WANTED + v * (v - vf) / (2 * math.sqrt(ab)) > 0


@st.composite
def platoon(draw):
    n = draw(st.integers(1, 4))
    v = draw(geo.fl(2, 30))
    return {"n": n, "v": v, "slack": draw(st.lists(geo.fl(1.0, 2.5), min_size=n, max_size=n)),
            "dv": draw(st.lists(geo.fl(-3, 3), min_size=n, max_size=n)),
            "target": draw(geo.fl(15, 35)),
            "profile": draw(st.lists(st.tuples(geo.fl(-4, 3), st.integers(5, 45)), min_size=1, max_size=6)),
            "dt": draw(st.sampled_from([1 / 15, 1 / 10]))}


def check_platoon(case, rec):
    """IDM followers starting at their desired gap never hit a leader that brakes up to 4 m/s2, nor drive backwards."""
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.behavior import IDMVehicle
    road = Road(RoadNetwork.straight_road_network(1, length=10000), np_random=np.random.RandomState(0))
    lead = Vehicle(road, [2000, 0], 0, case["v"])
    road.vehicles.append(lead)
    prev = lead
    for i in range(case["n"]):
        v = max(0.0, case["v"] + case["dv"][i])
        f = IDMVehicle(road, [0, 0], 0, v, target_speed=case["target"], timer=0.0)
        f.position[0] = prev.position[0] - case["slack"][i] * max(f.desired_gap(f, prev), 8.0)
        f.on_state_update()
        road.vehicles.append(f)
        prev = f
    dt = case["dt"]
    for a, n in case["profile"]:
        for _ in range(n):
            acc = a if lead.speed + a * dt > 0 else -lead.speed / dt
            lead.act({"acceleration": min(acc, (35 - lead.speed) / dt), "steering": 0})
            for v in road.vehicles[1:]:
                v.act()
            road.step(dt)
            pos = [v.position[0] for v in road.vehicles]
            for i in range(len(pos) - 1):
                require(pos[i] - pos[i + 1] > 5.0, "follower %d is %.2f m behind its leader", i, pos[i] - pos[i + 1])
            for v in road.vehicles:
                require(not v.crashed, "a vehicle of the platoon crashed")
                require(v.speed > -1.5, "a follower drives backwards at %r", v.speed)
    rec.hit("braked" if any(a < -2 for a, _ in case["profile"]) else "soft")


def check_stop(case, rec):
    """An IDM vehicle stops before an obstacle on its lane, and keeps its jam distance within reason."""
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.road.objects import Obstacle
    from highway_env.vehicle.behavior import IDMVehicle
    road = Road(RoadNetwork.straight_road_network(1, length=2000), np_random=np.random.RandomState(0))
    v = IDMVehicle(road, [10, 0], 0, case["v"], target_speed=case["t"], timer=0.0)
    gap = max(case["gap"], 1.2 * (v.DISTANCE_WANTED + case["v"] * 1.5 + case["v"] ** 2 / (2 * math.sqrt(
        -v.COMFORT_ACC_MAX * v.COMFORT_ACC_MIN))))
    ob = Obstacle(road, [10 + gap, 0])
    road.vehicles.append(v)
    road.objects.append(ob)
    for k in range(int(case["T"] * 15)):
        road.act()
        road.step(1 / 15)
        require(not v.crashed and not ob.hit, "hit the obstacle after %.1f s: %s", k / 15, case)
    d = ob.position[0] - v.position[0]
    require(d > 0.5 * v.DISTANCE_WANTED, "the obstacle is only %.2f m ahead", d)
    if case["T"] > gap / min(case["t"], max(case["v"], 5)) + 35:
        require(v.speed < 1 and d < 3 * v.DISTANCE_WANTED, "after %.0f s: speed %.2f, obstacle %.1f m ahead", case["T"],
                v.speed, d)
        rec.note("stopped")
    rec.hit()


PROP = Prop(
    "C16",
    "A case is a straight multi-lane scene with vehicles of eight classes, obstacles and landmarks, a pair of vehicles, "
    "a platoon behind a leader with a generated speed profile, or an obstacle; non-trivial when somebody is followed.",
    [
        Sub("law", law_scene, check_law, 1500, 40000,
            clause="the acceleration applied is the one of the model (IDM or linear), limited to 6 m/s2; crashed "
            "drivers decide nothing; objects do not accelerate"),
        Sub("monotone", lambda: st.builds(
            lambda c, g, v, vf, t, d: {"c": c, "gap": g, "v": v, "vf": vf, "t": t, "d": d}, st.sampled_from(EGO),
            geo.fl(5, 120), geo.fl(0, 35), geo.fl(0, 35), geo.fl(5, 35), geo.fl(0.1, 10)), check_monotone, 800, 20000,
            clause="monotonicity in gap, leader speed and target speed"),
        Sub("platoon", platoon, check_platoon, 150, 3000, clause="no rear-end collision, no reversing"),
        Sub("stop", lambda: st.builds(lambda v, t, g, T: {"v": v, "t": t, "gap": g, "T": T}, geo.fl(0, 30),
                                      geo.fl(5, 30), geo.fl(10, 150), st.sampled_from([20, 60])), check_stop, 60, 1000,
            clause="stops before an obstacle"),
    ],
    ["the process is put in the state left by one intersection environment (known finding of C02); the parameters are "
     "read from the vehicles", "leaders brake at 4 m/s2 at most and followers start beyond their desired gap"])
