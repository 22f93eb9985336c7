"""Traffic on straight multi-lane roads, with own models of the longitudinal and lateral decisions."""
import importlib
import math

import numpy as np
from hypothesis import strategies as st

from . import geo


def cls_of(path):
    mod, name = path.split(".")
    return getattr(importlib.import_module("highway_env.vehicle." + mod), name)


TYPES = ["behavior.IDMVehicle", "behavior.IDMVehicle", "behavior.LinearVehicle", "behavior.AggressiveVehicle",
         "behavior.DefensiveVehicle", "controller.ControlledVehicle", "controller.MDPVehicle", "kinematics.Vehicle"]


@st.composite
def lanes_scene(draw, ego_types=("behavior.IDMVehicle",), max_lanes=4, max_bodies=6, objects=True, spread=70, scale=True):
    """Bodies on a straight road along x; the first one is the subject. Offsets avoid the decision boundaries."""
    n = draw(st.integers(1, max_lanes))
    k = draw(st.integers(0, max_bodies))
    size = draw(st.integers(0, 11)) if scale else 1
    lo, hi = -spread, spread
    if size == 0:                       # a crowd
        k = draw(st.integers(10, 24))
    elif size == 2:                     # far from each other
        lo, hi = -190, 700
    bodies = []
    for i in range(k + 1):
        x = round(200 + (draw(geo.fl(lo, hi)) if i else 0), 3)
        b = {"c": draw(st.sampled_from(list(ego_types) if i == 0 else TYPES)), "l": draw(st.integers(0, n - 1)),
             "x": x, "r": draw(geo.fl(-0.9, 0.9)), "dh": draw(st.one_of(st.just(0.0), geo.fl(-0.3, 0.3))),
             "v": draw(st.one_of(geo.fl(0, 35), geo.fl(0, 35), geo.fl(0, 35), geo.fl(-6, 6))), "ts": draw(geo.fl(1, 35)), "t": draw(geo.fl(0, 2))}
        if i and draw(st.integers(0, 3)) == 0 and n > 1:
            b["tl"] = draw(st.integers(0, n - 1))
        if i and objects and draw(st.integers(0, 9)) == 0:
            b["c"] = draw(st.sampled_from(["obstacle", "landmark"]))
        if i and draw(st.integers(0, 11)) == 0:
            b["crashed"] = True
        bodies.append(b)
    forb = draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, n - 1)))
    return {"n": n, "bodies": bodies, "forbidden": forb}


def build(case):
    from highway_env.road.road import Road
    from highway_env.road.objects import Obstacle, Landmark
    spec = [{"from": "a", "to": "b", "lanes": [
        {"t": "straight", "start": [0, 4 * i], "end": [1000, 4 * i], "width": 4, "forbidden": i == case.get("forbidden")}
        for i in range(case["n"])]}]
    road = Road(geo.real_network(spec), np_random=np.random.RandomState(0))
    out = []
    for b in case["bodies"]:
        p = [b["x"], 4 * b["l"] + b["r"]]
        if b["c"] == "obstacle":
            o = Obstacle(road, p)
            road.objects.append(o)
        elif b["c"] == "landmark":
            o = Landmark(road, p)
            road.objects.append(o)
        else:
            kw = {}
            if b["c"] not in ("kinematics.Vehicle", "dynamics.BicycleVehicle"):
                kw.update(target_speed=b["ts"])
                if "tl" in b:
                    kw.update(target_lane_index=("a", "b", b["tl"]))
            if "behavior" in b["c"]:
                kw.update(timer=b["t"])
            o = cls_of(b["c"])(road, p, b["dh"], b["v"], **kw)
            o.crashed = bool(b.get("crashed"))
            road.vehicles.append(o)
        out.append(o)
    return road, out


def is_object(o):
    return type(o).__name__ in ("Obstacle", "Landmark")


def neighbours(road, v, lane_id):
    """Own search of the bodies before and after v on a lane of the straight road (centre line within 3 m, 5 m of
    margin at the ends); level bodies count as ahead."""
    front = rear = None
    for w in road.vehicles + road.objects:
        if w is v or type(w).__name__ == "Landmark":
            continue
        if abs(w.position[1] - 4 * lane_id) > 3.0 or not -5 <= w.position[0] < 1005:
            continue
        if w.position[0] >= v.position[0]:
            if front is None or w.position[0] <= front.position[0]:
                front = w
        elif rear is None or w.position[0] > rear.position[0]:
            rear = w
    return front, rear


def not_zero(x, eps=1e-2):
    return x if abs(x) > eps else eps if x > 0 else -eps


def gap_wanted(me, ego, front, projected=True):
    """IDM desired gap with the parameters of `me`."""
    ab = -me.COMFORT_ACC_MAX * me.COMFORT_ACC_MIN
    if projected:
        ve = ego.speed * np.array([math.cos(ego.heading), math.sin(ego.heading)])
        vf = front.speed * np.array([math.cos(front.heading), math.sin(front.heading)])
        dv = float(np.dot(ve - vf, [math.cos(ego.heading), math.sin(ego.heading)]))
    else:
        dv = ego.speed - front.speed
    return me.DISTANCE_WANTED + ego.speed * me.TIME_WANTED + ego.speed * dv / (2 * math.sqrt(ab))


def idm(me, ego, front):
    if ego is None or is_object(ego):
        return 0.0
    target = not_zero(getattr(ego, "target_speed", 0))
    a = me.COMFORT_ACC_MAX * (1 - (max(ego.speed, 0) / target) ** me.DELTA)
    if front is not None:
        d = front.position[0] - ego.position[0]
        a -= me.COMFORT_ACC_MAX * (gap_wanted(me, ego, front) / not_zero(d)) ** 2
    return a


def linear(me, ego, front):
    if ego is None or is_object(ego):
        return 0.0
    vt = getattr(ego, "target_speed", ego.speed) - ego.speed
    dv = dp = 0.0
    if front is not None:
        d = front.position[0] - ego.position[0]
        dv = min(front.speed - ego.speed, 0)
        dp = min(d - (me.DISTANCE_WANTED + max(ego.speed, 0) * me.TIME_WANTED), 0)
    return float(np.dot(me.ACCELERATION_PARAMETERS, [vt, dv, dp]))


def law(me, ego, front):
    from highway_env.vehicle.behavior import LinearVehicle
    return (linear if isinstance(me, LinearVehicle) else idm)(me, ego, front)
