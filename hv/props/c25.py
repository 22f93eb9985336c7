"""C25 right of way on regulated roads."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import envs, geo, traffic
from ..core import Prop, Sub, require, require_close
from .c12 import scene_network

envs.prime()
TIMES = [0.25 * k for k in range(1, 12)]
KINDS = ["behavior.IDMVehicle", "behavior.IDMVehicle", "controller.ControlledVehicle", "controller.MDPVehicle",
         "behavior.LinearVehicle"]


# -------------------------------------------------------------- generated scenes

@st.composite
def crossing(draw):
    """Straight one-lane roads meeting near the origin, with priorities; one or several vehicles on each."""
    n = draw(st.integers(2, 4))
    crowd = draw(st.integers(0, 7)) == 0
    roads, bodies = [], []
    for k in range(n):
        roads.append({"a": round(draw(geo.fl(0, 2 * math.pi)), 3), "p": draw(st.integers(0, 3)),
                      "off": draw(geo.fl(-4, 4)), "limit": draw(st.sampled_from([None, 10, 14, 3, 6]))})
        for _ in range(draw(st.integers(1, 2)) if not crowd else draw(st.integers(2, 4))):
            bodies.append({"road": k, "s": draw(geo.fl(60, 105)), "r": draw(geo.fl(-0.4, 0.4)), "v": draw(geo.fl(0, 16)),
                           "c": draw(st.sampled_from(KINDS))})
    return {"scene": "crossing", "roads": roads, "bodies": bodies, "order": draw(st.permutations(range(len(bodies)))),
            "sf": draw(st.sampled_from([15, 15, 10, 5, 30])), "frames": draw(st.one_of(st.integers(1, 24), st.integers(24, 70))),
            "pause": draw(st.sampled_from([0, 0, 0.5, 1, 2]))}


@st.composite
def meeting(draw):
    """Two vehicles due at the crossing of two roads together, the one that gives way on a road with a low speed limit."""
    a, t = draw(geo.fl(0, 2 * math.pi)), draw(geo.fl(0.6, 2.6))
    roads = [{"a": round(a, 3), "p": 0, "off": 0, "limit": draw(st.sampled_from([3, 6, 2, 10]))},
             {"a": round(a + draw(st.sampled_from([-1, 1])) * draw(geo.fl(0.8, 2.3)), 3), "p": 1, "off": 0, "limit": 14}]
    bodies = []
    for k in range(2):
        v = draw(geo.fl(8, 18))
        bodies.append({"road": k, "s": round(100 - v * t + draw(geo.fl(-2, 2)), 2), "r": 0, "v": v,
                       "c": draw(st.sampled_from(KINDS[:3] if k == 0 else KINDS))})
    return {"scene": "crossing", "roads": roads, "bodies": bodies, "order": draw(st.permutations(range(2))),
            "sf": draw(st.sampled_from([15, 10, 5, 30])), "frames": draw(st.integers(8, 40)), "pause": draw(st.sampled_from([0, 0, 0.5]))}


@st.composite
def gathering(draw):
    """Three or four vehicles due at the same place together, with different priorities."""
    n, a, t = draw(st.integers(3, 4)), draw(geo.fl(0, 2 * math.pi)), draw(geo.fl(0.6, 2.2))
    prios = draw(st.permutations(range(4)))
    roads = [{"a": round(a + (k + draw(geo.fl(-0.3, 0.3))) * 2 * math.pi / n, 3), "p": prios[k], "off": draw(geo.fl(-1, 1)),
              "limit": draw(st.sampled_from([None, 10, 6]))} for k in range(n)]
    bodies = []
    for k in range(n):
        v = draw(geo.fl(5, 15))
        bodies.append({"road": k, "s": round(100 - v * t + draw(geo.fl(-2, 2)), 2), "r": 0, "v": v, "c": draw(st.sampled_from(KINDS))})
    return {"scene": "crossing", "roads": roads, "bodies": bodies, "order": draw(st.permutations(range(n))),
            "sf": draw(st.sampled_from([15, 10, 5, 30])), "frames": draw(st.integers(8, 40)), "pause": draw(st.sampled_from([0, 0, 0.5]))}


@st.composite
def junction(draw):
    bodies = []
    for _ in range(draw(st.integers(2, 5))):
        a = draw(st.integers(0, 3))
        inside = draw(st.integers(0, 2)) == 0
        b = (a + draw(st.integers(1, 3))) % 4
        road = ["ir%d" % a, "il%d" % b, 0] if inside else ["o%d" % a, "ir%d" % a, 0]
        bodies.append({"road": road, "dest": "o%d" % b, "s": draw(geo.fl(0, 10)) if inside else draw(geo.fl(70, 99)),
                       "r": 0, "v": draw(geo.fl(0, 12)), "c": draw(st.sampled_from(KINDS))})
    return {"scene": "junction", "bodies": bodies, "order": draw(st.permutations(range(len(bodies)))),
            "sf": draw(st.sampled_from([15, 15, 10])), "frames": draw(st.integers(1, 30))}


def build(case, order=None):
    from highway_env.road.road import RoadNetwork
    from highway_env.road.lane import StraightLane
    from highway_env.road.regulation import RegulatedRoad
    if case["scene"] == "crossing":
        net = RoadNetwork()
        for k, r in enumerate(case["roads"]):
            u = np.array([math.cos(r["a"]), math.sin(r["a"])])
            w = np.array([-u[1], u[0]]) * r["off"]
            kw = {"speed_limit": r["limit"]} if r["limit"] else {}
            net.add_lane("s%d" % k, "e%d" % k, StraightLane(w - 100 * u, w + 200 * u, priority=r["p"], **kw))
    else:
        net = scene_network("intersection")
    road = RegulatedRoad(net, np_random=np.random.RandomState(0))
    made = []
    for b in case["bodies"]:
        idx = ("s%d" % b["road"], "e%d" % b["road"], 0) if case["scene"] == "crossing" else tuple(b["road"])
        lane = net.get_lane(idx)
        v = traffic.cls_of(b["c"])(road, lane.position(b["s"], b["r"]), lane.heading_at(b["s"]), b["v"])
        v.lane_index, v.lane, v.target_lane_index = idx, lane, idx
        if "dest" in b:
            v.plan_route_to(b["dest"])
        made.append(v)
    road.vehicles = [made[i] for i in (order if order is not None else case["order"])]
    return road, made


# --------------------------------------------------------------------- own model

def places(road, v):
    """Where the vehicle is expected at the prediction times, on its route at constant speed."""
    net = road.network
    s0 = net.get_lane(v.lane_index).local_coordinates(v.position)[0]
    route = [tuple(r) for r in v.route] if v.route else [tuple(v.lane_index)]
    if route[0][:2] != tuple(v.lane_index[:2]) and route[0][0] == v.lane_index[1]:
        route = [tuple(v.lane_index)] + route
    lanes = [net.get_lane((a, b, i if i is not None else 0)) for a, b, i in route]
    out = []
    for t in TIMES:
        s, k = s0 + v.speed * t, 0
        while k < len(lanes) - 1 and s > lanes[k].length:
            s, k = s - lanes[k].length, k + 1
        out.append((np.array(lanes[k].position(s, 0), dtype=float), float(lanes[k].heading_at(s))))
    return out


def conflict(road, v, w):
    """True / False, or None when it depends on tolerances or on the pre-check distance."""
    sure = doubt = False
    for (p, h), (q, g) in zip(places(road, v), places(road, w)):
        d = float(np.linalg.norm(p - q))
        if d > 9:
            continue
        sep = geo.separation(geo.corners(p, 1.5 * 5, 0.9 * 2, h), geo.corners(q, 1.5 * 5, 0.9 * 2, g))
        if sep < -1e-6 and d < 5 - 1e-6:
            sure = True
        elif sep < 1e-6:
            doubt = True
    return True if sure else None if doubt else False


def loser(v, w):
    """Who must give way: the lower priority, else the one that is behind. None: undetermined."""
    a, b = v.lane.priority, w.lane.priority
    if a != b:
        return v if a < b else w
    dv = float(np.dot([math.cos(v.heading), math.sin(v.heading)], w.position - v.position))
    dw = float(np.dot([math.cos(w.heading), math.sin(w.heading)], v.position - w.position))
    if abs(dv - dw) < 1e-6:
        return None
    return v if dv > dw else w


def can_yield(v):
    return "MDPVehicle" not in [c.__name__ for c in type(v).__mro__]


def stopped_by_rules(road):
    """(must, may): vehicles which have to give way now, for sure / possibly."""
    must, may = set(), set()
    vs = road.vehicles
    for i in range(len(vs)):
        for j in range(i + 1, len(vs)):
            c = conflict(road, vs[i], vs[j])
            if c is False:
                continue
            l = loser(vs[i], vs[j])
            cands = [l] if l is not None else [vs[i], vs[j]]
            for x in cands:
                if can_yield(x):
                    may.add(id(x))
                    if c and l is not None:
                        must.add(id(x))
    return must, may


def check_rules(case, rec):
    """When the rules are enforced, exactly the losers of the expected conflicts are told to stop."""
    road, made = build(case)
    before = {id(v): v.target_speed for v in made}
    must, may = stopped_by_rules(road)
    road.enforce_road_rules()
    for k, v in enumerate(made):
        y = bool(getattr(v, "is_yielding", False))
        require(id(v) not in must or y, "vehicle %d must give way and was not told to (%s on %r)", k, case["bodies"][k],
                v.lane_index)
        require(id(v) in may or not y, "vehicle %d gives way to nobody (%s)", k, case["bodies"][k])
        require(v.target_speed == (0 if y else before[id(v)]), "target speed %r of vehicle %d (yielding: %s, before: %r)",
                v.target_speed, k, y, before[id(v)])
        if y:
            rec.hit("gives way")
        elif may:
            rec.note("goes first")
    # the order of the vehicles does not matter
    if must == may:
        other, made2 = build(case, order=list(reversed(case["order"])))
        other.enforce_road_rules()
        require([bool(getattr(v, "is_yielding", False)) for v in made] ==
                [bool(getattr(v, "is_yielding", False)) for v in made2], "who gives way depends on the order of the vehicles")


def check_pair(case, rec):
    """The pairwise verdicts are symmetric and follow priorities, then positions."""
    road, made = build(case)
    from highway_env.road.regulation import RegulatedRoad
    for i, v in enumerate(made):
        for w in made[i + 1:]:
            a, b = bool(RegulatedRoad.is_conflict_possible(v, w)), bool(RegulatedRoad.is_conflict_possible(w, v))
            c = conflict(road, v, w)
            if c is not None:
                require(a == c, "conflict between %r and %r: %s, expected %s", v.lane_index, w.lane_index, a, c)
                require(b == c, "the verdict on a conflict depends on the order")
                rec.hit("conflict" if c else "free")
            l = loser(v, w)
            if l is not None:
                require(RegulatedRoad.respect_priorities(v, w) is l and RegulatedRoad.respect_priorities(w, v) is l,
                        "the wrong vehicle gives way: priorities %s %s", v.lane.priority, w.lane.priority)


def check_drive(case, rec):
    """While driving: rules every half second only; who gave way resumes at the speed limit once the way is free."""
    road, made = build(case)
    period = case["sf"] // 2
    held, told = {}, {}
    road.YIELD_DURATION = case.get("pause", 0)
    wait = int(round(2 * road.YIELD_DURATION))  # enforcements during which a vehicle told to stop stays stopped
    for f in range(1, case["frames"] + 1):
        road.act()
        pre = {id(v): (v.target_speed, bool(getattr(v, "is_yielding", False))) for v in made}
        enforced = f % period == 0
        must, may = stopped_by_rules(road) if enforced else (set(), set())
        limits = {id(v): v.lane.speed_limit for v in made}
        road.step(1 / case["sf"])
        for k, v in enumerate(made):
            t0, y0 = pre[id(v)]
            y = bool(getattr(v, "is_yielding", False))
            if not enforced:
                require(y == y0 and v.target_speed == t0, "frame %d: vehicle %d changed (%r, %r) -> (%r, %r) between "
                        "enforcements", f, k, t0, y0, v.target_speed, y)
                continue
            require(id(v) not in must or y, "frame %d: vehicle %d must give way", f, k)
            # enforcements since it last possibly / certainly was told to stop
            last, sure = [t + 1 for t in told.get(k, (10 ** 6, 10 ** 6))]
            require(id(v) in may or not y or y0 and last <= wait, "frame %d: vehicle %d gives way to nobody, last told to "
                    "%d enforcements ago", f, k, last)
            require(not y0 or y or sure >= max(1, wait), "frame %d: vehicle %d resumes after %d enforcements instead of %d",
                    f, k, sure, wait)
            if wait and y0 and not y:
                rec.note("resumed after a pause")
            told[k] = (0 if id(v) in may else last, 0 if id(v) in must else sure)
            if y:
                require(v.target_speed == 0, "frame %d: vehicle %d gives way with target speed %r", f, k, v.target_speed)
                held[k] = held.get(k, 0) + 1
            elif y0:
                require(v.target_speed == limits[id(v)], "frame %d: vehicle %d resumes with target %r, the limit is %r", f, k,
                        v.target_speed, limits[id(v)])
                rec.hit("resumed")
            else:
                require(v.target_speed == t0, "frame %d: the target speed of vehicle %d changed without reason", f, k)
    if held:
        rec.hit("held")


def check_network(case, rec):
    """Horizontal over vertical, straight and right over left."""
    env, _ = envs.make(case["env"], {}, case["seed"])
    seen = 0
    for a, tos in env.road.network.graph.items():
        for b, lanes in tos.items():
            for lane in lanes:
                if a.startswith("o"):
                    want = 3 if int(a[1:]) % 2 else 1
                elif a.startswith("ir") and b.startswith("il"):
                    k, m = int(a[2:]), int(b[2:])
                    base = 3 if k % 2 else 1
                    left = (m - k) % 4 == 1
                    want = base - 1 if left else base
                else:
                    continue
                seen += 1
                require(lane.priority == want, "priority %r of %s -> %s, expected %r", lane.priority, a, b, want)
    require(seen == 16, "%d lanes", seen)
    require(type(env.road).__name__ == "RegulatedRoad", "the intersection road is a %s", type(env.road).__name__)
    rec.hit()


PROP = Prop(
    "C25",
    "A case is several vehicles on crossing roads with priorities, or on the intersection network with destinations; "
    "non-trivial when a conflict is expected or excluded for some pair / somebody gives way.",
    [
        Sub("rules", lambda: st.one_of(crossing(), junction(), gathering()), check_rules, 2500, 30000,
            clause="exactly the losers of the expected conflicts stop; the order of vehicles does not matter"),
        Sub("pair", lambda: st.one_of(crossing(), junction()), check_pair, 1200, 15000, clause="symmetric verdicts; priority, "
            "then position"),
        Sub("drive", lambda: st.one_of(crossing(), junction(), meeting(), gathering()), check_drive, 1000, 16000, clause="enforcement every half second, "
            "stop and resume over a drive"),
        Sub("network", lambda: st.builds(lambda e, s: {"env": e, "seed": s}, st.sampled_from(["intersection-v0",
            "intersection-multi-agent-v0"]), st.integers(0, 99)), check_network, 6, 40, clause="priorities of the "
            "intersection's lanes"),
    ],
    ["enlarged bodies that overlap while the centres are 5 m to 7.5 m apart may or may not be a conflict (the code's "
     "pre-check distance)", "vehicles exactly level are not judged when priorities are equal"])
