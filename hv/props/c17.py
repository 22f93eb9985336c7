"""C17 lane-change decisions."""
import numpy as np
from hypothesis import strategies as st

from .. import geo, envs, traffic
from ..core import Prop, Sub, require

envs.prime()
EGO = ("behavior.IDMVehicle", "behavior.IDMVehicle", "behavior.LinearVehicle", "behavior.AggressiveVehicle",
       "behavior.DefensiveVehicle")
EPS = 1e-7


@st.composite
def decision(draw):
    case = draw(traffic.lanes_scene(EGO, max_bodies=7, spread=60))
    n = case["n"] = draw(st.integers(2, 4)) if case["n"] == 1 and draw(st.integers(0, 4)) else case["n"]
    if draw(st.booleans()):
        case["bodies"][0]["t"] = draw(geo.fl(1, 2))
    case["params"] = {"POLITENESS": draw(st.one_of(st.just(0.0), geo.fl(0, 1))),
                      "LANE_CHANGE_MIN_ACC_GAIN": draw(st.one_of(st.just(0.2), geo.fl(0, 1.5))),
                      "LANE_CHANGE_MAX_BRAKING_IMPOSED": draw(st.one_of(st.just(2.0), geo.fl(0.2, 9))),
                      "LANE_CHANGE_DELAY": draw(st.one_of(st.just(1.0), geo.fl(0.2, 1.5)))}
    if draw(st.integers(0, 4)) < 2:
        case["route"] = draw(st.one_of(st.none(), st.integers(0, n - 1), st.integers(0, n - 1)))
        case["routed"] = True
        case["then"] = draw(st.lists(st.one_of(st.none(), st.integers(0, 3)), max_size=2))
    if draw(st.integers(0, 3)) == 0:
        case["target"] = draw(st.integers(0, n - 1))
        for b in case["bodies"][1:]:  # others entering the same lane
            if draw(st.booleans()) and b["c"] not in ("obstacle", "landmark"):
                b["tl"] = case["target"]
    case["enabled"] = draw(st.integers(0, 9)) > 0
    return case


def verdict(v, road, cand, route_lane):
    """True / False / None (too close to a threshold) for changing to lane cand, from the statement of the model."""
    sure = True

    def below(x, limit):
        nonlocal sure
        if abs(x - limit) < EPS:
            sure = False
        return x < limit
    law = traffic.law
    new_front, new_rear = traffic.neighbours(road, v, cand)
    old_front, old_rear = traffic.neighbours(road, v, v.lane_index[2])
    limit = -v.LANE_CHANGE_MAX_BRAKING_IMPOSED
    ok = not below(law(v, new_rear, v), limit)
    mine = law(v, v, new_front)
    if route_lane is not None:
        here = v.lane_index[2]
        ok = ok and (cand - here) * (route_lane - here) > 0 and not below(mine, limit)
    else:
        gain = mine - law(v, v, old_front) + v.POLITENESS * (
            law(v, new_rear, v) - law(v, new_rear, new_front) + law(v, old_rear, old_front) - law(v, old_rear, v))
        ok = ok and not below(gain, v.LANE_CHANGE_MIN_ACC_GAIN)
    return ok if sure else None


def check_decision(case, rec):
    """The lane targeted after one decision is the one the model allows."""
    from highway_env.vehicle.controller import ControlledVehicle
    road, bodies = traffic.build(case)
    v = bodies[0]
    for k, x in case["params"].items():
        setattr(v, k, x)
    v.enable_lane_change = case["enabled"]
    if case.get("routed"):
        v.route = [("a", "b", case["route"])] + [("bc"[k], "cd"[k], l) for k, l in enumerate(case.get("then", []))]
    if "target" in case:
        v.target_lane_index = ("a", "b", case["target"])
    here = v.lane_index[2]
    before = v.target_lane_index[2]
    timer = v.timer
    v.act()
    after = v.target_lane_index
    require(after[:2] == ("a", "b") and 0 <= after[2] < case["n"], "target lane %s", after)
    after = after[2]
    if not case["enabled"]:
        require(after == before, "lane changes are disabled, yet the target went from %d to %d", before, after)
        return
    if before != here:
        abort = unsure = False
        for w in road.vehicles:
            if w is v or not isinstance(w, ControlledVehicle) or w.lane_index[2] == before \
                    or w.target_lane_index[2] != before:
                continue
            d = w.position[0] - v.position[0]
            g = traffic.gap_wanted(v, v, w)
            unsure = unsure or abs(d) < EPS or abs(d - g) < EPS
            abort = abort or 0 < d < g
        if not unsure:
            require(after == (here if abort else before), "changing from lane %d to %d, %s: now targets %d", here, before,
                    "with another vehicle ahead entering it" if abort else "nobody in the way", after)
        rec.hit("aborted" if abort else "ongoing")
        return
    if abs(timer - v.LANE_CHANGE_DELAY) < EPS:
        return
    if timer < v.LANE_CHANGE_DELAY:
        require(after == here, "a lane change was decided %.3f s after the last decision", timer)
        require(v.timer == timer, "the decision clock changed without a decision")
        return
    require(v.timer == 0, "the decision clock is %r after a decision", v.timer)
    route_lane = case.get("route") if case.get("routed") else None
    cands = [c for c in (here - 1, here + 1) if 0 <= c < case["n"] and c != case["forbidden"]]
    verdicts = {c: verdict(v, road, c, route_lane) for c in cands}
    if after != here:
        require(after in verdicts, "changed from lane %d to lane %d, which is not adjacent and allowed", here, after)
        require(verdicts[after] is not False, "changed from lane %d to %d: unsafe, useless or off the route", here, after)
    else:
        for c, ok in verdicts.items():
            require(ok is not True, "stayed on lane %d although a change to %d was safe and wanted", here, c)
    if cands:
        rec.hit(("routed " if route_lane is not None else "free ") + ("changed" if after != here else "stayed"))


@st.composite
def flow(draw):
    case = draw(traffic.lanes_scene(EGO, max_bodies=9, spread=90))
    case["n"] = max(2, case["n"])
    case["steps"] = draw(st.integers(10, 45))
    return case


def check_flow(case, rec):
    """In flowing traffic, each driver only ever targets its lane or an adjacent open one, and decides at its pace."""
    from highway_env.vehicle.behavior import IDMVehicle
    road, bodies = traffic.build(case)
    drivers = [v for v in road.vehicles if isinstance(v, IDMVehicle)]
    last = {id(v): None for v in drivers}
    dt = 1 / 15
    for k in range(case["steps"]):
        before = {id(v): (v.lane_index, v.target_lane_index, v.crashed) for v in drivers}
        road.act()
        for v in drivers:
            lane, target, crashed = before[id(v)]
            new = v.target_lane_index
            if new == target:
                continue
            require(not crashed, "a crashed driver changed its mind")
            if new != lane:
                require(target == lane, "a driver retargets from %s to %s while changing lane", target, new)
                require(abs(new[2] - lane[2]) == 1 and new[2] != case["forbidden"], "a driver on lane %s targets %s", lane,
                        new)
                t = last[id(v)]
                require(t is None or (k - t) * dt > v.LANE_CHANGE_DELAY - 1e-9,
                        "two lane changes decided %.2f s apart", (k - (t or 0)) * dt)
                last[id(v)] = k
                rec.hit("changed")
        road.step(dt)


PROP = Prop(
    "C17",
    "A case is a straight multi-lane scene around one driver (IDM, linear, aggressive or defensive, random decision "
    "parameters, possibly routed to a lane or already changing lane), or a flow of such traffic; non-trivial when the "
    "driver has an adjacent lane to decide about, or is changing lane.",
    [
        Sub("decision", decision, check_decision, 5000, 60000,
            clause="a change is decided only towards an adjacent open lane, at the decision pace, safely, for a gain or "
            "along the route, and it is decided whenever these hold; ongoing changes are aborted only when cut in"),
        Sub("flow", flow, check_flow, 120, 3000, clause="pace and adjacency over histories"),
    ],
    ["the process is put in the state left by one intersection environment (known finding of C02); the parameters are "
     "read from the vehicles"])
