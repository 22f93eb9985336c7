"""C12 routes: planning, choosing, following."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geo, envs
from ..core import Prop, Sub, require, require_close, wrap
from .c11 import all_simple_paths


def mkroad(spec, seed=0):
    from highway_env.road.road import Road
    return Road(geo.real_network(spec), np_random=np.random.RandomState(seed))


# ------------------------------------------------------------------ next lane

@st.composite
def next_case(draw):
    spec = draw(geo.geometric_network())
    lanes = sorted(geo.model_network(spec))
    cur = draw(st.sampled_from(lanes))
    g = geo.successors(spec)
    counts = {(e["from"], e["to"]): len(e["lanes"]) for e in spec}
    route = None
    kind = draw(st.sampled_from(["none", "at", "after", "after", "other"]))
    if kind != "none":
        route = [list(cur)] if kind == "at" else []
        a = cur[1] if kind != "other" else draw(st.sampled_from(sorted(g)))
        for _ in range(draw(st.integers(0, 3))):
            if a not in g:
                break
            b = draw(st.sampled_from(g[a]))
            route.append([a, b, draw(st.one_of(st.none(), st.integers(0, counts[a, b] - 1)))])
            a = b
    m = geo.model_network(spec)[cur]
    p = list(m.position(m.length * draw(geo.fl(0.5, 1.05)), draw(geo.fl(-6, 6))))
    return {"net": spec, "cur": list(cur), "route": route, "p": p, "seed": draw(st.integers(0, 99)),
            "v": draw(st.sampled_from([10, 10, 0, -3, 30])), "cls": draw(st.sampled_from(["ControlledVehicle", "IDMVehicle"]))}


def check_follow(case, road, m, got, arg):
    """A vehicle takes the next lane when, and only when, it is past the end of the one it drives to."""
    from highway_env.vehicle import behavior, controller
    cls = getattr(behavior, case["cls"], None) or getattr(controller, case["cls"])
    cur = tuple(case["cur"])
    s = m.local(case["p"])[0]
    if abs(s - (m.length - 2.5)) < 1e-6:
        return
    route = [tuple(r) for r in case["route"]] if case["route"] is not None else None
    v = cls(road, case["p"], 0.0, case["v"], target_lane_index=cur, target_speed=10, route=list(route) if route is not None else None)
    v.follow_road()
    past = s > m.length - 2.5
    require(tuple(v.target_lane_index) == tuple(got if past else cur), "%.2f m from the end of %r at %r m/s, the target lane is %r, "
            "expected %r", m.length - s, cur, case["v"], v.target_lane_index, got if past else cur)
    require(v.route == (arg if past else route), "route %r after following the road, expected %r", v.route, arg if past else route)


def check_next(case, rec):
    net, models = geo.real_network(case["net"]), geo.model_network(case["net"])
    g = geo.successors(case["net"])
    cur = tuple(case["cur"])
    route = [tuple(r) for r in case["route"]] if case["route"] is not None else None
    arg = list(route) if route is not None else None
    got = net.next_lane(cur, route=arg, position=np.array(case["p"]), np_random=np.random.RandomState(case["seed"]))
    road = mkroad(case["net"], case["seed"])
    check_follow(case, road, models[cur], got, arg)
    if cur[1] not in g:
        require(tuple(got) == cur, "no road leaves %s, but the next lane is %r", cur[1], got)
        rec.hit("dead end")
        return
    require(got[0] == cur[1] and tuple(got[:2]) in {k[:2] for k in models}, "next lane %r does not continue %r", got,
            cur)
    rest = list(route or [])
    if rest and rest[0][:2] == cur[:2]:
        rest = rest[1:]
    if route is not None:
        require(arg == rest, "remaining route after leaving %r: %r, expected %r", cur, arg, rest)
    if rest and rest[0][0] == cur[1]:
        require(got[1] == rest[0][1], "the route continues to %r, the next lane is %r", rest[0], got)
        rec.hit("planned")
    same = [k for k in models if k[:2] == cur[:2]]
    nxt = sorted(k for k in models if k[:2] == tuple(got[:2]))
    if len(same) == len(nxt):
        require(got[2] == cur[2], "as many lanes on both roads: lane %r, expected %r", got[2], cur[2])
        rec.hit("same count")
    else:
        d = {k: models[k].distance(case["p"]) for k in nxt}
        require(tuple(got) in d and d[tuple(got)] <= min(d.values()) + 1e-6,
                "the closest lane of the next road is not picked: %r among %r", got, d)
        rec.hit("closest")


def check_random_next(case, rec):
    """Without a plan, every continuing road is possible."""
    n = case["n"]
    spec = [{"from": "a", "to": "b", "lanes": [{"t": "straight", "start": [0, 0], "end": [50, 0]}]}]
    spec += [{"from": "b", "to": "t%d" % i, "lanes": [{"t": "straight", "start": [50, 0], "end": [90, 10 * i]}]}
             for i in range(n)]
    net = geo.real_network(spec)
    rng = np.random.RandomState(case["seed"])
    seen = {net.next_lane(("a", "b", 0), route=None, position=np.array([50., 0.]), np_random=rng)[1]
            for _ in range(60 * n)}
    require(seen == {"t%d" % i for i in range(n)}, "roads picked without a plan: %r of %d", sorted(seen), n)
    rec.hit("branches:%d" % n)


# ------------------------------------------------------------------- planning

@st.composite
def plan_case(draw):
    spec = draw(geo.geometric_network())
    lane = draw(st.sampled_from(sorted(geo.model_network(spec))))
    nodes = sorted({n for e in spec for n in (e["from"], e["to"])})
    return {"net": spec, "lane": list(lane), "s": draw(geo.fl(0.05, 0.9)), "dest": draw(st.sampled_from(nodes + ["zz"])),
            "before": draw(st.one_of(st.none(), st.sampled_from(nodes))),
            "target": draw(st.one_of(st.none(), st.sampled_from(sorted(geo.model_network(spec)))))}


def vehicle_on(road, models, lane, s, speed=10.0, cls=None):
    from highway_env.vehicle.controller import ControlledVehicle
    m = models[tuple(lane)]
    return (cls or ControlledVehicle)(road, list(m.position(s * m.length, 0)), m.heading(s * m.length), speed)


def check_plan(case, rec):
    road, models, g = mkroad(case["net"]), geo.model_network(case["net"]), geo.successors(case["net"])
    v = vehicle_on(road, models, case["lane"], case["s"])
    here = v.lane_index
    if case.get("target"):
        v.target_lane_index = tuple(case["target"])  # still driving to another lane
    if case.get("before"):
        v.plan_route_to(case["before"])              # a former plan must not matter
    ret = v.plan_route_to(case["dest"])
    require(ret is v, "plan_route_to returns the vehicle")
    route = [tuple(r) for r in v.route]
    require(route[0] == tuple(here), "the route starts at %r, the vehicle is on %r", route[0], here)
    for x, y in zip(route, route[1:]):
        require(x[1] == y[0], "the route %r is not contiguous", route)
    roads = {(e["from"], e["to"]) for e in case["net"]}
    require(all(r[:2] in roads for r in route), "the route %r uses roads that do not exist", route)
    want = all_simple_paths(g, here[1], case["dest"])
    if want:
        require(route[-1][1] == case["dest"], "the route %r does not end at %s", route, case["dest"])
        require(len(route) - 1 == min(len(p) - 1 for p in want), "the route %r is not a shortest one", route)
        rec.hit("planned:%d" % len(route))
        last = [models[k] for k in sorted(models) if k[:2] == route[-1][:2]]
        ends = [m.position(m.length, 0) for m in last]
        require(any(math.hypot(v.destination[0] - e[0], v.destination[1] - e[1]) < 1e-5 for e in ends),
                "destination %s is not the end of the last road %r", v.destination, route[-1])
        d = np.array(v.destination_direction)
        w = np.array(v.destination) - np.array(v.position)
        if np.linalg.norm(w) > 1e-3:
            require_close(d, w / np.linalg.norm(w), "destination_direction")
    else:
        require(len(route) == 1, "no path leads to %s but the route is %r", case["dest"], route)
        rec.note("no path")


# ------------------------------------------------------- choice at intersections

def intersections_oracle(g, route, counts):
    if not route:
        return []
    for i in range(min(len(route), 3)):
        nxt = g.get(route[i][1], [])
        if len(nxt) >= 2:
            i_d = route[i][2]
            return [list(route[:i + 1]) + [(route[i][1], d, None if i_d is None else min(i_d, counts[route[i][1], d] - 1))]
                    for d in nxt]
    return [list(route)]


@st.composite
def turn_case(draw):
    spec = draw(geo.geometric_network())
    g = geo.successors(spec)
    counts = {(e["from"], e["to"]): len(e["lanes"]) for e in spec}
    lane = draw(st.sampled_from(sorted(geo.model_network(spec))))
    route, a = [list(lane)], lane[1]
    for _ in range(draw(st.integers(0, 5))):
        if a not in g:
            break
        b = draw(st.sampled_from(g[a]))
        route.append([a, b, draw(st.one_of(st.none(), st.integers(0, counts[a, b] - 1)))])
        a = b
    return {"net": spec, "lane": list(lane), "route": draw(st.one_of(st.just(route), st.just(route), st.none())),
            "to": draw(st.one_of(st.integers(0, 7), st.just("random"))), "seed": draw(st.integers(0, 99))}


def check_turn(case, rec):
    road, models, g = mkroad(case["net"], case["seed"]), geo.model_network(case["net"]), geo.successors(case["net"])
    v = vehicle_on(road, models, case["lane"], 0.3)
    route = [tuple(r) for r in case["route"]] if case["route"] is not None else None
    v.route = list(route) if route is not None else None
    want = intersections_oracle(g, route, {(e["from"], e["to"]): len(e["lanes"]) for e in case["net"]})
    got = v.get_routes_at_intersection()
    require([[tuple(x) for x in r] for r in got] == [[tuple(x) for x in r] for r in want],
            "routes at the next intersection of %r: %r, expected %r", route, got, want)
    require(v.route == route, "listing the routes changed the route")
    v.set_route_at_intersection(case["to"])
    if not want:
        require(v.route == route, "a vehicle without a route got one: %r", v.route)
    elif case["to"] == "random":
        require([tuple(x) for x in v.route] in want, "random route %r is not one of %r", v.route, want)
    else:
        require([tuple(x) for x in v.route] == want[case["to"] % len(want)], "route %d at the intersection: %r, "
                "expected %r", case["to"], v.route, want[case["to"] % len(want)])
    if len(want) > 1 and case["to"] == "random":
        seen = []
        for _ in range(40 * len(want)):
            v.route = list(route)
            v.set_route_at_intersection("random")
            seen += [list(v.route)] if list(v.route) not in seen else []
        require(len(seen) == len({tuple(map(tuple, r)) for r in want}), "random choices among %r are always in %r", want, seen)
    if len(want) > 1:
        rec.hit("ways:%d" % len(want))


# -------------------------------------------------------- position along a route

@st.composite
def along_case(draw):
    spec = draw(geo.network_spec(nodes=5, roads=10, span=draw(st.sampled_from([60, 60, 60, 900]))))
    g = geo.successors(spec)
    counts = {(e["from"], e["to"]): len(e["lanes"]) for e in spec}
    a = draw(st.sampled_from(sorted(g)))
    route = []
    for _ in range(draw(st.integers(1, 4))):
        if a not in g:
            break
        b = draw(st.sampled_from(g[a]))
        i = draw(st.integers(0, counts[a, b] - 1))
        route.append([a, b, None if counts[a, b] == 1 and draw(st.booleans()) else i])
        a = b
    return {"net": spec, "route": route, "u": draw(geo.fl(-0.1, 1.2)), "lat": draw(st.sampled_from([0, 0, 1.5, -2]))}


def check_along(case, rec):
    net, models = geo.real_network(case["net"]), geo.model_network(case["net"])
    route = [tuple(r) for r in case["route"]]
    seq = [models[r[0], r[1], r[2] or 0] for r in route]
    s = case["u"] * sum(m.length for m in seq)
    arg = list(route)
    p, h = net.position_heading_along_route(arg, s, case["lat"])
    require(arg == route, "the route was modified")
    k = 0
    while k < len(seq) - 1 and s > seq[k].length + 1e-7:
        s -= seq[k].length
        k += 1
    if abs(s - seq[k].length) < 1e-6 and k < len(seq) - 1:
        return
    if seq[k].d["t"] == "circular" and abs(case["lat"]) >= seq[k].d["radius"]:
        return
    require_close(p, seq[k].position(s, case["lat"]), "position %g m after the start of lane %d of the route" % (s, k),
                  atol=1e-5)
    require(abs(wrap(h - seq[k].heading(s))) < 1e-6, "heading along the route")
    if len(seq) > 1:
        rec.hit("on step %d" % k)


# ------------------------------------------------------- driving along the route

@st.composite
def drive_case(draw):
    scene = draw(st.sampled_from(["intersection", "roundabout"]))
    if scene == "intersection":
        a, b = draw(st.integers(0, 3)), draw(st.integers(0, 3))
        start, dest = ["o%d" % a, "ir%d" % a, 0], "o%d" % ((a + 1 + b % 3) % 4)
        s = draw(geo.fl(20, 90))
    else:
        start = draw(st.sampled_from([["ser", "ses", 0], ["eer", "ees", 0], ["ner", "nes", 0], ["wer", "wes", 0]]))
        dest = draw(st.sampled_from(["sxr", "exr", "nxr", "wxr"]))
        s = draw(geo.fl(60, 115))
    return {"scene": scene, "start": start, "dest": dest, "s": s, "speed": draw(geo.fl(4, 10)),
            "dt": draw(st.sampled_from([1 / 15, 0.1])),
            "cls": draw(st.sampled_from(["controller.ControlledVehicle", "behavior.IDMVehicle"]))}


NETS = {}


def scene_network(name):
    if name not in NETS:
        env, _ = envs.make("intersection-v0" if name == "intersection" else "roundabout-v0", {}, 0)
        NETS[name] = env.road.network
    return NETS[name]


def check_drive(case, rec):
    import importlib
    from highway_env.road.road import Road
    net = scene_network(case["scene"])
    road = Road(net, np_random=np.random.RandomState(0))
    mod, cls = case["cls"].split(".")
    cls = getattr(importlib.import_module("highway_env.vehicle." + mod), cls)
    lane = net.get_lane(tuple(case["start"]))
    v = cls(road, lane.position(case["s"], 0), lane.heading_at(case["s"]), case["speed"])
    v.target_speed = case["speed"]
    road.vehicles.append(v)
    require(v.lane_index[:2] == tuple(case["start"][:2]), "vehicle created on %r is on %r", case["start"], v.lane_index)
    v.plan_route_to(case["dest"])
    planned = [r[:2] for r in v.route]
    require(planned[-1][1] == case["dest"], "no route to %s", case["dest"])
    total = sum(net.get_lane((a, b, 0)).length for a, b in planned)
    visited, worst = [], 0.0
    steps = int((total + 60) / case["speed"] / case["dt"]) + 100
    for _ in range(steps):
        road.act()
        road.step(case["dt"])
        if v.target_lane_index[:2] not in visited:
            visited.append(v.target_lane_index[:2])
        t = net.get_lane(v.target_lane_index)
        s, r = t.local_coordinates(v.position)
        worst = max(worst, min(lane.distance(v.position) for lane in net.lanes_list()))
        if visited[-1] == planned[-1] and s > min(20, t.length / 2):
            break
    require(visited == planned, "roads followed %r, planned %r (start %r)", visited, planned, case)
    require(v.lane_index[:2] == planned[-1], "the vehicle ends on %r instead of %r", v.lane_index, planned[-1])
    require(worst < 2.0, "the vehicle strays %.2f m from the centre of every lane", worst)
    rec.hit(case["scene"] + ":%d" % len(planned))


PROP = Prop(
    "C12",
    "A case is a generated road graph with a route, a position and a choice, or a drive through the intersection or "
    "roundabout networks; non-trivial when there is something to choose or to follow.",
    [
        Sub("next", next_case, check_next, 2500, 60000, clause="the next lane follows the plan, else a continuing road; "
            "lane kept when the counts match, else the closest one; travelled steps are dropped"),
        Sub("branch", lambda: st.builds(lambda n, s: {"n": n, "seed": s}, st.integers(2, 5), st.integers(0, 10 ** 6)),
            check_random_next, 60, 600, clause="without a plan any continuing road can be picked"),
        Sub("plan", plan_case, check_plan, 1500, 40000, clause="planned routes: contiguous, shortest, ending at the "
            "destination; or just the current lane"),
        Sub("turn", turn_case, check_turn, 1500, 40000, clause="routes offered and taken at the next intersection"),
        Sub("along", along_case, check_along, 1500, 40000, clause="pose at a distance along a route"),
        Sub("drive", drive_case, check_drive, 120, 2500, clause="a vehicle goes through its route in order and reaches "
            "its destination, without leaving the road"),
    ],
    ["routes are well-formed chains of roads of the network"])
