"""C18 who is in front, behind and around."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geo
from ..core import Prop, Sub, require, require_close

TOL = 1e-6


@st.composite
def traffic(draw):
    if draw(st.booleans()):
        n = draw(st.integers(1, 4))
        net = [{"from": "0", "to": "1", "lanes": [{"t": "straight", "start": [0, 4 * i], "end": [500, 4 * i], "width": 4}
                                                  for i in range(n)]}]
    else:
        net = draw(geo.network_spec(nodes=4, roads=4, max_lanes=2, span=80))
    models = geo.model_network(net)
    lanes = sorted(models)
    bodies = []
    far = draw(st.integers(0, 5)) == 0
    for _ in range(draw(st.integers(1, 8) if draw(st.integers(0, 7)) else st.integers(9, 30))):
        lane = draw(st.sampled_from(lanes))
        m = models[lane]
        u = draw(st.one_of(geo.fl(-0.05, 1.05), st.sampled_from([0.25, 0.5])))
        s, r = u * (m.length if far else min(m.length, 150)), draw(st.one_of(st.just(0.0), geo.fl(-4, 4)))
        if m.d["t"] == "circular":
            r = max(-0.8 * m.d["radius"], min(0.8 * m.d["radius"], r))
        p = m.position(s, r)
        bodies.append({"k": draw(st.sampled_from(["v", "v", "v", "v", "o", "l"])), "p": list(p),
                       "h": m.heading(s) + draw(st.one_of(st.just(0.0), geo.fl(-0.4, 0.4))), "v": draw(geo.fl(0, 30))})
    bodies[0]["k"] = "v"
    return {"net": net, "bodies": bodies, "lane": draw(st.one_of(st.none(), st.sampled_from(lanes))),
            "moves": draw(st.one_of(st.none(), st.lists(st.tuples(geo.fl(-40, 40), geo.fl(-6, 6)).map(list), min_size=len(bodies),
                                                        max_size=len(bodies)))),
            "distance": draw(st.sampled_from([10, 30, 60, 180, 1000])), "count": draw(st.one_of(st.none(),
                                                                                            st.integers(0, 6))),
            "behind": draw(st.booleans())}


def build(case):
    from highway_env.road.road import Road
    from highway_env.road.objects import Obstacle, Landmark
    from highway_env.vehicle.kinematics import Vehicle
    road = Road(geo.real_network(case["net"]))
    out = []
    for b in case["bodies"]:
        if b["k"] == "v":
            o = Vehicle(road, list(b["p"]), b["h"], b["v"])
            road.vehicles.append(o)
        else:
            o = (Obstacle if b["k"] == "o" else Landmark)(road, list(b["p"]), heading=b["h"])
            road.objects.append(o)
        out.append(o)
    return road, out


def check_neighbours(case, rec):
    road, real = build(case)
    models = geo.model_network(case["net"])
    judge_neighbours(case, rec, road, real, models, [list(b["p"]) for b in case["bodies"]])
    if not case.get("moves"):
        return
    # the others move on, the first vehicle stands: asked again, the answer is about now
    ps = [list(case["bodies"][0]["p"])] + [[b["p"][0] + dx, b["p"][1] + dy]
                                           for b, (dx, dy) in zip(case["bodies"][1:], case["moves"])]
    for o, p in zip(real[1:], ps[1:]):
        o.position = np.array(p)
    judge_neighbours(case, rec, road, real, models, ps)


def judge_neighbours(case, rec, road, real, models, ps):
    ego = real[0]
    lane = tuple(case["lane"]) if case["lane"] else tuple(ego.lane_index)
    m = models[lane]
    if any(m.ambiguous(p) for p in ps):
        return
    s0 = m.local(ps[0])[0]
    cand = []
    for i, b in enumerate(case["bodies"]):
        if i == 0 or b["k"] == "l":
            continue
        on, gap = m.on_lane(ps[i], 1.0)
        s = m.local(ps[i])[0]
        if gap < TOL or (on and 0 < abs(s - s0) < TOL):
            return
        if on:
            cand.append((s, i))
    front, rear = road.neighbour_vehicles(ego, lane if case["lane"] else None)
    ahead = [(s, i) for s, i in cand if s > s0 - 1e-12]
    back = [(s, i) for s, i in cand if s <= s0 - 1e-12]
    level = [c for c in cand if abs(c[0] - s0) <= 1e-9]
    if level:
        return  # rounding decides on which side a level vehicle is counted
    for got, group, pick, what in ((front, ahead, min, "front"), (rear, back, max, "rear")):
        if not group:
            require(got is None, "%s neighbour on %r: %s, expected nobody", what, lane, got)
            continue
        best = pick(group)[0]
        ok = [real[i] for s, i in group if abs(s - best) < TOL]
        require(any(got is o for o in ok), "%s neighbour of the vehicle at s=%.3f on lane %r: %s, expected %s", what,
                s0, lane, got, ok)
        rec.hit(what)
    if case["lane"] and tuple(ego.lane_index) != lane:
        rec.note("other lane")


def check_level(case, rec):
    """A vehicle exactly level with another one counts as in front of it, on an axis-aligned lane (no rounding)."""
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.vehicle.kinematics import Vehicle
    road = Road(RoadNetwork.straight_road_network(2, length=1000))
    a = Vehicle(road, [case["x"], 0], 0, 10)
    b = Vehicle(road, [case["x"], 4], 0, 10)
    road.vehicles += [a, b]
    for v, w, lane in ((a, b, ("0", "1", 1)), (b, a, ("0", "1", 0))):
        front, rear = road.neighbour_vehicles(v, lane)
        require((front is w) != (rear is w), "a level vehicle must be seen exactly once: front %s rear %s", front, rear)
        require(front is w, "a level vehicle is in front")
    rec.hit("level")


def check_close(case, rec):
    road, real = build(case)
    models = geo.model_network(case["net"])
    ego = real[0]
    m = models[tuple(ego.lane_index)]
    ps = [b["p"] for b in case["bodies"]]
    if any(m.ambiguous(p) for p in ps):
        return
    s0 = m.local(ps[0])[0]
    want, border = [], False
    for i, b in enumerate(case["bodies"]):
        if i == 0 or b["k"] != "v":
            continue
        d = math.dist(b["p"], ps[0])
        ds = m.local(b["p"])[0] - s0
        require_close(ego.lane_distance_to(real[i]), ds, "lane_distance_to", atol=1e-6)
        border = border or abs(d - case["distance"]) < TOL or abs(ds + 10) < TOL
        if d < case["distance"] and (case["behind"] or ds > -10):
            want.append((abs(ds), i))
    if border:
        return
    got = road.close_vehicles_to(ego, case["distance"], count=case["count"], see_behind=case["behind"])
    idx = []
    for v in got:
        k = [i for i, o in enumerate(real) if o is v]
        require(len(k) == 1 and any(i == k[0] for _, i in want), "%s is not within %s m", v, case["distance"])
        idx.append(k[0])
    require(len(set(idx)) == len(idx), "a vehicle is listed twice")
    n = len(want) if case["count"] is None else min(case["count"], len(want))
    require(len(idx) == n, "%d vehicles listed, expected %d of %d", len(idx), n, len(want))
    key = dict((i, d) for d, i in want)
    ds = [key[i] for i in idx]
    require_close(ds, sorted(d for d, _ in want)[:n], "the closest vehicles along the lane, by distance", atol=1e-6)
    if want:
        rec.hit("cut" if n < len(want) else "all")


def check_front(case, rec):
    """front_distance_to: the projection on the heading; lane_distance_to on a chosen lane; nan without a vehicle."""
    from highway_env.vehicle.kinematics import Vehicle
    road, real = build(case)
    vs = [(o, b) for o, b in zip(real, case["bodies"]) if b["k"] == "v"]
    models = geo.model_network(case["net"])
    for o, b in vs:
        require(math.isnan(o.lane_distance_to(None)), "distance to nobody")
        for w, c in vs:
            d = np.array(c["p"]) - np.array(b["p"])
            require_close(o.front_distance_to(w), d @ [math.cos(b["h"]), math.sin(b["h"])], "front_distance_to")
            for i, m in list(models.items())[:3]:
                if m.ambiguous(b["p"]) or m.ambiguous(c["p"]):
                    continue
                require_close(o.lane_distance_to(w, road.network.get_lane(i)), m.local(c["p"])[0] - m.local(b["p"])[0],
                              "lane_distance_to along lane %r" % (i,), atol=1e-6)
        want = models[tuple(o.lane_index)].on_lane(b["p"])
        if want[1] > TOL and not models[tuple(o.lane_index)].ambiguous(b["p"]):
            require(bool(o.on_road) == want[0], "on_road of %s on lane %r: expected %s", o, o.lane_index, want[0])
    if len(vs) > 1:
        rec.hit("vehicles:%d" % len(vs))


PROP = Prop(
    "C18",
    "A case is a straight multi-lane road or a generated network with up to 8 vehicles, obstacles and landmarks near "
    "its lanes, and a query; non-trivial when somebody is found.",
    [
        Sub("neighbours", traffic, check_neighbours, 2500, 60000, clause="preceding and following bodies on a lane"),
        Sub("level", lambda: st.builds(lambda x: {"x": x}, st.integers(0, 900).map(float)), check_level, 40, 200,
            clause="a level vehicle is never missed"),
        Sub("close", traffic, check_close, 2500, 60000, clause="closest vehicles within a radius"),
        Sub("distances", traffic, check_front, 700, 15000, clause="signed distances and the on-road flag"),
    ],
    ["bodies exactly on a decision boundary (1e-6) are not judged"])
