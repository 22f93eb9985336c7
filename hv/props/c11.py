"""C11 road network queries."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from .. import geo
from ..core import Prop, Sub, require, require_close


@st.composite
def closest_case(draw):
    spec = draw(geo.network_spec())
    p = [draw(geo.fl(-150, 150)), draw(geo.fl(-150, 150))]
    if draw(st.booleans()):
        e = draw(st.sampled_from(spec))
        m = geo.Model(draw(st.sampled_from(e["lanes"])))
        p = list(m.position(draw(geo.fl(-0.1, 1.1)) * m.length, draw(geo.fl(-5, 5))))
    return {"net": spec, "p": p, "h": draw(st.one_of(st.none(), geo.fl(-7, 7)))}


def check_closest(case, rec):
    net, models = geo.real_network(case["net"]), geo.model_network(case["net"])
    p, h = case["p"], case["h"]
    if any(m.ambiguous(p) for m in models.values()):
        return
    dist = {i: (m.distance(p) if h is None else m.distance_heading(p, h)) for i, m in models.items()}
    got = net.get_closest_lane_index(np.array(p), h)
    require(got in dist, "closest lane %r is not a lane of the network", got)
    best = min(dist.values())
    require(dist[got] <= best + 1e-6, "closest lane to %s (heading %s): got %r at %.6f, but %r is at %.6f", p, h, got,
            dist[got], min(dist, key=dist.get), best)
    if h is None:
        require(net.get_closest_lane_index(np.array(p)) == got, "default heading")
    if len(dist) > 1:
        rec.hit("lanes:%d" % len(dist))


@st.composite
def located_case(draw):
    """A vehicle driven without control over a network whose roads cross and overlap."""
    if draw(st.booleans()):
        spec = []
        for k in range(draw(st.integers(1, 3))):  # both directions of a road, on the same or on near lines
            x, y, u = draw(geo.fl(-30, 30)), draw(geo.fl(-30, 30)), draw(geo.fl(-3, 3))
            c, n, off = math.cos(u) * 80, math.sin(u) * 80, draw(st.sampled_from([0, 0, 1, 4]))
            spec.append({"from": "a%d" % k, "to": "b%d" % k, "lanes": [
                {"t": "straight", "start": [x - c, y - n], "end": [x + c, y + n], "width": 4}]})
            spec.append({"from": "b%d" % k, "to": "a%d" % k, "lanes": [
                {"t": "straight", "start": [x + c, y + n + off], "end": [x - c, y - n + off], "width": 4}]})
    else:
        spec = draw(geo.network_spec())
    m = geo.Model(draw(st.sampled_from(draw(st.sampled_from(spec))["lanes"])))
    s = draw(geo.fl(0, 1)) * m.length
    return {"net": spec, "p": list(m.position(s, draw(geo.fl(-3, 3)))),
            "h": m.heading(s) + draw(st.sampled_from([0, 0.2, math.pi / 2, math.pi, 1.5, -1.6])),
            "v": draw(st.one_of(geo.fl(-5, 30), geo.fl(-0.5, 0.5))),
            "a": [draw(st.one_of(st.just(0.0), geo.fl(-1, 1))), draw(geo.fl(-5, 5))], "dt": draw(st.sampled_from([1 / 15, 0.2])),
            # a wreck slides on, and a vehicle may be put elsewhere (towed, or placed by a scenario)
            "wreck": draw(st.sampled_from([None, None, 0, 3])),
            "jump": draw(st.one_of(st.none(), st.tuples(st.integers(0, 6), geo.fl(-12, 12), geo.fl(-12, 12)).map(list))),
            "c": draw(st.sampled_from(["kinematics.Vehicle", "controller.ControlledVehicle", "behavior.IDMVehicle"])),
            "n": draw(st.integers(0, 12))}


def check_located(case, rec):
    """A vehicle is on the lane that fits its position and heading best, at creation and after every frame."""
    from highway_env.road.road import Road
    from ..traffic import cls_of
    net, models = geo.real_network(case["net"]), geo.model_network(case["net"])
    road = Road(net, np_random=np.random.RandomState(0))
    v = cls_of(case["c"])(road, list(case["p"]), case["h"], case["v"])
    road.vehicles.append(v)
    plain = 0
    for k in range(case["n"] + 1):
        p, h = v.position, float(v.heading)
        if not any(m.ambiguous(p) for m in models.values()):
            dist = {i: m.distance_heading(p, h) for i, m in models.items()}
            best = min(dist, key=dist.get)
            require(tuple(v.lane_index) in dist and dist[tuple(v.lane_index)] <= dist[best] + 1e-6, "frame %d: a vehicle at %s "
                    "heading %.3f is on lane %r (%.4f), lane %r is better (%.4f)", k, p, h, v.lane_index,
                    dist.get(tuple(v.lane_index), math.inf), best, dist[best])
            require(v.lane is net.get_lane(v.lane_index), "the lane of the vehicle is not lane %r", v.lane_index)
            near = {i: m.distance(p) for i, m in models.items()}
            plain += min(near.values()) < near[best] - 1e-6
        if k < case["n"]:
            if case["wreck"] == k:
                v.crashed = True
            if case["jump"] and case["jump"][0] == k:
                v.position = v.position + np.array(case["jump"][1:])
            v.act({"steering": case["a"][0], "acceleration": case["a"][1]}) if case["c"].startswith("kin") else v.act()
            v.step(case["dt"])
    if len(models) > 1:
        rec.hit("frames:%d" % case["n"])
    if plain:
        rec.note("not the nearest lane")


def check_lookup(case, rec):
    net, models = geo.real_network(case["net"]), geo.model_network(case["net"])
    count = {}
    for (a, b, i) in models:
        count[a, b] = count.get((a, b), 0) + 1
    got = net.lanes_list()
    require(len(got) == len(models), "lanes_list has %d lanes, %d were added", len(got), len(models))
    for (a, b, i), m in models.items():
        lane = net.get_lane((a, b, i))
        require(any(lane is x for x in got), "lanes_list misses lane %r", (a, b, i))
        require_close(lane.position(3.0, 1.0), m.position(3.0, 1.0), "lane %r is another lane" % ((a, b, i),))
        n = count[a, b]
        require(list(net.all_side_lanes((a, b, i))) == [(a, b, k) for k in range(n)], "all_side_lanes of %r", (a, b, i))
        want = {(a, b, k) for k in (i - 1, i + 1) if 0 <= k < n}
        side = net.side_lanes((a, b, i))
        require(set(side) == want and len(side) == len(want), "side_lanes of %r: %r", (a, b, i), side)
        if n == 1:
            require(net.get_lane((a, b, None)) is lane, "the only lane of a road can be designated without its id")
    for x, y in itertools.product(list(models)[:6], repeat=2):
        for same in (False, True):
            require(bool(net.is_same_road(x, y, same)) == (x[:2] == y[:2] and (not same or x[2] == y[2])),
                    "is_same_road(%r, %r, %r)", x, y, same)
            require(bool(net.is_leading_to_road(x, y, same)) == (x[1] == y[0] and (not same or x[2] == y[2])),
                    "is_leading_to_road(%r, %r, %r)", x, y, same)
    if len(models) > 1:
        rec.hit("roads:%d" % len(count))


def all_simple_paths(g, a, b):
    out = []

    def walk(path):
        for n in g.get(path[-1], []):
            if n in path:
                continue
            if n == b:
                out.append(path + [n])
            else:
                walk(path + [n])
    walk([a])
    return out


def check_paths(case, rec):
    net = geo.real_network(case["net"])
    g = geo.successors(case["net"])
    nodes = sorted({n for e in case["net"] for n in (e["from"], e["to"])})
    if "ends" in case:
        nodes = [nodes[i] for i in case["ends"]] + [nodes[-1]]
        rec.note("long street")
    for a in g if "ends" not in case else [n for n in nodes + [min(g)] if n in g]:
        for b in nodes:
            want = all_simple_paths(g, a, b)
            paths = list(net.bfs_paths(a, b))
            require(sorted(paths) == sorted(want), "paths from %s to %s: %r, expected %r", a, b, paths, want)
            lens = [len(p) for p in paths]
            require(lens == sorted(lens), "paths are not enumerated by increasing length: %r", paths)
            short = net.shortest_path(a, b)
            if not want:
                require(list(short) == [], "shortest path to an unreachable node: %r", short)
            else:
                require(list(short) in want and len(short) == min(len(p) for p in want),
                        "shortest path from %s to %s: %r, candidates %r", a, b, short, want)
                if len(want) > 1:
                    rec.hit("several paths")
                rec.hit("hops:%d" % (len(short) - 1))


@st.composite
def growing_case(draw):
    spec = draw(st.one_of(geo.network_spec(), geo.geometric_network()))
    lanes = [[e["from"], e["to"], d] for e in spec for d in e["lanes"]]
    order = draw(st.permutations(range(len(lanes))))
    pts = []
    for _ in range(draw(st.integers(1, 3))):
        m = geo.Model(draw(st.sampled_from(lanes))[2])
        p = list(m.position(draw(geo.fl(0, 1)) * m.length, draw(geo.fl(-3, 3))))
        pts.append(p)
        if draw(st.booleans()):
            pts.append([round(p[0] + draw(st.sampled_from([-0.03, 0.02, 0.4])), 4), round(p[1] + draw(st.sampled_from([-0.02, 0.03, 0.3])), 4)])
    return {"lanes": [lanes[i] for i in order], "cuts": sorted(draw(st.lists(st.integers(1, len(lanes)), max_size=3))) + [len(lanes)],
            "pts": pts, "hs": [draw(st.one_of(st.none(), geo.fl(-4, 4))) for _ in pts], "depth": draw(st.integers(0, 3))}


def answers(case, net, here):
    """Every query of the network, in a fixed order; `here` gives the network to ask for each query."""
    out = []
    keys = [(a, b, i) for a, to in net.graph.items() for b, lanes in to.items() for i in range(len(lanes))]
    nodes = sorted({n for k in keys for n in k[:2]})
    for p, h in zip(case["pts"], case["hs"]):
        out.append((p, h, tuple(here().get_closest_lane_index(np.array(p), h))))
        out.append((p, None, tuple(here().get_closest_lane_index(np.array(p)))))
    out.append(("lanes", [list(map(float, l.position(1, 0))) for l in here().lanes_list()]))
    for k in keys:
        out.append(("sides", k, [tuple(x) for x in here().all_side_lanes(k)], [tuple(x) for x in here().side_lanes(k)]))
    for a in sorted(net.graph):
        for b in nodes:
            out.append(("paths", a, b, [list(x) for x in here().bfs_paths(a, b)], list(here().shortest_path(a, b))))
    for x, y in itertools.product(keys[:5], keys[-5:]):
        out.append(("connected", x, y, bool(here().is_connected_road(x, y, depth=case["depth"]))))
    return out


def check_growing(case, rec):
    """A network that was asked before and then extended answers as a new one with the same lanes."""
    from highway_env.road.road import RoadNetwork

    def fresh(n):
        net = RoadNetwork()
        for a, b, d in case["lanes"][:n]:
            net.add_lane(a, b, geo.real_lane(d))
        return net
    net, done = RoadNetwork(), 0
    for n in case["cuts"]:
        for a, b, d in case["lanes"][done:n]:
            net.add_lane(a, b, geo.real_lane(d))
        done = n
        ref = fresh(n)
        got, want = answers(case, ref, lambda: net), answers(case, ref, lambda: ref_copy(ref))
        for x, y in zip(got, want):
            require(x == y, "with %d lanes, asked again: %r, a new network says %r", n, x, y)
    rec.hit("stages:%d" % len(set(case["cuts"])))


def ref_copy(net):
    from highway_env.road.road import RoadNetwork
    out = RoadNetwork()
    out.graph = {a: {b: list(lanes) for b, lanes in to.items()} for a, to in net.graph.items()}
    return out


@st.composite
def path_net(draw):
    names = "abcdefg"[:draw(st.integers(2, 7))]
    pairs = [(a, b) for a in names for b in names if a != b]
    if draw(st.integers(0, 9)) == 0:        # a long street with a few short cuts
        n = draw(st.integers(8, 40))
        pairs = [("n%02d" % i, "n%02d" % (i + 1)) for i in range(n)]
        cuts = draw(st.lists(st.tuples(st.integers(0, n), st.integers(0, n)), max_size=3, unique=True))
        pairs += [x for x in dict.fromkeys(("n%02d" % i, "n%02d" % j) for i, j in cuts if i != j) if x not in pairs]
        return {"net": [{"from": a, "to": b, "lanes": [{"t": "straight", "start": [0, 0], "end": [10, 0]}]} for a, b in pairs],
                "ends": sorted(draw(st.lists(st.integers(0, n), min_size=2, max_size=5)))}
    n = draw(st.one_of(st.integers(1, min(14, len(pairs))), st.integers(1, min(26, len(pairs)))))
    chosen = draw(st.lists(st.sampled_from(pairs), min_size=n, max_size=n, unique=True))
    return {"net": [{"from": a, "to": b, "lanes": [{"t": "straight", "start": [0, 0], "end": [10, 0]}] *
                     draw(st.integers(1, 2))} for a, b in chosen]}


def connected_oracle(g, l1, l2, route, same, depth):
    """Roads reached from lane 1 in at most `depth` hops along the route (or along every road when there is none)."""
    frontier = [(l1, list(route or []))]
    for k in range(depth + 1):
        nxt = []
        for lane, rt in frontier:
            if lane[:2] == l2[:2] and (not same or lane[2] == l2[2]):
                return True
            if l2[1] == lane[0] and (not same or lane[2] == l2[2]):
                return True
            while rt and rt[0][:2] == lane[:2]:
                rt = rt[1:]
            if rt and rt[0][0] == lane[1]:
                nxt.append((rt[0], rt[1:]))
            else:
                nxt += [((lane[1], to, lane[2]), rt) for to in g.get(lane[1], [])]
        frontier = nxt
    return False


@st.composite
def connected_case(draw):
    c = draw(path_net())
    roads = [(e["from"], e["to"]) for e in c["net"]]
    lanes = [(a, b, draw(st.integers(0, 1))) for a, b in roads]
    l1, l2 = draw(st.sampled_from(lanes)), draw(st.sampled_from(lanes))
    g = geo.successors(c["net"])
    route = None
    if draw(st.booleans()):
        cur = l1
        route = [list(l1)] if draw(st.booleans()) else []
        for _ in range(draw(st.integers(0, 4) if draw(st.integers(0, 2)) else st.integers(4, 9))):
            if cur[1] not in g:
                break
            cur = (cur[1], draw(st.sampled_from(g[cur[1]])), draw(st.integers(0, 1)))
            route.append(list(cur))
        if draw(st.integers(0, 3)) == 0:
            route = [list(draw(st.sampled_from(lanes))) for _ in range(draw(st.integers(1, 3)))]
    c.update(l1=list(l1), l2=list(l2), route=route, same=draw(st.booleans()), depth=draw(st.integers(0, 4) if draw(st.integers(0, 2)) else st.integers(4, 8)))
    return c


def check_connected(case, rec):
    net, g = geo.real_network(case["net"]), geo.successors(case["net"])
    l1, l2 = tuple(case["l1"]), tuple(case["l2"])
    route = [tuple(r) for r in case["route"]] if case["route"] is not None else None
    want = connected_oracle(g, l1, l2, route, case["same"], case["depth"])
    arg = list(route) if route is not None else None
    got = bool(net.is_connected_road(l1, l2, route=arg, same_lane=case["same"], depth=case["depth"]))
    require(got == want, "is_connected_road(%r, %r, %r, same_lane=%r, depth=%r) = %r, expected %r", l1, l2, route,
            case["same"], case["depth"], got, want)
    require(arg == route, "the route was modified by a query")
    if case["depth"]:
        rec.hit("connected" if want else "not connected")


def check_straight(case, rec):
    from highway_env.road.road import RoadNetwork
    n, length, angle = case["lanes"], case["length"], case["angle"]
    net = RoadNetwork.straight_road_network(n, length=length, angle=angle)
    lanes = net.lanes_list()
    require(len(lanes) == n and len(net.all_side_lanes(("0", "1", 0))) == n, "number of lanes")
    h = lanes[0].heading_at(0)
    require(abs(math.sin((abs(h) - abs(angle)) / 2)) < 1e-9 or abs(math.sin((abs(h) + abs(angle)) / 2)) < 1e-9,
            "heading %r for angle %r", h, angle)
    for i, lane in enumerate(lanes):
        require(lane is net.get_lane(("0", "1", i)), "order of the lanes")
        require_close(lane.length, length, "length of lane %d" % i)
        require_close(lane.heading_at(length / 2), h, "lanes are parallel")
        require_close(lane.position(0, 0), lanes[0].position(0, 4.0 * i), "lane %d starts beside lane 0" % i, atol=1e-6)
    rec.hit("lanes:%d" % n)


PROP = Prop(
    "C11",
    "A case is a generated road graph (2-7 nodes, roads of 1-3 lanes of any shape) and a query; non-trivial when the "
    "answer could have been another one (several lanes, a reachable goal, a positive search depth).",
    [
        Sub("closest", closest_case, check_closest, 1500, 40000, clause="closest lane, with and without heading"),
        Sub("located", located_case, check_located, 500, 12000, clause="the lane of a vehicle fits its position and heading "
            "best, at any time"),
        Sub("lookup", lambda: geo.network_spec().map(lambda n: {"net": n}), check_lookup, 600, 12000,
            clause="lane lookup, lanes of a road, side lanes, same road, leading to road"),
        Sub("paths", path_net, check_paths, 1000, 25000,
            clause="all simple paths in order of length; the shortest path is one of the shortest, or none exists"),
        Sub("growing", growing_case, check_growing, 150, 4000, clause="queries of a network that is asked, extended, asked again"),
        Sub("connected", connected_case, check_connected, 2500, 60000, clause="connected roads along a route"),
        Sub("straight", lambda: st.builds(lambda n, l, a: {"lanes": n, "length": l, "angle": a}, st.integers(1, 8),
                                          geo.fl(10, 10000), geo.fl(-3, 3)), check_straight, 200, 3000,
            clause="straight road networks have the requested lanes"),
    ],
    ["route steps given with a lane id", "start nodes that exist in the network"])
