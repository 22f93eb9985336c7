"""C34 the maps of the scenarios: trips, junctions, arms, neighbouring lanes, spots."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import envs, geo
from ..core import Prop, Sub, require, require_close, wrap
from .. import traffic

envs.prime()
RING = ["se", "ex", "ee", "nx", "ne", "wx", "we", "sx"]
COMPASS = {"s": (0, 1), "e": (1, 0), "n": (0, -1), "w": (-1, 0)}
ARMS = "swne"  # of the intersection: 0 south, 1 west, 2 north, 3 east
ENVS = {"highway-v0": (10, 40), "merge-v0": (6, 34), "roundabout-v0": (3, 11), "intersection-v0": (3, 12),
        "intersection-multi-agent-v0": (3, 12), "two-way-v0": (8, 30), "lane-keeping-v0": (3, 25)}


def scene(env_id, config, seed, resets=0):
    if env_id.startswith("inter") and seed % 4:  # (quick to create)
        config = dict(config, initial_vehicle_count=1, spawn_probability=0)
    env, _ = envs.make(env_id, config, seed)
    for _ in range(resets):
        env.reset()
    env = env.unwrapped
    env.road.vehicles = []
    return env, env.road.network


def ring_path(a, b):
    """Nodes from the arm a to the arm b."""
    i, out = RING.index(a + "e"), []
    while True:
        out.append(RING[i % 8])
        if RING[i % 8] == b + "x":
            break
        i += 1
    return [a + "er", a + "es"] + out + [b + "xs", b + "xr"]


@st.composite
def trip_case(draw):
    e = draw(st.sampled_from(["roundabout-v0", "roundabout-v0", "intersection-v0", "intersection-v0", "merge-v0", "merge-v0",
                              "highway-v0", "two-way-v0", "lane-keeping-v0", "intersection-multi-agent-v0"]))
    lo, hi = ENVS[e]
    c = {"env": e, "config": {}, "seed": draw(st.integers(0, 10 ** 6)), "speed": draw(geo.fl(lo, hi)), "s": draw(geo.fl(0, 1)),
         "f": draw(st.sampled_from([10, 15, 15, 20, 30])), "resets": draw(st.sampled_from([0, 0, 0, 1])),
         "cls": draw(st.sampled_from(["controller.ControlledVehicle", "behavior.IDMVehicle"]))}
    if e == "roundabout-v0":
        c["path"] = ring_path(draw(st.sampled_from("senw")), draw(st.sampled_from("senw")))
    elif e.startswith("inter"):
        a, b = draw(st.lists(st.integers(0, 3), min_size=2, max_size=2, unique=True))
        c["path"] = ["o%d" % a, "ir%d" % a, "il%d" % b, "o%d" % b]
    elif e == "merge-v0":
        c["path"] = draw(st.sampled_from([["a", "b", "c", "d"], ["j", "k", "b", "c", "d"]]))
    elif e == "two-way-v0":
        c["path"] = draw(st.sampled_from([["a", "b"], ["b", "a"]]))
    elif e == "lane-keeping-v0":
        c["path"] = draw(st.sampled_from([["c", "d", "a"], ["a", "b"]]))
    else:
        c["path"] = ["0", "1"]
        c["config"] = {"lanes_count": draw(st.integers(1, 8))}
    c["lane"] = draw(st.integers(0, 7))
    return c


def check_trip(case, rec):
    """A vehicle sent from an entry to an exit gets there by the documented roads, without leaving them."""
    env, net = scene(case["env"], case["config"], case["seed"], case["resets"])
    road, path = env.road, case["path"]
    for a, b in zip(path, path[1:]):
        require(b in net.graph.get(a, {}), "%s: no road from %s to %s", case["env"], a, b)
    key = (path[0], path[1], case["lane"] % len(net.graph[path[0]][path[1]]))
    lane = net.get_lane(key)
    ramp = path[0] == "j"
    cls = case["cls"] if not ramp else "controller.ControlledVehicle"
    kw = {"enable_lane_change": False} if "IDM" in cls else {}
    s0 = case["s"] * min(lane.length * 0.8, lane.length - 10)
    v = traffic.cls_of(cls)(road, lane.position(s0, 0), heading=lane.heading_at(s0), speed=case["speed"],
                                 target_speed=case["speed"], **kw)
    v.plan_route_to(path[-1])
    road.vehicles.append(v)
    first = v.position.copy()
    seen, done, changed = [key[:2]], False, False
    for k in range(int(1000 / case["speed"] * case["f"])):
        act = None
        if ramp and not changed and v.lane_index == ("b", "c", 2):
            act, changed = "LANE_LEFT", True
        v.act(act)
        road.step(1 / case["f"])
        off = min(max(abs(r) - m.width / 2, s - m.length, -s) for m in net.lanes_list() for s, r in [m.local_coordinates(v.position)])
        s, r = v.lane.local_coordinates(v.position)
        last = v.lane_index[:2] == (path[-2], path[-1])
        if last and s > v.lane.length - 2 or np.linalg.norm(v.position - first) > 600:
            done = True
            break
        require(off < 0.3, "%s, from %s to %s: %.2f m off the roads at %s", case["env"], path[0], path[-1], off, v.position)
        require(abs(r) < 2.5 + (4 if changed else 0), "%s: %.2f m off its lane %s", case["env"], r, v.lane_index)
        require(not v.crashed, "%s: crash at %s on an empty road", case["env"], v.position)
        if v.lane_index[:2] != seen[-1]:
            seen.append(v.lane_index[:2])
    require(done, "%s: sent from %s to %s, the vehicle is on %s at %s", case["env"], key, path[-1], v.lane_index, v.position)
    want = list(zip(path, path[1:]))
    rest = iter(seen)  # (at junctions, a road that overlaps may be the closest one for a moment)
    require(all(w in rest for w in want), "%s: the roads %s were taken, expected %s", case["env"], seen, want)
    arms = None
    if case["env"] == "roundabout-v0":
        arms = path[0][0], path[-1][0]
    elif case["env"].startswith("inter"):
        arms = ARMS[int(path[0][1])], ARMS[int(path[-1][1])]
    if arms:
        for p, arm in ((first, arms[0]), (v.position, arms[1])):
            require(np.dot(p, COMPASS[arm]) > 8, "%s is not on the arm %s", p, arm)
            d = np.array(COMPASS[arm])
            along = np.array([math.cos(v.heading), math.sin(v.heading)])
        require(np.dot(along, d) > 0.95, "leaving by the arm %s, the heading is %.2f", arms[1], v.heading)
        rec.note("%s %s" % arms)
    rec.hit(case["env"])


# ------------------------------------------------------------------ junctions

@st.composite
def join_case(draw):
    e = draw(st.sampled_from(sorted(ENVS)))
    c = {"env": e, "seed": draw(st.integers(0, 10 ** 6)), "config": {}, "pick": draw(geo.fl(0, 1)), "next": draw(geo.fl(0, 1)),
         "lat": draw(geo.fl(-2, 2))}
    if e == "highway-v0":
        c["config"]["lanes_count"] = draw(st.integers(1, 8))
    return c


def check_join(case, rec):
    """Roads that follow each other join without gap, kink or change of width; branches of a ring start and end on it."""
    env, net = scene(case["env"], case["config"], case["seed"])
    keys = [(a, b, i) for a, d in net.graph.items() for b, ls in d.items() for i in range(len(ls))]
    a, b, i = keys[int(case["pick"] * (len(keys) - 1e-9))]
    lane = net.get_lane((a, b, i))
    require(lane.length > 3, "the lane %s has length %.2f", (a, b, i), lane.length)
    outs = sorted(net.graph.get(b, {}))
    if not outs:
        require(case["env"] == "highway-v0" or b in ("d", "b") or b.endswith("r") or b.startswith("o"),
                "%s: the road %s ends", case["env"], (a, b))
        return
    c = outs[int(case["next"] * (len(outs) - 1e-9))]
    if c == a or case["env"].startswith("two") or b.startswith("o"):
        # going back: by the lane on the other side
        best = min(np.linalg.norm(lane.position(lane.length, 0) - m.position(0, 0)) for m in net.graph[b][c])
        turn = min(abs(abs(wrap(lane.heading_at(lane.length) - m.heading_at(0))) - math.pi) for m in net.graph[b][c])
        require(best < 4.01 and turn < 0.01, "%s: going back from %s to %s is %.2f m away, not opposite by %.2f", case["env"],
                (a, b, i), (b, c), best, turn)
        rec.hit("back")
        return
    if case["env"] == "roundabout-v0" and (a, b) not in zip(RING, RING[1:] + RING[:1]) and b in RING:
        p = lane.position(lane.length, 0)
        require(17 <= np.linalg.norm(p) <= 27, "the entry %s ends %.1f m from the centre", (a, b), np.linalg.norm(p))
        q = net.graph[b][c][-1].position(0, 0)
        require(np.linalg.norm(p - q) < 8, "the entry %s ends %.1f m away from the ring road %s", (a, b), np.linalg.norm(p - q), (b, c))
        rec.hit("entry")
        return
    if case["env"] == "roundabout-v0" and a in RING and b in RING and c not in RING:
        p = net.get_lane((b, c, 0)).position(0, 0)
        require(17 <= np.linalg.norm(p) <= 27, "the exit %s starts %.1f m from the centre", (b, c), np.linalg.norm(p))
        q = lane.position(lane.length, 0)
        require(np.linalg.norm(p - q) < 8, "the exit %s starts %.1f m away from the ring road %s", (b, c), np.linalg.norm(p - q), (a, b))
        rec.hit("exit")
        return
    if case["env"] == "merge-v0" and (a, b, i) == ("b", "c", 2):
        end = lane.position(lane.length, 0)
        require(any(np.linalg.norm(o.position - end) < 0.01 for o in env.road.objects), "no obstacle at the end of the ramp %s", end)
        require(lane.forbidden, "changing onto the ending ramp is allowed")
        rec.hit("ramp")
        return
    if case["env"] == "lane-keeping-v0" and (a, b, c) == ("d", "a", "b"):
        return
    p = lane.position(lane.length, case["lat"])
    fits = [(np.linalg.norm(p - m.position(0, case["lat"])), abs(wrap(lane.heading_at(lane.length) - m.heading_at(0))),
             abs(lane.width_at(lane.length) - m.width_at(0))) for m in net.graph[b][c]]
    gap, kink, width = min(fits)
    require(gap < 0.01 and kink < 0.01 and width < 0.01, "%s: from %s to %s there is a gap of %.3f m, a kink of %.3f rad, a change of "
            "width of %.2f m", case["env"], (a, b, i), (b, c), gap, kink, width)
    rec.hit("join")


# ------------------------------------------------------------------ arms

@st.composite
def arm_case(draw):
    return {"env": draw(st.sampled_from(["roundabout-v0", "intersection-v0", "intersection-multi-agent-v0"])),
            "seed": draw(st.integers(0, 10 ** 6)), "quarter": draw(st.integers(1, 3)), "pick": draw(geo.fl(0, 1)),
            "s": draw(geo.fl(0, 1)), "r": draw(geo.fl(-2, 2))}


def rename(env_id, node, k):
    if env_id == "roundabout-v0":
        return "senw"[("senw".index(node[0]) + k) % 4] + node[1:]
    return node[:-1] + str((int(node[-1]) + k) % 4)


def check_arm(case, rec):
    """The arms of the intersection and of the roundabout are those of the south, turned, up to the right of way."""
    env, net = scene(case["env"], {}, case["seed"])
    k, e = case["quarter"], case["env"]
    keys = sorted((a, b, i) for a, d in net.graph.items() for b, ls in d.items() for i in range(len(ls)))
    key = keys[int(case["pick"] * (len(keys) - 1e-9))]
    twin = (rename(e, key[0], k), rename(e, key[1], k), key[2])
    require(twin in keys, "there is a road %s, but no road %s", key, twin)
    l, m = net.get_lane(key), net.get_lane(twin)
    ang = -k * math.pi / 2 if e == "roundabout-v0" else k * math.pi / 2
    c, s = round(math.cos(ang)), round(math.sin(ang))
    p = l.position(case["s"] * l.length, case["r"])
    require_close(m.position(case["s"] * m.length, case["r"]), [c * p[0] - s * p[1], s * p[0] + c * p[1]],
                  "the road %s turned by %d quarters, against %s" % (key, k, twin), atol=1e-6)
    require_close(wrap(m.heading_at(case["s"] * m.length) - l.heading_at(case["s"] * l.length) - ang), 0,
                  "heading of %s turned, against %s" % (key, twin), atol=1e-6)
    for x in ("length", "width", "speed_limit"):
        require_close(getattr(l, x), getattr(m, x), "%s of %s and %s" % (x, key, twin), atol=1e-6)
    require(list(l.line_types) == list(m.line_types), "lines of %s: %s, of %s: %s", key, l.line_types, twin, m.line_types)
    require(l.forbidden == m.forbidden, "one of %s and %s is forbidden", key, twin)
    if e == "roundabout-v0" or k == 2:
        require(l.priority == m.priority, "priorities of %s and %s: %s, %s", key, twin, l.priority, m.priority)
    if e != "roundabout-v0" and key[0][:2] == "ir":
        turn = wrap(l.heading_at(l.length) - l.heading_at(0))
        a, b = int(key[0][2]), int(key[1][2])
        d = np.array(COMPASS[ARMS[a]])
        out = np.array(COMPASS[ARMS[b]])
        require_close([turn], [math.asin(np.cross(-d, out))], "turn from %s to %s" % (ARMS[a], ARMS[b]), atol=1e-6)
        want = (3 if a % 2 else 1) - (1 if turn < -0.1 else 0)
        require(l.priority == want, "priority of %s: %s, documented: %s", key, l.priority, want)
        rec.note("right of way")
    rec.hit(e)


# ------------------------------------------------------------------ lanes side by side, spots

@st.composite
def side_case(draw):
    e = draw(st.sampled_from(["highway-v0", "highway-v0", "merge-v0", "roundabout-v0", "two-way-v0", "summon-v0", "parking-v0",
                              "intersection-v0", "network", "network"]))
    c = {"env": e, "seed": draw(st.integers(0, 10 ** 6)), "config": {}, "pick": draw(geo.fl(0, 1)), "s": draw(geo.fl(0, 1)),
         "r": draw(geo.fl(-2, 2))}
    if e == "highway-v0":
        c["config"]["lanes_count"] = draw(st.integers(1, 8))
    if e == "network":
        c.update(lanes=draw(st.integers(1, 8)), length=draw(geo.fl(1, 20000)), angle=draw(geo.fl(-3.2, 3.2)))
    return c


def borders(lanes, name):
    n = len(lanes)
    require(lanes[0].line_types[0] in (2, 3), "%s: the left edge has a line of type %s", name, lanes[0].line_types[0])
    require(lanes[-1].line_types[1] in (2, 3), "%s: the right edge has a line of type %s", name, lanes[-1].line_types[1])
    for i in range(n - 1):
        got = sorted([int(lanes[i].line_types[1]), int(lanes[i + 1].line_types[0])])
        require(got == [0, 1], "%s: lines of types %s between the lanes %d and %d", name, got, i, i + 1)


def check_side(case, rec):
    """Consecutive lanes of a road lie side by side, to the right, separated by one striped line, between continuous edges."""
    from highway_env.road.road import RoadNetwork
    e = case["env"]
    if e == "network":
        net = RoadNetwork.straight_road_network(case["lanes"], length=case["length"], angle=case["angle"])
        lanes = net.graph["0"]["1"]
        require(len(net.lanes_list()) == len(lanes) == case["lanes"], "%d lanes instead of %d", len(lanes), case["lanes"])
        # (in which direction the angle is measured is not documented)
        require_close(abs(wrap(lanes[0].heading_at(0))), abs(wrap(case["angle"])), "angle of the road", atol=1e-6)
        c, s = math.cos(lanes[0].heading_at(0)), math.sin(lanes[0].heading_at(0))
        for i, l in enumerate(lanes):
            require_close([l.length], [case["length"]], "length", atol=1e-6)
            x, y = case["s"] * case["length"], 4 * i + case["r"]
            require_close(l.position(x, case["r"]), [c * x - s * y, s * x + c * y], "lane %d at %.1f m" % (i, x), atol=1e-6 * (1 + x))
        borders(lanes, "network")
        rec.hit("network %d" % min(case["lanes"], 3))
        return
    env, net = scene(e, case["config"], case["seed"])
    if e in ("parking-v0", "summon-v0"):
        check_spots(case, env, net, rec)
        if e == "parking-v0":
            return
    if e == "intersection-v0":
        a = int(case["pick"] * 3.999)
        into, out = net.get_lane(("o%d" % a, "ir%d" % a, 0)), net.get_lane(("il%d" % a, "o%d" % a, 0))
        s, r = into.local_coordinates(out.position(case["s"] * out.length, 0))
        require(abs(r + 4) < 1e-6 and -1e-6 <= s <= into.length + 1e-6, "on the arm %d, the way out is %.2f m to the right of the way in", a, r)
        require_close(wrap(into.heading_at(0) - out.heading_at(0) - math.pi), 0, "the ways in and out are opposite", atol=1e-6)
        require(sorted([int(into.line_types[0]), int(out.line_types[0])]) == [0, 1], "lines of types %s, %s between the ways in and out",
                into.line_types[0], out.line_types[0])
        require(into.line_types[1] in (2, 3) and out.line_types[1] in (2, 3), "edges of the arm %d", a)
        rec.hit(e)
        return
    if e == "highway-v0":
        require(len(net.lanes_list()) == case["config"]["lanes_count"], "%d lanes, %d are configured", len(net.lanes_list()),
                case["config"]["lanes_count"])
    if e == "two-way-v0":
        own, back = net.get_lane(("a", "b", 0)), net.get_lane(("b", "a", 0))
        s, r = own.local_coordinates(back.position(case["s"] * back.length, 0))
        require(abs(r) < 1e-6 and abs(s - (1 - case["s"]) * own.length) < 1e-6, "the lane of the oncoming traffic is not the left lane")
        require_close(wrap(own.heading_at(0) - back.heading_at(0) - math.pi), 0, "the oncoming traffic is opposite", atol=1e-6)
    roads = [(a, b) for a, d in net.graph.items() for b, ls in d.items() if len(ls) > 1 or e == "highway-v0"]
    if e == "summon-v0":
        roads = [("d", "e")]
    a, b = roads[int(case["pick"] * (len(roads) - 1e-9))]
    lanes = net.graph[a][b]
    for i in range(len(lanes) - 1):
        m = lanes[i + 1]
        s, r = lanes[i].local_coordinates(m.position(case["s"] * m.length, 0))
        want = lanes[i].width / 2 + m.width / 2
        require(abs(r - want) < 1e-6, "%s: the lane %s is %.2f m to the right of the one before, instead of %.2f", e, (a, b, i + 1), r, want)
        require(abs(s / lanes[i].length - case["s"]) < 1e-6, "%s: the lane %s does not run along the one before", e, (a, b, i + 1))
        require_close(wrap(m.heading_at(case["s"] * m.length) - lanes[i].heading_at(s)), 0, "parallel lanes", atol=1e-6)
    if e != "summon-v0":
        borders(lanes, "%s %s" % (e, (a, b)))
    rec.hit(e)


def check_spots(case, env, net, rec):
    rows = [net.graph["a"]["b"], net.graph["b"]["c"]]
    require(len(rows[0]) == len(rows[1]), "%d and %d spots", len(rows[0]), len(rows[1]))
    n = len(rows[0])
    i = int(case["pick"] * (n - 1e-9))
    s = case["s"]
    l, m = rows[0][i], rows[1][i]
    p, q = l.position(s * l.length, 0), m.position(s * m.length, 0)
    require_close(q, [p[0], -p[1]], "the spots %d of the two rows face each other" % i, atol=1e-6)
    for row in rows:
        l = row[i]
        require(l.width >= 2 + 0.5 and l.length >= 5 + 0.5, "a spot of %.1f m by %.1f m", l.width, l.length)
        require(min(l.line_types) >= 2, "a spot is bounded by lines of types %s", l.line_types)
        for other in net.lanes_list():
            if other is l:
                continue
            for x, y in ((0.02, 0), (0.5, 0), (0.98, 0), (s * 0.96 + 0.02, case["r"] * 0.49 * l.width / 2)):
                a, b = other.local_coordinates(np.array(l.position(x * l.length, y)))
                require(not (0 <= a <= other.length and abs(b) < other.width / 2 - 0.02), "two spots overlap, or a spot overlaps an aisle, at %s",
                        l.position(x * l.length, y))
        if i + 1 < n:
            require_close(np.linalg.norm(row[i + 1].position(s * l.length, 0) - l.position(s * l.length, 0)), l.width,
                          "distance between consecutive spots", atol=1e-6)
    # the aisle in front of the spots leaves room for turning
    require(abs(rows[0][i].position(0, 0)[1] - rows[1][i].position(0, 0)[1]) >= 16, "the aisle is narrow")
    rec.hit("spots")


PROP = Prop("C34", "a trip ends, a junction is met, a lane has a turned twin, lanes or spots lie side by side", [
    Sub("trip", trip_case, check_trip, 110, 3000, clause="each entry leads to each exit by the documented roads, without leaving them"),
    Sub("join", join_case, check_join, 700, 12000, clause="roads that follow each other join without gap or kink"),
    Sub("arm", arm_case, check_arm, 500, 10000, clause="arms are turned copies of each other, up to the documented right of way"),
    Sub("side", side_case, check_side, 700, 12000, clause="lanes lie side by side, with their borders; spots do not overlap"),
])
