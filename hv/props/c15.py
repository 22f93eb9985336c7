"""C15 low-level control: lane keeping, cruise control, speed grid."""
import importlib
import math

import numpy as np
from hypothesis import strategies as st

from .. import geo, envs
from ..core import Prop, Sub, require, require_close, wrap

envs.prime()


def net_of(spec):
    return geo.real_network(spec)


def road_of(spec):
    from highway_env.road.road import Road
    return Road(net_of(spec), np_random=np.random.RandomState(0))


# ------------------------------------------------------------------ convergence

@st.composite
def lane_case(draw):
    ang = draw(st.one_of(st.just(0.0), geo.fl(-3.1, 3.1)))
    x0, y0 = draw(geo.fl(-50, 50)), draw(geo.fl(-50, 50))
    kind = draw(st.sampled_from(["straight", "straight", "sine", "circular"]))
    speed = draw(geo.fl(6, 30))
    if kind == "circular":
        r = draw(geo.fl(40, 120))
        speed = min(speed, math.sqrt(3.0 * r), 20)
        cw = draw(st.booleans())
        d = {"t": "circular", "center": [x0, y0], "radius": r, "start": ang, "end": ang + (3.1 if cw else -3.1),
             "clockwise": cw, "width": 4}
    else:
        d = {"t": kind, "start": [x0, y0], "end": [x0 + 2000 * math.cos(ang), y0 + 2000 * math.sin(ang)], "width": 4}
        if kind == "sine":
            d.update(amplitude=draw(geo.fl(-2, 2)), pulsation=draw(geo.fl(0, 0.06)), phase=draw(geo.fl(-3, 3)))
            speed = min(speed, 15)
    return {"lane": d, "v": round(speed, 3), "r": draw(geo.fl(-3.5, 3.5)), "dh": draw(geo.fl(-0.5, 0.5)),
            "target": round(max(4, speed + draw(geo.fl(-4, 4))), 3), "dt": draw(st.sampled_from([1 / 15, 1 / 20, 1 / 30])),
            "cls": draw(st.sampled_from(["controller.ControlledVehicle", "behavior.LinearVehicle"]))}


def vehicle(path):
    mod, name = path.split(".")
    return getattr(importlib.import_module("highway_env.vehicle." + mod), name)


def check_lane_keeping(case, rec):
    d = case["lane"]
    m = geo.Model(d)
    road = road_of([{"from": "a", "to": "b", "lanes": [d]}])
    s0 = 5.0
    v = vehicle("controller.ControlledVehicle")(road, list(m.position(s0, case["r"])), m.heading(s0) + case["dh"],
                                                case["v"], target_speed=case["target"])
    if case["cls"].endswith("LinearVehicle"):
        # a linear vehicle shares the cascaded structure of the lateral controller, without its saturations
        if abs(case["r"]) > 1.5 or abs(case["dh"]) > 0.2 or d["t"] != "straight":
            return
        v = vehicle(case["cls"])(road, list(m.position(s0, case["r"])), m.heading(s0) + case["dh"], case["v"],
                                 target_speed=case["target"])
    road.vehicles.append(v)
    horizon = min(14.0, 0.8 * (m.length - s0) / max(case["v"], case["target"]))
    n = int(horizon / case["dt"])
    for k in range(n):
        road.act()
        require(abs(v.action["steering"]) <= math.pi / 3 + 1e-9, "steering command %r beyond its limit",
                v.action["steering"])
        if type(v).__name__ == "ControlledVehicle":
            require_close(v.action["acceleration"], (case["target"] - v.speed) / 0.6, "proportional speed control")
        road.step(case["dt"])
    if horizon < 7:
        return
    s, r = m.local(v.position)
    # a proportional controller has a steady error in curves, which grows with the lateral acceleration
    top = max(case["v"], case["target"])
    curv = {"straight": 0, "circular": 1 / d.get("radius", 1), "sine": abs(d.get("amplitude", 0)) *
            d.get("pulsation", 0) ** 2}[d["t"]]
    tol = 0.05 + 0.25 * top ** 2 * curv + (0.3 if d["t"] == "sine" else 0)
    require(abs(r) < tol, "still %.3f m from the centre of the lane after %.1f s (%s)", r, horizon, case)
    require(abs(wrap(v.heading - m.heading(s))) < (0.02 if d["t"] == "straight" else 0.25), "heading error %r",
            wrap(v.heading - m.heading(s)))
    require(s > s0, "the vehicle did not move along its lane")
    if type(v).__name__ == "ControlledVehicle":
        require_close(v.speed, case["target"], "target speed reached", atol=1e-3)
    rec.hit(d["t"])


def check_speed(case, rec):
    """Cruise control: exponential approach, without overshoot, of any target including zero."""
    from highway_env.road.road import Road, RoadNetwork
    road = Road(RoadNetwork.straight_road_network(1, length=5000))
    v = vehicle("controller.ControlledVehicle")(road, [0, 0], 0, case["v"], target_speed=case["target"])
    require(v.target_speed == case["target"], "the requested target speed %r became %r", case["target"], v.target_speed)
    err = case["v"] - case["target"]
    for k in range(case["n"]):
        v.act()
        v.step(case["dt"])
        err *= 1 - case["dt"] / 0.6
        require_close(v.speed - case["target"], err, "speed error after %d steps" % (k + 1), atol=1e-6)
    v.act("FASTER")
    require_close(v.target_speed, case["target"] + 5, "FASTER raises the target by the speed increment")
    v.act("SLOWER")
    v.act("SLOWER")
    require_close(v.target_speed, case["target"] - 5, "SLOWER lowers it")
    require(v.target_lane_index == v.lane_index, "the lane target changed")
    rec.hit()


# ---------------------------------------------------------------- metamorphic

@st.composite
def closed_loop(draw):
    n = draw(st.integers(1, 4))
    k = draw(st.integers(1, 4))
    vs = []
    for i in range(k):
        vs.append({"c": draw(st.sampled_from(["controller.ControlledVehicle", "controller.MDPVehicle",
                                              "behavior.IDMVehicle", "behavior.LinearVehicle"])),
                   "s": round(20 + 25 * i + draw(geo.fl(0, 10)), 3), "l": draw(st.integers(0, n - 1)),
                   "r": draw(geo.fl(-0.97, 0.97)), "dh": draw(geo.fl(-0.2, 0.2)), "v": draw(geo.fl(5, 30)),
                   "t": draw(geo.fl(0, 1)), "ts": draw(geo.fl(5, 30))})
    acts = draw(st.lists(st.sampled_from(["LANE_LEFT", "LANE_RIGHT", "FASTER", "SLOWER", "IDLE"]), min_size=1,
                         max_size=6))
    return {"n": n, "vs": vs, "acts": acts, "ang": draw(geo.fl(-3, 3)), "shift": [draw(geo.fl(-500, 500)),
                                                                                 draw(geo.fl(-500, 500))]}


def play(case, ang=0.0, shift=(0.0, 0.0), mirror=1):
    from highway_env.road.road import Road
    c, s = math.cos(ang), math.sin(ang)

    def place(x, y):
        y = mirror * y
        return [x * c - y * s + shift[0], x * s + y * c + shift[1]]
    n = case["n"]
    ids = list(range(n)) if mirror == 1 else list(range(n - 1, -1, -1))
    spec = [{"from": "a", "to": "b", "lanes": [{"t": "straight", "start": place(0, 4 * i), "end": place(3000, 4 * i),
                                                "width": 4} for i in ids]}]
    road = Road(geo.real_network(spec), np_random=np.random.RandomState(1))
    for d in case["vs"]:
        kw = {"timer": d["t"]} if "behavior" in d["c"] else {}
        lane = ("a", "b", ids.index(d["l"]))
        road.vehicles.append(vehicle(d["c"])(road, place(d["s"], 4 * d["l"] + d["r"]), ang + mirror * d["dh"], d["v"],
                                             target_lane_index=lane, target_speed=d["ts"], **kw))
    out = []
    flip = {"LANE_LEFT": "LANE_RIGHT", "LANE_RIGHT": "LANE_LEFT"} if mirror == -1 else {}
    for a in case["acts"]:
        if case["vs"][0]["c"].startswith("controller"):
            road.vehicles[0].act(flip.get(a, a))
        for _ in range(15):
            road.act()
            road.step(1 / 15)
            row = []
            for v in road.vehicles:
                x, y = v.position[0] - shift[0], v.position[1] - shift[1]
                row.append([x * c + y * s, mirror * (-x * s + y * c), mirror * wrap(v.heading - ang), v.speed,
                            ids[v.target_lane_index[2]], float(v.crashed)])
            out.append(row)
    return np.array(out)


def compare(a, b, what, rec):
    """Trajectories agree until a decision flips by rounding (a chaotic event, identified by its target lane)."""
    for k in range(len(a)):
        if not np.array_equal(a[k][:, 4], b[k][:, 4]) or not np.array_equal(a[k][:, 5], b[k][:, 5]):
            return k
        if not np.allclose(a[k][:, :4], b[k][:, :4], atol=2e-4, rtol=1e-5):
            i = int(np.argmax(np.max(np.abs(a[k][:, :4] - b[k][:, :4]), axis=1)))
            require(False, "%s: vehicle %d differs at frame %d: %s vs %s", what, i, k, a[k][i], b[k][i])
    return len(a)


def check_invariance(case, rec):
    """The traffic has no preferred place, direction, in the plane."""
    a = play(case)
    b = play(case, case["ang"], case["shift"])
    if compare(a, b, "scene moved rigidly", rec) > 30 or len(a) <= 30:
        rec.hit()
    d0 = a[0][:, 4].tolist()
    if any(r[:, 4].tolist() != d0 for r in a):
        rec.note("lane change")


def check_mirror(case, rec):
    """Left and right are symmetric for a vehicle alone (with several, the order in which lanes are examined breaks
    ties)."""
    case = dict(case, vs=case["vs"][:1])
    if not case["vs"][0]["c"].startswith("controller"):
        return
    a = play(case)
    b = play(case, mirror=-1)
    if compare(a, b, "mirrored scene", rec) == len(a):
        rec.hit()


# ------------------------------------------------------------------ speed grid

@st.composite
def grid_case(draw):
    return {"count": draw(st.integers(1, 8)), "min": draw(geo.fl(0, 30)), "span": draw(geo.fl(1, 40)),
            "speeds": draw(st.lists(geo.fl(-20, 80), min_size=1, max_size=5)), "level": draw(st.sampled_from(
                ["default", "subclass", "instance"])),
            "acts": draw(st.lists(st.sampled_from(["FASTER", "SLOWER", "IDLE", "LANE_LEFT"]), max_size=8)),
            "v": draw(geo.fl(0, 60)), "wait": draw(st.sampled_from([0, 60]))}


def check_grid(case, rec):
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.vehicle.controller import MDPVehicle
    from highway_env.vehicle.kinematics import Vehicle
    road = Road(RoadNetwork.straight_road_network(2, length=20000))
    n, lo, hi = case["count"], case["min"], case["min"] + case["span"]
    if case["level"] == "default":
        n, lo, hi = 3, 20.0, 30.0
        cls = MDPVehicle
    else:
        cls = type("Sub", (MDPVehicle,), {"SPEED_COUNT": n, "SPEED_MIN": lo, "SPEED_MAX": hi}) \
            if case["level"] == "subclass" else MDPVehicle
    v = cls(road, [0, 0], 0, case["v"])
    if case["level"] == "instance":
        v.SPEED_COUNT, v.SPEED_MIN, v.SPEED_MAX = n, lo, hi
        v.speed_index = v.speed_to_index(v.target_speed)
        v.target_speed = v.index_to_speed(v.speed_index)
        require((MDPVehicle.SPEED_COUNT, MDPVehicle.SPEED_MIN, MDPVehicle.SPEED_MAX) == (3, 20, 30), "class changed")
    grid = [lo + i * (hi - lo) / (n - 1) for i in range(n)] if n > 1 else [lo]

    def nearest(x):
        d = [abs(x - g) for g in grid]
        return [i for i in range(n) if d[i] <= min(d) + 1e-9]
    for i in range(n):
        require_close(v.index_to_speed(i), grid[i], "index_to_speed(%d)" % i)
        require(v.speed_to_index(grid[i]) == i, "speed_to_index(index_to_speed(%d)) = %r", i, v.speed_to_index(grid[i]))
    for x in case["speeds"]:
        got = v.speed_to_index(x)
        require(int(got) == got and got in nearest(x), "speed_to_index(%r) = %r on %s", x, got, grid)
        if case["level"] != "instance":
            got = cls.speed_to_index_default(x)
            require(got in nearest(x), "speed_to_index_default(%r) = %r on %s", x, got, grid)
            w = Vehicle(road, [0, 0], 0, x)
            require(cls.get_speed_index(w) in nearest(x), "get_speed_index of a vehicle at %r", x)
    require(cls.get_speed_index(v) == v.speed_index, "get_speed_index of an MDP vehicle")
    require(v.speed_index in nearest(case["v"]) or case["level"] == "instance", "initial index %r for %r m/s on %s",
            v.speed_index, case["v"], grid)
    require_close(v.target_speed, grid[v.speed_index], "initial target speed")
    for a in case["acts"]:
        near, old = nearest(v.speed), v.speed_index
        v.act(a)
        if a == "FASTER":
            ok = {min(i + 1, n - 1) for i in near}
        elif a == "SLOWER":
            ok = {max(i - 1, 0) for i in near}
        else:
            ok = {old}
        require(v.speed_index in ok, "%s at %.6f m/s: index %r, expected %s", a, v.speed, v.speed_index, ok)
        require_close(v.target_speed, grid[v.speed_index], "target speed after %s" % a)
        for _ in range(case["wait"]):
            v.act()
            v.step(0.1)
        if case["wait"] and v.target_speed <= 39.5:
            require_close(v.speed, v.target_speed, "the target speed is reached", atol=1e-2)
            rec.note("reached")
    rec.hit(case["level"])


# ----------------------------------------------------------------- copies

def check_create(case, rec):
    """create_from keeps the dynamical state and the goals; make_on_lane puts on the lane."""
    spec = case["net"]
    road = road_of(spec)
    models = geo.model_network(spec)
    lane = sorted(models)[case["k"] % len(models)]
    m = models[lane]
    src = vehicle(case["src"])
    dst = vehicle(case["dst"])
    kw = {} if case["src"] == "kinematics.Vehicle" else {
        "target_lane_index": lane, "target_speed": case["ts"], "route": [lane]}
    if "behavior" in case["src"]:
        kw["timer"] = case["t"]
    v = src(road, list(m.position(case["s"] * m.length, 0)), m.heading(case["s"] * m.length), case["v"], **kw)
    if case["dst"] != "kinematics.Vehicle" and case["src"] == "kinematics.Vehicle":
        return
    w = dst.create_from(v)
    require(type(w) is dst and w is not v and w.road is v.road, "class or road of the copy")
    require_close(w.position, v.position, "position of the copy")
    require_close([w.heading, w.speed], [v.heading, v.speed], "heading and speed of the copy")
    require(w.position is not v.position, "the copy shares its position")
    if case["dst"] != "kinematics.Vehicle":
        require(tuple(w.target_lane_index) == tuple(v.target_lane_index), "target lane of the copy")
        if "MDP" not in case["dst"]:
            require_close(w.target_speed, v.target_speed, "target speed of the copy")
        require(w.route == v.route, "route of the copy")
        if "behavior" in case["dst"] and "behavior" in case["src"]:
            require_close(w.timer, case["t"], "timer of the copy")
    x = dst.make_on_lane(road, lane, case["s"] * m.length, speed=case["v"])
    require_close(x.position, m.position(case["s"] * m.length, 0), "make_on_lane position", atol=1e-6)
    require(abs(wrap(x.heading - m.heading(case["s"] * m.length))) < 1e-9 and x.speed == case["v"],
            "make_on_lane heading or speed")
    y = dst.make_on_lane(road, lane, 0, speed=None)
    require(y.speed == m.d["speed_limit"], "default speed is the limit of the lane")
    rec.hit(case["dst"])


CL = ["controller.ControlledVehicle", "controller.MDPVehicle", "behavior.IDMVehicle", "behavior.LinearVehicle",
      "kinematics.Vehicle"]

PROP = Prop(
    "C15",
    "A case is an initial error with respect to a lane of any shape, a scene with several vehicles, a speed grid with "
    "commands, or a vehicle to copy; non-trivial when the horizon was long enough to judge, or a comparison was made.",
    [
        Sub("lane", lane_case, check_lane_keeping, 400, 8000, clause="vehicles converge to the centre, direction and "
            "target speed of their lane with bounded steering"),
        Sub("speed", lambda: st.builds(lambda v, t, n, d: {"v": v, "target": t, "n": n, "dt": d}, geo.fl(0, 35),
                                       st.one_of(st.just(0.0), geo.fl(0, 35)), st.integers(1, 60),
                                       st.sampled_from([1 / 15, 0.1, 0.05])), check_speed, 300, 6000,
            clause="exponential cruise control towards any target; speed increments"),
        Sub("moved", closed_loop, check_invariance, 200, 4000, clause="translating and rotating the whole scene "
            "translates and rotates every trajectory"),
        Sub("mirror", closed_loop, check_mirror, 200, 4000, clause="mirroring a scene and its commands mirrors the "
            "trajectory"),
        Sub("grid", grid_case, check_grid, 800, 20000, clause="discrete speeds: nearest index, inverse maps, saturation"),
        Sub("create", lambda: st.builds(
            lambda net, k, s, v, ts, t, a, b: {"net": net, "k": k, "s": s, "v": v, "ts": ts, "t": t, "src": a, "dst": b},
            geo.network_spec(nodes=3, roads=3), st.integers(0, 9), geo.fl(0, 1), geo.fl(0, 30),
            st.one_of(st.just(0.0), geo.fl(0, 30)), st.one_of(st.just(0.0), geo.fl(0, 1)), st.sampled_from(CL),
            st.sampled_from(CL)), check_create, 400, 8000, clause="copies keep dynamics and goals"),
    ],
    ["curves whose curvature is compatible with the speed (lateral acceleration under about 3 m/s2)",
     "linear vehicles: small initial errors on straight lanes",
     "moved scenes are compared until a discrete decision flips by rounding"])
