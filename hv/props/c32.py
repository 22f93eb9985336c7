"""C32 interval vehicles: enclosure of the uncertain drivers, worst-case collisions, bookkeeping of the predictions."""
import copy
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from .. import geo
from ..core import Prop, Sub, require, require_close, fmt
from .c27 import num

DT = [1 / 15, 1 / 20, 1 / 10]
SLIP = 0.8      # lateral slip speed [m/s] covered by the observer's noise


# ---------------------------------------------------------------------- scenes

def straight_road(ang, lanes=3):
    from highway_env.road.road import Road
    c, s = math.cos(ang), math.sin(ang)
    spec = [{"from": "a", "to": "b", "lanes": [
        {"t": "straight", "start": [-4 * i * s, 4 * i * c],
         "end": [1000 * c - 4 * i * s, 1000 * s + 4 * i * c], "width": 4, "forbidden": False} for i in range(lanes)]}]
    return Road(geo.real_network(spec), np_random=np.random.RandomState(0))


@st.composite
def drive_case(draw, angles=True, others=True):
    ang = draw(st.sampled_from([0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, 0.3, -1.0, 2.5, -2.9, 3.1, 6.2, -4.7])) \
        if angles else 0
    bodies, x = [], 100
    for i in range(draw(st.integers(1, 3)) if others else 1):
        bodies.append({"x": round(x, 2), "r": draw(num(-0.4, 0.4)), "dh": draw(num(-0.03, 0.03)), "v": draw(num(8, 30)),
                       "ts": draw(num(5, 30)), "certain": bool(i) and draw(st.booleans()),
                       "a": draw(st.lists(st.one_of(st.sampled_from([0, 1]), num(0, 1)), min_size=3, max_size=3)),
                       "b": draw(st.lists(st.one_of(st.sampled_from([0, 1]), num(0, 1)), min_size=2, max_size=2)),
                       "box": draw(st.one_of(st.none(), st.none(), num(0, 1.3)))})
        x += draw(num(8, 70))
    return {"ang": ang, "lane": draw(st.integers(0, 2)), "bodies": bodies, "dt": draw(st.sampled_from(DT)),
            "T": draw(st.integers(5, 25)), "crash": draw(st.integers(0, 9)) == 0, "halt": draw(st.booleans())}


def pick(rng, u):
    rng = np.array(rng)
    return rng[0] + np.array(u) * (rng[1] - rng[0])


def ranges(b):
    """The ranges of parameters of a vehicle: the default ones, or these narrowed or widened by a factor."""
    from highway_env.vehicle.behavior import LinearVehicle
    out = []
    for r in (LinearVehicle.ACCELERATION_RANGE, LinearVehicle.STEERING_RANGE):
        r = np.array(r, dtype=float)
        m = r.mean(axis=0)
        out.append(r if b["box"] is None else m + b["box"] * (r - m))
    return out


def vehicles(case, road, interval):
    from highway_env.vehicle.behavior import LinearVehicle
    from highway_env.vehicle.controller import ControlledVehicle
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    lane = road.network.get_lane(("a", "b", case["lane"]))
    out = []
    for b in case["bodies"]:
        p, h = lane.position(b["x"], b["r"]), lane.heading_at(0) + b["dh"]
        if abs(case["ang"]) > math.pi:
            h += math.copysign(2 * math.pi, case["ang"])
        if b["certain"]:
            v = ControlledVehicle(road, p, h, b["v"], target_speed=b["ts"])
        else:
            cls = IntervalVehicle if interval else LinearVehicle
            ta, tb = ranges(b)
            kw = {"theta_a_i": ta, "theta_b_i": tb} if interval and b["box"] is not None else {}
            v = cls(road, p, h, b["v"], target_speed=b["ts"], enable_lane_change=False, timer=0, **kw)
            if not interval:
                v.ACCELERATION_PARAMETERS = pick(ta, b["a"])
                v.STEERING_PARAMETERS = pick(tb, b["b"])
        out.append(v)
    road.vehicles = out
    return out


def slips(v):
    beta = math.atan(0.5 * math.tan(v.action["steering"]))
    return abs(v.speed * math.sin(beta)) > SLIP


def passing(vs, case):
    u = np.array([math.cos(case["ang"]), math.sin(case["ang"])])
    return any((w.position - v.position) @ u < 5 for v, w in zip(vs[:-1], vs[1:]))


def enclosed(i, v, where):
    for f in ("position", "speed", "heading"):
        b, x = np.array(getattr(i, f), dtype=float), np.array(getattr(v, f), dtype=float)
        require(np.all(b[0] <= b[1] + 1e-9), "%s: the %s interval %s is not ordered", where, f, fmt(b))
        require(np.all(b[0] - 1e-7 <= x) and np.all(x <= b[1] + 1e-7),
                "%s: %s %s is out of its interval %s (parameters within their ranges)", where, f, fmt(x), fmt(b))


def check_observer(case, rec, partial=False):
    from highway_env.vehicle.behavior import LinearVehicle
    truth_road, model_road = straight_road(case["ang"]), straight_road(case["ang"])
    truth = vehicles(case, truth_road, False)
    model = vehicles(case, model_road, True)
    dt = case["dt"]
    widest = 0
    for k in range(case["T"]):
        for v in truth:
            v.act()
        if any(slips(v) for v in truth):
            rec.note("stopped: slipping")
            break
        for v in truth:
            v.step(dt)
        for v in model:
            v.act()
        for v, b in zip(model, case["bodies"]):      # from the rear to the front
            if b["certain"]:
                v.step(dt)
            elif partial:
                v.step(dt, mode="partial")
            else:
                v.observer_step(dt)
                LinearVehicle.step(v, dt)
        if any(not b["certain"] and m.interval.speed[0] < 1 for m, b in zip(model, case["bodies"])):
            rec.note("stopped: slow")
            break
        if passing(truth, case) or passing(model, case):
            rec.note("stopped: overtaking")
            break
        for j, (t, m, b) in enumerate(zip(truth, model, case["bodies"])):
            if not b["certain"]:
                enclosed(m.interval, t, "step %d, vehicle %d" % (k, j))
                enclosed(m.interval, m, "step %d, model of vehicle %d" % (k, j))
                widest = max(widest, float(np.max(m.interval.speed[1] - m.interval.speed[0])))
            else:
                require_close(m.position, t.position, "certain vehicle", 1e-9, 1e-9)
        if k >= 3:
            rec.hit("followed for 4 steps")
    if widest > 1:
        rec.note("uncertain speed > 1 m/s")
    if len(truth) > 1 and widest > 0:
        rec.note("with a front vehicle")


def check_partial(case, rec):
    check_observer(case, rec, partial=True)


@st.composite
def step_case(draw):
    ang = draw(st.one_of(st.sampled_from([0, math.pi / 2, math.pi, -math.pi / 2]), num(-7, 7)))
    wide = lambda top: draw(st.one_of(st.just(0), num(0, top), num(0, top)))
    unit = lambda k: draw(st.lists(st.one_of(st.sampled_from([0, 1]), num(0, 1)), min_size=k, max_size=k))
    v0 = draw(num(1, 35))
    h0 = draw(num(-2, 2))
    front = None
    if draw(st.booleans()):
        fv = draw(num(0, 1))
        front = {"d": draw(st.one_of(num(0.5, 30), num(0.5, 90), num(-5, 5))), "near": fv, "size": [wide(12), wide(12)],
                 "v": draw(num(0, 35)), "dv": wide(12), "certain": draw(st.integers(0, 2)) == 0}
    return {"ang": ang, "lane": draw(st.integers(0, 2)), "r": draw(num(-6, 6)), "size": [wide(20), wide(20)],
            "v": v0, "dv": wide(20), "turns": draw(st.sampled_from([0, 0, 0, 1, -1, 2])), "h": h0, "dh": min(wide(1.5), 2 - h0), "ts": draw(num(0, 35)),
            "front": front, "at": unit(6), "followed": draw(st.sampled_from(["model", "model", "all", "right"])), "ra": sorted(unit(2)), "dt": draw(st.sampled_from(DT + [0.02])),
            "truths": draw(st.lists(st.tuples(*[st.one_of(st.sampled_from([0.0, 1.0]), num(0, 1)) for _ in range(15)]),
                                    min_size=1, max_size=6))}


def check_step(case, rec):
    """One observer step from any interval state encloses one step of the uncertain linear model from any state inside."""
    from highway_env.vehicle.behavior import LinearVehicle
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    road = straight_road(case["ang"])
    lane = road.network.get_lane(("a", "b", case["lane"]))
    wise = np.array([math.cos(case["ang"]), math.sin(case["ang"])])
    psi = math.atan2(wise[1], wise[0])
    ra = np.array(case["ra"])
    ranges = []
    for rng in (LinearVehicle.ACCELERATION_RANGE, LinearVehicle.STEERING_RANGE):
        rng = np.array(rng, dtype=float)
        ranges.append(np.array([rng[0] + ra[0] * (rng[1] - rng[0]), rng[0] + ra[1] * (rng[1] - rng[0])]))
    ta, tb = ranges

    def place(p, size, v, dv, h, dh, cls, **kw):
        u = np.array(case["at"][:2])
        lo, hi = np.array(p) - u * size, np.array(p) + (1 - u) * size
        me = cls(road, list(p), h, v, **kw)
        if cls is IntervalVehicle:
            me.interval.position = np.array([lo, hi])
            me.interval.speed = np.array([v, v + dv])
            me.interval.heading = np.array([h, h + dh])
        return me, (lo, hi), (v, v + dv), (h, h + dh)

    h = psi + case["h"] + 2 * math.pi * case["turns"]
    me, box, vi, hi = place(lane.position(300, case["r"]), np.array(case["size"]), case["v"], case["dv"], h, case["dh"],
                            IntervalVehicle, target_lane_index=("a", "b", case["lane"]), target_speed=case["ts"],
                            enable_lane_change=False, timer=0, theta_a_i=ta, theta_b_i=tb)
    f, own_lane = case["front"], road.network.get_closest_lane_index(me.position, me.heading)
    road.vehicles = [me]
    if f:
        first = road.network.get_lane(own_lane)
        z = lambda x: 0 if f["certain"] else x
        gap = f["d"] if f["d"] > 0.5 and f["near"] < 0.6 else \
            max(0.5, me.DISTANCE_WANTED + me.TIME_WANTED * (vi[0] + f["near"] * case["dv"]) + f["d"] % 10 - 5)  # around the safe one
        s = first.local_coordinates(me.position)[0] + gap
        other, fbox, fvi, _ = place(first.position(s, 0), np.array([z(x) for x in f["size"]]), f["v"], z(f["dv"]), psi, 0,
                                    LinearVehicle if f["certain"] else IntervalVehicle, timer=0)
        road.vehicles.append(other)
        require(road.neighbour_vehicles(me)[0] is other, "the front vehicle is not seen")
    dt = case["dt"]
    followed = [me.target_lane_index]
    if case["followed"] != "model":     # a driver who may follow any of several lanes
        known = type(me).get_followed_lanes
        followed = known(me, case["followed"])
        me.get_followed_lanes = lambda *args: known(me, *(args or (case["followed"],)))
        rec.note("several lanes followed") if len(followed) > 1 else None
    before = [np.array(x) for x in (me.position, me.speed, me.heading)]
    me.observer_step(dt)
    require(all(np.array_equal(a, b) for a, b in zip(before, (me.position, me.speed, me.heading))),
            "observing moves the vehicle")
    got = me.interval
    # no wider than what the fastest driver can do, in any direction, with the observer's noise
    reach = dt * (vi[1] + 1) + 1e-6
    require(np.all(got.position[0] >= box[0] - reach) and np.all(got.position[1] <= box[1] + reach),
            "from %s at no more than %.2f m/s, the positions %s are deemed possible after %.2f s", fmt(box), vi[1], fmt(got.position), dt)
    slack = dt * me.ACC_MAX + 1e-6
    require(got.speed[0] >= vi[0] - slack and got.speed[1] <= vi[1] + slack, "from speeds %s, the speeds %s are deemed possible after %.2f s, "
            "the largest acceleration is %.2f", fmt(vi), fmt(got.speed), dt, me.ACC_MAX)
    truths = list(case["truths"])
    for k in range(math.ceil(hi[0] / (math.pi / 2)), math.floor(hi[1] / (math.pi / 2)) + 1):
        if hi[1] > hi[0]:  # right along an axis, at the extremes of everything else
            q = (k * math.pi / 2 - hi[0]) / (hi[1] - hi[0])
            for e in itertools.product([0.0, 1.0], repeat=3):
                truths.append((e[0], e[1], e[2], q, 0.5, 0.5, 0.5, 0.5, 0.5, e[0], e[1], 0.5, 0.5, 0.5, 0.5))
                rec.note("axis in the heading interval")
    if f:
        for a in itertools.product([0.0, 1.0], repeat=3):   # the closest fast behind a slow one, and the reverse, as any driver
            for e in (0.0, 1.0):
                ahead = [e if w > 0 else 1 - e for w in wise]
                truths.append((*ahead, e, 0.5, *a, 0.5, 0.5, 0.5, 0.5, 0.5, *[1 - q for q in ahead], 1 - e))
                truths.append((*ahead, 1 - e, 0.5, *a, 0.5, 0.5, 0.5, 0.5, 0.5, *[1 - q for q in ahead], 1 - e))
    if len(followed) > 1:
        for e in itertools.product([0.0, 1.0], repeat=5):
            truths.append((e[0], e[1], e[2], 0.5, 0.5, 0.5, 0.5, e[3], e[4], 0.5, 0.5, e[4], 0.5, 0.5, 0.5))
    for j, c in enumerate(truths):
        p = box[0] + np.array(c[0:2]) * (box[1] - box[0])
        v = vi[0] + c[2] * (vi[1] - vi[0])
        q = hi[0] + c[3] * (hi[1] - hi[0])
        a = ta[0] + np.array(c[4:7]) * (ta[1] - ta[0])
        b = tb[0] + np.array(c[7:9]) * (tb[1] - tb[0])
        w = 2 * np.array(c[9:12]) - 1
        acc = a[0] * (case["ts"] - v)
        if f:
            fp = fbox[0] + np.array(c[12:14]) * (fbox[1] - fbox[0])
            fv = fvi[0] + c[14] * (fvi[1] - fvi[0])
            d = (fp - p) @ wise
            acc += a[1] * min(fv - v, 0) + a[2] * min(d - me.DISTANCE_WANTED - me.TIME_WANTED * v, 0)
        acc = min(max(acc, -me.ACC_MAX), me.ACC_MAX)
        normal = np.array([-wise[1], wise[0]])
        lat = (p - road.network.get_lane(followed[j % len(followed)]).position(0, 0)) @ normal
        rate = b[0] * (psi + 2 * math.pi * case["turns"] - q) + b[1] * (-lat / v)
        p2 = p + dt * (v * np.array([math.cos(q), math.sin(q)]) + w[:2])
        v2, q2 = v + dt * acc, q + dt * (rate + w[2])
        for name, x in (("position", p2), ("speed", v2), ("heading", q2)):
            i = getattr(got, name)
            require(np.all(i[0] - 1e-7 <= x) and np.all(x <= i[1] + 1e-7), "%s reaches %s, out of the observed %s",
                    name, fmt(x), fmt(i))
    rec.hit("front" if f else "free")
    if case["dv"] > 2 and min(case["size"]) > 1:
        rec.note("wide")


# ----------------------------------------------------------------- bookkeeping

def same(i, j):
    return all(np.array_equal(getattr(i, f), getattr(j, f)) for f in ("position", "speed", "heading"))


def degenerate(i, v):
    return np.array_equal(i.position, [v.position, v.position]) and list(i.speed) == [v.speed] * 2 and \
        list(i.heading) == [v.heading] * 2


def check_records(case, rec):
    """Initial interval, one record per step, independent of what follows; the nominal vehicle is the model itself."""
    from highway_env.vehicle.behavior import LinearVehicle
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    road, twin_road = straight_road(case["ang"]), straight_road(case["ang"])
    model = vehicles(case, road, True)
    twin = vehicles(case, twin_road, False)
    for v, b in zip(twin, case["bodies"]):
        if not b["certain"]:
            v.ACCELERATION_PARAMETERS = LinearVehicle.ACCELERATION_PARAMETERS
            v.STEERING_PARAMETERS = LinearVehicle.STEERING_PARAMETERS
    me = model[0]
    require(degenerate(me.interval, me), "a vehicle's first interval is not its state")
    require(me.trajectory == [] and me.interval_trajectory == [], "records before the first step")
    states, intervals = [], []
    mode = "partial"
    crash_at = case["T"] // 2 if case["crash"] else None
    for k in range(min(case["T"], 12)):
        for v in model + twin:
            v.act()
        if k == crash_at:
            me.crashed = twin[0].crashed = True
            if case["halt"]:
                me.speed = twin[0].speed = 0
        states.append((me.position.copy(), me.heading, me.speed))
        intervals.append(copy.deepcopy(me.interval))
        before = copy.deepcopy(me.interval) if not me.crashed else None
        now = (me.position.copy(), me.heading, me.speed)
        me.step(case["dt"], mode=mode)
        if me.crashed:
            require(np.array_equal(me.interval.position, [now[0], now[0]]) and list(me.interval.speed) == [now[2]] * 2
                    and list(me.interval.heading) == [now[1]] * 2,
                    "the interval of a crashed vehicle is not its state")
            rec.hit("crashed")
        else:
            require(not same(before, me.interval), "the interval did not move")
        for v in model[1:] + twin:
            v.step(case["dt"])
        for v, w in zip(model, twin):
            require(np.array_equal(v.position, w.position) and v.heading == w.heading and v.speed == w.speed,
                    "step %d: the nominal state %s differs from that of a linear vehicle %s", k, fmt(v.position),
                    fmt(w.position))
        require(len(me.trajectory) == len(me.interval_trajectory) == k + 1, "%d steps: %d states, %d intervals recorded",
                k + 1, len(me.trajectory), len(me.interval_trajectory))
        for (p, h, s), r, i, j in zip(states, me.trajectory, intervals, me.interval_trajectory):
            require(np.array_equal(p, r.position) and (h, s) == (r.heading, r.speed), "recorded state %s, was %s",
                    fmt(r.position), fmt(p))
            require(same(i, j), "the recorded interval has changed")
        if k >= 2:
            rec.hit()
    # copies
    c = IntervalVehicle.create_from(me)
    require(degenerate(c.interval, me) and c.target_lane_index == me.target_lane_index and c.target_speed ==
            me.target_speed and c.trajectory == [] and np.array_equal(c.theta_a_i, me.theta_a_i) and
            np.array_equal(c.theta_b_i, me.theta_b_i), "a copy differs from its original")
    # front interval
    got = me.get_front_interval()
    nearest = road.neighbour_vehicles(me)[0]
    if nearest is None:
        require(got is None, "front interval without a front vehicle")
    elif isinstance(nearest, IntervalVehicle):
        require(same(got, nearest.interval), "the front vehicle's own interval is not used")
        rec.note("uncertain front")
    else:
        require(degenerate(got, nearest), "the interval of a certain front vehicle is not its state")
        rec.note("certain front")


@st.composite
def lanes_case(draw):
    n = draw(st.integers(1, 5))
    return {"n": n, "lane": draw(st.integers(0, n - 1)), "r": draw(num(-9, 9)), "x": draw(num(20, 900)),
            "a": draw(st.lists(num(0, 3), min_size=6, max_size=6)), "b": draw(st.lists(num(0, 8), min_size=4, max_size=4)),
            "front": draw(st.one_of(st.none(), st.tuples(num(8, 40), num(0, 30)))), "v": draw(num(5, 30)), "vt": draw(num(0, 35))}


def box_of(lo_hi):
    v = np.array(lo_hi).reshape(2, -1)
    return np.array([v.min(axis=0), v.max(axis=0)])


def vertices(a0, da):
    return [np.array(a0) + np.array(d) for d in da]


def same_set(a, b):
    return all(any(np.allclose(x, y, atol=1e-9) for y in b) for x in a) and \
        all(any(np.allclose(x, y, atol=1e-9) for y in a) for x in b)


def check_lanes(case, rec):
    """Lanes that may be followed; dynamics polytopes of a box of parameters."""
    from highway_env.vehicle.controller import ControlledVehicle
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    road = straight_road(0, case["n"])
    ta, tb = box_of(case["a"]), box_of(case["b"])
    t = case["lane"]
    me = IntervalVehicle(road, [case["x"], 4 * t + case["r"]], 0, case["v"], target_lane_index=("a", "b", t), timer=0,
                         target_speed=case["vt"], theta_a_i=ta, theta_b_i=tb)
    road.vehicles = [me]
    if case["front"]:
        me.position[1] = 4 * t
        me.on_state_update()
        road.vehicles.append(ControlledVehicle(road, [case["x"] + case["front"][0], 4 * t], 0, case["front"][1]))
    y = me.position[1]
    near = lambda i: abs(y - 4 * i) <= 2 * 4 and 0 <= case["x"] < 1005
    unclear = any(abs(abs(y - 4 * i) - 8) < 1e-6 for i in range(case["n"]))
    lanes = lambda ids: [("a", "b", i) for i in ids]
    require(me.get_followed_lanes() == lanes([t]) == me.get_followed_lanes("model", False), "followed lanes of the model")
    require(sorted(me.get_followed_lanes("all")) == lanes([i for i in (t - 1, t, t + 1) if 0 <= i < case["n"]]),
            "all followed lanes %s from lane %d of %d", me.get_followed_lanes("all"), t, case["n"])
    if not unclear:
        right = [t + 1] if t + 1 < case["n"] and near(t + 1) else []
        require(me.get_followed_lanes("right") == lanes([t] + right), "right lanes %s from lane %d of %d at y=%s",
                me.get_followed_lanes("right"), t, case["n"], fmt(y))
        require(me.get_followed_lanes("right", squeeze=False) == lanes([t] + (right or [t])), "right lanes, not squeezed")
        rec.hit("right lane" if right else "no right lane")
    # polytopes
    fr = case["front"]
    want = []
    for k0 in ta[:, 0]:
        for k1 in ta[:, 1]:
            for _ in ta[:, 2]:
                m = np.zeros((4, 4))
                m[0, 2] = m[1, 3] = 1
                m[2, 2] = m[3, 3] = -k0
                if fr and case["v"] >= fr[1]:
                    m[2, 2] -= k1
                    m[2, 3] += k1
                want.append(m)
    if not fr or abs(fr[0] - me.DISTANCE_WANTED - me.TIME_WANTED * case["v"]) > 1e-6:
        got = vertices(*me.longitudinal_matrix_polytope())
        require(same_set(got, want), "longitudinal polytope: %s, expected %s", fmt(got), fmt(want))
    want = [np.array([[0, 1], [-k1, -k0]]) for k0 in tb[:, 0] for k1 in tb[:, 1]]
    require(same_set(vertices(*me.lateral_matrix_polytope()), want), "lateral polytope")
    if fr:
        rec.note("polytope with a front vehicle" + (", slower" if case["v"] >= fr[1] else ", faster"))


# ------------------------------------------------------------------ collisions

@st.composite
def crash_case(draw):
    square = draw(st.booleans())
    quarter = lambda: round(draw(st.integers(-3, 3)) * math.pi / 2, 12)
    h1 = quarter() if square else draw(num(-3.2, 3.2))
    h2 = quarter() if square else draw(num(-3.2, 3.2))
    p = draw(st.tuples(num(-30, 30), num(-30, 30)))
    size = draw(st.one_of(st.just((0, 0)), st.tuples(num(0, 12), num(0, 12))))
    frac = draw(st.tuples(num(0, 1), num(0, 1)))
    near = st.one_of(num(-8, 8), num(4.5, 6.7), num(-6.7, -4.5))
    off = draw(st.tuples(near, near))
    return {"h": [h1, h2], "p": p, "size": size, "frac": frac, "off": off, "square": square,
            "v": draw(st.tuples(num(0, 30), num(0, 30))),
            "kind": draw(st.sampled_from(["mdp"] * 7 + ["controlled", "idm", "obstacle"])),
            "state": draw(st.sampled_from(["free"] * 8 + ["disabled", "crashed"]))}


def gap_of_box(lo, hi, own, other):
    """Separation of the bodies over all positions of the first one in a box: > 0 apart everywhere, < 0 some overlap.
    own, other: (length, width, angle) and (position, length, width, angle)."""
    pos = np.array(other[0])
    mine = geo.corners(np.zeros(2), own[0], own[1], own[2])
    pts = [np.array([x, y]) + c for x in (lo[0], hi[0]) for y in (lo[1], hi[1]) for c in mine]
    his = [np.array(c) for c in geo.corners(pos, other[1], other[2], other[3])]
    best = -1e9
    for a in (0, math.pi / 2, own[2], own[2] + math.pi / 2, other[3], other[3] + math.pi / 2):
        n = np.array([math.cos(a), math.sin(a)])
        p, q = [x @ n for x in pts], [x @ n for x in his]
        best = max(best, min(q) - max(p), min(p) - max(q))
    return best


def check_crash(case, rec):
    from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle
    from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    from highway_env.road.objects import Obstacle
    p, size, frac = np.array(case["p"]), np.array(case["size"]), np.array(case["frac"])
    lo, hi = p - frac * size, p + (1 - frac) * size
    # the other vehicle, off the box
    off = np.array(case["off"])
    q = np.where(off < -4, lo + (off + 4) * 2, np.where(off > 4, hi + (off - 4) * 2, lo + (off + 4) / 8 * (hi - lo)))

    def scene(cls):
        road = straight_road(0)
        me = cls(road, list(p), case["h"][0], case["v"][0], timer=0)
        if case["kind"] == "obstacle":
            other = Obstacle(road, list(q), case["h"][1])
            road.objects = [other]
        else:
            other = {"mdp": MDPVehicle, "controlled": ControlledVehicle, "idm": IDMVehicle}[case["kind"]](
                road, list(q), case["h"][1], case["v"][1])
        if case["state"] == "disabled":
            me.COLLISIONS_ENABLED = False
        me.crashed = case["state"] == "crashed"
        return me, other

    me, other = scene(IntervalVehicle)
    me.interval.position = np.array([lo, hi])
    state = lambda a, b: (a.crashed, a.speed, getattr(b, "crashed", None), getattr(b, "hit", None), b.speed)
    before = state(me, other)
    me.check_collision(me)
    require(state(me, other) == before, "a vehicle collides with itself")
    me.check_collision(other)
    after = state(me, other)
    require(np.array_equal(me.interval.position, [lo, hi]) and np.array_equal(me.position, p) and
            np.array_equal(other.position, q), "checking a collision moves a vehicle")
    if case["kind"] != "mdp":
        me2, other2 = scene(LinearVehicle)
        me2.check_collision(other2)
        require(after == state(me2, other2), "collision with a %s: %s, for a linear vehicle %s", case["kind"], after,
                state(me2, other2))
        rec.note("other kinds")
        return
    if case["state"] != "free":
        require(after == before, "%s: %s -> %s", case["state"], before, after)
        return
    hit = after[0]
    if hit:
        s = min(case["v"])
        require(after == (True, s, True, None, s), "both should be crashed at speed %s: %s", s, after)
    else:
        require(after == before, "no collision but %s -> %s", before, after)
    L, W = me.LENGTH, me.WIDTH
    gap = gap_of_box(lo, hi, (L, W, case["h"][0]), (q, 0.9 * L, 0.9 * W, case["h"][1]))
    if abs(gap) < 1e-6:
        return
    if hit:
        require(gap < 0, "collision reported, but no possible position (box %s %s) touches the vehicle at %s (gap %s)",
                fmt(lo), fmt(hi), fmt(q), gap)
        rec.hit("worst-case collision")
        if geo.separation(geo.corners(p, L, W, case["h"][0]),
                          geo.corners(q, 0.9 * L, 0.9 * W, case["h"][1])) > 0:
            rec.note("only of a possible position")
    elif case["square"]:
        require(gap > 0, "no collision reported, but some possible position (box %s %s) touches the vehicle at %s (gap %s)",
                fmt(lo), fmt(hi), fmt(q), gap)
        if gap < 3:
            rec.hit("near miss")
    else:
        require(not (np.all(lo <= q) and np.all(q <= hi)), "no collision reported with a vehicle in the uncertainty box")
        point = not np.any(size)
        if point and np.all(np.abs(q - p) < 4.9):
            require(gap > 0, "certain position: no collision reported at %s of %s (gap %s)", fmt(q), fmt(p), gap)
            rec.note("certain position")


PROP = Prop("C32", "an enclosure is compared over several steps, a worst-case collision or near miss is judged", [
    Sub("observer", drive_case, check_observer, 500, 20000,
        clause="the observed interval contains every driver of admissible parameters, in any direction, with others ahead"),
    Sub("step", step_case, check_step, 2000, 60000,
        clause="one step of the observer encloses one step of the linear model, from any interval state"),
    Sub("partial", lambda: drive_case(angles=False, others=False), check_partial, 350, 10000,
        clause="the default prediction contains them on a free road along x"),
    Sub("records", drive_case, check_records, 300, 10000,
        clause="one independent record per step; the nominal state is that of the linear vehicle; crashed ones are certain"),
    Sub("lanes", lanes_case, check_lanes, 600, 20000,
        clause="followed lanes and dynamics polytopes of the parameter box"),
    Sub("crash", crash_case, check_crash, 2500, 80000,
        clause="a worst-case collision is reported exactly when some possible position collides"),
], ["truths whose lateral slip is below 0.8 m/s (the observer's perturbation bound is 1 m/s), speeds above 1 m/s, no lane change",
    "default (partial) prediction only on a free road along x; predictor mode not claimed (see DESIGN.md)",
    "exactly-when only for vehicles along the axes or certain positions"])
