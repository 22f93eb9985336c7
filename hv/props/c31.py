"""C31 collecting data on linear vehicles, estimating their parameters, and telling which route they follow."""
import copy
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from .. import geo, traffic
from ..core import Prop, Sub, require, require_close, wrap
from .c27 import num


# --------------------------------------------------------------- own estimation

def ellipsoid(phi, y, lam, delta, sigma, bound):
    d = phi.shape[1]
    g = phi.T @ phi / sigma + lam * np.eye(d)
    theta = np.linalg.solve(g, phi.T @ y / sigma)
    sign, logdet = np.linalg.slogdet(g)
    beta = math.sqrt(2 * (0.5 * (logdet - d * math.log(lam)) - math.log(delta))) + math.sqrt(lam * d) * bound
    return theta, g, beta


@st.composite
def data_case(draw):
    d = draw(st.integers(1, 3))
    n = draw(st.integers(1, 12) if draw(st.integers(0, 11)) else st.integers(50, 150))
    feats = draw(st.lists(st.lists(num(-5, 5), min_size=d, max_size=d), min_size=n, max_size=n))
    theta = draw(st.lists(num(-4, 4), min_size=d, max_size=d))
    noise = draw(st.one_of(st.just([0.0] * n), st.lists(num(-1, 1), min_size=n, max_size=n)))
    box = [[t - draw(num(0, 3)) for t in theta], [t + draw(num(0, 3)) for t in theta]]
    opts = {}
    if draw(st.booleans()):
        opts = {"lambda_": draw(st.sampled_from([1e-5, 1e-3, 0.1, 1.0])),
                "delta": draw(st.sampled_from([0.01, 0.1, 0.5])),
                "sigma": draw(st.sampled_from([0.01, 0.1, 1.0, 2.0])),
                "param_bound": draw(st.sampled_from([0.5, 1.0, 10.0]))}
    return {"f": feats, "theta": theta, "noise": noise, "box": box, "opts": opts,
            "perm": draw(st.permutations(range(n)))}


def outputs(case):
    return [float(np.dot(case["theta"], f)) + e for f, e in zip(case["f"], case["noise"])]


def check_ellipsoid(case, rec):
    """The estimate is the regularised least-squares one, its confidence the documented ellipsoid."""
    from highway_env import utils
    o = dict({"lambda_": 1e-5, "delta": 0.1, "sigma": 0.1, "param_bound": 1.0}, **case["opts"])
    f, y = [np.array(x) for x in case["f"]], outputs(case)
    data = {"features": f, "outputs": y}
    keep = copy.deepcopy(data)
    theta, g, beta = utils.confidence_ellipsoid(data, **case["opts"])
    require(all((a == b).all() for a, b in zip(data["features"], keep["features"])) and data["outputs"] ==
            keep["outputs"] and len(data["features"]) == len(f), "estimating changes the data")
    phi = np.array(f)
    wt, wg, wb = ellipsoid(phi, np.array(y), o["lambda_"], o["delta"], o["sigma"], o["param_bound"])
    cond = np.linalg.cond(wg)
    require_close(g, wg, "Gramian matrix", 1e-9, 1e-9)
    if cond > 1e9:
        rec.note("ill-conditioned")
        return
    require_close(theta, wt, "estimated parameter", 1e-6 * max(1, cond * 1e-7), 1e-6)
    require(abs(beta - wb) < 1e-6 * wb + 1e-6, "radius %s, expected %s", beta, wb)
    # stationarity of the regularised squared error
    r = phi.T @ (phi @ theta - np.array(y)) / o["sigma"] + o["lambda_"] * theta
    require(np.linalg.norm(r) < 1e-5 * (1 + np.linalg.norm(phi.T @ np.array(y)) / o["sigma"]),
            "the estimate does not minimise the regularised error")
    p = {"features": [f[i] for i in case["perm"]], "outputs": [y[i] for i in case["perm"]]}
    t2, g2, b2 = utils.confidence_ellipsoid(p, **case["opts"])
    require(np.allclose(t2, theta, rtol=1e-5, atol=1e-6 * max(1, cond * 1e-7)) and np.allclose(g2, g) and
            abs(b2 - beta) < 1e-6 * wb + 1e-6, "the estimate depends on the order of the data")
    if not any(case["noise"]):
        e = np.array(case["theta"]) - theta
        dist = math.sqrt(max(0, e @ g @ e))
        require(dist <= math.sqrt(o["lambda_"]) * np.linalg.norm(case["theta"]) + 1e-5 * (1 + cond * 1e-8),
                "exact data: the parameter is at distance %s of the estimate", dist)
        if o["param_bound"] >= np.max(np.abs(case["theta"])):
            require(dist <= beta, "exact data: the parameter is outside of the confidence ellipsoid")
        rec.note("exact data")
    rec.hit("dim:%d" % phi.shape[1])
    if case["opts"]:
        rec.note("options")


def check_polytope(case, rec):
    """Estimate and vertices stay in the prior box."""
    from highway_env import utils
    f, y, box = [np.array(x) for x in case["f"]], outputs(case), np.array(case["box"])
    data = {"features": f, "outputs": y}
    theta, verts, g, beta = utils.confidence_polytope(data, box)
    d = len(case["theta"])
    bound = float(np.max(np.abs(box)))
    wt, wg, wb = ellipsoid(np.array(f), np.array(y), 1e-5, 0.1, 0.1, bound)
    if np.linalg.cond(wg) > 1e8:
        rec.note("ill-conditioned")
        return
    require_close(theta, np.clip(wt, box[0], box[1]), "estimate projected on the box", 1e-5, 1e-5)
    require_close(g, wg, "Gramian matrix", 1e-9, 1e-9)
    require(abs(beta - wb) < 1e-6 * wb + 1e-6, "radius %s, expected %s (bound %s)", beta, wb, bound)
    require(np.shape(verts) == (2 ** d, d), "%s vertices for %d parameters", np.shape(verts), d)
    for v in np.asarray(verts):
        p = np.asarray(theta) + v
        require((p >= box[0] - 1e-9).all() and (p <= box[1] + 1e-9).all(), "vertex %s out of the box %s", p, box)
    # in every direction, some vertex is on each side of the estimate
    require((np.min(verts, axis=0) <= 1e-9).all() and (np.max(verts, axis=0) >= -1e-9).all(),
            "the estimate is not between the vertices")
    if not any(case["noise"]):
        require((np.abs(np.array(case["theta"]) - theta) @ np.abs(np.array(case["theta"]) - theta)) <=
                np.sum((np.array(case["theta"]) - wt) ** 2) * (1 + 1e-5) + 1e-6, "projecting on the box moves away from the parameter")
    rec.hit("dim:%d" % d)
    if not np.allclose(wt, theta, atol=1e-4):
        rec.note("clipped")


def check_consistency(case, rec):
    """Exact data of an admissible parameter are always consistent; the verdict follows the announced bound."""
    from highway_env import utils
    f, y, box = [np.array(x) for x in case["f"]], outputs(case), np.array(case["box"])
    data = {"features": f, "outputs": y}
    keep = copy.deepcopy(data)
    got = utils.is_consistent_dataset(data, parameter_box=box)
    require(len(data["outputs"]) == len(keep["outputs"]) and len(data["features"]) == len(keep["features"]) and
            all((a == b).all() for a, b in zip(data["features"], keep["features"])) and
            data["outputs"] == keep["outputs"], "the verdict modifies the data")
    require(bool(got) == got, "the verdict is a truth value")
    if len(y) == 1:
        require(bool(got), "a single observation contradicts nothing")
        return
    wt, wg, wb = ellipsoid(np.array(f[:-1]), np.array(y[:-1]), 1e-5, 0.1, 0.1, float(np.max(np.abs(box))))
    cond = np.linalg.cond(wg)
    if not any(case["noise"]) and cond < 1e9:
        require(bool(got), "exact data of the parameter %s, in the box, are rejected", case["theta"])
        rec.note("exact data")
    if cond > 1e8:
        return
    theta = np.clip(wt, box[0], box[1])
    err = abs(y[-1] - float(theta @ f[-1]))
    lim = float(np.linalg.norm(f[-1])) / math.sqrt(np.linalg.eigvalsh(wg)[0]) * wb + 0.1
    if abs(err - lim) > 1e-4 * (1 + lim):
        require(bool(got) == (err < lim), "error %s, bound %s: consistent = %r", err, lim, got)
        rec.hit("consistent" if got else "inconsistent")


@st.composite
def surprise_case(draw):
    """Well-explored data, then an observation at a chosen fraction of the bound."""
    d = draw(st.integers(1, 3))
    n = draw(st.integers(d, 10))
    feats = [[1.0 * (i == j) * draw(num(1, 4)) for j in range(d)] for i in range(d)]
    feats += draw(st.lists(st.lists(num(-5, 5), min_size=d, max_size=d), min_size=n - d, max_size=n - d))
    theta = draw(st.lists(num(-4, 4), min_size=d, max_size=d))
    last = draw(st.lists(num(-5, 5), min_size=d, max_size=d))
    return {"f": feats + [last], "theta": theta, "noise": [0.0] * n + [draw(num(-40, 40))],
            "box": [[t - 2 for t in theta], [t + 2 for t in theta]]}


# ------------------------------------------------------------------ data collected while driving

@st.composite
def drive_case(draw):
    c = draw(traffic.lanes_scene(ego_types=("behavior.LinearVehicle", "behavior.AggressiveVehicle",
                                            "behavior.DefensiveVehicle"), max_bodies=4))
    c["bodies"][0]["v"] = draw(st.one_of(geo.fl(2, 35), geo.fl(2, 35), geo.fl(-3, 3)))
    c["steps"] = draw(st.integers(1, 8))
    c["rand"] = draw(st.booleans())
    c["collect"] = draw(st.integers(0, 5)) > 0
    return c


def check_collected(case, rec):
    """Each decision adds one pair of features and output, explained by the vehicle's own parameters."""
    road, made = traffic.build(case)
    v = made[0]
    if case["rand"]:
        v.randomize_behavior()
        require((np.array(v.ACCELERATION_PARAMETERS) >= v.ACCELERATION_RANGE[0] - 1e-9).all() and
                (np.array(v.ACCELERATION_PARAMETERS) <= v.ACCELERATION_RANGE[1] + 1e-9).all() and
                (np.array(v.STEERING_PARAMETERS) >= v.STEERING_RANGE[0] - 1e-9).all() and
                (np.array(v.STEERING_PARAMETERS) <= v.STEERING_RANGE[1] + 1e-9).all(),
                "random parameters outside of their range")
        rec.note("random parameters")
    v.collecting_data = case["collect"]
    n = 0
    for _ in range(case["steps"]):
        if v.crashed:
            break
        lane = 4 * v.target_lane_index[2]
        front = road.neighbour_vehicles(v)[0]
        sp = v.speed if abs(v.speed) > 1e-2 else (1e-2 if v.speed > 0 else -1e-2)
        dv = dp = 0.0
        if front is not None:
            dv = min(front.speed - v.speed, 0)
            gap = front.position[0] - v.position[0]
            dp = min(gap - (v.DISTANCE_WANTED + max(v.speed, 0) * v.TIME_WANTED), 0)
        lon = [v.target_speed - v.speed, dv, dp]
        lat = [wrap(-v.heading) * 5.0 / sp, -(v.position[1] - lane) * 5.0 / sp ** 2]
        ends = v.target_lane_index
        v.act()
        if not case["collect"]:
            require(not v.data, "data are collected although this is disabled")
            continue
        n += 1
        for key, want, params in (("longitudinal", lon, v.ACCELERATION_PARAMETERS),
                                  ("lateral", lat, v.STEERING_PARAMETERS)):
            d = v.data[key]
            require(len(d["features"]) == len(d["outputs"]) == n, "%d features and %d outputs after %d decisions",
                    len(d["features"]), len(d["outputs"]), n)
            require_close(d["features"][-1], want, key + " features", 1e-7, 1e-7)
            require(abs(d["outputs"][-1] - float(np.dot(params, want))) < 1e-6 * (1 + abs(d["outputs"][-1])),
                    "%s output %s is not explained by the parameters %s", key, d["outputs"][-1], params)
            require(np.ndim(d["outputs"][-1]) == 0, "outputs are numbers")
        for w in road.vehicles[1:]:
            w.act()
        road.step(1 / 15)
        rec.hit("decides")
        if front is not None:
            rec.note("front vehicle")
        if tuple(v.target_lane_index) != tuple(v.lane_index):
            rec.note("changing lane")


# ---------------------------------------------------------------------- regression vehicle

@st.composite
def regression_case(draw):
    c = draw(data_case())
    d = draw(st.sampled_from([2, 3]))
    n = len(c["f"])
    c["f"] = draw(st.lists(st.lists(num(-5, 5), min_size=d, max_size=d), min_size=n, max_size=n))
    c["theta"] = draw(st.lists(num(0, 4), min_size=d, max_size=d))
    c["box"] = [[t - draw(num(0, 2)) for t in c["theta"]], [t + draw(num(0, 2)) for t in c["theta"]]]
    c["empty"] = draw(st.integers(0, 4)) == 0
    return c


def check_regression(case, rec):
    """The polytope of dynamics is that of the confidence polytope, or of the prior box without data."""
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.vehicle.uncertainty.estimation import RegressionVehicle
    from highway_env import utils
    road = Road(RoadNetwork.straight_road_network(1), np_random=np.random.RandomState(0))
    box = np.array(case["box"])
    v = RegressionVehicle(road, [0, 0], 0, 10, target_speed=20, theta_a_i=box, theta_b_i=box)
    d = box.shape[1]
    data = {} if case["empty"] else {"features": [np.array(x) for x in case["f"]], "outputs": outputs(case)}
    v.data = {"longitudinal": data, "lateral": data}
    structure = v.longitudinal_structure if d == 3 else v.lateral_structure
    a, phi = structure()
    a0, da = v.longitudinal_matrix_polytope() if d == 3 else v.lateral_matrix_polytope()
    if case["empty"]:
        theta = box.mean(axis=0)
        deltas = [np.array(c) - theta for c in itertools.product(*box.T)]
    else:
        wg = np.array(case["f"]).T @ np.array(case["f"]) * 10 + 1e-5 * np.eye(d)
        if np.linalg.cond(wg) > 1e8:
            return
        theta, deltas, _, _ = utils.confidence_polytope(data, box)
    require_close(a0, a + sum(t * p for t, p in zip(theta, phi)), "nominal dynamics", 1e-6)
    want = [sum(t * p for t, p in zip(k, phi)) for k in deltas]
    for x, y in ((want, da), (da, want)):
        for m in x:
            require(any(np.abs(m - k).max() < 1e-5 for k in y), "deviations of the dynamics: %r, expected %r",
                    [np.round(k, 4).tolist() for k in da], [np.round(k, 4).tolist() for k in want])
    rec.hit("prior" if case["empty"] else "estimated")


# --------------------------------------------------------------------- multiple models

@st.composite
def fork_case(draw):
    n = draw(st.integers(1, 4))
    angs = draw(st.lists(num(-1.3, 1.3), min_size=n, max_size=n))
    k = draw(st.integers(1, 2))
    lanes = [k] * n  # (otherwise the lane entered after the fork is the closest one, which no candidate announces)
    lane = draw(st.integers(0, k - 1))  # (a lane that the route leaves open is taken for the first one)
    return {"angs": angs, "lanes": lanes, "in": k, "lane": lane,
            "true": draw(st.integers(0, n - 1)), "v": draw(num(4, 15)), "off": draw(num(-0.8, 0.8)),
            "slow": draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 25), num(-1.2, 1.2)).map(list))),
            "x": draw(num(0, 50)), "none": lane == 0 and draw(st.booleans()), "rand": draw(st.booleans()),
            "before": draw(st.booleans()), "dt": draw(st.sampled_from([0.05, 1 / 15, 0.1])),
            "seed": draw(st.integers(0, 999)), "copy": draw(st.integers(0, 30))}


def fork(case):
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.road.lane import StraightLane
    from highway_env.vehicle.uncertainty.estimation import MultipleModelVehicle
    net = RoadNetwork()
    for i in range(case["in"]):
        if case["before"]:
            net.add_lane("z", "a", StraightLane([-40, 4 * i], [0, 4 * i]))
        net.add_lane("a", "b", StraightLane([0, 4 * i], [60, 4 * i]))
    for i, (g, k) in enumerate(zip(case["angs"], case["lanes"])):
        c, s = math.cos(g), math.sin(g)
        for j in range(k):
            net.add_lane("b", "e%d" % i, StraightLane([60 - 4 * j * s, 4 * j * c], [60 + 100 * c - 4 * j * s,
                                                                                    100 * s + 4 * j * c]))
    road = Road(net, np_random=np.random.RandomState(case["seed"]))
    x = (case["x"] if case["slow"] is None else 52 + case["x"] * 0.15) - (40 if case["before"] else 0)
    m = MultipleModelVehicle(road, [x, 4 * case["lane"] + case["off"]], 0, case["v"], target_speed=case["v"],
                             enable_lane_change=False)
    if case["rand"]:
        m.randomize_behavior()
    start = tuple(m.lane_index)
    last = ("b", "e%d" % case["true"], None if case["none"] else min(case["lane"], case["lanes"][case["true"]] - 1))
    m.route = ([start] if start[0] == "a" else [start, ("a", "b", start[2])]) + [last]
    road.vehicles.append(m)
    return road, m


def check_routes(case, rec):
    """The candidates are real paths, one per road of the fork; the one that is driven is never discarded, clearly
    different ones are."""
    road, m = fork(case)
    net = road.network
    seen = set()
    gone = 0
    true = "e%d" % case["true"]
    for k in range(400):
        if case["slow"] is not None and k >= case["slow"][0]:
            m.speed = case["slow"][1]
        target = tuple(m.target_lane_index)
        road.act()
        judge_data(m, target, rec)
        if case["slow"] is not None:  # at a crawl, the features have no bound: only their recording is judged
            if k == case["slow"][0] + 3:
                return rec.hit("crawls")
            road.step(case["dt"])
            continue
        cands = [[tuple(l) for l in r] for r, _ in m.data]
        for r in cands:
            require(len(r) >= 1, "an empty candidate route")
            for l in r:
                require(l[1] in net.graph[l[0]] and l[2] is not None and
                        0 <= l[2] < len(net.graph[l[0]][l[1]]), "candidate %r: no lane %r", r, l)
            for p, q in zip(r, r[1:]):
                require(p[1] == q[0], "candidate %r is not contiguous", r)
            seen.add(r[-1][:2])
        require(len({tuple(r) for r in cands}) == len(cands), "duplicate candidates: %r", cands)
        d = float(np.hypot(m.position[0] - 60, m.position[1] - 4 * case["lane"]))
        passed = m.lane_index[0] == "b"
        if not passed:
            want = {("b", "e%d" % i) for i in range(len(case["angs"]))}
            require(seen == want, "the roads considered are %r, of %r", sorted(seen), sorted(want))
        require(any(r[-1][:2] == ("b", true) for r in cands),
                "the route that is followed (%s) is discarded after %d decisions", true, k + 1)
        now = [r for r in cands if r[-1][:2] == ("b", true)]
        require(any(r[0][:2] in (tuple(m.target_lane_index[:2]), tuple(m.lane_index[:2])) for r in now),
                "the candidate for the followed route, %r, does not start where the vehicle is heading (%r)", now,
                m.target_lane_index)
        if k == case["copy"]:
            inspect_copies(m, rec)
        if passed and d > 70:
            for i, g in enumerate(case["angs"]):
                if abs(wrap(g - case["angs"][case["true"]])) > 0.5:
                    require(not any(r[-1][:2] == ("b", "e%d" % i) for r in cands),
                            "%.0f m after the fork the road e%d at %.2f rad is still a candidate (%s followed)", d, i,
                            g - case["angs"][case["true"]], true)
                    gone += 1
            break
        road.step(case["dt"])
    if passed:
        rec.hit("discards:%d" % gone)
        rec.note("roads:%d" % len(case["angs"]))


def judge_data(m, target, rec):
    """The last pair of each candidate: features along the candidate, output of the lane that is followed."""
    sp = m.speed if abs(m.speed) > 1e-2 else (1e-2 if m.speed > 0 else -1e-2)

    def features(index):
        lane = m.road.network.get_lane(index)
        d, t = np.array(m.position) - lane.start, np.array(lane.end) - lane.start
        t = t / np.linalg.norm(t)
        return [wrap(math.atan2(t[1], t[0]) - m.heading) * m.LENGTH / sp, -(t[0] * d[1] - t[1] * d[0]) * m.LENGTH / sp ** 2]
    out = float(np.dot(m.STEERING_PARAMETERS, features(target)))
    for r, d in m.data:
        require(d, "no data for the candidate %r", r)
        want = features(r[0])
        require_close(d["lateral"]["features"][-1], want, "features along the candidate %r" % (r,), 1e-7, 1e-7)
        require(abs(d["lateral"]["outputs"][-1] - out) < 1e-6 * (1 + abs(out)), "lateral output %s recorded, the vehicle "
                "decides %s along %r (candidate %r)", d["lateral"]["outputs"][-1], out, target, r)
        require_close(d["longitudinal"]["features"][-1], [m.target_speed - m.speed, 0, 0], "longitudinal features", 1e-7, 1e-7)
        if tuple(r[0]) != target:
            rec.note("candidate elsewhere" + (", slow" if abs(m.speed) < 1 else ""))


def inspect_copies(m, rec):
    """A copy that takes a candidate for granted follows it, and its life does not touch the original."""
    keep = [([tuple(l) for l in r], copy.deepcopy(d)) for r, d in m.data]
    old = (m.position.copy(), m.heading, m.speed, list(m.route))
    for i in list(range(len(m.data))) + [len(m.data) + 3]:
        w = m.assume_model_is_valid(i)
        want = keep[min(i, len(keep) - 1)][0]
        require([tuple(l) for l in w.route] == want and tuple(w.target_lane_index) == want[0],
                "the copy number %d has route %r and target %r, the candidate is %r", i, w.route, w.target_lane_index, want)
        require((w.position == m.position).all() and w.heading == m.heading and w.speed == m.speed and
                w.target_speed == m.target_speed, "the copy is in another state")
        require(w is not m and w not in m.road.vehicles, "the copy is another vehicle")
        if i == 0:
            for _ in range(10):
                LinearDrive(w)
    require(len(m.data) == len(keep) and all([tuple(l) for l in r] == a for (r, _), (a, _) in zip(m.data, keep)),
            "driving a copy changes the candidates from %r to %r", [a for a, _ in keep], [r for r, _ in m.data])
    for (_, d), (_, b) in zip(m.data, keep):
        for key in b:
            require(len(d[key]["outputs"]) == len(b[key]["outputs"]) and
                    all(np.array_equal(p, q) for p, q in zip(d[key]["features"], b[key]["features"])),
                    "driving a copy changes the data of the original")
    require((m.position == old[0]).all() and m.heading == old[1] and m.speed == old[2] and list(m.route) == old[3],
            "driving a copy moves the original")
    rec.note("copies inspected")


# ----------------------------------------------------------- bookkeeping of the candidates

@st.composite
def candidates_case(draw):
    """A tree of roads, a vehicle somewhere on it with a planned route, and candidates it holds from before."""
    kids = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))       # branches at each depth
    n = draw(st.integers(0, 5))
    return {"kids": kids, "at": draw(st.integers(0, 40)), "u": draw(st.sampled_from([0.2, 0.5, 0.97, 1.03])),
            "plan": draw(st.lists(st.integers(0, 5), max_size=3)), "none": draw(st.booleans()),
            "held": draw(st.lists(st.tuples(st.integers(-1, 40), st.lists(st.integers(0, 5), max_size=3),
                                            st.sampled_from(["none", "good", "good", "bad"])).map(list), max_size=n)),
            "seed": draw(st.integers(0, 999))}


def check_candidates(case, rec):
    """What is held is extended by what the next fork offers, advanced, and cleared of what the data refute - no more."""
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.road.lane import StraightLane
    from highway_env.vehicle.uncertainty.estimation import MultipleModelVehicle
    from highway_env import utils
    net, roads, level = RoadNetwork(), [("r", "n")], [("n", np.array([100.0, 0.0]))]
    net.add_lane("r", "n", StraightLane([0, 0], [100, 0]))
    spot = {("r", "n"): (np.zeros(2), np.array([100.0, 0.0]))}
    for k, b in enumerate(case["kids"]):
        nxt = []
        for name, p in level[:4]:
            for i in range(b):
                q = p + np.array([100.0, 60.0 * (i - (b - 1) / 2) / (k + 1)])
                net.add_lane(name, name + str(i), StraightLane(list(p), list(q)))
                spot[name, name + str(i)] = (p, q)
                roads.append((name, name + str(i)))
                nxt.append((name + str(i), q))
        level = nxt

    def path(first, turns):
        out = [(*roads[first % len(roads)], 0)]
        for t in turns:
            ends = [r for r in roads if r[0] == out[-1][1]]
            if not ends:
                break
            out.append((*ends[t % len(ends)], 0))
        return out
    here = path(case["at"], case["plan"])
    a, b = spot[here[0][:2]]
    road = Road(net, np_random=np.random.RandomState(case["seed"]))
    m = MultipleModelVehicle(road, list(a + case["u"] * (b - a)), math.atan2(*(b - a)[::-1]), 10, target_speed=10,
                             target_lane_index=here[0], route=[(*r[:2], None) if case["none"] and k else r
                                                              for k, r in enumerate(here)])
    good = {"features": [np.array([0.1 * i, 0.2]) for i in range(5)], "outputs": [0.1 * i * 2 + 0.2 * 2 for i in range(5)]}
    bad = {"features": [np.array([1.0, 0.5 * (i % 2)]) for i in range(20)], "outputs": [4.0] * 19 + [500.0]}
    require(not utils.is_consistent_dataset(bad, parameter_box=m.STEERING_RANGE), "an absurd observation is deemed consistent")
    require(utils.is_consistent_dataset(good, parameter_box=m.STEERING_RANGE), "plausible data are deemed inconsistent")
    held = []
    for first, turns, kind in case["held"]:
        r = path(case["at"] if first < 0 else first, turns)
        if not any(x[:len(r)] == r or r[:len(x)] == x for x, _ in held):    # (one never holds a route and its beginning)
            held.append((r, {} if kind == "none" else {"longitudinal": {}, "lateral": copy.deepcopy(good if kind == "good" else bad),
                                                       "mark": len(held)}))
    m.data = [(list(r), d) for r, d in held]
    offers = [[tuple(l) if l[2] is not None else (*l[:2], 0) for l in r] for r in m.get_routes_at_intersection()]
    want = [(list(r), d) for r, d in held]
    for r in offers:
        if any(w == r for w, _ in want):
            continue
        short = [w for w, _ in want if len(w) < len(r) and r[:len(w)] == w]
        if len(short) > 1 or short and any(len(w) > len(short[0]) and r == w for w, _ in want):
            return
        if short:
            want = [(r if w == short[0] else w, d) for w, d in want]
            rec.note("extended")
        else:
            want.append((list(r), {}))
    step = []
    for r, d in want:
        p, q = spot[r[0][:2]]
        s = (np.array(m.position) - p) @ (q - p) / np.linalg.norm(q - p)
        if abs(s - np.linalg.norm(q - p) + 2.5) < 1e-6:
            return
        # (the end of a lane is half a vehicle before it)
        step.append((r[1:] if len(r) > 1 and s > np.linalg.norm(q - p) - 2.5 else r, d))
        if step[-1][0] is not r:
            rec.note("advanced")
    final = [(r, d) for r, d in step if not (d and d["lateral"]["outputs"][-1] == 500.0)]
    m.update_possible_routes()
    key = lambda data: sorted((tuple(tuple(l) for l in r), d.get("mark", -1), len(d.get("lateral", {}).get("outputs", []))) for r, d in data)
    require(key(m.data) == key(final), "held %s, offered %s, the candidates become %s, expected %s", key(held), offers,
            key(m.data), key(final))
    if held:
        rec.hit("held")
    if len(step) - len(final) > 1:
        rec.note("several refuted")


def LinearDrive(w):
    from highway_env.vehicle.behavior import LinearVehicle
    LinearVehicle.act(w)
    LinearVehicle.step(w, 0.2)


PROP = Prop("C31", "an estimate is compared, a verdict far from its bound is judged, a decision is recorded, a fork is passed", [
    Sub("ellipsoid", data_case, check_ellipsoid, 2500, 50000,
        clause="estimate, Gramian and radius are those of regularised least squares, whatever the order of the data"),
    Sub("polytope", data_case, check_polytope, 1500, 30000,
        clause="the estimate is projected on the prior box and the vertices stay in it"),
    Sub("consistency", data_case, check_consistency, 2000, 40000,
        clause="exact data of an admissible parameter are never rejected"),
    Sub("surprise", surprise_case, check_consistency, 1500, 30000,
        clause="an observation is rejected exactly beyond the confidence bound"),
    Sub("collected", drive_case, check_collected, 1000, 20000,
        clause="each decision of a linear vehicle is recorded and explained by its parameters"),
    Sub("regression", regression_case, check_regression, 600, 10000,
        clause="dynamics polytopes come from the estimate, or from the prior box without data"),
    Sub("candidates", candidates_case, check_candidates, 500, 12000,
        clause="candidates held are extended, advanced and refuted, each with its own data"),
    Sub("routes", fork_case, check_routes, 180, 4000,
        clause="candidate routes: complete, real, the followed one kept, clearly different ones discarded; copies independent"),
], ["Gramian matrices of condition number below 1e8 where numbers are compared",
    "containment of the true parameter in the clipped confidence polytope is not claimed (see DESIGN.md)"])
