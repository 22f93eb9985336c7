"""C07 meta-actions and their availability."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import geo, envs
from ..core import Prop, Sub, require, require_close

envs.prime()

LABELS = {(True, True): ["LANE_LEFT", "IDLE", "LANE_RIGHT", "FASTER", "SLOWER"],
          (True, False): ["SLOWER", "IDLE", "FASTER"],
          (False, True): ["LANE_LEFT", "IDLE", "LANE_RIGHT"]}
EPS = 1e-6


def axes(case):
    a = case["config"].get("action", envs.DEFAULT_ACTION[case["env"]])
    a = a.get("action_config", a)
    return a.get("longitudinal", True), a.get("lateral", True)


def reach(lane, p):
    """Own definition of reachability; None when too close to call."""
    s, r = lane.local_coordinates(np.array(p))
    gaps = [2 * lane.width_at(s) - abs(r), s, lane.length + 5.0 - s]
    if min(abs(g) for g in gaps) < EPS:
        return None
    return not lane.forbidden and min(gaps) > 0


def grid(v):
    n, lo, hi = v.SPEED_COUNT, v.SPEED_MIN, v.SPEED_MAX
    return [lo + i * (hi - lo) / (n - 1) for i in range(n)]


def nearest(v, speed):
    d = [abs(speed - g) for g in grid(v)]
    return [i for i, x in enumerate(d) if x <= min(d) + 1e-9]


def expect(env, v, label):
    """Predicted (target lanes, speed indexes) of a decision taken now; None: not judged."""
    net = env.road.network
    a, b, i = v.target_lane_index
    lane = net.get_lane(v.target_lane_index)
    if lane.local_coordinates(v.position)[0] > lane.length - 2.6:
        return None
    lanes, idx = {i}, {v.speed_index}
    if label in ("LANE_LEFT", "LANE_RIGHT"):
        n = len(net.graph[a][b])
        j = min(max(i + (1 if label == "LANE_RIGHT" else -1), 0), n - 1)
        ok = reach(net.get_lane((a, b, j)), v.position)
        lanes = {i, j} if ok is None else {j} if ok else {i}
    elif label == "FASTER":
        idx = {min(k + 1, v.SPEED_COUNT - 1) for k in nearest(v, v.speed)}
    elif label == "SLOWER":
        idx = {max(k - 1, 0) for k in nearest(v, v.speed)}
    return (a, b), lanes, idx


def check_effect(case, rec):
    env, _ = envs.build(case)
    labels = LABELS[axes(case)]
    kind = envs.case_kind(case)
    sp = env.action_space if kind[0] == "d" else env.action_space.spaces[0]
    require(sp.n == len(labels), "%d actions in the space, expected %d", sp.n, len(labels))
    for act in envs.actions_of(case):
        per = list(act) if kind[0] == "m" else [act]
        pred = [expect(env, v, labels[a]) for v, a in zip(env.controlled_vehicles, per)]
        speeds = [v.speed for v in env.controlled_vehicles]
        # one decision, then the rest of the policy step without new ones
        _, _, done, _ = env.step(act)
        for v, a, p in zip(env.controlled_vehicles, per, pred):
            if p is None or tuple(v.target_lane_index[:2]) != p[0]:
                continue
            require(int(v.target_lane_index[2]) in p[1], "%s: target lane %r, expected one of %s", labels[a],
                    v.target_lane_index, sorted(p[1]))
            require(int(v.speed_index) in p[2], "%s at %r m/s: speed index %r, expected %s", labels[a], speeds,
                    v.speed_index, sorted(p[2]))
            require_close(v.target_speed, grid(v)[int(v.speed_index)], "target speed after %s" % labels[a])
            rec.hit(labels[a])
        if envs.plain(done) is True or (isinstance(done, tuple) and all(done)):
            break


def check_available(case, rec):
    env, _ = envs.build(case)
    lo, la = axes(case)
    labels = LABELS[(lo, la)]
    todo = envs.actions_of(case) + [None]
    if case.get("move"):  # off the road, before or after its ends
        v, (u, r) = env.vehicle, case["move"]
        lane = env.road.network.get_lane(v.lane_index)
        v.position = np.array(lane.position(u * lane.length, r) if u is not None else lane.position(
            lane.local_coordinates(v.position)[0], r), dtype=float)
        v.on_state_update()
        rec.note("moved")
    for act in todo:
        v = env.vehicle
        net = env.road.network
        a, b, i = v.lane_index
        n = len(net.graph[a][b])
        want, unsure = {"IDLE"}, set()
        for name, j in (("LANE_LEFT", i - 1), ("LANE_RIGHT", i + 1)):
            if la and 0 <= j < n:
                ok = reach(net.get_lane((a, b, j)), v.position)
                if ok is None:
                    unsure.add(name)
                elif ok:
                    want.add(name)
        if lo and v.speed_index < v.SPEED_COUNT - 1:
            want.add("FASTER")
        if lo and v.speed_index > 0:
            want.add("SLOWER")
        got = env.get_available_actions()
        require(all(k in range(len(labels)) for k in got), "available actions %r out of %d", got, len(labels))
        names = [labels[k] for k in got]
        require(len(set(got)) == len(got), "duplicate available actions %r", got)
        require(set(names) - unsure == want - unsure, "available actions %s on lane %r at speed index %r, expected %s",
                sorted(names), v.lane_index, v.speed_index, sorted(want))
        rec.note("available:%d" % len(got))
        lane = net.get_lane(v.target_lane_index)
        settled = tuple(v.lane_index) == tuple(v.target_lane_index) and v.speed_index in nearest(v, v.speed) \
            and len(nearest(v, v.speed)) == 1 and not v.crashed \
            and lane.local_coordinates(v.position)[0] < lane.length - 3
        if settled:
            missing = [k for k in range(len(labels)) if k not in got]
            for k in missing[:2]:
                x, y = copy.deepcopy(env), copy.deepcopy(env)
                x.step(labels.index("IDLE"))
                y.step(k)
                d = envs.first_difference(envs.scene(x), envs.scene(y))
                require(d is None, "the unavailable action %s does not act as IDLE: %s", labels[k], d)
                rec.hit("unavailable " + labels[k])
            for k in got:
                if labels[k] != "IDLE":
                    x, y = copy.deepcopy(env), copy.deepcopy(env)
                    x.step(labels.index("IDLE"))
                    y.step(k)
                    require((x.vehicle.target_speed, tuple(x.vehicle.target_lane_index)) !=
                            (y.vehicle.target_speed, tuple(y.vehicle.target_lane_index)) or x.vehicle.crashed
                            or tuple(y.vehicle.target_lane_index)[:2] != (a, b),
                            "the available action %s does nothing", labels[k])
                    rec.hit("available " + labels[k])
        if act is None:
            break
        _, _, done, _ = env.step(act)
        if done:
            break


def check_complete(case, rec):
    """Alone on the road, a lane change ends on the centre of the lane, a speed change at the speed."""
    env, _ = envs.make("highway-v0", {"vehicles_count": 0, "lanes_count": case["lanes"], "duration": 1000,
                                      "simulation_frequency": case["f"],
                                      "initial_lane_id": case["lane"] % case["lanes"]}, case["seed"])
    v = env.vehicle
    lane, idx = case["lane"] % case["lanes"], v.speed_index
    require(v.lane_index[2] == lane, "initial lane %r, asked %d", v.lane_index, lane)
    for a in case["acts"]:
        env.step(a)
        for _ in range(6):
            env.step(1)
        if a == 0:
            lane = max(lane - 1, 0)
        elif a == 2:
            lane = min(lane + 1, case["lanes"] - 1)
        elif a == 3:
            idx = min(idx + 1, 2)
        elif a == 4:
            idx = max(idx - 1, 0)
        require(v.lane_index[2] == lane and abs(v.position[1] - 4 * lane) < 0.05, "after %s the vehicle is at y=%.3f, "
                "expected the centre of lane %d", LABELS[(True, True)][a], v.position[1], lane)
        require_close(v.speed, [20, 25, 30][idx], "speed after %s" % LABELS[(True, True)][a], atol=0.05)
        rec.hit(LABELS[(True, True)][a])


def check_labels(case, rec):
    env, _ = envs.build(dict(case, actions=[]))
    labels = LABELS[axes(case)]
    at = env.action_type
    require([at.actions[k] for k in range(len(labels))] == labels, "labels %r, expected %r", at.actions, labels)
    require(at.actions_indexes == {n: k for k, n in enumerate(labels)}, "indexes %r", at.actions_indexes)
    rec.hit()


# ------------------------------------------- decisions of a vehicle on two successive roads

@st.composite
def decide_case(draw):
    n1, n2 = draw(st.integers(1, 5)), draw(st.one_of(st.none(), st.integers(1, 5)))
    mdp = draw(st.integers(0, 3)) > 0
    lo = draw(st.sampled_from([20, 0, 5, 12.5]))
    c = {"n1": n1, "n2": n2, "len": draw(geo.fl(20, 120)), "off": draw(st.sampled_from([0, 0, 4, -4, 1.3])),
         "shut": draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 4)), max_size=2)),
         "s": draw(st.one_of(geo.fl(-4, 4), geo.fl(10, 120), geo.fl(-8, 6).map(lambda x: "end%+.3f" % x))),
         "y": draw(geo.fl(-3, 20)), "v": draw(st.one_of(geo.fl(0, 35), geo.fl(18, 32))),
         "t": draw(st.one_of(st.none(), st.integers(0, 4))), "ts": draw(st.one_of(st.none(), geo.fl(0, 40))),
         "mdp": mdp, "grid": [draw(st.integers(1, 6)), lo, lo + draw(st.sampled_from([10, 20, 7]))],
         "acts": draw(st.lists(st.tuples(st.sampled_from(["LANE_LEFT", "LANE_RIGHT", "FASTER", "SLOWER", "IDLE",
                                                          "LANE_LEFT", "LANE_RIGHT"]), st.integers(0, 8)),
                               min_size=1, max_size=4)), "dt": draw(st.sampled_from([1 / 15, 0.1]))}
    return c


def check_decide(case, rec):
    """The targets of a vehicle against an own model, decision after decision, over the end of a road."""
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.road.lane import StraightLane
    from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
    net, L, shut = RoadNetwork(), case["len"], {tuple(x) for x in case["shut"]}
    counts = [case["n1"], case["n2"] or 0]
    y0, x0 = [0, case["off"]], [0, L]
    for k, road in enumerate([("a", "b"), ("b", "c")]):
        for i in range(counts[k]):
            y = y0[k] + 4 * i
            net.add_lane(road[0], road[1], StraightLane([x0[k], y], [x0[k] + L, y], forbidden=(k, i) in shut))
    road = Road(net, np_random=np.random.RandomState(0))
    s = L + float(case["s"][3:]) if isinstance(case["s"], str) else min(case["s"], L)
    count, lo, hi = case["grid"]
    cls = type("Own", (MDPVehicle,), {"SPEED_COUNT": count, "SPEED_MIN": lo, "SPEED_MAX": hi}) if case["mdp"] \
        else ControlledVehicle
    k, i = 0, None
    kw = {} if case["ts"] is None else {"target_speed": case["ts"]}
    if case["t"] is not None:
        i = case["t"] % counts[0]
        kw["target_lane_index"] = ("a", "b", i)
    v = cls(road, [s, case["y"]], 0.0, case["v"], **kw)
    if i is None:
        k, i = "ab".index(v.target_lane_index[0]), v.target_lane_index[2]
        require(tuple(v.target_lane_index) == tuple(v.lane_index), "the lane aimed at by a new vehicle is %r, it is on %r",
                v.target_lane_index, v.lane_index)
    require(tuple(v.target_lane_index) == ("ab"[k], "bc"[k], i), "target lane %r of a new vehicle", v.target_lane_index)
    asked = case["ts"] if case["ts"] is not None else case["v"]
    levels = [lo + j * (hi - lo) / max(count - 1, 1) for j in range(count)]

    def closest(x):
        d = [abs(x - g) for g in levels]
        return {j for j, e in enumerate(d) if e <= min(d) + 1e-9}
    if case["mdp"]:
        require(v.speed_index in closest(asked), "a new vehicle with target speed %r and levels %s has index %r", asked,
                levels, v.speed_index)
        speeds = {levels[v.speed_index]}
    else:
        speeds = {asked}

    def judge(label):
        nonlocal k, i, speeds
        x, y = float(v.position[0]), float(v.position[1])
        speed = float(v.speed)
        v.act(label)
        along = x - x0[k]
        if abs(along - (L - 2.5)) < 1e-6:
            return False
        if along > L - 2.5 and k == 0 and counts[1]:
            if counts[0] != counts[1]:
                far = [abs(y - y0[1] - 4 * j) for j in range(counts[1])]
                best = [j for j, d in enumerate(far) if d < min(far) + 1e-6]
                if len(best) > 1:
                    return False
                i = best[0]
            k = 1
            rec.note("next road")
            along = x - x0[k]
        if label in ("LANE_LEFT", "LANE_RIGHT"):
            j = i + (1 if label == "LANE_RIGHT" else -1)
            if 0 <= j < counts[k] and (k, j) not in shut:
                gaps = [8 - abs(y - y0[k] - 4 * j), along, L + 5 - along]
                if min(abs(g) for g in gaps) < 1e-6:
                    return False
                if min(gaps) > 0:
                    i = j
                    rec.hit(label)
                else:
                    rec.note("out of reach")
        elif label in ("FASTER", "SLOWER"):
            up = 1 if label == "FASTER" else -1
            if case["mdp"]:
                speeds = {levels[min(max(j + up, 0), count - 1)] for j in closest(speed)}
            else:
                speeds = {x + 5 * up for x in speeds}
            rec.hit(label)
        require(tuple(v.target_lane_index) == ("ab"[k], "bc"[k], i), "%s at x = %.2f, y = %.2f of roads of %s lanes "
                "(%.2f m): target lane %r, expected %r", label, x, y, counts, L, v.target_lane_index,
                ("ab"[k], "bc"[k], i))
        got = [g for g in speeds if abs(g - v.target_speed) < 1e-9]
        require(got, "%s at %.3f m/s: target speed %r, expected %s", label, speed, v.target_speed, sorted(speeds))
        speeds = {got[0]}
        if case["mdp"]:
            require(abs(levels[int(v.speed_index)] - v.target_speed) < 1e-9, "index %r for speed %r", v.speed_index,
                    v.target_speed)
        return True
    for label, hold in case["acts"]:
        if not judge(label):
            return
        for _ in range(hold):
            v.step(case["dt"])
            if not judge(None):
                return


IDS = ["highway-v0", "highway-v0", "merge-v0", "roundabout-v0", "intersection-v0", "two-way-v0"]


@st.composite
def meta_case(draw, multi=False, steps=6):
    ids = IDS + (["intersection-multi-agent-v0"] if multi else [])
    c = draw(envs.env_case(ids=ids, obs=False, actions=False, multi=False, max_steps=steps, vehicle_types=False))
    if "multi" in c["env"]:
        return c
    if c["env"] != "intersection-v0" or draw(st.booleans()):
        lo, la = draw(st.sampled_from([(True, True), (True, True), (True, False), (False, True)]))
        c["config"]["action"] = {"type": "DiscreteMetaAction", "longitudinal": lo, "lateral": la}
    if c["env"] == "highway-v0" and draw(st.integers(0, 3)) == 0 and multi:
        k = draw(st.integers(1, 3))
        c["config"]["action"] = {"type": "MultiAgentAction", "action_config": c["config"]["action"]}
        c["config"]["controlled_vehicles"] = k
        c["config"]["observation"] = {"type": "MultiAgentObservation", "observation_config": {"type": "Kinematics"}}
    kind = envs.case_kind(c)
    n = len(c["actions"])
    c["actions"] = draw(st.lists(envs.action_strategy(kind, envs.case_agents(c)), min_size=n, max_size=n))
    if c["env"] == "highway-v0":
        c["config"]["duration"] = 40
        c["config"]["lanes_count"] = draw(st.integers(1, 4))
        c["config"].pop("initial_lane_id", None)
        if draw(st.integers(0, 2)) == 0:  # new decisions before the last manoeuvre is over
            f = draw(st.sampled_from([5, 10, 15]))
            c["config"].update(simulation_frequency=f, policy_frequency=draw(st.sampled_from([f, 5])))
    return c


PROP = Prop(
    "C07",
    "A case is an environment with discrete meta-actions (all, longitudinal only, lateral only, one or several agents), "
    "a seed and an action sequence; non-trivial when a decision was compared to the reference, or an availability "
    "judged by playing the action.",
    [
        Sub("effect", lambda: meta_case(multi=True), check_effect, 250, 5000,
            clause="each action moves the lane target or the speed target by one, within limits, and nothing else"),
        Sub("available", lambda: st.tuples(meta_case(steps=5), st.one_of(st.none(), st.none(), st.tuples(
            st.sampled_from([None, None, 0.9995, 1.001, -0.0005]), geo.fl(-16, 16)))).map(lambda t: dict(t[0], move=t[1])), check_available, 160, 3000,
            clause="available actions; an unavailable one acts as IDLE, an available one does something"),
        Sub("complete", lambda: st.builds(lambda l, i, a, s, f: {"lanes": l, "lane": i, "acts": a, "seed": s, "f": f},
                                          st.integers(1, 4), st.integers(0, 3),
                                          st.lists(st.integers(0, 4), min_size=1, max_size=5), st.integers(0, 999),
                                          st.sampled_from([10, 15, 20])),
            check_complete, 60, 1200, clause="manoeuvres complete"),
        Sub("decide", decide_case, check_decide, 3000, 60000, clause="targets after any sequence of decisions, over the "
            "end of a road, with closed lanes and other speed levels"),
        Sub("labels", lambda: meta_case(), check_labels, 40, 300, clause="action numbering"),
    ],
    ["availability by playing is judged on settled states (no manoeuvre in progress)"])
