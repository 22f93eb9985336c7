"""C08 continuous control and the kinematic bicycle model."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geo, envs, kin
from ..core import Prop, Sub, require, require_close, wrap

envs.prime()


# ---------------------------------------------------------------- the vehicle

cmd = st.lists(st.tuples(geo.fl(-12, 12), geo.fl(-1.2, 1.2), st.integers(1, 8)), min_size=1, max_size=8)


@st.composite
def free_case(draw):
    return {"p": [draw(geo.fl(-100, 100)), draw(geo.fl(-100, 100))], "h": draw(geo.fl(-7, 7)),
            "v": draw(st.one_of(geo.fl(-45, 45), st.sampled_from([0.0, 40.0, -40.0, 40.5, -40.5, 60.0, -60.0]))),
            "cmds": draw(cmd), "dt": draw(st.sampled_from([1 / 15, 0.1, 0.05, 0.02, 1 / 5])),
            "crash_at": draw(st.one_of(st.none(), st.none(), st.integers(0, 10))), "road": draw(st.booleans())}


def check_free(case, rec):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.road import Road, RoadNetwork
    road = Road(RoadNetwork.straight_road_network(2, length=400)) if case["road"] else None
    v = Vehicle(road, list(case["p"]), case["h"], case["v"])
    m = kin.Kinematic(case["p"], case["h"], case["v"])
    k = 0
    for a, s, n in case["cmds"]:
        for i in range(n):
            # a held command is re-issued while the speed is saturated (what the vehicle repeats then is unspecified)
            if i == 0 or abs(m.v) > 40 or case["dt"] * abs(a) + abs(m.v) > 40:
                v.act({"acceleration": a, "steering": s})
            if case["crash_at"] == k:
                v.crashed = True
            v.step(case["dt"])
            m.step(a, s, case["dt"], v.crashed)
            k += 1
            require_close([v.position[0], v.position[1], v.speed], [m.x, m.y, m.v], "position and speed at step %d" % k,
                          atol=1e-6)
            require(abs(wrap(v.heading - m.h)) < 1e-6, "heading %r, expected %r at step %d", v.heading, m.h, k)
            require_close(v.velocity, [m.v * math.cos(m.h), m.v * math.sin(m.h)], "velocity", atol=1e-5)
            require_close(v.direction, [math.cos(m.h), math.sin(m.h)], "direction", atol=1e-6)
    rec.hit("saturated" if abs(case["v"]) > 40 or abs(m.v) > 40 else "crash" if v.crashed else "free")


def check_limits(case, rec):
    """Under any bounded command, the speed overshoots the limit by one step of acceleration at most, and comes back."""
    from highway_env.vehicle.kinematics import Vehicle
    v = Vehicle(None, [0, 0], 0, case["v"])
    dt, sgn = case["dt"], case["sgn"]
    for a in case["acc"]:
        v.act({"acceleration": sgn * a, "steering": 0.0})
        for _ in range(15):
            v.step(dt)
            require(abs(v.speed) <= 40 + max(case["acc"]) * dt + 1e-9, "speed %r beyond the limit", v.speed)
    for _ in range(int(200 / dt) if abs(v.speed) > 40 else 0):
        v.step(dt)
        if abs(v.speed) <= 40.0001:
            break
    require(abs(v.speed) <= 40.001, "the speed stays at %r", v.speed)
    require(v.position[1] == 0, "straight line")
    rec.hit("reached" if abs(v.speed) > 39 else None)


def check_circle(case, rec):
    """Constant steering and speed: a circle, whose radius does not depend on the speed, traced the right way."""
    from highway_env.vehicle.kinematics import Vehicle
    s, v0, dt = case["s"], case["v"], 1e-3
    beta = math.atan(math.tan(s) / 2)
    radius = 2.5 / abs(math.sin(beta))
    v = Vehicle(None, [0, 0], case["h"], v0)
    v.act({"acceleration": 0, "steering": s})
    side = math.copysign(1, s)
    ang = case["h"] + beta + side * math.pi / 2
    centre = radius * np.array([math.cos(ang), math.sin(ang)])
    for _ in range(400):
        v.step(dt)
        require(abs(np.linalg.norm(v.position - centre) - radius) < 0.02 * radius + v0 * dt,
                "at %s from the circle of radius %.3f around %s", v.position, radius, centre)
    require(v.speed == v0, "the speed changed")
    rec.hit()


# ------------------------------------------------------------- the environments

@st.composite
def env_ctrl(draw):
    dyn = draw(st.integers(0, 3)) == 0
    env = draw(st.sampled_from(["highway-v0", "highway-v0", "parking-v0", "summon-v0"] if not dyn else
                               ["parking-v0", "summon-v0"]))
    lo, la = draw(st.sampled_from([(True, True), (True, True), (True, False), (False, True)]))
    act = {"type": "ContinuousAction", "longitudinal": lo, "lateral": la}
    if draw(st.booleans()):
        act["acceleration_range"] = [draw(geo.fl(-8, 0)), draw(geo.fl(0.5, 8))]
    if draw(st.booleans()):
        act["steering_range"] = [draw(geo.fl(-1, -0.05)), draw(geo.fl(0.1, 1))]
    if draw(st.integers(0, 2)) == 0:
        act["clip"] = draw(st.booleans())
    act["dynamical"] = dyn
    cfg = {"action": act}
    if env == "highway-v0":
        cfg.update(vehicles_count=0, lanes_count=draw(st.integers(1, 4)), duration=100)
        if draw(st.booleans()):
            cfg.update(simulation_frequency=draw(st.sampled_from([5, 10, 15, 20])),
                       policy_frequency=draw(st.sampled_from([1, 2, 5])))
    elif env == "summon-v0":
        cfg.update(vehicles_count=0)
    comp = st.one_of(st.sampled_from([-1.0, 0.0, 1.0]), geo.fl(-1, 1), geo.fl(-2, 2))
    size = 2 if lo and la else 1
    return {"env": env, "config": cfg, "seed": draw(st.integers(0, 9999)),
            "actions": draw(st.lists(st.lists(comp, min_size=size, max_size=size), min_size=1, max_size=6))}


def check_env(case, rec):
    env, _ = envs.build(case)
    v = env.vehicle
    a = case["config"]["action"]
    require(type(v).__name__ == ("BicycleVehicle" if a["dynamical"] else "Vehicle"), "class of the ego vehicle: %s",
            type(v).__name__)
    model = (kin.Dynamic if a["dynamical"] else kin.Kinematic)(v.position, v.heading, v.speed)
    f, g = env.config["simulation_frequency"], env.config["policy_frequency"]
    ra = a.get("acceleration_range", [-5, 5])
    rs = a.get("steering_range", [-math.pi / 4, math.pi / 4])
    box = env.action_space
    require(box.shape == (2 if a["longitudinal"] and a["lateral"] else 1,) and np.all(box.low == -1)
            and np.all(box.high == 1), "action space %s", box)
    for act in case["actions"]:
        x = [max(-1.0, min(1.0, c)) for c in act] if a.get("clip", True) else list(act)
        acc = kin.lmap(x[0], *ra) if a["longitudinal"] else 0.0
        steer = kin.lmap(x[-1], *rs) if a["lateral"] else 0.0
        t0 = env.time
        arr = np.array(act, dtype=float)
        _, _, done, info = env.step(arr)
        require(np.array_equal(arr, np.array(act, dtype=float)), "the given action %s became %s", act, arr)
        for _ in range(env.time - t0):
            if abs(model.v) > model.MAX:
                return  # saturated within a held command
            model.step(acc, steer, 1 / f)
        if v.crashed:
            return
        s = model.state()
        require_close([v.position[0], v.position[1], v.speed], [s[0], s[1], s[3]],
                      "position and speed after commands %s" % (act,), atol=1e-5)
        require(abs(wrap(v.heading - s[2])) < 1e-5, "heading %r, expected %r after %s", v.heading, s[2], act)
        require_close(info["speed"], s[3], "info speed", atol=1e-5)
        rec.hit("dynamical" if a["dynamical"] else "kinematic")
        if done:
            break


PROP = Prop(
    "C08",
    "A case is an initial state and a command sequence for a vehicle, or an environment with a continuous action type "
    "(ranges, clipping, axes, dynamics) and actions, some out of range; non-trivial when a step was compared to the "
    "reference model.",
    [
        Sub("model", free_case, check_free, 1500, 40000, clause="the kinematic bicycle model, saturation and wrecks"),
        Sub("limits", lambda: st.builds(lambda v, a, s, d: {"v": v, "acc": a, "sgn": s, "dt": d}, geo.fl(-40, 40),
                                        st.lists(geo.fl(0, 12), min_size=1, max_size=8), st.sampled_from([-1, 1]),
                                        st.sampled_from([1 / 15, 0.1, 0.05])), check_limits, 300, 6000,
            clause="the speed is kept within the limit in both directions"),
        Sub("circle", lambda: st.builds(lambda v, s, h: {"v": v, "s": s, "h": h}, geo.fl(1, 30), st.one_of(
            geo.fl(0.05, 1), geo.fl(-1, -0.05)), geo.fl(-3, 3)), check_circle, 150, 3000,
            clause="constant steering traces a circle of the geometric radius, towards the steering side"),
        Sub("env", env_ctrl, check_env, 400, 8000, clause="actions map linearly to the configured ranges and move the "
            "ego vehicle as the model says"),
    ],
    ["a command held while the speed is beyond its limit is re-issued at every step", "no traffic around the ego vehicle in the environment cases"])
