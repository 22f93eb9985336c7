"""C05 scene preprocessors."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import envs
from ..core import Prop, Sub, require

envs.prime()
IDS = ["highway-v0", "highway-v0", "merge-v0", "roundabout-v0", "intersection-v0", "intersection-multi-agent-v0",
       "two-way-v0"]
OPS = ["simplify", "change", "lane", "turn", "field", "method", "random"]


@st.composite
def pre_case(draw, ids=IDS, op=None):
    c = draw(envs.env_case(ids=ids, max_steps=4, obs=False))
    if c["env"] == "highway-v0":
        c["config"]["vehicles_count"] = draw(st.integers(0, 25) if draw(st.integers(0, 4)) else st.integers(25, 45))
        if draw(st.booleans()):
            c["config"]["vehicles_density"] = draw(st.sampled_from([0.3, 0.5, 1, 3]))
    c["split"] = draw(st.integers(0, len(c["actions"])))
    c["back"] = draw(st.sampled_from([0, 0, 0, 150, 250]))  # put the ego vehicle far behind the scene
    o = draw(st.sampled_from(OPS)) if op is None else op
    c["op"] = o
    c["wrecks"] = draw(st.sampled_from([[], [], [0], [1, 2], [0, 1, 3]]))     # crashed traffic, by index after the agents
    if o == "change":
        c["arg"] = draw(st.sampled_from(envs.VEHICLE_TYPES))
    elif o == "lane":
        c["arg"] = draw(st.one_of(st.none(), st.integers(0, 3)))
    elif o == "turn":
        c["arg"] = draw(st.one_of(st.integers(0, 5), st.just("random")))
    elif o == "field":
        c["arg"] = draw(st.sampled_from([["crashed", True], ["crashed", False], ["target_speed", 12.5],
                                         ["COLLISIONS_ENABLED", False], ["enable_lane_change", False]]))
    elif o == "method":
        c["arg"] = draw(st.sampled_from(["1", "exr", "sxr", "o1", "o3", "nowhere"]))
    return c


def apply(env, case):
    o, a = case["op"], case.get("arg")
    if o == "simplify":
        return env.simplify()
    if o == "change":
        return env.change_vehicles(a)
    if o == "lane":
        return env.set_preferred_lane(a)
    if o == "turn":
        return env.set_route_at_intersection(a)
    if o == "field":
        return env.set_vehicle_field(tuple(a))
    if o == "method":
        return env.call_vehicle_method(("plan_route_to", (a,)))
    return env.randomize_behaviour()


def pose(v):
    return tuple(float(x) for x in v.position) + (float(np.squeeze(v.heading)), float(v.speed))


def put_back(env, d):
    env.vehicle.position = np.array(env.vehicle.position, dtype=float) - [d, 0]
    env.vehicle.on_state_update()


def wreck(env, which):
    others = [v for v in env.road.vehicles if v not in env.controlled_vehicles]
    others.sort(key=lambda v: np.linalg.norm(v.position - env.vehicle.position))
    for i in which:
        if i < len(others):
            others[i].crashed = True


def class_level(env):
    """What the vehicles created from now on will look like."""
    out = {}
    for v in env.road.vehicles:
        for c in type(v).__mro__[:-1]:
            for k, x in vars(c).items():
                if k.isupper() and not callable(x) and not isinstance(x, (staticmethod, classmethod, property)):
                    out[c.__module__ + "." + c.__name__, k] = repr(x)
    return out


def goals(v):
    return envs.plain([getattr(v, "target_lane_index", None), getattr(v, "target_speed", None), getattr(v, "route", None),
                       getattr(v, "speed_index", None), getattr(v, "timer", None)])


def check_pre(case, rec):
    """The result is a new environment with exactly the announced modification; the original is left alone."""
    from highway_env.vehicle.behavior import IDMVehicle
    from highway_env.vehicle.behavior import LinearVehicle
    from highway_env import utils
    acts = envs.actions_of(case)
    env, _ = envs.build(case)
    for o in envs.run(env, acts[:case["split"]]):
        if o[2] is True:
            return
    env = env.unwrapped
    if case.get("back"):
        put_back(env, case["back"])
    wreck(env, case.get("wrecks", []))
    before = envs.scene(env)
    extra = {id(v): dict(v.__dict__) for v in env.road.vehicles}
    rng = copy.deepcopy(env.np_random.get_state())
    if case["op"] == "lane" and case["arg"] is not None:
        # a lane that exists on every road of the routes
        g = env.road.network.graph
        n = min([len(g[r[0]][r[1]]) for v in env.road.vehicles if isinstance(v, IDMVehicle)
                 for r in (v.route or [v.lane_index])] or [1])
        case = dict(case, arg=case["arg"] % n)
    classes = class_level(env)
    new = apply(env, case)
    now = class_level(env)
    bad = [k for k in classes if now.get(k) != classes[k]]
    require(not bad, "%s changed %s of all vehicles, also of other environments: %s -> %s", case["op"], bad,
            [classes[k] for k in bad], [now.get(k) for k in bad])
    require(new is not env and new.road is not env.road, "%s returned the original", case["op"])
    d = envs.first_difference(before, envs.scene(env))
    require(d is None, "%s modified its original: %s", case["op"], d)
    require(all(set(v.__dict__) == set(extra[id(v)]) for v in env.road.vehicles), "%s modified vehicles of its original",
            case["op"])
    require(repr(rng) == repr(env.np_random.get_state()), "%s consumed the random numbers of its original", case["op"])
    require((new.time, new.steps) == (env.time, env.steps), "%s changed the clock", case["op"])
    things = [[(type(o).__name__, tuple(o.position), o.heading, o.hit) for o in e.road.objects] for e in (env, new)]
    require(things[0] == things[1], "%s changed the objects on the road from %s to %s", case["op"], *things)

    old = env.road.vehicles
    controlled = [old.index(v) for v in env.controlled_vehicles]
    op, arg = case["op"], case.get("arg")
    if op == "simplify":
        ego = env.vehicle
        want = sorted(pose(v) for v in old if v is ego or np.linalg.norm(v.position - ego.position) < env.PERCEPTION_DISTANCE)
        got = sorted(pose(v) for v in new.road.vehicles)
        require(got == want, "simplify kept %d of %d vehicles, %d are in sight", len(got), len(old), len(want))
        require(new.vehicle in new.road.vehicles and pose(new.vehicle) == pose(ego), "the ego vehicle was simplified out")
        rec.note("dropped" if len(want) < len(old) else "kept all")
    else:
        now = new.road.vehicles
        require(len(now) == len(old), "%s turned %d vehicles into %d", op, len(old), len(now))
        require(len(new.controlled_vehicles) == len(controlled) and
                all(now[i] is new.controlled_vehicles[k] for k, i in enumerate(controlled)),
                "%s lost track of the controlled vehicles", op)
        for i, (a, b) in enumerate(zip(old, now)):
            require(pose(a) == pose(b), "%s moved vehicle %d", op, i)
            own = i in controlled
            idm = isinstance(a, IDMVehicle)
            if op == "change":
                require(type(b) is (type(a) if own else utils.class_from_path(arg)), "vehicle %d (controlled: %s) is a %s "
                        "after a change to %s", i, own, type(b).__name__, arg)
                if own:
                    require(goals(a) == goals(b), "the controlled vehicle changed goals")
                else:
                    require(goals(a)[:3] == goals(b)[:3], "vehicle %d changed goals from %s to %s", i, goals(a), goals(b))
                require(b.road is new.road, "vehicle %d is on another road", i)
                continue
            require(type(a) is type(b), "%s changed the class of vehicle %d", op, i)
            if op == "lane" and idm and arg is not None:
                require(envs.plain(b.route) == envs.plain([(r[0], r[1], arg) for r in (a.route or [a.lane_index])]),
                        "vehicle %d with route %s prefers lane %s: %s", i, a.route, arg, b.route)
                require(goals(a)[:2] == goals(b)[:2], "a preferred lane changed other goals")
            elif op == "turn" and idm:
                ways = a.get_routes_at_intersection()
                if not ways:
                    require(b.route == a.route, "vehicle %d got route %s without a choice", i, b.route)
                elif arg == "random":
                    require(b.route in ways, "vehicle %d got route %s, not one of %s", i, b.route, ways)
                else:
                    require(b.route == ways[arg % len(ways)], "vehicle %d got route %s", i, b.route)
                require(goals(a)[:2] == goals(b)[:2], "a turn changed other goals")
            elif op == "field":
                name, value = arg
                if own:
                    require(getattr(b, name, None) == getattr(a, name, None), "field %s of a controlled vehicle changed", name)
                else:
                    require(getattr(b, name) == value, "field %s of vehicle %d is %r", name, i, getattr(b, name))
                if name != "target_speed" or own:
                    require(goals(a) == goals(b), "setting %s changed goals", name)
            elif op == "method":
                if hasattr(a, "plan_route_to"):
                    ref = copy.deepcopy(a)
                    try:
                        ref.plan_route_to(arg)
                    except KeyError:
                        pass
                    require(envs.plain(b.route) == envs.plain(ref.route), "vehicle %d planned %s instead of %s", i, b.route,
                            ref.route)
            else:
                require(goals(a) == goals(b), "%s changed the goals of vehicle %d", op, i)
                if op == "random" and isinstance(b, LinearVehicle):
                    for par, rng_ in (("ACCELERATION_PARAMETERS", "ACCELERATION_RANGE"),
                                      ("STEERING_PARAMETERS", "STEERING_RANGE")):
                        lo, hi = np.array(getattr(b, rng_), dtype=float)
                        x = np.array(getattr(b, par), dtype=float)
                        require(np.all(x >= lo - 1e-9) and np.all(x <= hi + 1e-9), "%s %s outside %s", par, x, [lo, hi])
                        require(np.any(x != np.array(getattr(a, par), dtype=float)), "%s was not randomized", par)
            if op == "field" and not own and arg[0] == "crashed":
                continue
            require(bool(a.crashed) == bool(b.crashed), "%s changed the crashed flag of vehicle %d", op, i)
    # both environments can still be played, the original as if nothing had happened
    mine = tuple(envs.run(new, acts[case["split"]:] or [acts[-1]]))
    require(len(mine) > 0, "the modified environment does not play")
    d = envs.first_difference(before, envs.scene(env))
    require(d is None, "playing the result of %s modified the original: %s", op, d)
    ref, _ = envs.build(case)
    envs.run(ref, acts[:case["split"]])
    if case.get("back"):
        put_back(ref.unwrapped, case["back"])
    wreck(ref.unwrapped, case.get("wrecks", []))
    d = envs.first_difference(tuple(envs.run(env, acts[case["split"]:])), tuple(envs.run(ref, acts[case["split"]:])))
    require(d is None, "after %s the original does not play as it would have: %s", op, d)
    rec.hit(op)


def check_prefer(case, rec):
    """Traffic with a preferred lane never moves away from it, and goes there."""
    from highway_env.vehicle.behavior import IDMVehicle
    lane = case["lane"] % case["lanes"]
    env, _ = envs.make("highway-v0", {"lanes_count": case["lanes"], "vehicles_count": case["n"], "vehicles_density": 0.4,
                                      "duration": 1000, "policy_frequency": 15}, case["seed"])
    env = env.set_preferred_lane(lane)
    cars = [v for v in env.road.vehicles if isinstance(v, IDMVehicle)]
    start = {id(v): v.target_lane_index[2] for v in cars}
    last = dict(start)
    for k in range(case["frames"]):
        env.step(1)
        if env.vehicle.crashed:
            break
        for v in cars:
            t = v.target_lane_index[2]
            # giving up an ongoing change, back to the current lane, is allowed
            require(abs(t - lane) <= abs(last[id(v)] - lane) or t == v.lane_index[2], "a vehicle with preferred lane %d goes from lane %d to %d",
                    lane, last[id(v)], t)
            last[id(v)] = t
    if case["n"] == 1 and k >= 89 and not cars[0].crashed and abs(cars[0].position[0] - env.vehicle.position[0]) > 30:
        require(abs(last[id(cars[0])] - lane) < max(1, abs(start[id(cars[0])] - lane)), "a vehicle alone did not move to its "
                "preferred lane in 6 s")
    if any(last[i] != start[i] for i in start):
        rec.hit("moved")


PROP = Prop(
    "C05",
    "A case is an environment with traffic after some steps, a preprocessor and its argument; non-trivial when the "
    "result was compared to the announced modification and both environments were played on.",
    [
        Sub("preprocess", pre_case, check_pre, 330, 6000, clause="new environment, announced modification only, "
            "original untouched"),
        Sub("prefer", lambda: st.builds(lambda l, k, n, s, f: {"lanes": l, "lane": k, "n": n, "seed": s, "frames": f},
                                        st.integers(2, 4), st.integers(0, 3), st.integers(1, 8), st.integers(0, 9999),
                                        st.sampled_from([30, 90])), check_prefer, 40, 800,
            clause="preferred lanes are sought"),
    ],
    ["preferred lanes exist on the roads of the routes", "traffic vehicles have lane and speed goals (not the parked cars of the summon environment)",
     "methods called on all vehicles return the vehicle"])
