"""C14 consequences of collisions."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geo, envs
from ..core import Prop, Sub, require, require_close, wrap

envs.prime()
TOL = 1e-6
CLASSES = ["kinematics.Vehicle", "controller.ControlledVehicle", "controller.MDPVehicle", "behavior.IDMVehicle",
           "behavior.LinearVehicle"]


def cls_of(path):
    import importlib
    mod, name = path.split(".")
    return getattr(importlib.import_module("highway_env.vehicle." + mod), name)


@st.composite
def pile(draw):
    """Bodies on a three-lane road, close to each other."""
    n = draw(st.integers(1, 6))
    spread = draw(st.sampled_from([8, 15, 30, 60]))
    if draw(st.integers(0, 11)) == 0:
        n, spread = draw(st.integers(10, 30)), draw(st.sampled_from([8, 60, 150]))
    bodies = []
    for _ in range(n):
        bodies.append({"c": draw(st.sampled_from(CLASSES)), "p": [draw(geo.fl(0, spread)) + 100, draw(geo.fl(-3, 11))],
                       "h": draw(st.one_of(st.just(0.0), geo.fl(-0.5, 0.5), geo.fl(-3.2, 3.2))),
                       "v": draw(st.one_of(geo.fl(0, 30), geo.fl(-10, 40))),
                       "a": [draw(geo.fl(-1, 1)), draw(geo.fl(-5, 5))],
                       "crashed": draw(st.integers(0, 7)) == 0, "ghost": draw(st.integers(0, 7)) == 0})
    objs = [{"k": draw(st.sampled_from(["obstacle", "obstacle", "landmark"])),
             "p": [draw(geo.fl(0, spread)) + 100, draw(geo.fl(-3, 11))], "h": draw(geo.fl(-3, 3))}
            for _ in range(draw(st.integers(0, 2)))]
    return {"bodies": bodies, "objects": objs, "steps": draw(st.integers(1, 25)), "dt": draw(st.sampled_from(
        [1 / 15, 0.1, 0.05]))}


def make_road(case):
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.road.objects import Obstacle, Landmark
    road = Road(RoadNetwork.straight_road_network(3, length=1000), np_random=np.random.RandomState(0))
    for b in case["bodies"]:
        v = cls_of(b["c"])(road, list(b["p"]), b["h"], b["v"])
        v.crashed = b["crashed"]
        if b.get("ghost"):
            v.COLLISIONS_ENABLED = False
        road.vehicles.append(v)
    for o in case["objects"]:
        road.objects.append((Obstacle if o["k"] == "obstacle" else Landmark)(road, list(o["p"]), heading=o["h"]))
    return road


def check_pile(case, rec):
    from highway_env.road.objects import Obstacle
    road = make_road(case)
    dt = case["dt"]
    vs, objs = road.vehicles, road.objects
    order = list(vs)
    hit_before = [o.hit for o in objs]
    fixed = [(tuple(o.position), o.heading) for o in objs]
    for k in range(case["steps"]):
        for v, b in zip(vs, case["bodies"]):
            if type(v).__name__ == "Vehicle":
                v.act({"steering": b["a"][0], "acceleration": b["a"][1]})
            else:
                v.act()
        before = [(np.array(v.position), v.heading, v.speed, bool(v.crashed)) for v in vs]
        road.step(dt)
        require(all(a is b for a, b in zip(vs, order)) and len(vs) == len(order), "vehicles were added or removed")
        # -- already crashed vehicles: straight, slowing down to a stop, whatever they decide
        for v, (p, h, s, c) in zip(vs, before):
            if c:
                require(v.crashed, "a crashed vehicle recovered")
                require_close(v.position, p + s * dt * np.array([math.cos(h), math.sin(h)]), "path of a wreck", 1e-6)
                require(abs(wrap(v.heading - h)) < 1e-9, "a wreck turned from %r to %r", h, v.heading)
                require(abs(v.speed) <= abs(s) * (1 - dt) + 1e-9, "a wreck went from %r to %r m/s in %r s", s, v.speed,
                        dt)
                rec.hit("wreck")
        # -- who collides with whom, from the poses
        n = len(vs)
        # a vehicle without collisions touches no vehicle nor obstacle
        on = [bool(a.COLLISIONS_ENABLED) for a in vs]
        pair = [[geo.body_gap((a.position, a.heading), (b.position, b.heading)) if on[i] and on[j] else 1e3
                 for j, b in enumerate(vs)] for i, a in enumerate(vs)]
        og = [[geo.body_gap((a.position, a.heading), (o.position, o.heading), lb=2.0, wb=2.0)
               if on[i] or not isinstance(o, Obstacle) else 1e3 for o in objs] for i, a in enumerate(vs)]
        flat = [pair[i][j] for i in range(n) for j in range(i)] + [g for row in og for g in row]
        if flat and min(abs(g) for g in flat) < TOL:
            return
        for i, v in enumerate(vs):
            touching = [j for j in range(n) if j != i and pair[i][j] < 0]
            obst = [j for j, o in enumerate(objs) if isinstance(o, Obstacle) and og[i][j] < 0]
            want = before[i][3] or bool(touching) or bool(obst)
            require(bool(v.crashed) == want, "step %d: vehicle %d crashed=%s, expected %s (touches vehicles %s, "
                    "obstacles %s)", k, i, v.crashed, want, touching, obst)
            if not before[i][3] and not want:
                continue
            if not before[i][3]:
                rec.hit("crash")
                if not touching:
                    require(v.speed == 0, "a vehicle that hit an obstacle still goes at %r m/s", v.speed)
                    rec.note("obstacle crash")
                elif len(touching) == 1 and not obst:
                    j = touching[0]
                    if [m for m in range(n) if m not in (i, j) and pair[j][m] < 0] or \
                            any(og[j][m] < 0 for m in range(len(objs))):
                        continue
                    sp = [abs(vs[i].speed), abs(vs[j].speed)]
                    require(abs(vs[i].speed - vs[j].speed) < 1e-9, "two vehicles crashed together have speeds %r", sp)
                    rec.note("pair crash")
        for j, o in enumerate(objs):
            require((tuple(o.position), o.heading) == fixed[j], "an object moved")
            alone = [i for i in range(n) if og[i][j] < 0 and not before[i][3]
                     and not any(pair[i][m] < 0 for m in range(n) if m != i)
                     and not any(og[i][m] < 0 for m in range(len(objs)) if m != j)]
            anyone = [i for i in range(n) if og[i][j] < 0]
            if hit_before[j] or alone:
                require(o.hit, "step %d: object %d is touched by vehicle %s and is not hit", k, j, alone)
            elif not anyone:
                require(not o.hit, "step %d: object %d is hit, nobody touches it", k, j)
            hit_before[j] = o.hit
            if o.hit:
                rec.hit("object hit")


def check_pair_speed(case, rec):
    """Speed after the impact of two isolated bodies: the smaller one in magnitude, for both."""
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.objects import Obstacle
    from highway_env.road.road import Road, RoadNetwork
    road = Road(RoadNetwork.straight_road_network(2, length=1000))
    a = Vehicle(road, [100, 0], 0.0, case["va"])
    b = Vehicle(road, [100 + case["dx"], case["dy"]], case["h"], case["vb"])
    road.vehicles += [b, a] if case["swap"] else [a, b]
    dt = 1e-3
    gap = geo.body_gap((a.position, a.heading), (b.position, b.heading))
    if abs(gap) < 0.1:
        return
    road.step(dt)
    if gap > 0:
        require(not a.crashed and not b.crashed, "crash without contact")
        require((a.speed, b.speed) == (case["va"], case["vb"]), "speeds changed without contact")
        return
    want = min(abs(case["va"]), abs(case["vb"]))
    require(a.crashed and b.crashed, "contact without crash")
    if abs(abs(case["va"]) - abs(case["vb"])) > 1e-6:
        signed = min([case["va"], case["vb"]], key=abs)
        require_close([a.speed, b.speed], [signed, signed], "speeds after the impact of %r and %r"
                      % (case["va"], case["vb"]))
    require_close([abs(a.speed), abs(b.speed)], [want, want], "speed magnitudes after the impact")
    # both stop
    for _ in range(400):
        road.step(0.05)
    require(abs(a.speed) < 1e-3 and abs(b.speed) < 1e-3, "wrecks still move: %r %r", a.speed, b.speed)
    rec.hit("impact")


def check_env(case, rec):
    """In the environments: vehicles are crashed exactly when their boxes met something since the last reset."""
    from highway_env.road.objects import Obstacle
    from highway_env.vehicle.kinematics import Vehicle
    env, _ = envs.build(case)
    if not all(v.COLLISIONS_ENABLED for v in env.road.vehicles):
        return
    seen = {}
    for v in env.road.vehicles:
        seen[id(v)] = bool(v.crashed)
    keep = []
    for a in envs.actions_of(case):
        _, _, done, info = env.step(a)
        vs = list(env.road.vehicles)
        keep.append(vs)
        for v in vs:
            if seen.get(id(v)):
                require(v.crashed, "a crashed vehicle recovered within an episode")
            seen[id(v)] = bool(v.crashed)
            if v.crashed:
                rec.note("crash")
        for i, v in enumerate(vs):
            for w in vs[:i]:
                if not (v.COLLISIONS_ENABLED and w.COLLISIONS_ENABLED):
                    continue
                if type(v).__name__ == "Obstacle" or v.crashed and w.crashed:
                    continue
                g = geo.body_gap((v.position, v.heading), (w.position, w.heading))
                require(g > -TOL, "two vehicles overlap by %.4f m and are not both crashed: %s %s", -g, v, w)
            for o in env.road.objects:
                if isinstance(o, Obstacle) and v.COLLISIONS_ENABLED and not v.crashed:
                    g = geo.body_gap((v.position, v.heading), (o.position, o.heading), lb=2.0, wb=2.0)
                    require(g > -TOL, "a vehicle overlaps an obstacle by %.4f m and is not crashed", -g)
        require(bool(info["crashed"]) == bool(env.vehicle.crashed), "info['crashed'] is wrong")
        rec.hit(case["env"])
        if envs.plain(done) is True:
            break


@st.composite
def crash_env_case(draw):
    c = draw(envs.env_case(ids=["highway-v0", "highway-v0", "intersection-v0", "merge-v0", "two-way-v0", "roundabout-v0",
                                "summon-v0", "parking-v0"], obs=False, multi=False, min_steps=3, max_steps=10))
    if c["env"] == "highway-v0":
        c["config"]["vehicles_density"] = draw(st.sampled_from([2, 3, 4]))
        c["config"]["vehicles_count"] = draw(st.integers(3, 10))
    return c


PROP = Prop(
    "C14",
    "A case is a pile of up to 6 vehicles of five classes and 2 objects with random poses, speeds and commands stepped "
    "up to 25 times, an isolated impact, or an episode of an environment; non-trivial when a body crashed or was hit "
    "(episodes: when at least one step was judged).",
    [
        Sub("pile", pile, check_pile, 500, 12000, clause="crashed = touched a vehicle or an obstacle (or already was); "
            "wrecks go straight and stop; objects are hit exactly when touched and never move"),
        Sub("impact", lambda: st.builds(
            lambda va, vb, dx, dy, h, s: {"va": va, "vb": vb, "dx": dx, "dy": dy, "h": h, "swap": s},
            geo.fl(-30, 30), geo.fl(-30, 30), geo.fl(-5, 5), geo.fl(-2.5, 2.5), geo.fl(-3, 3), st.booleans()),
            check_pair_speed, 250, 5000, clause="both vehicles of an impact take the smaller of the two speeds, then stop"),
        Sub("episodes", crash_env_case, check_env, 150, 3000, clause="in an episode, overlap implies crash; "
            "crashed is final; info reports it"),
    ],
    ["a body touching several others at once is judged on crashed only, not on its speed"])
