"""C24 when episodes end, costs and infos."""
import numpy as np
from hypothesis import strategies as st

from .. import envs, geo
from ..core import Prop, Sub, require, require_close
from .c22 import tweak, apply, on_straight, arrived

envs.prime()


@st.composite
def end_case(draw, ids):
    c = draw(envs.env_case(ids=ids, obs=False, min_steps=2, max_steps=6))
    agents = envs.case_agents(c)
    if c["env"] in ("highway-v0", "roundabout-v0"):
        c["config"]["duration"] = draw(st.sampled_from([1, 2, 3, 4, 6, 11, 40, 1.5, 2.25]))
    if c["env"].startswith("intersection"):
        c["config"]["duration"] = draw(st.sampled_from([1, 2, 3, 13, 1.5, 2.5]))
        c["config"]["policy_frequency"] = draw(st.sampled_from([1, 1, 2]))
    tw = []
    for _ in c["actions"]:
        t = draw(tweak(agents, c["env"]))
        if c["env"] == "merge-v0" and draw(st.integers(0, 2)) == 0:
            t = {"who": 0, "road": ["c", "d", draw(st.integers(0, 1))], "s": draw(geo.fl(20, 75))}
        if draw(st.integers(0, 2)) == 0 and agents > 1 and c["env"].startswith("intersection"):
            t = {"who": 0, "everybody": True, "s": draw(geo.fl(10, 50))}
        tw.append(t)
    c["tweaks"] = tw
    c["beyond"] = draw(st.sampled_from([1, 1, 2.5]))      # continuous commands may be given beyond their range
    return c


def default_duration(env_id):
    return {"highway-v0": 40, "roundabout-v0": 11}.get(env_id, 13)


def verdict(env, case, steps):
    """(done, margin): does the state end the episode, and how far is it from a frontier."""
    cfg, v = case["config"], env.vehicle
    if case["env"] == "highway-v0":
        on, edge = on_straight(v.lane, v.position)
        off = cfg.get("offroad_terminal", False) and not on
        return v.crashed or steps >= cfg.get("duration", 40) or off, edge
    if case["env"] == "merge-v0":
        return v.crashed or v.position[0] > 370, abs(v.position[0] - 370)
    if case["env"] == "roundabout-v0":
        return v.crashed or steps >= cfg.get("duration", 11), 1
    if case["env"] == "two-way-v0":
        return v.crashed, 1
    if case["env"] == "lane-keeping-v0":
        return False, 1
    there = [arrived(env, w) for w in env.controlled_vehicles]
    over = steps >= cfg.get("duration", 13) * cfg.get("policy_frequency", 1)
    return any(w.crashed for w in env.controlled_vehicles) or all(t for t, _ in there) or over, min(e for _, e in there)


def check_end(case, rec):
    """done, agents_dones, cost and info are those of the state reached."""
    env, _ = envs.build(case)
    env = env.unwrapped
    many = case["env"].startswith("intersection")
    for k, (a, t) in enumerate(zip(envs.actions_of(case), case["tweaks"])):
        if t.get("everybody"):
            for j, _ in enumerate(env.controlled_vehicles):
                apply(env, {"who": j, "road": ["il%d" % j, "o%d" % j, 0], "s": t["s"] + j})
        else:
            apply(env, t)
        if isinstance(a, np.ndarray):
            a = a * case.get("beyond", 1)
        _, r, d, info = env.step(a)
        want, edge = verdict(env, case, k + 1)
        if edge < 1e-6:
            return
        require(bool(d) == bool(want), "done is %r after step %d of %s: crashed %s, at %s on %s", d, k + 1, case["env"],
                [v.crashed for v in env.controlled_vehicles], env.vehicle.position, env.vehicle.lane_index)
        v = env.vehicle
        if case["env"] != "lane-keeping-v0":
            require_close(float(np.squeeze(info["speed"])), float(np.squeeze(v.speed)), "info speed", atol=1e-12)
            require(bool(info["crashed"]) == bool(v.crashed), "info crashed %r", info["crashed"])
            require(info["action"] is a or info["action"] == a if not isinstance(a, np.ndarray) else
                    np.array_equal(info["action"], a), "info action %r, played %r", info["action"], a)
        if case["env"] == "highway-v0" or many:
            require(info["cost"] == float(bool(v.crashed)), "cost %r, crashed %r", info["cost"], v.crashed)
        elif case["env"] == "two-way-v0":
            require_close(info["cost"], bool(v.crashed) + (v.lane_index[2] == 0) / 15, "cost on lane %r" % (v.lane_index,),
                          atol=1e-12)
        if many:
            over = k + 1 >= case["config"].get("duration", 13) * case["config"].get("policy_frequency", 1)
            dones = [bool(w.crashed or over or arrived(env, w)[0]) for w in env.controlled_vehicles]
            require([bool(x) for x in info["agents_dones"]] == dones, "agents_dones %r, expected %r", info["agents_dones"],
                    dones)
        rec.hit(case["env"])
        rec.note("ended" if d else "going on")
        if d:
            rec.note("ended: " + ("crash" if any(w.crashed for w in env.controlled_vehicles) else
                                  "time or place"))
            break


def check_survive(case, rec):
    """Nothing else ends an episode: an unhurried, alone vehicle drives until the time is out, exactly."""
    env, _ = envs.make(case["env"], case["config"], case["seed"])
    u = env.unwrapped
    limit = case["config"]["duration"] * (case["config"].get("policy_frequency", 1) if
                                          case["env"].startswith("intersection") else 1)
    keep = list(u.controlled_vehicles)
    u.road.vehicles = list(keep)
    for k in range(int(limit) + 3):
        u.road.vehicles = [v for v in u.road.vehicles if v in keep]
        _, _, d, info = env.step((0,) * len(keep) if "multi" in case["env"] else 0 if
                                 case["env"].startswith("intersection") else 4)
        if any(v.crashed for v in keep) or case["env"].startswith("intersection") and all(arrived(u, v)[0] for v in keep):
            return
        require(bool(d) == (k + 1 >= limit), "alone and slow, the episode of %s decisions ends at %d", limit, k + 1)
        if d:
            rec.hit(case["env"])
            return


@st.composite
def survive_case(draw):
    e = draw(st.sampled_from(["highway-v0", "roundabout-v0", "intersection-v0", "intersection-multi-agent-v0"]))
    cfg = {"duration": draw(st.one_of(st.integers(1, 14), st.sampled_from([0.5, 1.5, 2.4, 5.75])))}
    if e == "highway-v0":
        cfg.update(vehicles_count=0, lanes_count=draw(st.integers(1, 4)), offroad_terminal=draw(st.booleans()))
    if e.startswith("intersection"):
        cfg.update(spawn_probability=0, initial_vehicle_count=1, policy_frequency=draw(st.sampled_from([1, 1, 2, 3])))
    return {"env": e, "config": cfg, "seed": draw(st.integers(0, 10 ** 6))}


PROP = Prop(
    "C24",
    "A case is an environment, a configuration, a seed, actions and changes of state before them (crash, speed, offset, "
    "place near the end); non-trivial when at least one verdict was compared.",
    [
        Sub("end", lambda: end_case(["highway-v0", "highway-v0", "merge-v0", "roundabout-v0", "two-way-v0",
                                     "lane-keeping-v0"]), check_end, 330, 7000,
            clause="highway, merge, roundabout, two-way, lane keeping: done, cost, info"),
        Sub("intersection", lambda: end_case(["intersection-v0", "intersection-multi-agent-v0"]), check_end, 200, 4000,
            clause="intersection: any crash, all arrived, time; per-agent flags"),
        Sub("survive", survive_case, check_survive, 80, 1500, clause="nothing but a crash, an arrival or the time ends an "
            "episode"),
    ],
    ["states within 1e-6 of a frontier are not judged"])
