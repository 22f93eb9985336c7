"""C23 goal-reaching environments: observation, reward, success, end of episode."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import envs, geo
from ..core import Prop, Sub, require, require_close
from .c19 import feature

envs.prime()
NAMES = ["x", "y", "vx", "vy", "cos_h", "sin_h"]
W = [1, 0.3, 0, 0, 0.02, 0.02]
LIMIT = 0.12


def own_reward(achieved, desired, p=0.5):
    return -sum(w * abs(a - d) for w, a, d in zip(W, achieved, desired)) ** p


# ------------------------------------------------------------- compute_reward

@st.composite
def pairs_case(draw):
    n = draw(st.integers(1, 5))
    vec = st.lists(geo.fl(-1.5, 1.5), min_size=6, max_size=6)
    near = st.lists(geo.fl(-0.03, 0.03), min_size=6, max_size=6)
    goals = [draw(vec) for _ in range(n)]
    got = [[g + e for g, e in zip(d, draw(near))] if draw(st.booleans()) else draw(vec) for d in goals]
    return {"env": draw(st.sampled_from(["parking-v0", "summon-v0", "parking-ActionRepeat-v0"])), "achieved": got,
            "desired": goals, "p": draw(st.sampled_from([0.5, 0.5, 1, 2, 0.25])), "crashed": draw(st.integers(0, 3)) == 0,
            "others": draw(st.integers(0, 3)) == 0}


ENVS = {}


def check_pairs(case, rec):
    """compute_reward is a function of the two goals (and the crash, for summon): it can relabel stored transitions."""
    if case["env"] not in ENVS:
        ENVS[case["env"]] = envs.make(case["env"], {}, 0)[0]
    env = ENVS[case["env"]]
    env.vehicle.crashed = case["crashed"]
    others = [v for v in env.road.vehicles if v is not env.vehicle]
    was = [v.crashed for v in others]
    for v in others:
        v.crashed = case["others"]
    penalty = -5 if case["crashed"] and case["env"].startswith("summon") else 0
    a, d = np.array(case["achieved"]), np.array(case["desired"])
    want = [own_reward(x, y, case["p"]) + penalty for x, y in zip(a, d)]
    got = [float(env.compute_reward(x, y, {}, case["p"])) for x, y in zip(a, d)]
    require_close(got, want, "compute_reward (p = %g, crashed %s)" % (case["p"], case["crashed"]), atol=1e-9)
    if case["p"] == 0.5:
        require_close([float(env.compute_reward(x, y, {})) for x, y in zip(a, d)], want, "default exponent", atol=1e-9)
    both = np.asarray(env.compute_reward(a, d, {}, case["p"]), dtype=float)
    require_close(both, want, "compute_reward of a batch of %d" % len(a), atol=1e-9)
    for x, y in zip(a, d):
        require(abs(float(env.compute_reward(y, y, {})) - penalty) < 1e-12, "reward at the goal is not %d", penalty)
        r = own_reward(x, y) + penalty
        if abs(r + LIMIT) > 1e-9:
            if hasattr(env, "_is_success"):
                require(bool(env._is_success(x, y)) == (r > -LIMIT), "success with reward %g", r)
            rec.hit("success" if r > -LIMIT else "far")
    # moving in velocity only does not matter, moving closer in x matters
    x, y = a[0].copy(), d[0]
    z = x.copy()
    z[2:4] += 0.7
    require_close(float(env.compute_reward(z, y, {})), float(env.compute_reward(x, y, {})), "speed has no weight", atol=1e-9)
    z = x.copy()
    z[0] = (x[0] + y[0]) / 2
    require(env.compute_reward(z, y, {}) >= env.compute_reward(x, y, {}) - 1e-12, "getting closer lowers the reward")
    env.vehicle.crashed = False
    for v, c in zip(others, was):
        v.crashed = c


# ------------------------------------------------------------------- episodes

@st.composite
def episode_case(draw):
    c = draw(envs.env_case(ids=["parking-v0", "parking-v0", "parking-ActionRepeat-v0", "summon-v0",
                                "summon-ActionRepeat-v0"], max_steps=5, freqs=False))
    agents = envs.case_agents(c)
    if c["env"].startswith("parking") and draw(st.booleans()):
        c["config"]["duration"] = draw(st.integers(1, 5))
    if draw(st.integers(0, 2)) == 0 and agents == 1:
        c["config"]["observation"] = {"type": "KinematicsGoal", "features": NAMES, "normalize": False,
                                      "scales": draw(st.lists(st.sampled_from([1, 5, 10, 50, 100]), min_size=6,
                                                              max_size=6))}
    tw = []
    for _ in c["actions"]:
        kind = draw(st.sampled_from(["none", "none", "goal", "goal", "crash", "others"]))
        t = None
        if kind == "goal":
            exact = draw(st.booleans())
            t = {"who": draw(st.integers(0, agents - 1)), "all": draw(st.integers(0, 2)) == 0,
                 "d": [0, 0] if exact else [draw(geo.fl(-2.5, 2.5)), draw(geo.fl(-5, 5))],
                 "dh": 0 if exact else draw(geo.fl(-0.6, 0.6)), "v": draw(st.sampled_from([0, 0, 1, -2]))}
        elif kind == "crash":
            t = {"who": draw(st.integers(0, agents - 1)), "crash": True}
        elif kind == "others":
            t = {"who": 0, "others": True}
        tw.append(t)
    c["tweaks"] = tw
    return c


def check_episode(case, rec):
    """Observation, reward, is_success and done agree with the definition at every step."""
    env, obs = envs.build(case)
    env = env.unwrapped
    cfg = case["config"].get("observation", {})
    multi = cfg.get("type") == "MultiAgentObservation"
    scales = cfg.get("scales", [100, 100, 5, 5, 1, 1])
    duration = case["config"].get("duration", 20 if case["env"] == "parking-ActionRepeat-v0" else 100)
    goal = env.goal
    place = np.array(goal.position, dtype=float).copy(), float(goal.heading)
    if case["env"].startswith("parking"):
        spots = [(lane.position(lane.length / 2, 0), lane.heading) for lane in env.road.network.lanes_list()]
        require(any(np.allclose(place[0], p) and abs(place[1] - h) < 1e-9 for p, h in spots),
                "the goal %s is not a parking spot", place)
    else:
        require(abs(abs(place[0][0]) - 40) < 1e-9 and abs(place[0][1]) < 1e-9 and place[1] == 0, "goal at %s", place)

    def truth(v):
        a = [feature(v, f) / s for f, s in zip(NAMES, scales)]
        g = [place[0][0], place[0][1], 0, 0, math.cos(place[1]), math.sin(place[1])]
        return a, [x / s for x, s in zip(g, scales)]

    def judge_obs(o, what):
        egos = list(env.controlled_vehicles) if multi else [env.vehicle]
        for v, x in zip(egos, o if multi else (o,)):
            a, g = truth(v)
            require_close(x["observation"], a, what + ": observation", atol=1e-9)
            require_close(x["achieved_goal"], a, what + ": achieved goal", atol=1e-9)
            require_close(x["desired_goal"], g, what + ": desired goal", atol=1e-9)
    judge_obs(obs, "first")
    for k, (act, t) in enumerate(zip(envs.actions_of(case), case["tweaks"])):
        if t and t.get("others"):
            for v in env.road.vehicles:
                v.crashed = v.crashed or v not in env.controlled_vehicles
        elif t:
            for v in (env.controlled_vehicles if t.get("all") else [env.controlled_vehicles[t["who"]]]):
                if t.get("crash"):
                    v.crashed = True
                elif "d" in t:
                    v.position = place[0] + np.array(t["d"])
                    v.heading = place[1] + t["dh"]
                    v.speed = t["v"]
        o, r, d, info = env.step(act)
        judge_obs(o, "step %d" % k)
        egos = list(env.controlled_vehicles) if multi else [env.vehicle]
        pen = -5 * bool(env.vehicle.crashed) if case["env"].startswith("summon") else 0
        rs = [own_reward(*truth(v)) + pen for v in egos]
        require_close(float(r), sum(rs), "reward of step %d" % k, atol=1e-9)
        if not multi:
            require_close(float(r), float(env.compute_reward(o["achieved_goal"], o["desired_goal"], info)),
                          "the goal contract: reward = compute_reward(achieved, desired)", atol=1e-9)
        if any(abs(x + LIMIT) < 1e-9 for x in rs):
            return
        ok = [x > -LIMIT for x in rs]
        got = info["is_success"]
        require([bool(x) for x in (got if multi else (got,))] == ok, "is_success %r, rewards %s (step %d)", got, rs, k)
        crashed = any(v.crashed for v in env.controlled_vehicles)
        want = k + 1 >= duration or crashed or all(ok)
        require(bool(d) == want, "done is %r at step %d of %s, crashed %s, success %s", d, k + 1, duration, crashed, ok)
        require(env.goal is goal and np.array_equal(goal.position, place[0]) and goal.heading == place[1],
                "the goal moved during the episode")
        rec.hit(case["env"])
        rec.note("success" if all(ok) else "some success" if any(ok) else "crash" if crashed else
                 "time out" if want else "going on")
        if d:
            break


PROP = Prop(
    "C23",
    "A case is a set of pairs of achieved and desired goals, or an episode of a goal environment with actions and "
    "changes of state (placed near the goal, crashed); non-trivial when a success verdict is compared.",
    [
        Sub("pairs", pairs_case, check_pairs, 1200, 25000, clause="compute_reward: definition, batches, exponent, "
            "success threshold, maximum at the goal"),
        Sub("episode", episode_case, check_episode, 420, 9000, clause="goals in the observation, reward contract, "
            "is_success, end of episode, fixed goal on a parking spot"),
    ],
    ["rewards within 1e-9 of the success threshold are not judged"])
