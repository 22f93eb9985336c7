"""C06 time: frames per decision, early stop, and observers that do not disturb the simulation."""
import numpy as np
from hypothesis import strategies as st

from .. import envs, geo
from ..core import Prop, Sub, require, require_close

envs.prime()
FREQS = [(15, 1), (15, 2), (15, 4), (15, 5), (15, 15), (10, 1), (10, 3), (7, 2), (5, 5), (20, 5), (30, 1), (12, 5), (5, 3), (11, 4), (8, 3), (15, 8), (13, 7)]


def frames(case, env):
    c = env.unwrapped.config
    return c["simulation_frequency"] // c["policy_frequency"]


@st.composite
def timed_case(draw, ids=None, **kw):
    c = draw(envs.env_case(ids=ids, freqs=False, max_steps=5, **kw))
    if c["env"] != "lane-keeping-v0":
        s, p = draw(st.sampled_from(FREQS))
        if c["env"].startswith("intersection"):
            p = min(p, 5)
            if s // p == 0:
                s = 15
        c["config"].update(simulation_frequency=s, policy_frequency=p)
    return c


def check_frames(case, rec):
    """A step lasts floor(simulation / policy) frames, cut short only by the end of the episode."""
    env, _ = envs.build(case)
    u = env.unwrapped
    n = int(frames(case, env))
    require(u.time == 0 and u.steps == 0, "clock %r, steps %r after reset", u.time, u.steps)
    lk = case["env"] == "lane-keeping-v0"
    played = 0
    for k, a in enumerate(envs.actions_of(case)):
        t0 = u.time
        o, r, d, i = env.step(a)
        played += 1
        over = any(d) if isinstance(d, tuple) else bool(d)
        require(lk or u.steps == played, "%d decisions counted after %d", u.steps, played)
        dt = u.time - t0
        require(dt == n or (over and 1 <= dt < n), "a step of %s lasted %d frames instead of %d (over: %s)", case["env"], dt,
                n, over)
        if over:
            rec.note("ended")
            if dt < n:
                rec.note("cut short")
            break
    env.reset()
    require(u.time == 0 and u.steps == 0, "clock %r, steps %r after a second reset", u.time, u.steps)
    rec.hit(case["env"])


def check_distance(case, rec):
    """Frames last 1 / simulation frequency: distances follow."""
    env, _ = envs.make("highway-v0", {"vehicles_count": 0, "simulation_frequency": case["f"][0],
                                      "policy_frequency": case["f"][1], "duration": 10 ** 6,
                                      "action": {"type": "DiscreteMetaAction"}}, case["seed"])
    x, n = env.vehicle.position[0], case["f"][0] // case["f"][1]
    for k in range(case["n"]):
        env.step(1)
        require_close(env.vehicle.position[0] - x, 25.0 * (k + 1) * n / case["f"][0],
                      "distance covered at 25 m/s in %d steps of %d frames at %d Hz" % (k + 1, n, case["f"][0]), atol=1e-6)
    rec.hit()


def check_delivery(case, rec):
    """Every decision reaches the agent's vehicle exactly once, as its step begins, whatever the two frequencies."""
    s, p = case["f"]
    n = s // p
    kind = case["kind"]
    cfg = {"vehicles_count": 0, "simulation_frequency": s, "policy_frequency": p, "duration": 10 ** 6, "lanes_count": 3,
           "action": {"type": "DiscreteMetaAction"} if kind == "speed" else {"type": "ContinuousAction"}}
    env, _ = envs.make("highway-v0", cfg, case["seed"])
    v = env.vehicle
    t, x = 0, v.position[0]
    speed = v.speed
    for k, a in enumerate(case["cmds"]):
        if kind == "speed":
            table = [20.0, 25.0, 30.0]
            if abs((v.speed - 20) / 5 % 1 - 0.5) < 1e-6:
                return  # half way between two levels
            level = min(max(round((v.speed - 20) / 5), 0), 2)     # of the speed reached so far
            up = int(a > 0)
            want = table[min(max(level + (1 if up else -1), 0), 2)]
            env.step(3 if up else 4)
            require(v.target_speed == want, "decision %d (%s) of %d frames: target speed %r, expected %r", k,
                    "faster" if up else "slower", n, v.target_speed, want)
        else:
            if not 5 < speed + 5 * a * n / s < 39:
                a = 0.0
            env.step(np.array([a, 0.0]))
            for _ in range(n):
                x += speed / s
                speed += 5 * a / s
            require_close([v.position[0], v.speed], [x, speed], "decision %d (%r) of %d frames at %d Hz" % (k, a, n, s),
                          atol=1e-6)
        if k:
            rec.hit("divides" if s % p == 0 else "does not divide")


@st.composite
def hold_case(draw):
    env_id = draw(st.sampled_from(["highway-v0", "parking-v0", "summon-v0", "highway-v0", "two-way-v0", "merge-v0",
                                   "roundabout-v0", "intersection-v0"]))
    c = draw(envs.env_case(ids=[env_id], obs=False, freqs=False, max_steps=1, multi=False))
    sf, m, p = draw(st.sampled_from([(15, 3, 5), (15, 5, 3), (15, 3, 1), (10, 2, 5), (10, 5, 2), (20, 4, 5), (12, 2, 3)]))
    if env_id.startswith("intersection"):
        c["config"]["spawn_probability"] = 0
    c["config"]["duration"] = 10 ** 4
    c["config"]["simulation_frequency"] = sf
    c["m"], c["p"] = m, p
    return c


def check_hold(case, rec):
    """One long decision is the same as the decision followed by short ones that repeat (or idle)."""
    kind, p, m = envs.case_kind(case), case["p"], case["m"]
    sf = case["config"]["simulation_frequency"]
    if sf % (p * m):
        p, m = 1, sf // 5 if sf % 5 == 0 else 1
    a = envs.actions_of(case)[0]
    slow, _ = envs.build(case, policy_frequency=p)
    fast, _ = envs.build(case, policy_frequency=p * m)
    def saturated(v):
        # a command held beyond the speed limit is not the same command re-issued
        return abs(v.speed) > getattr(v, "MAX_SPEED", 40) - 2
    if any(saturated(v) for v in slow.unwrapped.road.vehicles):
        return
    over = slow.step(a)[2]
    for k in range(m):
        over = over or fast.step(a if k == 0 or kind[0] == "c" else 1)[2]
        if over:
            break
    s, f = slow.unwrapped, fast.unwrapped
    if over or any(saturated(v) for v in s.road.vehicles) or case["env"].startswith("intersection") and len(s.road.vehicles) != \
            len(f.road.vehicles):
        return
    require(s.time == f.time, "one long step lasts %d frames, %d short ones %d", s.time, m, f.time)
    pick = [envs.vehicle_state(v)[:6] for v in s.road.vehicles], [envs.vehicle_state(v)[:6] for v in f.road.vehicles]
    d = envs.first_difference(tuple(pick[0]), tuple(pick[1]))
    require(d is None, "a decision held for one long step and over %d short ones differ in %s: %s", m, case["env"], d)
    rec.hit(case["env"])


@st.composite
def stop_case(draw):
    e = draw(st.sampled_from(["highway", "highway", "highway", "summon-v0", "intersection-v0", "merge-v0"]))
    c = {"env": e, "config": {}, "seed": draw(st.integers(0, 10 ** 6))}
    n = draw(st.integers(1, 6))
    if e == "highway":
        kind = ("c", 2)
        c.update(env="highway-v0", config={"lanes_count": draw(st.integers(1, 4)), "offroad_terminal": draw(st.booleans()),
                                           "vehicles_count": draw(st.integers(1, 12)), "action": {"type": "ContinuousAction"},
                                           "ego_spacing": 1, "vehicles_density": 2})
        c["actions"] = [[draw(geo.fl(-1, 1)), draw(st.sampled_from([-0.3, -0.1, 0.1, 0.3, 1.0]))]] * n
    elif e == "summon-v0":
        kind = ("c", 2)
        c["config"] = {"vehicles_count": 10}
        c["actions"] = [[1.0, draw(geo.fl(-0.6, 0.6))]] * n
    elif e == "intersection-v0":
        kind = ("d", 3)
        c["config"] = {"spawn_probability": 0}
        c["actions"] = [2] * 8
    else:
        kind = ("d", 5)
        c["actions"] = draw(st.lists(st.integers(0, 4), min_size=12, max_size=13))
    c["kind"] = kind[0]
    return c


def check_stop(case, rec):
    """The simulation stops at the first frame whose state is terminal."""
    slow, _ = envs.build(case, policy_frequency=1, simulation_frequency=15, duration=10 ** 4)
    fast, _ = envs.build(case, policy_frequency=15, simulation_frequency=15, duration=10 ** 4)
    for a in envs.actions_of(dict(case, config=dict(case["config"]))):
        t0 = slow.time
        if abs(slow.vehicle.speed) > 38:
            return
        _, _, d, _ = slow.step(a)
        for k in range(15):
            _, _, df, _ = fast.step(a if k == 0 or case["kind"] == "c" else 1)
            if df:
                break
        if len(slow.road.vehicles) != len(fast.road.vehicles):
            return  # the traffic is cleared between decisions
        require(bool(d) == bool(df) and slow.time - t0 == k + 1, "seen frame by frame the episode %s at frame %d; in one step "
                "it %s after %d frames", "ends" if df else "goes on", k + 1, "ends" if d else "goes on", slow.time - t0)
        if abs(slow.vehicle.speed) <= 38:
            pick = [tuple(envs.vehicle_state(v)[1:4] for v in e.road.vehicles) for e in (slow, fast)]
            diff = envs.first_difference(pick[0], pick[1])
            require(diff is None or case["env"].startswith("intersection"), "states differ: %s", diff)
        if d:
            rec.hit(case["env"] + (" mid-step" if k < 14 else " at the end of a step"))
            return


def check_manual(case, rec):
    """With manual control, the actions of the agent are ignored."""
    env, _ = envs.build(case, manual_control=True)
    other, _ = envs.build(case, manual_control=True)
    kind, agents = envs.case_kind(case), envs.case_agents(case)

    def idle(k):
        return 1 if k[0] == "d" else np.zeros(k[1]) if k[0] == "c" else tuple(idle(k[1]) for _ in range(agents))
    acts = envs.actions_of(case)
    for a in acts:
        _, _, d1, _ = env.step(a)
        _, _, d2, _ = other.step(idle(kind))
        diff = envs.first_difference(envs.scene(env), envs.scene(other))
        require(diff is None, "the action %r had an effect under manual control: %s", a, diff)
        if d1 or d2:
            break
    rec.hit(case["env"])


@st.composite
def watched(draw):
    c = draw(timed_case())
    o = c["config"].get("observation") or {}
    while "observation_config" in o:
        o = o["observation_config"]
    if o.get("order") == "shuffled":
        o["order"] = "sorted"
    c["watch"] = draw(st.lists(st.sampled_from(["render", "observe", "available", "trajectories", "predict", "simplify",
                                                "mdp", "neighbours", "spaces"]), min_size=1, max_size=4))
    return c


def check_watch(case, rec):
    """Looking at an environment (rendering, observing, querying, recording trajectories) does not change its course."""
    ref, _ = envs.build(case)
    want = envs.run(ref, envs.actions_of(case))
    watch = set(case["watch"])
    extra = {"offscreen_rendering": True}
    if "trajectories" in watch:
        extra["show_trajectories"] = True
    env, _ = envs.build(case, **extra)
    u = env.unwrapped
    kind = envs.case_kind(case)
    for k, a in enumerate(envs.actions_of(case)):
        if "render" in watch:
            env.render("rgb_array")
        if "observe" in watch and case["env"] != "lane-keeping-v0":
            first = envs.plain(u.observation_type.observe())
            require(envs.plain(u.observation_type.observe()) == first, "two observations of the same state differ")
        if "available" in watch and kind[0] == "d":
            u.get_available_actions()
        if "predict" in watch:
            for v in u.road.vehicles:
                if hasattr(v, "predict_trajectory_constant_speed") and getattr(v, "route", None) is None:
                    v.predict_trajectory_constant_speed(np.arange(0, 1, 0.25))
        if "simplify" in watch:
            u.simplify()
        if "mdp" in watch and kind[0] == "d" and len(u.road.vehicles) < 12 and case["env"] in ("highway-v0", "two-way-v0"):
            try:
                from highway_env.envs.common.finite_mdp import compute_ttc_grid
            except ImportError:
                pass
            else:
                compute_ttc_grid(u, time_quantization=1.0, horizon=5)
        if "neighbours" in watch:
            for v in u.road.vehicles:
                u.road.neighbour_vehicles(v)
                u.road.close_vehicles_to(v, 50)
        if "spaces" in watch:
            env.observation_space, env.action_space.sample()
        got = envs.run(env, [a])[0]
        d = envs.first_difference(got, want[k])
        require(d is None, "looking at %s (%s) changed step %d: %s", case["env"], sorted(watch), k, d)
        if k + 1 >= len(want):
            break
    env.close()
    rec.hit(case["env"])
    for w in watch:
        rec.note(w)


PROP = Prop(
    "C06",
    "A case is an environment with frequencies, actions, and ways to look at it or to cut the same time into decisions; "
    "non-trivial when at least one step was compared.",
    [
        Sub("frames", timed_case, check_frames, 250, 4000, clause="frames per decision, decision count, early stop, reset"),
        Sub("distance", lambda: st.builds(lambda f, n, s: {"f": f, "n": n, "seed": s}, st.sampled_from(FREQS),
                                          st.integers(1, 6), st.integers(0, 99)), check_distance, 40, 300,
            clause="duration of a frame"),
        Sub("delivery", lambda: st.fixed_dictionaries({
            "f": st.one_of(st.sampled_from(FREQS), st.tuples(st.integers(1, 24), st.integers(1, 15)).filter(
                lambda f: f[0] >= f[1])), "seed": st.integers(0, 99), "kind": st.sampled_from(["speed", "pedal"]),
            "cmds": st.lists(geo.fl(-1, 1), min_size=3, max_size=9)}), check_delivery, 150, 2500,
            clause="each decision reaches the vehicle once, as its step begins"),
        Sub("hold", hold_case, check_hold, 150, 3000, clause="a held decision does not depend on how it is cut"),
        Sub("stop", stop_case, check_stop, 100, 2000, clause="a step stops at the first terminal frame"),
        Sub("manual", lambda: timed_case(obs=False, ids=[e for e in envs.ALL_IDS if e != "lane-keeping-v0" and
                                                        e != "intersection-multi-agent-v1"]), check_manual, 60, 1000, clause="manual control ignores the agent"),
        Sub("watch", watched, check_watch, 130, 2500, clause="looking changes nothing"),
    ],
    ["the lane-keeping environment has no manual control", "shuffled observations and noisy attributes draw random numbers by design and are not requested additionally"])
