"""C33 the lane-keeping task: measurements, reference, records."""
import contextlib
import copy
import io
import math

import numpy as np
from hypothesis import strategies as st

from .. import geo, envs, kin
from ..core import Prop, Sub, require, require_close, wrap

ROWS = [1, 2, 4, 5]
ATTRS = ["state", "derivative", "reference_state"]


@st.composite
def keep(draw):
    n = draw(st.integers(1, 10) if draw(st.integers(0, 15)) else st.integers(100, 130))
    cfg = {}
    noise = st.one_of(st.just(0), st.sampled_from([0.05, 1e-3, 1]), geo.fl(0, 0.5))
    if draw(st.integers(0, 3)):
        cfg.update(state_noise=draw(noise), derivative_noise=draw(noise))
    if draw(st.integers(0, 2)) == 0:
        cfg["observation"] = {"type": "AttributesObservation",
                              "attributes": draw(st.lists(st.sampled_from(ATTRS), min_size=1, max_size=3, unique=True))}
    if draw(st.integers(0, 2)) == 0:
        cfg.update(simulation_frequency=draw(st.sampled_from([10, 20, 40])), policy_frequency=10)
    if draw(st.integers(0, 2)) == 0:
        cfg["action"] = {"type": "ContinuousAction", "steering_range": [-draw(geo.fl(0.1, 1)), draw(geo.fl(0.1, 1))],
                         "longitudinal": False, "lateral": True, "dynamical": True}
    return {"env": "lane-keeping-v0", "config": cfg, "seed": draw(st.integers(0, 10 ** 6)),
            "actions": draw(st.lists(st.lists(geo.fl(-1, 1), min_size=1, max_size=1), min_size=n, max_size=n)),
            "jumps": draw(st.lists(st.one_of(st.none(), st.none(), st.none(), st.tuples(
                st.sampled_from(["cd", "ab"]), geo.fl(0, 80), geo.fl(-7, 7), geo.fl(-0.4, 0.4)).map(list)),
                min_size=n, max_size=n)),
            }


def measure(obs, env, state, deriv, lane, samples, when):
    """One observation against the exact quantities."""
    cfg = env.config
    names = cfg["observation"]["attributes"]
    require(sorted(obs) == sorted(names), "%s: the attributes %s are observed, %s are configured", when, sorted(obs), names)
    for name in names:
        x = np.asarray(obs[name])
        require(x.shape == (4, 1), "%s: %s has shape %s", when, name, x.shape)
        require(env.observation_space.spaces[name].shape == (4, 1), "shape of the space of %s", name)
        if name == "reference_state":
            s, r = lane.local_coordinates(state[:2, 0])
            want = [state[1, 0] - r, lane.heading_at(s), 0, 0]
            require_close(x[:, 0], want, "%s: reference (lateral position, heading, at rest)" % when, atol=1e-9)
            continue
        level = cfg["state_noise" if name == "state" else "derivative_noise"]
        want = (state if name == "state" else deriv)[ROWS, 0]
        err = x[:, 0] - want
        require((np.abs(err) <= level + 1e-6 * (1 + np.abs(want).max())).all(), "%s: the %s %s is off by %s, the noise is within %s", when,
                name, x[:, 0], err, level)
        if level >= 1e-3:
            samples[name].append(err / level)


def check_keep(case, rec):
    env, obs = envs.build(case)
    net = env.road.network
    cd, ab = net.get_lane(("c", "d", 0)), net.get_lane(("a", "b", 0))
    todo, cur = [ab], cd
    v = env.vehicle
    require_close([v.position[0], v.position[1]], cd.position(50, -4), "start", atol=1e-9)
    f, p = env.config["simulation_frequency"], env.config["policy_frequency"]
    lo, hi = env.config["action"]["steering_range"]
    samples = {"state": [], "derivative": []}
    states = []

    def derivative(steer):
        w = copy.deepcopy(v)
        a = w.state.copy()
        w.act({"acceleration": 0, "steering": steer})
        w.step(1 / f)
        return (w.state - a) * f
    last = 0.0
    measure(obs, env, v.state.copy(), derivative(0.0), cur, samples, "at reset")
    for k, (a, j) in enumerate(zip(envs.actions_of(case), case["jumps"])):
        if j:
            lane = net.get_lane((j[0][0], j[0][1], 0))
            v.position = np.array(lane.position(j[1], j[2]))
            v.heading = lane.heading_at(j[1]) + j[3]
        s, r = cur.local_coordinates(v.position)
        if min(abs(abs(r) - 5), abs(s + 5), abs(s - cur.length - 5)) < 1e-6 or abs(v.yaw_rate) > 6.2:
            return
        if todo and not (abs(r) <= 5 and -5 <= s < cur.length + 5):
            cur = todo.pop(0)
            rec.note("next lane")
        before = v.state.copy()
        states.append(before)
        steer = kin.lmap(float(a[0]), lo, hi)
        d = derivative(steer)
        obs, _, _, _ = env.step(np.array(a, dtype=float))
        kept = {n: np.array(x) for n, x in obs.items()}
        measure(obs, env, before, d, cur, samples, "step %d" % k)
        last = steer
        require(len(env.trajectory) == len(states), "%d states are recorded after %d steps", len(env.trajectory), len(states))
        for i, x in enumerate(states) if len(states) <= 12 or k % 10 == 0 else [(k, states[k])]:
            require_close(np.asarray(env.trajectory[i]).ravel(), x.ravel(), "recorded state %d after %d steps" % (i, k + 1),
                          atol=1e-12)
        # asking again describes the new state, and does not alter what was returned
        now = env.observation_type.observe()
        measure(now, env, v.state.copy(), derivative(last), cur, samples, "after step %d" % k)
        require(all((np.array(x) == kept[n]).all() for n, x in obs.items()), "an observation changed afterwards")
        rec.hit("noise" if env.config["state_noise"] else "exact")
    u = {n: np.array(x) for n, x in samples.items()}
    for n, x in u.items():
        if len(x) >= 10:
            require(np.abs(x).max() > 0.3 and x.max() > 0 > x.min(), "the noise on the %s is not spread over its range: %s", n, x)
            require(all(np.ptp(x[:, i]) > 1e-3 for i in range(4)), "a component of the noise on the %s is constant", n)
            require(all(np.ptp(y) > 1e-3 for y in x), "the noise on the %s is the same for all components", n)
    if len(u["state"]) and len(u["state"]) == len(u["derivative"]):
        require(not np.allclose(u["state"], u["derivative"]), "the same noise is put on states and derivatives")


def check_predictor(case, rec):
    """With a predictor attached, its interval is recorded at each step, along with the rest of the state."""
    from highway_env.interval import LPV
    env, _ = envs.build(case)
    v = env.vehicle
    a, b = v.full_lateral_lpv_dynamics()
    with contextlib.redirect_stdout(io.StringIO()):
        env.lpv = LPV(x0=v.state[ROWS].squeeze(), a0=a, da=[np.zeros(a.shape)], b=b, d=[[0], [0], [0], [1]],
                      omega_i=[[-case["w"]], [case["w"]]], u=None, k=np.array([case["k"]]), center=None, x_i=None)
    for k, act in enumerate(envs.actions_of(case)):
        want = env.lpv.change_coordinates(env.lpv.x_i_t, back=True, interval=True)
        x = v.state.copy().ravel()
        nominal = np.array(env.lpv.x_t)
        env.step(np.array(act, dtype=float))
        require(len(env.interval_trajectory) == k + 1 == len(env.trajectory), "%d intervals and %d states after %d steps",
                len(env.interval_trajectory), len(env.trajectory), k + 1)
        got = np.array(env.interval_trajectory[-1])
        require(got.shape == (2, 6), "recorded interval of shape %s", got.shape)
        for side in range(2):
            require_close(got[side][ROWS], want[side], "recorded interval at step %d" % k, atol=1e-9)
            require_close(got[side][[0, 3]], x[[0, 3]], "position and speed recorded at step %d" % k, atol=1e-12)
        require_close(np.asarray(env.trajectory[-1]).ravel(), x, "recorded state", atol=1e-12)
        dx = env.lpv.a0 @ nominal + env.lpv.b @ np.asarray(env.lpv.u).squeeze(-1)
        if np.abs(dx).max() > 1e-3 * (1 + np.abs(nominal).max()):
            require(not np.array_equal(nominal, env.lpv.x_t), "the predictor was not advanced")
        if np.abs(env.lpv.x_i_t).max() > 1e6:
            break
        rec.hit("w" if case["w"] else "exact")


PROP = Prop(
    "C33",
    "A case is a lane-keeping environment (noise levels, attributes, frequencies, steering range), a seed, actions and jumps on "
    "or off its lanes; non-trivial when an observation after a step was compared with the exact quantities.",
    [
        Sub("measure", keep, check_keep, 300, 8000, clause="measurements within the configured noise, reference, recorded states"),
        Sub("predictor", lambda: st.builds(lambda s, a, w, k: {"env": "lane-keeping-v0", "config": {}, "seed": s, "actions": a,
                                                               "w": w, "k": k}, st.integers(0, 999),
                                           st.lists(st.lists(geo.fl(-1, 1), min_size=1, max_size=1), min_size=1, max_size=8),
                                           st.one_of(st.just(0.0), geo.fl(0, 0.3)),
                                           st.lists(geo.fl(-1, 1), min_size=4, max_size=4)), check_predictor, 60, 1500,
            clause="intervals of an attached predictor are recorded"),
    ],
    ["below a yaw rate of 6.2 rad/s", "the lanes are followed in the order other lane, sinusoidal lane"])
