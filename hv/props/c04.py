"""C04 copies of an environment for planning."""
import copy

from hypothesis import strategies as st

from .. import envs
from ..core import Prop, Sub, require

envs.prime()


@st.composite
def copy_case(draw, **kw):
    c = draw(envs.env_case(min_steps=2, max_steps=6, **kw))
    c["split"] = draw(st.integers(0, len(c["actions"]) - 1))
    kind, agents = envs.case_kind(c), envs.case_agents(c)
    c["other"] = draw(st.lists(envs.action_strategy(kind, agents), min_size=1, max_size=5))
    c["render"] = draw(st.integers(0, 5)) == 0
    c["depth"] = draw(st.integers(1, 2))
    if draw(st.integers(0, 4)) == 0:
        c["config"]["show_trajectories"] = True
    return c


def play(env, actions, k):
    return tuple(envs.run(env, actions[:k])), tuple(envs.run(env, actions[k:]))


def over(outcomes):
    return bool(outcomes) and (outcomes[-1][2] is True or (isinstance(outcomes[-1][2], tuple) and any(outcomes[-1][2])))


def check_copy(case, rec):
    """A copy has the same future as its original, and neither sees what the other does."""
    acts, k = envs.actions_of(case), case["split"]
    ref, _ = envs.build(case)
    first, rest = play(ref, acts, k)
    if over(first):
        return
    env, _ = envs.build(case)
    envs.run(env, acts[:k])
    if case["render"]:
        env.unwrapped.config["offscreen_rendering"] = True
        env.render("rgb_array")
    before = envs.scene(env)
    obs_before = None
    twin = env
    for _ in range(case["depth"]):
        twin = copy.deepcopy(twin)
    d = envs.first_difference(before, envs.scene(twin))
    require(d is None, "a copy does not have the state of its original: %s", d)
    d = envs.first_difference(before, envs.scene(env))
    require(d is None, "copying changed the original: %s", d)
    # a second copy plays something else first: nobody else may notice
    third = copy.deepcopy(env)
    envs.run(third, [envs.decode(a, envs.case_kind(case)) for a in case["other"]])
    require(third.unwrapped.road is not env.unwrapped.road, "the copy has the road of its original")
    d = envs.first_difference(before, envs.scene(env))
    require(d is None, "playing a copy changed the original: %s", d)
    d = envs.first_difference(before, envs.scene(twin))
    require(d is None, "playing a copy changed another copy: %s", d)
    got = tuple(envs.run(twin, acts[k:]))
    d = envs.first_difference(got, rest)
    require(d is None, "the copy does not play as its original would have: %s", d)
    d = envs.first_difference(before, envs.scene(env))
    require(d is None, "playing a copy changed the original: %s", d)
    got = tuple(envs.run(env, acts[k:]))
    d = envs.first_difference(got, rest)
    require(d is None, "after copies were played, the original does not play as it would have: %s", d)
    env.close()
    rec.hit(case["env"])
    rec.note("rendered" if case["render"] else "not rendered")
    del obs_before


def check_reset_copy(case, rec):
    """A copy can be reseeded and reset on its own, giving the same episode as a new environment, and leaves the original."""
    acts = envs.actions_of(case)
    env, _ = envs.build(case)
    envs.run(env, acts[:case["split"]])
    before = envs.scene(env)
    twin = copy.deepcopy(env)
    twin.seed(case["seed"] + 1)
    o = twin.reset()
    got = (envs.plain(o), envs.scene(twin), tuple(envs.run(twin, acts)))
    d = envs.first_difference(before, envs.scene(env))
    require(d is None, "resetting a copy changed the original: %s", d)
    fresh, o = envs.build(dict(case, seed=case["seed"] + 1))
    want = (envs.plain(o), envs.scene(fresh), tuple(envs.run(fresh, acts)))
    d = envs.first_difference(got, want)
    require(d is None, "a copy that was seeded and reset differs from a new environment: %s", d)
    rec.hit(case["env"])


PROP = Prop(
    "C04",
    "A case is an environment, actions, the moment of the copy, other actions for a second copy, and whether the "
    "original was rendered before; non-trivial when the episode was still running at the copy and both futures were "
    "compared.",
    [
        Sub("copy", copy_case, check_copy, 180, 4000, clause="same state, same future, no influence either way"),
        Sub("reset", lambda: copy_case(), check_reset_copy, 60, 1000, clause="copies can be reset on their own"),
    ],
    ["the process is put in the state left by one intersection environment (known finding of C02)"])
