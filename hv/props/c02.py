"""C02 isolation of environment instances."""
import copy
import json
import subprocess
import sys

from hypothesis import strategies as st

from .. import boot, envs
from ..core import HarnessError, Prop, Sub, Violation, require

envs.prime()


def play_alone(case):
    env, obs = envs.build(case)
    return (envs.plain(obs), envs.scene(env)), envs.run(env, envs.actions_of(case))


@st.composite
def interleaving(draw):
    cases = [draw(envs.env_case(max_steps=5)) for _ in range(draw(st.integers(2, 3)))]
    if draw(st.booleans()):
        cases[1] = dict(draw(envs.env_case(ids=[cases[0]["env"]], max_steps=5)))
    return {"cases": cases, "order": draw(st.lists(st.integers(0, len(cases) - 1), min_size=4, max_size=16)),
            "resets": draw(st.lists(st.integers(0, 15), max_size=2))}


def check_interleave(case, rec):
    """Each environment of an interleaved history behaves as if it were alone."""
    cases = case["cases"]
    alone = [play_alone(c) for c in cases]
    made = [envs.build(c) for c in cases]
    todo = []
    for c, (env, obs), (start, _) in zip(cases, made, alone):
        todo.append(list(envs.actions_of(c)))
        d = envs.first_difference((envs.plain(obs), envs.scene(env)), start)
        # the other environments were created after this observation, only the scene is taken after them
        require(d is None, "the initial state of %s changed with other environments around: %s", c["env"], d)
    done = [0] * len(cases)
    for k in list(case["order"]) + [i for i in range(len(cases)) for _ in todo[i]]:
        if k >= len(cases) or done[k] >= len(alone[k][1]):
            continue
        env = made[k][0]
        got = envs.run(env, [todo[k][done[k]]])[0]
        d = envs.first_difference(got, alone[k][1][done[k]])
        require(d is None, "step %d of %s (environment %d of %d) differs from the same environment alone: %s", done[k],
                cases[k]["env"], k, len(cases), d)
        done[k] += 1
    if sum(1 for x in done if x) > 1:
        rec.hit("same id" if len({c["env"] for c in cases}) < len(cases) else "different ids")


def poke(c):
    for x in c.values() if isinstance(c, dict) else c:
        if isinstance(x, (dict, list)):
            poke(x)
            x.update(poked=1) if isinstance(x, dict) else x.append("poked")


@st.composite
def config_case(draw):
    c = draw(envs.env_case(max_steps=2))
    c["again"] = draw(envs.env_case(ids=[c["env"]], max_steps=2))["config"]
    return c


def check_config(case, rec):
    """Using an environment changes neither the configuration given by the user nor the defaults of its class."""
    given = copy.deepcopy(case["config"])
    cls = envs.env_class(case["env"])
    has_default = hasattr(cls, "default_config")
    before = copy.deepcopy(cls.default_config()) if has_default else None
    fresh = copy.deepcopy(cls().unwrapped.config)
    wrapped = not has_default
    env = cls() if case["env"].endswith("ActionRepeat-v0") or wrapped else cls(given)
    env.unwrapped.configure(given)
    env.seed(case["seed"])
    env.reset()
    envs.run(env, envs.actions_of(case))
    env.reset()
    require(given == case["config"], "the configuration given by the user became %s (was %s)", given, case["config"])
    # another configuration replaces entries of the former one, and touches neither dictionary
    again, now = copy.deepcopy(case.get("again", {})), copy.deepcopy(env.unwrapped.config)
    env.unwrapped.configure(again)
    now.update(copy.deepcopy(again))
    require(env.unwrapped.config == now, "configured again with %s, the entries are %s", again,
            {k: v for k, v in env.unwrapped.config.items() if now.get(k, "?") != v})
    require(given == case["config"], "configuring again changed the first configuration to %s (was %s)", given, case["config"])
    require(again == case.get("again", {}), "the second configuration given by the user became %s", again)
    if has_default:
        require(cls.default_config() == before, "the default configuration of %s changed", case["env"])
    other = cls().unwrapped.config
    require(other == fresh, "a new default %s starts with another configuration: %s", case["env"],
            {k: v for k, v in other.items() if fresh.get(k, "?") != v})
    # the user's dictionary is not read again either: editing it later does not reconfigure a running environment
    frozen = copy.deepcopy(env.unwrapped.config)
    given["duration"] = 12345
    given["simulation_frequency"] = 1
    require(env.unwrapped.config == frozen, "editing the given dictionary reconfigured the environment")
    # entries of the instance's configuration that the user did not give belong to this instance only
    poke({k: v for k, v in env.unwrapped.config.items() if k not in given})
    other = cls().unwrapped.config
    require(other == fresh, "reconfiguring an instance of %s reconfigured the next ones: %s", case["env"],
            {k: v for k, v in other.items() if fresh.get(k, "?") != v})
    rec.hit(case["env"])


VICTIMS = ["highway-v0", "merge-v0", "roundabout-v0", "two-way-v0", "parking-v0", "summon-v0", "lane-keeping-v0"]


class Server:
    proc = None

    @classmethod
    def ask(cls, job):
        if cls.proc is None or cls.proc.poll() is not None:
            cls.proc = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "hv.polluter"], cwd=boot.HERE,
                                        env=boot.child_env(), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                        stderr=subprocess.DEVNULL, text=True)
        cls.proc.stdin.write(json.dumps(job) + "\n")
        cls.proc.stdin.flush()
        line = cls.proc.stdout.readline()
        if not line:
            raise HarnessError("the server of fresh processes ended (rc %s)" % cls.proc.poll())
        res = json.loads(line)
        if "harness" in res or "died" in res:
            raise HarnessError(res.get("harness", "a fresh process died"))
        if "error" in res:
            raise Violation("a rollout failed: %s" % res["error"])
        return res["diff"]


def victims(seed):
    out = []
    for i, e in enumerate(VICTIMS):
        kind = envs.kind_of(envs.DEFAULT_ACTION[e])
        a = 1 if kind[0] == "d" else [0.3] * kind[1]
        out.append({"env": e, "config": {"vehicles_count": 8} if e == "highway-v0" else {}, "seed": seed + i,
                    "actions": [a] * 6})
    return out


def check_pollution(case, rec):
    """Rollouts of a fresh process are the same after other environments were used in it."""
    used = []
    for e in case["polluters"]:
        if isinstance(e, dict):
            used.append(e)
            continue
        kind = envs.kind_of(envs.DEFAULT_ACTION[e])

        def idle(k):
            return 1 if k[0] == "d" else [0.2] * k[1] if k[0] == "c" else [idle(k[1])] * 2
        used.append({"env": e, "config": {}, "seed": case["seed"], "actions": [idle(kind)] * 3})
    diff = Server.ask({"kind": "pollution", "victims": case.get("victims") or victims(case["seed"]),
                       "restore": case["restore"], "polluters": used})
    require(diff is None, "after using %s, a rollout differs from the same one alone: %s", [u["env"] for u in used], diff)
    rec.hit("same id" if {u["env"] for u in used} & {v["env"] for v in case.get("victims", [])} else None)
    for u in used:
        rec.note("used " + u["env"])


def check_fresh(case, rec):
    """Environments mixed in one fresh process behave as each does alone in a fresh process."""
    diff = Server.ask(dict(case, kind="mixed"))
    require(diff is None, "differs from the same environment alone in its process: %s", diff)
    rec.hit("same id" if len({c["env"] for c in case["cases"]}) < len(case["cases"]) else "different ids")


def polluters():
    """The class-level parameters written by intersection environments (known finding) are put back in between."""
    return st.builds(lambda p, s: {"polluters": p, "seed": s, "restore": True},
                     st.one_of(st.lists(st.sampled_from(envs.ALL_IDS), min_size=1, max_size=3),
                               st.permutations([e for e in envs.ALL_IDS if e != "highway-v0"])),
                     st.integers(0, 1000))


@st.composite
def configured(draw):
    """Any configured environments, among them a pair of the same id, before any others."""
    first = [draw(envs.env_case(max_steps=3)) for _ in range(draw(st.integers(1, 3)))]
    last = [draw(envs.env_case(max_steps=3)) for _ in range(draw(st.integers(0, 1)))]
    last.append(draw(envs.env_case(ids=[first[0]["env"]], max_steps=3)))
    return {"polluters": first, "victims": last, "seed": 0, "restore": True}


PROP = Prop(
    "C02",
    "A case is two or three environments with an interleaving of their steps, one environment with a configuration, or "
    "environments used in a fresh process before others; non-trivial when at least two "
    "environments were stepped, or the rollouts were compared.",
    [
        Sub("interleave", interleaving, check_interleave, 70, 2000,
            clause="interleaved environments behave as if each were alone"),
        Sub("fresh", interleaving, check_fresh, 70, 2000,
            clause="the same, each alone in its own process"),
        Sub("config", config_case, check_config, 120, 2000,
            clause="the user's configuration and the class defaults are left alone"),
        Sub("pollution", polluters, check_pollution, 8, 120, shards=8,
            clause="using one environment changes nothing for default ones created later"),
        Sub("configured", configured, check_pollution, 80, 2000,
            clause="using any configured environment changes nothing for configured ones created later"),
    ],
    ["intersection environments write three car-following parameters on the class of their traffic (known finding): the "
     "interleavings run after one was created, and the fresh-process comparisons put these three back"])
