"""C28 rendering: images, grayscale observations, camera and keyboard."""
import copy
import math
import os
import pathlib
import re
import tempfile

import numpy as np
import pygame
from hypothesis import strategies as st

from .. import envs, geo, traffic
from ..core import Prop, Sub, require, require_close, wrap
from .c27 import num

RED, GREEN, BLUE, YELLOW = (255, 100, 100), (50, 200, 0), (100, 200, 255), (200, 200, 0)
GREY, WHITE = (100, 100, 100), (255, 255, 255)


def video():
    """A video driver that draws, without a screen."""
    os.environ["SDL_VIDEODRIVER"] = "offscreen"


@st.composite
def screen(draw):
    return {"screen_width": draw(st.sampled_from([600, 300, 420])), "screen_height": draw(st.sampled_from([150, 240, 400])),
            "scaling": draw(st.sampled_from([5.5, 4, 8, 12.5, 25])),
            "centering_position": [draw(num(0.2, 0.8)), draw(num(0.3, 0.7))],
            "offscreen_rendering": draw(st.booleans())}


class Camera:
    """Own projection."""

    def __init__(self, cfg, centre, zoom=1.0, shift=0.0):
        self.k = cfg["scaling"] * zoom
        self.size = (cfg["screen_width"], cfg["screen_height"])
        self.c = cfg["centering_position"]
        self.centre = centre
        self.shift = shift

    def pix(self, p):
        return ((p[0] - self.centre[0]) * self.k + (self.c[0] + self.shift) * self.size[0],
                (p[1] - self.centre[1]) * self.k + self.c[1] * self.size[1])

    def inside(self, p, margin=2):
        x, y = self.pix(p)
        return margin <= x < self.size[0] - margin and margin <= y < self.size[1] - margin

    def at(self, img, p):
        x, y = self.pix(p)
        return tuple(int(c) for c in img[int(math.floor(y)), int(math.floor(x))])


def color_of(o):
    """The documented colours."""
    names = [c.__name__ for c in type(o).__mro__]
    if "Obstacle" in names:
        return RED if o.hit else YELLOW
    if "Landmark" in names:
        return GREEN if o.hit else BLUE
    if getattr(o, "color", None):
        return tuple(o.color)
    if o.crashed:
        return RED
    if "LinearVehicle" in names:
        return YELLOW
    if "IDMVehicle" in names:
        return BLUE
    if "MDPVehicle" in names:
        return GREEN
    return YELLOW


# ------------------------------------------------------------------------- images

@st.composite
def image_case(draw):
    c = draw(traffic.lanes_scene(ego_types=("controller.MDPVehicle", "controller.MDPVehicle", "kinematics.Vehicle",
                                            "dynamics.BicycleVehicle", "controller.ControlledVehicle"), spread=45, max_bodies=7))
    for b in c["bodies"]:
        if draw(st.integers(0, 2)) == 0:
            b["dh"] = draw(num(-3.1, 3.1))
        if draw(st.integers(0, 2)) == 0:
            b["r"] = draw(num(-8, 8))
        if draw(st.integers(0, 9)) == 0:
            b["color"] = draw(st.sampled_from([[10, 20, 30], [200, 0, 150]]))
        if draw(st.integers(0, 4)) == 0:
            b["crashed"] = True
        b["hit"] = draw(st.booleans())
    c["screen"] = draw(screen())
    if draw(st.integers(0, 2)) == 0:      # an object close to the camera, turned
        ego = c["bodies"][0]
        c["screen"]["scaling"] = 25
        c["bodies"].insert(1, {"c": draw(st.sampled_from(["obstacle", "landmark"])), "l": ego["l"],
                               "x": ego["x"] + draw(num(-4, 4)), "r": draw(st.sampled_from([-4.5, -3.8, 3.8, 4.5])),
                               "dh": draw(num(-3.1, 3.1)), "v": 0, "ts": 0, "t": 0, "hit": draw(st.booleans())})
    c["lines"] = [draw(st.lists(st.integers(0, 3), min_size=2, max_size=2)) for _ in range(c["n"])]
    c["roadlen"] = [draw(num(150, 1000)) for _ in range(c["n"])]
    c["widths"] = [draw(st.one_of(st.just(4.0), num(3, 5))) for _ in range(c["n"])]
    c["turn"] = draw(st.integers(0, 3))
    return c


def image_scene(case):
    video()
    cfg = dict(case["screen"], vehicles_count=0)
    env, _ = envs.make("highway-v0", cfg, 0)
    road, made = traffic.build(case)
    for o, b in zip(made, case["bodies"]):
        o.heading = b["dh"]
        if traffic.is_object(o):
            o.hit = b["hit"]
        if "color" in b:
            o.color = tuple(b["color"])
    for i in range(case["n"]):
        l = road.network.get_lane(("a", "b", i))
        l.line_types = list(case["lines"][i])
        l.end = np.array([case["roadlen"][i], 4.0 * i])
        l.length = case["roadlen"][i]
        l.width = case["widths"][i]
    t = case["turn"] % len(road.vehicles)
    road.vehicles = road.vehicles[t:] + road.vehicles[:t]
    env.road = road
    env.vehicle = made[0]
    env.road.objects = [o for o in made if traffic.is_object(o)]
    return env, road, made


def clear_of(p, made, skip, k=1.0):
    """No other body near the point."""
    return all(o is skip or math.hypot(o.position[0] - p[0], o.position[1] - p[1]) > 4.6 * k for o in made)


def check_image(case, rec):
    """Each body is drawn at its place, with its heading, size and colour; the rest is road, with its lines."""
    env, road, made = image_scene(case)
    img = env.render("rgb_array")
    cfg = env.config
    require(img.shape == (cfg["screen_height"], cfg["screen_width"], 3) and img.dtype == np.uint8,
            "image of shape %s and type %s", img.shape, img.dtype)
    cam = Camera(cfg, made[0].position)
    px = 1 / cam.k
    n = 0
    for o, b in zip(made, case["bodies"]):
        if not cam.inside(o.position, -45):  # (bodies further out are not drawn at all)
            continue
        want = color_of(o)
        L, W = (2.0, 2.0) if traffic.is_object(o) else (5.0, 2.0)
        h = o.heading if abs(o.heading) > math.radians(2) + 1e-6 else 0.0
        if abs(abs(o.heading) - math.radians(2)) < 1e-3:
            continue
        c, s = math.cos(h), math.sin(h)
        iu, iv = L / 2 - 0.8 - 3 * px, W / 2 - 0.1 - 4 * px
        if type(o).__name__ not in ("Vehicle", "BicycleVehicle"):
            iu = L / 2 - 4.5 * px
        for u, v in ((0, 0), (iu, 0), (-iu, 0), (0, iv), (0, -iv), (iu / 2, -iv / 2), (iu, iv), (iu, -iv), (-iu, iv),
                     (-iu, -iv)):
            if iu < 0 or iv < 0:
                if (u, v) != (0, 0):
                    continue
            p = (o.position[0] + u * c - v * s, o.position[1] + u * s + v * c)
            if not cam.inside(p) or not clear_of(p, made, o):
                continue
            got = cam.at(img, p)
            require(got == want, "%s at %s heading %.2f: the point (%.1f, %.1f) of its body is %s, expected %s",
                    type(o).__name__, np.round(o.position, 2), o.heading, u, v, got, want)
            n += 1
        eu, ev = L / 2 + 3.5 * px, W / 2 + 3.5 * px
        for u, v in ((eu, 0), (-eu, 0), (0, ev), (0, -ev), (L / 2, ev), (-L / 2, -ev)):
            p = (o.position[0] + u * c - v * s, o.position[1] + u * s + v * c)
            if cam.inside(p) and clear_of(p, made, o) and want not in (GREY, WHITE):
                got = cam.at(img, p)
                require(got != want, "%s at %s heading %.2f: the point (%.1f, %.1f), out of its body, has its colour",
                        type(o).__name__, np.round(o.position, 2), o.heading, u, v)
        rec.note(type(o).__name__)
    if n:
        rec.hit("bodies")
    # lines of the road
    k = 0
    for i in range(case["n"]):
        for side in range(2):
            at = lambda j, sd: 4 * j + (sd - 0.5) * case["widths"][j]
            y = at(i, side)
            sharing = [(j, sd) for j in range(case["n"]) for sd in range(2)
                       if abs(at(j, sd) - y) < 0.4 + 3 * px and not (j == i and sd == side)]
            t = case["lines"][i][side]
            for x in np.arange(120, 290, 1.25):
                p = (x, y)
                if not cam.inside(p) or not clear_of(p, made, None):
                    continue
                on = lambda j, sd: expected_line(case["lines"][j][sd], x, case["roadlen"][j])
                marks = [on(i, side)] + [on(j, sd) if abs(at(j, sd) - y) < 1e-6 else on(j, sd) and None for j, sd in sharing]
                got = cam.at(img, p)
                near = {cam.at(img, (x, y + d * px)) for d in (-1, 0, 1)}
                if True in marks:
                    require(WHITE in near, "no line at (%.1f, %.1f), lane %d side %d of type %d: %s", x, y, i, side, t, got)
                    k += 1
                elif all(m is False for m in marks):
                    require(got == GREY, "unexpected drawing at (%.1f, %.1f), lane %d side %d of type %d: %s", x, y, i,
                            side, t, got)
                    k += 1
        for x in np.arange(150, 260, 7.3):
            p = (x, 4 * i + 0.0)
            if cam.inside(p) and clear_of(p, made, None):
                require(cam.at(img, p) == GREY, "the middle of lane %d is %s at %.1f", i, cam.at(img, p), x)
    if k:
        rec.note("lines")


def expected_line(kind, x, length):
    """True / False: a line is there or not; None: too close to an end."""
    if kind == 0:
        return False
    if kind in (2, 3):
        return True if x < length - 6 else None if x < length + 1 else False
    ph = x % 5
    if x > length - 6:
        return None if x < length + 1 else False
    if 0.4 < ph < 2.6:
        return True
    if 3.4 < ph < 4.6:
        return False
    return None


# ------------------------------------------------------- freshness and purity over histories

@st.composite
def episode_case(draw):
    c = draw(envs.env_case(ids=["highway-v0", "highway-v0", "merge-v0", "roundabout-v0", "intersection-v0", "two-way-v0",
                                "parking-v0", "summon-v0", "lane-keeping-v0", "intersection-multi-agent-v0"], min_steps=1,
                           max_steps=4, obs=False))
    c["offscreen"] = draw(st.booleans())
    c["show"] = draw(st.integers(0, 2)) == 0
    c["when"] = draw(st.lists(st.integers(0, 3), min_size=len(c["actions"]) + 1, max_size=len(c["actions"]) + 1))
    c["reset"] = draw(st.lists(st.integers(0, 2), min_size=len(c["actions"]) + 1, max_size=len(c["actions"]) + 1))
    return c


def check_fresh(case, rec):
    """At any time the image is that of the present state, and rendering changes nothing."""
    video()
    extra = {"offscreen_rendering": case["offscreen"], "show_trajectories": case["show"]}
    if case["env"].startswith(("parking", "lane")):
        extra["show_trajectories"] = case["show"]
    env, o1 = envs.build(case, **extra)
    ref, o2 = envs.build(case, **extra)
    acts = [None] + envs.actions_of(case)
    for k, a in enumerate(acts):
        if k and case["reset"][k] == 0:
            env.reset(), ref.reset()
            done = False
            rec.note("after a reset")
        elif a is not None:
            r1, r2 = env.step(a), ref.step(a)
            x, y = tuple(envs.plain(z) for z in r1), tuple(envs.plain(z) for z in r2)
            require(x == y, "after rendering, the outcome of step %d differs: %s", k, envs.first_difference(y, x))
            done = r1[2]
        else:
            done = False
        u = env.unwrapped
        if case["when"][k]:
            before = envs.scene(env)
            img = env.render("rgb_array")
            require(envs.scene(env) == before, "rendering changes the scene: %s",
                    envs.first_difference(before, envs.scene(env)))
            again = env.render("rgb_array")
            require(np.array_equal(img, again), "rendering twice gives two images")
            twin = copy.deepcopy(u)
            twin.viewer = None
            want = twin.render("rgb_array")
            require(np.array_equal(img, want), "after %d steps the image is not that of the present state (%d pixels differ)",
                    k, int((img != want).any(axis=2).sum()))
            if case["when"][k] >= 2:
                before = envs.scene(env)
                require(env.render("human") is None, "the human mode returns nothing")
                require(envs.scene(env) == before, "rendering changes the scene")
            c = u.config
            require(img.shape == (c["screen_height"], c["screen_width"], 3), "image of shape %s", img.shape)
            require(len(np.unique(img.reshape(-1, 3), axis=0)) > 1, "the image is empty")
            rec.hit(case["env"])
            if k:
                rec.note("after a step")
        if (done is True) or (isinstance(done, (tuple, list)) and any(done)):
            break
    require(envs.scene(env) == envs.scene(ref), "rendering changed the course of the episode: %s",
            envs.first_difference(envs.scene(ref), envs.scene(env)))


# ------------------------------------------------------------------ grayscale observations

@st.composite
def gray_case(draw):
    c = draw(envs.env_case(ids=["highway-v0", "highway-v0", "merge-v0", "roundabout-v0", "intersection-v0", "two-way-v0"],
                           min_steps=1, max_steps=5, obs=False, multi=False))
    w, h = draw(st.sampled_from([(600, 150), (84, 84), (100, 60), (60, 100)]))
    c["config"].update(screen_width=w, screen_height=h, offscreen_rendering=True)
    ws = draw(st.sampled_from([[0.2989, 0.5870, 0.1140], [1, 0, 0], [0, 0.5, 0.5], [0.2, 0.3, 0.4]]))
    c["config"]["observation"] = {"type": "GrayscaleObservation", "weights": ws, "stack_size": draw(st.integers(1, 5)),
                                  "observation_shape": (w, h)}
    return c


def check_gray(case, rec):
    """The observation stacks the last images, in shades of grey, the latest last."""
    video()
    case = dict(case, config=dict(case["config"]))
    oc = dict(case["config"]["observation"], observation_shape=tuple(case["config"]["observation"]["observation_shape"]))
    case["config"]["observation"] = oc
    env, obs = envs.build(case)
    w, h = oc["observation_shape"]
    n = oc["stack_size"]
    stack = [np.zeros((w, h))] * n
    kept = []
    for k, a in enumerate([None] + envs.actions_of(case)):
        done = False
        if a is not None:
            obs, _, done, _ = env.step(a)
        require(obs.shape == (w, h, n), "observation of shape %s", obs.shape)
        require(env.observation_space.contains(np.float32(obs)), "the observation is out of the declared space: [%s, %s]",
                obs.min(), obs.max())
        twin = copy.deepcopy(env.unwrapped)
        twin.viewer = None
        img = twin.render("rgb_array").astype(float)
        grey = sum(oc["weights"][c] * img[:, :, c] for c in range(3)).T
        stack = stack[1:] + [grey]
        for i in range(n):
            require_close(obs[:, :, i], stack[i], "frame %d of %d after %d steps" % (i, n, k), 1e-3)
        for o, c in kept:
            require(np.array_equal(o, c), "a former observation changed")
        kept.append((obs, obs.copy()))
        rec.hit("stack:%d" % n)
        if done:
            break


# ------------------------------------------------------------------------------ camera

@st.composite
def camera_case(draw):
    return {"screen": draw(screen()), "at": [draw(num(-500, 500)), draw(num(-100, 100))],
            "keys": draw(st.one_of(st.lists(st.sampled_from("lomkxlomk"), max_size=12),
                                   st.builds(lambda k, n: [k] * n, st.sampled_from("lomk"), st.integers(4, 12)))),
            "crashed": draw(st.booleans()), "others": draw(st.integers(0, 2)),
            "up": draw(st.booleans()),
            "pts": draw(st.lists(st.tuples(num(-80, 80), num(-80, 80)).map(list), min_size=1, max_size=6))}


def check_camera(case, rec):
    """Positions are projected around the observed vehicle, with the scale and the centre that were set by the keys."""
    import pygame
    video()
    env, _ = envs.make("highway-v0", dict(case["screen"], vehicles_count=case["others"]), 0)
    env.vehicle.position = np.array(case["at"], dtype=float)
    env.vehicle.crashed = case["crashed"]
    env.road.vehicles.reverse()
    env.render("rgb_array")
    surf = env.viewer.sim_surface
    zoom, shift = 1.0, 0.0
    keys = {"l": pygame.K_l, "o": pygame.K_o, "m": pygame.K_m, "k": pygame.K_k, "x": pygame.K_x}
    for k in case["keys"]:
        surf.handle_event(pygame.event.Event(pygame.KEYUP if case["up"] else pygame.KEYDOWN, key=keys[k]))
        if not case["up"]:
            zoom *= {"l": 1 / 1.3, "o": 1.3}.get(k, 1)
            shift += {"m": -0.1, "k": 0.1}.get(k, 0)
    env.should_update_rendering = True
    env.render("rgb_array")
    cam = Camera(case["screen"], case["at"], zoom, shift)
    for d in case["pts"]:
        p = [case["at"][0] + d[0], case["at"][1] + d[1]]
        x, y = cam.pix(p)
        got = surf.vec2pix(p)
        require(abs(got[0] - x) < 1 + 1e-6 and abs(got[1] - y) < 1 + 1e-6, "%s is projected at %s, expected (%.1f, %.1f)",
                p, got, x, y)
        require(all(isinstance(c, (int, np.integer)) for c in got), "pixels are whole numbers")
        m = 50
        inside = -m + 2 < x < cam.size[0] + m - 2 and -m + 2 < y < cam.size[1] + m - 2
        outside = x < -m - 2 or x > cam.size[0] + m + 2 or y < -m - 2 or y > cam.size[1] + m + 2
        if inside or outside:
            require(surf.is_visible(p) == inside, "%s, projected at (%.0f, %.0f): visible = %s", p, x, y, surf.is_visible(p))
        q = surf.pix(d[0])
        require(abs(q - d[0] * cam.k) <= 1 + 1e-6, "%s m is %s pixels, the scale is %s", d[0], q, cam.k)
        rec.hit("inside" if inside else "outside")
    require(env.config["centering_position"] == case["screen"]["centering_position"] and
            env.config["scaling"] == case["screen"]["scaling"], "moving the camera changes the configuration")
    if case["keys"] and not case["up"]:
        rec.note("keys")


# ------------------------------------------------------------------------------ keyboard

KEYS = ["K_UP", "K_DOWN", "K_LEFT", "K_RIGHT", "K_a"]


@st.composite
def keys_case(draw):
    kind = draw(st.sampled_from(["d", "c"]))
    lo, la = draw(st.sampled_from([(True, True), (True, False), (False, True)]))
    return {"kind": kind, "lo": lo, "la": la, "lanes": draw(st.integers(1, 4)),
            "dynamical": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6)),
            "range": draw(st.sampled_from([None, [-3.0, 4.0]])), "clip": draw(st.sampled_from([True, True, False])),
            "events": draw(st.lists(st.tuples(st.sampled_from(KEYS), st.booleans()).map(list), min_size=1, max_size=10)),
            "queue": draw(st.booleans()), "step": draw(st.integers(0, 3)) == 0}


def check_keys(case, rec):
    """Arrow keys drive the vehicle: each key has its meta-action or its command while pressed, on the enabled axes."""
    import pygame
    from highway_env.envs.common.graphics import EventHandler
    video()
    act = {"type": "DiscreteMetaAction" if case["kind"] == "d" else "ContinuousAction", "longitudinal": case["lo"],
           "lateral": case["la"]}
    if case["kind"] == "c":
        act["dynamical"] = case["dynamical"]
        if not case.get("clip", True):
            act["clip"] = False
        if case["range"]:
            act["acceleration_range"] = tuple(case["range"])
    env, _ = envs.make("highway-v0", {"action": act, "manual_control": True, "vehicles_count": 0,
                                      "lanes_count": case["lanes"], "offscreen_rendering": False}, case["seed"])
    env.render("human")
    pygame.event.clear()
    heard = []
    v = env.vehicle
    real = v.act

    def spy(action=None):
        if action is not None:
            heard.append(copy.deepcopy(action))
        return real(action)
    v.act = spy
    ar = case["range"] or [-5.0, 5.0]
    press = {"a": 0.0, "s": 0.0}
    for name, down in case["events"]:
        del heard[:]
        ev = pygame.event.Event(pygame.KEYDOWN if down else pygame.KEYUP, key=getattr(pygame, name))
        if case["queue"]:
            pygame.event.post(ev)
            env.viewer.handle_events()
        else:
            EventHandler.handle_event(env.action_type, ev)
        if case["kind"] == "d":
            want = []
            if down:
                want = {"K_RIGHT": ["FASTER"] if case["lo"] else [], "K_LEFT": ["SLOWER"] if case["lo"] else [],
                        "K_DOWN": ["LANE_RIGHT"] if case["la"] else [], "K_UP": ["LANE_LEFT"] if case["la"] else []}.get(name, [])
            require(heard == want, "%s %s: the vehicle is told %r, expected %r", name, "pressed" if down else "released",
                    heard, want)
            if want:
                rec.hit(want[0])
            continue
        if case["la"] and name in ("K_LEFT", "K_RIGHT"):
            press["s"] = (0.7 if name == "K_RIGHT" else -0.7) if down else 0.0
        if case["lo"] and name in ("K_UP", "K_DOWN"):
            press["a"] = (0.7 if name == "K_UP" else -0.7) if down else 0.0
        acc = ar[0] + (press["a"] + 1) / 2 * (ar[1] - ar[0]) if case["lo"] else 0.0
        steer = press["s"] * math.pi / 4 if case["la"] else 0.0
        require(len(heard) == 1, "%d commands for an event", len(heard))
        require_close([heard[0]["acceleration"], heard[0]["steering"]], [acc, steer], "command after %s %s" % (
            name, "pressed" if down else "released"), 1e-6)
        rec.hit("pressed" if down else "released")
    if case["step"]:
        del heard[:]
        pygame.event.clear()
        a = 0 if case["kind"] == "d" else np.ones(env.action_space.shape)
        env.step(a)
        require(all(isinstance(h, dict) and case["kind"] == "d" for h in heard) or not heard,
                "under manual control, the action of step() reaches the vehicle: %r", heard)
        rec.note("step")


# ------------------------------------------------------------------------ agent's plan on screen

@st.composite
def plan_case(draw):
    lo, la = draw(st.sampled_from([(True, True), (True, False), (False, True)]))
    n = 5 if lo and la else 3
    return {"lo": lo, "la": la, "lanes": draw(st.integers(2, 4)), "seed": draw(st.integers(0, 10 ** 6)),
            "plan": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4)),
            "pf": draw(st.sampled_from([1, 1, 2, 5])), "sf": draw(st.sampled_from([15, 15, 20, 30])),
            "display": draw(st.booleans()), "wide": draw(st.booleans()), "off": draw(st.booleans()),
            "agent": draw(st.booleans()), "wreck": draw(st.integers(0, 3)) == 0}


def check_plan(case, rec):
    """The plan of an agent is drawn where the vehicle will be; the agent's own display is beside or below the scene."""
    video()
    act = {"type": "DiscreteMetaAction", "longitudinal": case["lo"], "lateral": case["la"]}
    labels = (["LANE_LEFT", "IDLE", "LANE_RIGHT", "FASTER", "SLOWER"] if case["lo"] and case["la"] else
              ["SLOWER", "IDLE", "FASTER"] if case["lo"] else ["LANE_LEFT", "IDLE", "LANE_RIGHT"])
    size = (600, 150) if case["wide"] else (300, 400)
    cfg = {"action": act, "vehicles_count": 0, "lanes_count": case["lanes"], "offscreen_rendering": case["off"],
           "screen_width": size[0], "screen_height": size[1], "render_agent": case["agent"],
           "policy_frequency": case["pf"], "simulation_frequency": case["sf"]}
    env, _ = envs.make("highway-v0", cfg, case["seed"])
    env.vehicle.crashed = case["wreck"]
    blank = env.render("rgb_array").copy()
    before = envs.scene(env)
    env.viewer.set_agent_action_sequence(list(case["plan"]))
    require(envs.scene(env) == before, "showing a plan changes the scene")
    states = env.viewer.vehicle_trajectory
    if len(case["plan"]) > 1:
        want = env.vehicle.predict_trajectory([labels[a] for a in case["plan"]], 1 / case["pf"], 1 / 3 / case["pf"],
                                              1 / case["sf"])
        require(len(states) == len(want), "%d states are shown for %d actions", len(states),
                len(case["plan"]))
        for a, b in zip(states, want):
            require_close(a.position, b.position, "state shown for the plan %r" % [labels[x] for x in case["plan"]], 1e-6)
        img = env.render("rgb_array")
        cam = Camera(env.config, env.vehicle.position)
        for s in states:
            if cam.inside(s.position, 6):
                require(cam.at(img, s.position) != cam.at(blank, s.position) or
                        np.linalg.norm(s.position - env.vehicle.position) < 6,
                        "nothing is drawn at the planned place %s", s.position)
                rec.hit("plan drawn")
    else:
        require(not states, "a single action is not a plan")
    if case["display"]:
        calls = []

        def agent_display(agent_surface, sim_surface):
            agent_surface.fill((1, 2, 3))
            calls.append((agent_surface.get_size(), sim_surface is env.viewer.sim_surface))
        env.viewer.set_agent_display(agent_display)
        env.should_update_rendering = True
        img = env.render("rgb_array")
        require(calls and calls[-1] == (size, True), "the agent's display is called with %r", calls[-1:])
        if case["agent"] and not case["off"]:
            w, h = size
            want = (2 * h, w, 3) if w > h else (h, 2 * w, 3)
            require(img.shape == want, "image of shape %s with the agent's display, expected %s", img.shape, want)
            part = img[h:, :, :] if w > h else img[:, w:, :]
            require((part == np.array([1, 2, 3])).all(), "the agent's display is not drawn beside the scene")
        else:
            require(img.shape == (size[1], size[0], 3), "image of shape %s", img.shape)
        rec.hit("agent display")


# ------------------------------------------------------------------------ frames of an ongoing action

def check_frames(case, rec):
    """Once rendered, every simulation step of the following action is too: by the callback if any, else saved when asked."""
    video()
    env, _ = envs.build(case, offscreen_rendering=case["offscreen"])
    u = env.unwrapped
    c = u.config
    n = int(c["simulation_frequency"] // c["policy_frequency"])
    for k, a in enumerate(envs.actions_of(case)):
        u.render("rgb_array")
        got = []
        with tempfile.TemporaryDirectory() as d:
            if case["when"][k + 1] % 2:
                def frame():
                    got.append((u.render("rgb_array").copy(), copy.deepcopy(u)))
                u.automatic_rendering_callback = frame
            else:
                u.automatic_rendering_callback = None
                u.viewer.directory, u.viewer.SAVE_IMAGES, first = pathlib.Path(d), True, u.viewer.frame
            done = env.step(a)[2]
            if not case["when"][k + 1] % 2:
                u.viewer.SAVE_IMAGES = False
                files = sorted(os.listdir(d), key=lambda f: int(re.findall(r"([0-9]+)", f)[-1]))
                got = [(np.moveaxis(pygame.surfarray.array3d(pygame.image.load(os.path.join(d, f))), 0, 1), None) for f in files]
                require([int(re.findall(r"([0-9]+)", f)[-1]) for f in files] == list(range(first, first + len(files))),
                        "the saved frames are numbered %s, from %d", files, first)
        over = (done is True) or (isinstance(done, (tuple, list)) and any(done))
        if over:
            require(1 <= len(got) <= n, "%d frames were rendered during the last action of %d simulation steps", len(got), n)
        else:
            require(len(got) == n, "%d frames were rendered during an action of %d simulation steps", len(got), n)
        for i, (img, then) in enumerate(got):
            if then is not None:
                require(then.time - got[0][1].time == i, "frame %d was rendered at time %d, the first at %d", i, then.time, got[0][1].time)
                require(np.array_equal(img, then.render("rgb_array")), "frame %d is not the image of the scene at that time", i)
        if got[-1][1] is None:
            flow = case["env"].startswith("inter")  # (vehicles enter and leave at the end of the step)
            require(flow or np.array_equal(got[-1][0], u.render("rgb_array")), "the last saved frame is not the image of the present scene")
            rec.hit("saved")
        else:
            require(got[-1][1].time == u.time, "the last frame was rendered before the end of the action")
            rec.hit("callback")
        if over:
            break


# ------------------------------------------------------------------------ lines of real roads, trails

@st.composite
def lines_case(draw):
    env = draw(st.sampled_from(["merge-v0", "roundabout-v0", "intersection-v0", "parking-v0", "summon-v0", "lane-keeping-v0",
                                "two-way-v0", "highway-v0"]))
    return {"env": env, "at": draw(st.tuples(num(0, 1), num(0, 1)).map(list)), "lane": draw(num(0, 1)),
            "scaling": draw(st.sampled_from([4, 5.5, 7, 10])), "size": draw(st.sampled_from([[600, 600], [400, 500], [600, 150]]))}


def check_lines(case, rec):
    """Around any place of any environment's roads, their lines are drawn along the border of their lanes."""
    video()
    env, _ = envs.make(case["env"], {"screen_width": case["size"][0], "screen_height": case["size"][1],
                                     "scaling": case["scaling"], "centering_position": [0.5, 0.5],
                                     "offscreen_rendering": True}, 0)
    env = env.unwrapped
    env.road.vehicles, env.road.objects = [], []
    lanes = env.road.network.lanes_list()
    l0 = lanes[int(case["lane"] * (len(lanes) - 1e-9))]
    env.vehicle.position = np.array(l0.position(case["at"][0] * l0.length, (case["at"][1] - 0.5) * 10))
    img = env.render("rgb_array")
    cam = Camera(env.config, env.vehicle.position)
    white = (img == 255).all(axis=2)
    tol = 2
    n = 0
    for l in lanes:
        curved = type(l).__name__ != "StraightLane"
        end = math.floor(l.length / 5) * 5 + (5 if l.length % 5 > 1.6 else 0)
        for side in range(2):
            t = l.line_types[side]
            if t == 0 or (t == 3 and curved):
                continue
            for s in np.arange(0.6, min(end, l.length) - 0.5, 1.7):
                if t == 1 and not (0.4 < s % 5 < 2.6 and s // 5 * 5 + 3 <= l.length):
                    continue
                p = l.position(s, (side - 0.5) * l.width)
                if not cam.inside(p, 4):
                    continue
                x, y = (int(math.floor(c)) for c in cam.pix(p))
                require(white[y - tol:y + tol + 1, x - tol:x + tol + 1].any(), "%s: no line at %s, side %d of a lane of "
                        "type %s at %.1f of %.1f m, line type %d", case["env"], np.round(p, 1), side, type(l).__name__, s,
                        l.length, t)
                n += 1
    # and nowhere else
    pts = []
    for l in lanes:
        for s in np.arange(2, l.length - 2, 6.1):
            p = l.position(s, 0)
            if cam.inside(p, 4):
                pts.append(p)
    for p in pts:
        d = 9.0
        for l in lanes:
            s, r = l.local_coordinates(np.array(p))
            if -2 < s < l.length + 2:
                d = min(d, *(abs(r - (sd - 0.5) * l.width) for sd in range(2) if l.line_types[sd] != 0), 9.0)
        if d > 1.2:
            x, y = (int(math.floor(c)) for c in cam.pix(p))
            require(tuple(img[y, x]) == GREY, "%s: something is drawn at %s, %.1f m from any line", case["env"],
                    np.round(p, 1), d)
            n += 1
    if n:
        rec.hit(case["env"])


@st.composite
def trail_case(draw):
    return {"f": draw(st.sampled_from([15, 15, 10, 20, 30])), "v": draw(num(20, 35)), "n": draw(st.integers(1, 40)),
            "seed": draw(st.integers(0, 99)), "crashed": draw(st.integers(0, 4)) == 0}


def check_trail(case, rec):
    """With trajectories shown, the last two seconds of each vehicle are drawn, three per second, as far as they are recorded."""
    video()
    env, _ = envs.make("highway-v0", {"vehicles_count": 0, "show_trajectories": True, "simulation_frequency": case["f"],
                                      "screen_width": 900, "centering_position": [0.8, 0.5], "scaling": 8,
                                      "offscreen_rendering": True}, case["seed"])
    v = env.vehicle
    v.speed = v.target_speed = case["v"]
    past = []
    for _ in range(case["n"]):
        env.road.act()
        env.road.step(1 / case["f"])
        past.insert(0, v.position.copy())
    if case["crashed"]:
        v.crashed = True
    env.should_update_rendering = True
    img = env.render("rgb_array").copy()
    kept = [w.history for w in env.road.vehicles]
    env.road.record_history = False
    env.should_update_rendering = True
    bare = env.render("rgb_array")
    cam = Camera(env.config, v.position)
    gap = case["f"] // 3
    shown = past[:30][:2 * case["f"]][::gap]
    for p in shown:
        if cam.inside(p, 5) and np.linalg.norm(p - v.position) > 6:
            require(cam.at(img, p) != cam.at(bare, p), "nothing is drawn at %s, where the vehicle was %.2f s ago", p,
                    [np.array_equal(p, q) for q in past].index(True) / case["f"])
            rec.hit("trail")
    for p in past:
        q = p + np.array([0.0, 0.3])
        if cam.inside(q, 5) and np.linalg.norm(q - v.position) > 6 and all(np.linalg.norm(q - r) > 4.5 for r in shown):
            require(cam.at(img, q) == cam.at(bare, q), "something is drawn at %s, between the places of the trail", q)
            rec.note("between")
    require(len(kept) == 1, "vehicles appeared")


PROP = Prop("C28", "a body or line is looked up in an image, an image is compared after a step or a reset, a frame stack "
                   "is compared, a point is projected, a key event is handled, a plan is drawn", [
    Sub("image", image_case, check_image, 400, 8000,
        clause="bodies and lane lines are drawn at their place, with heading, size and documented colour"),
    Sub("fresh", episode_case, check_fresh, 150, 3000,
        clause="the image is that of the present state; rendering has no effect on the episode"),
    Sub("grayscale", gray_case, check_gray, 80, 1500,
        clause="grayscale observations stack the weighted images, latest last"),
    Sub("camera", camera_case, check_camera, 250, 5000,
        clause="positions are projected around the vehicle with the current zoom and offset"),
    Sub("keys", keys_case, check_keys, 300, 6000,
        clause="keys give the documented actions, on enabled axes only, in manual control"),
    Sub("frames", episode_case, check_frames, 50, 1200,
        clause="each simulation step of an action is rendered, by the callback if any, and saved when asked"),
    Sub("lines", lines_case, check_lines, 120, 3000,
        clause="the lines of all roads are drawn along the borders of their lanes, and nothing far from them"),
    Sub("trail", trail_case, check_trail, 60, 1500,
        clause="shown trajectories: the last two seconds of each vehicle, three positions per second"),
    Sub("plan", plan_case, check_plan, 100, 2000,
        clause="the planned trajectory and the agent's display are drawn"),
], ["SDL's offscreen video driver stands for a screen", "bodies headed within two degrees of the x axis are drawn along it"])
