"""C09 dynamical bicycle model with tire slip."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geo, kin
from ..core import Prop, Sub, require, require_close, wrap


@st.composite
def state_case(draw):
    return {"p": [draw(geo.fl(-50, 50)), draw(geo.fl(-50, 50))], "h": draw(geo.fl(-7, 7)),
            "v": draw(st.one_of(geo.fl(0, 16), geo.fl(1.001, 15), geo.fl(-0.999, 0.999))),
            "vy": draw(geo.fl(-3, 3)), "r": draw(geo.fl(-3, 3)),
            "cmds": draw(st.lists(st.tuples(geo.fl(-5, 5), st.one_of(geo.fl(-0.8, 0.8), geo.fl(-2, 2)),
                                            st.integers(1, 6)), min_size=1, max_size=5)),
            "dt": draw(st.sampled_from([1 / 30, 1 / 15, 0.05, 0.01])),
            "friction": draw(st.one_of(st.none(), st.tuples(geo.fl(1, 40), geo.fl(1, 40)))),
            "crash_at": draw(st.one_of(st.none(), st.none(), st.integers(0, 10)))}


def make(case):
    from highway_env.vehicle.dynamics import BicycleVehicle
    v = BicycleVehicle(None, list(case["p"]), case["h"], case["v"])
    v.lateral_speed, v.yaw_rate = case["vy"], case["r"]
    m = kin.Dynamic(case["p"], case["h"], case["v"], case["vy"], case["r"])
    if case["friction"]:
        # tires changed on an existing vehicle: a wet road, a worn tire
        v.FRICTION_FRONT, v.FRICTION_REAR = m.CF, m.CR = case["friction"]
    return v, m


def edgy(m):
    """The switching surface at 1 m/s; backing up faster than that, which the slip angles of the model do not cover."""
    return abs(abs(m.v) - 1) < 1e-6 or m.v < -1


def check_model(case, rec):
    v, m = make(case)
    k = 0
    for a, s, n in case["cmds"]:
        for i in range(n):
            if i == 0 or abs(m.v) + abs(a) > 15:
                v.act({"acceleration": a, "steering": s})
            if case["crash_at"] == k:
                v.crashed = True
            if edgy(m) or max(abs(m.vy), abs(m.r), abs(m.x), abs(m.y)) > 1e4:
                return  # a switching surface of the model, or its own numerical divergence
            v.step(case["dt"])
            m.step(a, s, case["dt"], v.crashed)
            k += 1
            x = np.array(v.state, dtype=float).squeeze()
            require(x.shape == (6,), "the state has 6 components, not %s", x.shape)
            require_close(x[[0, 1, 3, 4, 5]], np.array(m.state())[[0, 1, 3, 4, 5]], "state at step %d" % k, atol=1e-5,
                          rtol=1e-5)
            require(abs(wrap(x[2] - m.h)) < 1e-5, "heading %r, expected %r", x[2], m.h)
            rec.hit("slow" if abs(m.v) < 1 else "fast")
    rec.note("wreck" if v.crashed else "drive")


def check_derivative(case, rec):
    v, m = make(case)
    a, s, _ = case["cmds"][0]
    v.act({"acceleration": a, "steering": s})
    if edgy(m):
        return
    d = np.array(v.derivative, dtype=float).squeeze()
    require_close(d, m.derivative(a, s), "state derivative", atol=1e-6)
    rec.hit("slow" if abs(case["v"]) < 1 else "fast")


def own_lateral(v, F, R):
    M, A, IZ = 1.0, 2.5, kin.Dynamic.IZ
    return (np.array([[-2 * (F + R) / (M * v), -v - 2 * A * (F - R) / (M * v)],
                      [-2 * A * (F - R) / (IZ * v), -2 * (F + R) * A * A / (IZ * v)]]),
            np.array([[2 * F / M], [2 * F * A / IZ]]))


def check_linear(case, rec):
    """The linearised lateral model: matrices of the literature, first-order agreement with the tire model."""
    v, m = make(case)
    speed = case["v"]
    if abs(speed) < 1.01:
        A0, phi, B = v.lateral_lpv_structure()
        if abs(speed) < 0.99:
            require(np.all(phi == 0) and np.all(B == 0), "no tire force in the low-speed structure")
        return
    A, B = v.lateral_lpv_dynamics()
    F, R = m.CF, m.CR
    wa, wb = own_lateral(speed, F, R)
    require_close(A, wa, "lateral dynamics matrix at %r m/s" % speed)
    require_close(B, wb, "steering gain at %r m/s" % speed)
    A0, phi, B0 = v.lateral_lpv_structure()
    require_close(A0 + F * phi[0] + R * phi[1], A, "structure and dynamics agree")
    require_close(B0, B, "structure and dynamics agree on the gain")
    F0, fphi, fB = v.full_lateral_lpv_structure()
    FA, FB = v.full_lateral_lpv_dynamics()
    want = np.zeros((4, 4))
    want[0, 1], want[0, 2], want[1, 3] = speed, 1, 1
    want[2:, 2:] = wa
    require_close(FA, want, "full lateral matrix")
    require_close(FB, np.vstack([np.zeros((2, 1)), wb]), "full lateral gain")
    require_close(F0 + F * fphi[0] + R * fphi[1], FA, "full structure and dynamics agree")
    # linear derivative
    a, s, _ = case["cmds"][0]
    v.act({"acceleration": a, "steering": s})
    d = np.array(v.derivative_linear, dtype=float).squeeze()
    lat = wa @ np.array([case["vy"], case["r"]]) + wb[:, 0] * s
    full = m.derivative(a, s)
    require_close(d, full[:4] + list(lat), "derivative_linear", atol=1e-6)
    # both derivatives coincide to first order in small lateral states (positive longitudinal speed)
    if speed > 1.01:
        eps = 1e-4
        v.lateral_speed, v.yaw_rate = case["vy"] * eps, case["r"] * eps
        v.act({"acceleration": a, "steering": s * eps})
        n = np.array(v.derivative, dtype=float).squeeze()[4:]
        l = np.array(v.derivative_linear, dtype=float).squeeze()[4:]
        require(np.max(np.abs(n - l)) <= 1e-4 * eps * 1e4 * 0.01 * (1 + np.max(np.abs(lat))),
                "derivative %s and derivative_linear %s differ at first order", n / eps, l / eps)
        rec.hit("first order")
    if case["friction"]:
        rec.note("other tires")


def check_symmetry(case, rec):
    """Mirror image of the state and command: mirror image of the motion; with zero command and no slip, straight."""
    v, _ = make(case)
    mir = dict(case, p=[case["p"][0], -case["p"][1]], h=-case["h"], vy=-case["vy"], r=-case["r"])
    w, _ = make(mir)
    for a, s, n in case["cmds"]:
        for _ in range(n):
            v.act({"acceleration": a, "steering": s})
            w.act({"acceleration": a, "steering": -s})
            x = np.array(v.state, dtype=float).squeeze()
            if not np.all(np.isfinite(x)) or np.max(np.abs(x)) > 1e4 or abs(abs(x[3]) - 1) < 1e-6 \
                    or x[3] < -1:
                return
            v.step(case["dt"])
            w.step(case["dt"])
            x, y = (np.array(q.state, dtype=float).squeeze() for q in (v, w))
            require_close(y * np.array([1, -1, -1, 1, -1, -1]), x, "mirrored motion", atol=1e-5, rtol=1e-5)
    u, _ = make(dict(case, vy=0.0, r=0.0))
    u.act({"acceleration": 0, "steering": 0})
    for _ in range(20):
        u.step(case["dt"])
    if abs(case["v"]) < 15:
        d = np.array(u.position) - np.array(case["p"])
        require_close(d, 20 * case["dt"] * case["v"] * np.array([math.cos(case["h"]), math.sin(case["h"])]),
                      "straight motion", atol=1e-6)
    rec.hit()


PROP = Prop(
    "C09",
    "A case is a full state (pose, speeds, yaw rate, including low speeds), commands and a time step; "
    "non-trivial when at least one step or derivative was compared to the reference equations.",
    [
        Sub("model", state_case, check_model, 1200, 30000, clause="each step is an explicit Euler step of the tire model"),
        Sub("derivative", state_case, check_derivative, 1200, 30000, clause="the state derivative"),
        Sub("linear", state_case, check_linear, 1200, 30000, clause="linearised matrices, their affine structure and "
            "first-order agreement with the tire model"),
        Sub("symmetry", state_case, check_symmetry, 600, 12000, clause="mirror symmetry, straight motion"),
    ],
    ["the switching surface of the model (1 m/s) and backing up faster than 1 m/s, outside the domain of its slip "
     "angles, are not judged"])
