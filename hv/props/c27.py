"""C27 interval arithmetic and predictors of linear parameter-varying systems."""
import copy
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from .. import geo
from ..core import Prop, Sub, require, require_close, fmt

def num(lo, hi, per=1000):
    """Evenly spread decimal numbers."""
    return st.integers(int(round(lo * per)), int(round(hi * per))).map(lambda i: i / per)


NUM = num(-10, 10)


@st.composite
def interval(draw, lo=-10, hi=10):
    """[a, b] with every sign combination likely, degenerate ones included."""
    a, b = draw(num(lo, hi)), draw(num(lo, hi))
    how = draw(st.integers(0, 9))
    if how == 0:
        b = a
    elif how == 1:
        a = 0.0
    return sorted([a, b])


def box(n, lo=-10, hi=10):
    return st.lists(interval(lo, hi), min_size=n, max_size=n)


def arr(b):
    """A list of [min, max] as an array [mins, maxs]."""
    return np.array(b, dtype=float).T


def corners(b):
    return [np.array(c) for c in itertools.product(*b)]


def inside(i, x, msg, tol=1e-9):
    s = tol * (1 + np.max(np.abs(i)))
    require(np.all(i[0] - s <= x) and np.all(x <= i[1] + s), "%s: %s is not in %s", msg, fmt(x), fmt(i))


# ------------------------------------------------------------------- operations

@st.composite
def op_case(draw):
    n, m = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return {"a": draw(interval()), "b": draw(interval()), "A": [draw(box(m)) for _ in range(n)], "x": draw(box(m)),
            "y": draw(box(m)), "k": sorted([draw(num(0.05, 5)), draw(num(0.05, 5))]), "dir": [draw(NUM), draw(NUM)], "p": draw(box(2)),
            "M": [[draw(NUM) for _ in range(m)] for _ in range(n)],
            "u": draw(st.lists(num(0, 1), min_size=16, max_size=16))}


def hull(values):
    return np.array([min(values), max(values)])


def check_ops(case, rec):
    from highway_env import interval as iv
    a, b = np.array(case["a"]), np.array(case["b"])
    both = a[0] < 0 < a[1] and b[0] < 0 < b[1]
    exact = hull([p * q for p in a for q in b])
    for order in ((a, b), (b, a), (list(a), list(b))):
        got = np.array(iv.intervals_product(*order), dtype=float)
        if both:
            inside(got, exact[0], "product of %s and %s" % (fmt(a), fmt(b)))
            inside(got, exact[1], "product of %s and %s" % (fmt(a), fmt(b)))
            worst = np.array([a[0] * b[1] + a[1] * b[0], a[0] * b[0] + a[1] * b[1]])
            inside(worst, got, "width of the product of %s and %s" % (fmt(a), fmt(b)))
        else:
            require_close(got, exact, "product of %s and %s" % (fmt(a), fmt(b)), 1e-9, 1e-9)
    rec.hit("both signs" if both else "one sign")
    # matrix times vector, exact per row when no term has both signs
    A = np.array(case["A"], dtype=float)          # n x m x 2
    x = np.array(case["x"], dtype=float)          # m x 2
    got = np.array(iv.intervals_product([A[:, :, 0], A[:, :, 1]], [x[:, 0], x[:, 1]]))
    straddle = False
    low, high = [], []
    for i in range(A.shape[0]):
        hs = []
        for j in range(A.shape[1]):
            hs.append(hull([p * q for p in A[i, j] for q in x[j]]))
            straddle = straddle or (A[i, j, 0] < 0 < A[i, j, 1] and x[j, 0] < 0 < x[j, 1])
        low.append(sum(h[0] for h in hs))
        high.append(sum(h[1] for h in hs))
    exact = np.array([low, high])
    if straddle:
        require(np.all(got[0] <= exact[0] + 1e-7) and np.all(got[1] >= exact[1] - 1e-7),
                "matrix product %s does not contain %s", fmt(got), fmt(exact))
    else:
        require_close(got, exact, "matrix interval product", 1e-8, 1e-8)
    # scaling by a known matrix
    M = np.array(case["M"])
    got = iv.intervals_scaling(M, np.array([x[:, 0], x[:, 1]]))
    want = np.array([[sum(min(M[i, j] * x[j, 0], M[i, j] * x[j, 1]) for j in range(M.shape[1]))
                      for i in range(M.shape[0])],
                     [sum(max(M[i, j] * x[j, 0], M[i, j] * x[j, 1]) for j in range(M.shape[1]))
                      for i in range(M.shape[0])]])
    require_close(got, want, "interval scaled by a matrix", 1e-8, 1e-8)
    # difference, negative part
    y = np.array(case["y"], dtype=float)
    got = iv.intervals_diff(arr(case["x"]), arr(case["y"]))
    require_close(got, np.array([x[:, 0] - y[:, 1], x[:, 1] - y[:, 0]]), "difference of intervals", 1e-9, 1e-9)
    require_close(iv.intervals_diff(a, b), hull([p - q for p in a for q in b]), "difference of %s and %s" % (a, b))
    require_close(iv.interval_negative_part(a), hull([min(v, 0) for v in a]), "negative part of %s" % fmt(a))
    # bounds of the derivative of an integrator dx = -k x
    k = np.array(case["k"])
    got = iv.integrator_interval(a, k)
    want = [min(-k[0] * a[0], -k[1] * a[0]), max(-k[0] * a[1], -k[1] * a[1])]
    require_close(got, want, "integrator of %s with gains %s" % (fmt(a), fmt(k)))
    dt = 0.9 / k[1]
    for i in range(0, 16, 2):
        xx, kk = a[0] + case["u"][i] * (a[1] - a[0]), k[0] + case["u"][i + 1] * (k[1] - k[0])
        inside(a + np.array(got) * dt, xx - kk * xx * dt, "integrator step from %s" % fmt(xx))
    # section of a box along a direction
    p, d = np.array(case["p"], dtype=float), np.array(case["dir"])
    got = iv.vector_interval_section(arr(case["p"]), d)
    require_close(got, [sum(min(d[i] * p[i, 0], d[i] * p[i, 1]) for i in range(2)),
                        sum(max(d[i] * p[i, 0], d[i] * p[i, 1]) for i in range(2))], "section of %s along %s" % (
                            fmt(p), fmt(d)))


# ------------------------------------------------------------------ frames

@st.composite
def frame_case(draw):
    return {"lane": draw(geo.straight_spec()), "pos": draw(box(2, -200, 200)), "s": draw(interval(-50, 250)),
            "r": draw(interval(-20, 20)), "u": draw(st.lists(st.tuples(num(0, 1), num(0, 1)), min_size=4,
                                                             max_size=8))}


def check_frames(case, rec):
    from highway_env import interval as iv
    m, lane = geo.Model(case["lane"]), geo.real_lane(case["lane"])
    b = case["pos"]
    longi, lat = iv.interval_absolute_to_local(arr(b), lane)
    local = np.array([m.local(c) for c in corners(b)])
    require_close(longi, hull(local[:, 0]), "longitudinal interval of %s" % b, 1e-5, 1e-6)
    require_close(lat, hull(local[:, 1]), "lateral interval of %s" % b, 1e-5, 1e-6)
    for u, w in case["u"]:
        s, r = m.local((b[0][0] + u * (b[0][1] - b[0][0]), b[1][0] + w * (b[1][1] - b[1][0])))
        inside(longi, s, "longitudinal coordinate of a point of the box", 1e-6)
        inside(lat, r, "lateral coordinate of a point of the box", 1e-6)
    got = iv.interval_local_to_absolute(np.array(case["s"]), np.array(case["r"]), lane)
    pts = np.array([m.position(s, r) for s in case["s"] for r in case["r"]])
    require_close(got, np.array([pts.min(axis=0), pts.max(axis=0)]), "absolute box of %s x %s" % (case["s"], case["r"]),
                  1e-5, 1e-6)
    rec.hit("thin" if case["s"][0] == case["s"][1] else "box")


# ------------------------------------------------------------------ polytopes

@st.composite
def poly_case(draw):
    p, n = draw(st.integers(1, 3) if draw(st.integers(0, 3)) else st.integers(4, 6)), draw(st.integers(1, 3))
    return {"box": draw(box(p)), "base": [[draw(NUM) for _ in range(n)] for _ in range(n)],
            "phi": [[[draw(NUM) for _ in range(n)] for _ in range(n)] for _ in range(p)],
            "tiny": draw(st.lists(st.sampled_from([0, 0, 1, 1e-5, 1e-8, -1e-10, -1e-8, -1e-6, -1e-4, -1e-2]), min_size=9,
                                  max_size=9))}


def check_polytope(case, rec):
    from highway_env.interval import polytope, is_metzler
    base, phi = np.array(case["base"]), np.array(case["phi"])
    f = lambda th: base + np.tensordot(th, phi, axes=[0, 0])  # noqa: E731
    bx = np.array(case["box"], dtype=float)
    a0, da = polytope(f, bx.T)
    require_close(a0, f(bx.mean(axis=1)), "centre of the polytope", 1e-8, 1e-8)
    vertices = [f(c) - f(bx.mean(axis=1)) for c in corners(case["box"])]
    for v in vertices:
        require(any(np.allclose(d, v, atol=1e-7) for d in da), "vertex %s is missing", fmt(v))
    for d in da:
        require(any(np.allclose(d, v, atol=1e-7) for v in vertices), "%s is not a vertex deviation", fmt(d))
    require(len({d.tobytes() for d in da}) == len(da), "repeated vertex deviations")
    tiny = np.array(case["tiny"])[:base.size].reshape(base.shape)
    for M in (base, base - np.diag(np.diag(base)), np.abs(base), -np.abs(base), tiny):
        n = M.shape[0]
        off = [M[i, j] for i in range(n) for j in range(n) if i != j]
        require(bool(is_metzler(M)) == all(o >= -1e-9 for o in off), "is_metzler of %s", fmt(M))
    rec.hit("%d deviations" % len(da))


# ------------------------------------------------------------------ predictors

@st.composite
def lpv_case(draw, n=None):
    n = n or draw(st.integers(1, 3))
    nu, nd = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    mat = lambda r, c, lo, hi: [[draw(num(lo, hi)) if draw(st.integers(0, 4)) else 0.0 for _ in range(c)] for _ in range(r)]  # noqa
    kind = draw(st.sampled_from(["any", "real", "metzler", "triangular"]))
    a = np.array(mat(n, n, -2, 2))
    if kind == "metzler":
        a = np.abs(a) - np.diag(np.abs(np.diag(a)) * 2)
    elif kind == "real":
        a = (a + a.T) / 2
    elif kind == "triangular":
        a = np.triu(a)
        for i in range(n):
            a[i, i] = -0.4 * (i + 1) + 0.05 * a[i, i]
    case = {"n": n, "a0": np.round(a, 4).tolist(), "da": [mat(n, n, -0.5, 0.5) for _ in range(draw(st.integers(0, 3)))] or [[[0.0] * n] * n],
            "x": draw(box(n, -5, 5)), "dt": draw(st.sampled_from([0.02, 0.1, 1 / 15, 0.25, 0.5])), "steps": draw(st.integers(1, 12)),
            "b": mat(n, nu, -2, 2), "u": mat(nu, 1, -2, 2), "d": mat(n, nd, -1, 1),
            "w": draw(box(nd, -1, 1)), "center": draw(st.one_of(st.just([0.0] * n),
                                                              st.lists(num(-5, 5), min_size=n, max_size=n),
                                                              st.lists(num(-3000, 3000), min_size=n, max_size=n))),
            "given": draw(st.sets(st.sampled_from(["b", "d", "center", "box"]))),
            "traj": draw(st.integers(0, 10 ** 6)), "mid": draw(st.sampled_from([None, 0, 1, 3])),
            "u2": mat(nu, 1, -2, 2)}
    if draw(st.integers(0, 2)) == 0:
        case["k"] = mat(nu, n, -0.5, 0.5)
        case["given"].add("b")
        case["given"].discard("center")
    case["given"] = sorted(case["given"])
    return case


def system(case):
    """The documented system, in the original coordinates."""
    n, g = case["n"], case["given"]
    b = np.array(case["b"]) if "b" in g else np.zeros((n, 1))
    u = np.array(case["u"]) if "b" in g else np.zeros((1, 1))
    k = np.array(case["k"]) if "k" in case else np.zeros((b.shape[1], n))
    d = np.array(case["d"]) if "d" in g else np.zeros((n, 1))
    w = np.array(case["w"], dtype=float) if "d" in g else np.zeros((1, 2))
    c = np.array(case["center"]) if "center" in g else np.zeros(n)
    a = np.array(case["a0"]) + b @ k
    return a, [np.array(m) for m in case["da"]], b, u, d, w, c


def check_lpv(case, rec):
    from highway_env.interval import LPV
    a, da, b, u, d, w, c = system(case)
    g, n, dt = case["given"], case["n"], case["dt"]
    bx = np.array(case["x"], dtype=float)
    x0 = bx.mean(axis=1)
    kw = {}
    if "b" in g:
        kw.update(b=case["b"], u=case["u"])
    if "k" in case:
        kw.update(k=case["k"])
    if "d" in g:
        kw.update(d=case["d"], omega_i=w.T.tolist())
    if "center" in g:
        kw.update(center=case["center"])
    if "box" in g:
        kw.update(x_i=bx.T.tolist())
    else:
        bx = np.array([x0, x0]).T
    args = {k: np.array(v, dtype=float) for k, v in dict(kw, x0=x0, a0=case["a0"]).items()}
    kept = copy.deepcopy(args)
    das = [np.array(m, dtype=float) for m in case["da"]]
    lpv = LPV(da=das, **args)

    def unmodified(when):
        require(all(np.array_equal(args[k], kept[k]) for k in args) and all(
            np.array_equal(x, y) for x, y in zip(das, case["da"])) and len(das) == len(case["da"]),
                "the arguments given to the model are modified %s", when)
    unmodified("at creation")
    if lpv.coordinates is not None:
        T = np.asarray(lpv.coordinates[0])
        if not np.all(np.isfinite(T)) or np.linalg.cond(T) > 1e4:
            rec.note("ill-conditioned")
            return
        # the transformation and its inverse, both ways, for points and boxes
        p = bx[:, 0]
        z = lpv.change_coordinates(p.copy())
        require_close(lpv.change_coordinates(z, back=True), p, "point through the coordinates and back", 1e-6, 1e-6)
        both = [p.copy(), bx[:, 1].copy()]
        for x, y in zip(lpv.change_coordinates([p.copy(), bx[:, 1].copy()]), both):
            require_close(x, lpv.change_coordinates(y), "list of points in the new coordinates", 1e-6, 1e-6)
        for x, y in zip(lpv.change_coordinates(lpv.change_coordinates([p.copy(), bx[:, 1].copy()], offset=False), back=True, offset=False), both):
            require_close(x, y, "list of vectors through the coordinates and back", 1e-6, 1e-6)
        require_close(lpv.change_coordinates(lpv.change_coordinates(a, matrix=True), matrix=True, back=True), a,
                      "matrix through the coordinates and back", 1e-6, 1e-6)
        before = bx.T.copy()
        zi = lpv.change_coordinates(before, interval=True)
        require(np.array_equal(before, bx.T), "change of coordinates modifies its argument")
        zi = np.array(zi).reshape(2, n)
        for cn in corners(bx.tolist())[:8]:
            inside(zi, lpv.change_coordinates(cn), "corner in the new coordinates", 1e-6)
        back = np.array(lpv.change_coordinates(zi, back=True, interval=True)).reshape(2, n)
        for cn in corners(bx.tolist())[:8]:
            inside(back, cn, "corner after both changes", 1e-6)
    eig = np.linalg.eigvals(a)
    off = a - np.diag(np.diag(a))
    rec.note("metzler" if (off >= 0).all() else "rotated" if lpv.coordinates is not None and not
             np.array_equal(lpv.coordinates[0], np.eye(n)) else "naive")
    # the explicit Euler step keeps the order of the bounds only for moderate time steps
    worst = np.abs(np.diag(np.asarray(lpv.a0, dtype=float))).max() + sum(np.abs(m).max() for m in lpv.da) if n else 0
    if dt * worst > 0.9:
        rec.note("step too large")
        return
    rng = np.random.RandomState(case["traj"])
    trajs = []
    for i in range(6):
        mix = rng.uniform(0, 1, n) if i else np.zeros(n) + 0.5
        if i in (1, 2):
            mix = rng.randint(0, 2, n)
        trajs.append(bx[:, 0] + mix * (bx[:, 1] - bx[:, 0]))
    nominal = x0.copy()
    uu = u
    size = 0.0
    for t in range(case["steps"]):
        if case["mid"] == t and "b" in g:
            uu = np.array(case["u2"])
            if "k" in case and t % 2:
                state = nominal.copy()
                lpv.set_control(uu.squeeze(-1)[:, None], state=state[:, None])
                uu = uu - np.array(case["k"]) @ state[:, None]
                rec.note("feedback")
            else:
                lpv.set_control(uu)
        lpv.step(dt)
        nominal = nominal + dt * (a @ (nominal - c) + (b @ uu).squeeze(-1))
        got = np.asarray(lpv.change_coordinates(np.asarray(lpv.x_t).copy(), back=True)).reshape(n)
        require_close(got, nominal, "nominal state after %d steps" % (t + 1), 1e-5, 1e-5)
        xi = np.asarray(lpv.x_i_t).reshape(2, n)
        require(np.all(np.isfinite(xi)) and np.all(xi[0] <= xi[1] + 1e-7 * (1 + np.abs(xi[1]))),
                "state interval %s after %d steps", fmt(xi), t + 1)
        back = np.asarray(lpv.change_coordinates(xi.copy(), back=True, interval=True)).reshape(2, n)
        if np.all(w[:, 0] <= 0) and np.all(w[:, 1] >= 0):
            inside(back, nominal, "nominal state after %d steps" % (t + 1), 1e-6)
        for i in range(len(trajs)):
            lam = rng.uniform(0, 1, len(da)) if i % 2 else rng.randint(0, 2, len(da))
            ww = w[:, 0] + (rng.uniform(0, 1, len(w)) if i % 3 else rng.randint(0, 2, len(w))) * (w[:, 1] - w[:, 0])
            A = a + sum(l * m for l, m in zip(lam, da))
            trajs[i] = trajs[i] + dt * (A @ (trajs[i] - c) + (b @ uu).squeeze(-1) + d @ ww)
            z = np.asarray(lpv.change_coordinates(trajs[i].copy())).reshape(n)
            inside(xi, z, "trajectory %d after %d steps, in the predictor's coordinates" % (i, t + 1), 1e-6)
            inside(back, trajs[i], "trajectory %d after %d steps" % (i, t + 1), 1e-6)
        size = max(size, float(np.max(xi[1] - xi[0])))
    unmodified("by its steps")
    if not np.any(da) and "d" not in g and "box" not in g:
        # nothing uncertain: the interval of a certain Metzler system is its trajectory
        if (off >= 0).all() and np.isreal(eig).all():
            require_close(back, np.array([nominal, nominal]), "interval of a certain system", 1e-5, 1e-5)
            rec.note("certain")
    rec.hit("interval" if size > 0 else "point")


PROP = Prop(
    "C27",
    "A case is a set of intervals and matrices, a lane with a box, a parameter box, or a linear parameter-varying system "
    "with uncertain parameters, perturbations and control; non-trivial when operations were compared or when "
    "trajectories were followed against the predictor.",
    [
        Sub("operations", op_case, check_ops, 1500, 30000, clause="interval operations against extremal values"),
        Sub("frames", frame_case, check_frames, 500, 10000, clause="boxes in the frame of a straight lane, both ways"),
        Sub("polytope", poly_case, check_polytope, 400, 8000, clause="vertices of parametrised matrices, Metzler test"),
        Sub("predictor", lpv_case, check_lpv, 900, 20000, clause="nominal state, and enclosure of trajectories under any "
            "admissible parameters and perturbations, in both coordinates"),
    ],
    ["the product of two intervals that both contain 0 in their interior is only required to contain the exact one",
     "predictors are judged when the time step preserves the order of the bounds (dt x largest rate below 0.9), and for "
     "well-conditioned eigenvector bases; state feedback is only combined with a zero centre",
     "boxes are converted to and from the frames of straight lanes only (corners do not bound curved lanes)"])
