"""C13 collision geometry."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geo
from ..core import Prop, Sub, require

TOL = 1e-6


@st.composite
def rect(draw):
    return [[draw(geo.fl(-50, 50)), draw(geo.fl(-50, 50))], draw(geo.fl(0.2, 20)), draw(geo.fl(0.2, 20)),
            draw(st.one_of(st.sampled_from([0, math.pi / 2, math.pi, -math.pi / 4]), geo.fl(-7, 7)))]


@st.composite
def rect_pair(draw):
    """The second rectangle is placed relative to the first, most often near contact or crossing it."""
    a = draw(rect())
    (x, y), l1, w1, t1 = a
    mode = draw(st.sampled_from(["near", "near", "cross", "inside", "any"]))
    if mode == "any":
        b = draw(rect())
    elif mode == "cross":  # a plus sign: no corner of one is inside the other
        big, small = draw(geo.fl(6, 20)), draw(geo.fl(0.3, 2))
        a = [[x, y], big, small, t1]
        b = [[x + draw(geo.fl(-2, 2)), y + draw(geo.fl(-2, 2))], draw(geo.fl(6, 20)), draw(geo.fl(0.3, 2)),
             t1 + math.pi / 2 + draw(geo.fl(-0.6, 0.6))]
    elif mode == "inside":
        b = [[x + draw(geo.fl(-0.2, 0.2)), y + draw(geo.fl(-0.2, 0.2))], l1 * draw(geo.fl(0.1, 0.6)),
             w1 * draw(geo.fl(0.1, 0.6)), draw(geo.fl(-7, 7))]
    else:
        l2, w2, t2 = draw(geo.fl(0.2, 20)), draw(geo.fl(0.2, 20)), draw(geo.fl(-7, 7))
        d = draw(geo.fl(-7, 7))
        reach = draw(geo.fl(0.2, 1.1)) * (math.hypot(l1, w1) + math.hypot(l2, w2)) / 2
        b = [[x + reach * math.cos(d), y + reach * math.sin(d)], l2, w2, t2]
    return {"a": a, "b": b, "shift": [draw(geo.fl(-100, 100)), draw(geo.fl(-100, 100))], "turn": draw(geo.fl(-4, 4))}


def tup(r):
    return (np.array(r[0], dtype=float), r[1], r[2], r[3])


def move(r, shift, turn):
    c, s = math.cos(turn), math.sin(turn)
    x, y = r[0]
    return [[x * c - y * s + shift[0], x * s + y * c + shift[1]], r[1], r[2], r[3] + turn]


def check_rects(case, rec):
    from highway_env.utils import rotated_rectangles_intersect as inter
    a, b = case["a"], case["b"]
    gap = geo.separation(geo.corners(*a), geo.corners(*b))
    if abs(gap) < TOL:
        return
    want = gap < 0
    for p, q, what in ((a, b, ""), (b, a, " (swapped)"),
                       (move(a, case["shift"], case["turn"]), move(b, case["shift"], case["turn"]), " (moved)"),
                       ([a[0], a[1], a[2], a[3] + math.pi], b, " (turned by pi)"),
                       ([a[0], a[2], a[1], a[3] + math.pi / 2], b, " (length and width swapped, turned)")):
        require(bool(inter(tup(p), tup(q))) == want, "rectangles %s and %s%s: intersect should be %s (gap %.6f)", p, q,
                what, want, gap)
    own_corner = any(geo.separation(geo.corners(*b), [c]) < 0 for c in geo.corners(*a)) or \
        any(geo.separation(geo.corners(*a), [c]) < 0 for c in geo.corners(*b))
    rec.hit("crossing without corners" if want and not own_corner else "overlap" if want else "apart")


def in_rect(p, r):
    dx, dy = p[0] - r[0][0], p[1] - r[0][1]
    c, s = math.cos(r[3]), math.sin(r[3])
    u, v = dx * c + dy * s, -dx * s + dy * c
    return u, v


@st.composite
def point_case(draw):
    r = draw(rect())
    u, v = draw(geo.fl(-1.5, 1.5)) * r[1] / 2, draw(geo.fl(-1.5, 1.5)) * r[2] / 2
    c, s = math.cos(r[3]), math.sin(r[3])
    return {"r": r, "p": [r[0][0] + u * c - v * s, r[0][1] + u * s + v * c], "b": draw(rect())}


def check_points(case, rec):
    from highway_env import utils
    r, p = case["r"], case["p"]
    u, v = in_rect(p, r)
    gap = max(abs(u) - r[1] / 2, abs(v) - r[2] / 2)
    if abs(gap) > TOL:
        require(bool(utils.point_in_rotated_rectangle(np.array(p), np.array(r[0]), r[1], r[2], r[3])) == (gap < 0),
                "point_in_rotated_rectangle(%s, %s): expected %s", p, r, gap < 0)
        rec.hit("in" if gap < 0 else "out")
        lo, hi = (r[0][0] - r[1] / 2, r[0][1] - r[2] / 2), (r[0][0] + r[1] / 2, r[0][1] + r[2] / 2)
        g2 = max(lo[0] - p[0], p[0] - hi[0], lo[1] - p[1], p[1] - hi[1])
        if abs(g2) > TOL:
            require(bool(utils.point_in_rectangle(p, lo, hi)) == (g2 < 0), "point_in_rectangle(%s, %s, %s)", p, lo, hi)
    q = (u / r[1]) ** 2 + (v / r[2]) ** 2  # length and width are the semi-axes
    if abs(q - 1) > TOL:
        require(bool(utils.point_in_ellipse(np.array(p), np.array(r[0]), r[3], r[1], r[2])) == (q < 1),
                "point_in_ellipse(%s, %s): expected %s", p, r, q < 1)
    # corners, edge midpoints and centre of b with respect to r
    b = case["b"]
    pts = geo.corners(*b) + [tuple((np.array(x) + np.array(y)) / 2) for x, y in
                             zip(geo.corners(*b), geo.corners(*b)[1:] + geo.corners(*b)[:1])] + [tuple(b[0])]
    gaps = [max(abs(a) - r[1] / 2, abs(c) - r[2] / 2) for a, c in (in_rect(x, r) for x in pts)]
    if min(abs(g) for g in gaps) > TOL:
        require(bool(utils.has_corner_inside(tup(b), tup(r))) == (min(gaps) < 0), "has_corner_inside(%s, %s)", b, r)


# --------------------------------------------------------------- vehicles

@st.composite
def bodies(draw):
    kind = draw(st.sampled_from(["vehicle", "vehicle", "obstacle", "landmark", "bicycle"]))
    x, y, h = draw(geo.fl(-50, 50)), draw(geo.fl(-50, 50)), draw(geo.fl(-7, 7))
    near = draw(st.booleans())
    d, r = draw(geo.fl(-7, 7)), draw(geo.fl(0.5, 5.2) if near else geo.fl(0, 12))
    return {"kind": kind, "a": [[x, y], h], "b": [[x + r * math.cos(d), y + r * math.sin(d)], draw(geo.fl(-7, 7))],
            "va": draw(geo.fl(-30, 30)), "vb": draw(geo.fl(-30, 30)), "enabled": draw(st.integers(0, 9)) != 0}


def check_bodies(case, rec):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.dynamics import BicycleVehicle
    from highway_env.road.objects import Obstacle, Landmark
    (pa, ha), (pb, hb) = case["a"], case["b"]
    for flip in (False, True):
        a = Vehicle(None, list(pa), ha, case["va"])
        kind = case["kind"]
        if kind in ("vehicle", "bicycle"):
            b = (Vehicle if kind == "vehicle" else BicycleVehicle)(None, list(pb), hb, case["vb"])
            lb, wb = geo.VEH_L, geo.VEH_W
        else:
            b = (Obstacle if kind == "obstacle" else Landmark)(None, list(pb), heading=hb)
            lb = wb = 2.0
        gap = geo.body_gap((pa, ha), (pb, hb), lb=lb, wb=wb)
        if abs(gap) < TOL:
            return
        if not case["enabled"]:
            a.COLLISIONS_ENABLED = False
        if flip:
            if kind not in ("vehicle", "bicycle"):
                break
            b.check_collision(a)
        else:
            a.check_collision(b)
        want = gap < 0
        if kind in ("vehicle", "bicycle", "obstacle"):
            want_crash = want and case["enabled"]
            require(bool(a.crashed) == want_crash, "%s at %s, %s at %s: crashed should be %s (gap %.6f)", "vehicle",
                    case["a"], kind, case["b"], want_crash, gap)
            require(bool(b.crashed if kind != "obstacle" else b.hit) == want_crash, "the other body should %sbe hit",
                    "" if want_crash else "not ")
        else:
            require(not a.crashed, "a landmark made the vehicle crash")
            require(bool(b.hit) == want, "landmark hit should be %s (gap %.6f): %s", want, gap, case)
        rec.hit(("contact " if want else "apart ") + kind)


def check_apart_or_meet(case, rec):
    """No vehicle drives through another: at the physical speeds of the simulation, the step in which boxes overlap
    is never skipped for head-on bodies sampled densely along a straight approach."""
    from highway_env.vehicle.kinematics import Vehicle
    a = Vehicle(None, [0, 0], 0, case["va"])
    b = Vehicle(None, [case["gap"], case["lat"]], case["h"], 0)
    dt = 1 / 15
    overlap_seen = False
    for _ in range(int(60 / case["va"] / dt)):
        if a.position[0] > case["gap"] + 8 or a.crashed:
            break
        g = geo.body_gap((a.position, a.heading), (b.position, b.heading))
        if abs(g) < TOL:
            return
        overlap_seen = overlap_seen or g < 0
        a.check_collision(b)
        require(bool(a.crashed) == (g < 0), "at %s: crashed %s, gap %.5f", a.position, a.crashed, g)
        if a.crashed:
            break
        a.step(dt)
    lateral_free = abs(case["lat"]) > 4.5
    if abs(case["lat"]) < 0.9 and case["va"] * dt < 4.0:
        require(overlap_seen, "drove through a vehicle on its way: %s", case)
        rec.hit("hits")
    elif lateral_free:
        require(not overlap_seen, "collision with a vehicle %.2f m aside", case["lat"])
        rec.hit("passes")


PROP = Prop(
    "C13",
    "A case is a pair of rectangles (any pose and size; half of them near contact, a fifth crossing like a plus sign), "
    "a point, or two bodies on the road; non-trivial when the signed gap is not within 1e-6 of contact.",
    [
        Sub("rects", rect_pair, check_rects, 3000, 90000, clause="intersection of rotated rectangles is exact, "
            "symmetric and invariant under rigid motions"),
        Sub("points", point_case, check_points, 2000, 50000, clause="points and corners in rectangles and ellipses"),
        Sub("bodies", bodies, check_bodies, 3000, 80000, clause="two bodies are in collision iff their boxes (90% of "
            "length and width) overlap, whoever checks; landmarks never crash a vehicle; collisions can be disabled"),
        Sub("approach", lambda: st.builds(lambda v, g, l, h: {"va": v, "gap": g, "lat": l, "h": h}, geo.fl(2, 40),
                                          geo.fl(8, 40), geo.fl(-6, 6), geo.fl(-4, 4)), check_apart_or_meet, 300, 6000,
            clause="a vehicle does not pass through another one"),
    ],
    ["bodies have their standard sizes (5 x 2 m, objects 2 x 2 m)", "ellipse axes are semi-axes"])
