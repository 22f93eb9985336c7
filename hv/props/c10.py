"""C10 lane geometry."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geo
from ..core import Prop, Sub, require, require_close, wrap


@st.composite
def lane_point(draw):
    d = draw(geo.any_lane())
    m = geo.Model(d)
    if d["t"] == "circular":
        lim = 3.1 * d["radius"]
        s = draw(st.one_of(geo.fl(0, 1).map(lambda u: u * m.length), geo.fl(-1, 1).map(lambda u: u * lim),
                           st.sampled_from([0.0, m.length])))
        r = draw(st.one_of(st.just(0.0), geo.fl(-12, 12)))
        if abs(r) > 0.8 * d["radius"]:
            r = math.copysign(0.8 * d["radius"], r)
    else:
        s = draw(st.one_of(geo.fl(0, 1).map(lambda u: u * m.length), geo.fl(-300, 300), st.sampled_from([0.0, m.length])))
        r = draw(st.one_of(st.just(0.0), geo.fl(-20, 20)))
    return {"lane": d, "s": s, "r": r}


def check_roundtrip(case, rec):
    d, s, r = case["lane"], case["s"], case["r"]
    lane, m = geo.real_lane(d), geo.Model(d)
    p = lane.position(s, r)
    require_close(p, m.position(s, r), "position(%g, %g) of %s" % (s, r, d), atol=1e-6)
    s2, r2 = lane.local_coordinates(np.array(p))
    require_close([s2, r2], [s, r], "local_coordinates(position(s, r))", atol=1e-6)
    require_close(lane.length, m.length, "length", atol=1e-6)
    require_close(lane.width_at(s), d["width"], "width_at")
    rec.hit(d["t"])


def check_inverse(case, rec):
    """position(local_coordinates(p)) == p anywhere in the plane."""
    d, p = case["lane"], case["p"]
    lane, m = geo.real_lane(d), geo.Model(d)
    if m.ambiguous(p):
        return
    s, r = lane.local_coordinates(np.array(p))
    require_close([s, r], m.local(p), "local_coordinates(%s) of %s" % (p, d), atol=1e-6)
    require_close(lane.position(s, r), p, "position(local_coordinates(p))", atol=1e-6)
    rec.hit(d["t"])


def check_heading(case, rec):
    d, s = case["lane"], case["s"]
    lane, m = geo.real_lane(d), geo.Model(d)
    h = 1e-4
    a, b = np.array(lane.position(s - h, 0)), np.array(lane.position(s + h, 0))
    t = (b - a) / (2 * h)
    tangent = math.atan2(t[1], t[0])
    hd = lane.heading_at(s)
    require(abs(wrap(hd - tangent)) < 1e-5, "heading_at(%g)=%r but the centre line goes towards %r (%s)", s, hd,
            tangent, d)
    require(abs(wrap(hd - m.heading(s))) < 1e-9, "heading_at(%g)=%r, definition %r", s, hd, m.heading(s))
    # positive lateral coordinates lie on the same side for every lane: +90 degrees from the heading
    q = np.array(lane.position(s, 0.5)) - np.array(lane.position(s, -0.5))
    if d["t"] != "sine":
        require_close(q, [-math.sin(hd), math.cos(hd)], "lateral axis at %g of %s" % (s, d), atol=1e-6)
        require_close(np.linalg.norm(t), 1, "longitudinal coordinate is the arc length", atol=1e-5)
    for ds in (0.04, -0.03, 0.4):       # asked again nearby: the answer is for the point asked
        require(abs(wrap(lane.heading_at(s + ds) - m.heading(s + ds))) < 1e-9, "heading_at(%g) asked after heading_at(%g) is %r, "
                "definition %r (%s)", s + ds, s, lane.heading_at(s + ds), m.heading(s + ds), d)
        require_close(lane.position(s + ds, 0.5), m.position(s + ds, 0.5), "position(%g, 0.5) asked after another" % (s + ds),
                      atol=1e-6)
    rec.hit(d["t"])


@st.composite
def plane_point(draw):
    """A point placed with respect to the decision boundaries of a lane."""
    d = draw(geo.any_lane())
    m = geo.Model(d)
    hw = m.width / 2
    if draw(st.integers(0, 5)) == 0:
        p = [draw(geo.fl(-300, 300)), draw(geo.fl(-300, 300))]
    else:
        eps = draw(st.sampled_from([0.0, 0.01, -0.01, 1, -1, 0.3, -0.3]))
        s = draw(st.one_of(st.sampled_from([0.0, -5.0, m.length, m.length + 5, m.length - 2.5]).map(lambda x: x + eps),
                           geo.fl(0, 1).map(lambda u: u * m.length), st.just(0.0)))
        r = draw(st.one_of(st.just(0.0), st.sampled_from([hw, -hw, hw + 1, -hw - 1, 4 * hw, -4 * hw]).map(
            lambda x: x + draw(st.sampled_from([0.01, -0.01, 0.3, -0.3]))), geo.fl(-6, 6)))
        if d["t"] == "circular":
            s = max(min(s, 3.1 * d["radius"]), -3.1 * d["radius"])
            if abs(r) > 0.9 * d["radius"]:
                r = math.copysign(0.9 * d["radius"], r)
        p = list(m.position(s, r))
    return {"lane": d, "p": p, "margin": draw(st.one_of(st.sampled_from([0, 0, 1, 0.5, -0.5, 3]), geo.fl(-1, 15))),
            "h": draw(geo.fl(-10, 10)), "w": draw(st.sampled_from([1.0, 0.0, 2.5]))}


def check_predicates(case, rec):
    d, p, margin = case["lane"], case["p"], case["margin"]
    lane, m = geo.real_lane(d), geo.Model(d)
    if m.ambiguous(p):
        return
    pos = np.array(p)
    s, r = m.local(p)
    want, gap = m.on_lane(p, margin)
    if gap > 1e-6:
        require(bool(lane.on_lane(pos, margin=margin)) == want, "on_lane(margin %g) at (%.4f, %.4f) of %s: expected %s",
                margin, s, r, d, want)
        ls, lr = lane.local_coordinates(pos)
        require(bool(lane.on_lane(pos, ls, lr, margin=margin)) == want, "on_lane with given coordinates differs")
        require(bool(lane.on_lane(pos, ls, margin=margin)) == want, "on_lane with only the longitudinal one differs")
        rec.note("on" if want else "off")
    want, gap = m.reachable(p)
    if gap > 1e-6:
        require(bool(lane.is_reachable_from(pos)) == want, "is_reachable_from at (%.4f, %.4f) of %s: expected %s", s, r,
                d, want)
        rec.note("reachable" if want else "unreachable")
    gap = s - (m.length - geo.VEH_L / 2)
    if abs(gap) > 1e-6:
        require(bool(lane.after_end(pos)) == (gap > 0), "after_end at %.4f of a lane of %.4f m: expected %s", s,
                m.length, gap > 0)
        require(bool(lane.after_end(pos, lane.local_coordinates(pos)[0])) == (gap > 0), "after_end with coordinate")
    require_close(lane.distance(pos), m.distance(p), "distance", atol=1e-6)
    require_close(lane.distance_with_heading(pos, None), m.distance(p), "distance without a heading", atol=1e-6)
    ang = abs(wrap(case["h"] - m.heading(s)))
    if abs(ang - math.pi) > 1e-6:
        require_close(lane.distance_with_heading(pos, case["h"]), m.distance(p) + ang, "distance_with_heading",
                      atol=1e-6)
        require_close(lane.distance_with_heading(pos, case["h"], case["w"]), m.distance(p) + case["w"] * ang,
                      "weighted distance_with_heading", atol=1e-6)
    rec.hit(d["t"])


PROP = Prop(
    "C10",
    "A case is a straight, sinusoidal or circular lane (any pose, width, turn up to half a circle, both senses) and a "
    "point given by lane coordinates or near a decision boundary; non-trivial when the point is not on the branch cut "
    "of an arc.",
    [
        Sub("roundtrip", lane_point, check_roundtrip, 2500, 60000,
            clause="world position of lane coordinates, and back, are exact inverses and match the curve"),
        Sub("inverse", lambda: st.builds(lambda d, x, y: {"lane": d, "p": [x, y]}, geo.any_lane(), geo.fl(-300, 300),
                                         geo.fl(-300, 300)), check_inverse, 2000, 50000,
            clause="every world point has lane coordinates that map back to it"),
        Sub("heading", lane_point, check_heading, 2000, 50000,
            clause="the heading is tangent to the centre line; lateral axis orientation"),
        Sub("predicates", plane_point, check_predicates, 3500, 90000,
            clause="on_lane, is_reachable_from, after_end, distance and weighted distance agree with their definition"),
    ],
    ["arcs of at most half a turn (the angular coordinate is measured from the start of the arc)",
     "points within 1e-6 of a decision boundary are not judged"])
