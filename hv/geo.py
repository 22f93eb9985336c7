"""Generated lanes, networks and rectangles, each with an own (independent) model of its geometry."""
import math

import numpy as np
from hypothesis import strategies as st

from .core import wrap

VEH_L, VEH_W = 5.0, 2.0


def fl(lo, hi, digits=3):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda x: round(x, digits))


# ---------------------------------------------------------------- lane specs

@st.composite
def straight_spec(draw, span=200, **kw):
    x, y = draw(fl(-span, span)), draw(fl(-span, span))
    ang = draw(st.one_of(st.sampled_from([0, math.pi / 2, math.pi, -math.pi / 2]), fl(-3.1, 3.1)))
    length = draw(fl(1, span))
    d = {"t": "straight", "start": [x, y],
         "end": [round(x + length * math.cos(ang), 6), round(y + length * math.sin(ang), 6)]}
    d.update(draw(lane_options()))
    return d


@st.composite
def lane_options(draw):
    d = {"width": draw(st.sampled_from([4, 4, 3.5, 2.5, 6, 10]))}
    if draw(st.integers(0, 7)) == 0:
        d["forbidden"] = True
    d["priority"] = draw(st.integers(0, 2))
    d["speed_limit"] = draw(st.sampled_from([20, 10, 30]))
    return d


@st.composite
def sine_spec(draw, span=200):
    d = draw(straight_spec(span))
    d.update(t="sine", amplitude=draw(fl(-6, 6)), pulsation=draw(fl(-0.3, 0.3)), phase=draw(fl(-7, 7)))
    return d


@st.composite
def circular_spec(draw, span=100):
    r = draw(fl(2, 80))
    a0 = draw(st.one_of(st.sampled_from([0, math.pi / 2, math.pi, -math.pi / 2]), fl(-7, 7)))
    turn = draw(st.one_of(st.sampled_from([math.pi / 2, 3.1]), fl(0.05, 3.1)))
    cw = draw(st.booleans())
    d = {"t": "circular", "center": [draw(fl(-span, span)), draw(fl(-span, span))], "radius": r,
         "start": a0, "end": a0 + turn if cw else a0 - turn, "clockwise": cw}
    d.update(draw(lane_options()))
    return d


def any_lane(span=200):
    return st.one_of(straight_spec(span), sine_spec(span), circular_spec(span))


def real_lane(d):
    from highway_env.road.lane import StraightLane, SineLane, CircularLane
    kw = {k: d[k] for k in ("width", "forbidden", "priority", "speed_limit") if k in d}
    if d["t"] == "straight":
        return StraightLane(d["start"], d["end"], **kw)
    if d["t"] == "sine":
        return SineLane(d["start"], d["end"], d["amplitude"], d["pulsation"], d["phase"], **kw)
    return CircularLane(d["center"], d["radius"], d["start"], d["end"], d["clockwise"], **kw)


class Model:
    """Geometry of a lane spec, from its definition."""

    def __init__(self, d):
        self.d = d
        self.width = d.get("width", 4)
        self.forbidden = d.get("forbidden", False)
        if d["t"] in ("straight", "sine"):
            (x0, y0), (x1, y1) = d["start"], d["end"]
            self.length = math.hypot(x1 - x0, y1 - y0)
            self.ang = math.atan2(y1 - y0, x1 - x0)
        else:
            self.sgn = 1 if d["clockwise"] else -1
            self.length = abs(d["end"] - d["start"]) * d["radius"]

    def offset(self, s):
        if self.d["t"] == "sine":
            return self.d["amplitude"] * math.sin(self.d["pulsation"] * s + self.d["phase"])
        return 0.0

    def position(self, s, r):
        d = self.d
        if d["t"] == "circular":
            phi = d["start"] + self.sgn * s / d["radius"]
            rho = d["radius"] - self.sgn * r
            return d["center"][0] + rho * math.cos(phi), d["center"][1] + rho * math.sin(phi)
        r = r + self.offset(s)
        c, n = math.cos(self.ang), math.sin(self.ang)
        return d["start"][0] + s * c - r * n, d["start"][1] + s * n + r * c

    def heading(self, s):
        d = self.d
        if d["t"] == "circular":
            return d["start"] + self.sgn * s / d["radius"] + self.sgn * math.pi / 2
        h = self.ang
        if d["t"] == "sine":
            h += math.atan(d["amplitude"] * d["pulsation"] * math.cos(d["pulsation"] * s + d["phase"]))
        return h

    def local(self, p):
        d = self.d
        if d["t"] == "circular":
            dx, dy = p[0] - d["center"][0], p[1] - d["center"][1]
            dphi = wrap(math.atan2(dy, dx) - d["start"])
            return self.sgn * dphi * d["radius"], self.sgn * (d["radius"] - math.hypot(dx, dy))
        dx, dy = p[0] - d["start"][0], p[1] - d["start"][1]
        c, n = math.cos(self.ang), math.sin(self.ang)
        s = dx * c + dy * n
        return s, -dx * n + dy * c - self.offset(s)

    def ambiguous(self, p):
        """Near the branch cut opposite to the start of an arc, or near its centre."""
        d = self.d
        if d["t"] != "circular":
            return False
        dx, dy = p[0] - d["center"][0], p[1] - d["center"][1]
        return math.hypot(dx, dy) < 1e-3 or abs(abs(wrap(math.atan2(dy, dx) - d["start"])) - math.pi) < 1e-6

    def distance(self, p):
        s, r = self.local(p)
        return abs(r) + max(s - self.length, 0) + max(-s, 0)

    def distance_heading(self, p, h):
        s, _ = self.local(p)
        return self.distance(p) + abs(wrap(h - self.heading(s)))

    def on_lane(self, p, margin=0.0):
        """(answer, clearance from the decision boundary)"""
        s, r = self.local(p)
        gaps = [self.width / 2 + margin - abs(r), s + VEH_L, self.length + VEH_L - s]
        return min(gaps) >= 0, min(abs(g) for g in gaps)

    def reachable(self, p):
        s, r = self.local(p)
        gaps = [2 * self.width - abs(r), s, self.length + VEH_L - s]
        return (not self.forbidden) and min(gaps) >= 0, min(abs(g) for g in gaps)


# ----------------------------------------------------------------- networks

@st.composite
def network_spec(draw, nodes=5, roads=8, max_lanes=3, span=120, lane=None):
    """Edges of a road graph; the lanes of a road have arbitrary shapes (the queries must not depend on it)."""
    names = [chr(97 + i) for i in range(draw(st.integers(2, nodes)))]
    pairs = [(a, b) for a in names for b in names if a != b]
    n = draw(st.integers(1, min(roads, len(pairs))))
    chosen = draw(st.lists(st.sampled_from(pairs), min_size=n, max_size=n, unique=True))
    lane = lane or st.one_of(straight_spec(span), straight_spec(span), sine_spec(span), circular_spec(span))
    return [{"from": a, "to": b, "lanes": draw(st.lists(lane, min_size=1, max_size=max_lanes))} for a, b in chosen]


@st.composite
def geometric_network(draw, nodes=6, max_lanes=3):
    """Straight multi-lane roads between points of the plane."""
    n = draw(st.integers(2, nodes))
    pts = draw(st.lists(st.tuples(st.integers(-4, 4), st.integers(-4, 4)), min_size=n, max_size=n, unique=True))
    names = [chr(97 + i) for i in range(n)]
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    k = draw(st.integers(min(n, len(pairs)), min(14, len(pairs))))
    chosen = draw(st.lists(st.sampled_from(pairs), min_size=k, max_size=k, unique=True))
    out = []
    for i, j in chosen:
        (x0, y0), (x1, y1) = [(40 * p[0], 40 * p[1]) for p in (pts[i], pts[j])]
        dx, dy = x1 - x0, y1 - y0
        nn = math.hypot(dx, dy)
        lanes = []
        for q in range(draw(st.integers(1, max_lanes))):
            ox, oy = -dy / nn * 4 * q, dx / nn * 4 * q
            lanes.append({"t": "straight", "start": [round(x0 + ox, 6), round(y0 + oy, 6)],
                          "end": [round(x1 + ox, 6), round(y1 + oy, 6)], "width": 4})
        out.append({"from": names[i], "to": names[j], "lanes": lanes})
    return out


def real_network(spec):
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    for e in spec:
        for d in e["lanes"]:
            net.add_lane(e["from"], e["to"], real_lane(d))
    return net


def model_network(spec):
    """{(from, to, id): Model}"""
    return {(e["from"], e["to"], i): Model(d) for e in spec for i, d in enumerate(e["lanes"])}


def successors(spec):
    g = {}
    for e in spec:
        g.setdefault(e["from"], []).append(e["to"])
    return g


# --------------------------------------------------------------- rectangles

def corners(c, length, width, ang):
    co, si = math.cos(ang), math.sin(ang)
    return [(c[0] + a * length / 2 * co - b * width / 2 * si, c[1] + a * length / 2 * si + b * width / 2 * co)
            for a, b in ((1, 1), (1, -1), (-1, -1), (-1, 1))]


def separation(p, q):
    """Signed gap of two convex polygons: > 0 when disjoint (largest separating gap over the edge normals), <= 0 when
    they meet."""
    best = -math.inf
    for poly in (p, q):
        for i in range(len(poly)):
            (x0, y0), (x1, y1) = poly[i], poly[(i + 1) % len(poly)]
            n = math.hypot(x1 - x0, y1 - y0)
            if n == 0:
                continue
            nx, ny = (y1 - y0) / n, (x0 - x1) / n
            a = [x * nx + y * ny for x, y in p]
            b = [x * nx + y * ny for x, y in q]
            best = max(best, min(b) - max(a), min(a) - max(b))
    return best


def body_gap(a, b, la=VEH_L, wa=VEH_W, lb=VEH_L, wb=VEH_W, k=0.9):
    """Gap between the collision boxes (90 % of the body) of two posed bodies (position, heading)."""
    return separation(corners(a[0], k * la, k * wa, a[1]), corners(b[0], k * lb, k * wb, b[1]))
