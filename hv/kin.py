"""Own models of the vehicle dynamics."""
import math


class Kinematic:
    """Modified bicycle model with explicit Euler integration, from its equations."""
    LENGTH, MAX = 5.0, 40.0

    def __init__(self, p, h, v, max_speed=None):
        self.x, self.y, self.h, self.v = float(p[0]), float(p[1]), float(h), float(v)
        self.max = max_speed or self.MAX

    def limit(self, a):
        if self.v > self.max:
            a = min(a, self.max - self.v)
        elif self.v < -self.max:
            a = max(a, -self.max - self.v)
        return a

    def step(self, acc, steer, dt, crashed=False):
        if crashed:
            acc, steer = -self.v, 0.0
        acc = self.limit(acc)
        beta = math.atan(math.tan(steer) / 2)
        self.x += self.v * math.cos(self.h + beta) * dt
        self.y += self.v * math.sin(self.h + beta) * dt
        self.h += self.v * math.sin(beta) / (self.LENGTH / 2) * dt
        self.v += acc * dt

    def state(self):
        return [self.x, self.y, self.h, self.v]


class Dynamic:
    """Rajamani's lateral dynamics with tire slip (chapter 2), explicit Euler, low-speed damping."""
    M, LA, LB = 1.0, 2.5, 2.5
    IZ = (5.0 ** 2 + 3 * 2.0 ** 2) / 12
    CF = CR = 15.0
    MAX, MAX_YAW = 15.0, 2 * math.pi

    def __init__(self, p, h, v, vy=0.0, r=0.0):
        self.x, self.y, self.h, self.v, self.vy, self.r = float(p[0]), float(p[1]), float(h), float(v), vy, r

    limit = Kinematic.limit

    def derivative(self, acc, steer):
        if abs(self.v) < 1:
            ff = -self.M * self.vy - self.IZ / self.LA * self.r
            fr = -self.M * self.vy + self.IZ / self.LA * self.r
        else:
            ff = 2 * self.CF * (steer - math.atan2(self.vy + self.LA * self.r, self.v))
            fr = 2 * self.CR * (0 - math.atan2(self.vy - self.LB * self.r, self.v))
        c, s = math.cos(self.h), math.sin(self.h)
        return [self.v * c - self.vy * s, self.v * s + self.vy * c, self.r, acc,
                (ff + fr) / self.M - self.r * self.v, (self.LA * ff - self.LB * fr) / self.IZ]

    def step(self, acc, steer, dt, crashed=False):
        if crashed:
            acc, steer = -self.v, 0.0
        self.max = self.MAX
        acc = self.limit(acc)
        steer = max(-math.pi / 2, min(math.pi / 2, steer))
        self.r = max(-self.MAX_YAW, min(self.MAX_YAW, self.r))
        d = self.derivative(acc, steer)
        self.x += d[0] * dt
        self.y += d[1] * dt
        self.h += d[2] * dt
        self.v += d[3] * dt
        self.vy += d[4] * dt
        self.r += d[5] * dt

    def state(self):
        return [self.x, self.y, self.h, self.v, self.vy, self.r]


def lmap(x, lo, hi):
    return lo + (x + 1) / 2 * (hi - lo)
