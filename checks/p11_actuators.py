"""P11: actuators: joint angles and motor positions correspond."""

import math

from checks.common import *
from artist.field.actuators_ideal import IdealActuators
from artist.field.actuators_linear import LinearActuators

PROPERTY = "P11"
ASSUMPTIONS = [
    REALS,
    "linear actuators: offsets, pivot radii in [0.05, 1.1] m, strokes at least 1 cm inside the reachable range of the triangle (where noted), increments in [1000, 200000] steps/m",
]
HARNESSES = Registry()
MARGIN = 0.01


def raw(h, name, lo, hi):
    """A raw positive parameter and the physical value the actuator derives from it."""
    v = h.real(name, (), lo, hi)
    return v, torch.nn.functional.softplus(v, beta=100) + 1e-6


class One:
    """One heliostat with two linear actuators; the physical parameters of actuator a are kept in .phys[a]."""

    def __init__(self, h, n=1, tag="", clockwise=None):
        non, opt = [], []
        self.phys = []
        for i in range(n):
            cn, co, ph = [], [], []
            for a in range(2):
                t = f"{tag}{i}{a}"
                r, off = raw(h, "offset" + t, 0.05, 1)
                q, piv = raw(h, "pivot" + t, 0.05, 1)
                s, stroke = raw(h, "stroke" + t, 0.02, 2)
                inc_raw = h.real("increment" + t, (), 1000, 200000)
                inc = torch.nn.functional.softplus(inc_raw, beta=100) + 1e-6
                a0 = h.real("initial_angle" + t, (), -3, 3)
                if clockwise is not None:
                    cw = torch.tensor(float(clockwise[i][a] if isinstance(clockwise[0], list) else clockwise[a]))
                else:
                    cw = torch.tensor(1.0) if h.branch(h.bool("clockwise" + t)) else torch.tensor(0.0)
                cn.append(torch.stack([torch.tensor(0.0), cw, torch.tensor(0.0), torch.tensor(70000.0), inc_raw, r, q]))
                co.append(torch.stack([a0, s]))
                ph.append(dict(off=off, piv=piv, stroke=stroke, inc=inc, a0=a0, cw=cw))
            non.append(torch.stack(cn, -1))
            opt.append(torch.stack(co, -1))
            self.phys.append(ph)
        self.non, self.opt = torch.stack(non), torch.stack(opt)
        self.act = LinearActuators(self.non, self.opt, device=CPU)
        self.act.active_non_optimizable_parameters = self.non
        self.act.active_optimizable_parameters = self.opt


def reachable(h, p, s, margin=MARGIN):
    h.assume((s >= p["off"] - p["piv"] + margin) & (s >= p["piv"] - p["off"] + margin) & (s <= p["off"] + p["piv"] - margin))


OPT = dict(simplify=True, eager=True)


@HARNESSES("both actuators of a heliostat, any parameters, any motor position with a reachable stroke", **OPT)
def motor_round_trip(h):
    x = One(h, clockwise=[1, 0])
    m = h.real("motor", (1, 2), -100000, 100000)
    for a in range(2):
        p = x.phys[0][a]
        reachable(h, p, p["stroke"])
        reachable(h, p, m[0, a] / p["inc"] + p["stroke"])
    ang = x.act.motor_positions_to_angles(m, device=CPU)
    back = x.act.angles_to_motor_positions(ang, device=CPU)
    h.check(torch.tensor(tuple(ang.shape) == (1, 2) and tuple(back.shape) == (1, 2)), "shapes")
    for a in range(2):
        h.eq((back[0, a] - m[0, a]) / x.phys[0][a]["inc"], torch.zeros(()), "motor position -> angle -> motor position", tol=1e-4)


@HARNESSES("both actuators, any parameters: strokes at angle 0 and under motion follow the triangle of offset, pivot radius and stroke", **OPT)
def triangle(h):
    x = One(h, clockwise=[1, 0])
    m = h.real("motor", (1, 2), -100000, 100000)
    for a in range(2):
        p = x.phys[0][a]
        reachable(h, p, p["stroke"])
        reachable(h, p, m[0, a] / p["inc"] + p["stroke"])
    ang = x.act.motor_positions_to_angles(m, device=CPU)
    rest = x.act.motor_positions_to_angles(torch.zeros(1, 2), device=CPU)
    for a in range(2):
        p = x.phys[0][a]
        h.eq(rest[0, a], p["a0"], "the zero position has the initial angle")

        def opening(s):
            return torch.arccos((p["off"] ** 2 + p["piv"] ** 2 - s**2) / (2 * p["off"] * p["piv"]))

        turned = opening(m[0, a] / p["inc"] + p["stroke"]) - opening(p["stroke"])
        h.eq(ang[0, a] - p["a0"], -turned if a == 0 else turned, "joint angle from the law of cosines, in the direction of the actuator")


@HARNESSES("both actuators, any parameters and any motor positions whatsoever: angles stay within half a turn of the initial angle", defined=True)
def bounded(h):
    x = One(h)
    m = h.real("motor", (1, 2), -1000000, 1000000)
    ang = x.act.motor_positions_to_angles(m, device=CPU)
    for a in range(2):
        h.le(ang[0, a] - x.phys[0][a]["a0"], torch.tensor(math.pi), "angle range", 1e-5)
        h.le(x.phys[0][a]["a0"] - ang[0, a], torch.tensor(math.pi), "angle range", 1e-5)


@HARNESSES("both actuators, any parameters and any angle whatsoever: the commanded stroke is one the actuator can have", defined=True)
def commanded(h):
    x = One(h, clockwise=[1, 0])
    a = h.real("angle", (1, 2), -10, 10)
    m = x.act.angles_to_motor_positions(a, device=CPU)
    for k in range(2):
        p = x.phys[0][k]
        s = m[0, k] / p["inc"] + p["stroke"]
        h.le(s, p["off"] + p["piv"], "stroke within the triangle", 1e-4)
        h.le(p["off"] - p["piv"], s, "stroke within the triangle", 1e-4)
        h.le(p["piv"] - p["off"], s, "stroke within the triangle", 1e-4)


@HARNESSES("1 actuator pair, any two ordered motor positions with reachable strokes", simplify=True, eager=True)
def monotone(h):
    x = One(h, clockwise=[1, 0])
    m1, m2 = h.real("m1", (1, 2), -100000, 100000), h.real("m2", (1, 2), -100000, 100000)
    for a in range(2):
        p = x.phys[0][a]
        reachable(h, p, p["stroke"])
        reachable(h, p, m1[0, a] / p["inc"] + p["stroke"])
        reachable(h, p, m2[0, a] / p["inc"] + p["stroke"])
        h.assume(m1[0, a] < m2[0, a])
    g1, g2 = x.act.motor_positions_to_angles(m1, device=CPU), x.act.motor_positions_to_angles(m2, device=CPU)
    h.check(g1[0, 0] >= g2[0, 0], "extending a clockwise actuator turns it back")
    h.check(g1[0, 1] <= g2[0, 1], "extending a counter-clockwise actuator turns it forth")


@HARNESSES("3 heliostats with any parameters and different turning directions: no mixing between heliostats or actuators")
def independent(h):
    x = One(h, n=3, clockwise=[[1, 0], [0, 1], [[1, 1], [0, 0]][h.choice("third", 2)]])
    m = h.real("m", (3, 2), -100000, 100000)
    a = h.real("a", (3, 2), -3, 3)
    ga, gm = x.act.motor_positions_to_angles(m, device=CPU), x.act.angles_to_motor_positions(a, device=CPU)
    for i in range(3):
        one = LinearActuators(x.non[i : i + 1], x.opt[i : i + 1], device=CPU)
        one.active_non_optimizable_parameters, one.active_optimizable_parameters = x.non[i : i + 1], x.opt[i : i + 1]
        h.eq(ga[i : i + 1], one.motor_positions_to_angles(m[i : i + 1], device=CPU), "a heliostat's angles depend on its own actuators")
        h.eq(gm[i : i + 1], one.angles_to_motor_positions(a[i : i + 1], device=CPU), "a heliostat's motor positions depend on its own actuators")


@HARNESSES("3 heliostats, ideal actuators")
def ideal(h):
    m = h.real("m", (3, 2), -100, 100)
    act = IdealActuators(torch.ones(3, 4, 2), torch.tensor([]), device=CPU)
    h.eq(act.motor_positions_to_angles(m, device=CPU), m, "ideal actuators follow the motor positions")
    h.eq(act.angles_to_motor_positions(m, device=CPU), m, "ideal actuators follow the angles")
