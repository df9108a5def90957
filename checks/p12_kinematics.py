"""P12: heliostat kinematics: orientations are rigid, follow the joints, and alignment reflects the sun onto the aim point."""

import math

from checks.common import *
from artist.field.kinematics_rigid_body import RigidBody

PROPERTY = "P12"
ASSUMPTIONS = [REALS]
HARNESSES = Registry()


def hom(v, w):
    return torch.cat([v, torch.full(v.shape[:-1] + (1,), float(w))], -1)


def body(h, n, pos=None, trans=None, tilt=None, lo=-10.0, hi=10.0):
    """Ideal actuators: the motor positions are the joint angles."""
    pos = h.real("pos", (n, 3), -500, 500) if pos is None else pos
    trans = torch.zeros(n, 9) if trans is None else trans
    tilt = torch.zeros(n, 4) if tilt is None else tilt
    non = torch.zeros(n, 4, 2)
    non[:, 0] = 1.0
    non[:, 2] = lo
    non[:, 3] = hi
    k = RigidBody(n, hom(pos, 1), torch.tensor([[0.0, 0, 1, 0]]).expand(n, 4), trans, tilt, non, torch.tensor([]), device=CPU)
    k.number_of_active_heliostats = n
    k.active_heliostat_positions = k.heliostat_positions
    k.active_initial_orientations = k.initial_orientations
    k.active_translation_deviation_parameters = trans
    k.active_rotation_deviation_parameters = tilt
    k.active_motor_positions = k.motor_positions
    k.actuators.active_non_optimizable_parameters = non
    k.actuators.active_optimizable_parameters = torch.tensor([])
    return k, pos


def rot(axis, t):
    """Rotation about an axis (3x3), written out independently; east-to-up is the positive sense about the north axis (see P01)."""
    c, s = torch.cos(t), torch.sin(t)
    o, z = torch.ones_like(c), torch.zeros_like(c)
    m = {"e": [[o, z, z], [z, c, -s], [z, s, c]], "n": [[c, z, -s], [z, o, z], [s, z, c]], "u": [[c, -s, z], [s, c, z], [z, z, o]]}[axis]
    return torch.stack([torch.stack(r) for r in m])


@HARNESSES("2 heliostats, no tilts, any positions, translations and joint angles", simplify=True)
def forward_plain(h):
    tr = h.real("trans", (2, 9), -2, 2)
    k, pos = body(h, 2, trans=tr)
    m = h.real("motor", (2, 2), -6, 6)
    o = k.motor_positions_to_orientations(m, device=CPU)
    h.check(torch.tensor(tuple(o.shape) == (2, 4, 4)), "shape")
    for i in range(2):
        R = o[i, :3, :3]
        h.eq(R.T @ R, torch.eye(3), "rotation part is orthogonal")
        h.eq(torch.linalg.cross(R[:, 0], R[:, 1]), R[:, 2], "rotation part is right-handed")
        h.eq(o[i, 3], torch.tensor([0.0, 0, 0, 1]), "affine map")
        A, B = rot("e", m[i, 0]), rot("u", m[i, 1])
        h.eq(R @ torch.tensor([0.0, 0, 1]), A @ B @ torch.tensor([0.0, -1, 0]), "mirror normal turned by the two joints")
        p = pos[i] + tr[i, :3] + A @ (tr[i, 3:6] + B @ tr[i, 6:9])
        h.eq(o[i, :3, 3], p, "mirror centre carried by the joints")


def normal_of(t1, t2, tilt=None):
    ref = torch.tensor([0.0, -1, 0])
    if tilt is None:
        return rot("e", t1) @ rot("u", t2) @ ref
    return rot("n", tilt[0]) @ rot("u", tilt[1]) @ rot("e", t1) @ rot("e", tilt[2]) @ rot("n", tilt[3]) @ rot("u", t2) @ ref


@HARNESSES("1 heliostat, all tilts and translations and joint angles: documented joint composition", simplify=True)
def forward_tilted(h):
    tr = h.real("trans", (1, 9), -2, 2)
    ti = h.real("tilt", (1, 4), -0.5, 0.5)
    k, pos = body(h, 1, trans=tr, tilt=ti)
    m = h.real("motor", (1, 2), -6, 6)
    o = k.motor_positions_to_orientations(m, device=CPU)
    d, R = tr[0], o[0, :3, :3]
    F1 = rot("n", ti[0, 0]) @ rot("u", ti[0, 1])
    F2 = rot("e", ti[0, 2]) @ rot("n", ti[0, 3])
    A, B = rot("e", m[0, 0]), rot("u", m[0, 1])
    N = F1 @ A @ F2 @ B
    h.eq(R @ torch.tensor([0.0, 0, 1]), N @ torch.tensor([0.0, -1, 0]), "mirror normal")
    h.eq(R @ torch.tensor([1.0, 0, 0]), N @ torch.tensor([1.0, 0, 0]), "mirror east axis")
    h.eq(R @ torch.tensor([0.0, 1, 0]), N @ torch.tensor([0.0, 0, 1]), "mirror north axis points up when the mirror faces south")
    h.eq(o[0, :3, 3], pos[0] + F1 @ (d[:3] + A @ F2 @ (d[3:6] + B @ d[6:9])), "mirror centre")
    h.eq(o[0, 3], torch.tensor([0.0, 0, 0, 1]), "affine map")


ALIGN = dict(simplify=True, eager="keep-abs", tiny=1e-7, branch_ms=800)


def setting(h, i, t1, t2, tilt=None):
    """Sun direction and aim point for which the mirror normal at joint angles (t1, t2) is the right one."""
    n = normal_of(t1, t2, tilt)
    x = h.real(f"incidence{i}", (), 0, 1.57)
    c, s = torch.cos(x), torch.sin(x)
    h.assume(c >= 0.01)
    # an orthonormal frame around the normal
    R = rot("e", t1) @ rot("u", t2) if tilt is None else rot("n", tilt[0]) @ rot("u", tilt[1]) @ rot("e", t1) @ rot("e", tilt[2]) @ rot("n", tilt[3]) @ rot("u", t2)
    a, b = R[:, 0], R[:, 2]
    w = h.real(f"azimuth{i}", (), -math.pi, math.pi)
    e = s * (torch.cos(w) * a + torch.sin(w) * b)
    sun, out = c * n + e, c * n - e
    dist = h.real(f"distance{i}", (), 1, 1000)
    return n, -sun, out, dist


@HARNESSES("1 and 2 heliostats without deviations, any sun, aim point and joint angles with |second| < 90 deg", budget_s=200, **ALIGN)
def align(h):
    k, pos = body(h, 1)
    t1, t2 = h.real("joint1", (), -3.1, 3.1), h.real("joint2", (), -1.56, 1.56)
    h.assume((torch.cos(t2) > 0.005) & (torch.sin(t2).abs() < 0.99999))
    n, inc, out, d = setting(h, 0, t1, t2)
    aim = pos[0] + d * out
    o = k.incident_ray_directions_to_orientations(hom(inc[None], 0), hom(aim[None], 1), device=CPU)
    R = o[0, :3, :3]
    h.eq(R @ torch.tensor([0.0, 0, 1]), n, "mirror normal bisects sun and aim point", tol=1e-4)
    h.eq(o[0, :3, 3], pos[0], "mirror centre")
    h.eq(k.active_motor_positions[0], torch.stack([t1, t2]), "stored motor positions")


@HARNESSES("1 heliostat with tilts up to 0.2 rad, any sun, aim point and joint angles with |second| < 90 deg", budget_s=200, **ALIGN)
def align_tilted(h):
    ti = h.real("tilt", (1, 4), -0.2, 0.2)
    h.assume((torch.cos(ti[0]) > 0.9))
    k, pos = body(h, 1, tilt=ti)
    t1, t2 = h.real("joint1", (), -3.1, 3.1), h.real("joint2", (), -1.4, 1.4)
    h.assume((torch.cos(t2) > 0.1) & (torch.sin(t2).abs() < 0.99))
    n, inc, out, d = setting(h, 0, t1, t2, ti[0])
    aim = pos[0] + d * out
    o = k.incident_ray_directions_to_orientations(hom(inc[None], 0), hom(aim[None], 1), device=CPU)
    h.eq(o[0, :3, :3] @ torch.tensor([0.0, 0, 1]), n, "mirror normal bisects sun and aim point", tol=1e-4)
    h.eq(k.active_motor_positions[0], torch.stack([t1, t2]), "stored motor positions")


@HARNESSES("2 heliostats aligned in one call, each with its own sun, aim point and joint angles", budget_s=200, **ALIGN)
def align_two(h):
    k, pos = body(h, 2)
    ns, incs, aims, ts = [], [], [], []
    for i in range(2):
        t1, t2 = h.real(f"joint1_{i}", (), -3.1, 3.1), h.real(f"joint2_{i}", (), -1.5, 1.5)
        h.assume((torch.cos(t2) > 0.05) & (torch.sin(t2).abs() < 0.999))
        n, inc, out, d = setting(h, i, t1, t2)
        ns.append(n), incs.append(inc), aims.append(pos[i] + d * out), ts.append(torch.stack([t1, t2]))
    o = k.incident_ray_directions_to_orientations(hom(torch.stack(incs), 0), hom(torch.stack(aims), 1), device=CPU)
    h.check(torch.tensor(tuple(o.shape) == (2, 4, 4)), "shape")
    for i in range(2):
        h.eq(o[i, :3, :3] @ torch.tensor([0.0, 0, 1]), ns[i], "each heliostat follows its own sun and aim point", tol=1e-4)
        h.eq(o[i, :3, 3], pos[i], "mirror centre")
        h.eq(k.active_motor_positions[i], ts[i], "stored motor positions")


@HARNESSES("1 heliostat, any number of iterations 1, 2 or 4", budget_s=200, **ALIGN)
def stored_positions(h):
    k, pos = body(h, 1)
    t1, t2 = h.real("joint1", (), -3.1, 3.1), h.real("joint2", (), -1.5, 1.5)
    h.assume((torch.cos(t2) > 0.05) & (torch.sin(t2).abs() < 0.999))
    n, inc, out, d = setting(h, 0, t1, t2)
    aim = pos[0] + d * out
    its = [1, 2, 4][h.choice("iterations", 3)]
    o = k.incident_ray_directions_to_orientations(hom(inc[None], 0), hom(aim[None], 1), device=CPU, max_num_iterations=its)
    o2 = k.motor_positions_to_orientations(k.active_motor_positions, device=CPU)
    h.eq(o, o2, "the orientation returned is the one of the stored motor positions")


@HARNESSES("1 heliostat, any motor limits that contain a joint pair (any quadrant) pointing the mirror as wanted", budget_s=200, **ALIGN)
def limits(h):
    k, pos = body(h, 1)
    lo, hi = h.real("lo", (2,), -4, 4), h.real("hi", (2,), -4, 4)
    non = k.actuators.active_non_optimizable_parameters
    non[0, 2], non[0, 3] = lo, hi
    flip = h.branch(h.bool("beyond"))
    a1, a2 = h.real("joint1", (), -3.1, 3.1), h.real("joint2", (), -1.5, 1.5)
    h.assume((torch.cos(a2) > 0.05) & (torch.sin(a2).abs() < 0.999) & (a1.abs() > 0.01) & (a2.abs() > 0.01))
    n, inc, out, d = setting(h, 0, a1, a2)
    if flip:  # the other joint pair with the same mirror normal
        b1 = a1 - math.pi if h.branch(a1 > 0) else a1 + math.pi
        b2 = math.pi - a2 if h.branch(a2 > 0) else -math.pi - a2
    else:
        b1, b2 = a1, a2
    e = 1e-3
    h.assume((b1 >= lo[0] + e) & (b1 <= hi[0] - e) & (b2 >= lo[1] + e) & (b2 <= hi[1] - e))
    aim = pos[0] + d * out
    o = k.incident_ray_directions_to_orientations(hom(inc[None], 0), hom(aim[None], 1), device=CPU)
    h.eq(o[0, :3, :3] @ torch.tensor([0.0, 0, 1]), n, "mirror normal bisects sun and aim point", tol=1e-4)
    m = k.active_motor_positions[0]
    h.check((m >= lo - 1e-3) & (m <= hi + 1e-3), "motor positions stay within their limits")
