"""P02: the rotation computed between two directions really turns the first into the second."""

from checks.common import *
from artist.geometry import rotations

PROPERTY = "P02"
ASSUMPTIONS = [REALS, "vectors of norm in [0.1, 10]; the generic case keeps the directions 0.1 mrad away from parallel/antiparallel, exact parallel and antiparallel are separate cases"]
HARNESSES = Registry()


def pair(h, tag=""):
    """Any two unit vectors: the second at angle phi from the first, in any direction around it."""
    a, w1, w2 = h.sphere("a" + tag)
    phi, psi = h.real("phi" + tag, (), -4, 4), h.real("psi" + tag, (), -4, 4)
    h.assume(torch.sin(phi) >= 1e-4)
    b = torch.cos(phi) * a + torch.sin(phi) * (torch.cos(psi) * w1 + torch.sin(psi) * w2)
    return a, b, torch.cos(phi), torch.sin(phi)


def hom(v, w):
    return torch.cat([v, w.reshape(1)]).unsqueeze(0)


@HARNESSES("any initial and target vector: lengths in [0.1, 10], at least 0.1 mrad from (anti)parallel", simplify=True)
def rotation_vector(h):
    x, y, c, s = pair(h)
    la, lb = h.real("la", (), 0.1, 10), h.real("lb", (), 0.1, 10)
    e, n, u = rotations.decompose_rotations(hom(x * la, h.real("wa", (), -3, 3)), hom(y * lb, h.real("wb", (), -3, 3))[0])
    v = torch.stack([e, n, u], 1)[0]
    cr = torch.linalg.cross(x, y, dim=-1)
    h.eq((v * x).sum(), torch.zeros(()), "axis orthogonal to the initial vector")
    h.eq((v * y).sum(), torch.zeros(()), "axis orthogonal to the target vector")
    th = torch.arccos(c)
    h.eq(v * s, th * cr, "rotation vector: angle times the unit axis that turns the initial towards the target vector")


@HARNESSES("2 initial vectors against one target: each handled on its own", simplify=True)
def rotation_vector_batched(h):
    y, w1, w2 = h.sphere("y")
    ps = []
    for i in range(2):
        phi, psi = h.real(f"phi{i}", (), -4, 4), h.real(f"psi{i}", (), -4, 4)
        h.assume(torch.sin(phi) >= 1e-4)
        ps.append(torch.cos(phi) * y + torch.sin(phi) * (torch.cos(psi) * w1 + torch.sin(psi) * w2))
    a, b = torch.cat([torch.stack(ps), torch.ones(2, 1)], 1), hom(y, torch.zeros(()))[0]
    r = rotations.decompose_rotations(a, b)
    for i in range(2):
        q = rotations.decompose_rotations(a[i : i + 1], b)
        for k in range(3):
            h.eq(r[k][i : i + 1], q[k], "independent of the other vectors")


@HARNESSES("any two unit vectors at least 0.1 mrad from (anti)parallel, scaled by any factors in [0.1, 10]", simplify=True)
def axis_angle(h):
    a, b, c, s = pair(h)
    la, lb = h.real("la", (), 0.1, 10), h.real("lb", (), 0.1, 10)
    axis, angle = rotations.rotation_angle_and_axis(a * la, b * lb, device=CPU)
    h.eq((axis * axis).sum(), torch.ones(()), "unit axis")
    h.eq((axis * a).sum(), torch.zeros(()), "axis orthogonal to the first direction")
    h.eq((axis * b).sum(), torch.zeros(()), "axis orthogonal to the second direction")
    h.eq(torch.cos(angle), c, "cosine of the angle")
    h.eq(torch.sin(angle), s, "sine of the angle")
    h.eq(s * axis, torch.linalg.cross(a, b, dim=-1), "sense of rotation")


@HARNESSES("parallel and antiparallel directions, any unit vector")
def axis_angle_degenerate(h):
    a = h.unit("a", 3)
    axis, angle = rotations.rotation_angle_and_axis(a, a, device=CPU)
    h.eq(angle, torch.zeros(()), "no rotation between equal directions")
    axis, angle = rotations.rotation_angle_and_axis(a, -a, device=CPU)
    h.eq(torch.cos(angle), -torch.ones(()), "half turn between opposite directions")
    h.eq((axis * axis).sum(), torch.ones(()), "unit axis")
    h.eq((axis * a).sum(), torch.zeros(()), "axis orthogonal to the direction")
