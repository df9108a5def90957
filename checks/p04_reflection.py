"""P04: mirror reflection law."""

from checks.common import *
from artist.raytracing import geometry

PROPERTY = "P04"
ASSUMPTIONS = [REALS, "surface normals are unit vectors (as documented)"]
HARNESSES = Registry()


def dirs(h, name, shape):
    d = h.real(name, shape + (3,), -10, 10)
    return torch.cat([d, torch.zeros(shape + (1,))], -1)


def norms(h, shape):
    n = h.unit("n", 3, shape)
    return torch.cat([n, torch.zeros(shape + (1,))], -1)


@HARNESSES("1 heliostat x 2 points, any incident direction and unit normal")
def law(h):
    i, n = dirs(h, "i", (1, 2)), norms(h, (1, 2))
    r = geometry.reflect(i, n)
    h.eq((r * r).sum(-1), (i * i).sum(-1), "length kept")
    h.eq((r * n).sum(-1), -(i * n).sum(-1), "component along the normal reversed")
    z = torch.zeros(1, 2, 3)
    h.eq(torch.linalg.cross((r - i)[..., :3], n[..., :3], dim=-1), z, "change of direction only along the normal")
    h.eq(r[..., 3], torch.zeros(1, 2), "still a direction")
    h.eq(geometry.reflect(r, n), i, "reflecting twice restores the ray")
    h.eq(geometry.reflect(i, -n), r, "sign of the normal does not matter")


@HARNESSES("2 heliostats x 2 points: one incident direction per heliostat, one normal per point")
def pairing(h):
    i, n = dirs(h, "i", (2, 1)), norms(h, (2, 2))
    r = geometry.reflect(i, n)
    for a in range(2):
        for b in range(2):
            d = i[a, 0] - 2 * (i[a, 0] * n[a, b]).sum() * n[a, b]
            h.eq(r[a, b], d, "each point reflects its own heliostat's light with its own normal")


@HARNESSES("reflection is linear in the incident direction and keeps angles between rays")
def linearity(h):
    i, j, n = dirs(h, "i", (1, 1)), dirs(h, "j", (1, 1)), norms(h, (1, 1))
    s = h.real("s", (), -10, 10)
    r, q = geometry.reflect(i, n), geometry.reflect(j, n)
    h.eq((r * q).sum(-1), (i * j).sum(-1), "angle between two rays kept")
    h.eq(geometry.reflect(i + s * j, n), r + s * q, "linear")


@HARNESSES("bisector: light reflected by a mirror whose normal bisects sun and target goes to the target")
def bisector(h):
    a, b = h.unit("sun", 3), h.unit("target", 3)
    m = a + b
    l = torch.linalg.vector_norm(m)
    h.assume(l >= 0.05)
    n = (m / l).reshape(1, 1, 3)
    h.eq(geometry.reflect(-a.reshape(1, 1, 3), n), b.reshape(1, 1, 3), "sent to the target")
