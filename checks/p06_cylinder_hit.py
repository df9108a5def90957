"""P06: which rays hit a cylindrical target, where, and with which intensity."""

from checks.common import *
from artist.raytracing import geometry
from artist.scene.rays import Rays
from artist.field.tower_target_areas_cylindrical import TowerTargetAreasCylindrical

PROPERTY = "P06"
ASSUMPTIONS = [
    REALS,
    "axis and normal of the cylinder are orthogonal unit vectors; radius in [0.5, 20] m, height in [0.5, 40] m, opening angle in [0.1, 2 pi]",
    "rays are not parallel to the axis (component across the axis at least 0.1) and do not graze the surface (radial component at least 0.05)",
    "the code's regularisation constants below 1e-10 are read as zero",
]
HARNESSES = Registry()
OPTS = dict(simplify=True, eager=True, tiny=1e-10, budget_s=400)


def hom(v, w):
    return torch.cat([v, torch.full(v.shape[:-1] + (1,), float(w))], -1)


def frame_vertical(h):
    al = h.real("azimuth", (), -3.1, 3.1)
    z, o = torch.zeros(()), torch.ones(())
    return torch.stack([torch.cos(al), torch.sin(al), z]), torch.stack([z, z, o])


TILTED = [([2, -1, 2], [2, 2, -1]), ([-2, 3, 6], [6, -2, 3]), ([0, -1, 0], [1, 0, 0])]


def frame_tilted(h):
    n, a = TILTED[h.choice("frame", len(TILTED))]
    n, a = torch.tensor(n, dtype=torch.float64), torch.tensor(a, dtype=torch.float64)
    # exact unit vectors with rational components
    return (n / int((n * n).sum() ** 0.5)).float(), (a / int((a * a).sum() ** 0.5)).float()


def cyl(h, frame):
    n, a = frame(h)
    c = h.real("center", (3,), -100, 100)
    r, ht = h.real("radius", (), 0.5, 20), h.real("height", (), 0.5, 40)
    op = h.real("opening", (), 0.1, 6.3)
    h.assume(op <= 2 * torch.pi)
    u = lambda t: t.unsqueeze(0)
    return TowerTargetAreasCylindrical(names=["c"], centers=u(hom(c, 1)), normals=u(hom(n, 0)), axes=u(hom(a, 0)), radii=u(r), heights=u(ht), opening_angles=u(op)), c, n, a, r, ht, op


def trace(tg, o, d, m, res):
    r = Rays(ray_directions=hom(d, 0).reshape(1, 1, 1, 4), ray_magnitudes=m.reshape(1, 1, 1))
    out = geometry.line_cylinder_intersections(r, hom(o, 1).reshape(1, 1, 4), tg, bitmap_resolution=torch.tensor(res), device=CPU)
    return [x[0, 0, 0] for x in out]


def surface_point(h, c, n, a, r, ht):
    th = h.real("theta", (), -3.15, 3.15)
    h.assume(th <= torch.pi)
    h.assume(th > -torch.pi)
    z = h.real("z", (), -40, 40)
    v = torch.linalg.cross(a, n, dim=-1)
    radial = torch.cos(th) * n + torch.sin(th) * v
    tang = torch.cos(th) * v - torch.sin(th) * n
    return th, z, radial, tang, c + r * radial + z * a


def outside_hit(h, frame):
    """The first intersection with the lateral surface is reached from outside after a positive distance."""
    tg, c, n, a, r, ht, op = cyl(h, frame)
    th, z, radial, tang, p = surface_point(h, c, n, a, r, ht)
    # direction: component towards the axis, along the circumference, along the axis
    q, s, w = h.real("inward", (), 0.05, 1), h.real("around", (), -1, 1), h.real("along", (), -1, 1)
    h.assume(q * q + s * s >= 0.01)
    d = -q * radial + s * tang + w * a
    t = h.real("distance", (), 0.01, 1000)
    m = h.real("mag", (), 0, 10)
    h.root(r * q)
    h.root(2 * r * q)
    be, bu, dist, inten = trace(tg, p - t * d, d, m, [64, 32])
    onz = (z <= ht / 2) & (z >= -ht / 2)
    ona = (th <= op / 2) & (th >= -op / 2)
    if h.branch(onz & ona):
        h.eq(inten, m * q, "cosine law on the target patch")
        h.eq(dist, t, "distance of the first intersection")
        h.eq(bu * ht, 31 * (z + ht / 2), "up pixel coordinate grows with height")
        h.eq(be * op, 63 * (th + op / 2), "east pixel coordinate grows with the angle around the axis")
    else:
        h.eq(inten, torch.zeros(()), "no energy outside the height range or the opening sector")
        h.eq(dist, torch.zeros(()), "no distance outside the patch")


@HARNESSES("vertical cylinder, normal towards any azimuth; 1 ray hitting any point of the lateral surface from outside", **OPTS)
def hit_vertical(h):
    outside_hit(h, frame_vertical)


@HARNESSES("3 fixed tilted frames; 1 ray hitting any point of the lateral surface from outside", **OPTS)
def hit_tilted(h):
    outside_hit(h, frame_tilted)


@HARNESSES("vertical cylinder; rays starting inside it or moving away from it", **OPTS)
def not_from_outside(h):
    tg, c, n, a, r, ht, op = cyl(h, frame_vertical)
    th, z, radial, tang, p = surface_point(h, c, n, a, r, ht)
    q, s, w = h.real("inward", (), 0.05, 1), h.real("around", (), -1, 1), h.real("along", (), -1, 1)
    h.assume(q * q + s * s >= 0.01)
    d = -q * radial + s * tang + w * a
    # the ray starts beyond its entry point: inside the cylinder or past it
    t = h.real("past", (), 0.01, 1000)
    m = h.real("mag", (), 0, 10)
    h.root(r * q)
    h.root(2 * r * q)
    chord = 2 * r * q / (q * q + s * s)
    h.assume((t >= chord + 0.01) | (t <= chord - 0.01))
    be, bu, dist, inten = trace(tg, p + t * d, d, m, [64, 32])
    h.eq(inten, torch.zeros(()), "no energy unless the surface is reached from outside")


@HARNESSES("vertical cylinder; rays whose line passes the axis at more than the radius", **OPTS)
def line_misses(h):
    tg, c, n, a, r, ht, op = cyl(h, frame_vertical)
    th, z, radial, tang, _ = surface_point(h, c, n, a, r, ht)
    gap = h.real("gap", (), 0.01, 50)
    s, w = h.real("around", (), 0.1, 1), h.real("along", (), -1, 1)
    d = s * tang + w * a
    t = h.real("t", (), -1000, 1000)
    m = h.real("mag", (), 0, 10)
    be, bu, dist, inten = trace(tg, c + (r + gap) * radial + z * a - t * d, d, m, [64, 32])
    h.eq(inten, torch.zeros(()), "a line outside the cylinder deposits nothing")
    h.eq(dist, torch.zeros(()), "no distance for a miss")
