"""P05: which rays hit a planar target, where, and with which intensity."""

from checks.common import *
from artist.raytracing import geometry
from artist.scene.rays import Rays
from artist.field.tower_target_areas_planar import TowerTargetAreasPlanar

PROPERTY = "P05"
ASSUMPTIONS = [REALS, "ray origins at least 0.01 m off the target plane, target normals are unit vectors, target sizes in [0.1, 20] m"]
HARNESSES = Registry()


def hom(v, w):
    return torch.cat([v, torch.full(v.shape[:-1] + (1,), float(w))], -1)


def targets(h, k):
    c = h.real("center", (k, 3), -100, 100)
    n = h.unit("normal", 3, (k,))
    d = h.real("size", (k, 2), 0.1, 20)
    return TowerTargetAreasPlanar([f"t{i}" for i in range(k)], hom(c, 1), hom(n, 0), d), c, n, d


def rays(h, shape):
    d = h.real("dir", shape + (3,), -1, 1)
    m = h.real("mag", shape, 0, 10)
    return Rays(ray_directions=hom(d, 0), ray_magnitudes=m), d, m


def one(h, out, o, d, m, c, n, size, res, where=""):
    """The four values reported for one ray against the geometric definition of a hit."""
    be, bu, t, inten = out
    dn = (d * n).sum()
    num = ((c - o) * n).sum()
    front = dn < 0
    if not h.branch(front):
        h.eq(inten, torch.zeros(()), "no energy from behind or along the plane" + where)
        h.eq(t, torch.zeros(()), "no distance for a miss" + where)
        return
    # p = o + num / dn * d; multiplied by dn < 0 throughout
    pe = (o[0] - c[0]) * dn + num * d[0]
    pu = (o[2] - c[2]) * dn + num * d[2]
    ahead = num < 0
    inside = (2 * pe <= -size[0] * dn) & (-2 * pe <= -size[0] * dn) & (2 * pu <= -size[1] * dn) & (-2 * pu <= -size[1] * dn)
    if not h.branch(ahead):
        h.eq(inten, torch.zeros(()), "a target behind the ray origin is not hit" + where)
        return
    if not h.branch(inside):
        h.eq(inten, torch.zeros(()), "no energy outside the target" + where)
        h.eq(t, torch.zeros(()), "no distance for a miss" + where)
        return
    h.eq(inten, m * -dn, "cosine law" + where)
    h.eq(t * dn, num, "distance to the plane" + where)
    we, wu = res[0] - 1, res[1] - 1
    h.eq(be * size[0] * dn, we * (size[0] * dn / 2 - pe), "east pixel coordinate (flipped)" + where)
    h.eq(bu * size[1] * dn, wu * (size[1] * dn / 2 + pu), "up pixel coordinate" + where)
    h.check((be >= 0) & (be <= we) & (bu >= 0) & (bu <= wu), "pixel coordinates inside the bitmap" + where)


def off_plane(h, c, n, o):
    s = ((c - o) * n).sum()
    h.assume((s >= 0.01) | (s <= -0.01))


@HARNESSES("1 heliostat x 1 ray x 1 point; any origin, direction, magnitude, target; resolution 256 x 128")
def single(h):
    tg, c, n, size = targets(h, 1)
    o = h.real("o", (1, 1, 3), -500, 500)
    r, d, m = rays(h, (1, 1, 1))
    off_plane(h, c[0], n[0], o[0, 0])
    res = torch.tensor([256, 128])
    out = geometry.line_plane_intersections(r, hom(o, 1), tg, bitmap_resolution=res, device=CPU)
    one(h, [x[0, 0, 0] for x in out], o[0, 0], d[0, 0, 0], m[0, 0, 0], c[0], n[0], size[0], [256, 128])


@HARNESSES("any bitmap resolution from 2 x 2 to 512 x 512, target facing north or south")
def resolution(h):
    c = h.real("center", (1, 3), -10, 10)
    size = h.real("size", (1, 2), 0.5, 10)
    n = torch.tensor([[0.0, -1.0, 0.0]]) if h.branch(h.bool("south")) else torch.tensor([[0.0, 1.0, 0.0]])
    tg = TowerTargetAreasPlanar(["t"], hom(c, 1), hom(n, 0), size)
    o = h.real("o", (1, 1, 3), -100, 100)
    d = h.real("dir", (1, 1, 1, 3), -1, 1)
    r = Rays(ray_directions=hom(d, 0), ray_magnitudes=torch.ones(1, 1, 1))
    off_plane(h, c[0], n[0], o[0, 0])
    res = h.int("res", (2,), 2, 512)
    out = geometry.line_plane_intersections(r, hom(o, 1), tg, bitmap_resolution=res, device=CPU)
    one(h, [x[0, 0, 0] for x in out], o[0, 0], d[0, 0, 0], torch.ones(()), c[0], n[0], size[0], [res[0], res[1]])


@HARNESSES("2 heliostats x 2 rays x 2 points aimed at any of 2 targets: each ray judged with its own origin, direction and target", max_paths=200)
def pairing(h):
    tg, c, n, size = targets(h, 2)
    o = h.real("o", (2, 2, 3), -500, 500)
    r, d, m = rays(h, (2, 2, 2))
    ks = [h.choice("target0", 2), h.choice("target1", 2)]
    ti = torch.tensor(ks, dtype=torch.int32)
    res = torch.tensor([16, 32])
    out = geometry.line_plane_intersections(r, hom(o, 1), tg, ti, bitmap_resolution=res, device=CPU)
    for a in range(2):
        k = ks[a]
        for b in range(2):
            for p in range(2):
                t1 = TowerTargetAreasPlanar(["t"], tg.centers[k : k + 1], tg.normals[k : k + 1], tg.dimensions[k : k + 1])
                r1 = Rays(ray_directions=r.ray_directions[a : a + 1, b : b + 1, p : p + 1], ray_magnitudes=m[a : a + 1, b : b + 1, p : p + 1])
                ref = geometry.line_plane_intersections(r1, hom(o, 1)[a : a + 1, p : p + 1], t1, bitmap_resolution=res, device=CPU)
                for x, y, w in zip(out, ref, ("east coordinate", "up coordinate", "distance", "intensity")):
                    h.eq(x[a, b, p], y[0, 0, 0], w + " of a ray depends on that ray and its target only")
