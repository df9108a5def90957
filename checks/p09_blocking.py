"""P09: how much other heliostats block a ray."""

from checks.common import *
from artist.nurbs import utils as nurbs_utils
from artist.raytracing import blocking

PROPERTY = "P09"
ASSUMPTIONS = [
    REALS,
    "blocking planes with span lengths in [0.5, 10] m, ray directions with norm in [0.5, 2] and |component across the plane| >= 0.001; hits at least 2 % of the span away from an edge and 0.03 m away from the 0.05 m self-blocking offset (the soft edges themselves are only bounded to [0, 1])",
]
HARNESSES = Registry()


def hom(v, w):
    return torch.cat([v, torch.full(v.shape[:-1] + (1,), float(w))], -1)


def frame(h, tag, skew=True, free=True):
    """A blocking plane: corner, spans, normal, with arbitrary orientation."""
    if free:
        n, w1, w2 = h.sphere("n" + tag)
    else:
        n, w1, w2 = torch.tensor([0.6, 0.0, 0.8]), torch.tensor([0.8, 0.0, -0.6]), torch.tensor([0.0, 1.0, 0.0])
    c = h.real("corner" + tag, (3,), -100, 100)
    a, b = h.real("a" + tag, (), 0.5, 10), h.real("b" + tag, (), 0.5, 10)
    u = a * w1
    v = b * w2
    if skew:
        v = v + h.real("g" + tag, (), -1, 1) * w1
    return c, u, v, n, w1, w2


def mask(o, d, planes, **kw):
    """o [H,P,3], d [H,R,P,3], planes list of (corner, u, v, n)."""
    corners = torch.stack([torch.stack([hom(c, 1), hom(c + u, 1), hom(c + u + v, 1), hom(c + v, 1)]) for c, u, v, n in planes])
    spans = torch.stack([torch.stack([hom(u, 0), hom(v, 0)]) for c, u, v, n in planes])
    normals = torch.stack([hom(n, 0) for c, u, v, n in planes])
    return blocking.soft_ray_blocking_mask(hom(o, 1), hom(d, 0), corners, spans, normals, **kw)


def hit_ray(h, pl, tag=""):
    """A ray through the point corner + s u + t v of the plane at distance tau."""
    c, u, v, n, w1, w2 = pl
    s, t, tau = h.real("s" + tag, (), -3, 4), h.real("t" + tag, (), -3, 4), h.real("tau" + tag, (), -300, 300)
    dn, d1, d2 = h.real("dn" + tag, (), -2, 2), h.real("d1" + tag, (), -2, 2), h.real("d2" + tag, (), -2, 2)
    h.assume((dn >= 0.001) | (dn <= -0.001))
    d = dn * n + d1 * w1 + d2 * w2
    p = c + s * u + t * v
    return p - tau * d, d, s, t, tau


@HARNESSES("1 ray x 1 blocking parallelogram in any position and orientation: blocked iff it passes through in front of the origin", simplify=True, eager=True)
def one_blocker(h):
    pl = frame(h, "")
    o, d, s, t, tau = hit_ray(h, pl)
    through = (s >= 0.02) & (s <= 0.98) & (t >= 0.02) & (t <= 0.98) & (tau >= 0.08)
    misses = (s <= -0.02) | (s >= 1.02) | (t <= -0.02) | (t >= 1.02) | (tau <= 0.02)
    b = mask(o.reshape(1, 1, 3), d.reshape(1, 1, 1, 3), [pl[:4]])
    h.check(torch.tensor(tuple(b.shape) == (1, 1, 1)), "shape")
    if h.branch(through):
        h.check(b[0, 0, 0] >= 0.999, "a ray through a blocker is blocked")
    elif h.branch(misses):
        h.check(b[0, 0, 0] <= 0.001, "a ray past a blocker passes")


@HARNESSES("1 ray x 2 blockers, softness in [1, 1000], attenuation in [1, 100]: factor in [0, 1], and each blocker can only add attenuation")
def bounded_monotone(h):
    p1 = frame(h, "1", free=False)
    p2 = frame(h, "2", skew=False, free=False)
    o, d = hit_ray(h, p1)[:2]
    kw = dict(softness=h.real("softness", (), 1, 1000), alpha=h.real("alpha", (), 1, 100))
    o, d = o.reshape(1, 1, 3), d.reshape(1, 1, 1, 3)
    both = mask(o, d, [p1[:4], p2[:4]], **kw)[0, 0, 0]
    only = mask(o, d, [p1[:4]], **kw)[0, 0, 0]
    h.check((both >= 0) & (both <= 1), "blocking factor between 0 and 1")
    h.check((only >= 0) & (only <= 1), "blocking factor between 0 and 1")
    h.check(both >= only, "another blocker never lets more light through")


@HARNESSES("2 heliostats x 2 rays x 2 points x 2 blockers: every ray judged with its own origin and direction")
def pairing(h):
    p1 = frame(h, "1", free=False)
    p2 = frame(h, "2", free=False)
    o = h.real("o", (2, 2, 3), -100, 100)
    d = h.real("d", (2, 2, 2, 3), -2, 2)
    b = mask(o, d, [p1[:4], p2[:4]])
    for a in range(2):
        for r in range(2):
            for p in range(2):
                one = mask(o[a : a + 1, p : p + 1], d[a : a + 1, r : r + 1, p : p + 1], [p2[:4], p1[:4]])
                h.eq(b[a, r, p], one[0, 0, 0], "blocking of a ray depends on that ray and the blockers only")


def sheet(h, k, g):
    """A flat 2 x 2 facet heliostat in the library's point order: facets NW, NE, SW, SE, each an evaluation grid."""
    w, ht = h.real(f"w{k}", (), 1, 8), h.real(f"ht{k}", (), 1, 8)
    c = h.real(f"c{k}", (3,), -100, 100)
    n, e1, e2 = h.sphere(f"n{k}")
    grid = nurbs_utils.create_nurbs_evaluation_grid(torch.tensor([g, g]), epsilon=0.0, device=CPU)
    rows = []
    for fe, fn in ((-1, 0), (0, 0), (-1, -1), (0, -1)):
        for q in grid.reshape(-1, 2):
            rows.append(c + (fe + float(q[0])) * w / 2 * e1 + (fn + float(q[1])) * ht / 2 * e2)
    return torch.stack(rows), (c, n, e1, e2, w, ht)


def primitives(h, g):
    ps = [sheet(h, k, g) for k in range(2)]
    corners, spans, normals = blocking.create_blocking_primitives_rectangles_by_index(hom(torch.stack([p for p, _ in ps]), 1), device=CPU)
    for k in range(2):
        c, n, e1, e2, w, ht = ps[k][1]
        for q, (se, sn) in enumerate(((-1, -1), (-1, 1), (1, 1), (1, -1))):
            h.eq(corners[k, q, :3], c + se * w / 2 * e1 + sn * ht / 2 * e2, "the corners are the outermost surface points, in order")
        h.eq(spans[k, 0, :3], ht * e2, "spans run from the first corner to its neighbours")
        h.eq(spans[k, 1, :3], w * e1, "spans run from the first corner to its neighbours")
        h.eq((normals[k, :3] * n).sum() ** 2, torch.ones(()), "unit normal of the blocking plane")
        h.eq(normals[k, 3], torch.zeros(()), "normals are directions")
        h.eq(spans[k, :, 3], torch.zeros(2), "spans are directions")
        h.eq(corners[k, :, 3], torch.ones(4), "corners are points")


@HARNESSES("2 flat heliostats in any pose, 4 facets of 2 x 2 points: blocking rectangle from the real point order", simplify=True)
def primitives_2(h):
    primitives(h, 2)


@HARNESSES("2 flat heliostats in any pose, 4 facets of 5 x 5 points: blocking rectangle from the real point order", simplify=True)
def primitives_5(h):
    primitives(h, 5)


@HARNESSES("1 flat heliostat in any pose, 5 points: four corners in any order by arbitrary scaling and one inner point; rectangle from the unaligned surface", simplify=True, eager=True, max_paths=600)
def primitives_search(h):
    w, ht = h.real("w", (), 1, 8), h.real("ht", (), 1, 8)
    n, e1, e2 = h.sphere("n")
    c = h.real("c", (3,), -100, 100)
    rot = 2 * h.choice("rotation of the point order", 2)
    loc = [(-0.5, -0.5), (-0.5, 0.5), (0.5, 0.5), (0.5, -0.5), (h.real("ie", (), -0.4, 0.4), h.real("in", (), -0.4, 0.4))]
    loc = loc[rot:] + loc[:rot]
    flat = torch.stack([torch.stack([torch.as_tensor(a) * w, torch.as_tensor(b) * ht, torch.zeros(())]) for a, b in loc])
    act = torch.stack([c + a * w * e1 + b * ht * e2 for a, b in loc])
    corners, spans, normals = blocking.create_blocking_primitives_rectangle(hom(flat[None], 1), hom(act[None], 1), device=CPU)
    for q, (se, sn) in enumerate(((-0.5, -0.5), (-0.5, 0.5), (0.5, 0.5), (0.5, -0.5))):
        h.eq(corners[0, q, :3], c + se * w * e1 + sn * ht * e2, "the corners are the outermost surface points, in order")
    h.eq(spans[0, 0, :3], ht * e2, "spans run from the first corner to its neighbours")
    h.eq(spans[0, 1, :3], w * e1, "spans run from the first corner to its neighbours")
    h.eq((normals[0, :3] * n).sum() ** 2, torch.ones(()), "unit normal of the blocking plane")
