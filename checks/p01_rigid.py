"""P01: rotations, scatter rotations, translations and canting are rigid motions with the documented axes."""

from checks.common import *
from artist.geometry import transforms

PROPERTY = "P01"
ASSUMPTIONS = [REALS, "canting vectors: norm in [0.05, 100], not parallel (cross product norm >= 0.01), spanning a facet"]
HARNESSES = Registry()


def mm(m):
    return m @ m.transpose(-1, -2)


def det3(m):
    a, b, c = m[..., 0, :3], m[..., 1, :3], m[..., 2, :3]
    return (a * torch.linalg.cross(b, c, dim=-1)).sum(-1)


@HARNESSES("3 angles per call, each any real")
def axis_rotations(h):
    t = h.real("angle", (3,))
    ax = [transforms.rotate_e(t, device=CPU), transforms.rotate_n(t, device=CPU), transforms.rotate_u(t, device=CPU)]
    c, s = torch.cos(t), torch.sin(t)
    z, o = torch.zeros(3), torch.ones(3)
    for k, m in enumerate(ax):
        h.eq(mm(m), torch.eye(4).expand(3, 4, 4), "orthonormal")
        h.eq(det3(m), torch.ones(3), "handedness kept")
        h.eq(m[:, k, :], torch.eye(4)[k].expand(3, 4), "axis fixed")
        h.eq(m[:, :, k], torch.eye(4)[k].expand(3, 4), "axis fixed")
    # direction of rotation: e-rotation sends north towards up, u-rotation east towards north, n-rotation east towards up
    h.eq(ax[0][:, :, 1], torch.stack([z, c, s, z], 1), "east rotation turns north to up")
    h.eq(ax[1][:, :, 0], torch.stack([c, z, s, z], 1), "north rotation turns east to up")
    h.eq(ax[2][:, :, 0], torch.stack([c, s, z, z], 1), "up rotation turns east to north")


@HARNESSES("2 angles added")
def rotations_compose(h):
    a, b = h.real("a", (2,)), h.real("b", (2,))
    for f in (transforms.rotate_e, transforms.rotate_n, transforms.rotate_u):
        h.eq(f(a, device=CPU) @ f(b, device=CPU), f(a + b, device=CPU), "angles add")
        h.eq(f(a, device=CPU) @ f(-a, device=CPU), torch.eye(4).expand(2, 4, 4), "inverse by negation")


@HARNESSES("scatter rotation: 2 heliostats x 1 ray x 2 points, any angles, any direction")
def scatter_rotation(h):
    e, u = h.real("e", (2, 1, 2)), h.real("u", (2, 1, 2))
    m = transforms.rotate_distortions(e=e, u=u, device=CPU)
    h.eq(mm(m), torch.eye(4).expand(2, 1, 2, 4, 4), "orthonormal")
    h.eq(det3(m), torch.ones(2, 1, 2), "handedness kept")
    d = h.real("d", (2, 1, 2, 4), -10, 10)
    r = (m @ d.unsqueeze(-1)).squeeze(-1)
    h.eq((r * r).sum(-1), (d * d).sum(-1), "length kept")
    for i in range(2):
        for k in range(2):
            ref = transforms.rotate_e(e[i, :, k], device=CPU) @ transforms.rotate_u(u[i, :, k], device=CPU)
            h.eq(m[i, :, k], ref, "equals east rotation after up rotation")


@HARNESSES("translation of 2 entries by any offsets")
def translation(h):
    e, n, u = h.real("e", (2,)), h.real("n", (2,)), h.real("u", (2,))
    m = transforms.translate_enu(e, n, u, device=CPU)
    p = h.real("p", (2, 3))
    q = (m @ torch.cat([p, torch.ones(2, 1)], 1).unsqueeze(-1)).squeeze(-1)
    h.eq(q, torch.cat([p + torch.stack([e, n, u], 1), torch.ones(2, 1)], 1), "points shifted")
    d = (m @ torch.cat([p, torch.zeros(2, 1)], 1).unsqueeze(-1)).squeeze(-1)
    h.eq(d, torch.cat([p, torch.zeros(2, 1)], 1), "directions unchanged")
    h.eq(m @ transforms.translate_enu(-e, -n, -u, device=CPU), torch.eye(4).expand(2, 4, 4), "inverse by negation")


def canting(h, s=1, f=1, w=0):
    c = h.real("c", (s, f, 2, 4), -2, 2)
    for i in range(s):
        for j in range(f):
            h.assume(torch.linalg.vector_norm(torch.linalg.cross(c[i, j, 0, :3], c[i, j, 1, :3])) >= 0.01)
            h.assume(torch.linalg.vector_norm(c[i, j, 0, :3]) >= 0.05)
            h.assume(torch.linalg.vector_norm(c[i, j, 0, :3]) <= 100)
    return c


@HARNESSES("canting of 1 surface x 1 facet x 2 points; any non-degenerate canting vectors")
def canting_rigid(h):
    c = canting(h)
    d = h.real("d", (1, 1, 2, 4), -5, 5)
    r = transforms.perform_canting(c, d, device=CPU)
    h.eq((r * r).sum(-1), (d * d).sum(-1), "length kept")
    h.eq((r[:, :, 0] * r[:, :, 1]).sum(-1), (d[:, :, 0] * d[:, :, 1]).sum(-1), "angles kept")
    h.eq(r[..., 3], d[..., 3], "homogeneous component kept")
    h.eq(transforms.perform_canting(c, r, inverse=True, device=CPU), d, "inverse undoes canting")


@HARNESSES("facet frame of 1 facet")
def canting_frame(h):
    c = canting(h)
    d = torch.eye(4)[None, None]
    r = transforms.perform_canting(c, d, device=CPU)[0, 0]
    e, n = c[0, 0, 0, :3], c[0, 0, 1, :3]
    h.eq(r[0, :3] * torch.linalg.vector_norm(e), e, "east of the facet follows the east canting vector")
    h.eq((r[2, :3] * e).sum(), torch.zeros(()), "facet normal orthogonal to east canting vector")
    h.eq((r[2, :3] * n).sum(), torch.zeros(()), "facet normal orthogonal to north canting vector")
    h.eq(torch.linalg.cross(r[0, :3], r[1, :3], dim=-1), r[2, :3], "right handed frame")
    x = torch.linalg.cross(e, n, dim=-1)
    h.le(torch.zeros(()), (x * r[2, :3]).sum(), "normal on the right side")


@HARNESSES("2 surfaces x 2 facets: each facet uses its own canting vectors", max_paths=50)
def canting_batched(h):
    c = canting(h, 2, 2)
    d = h.real("d", (2, 2, 1, 4), -5, 5)
    inv = h.branch(h.bool("inverse"))
    r = transforms.perform_canting(c, d, inverse=inv, device=CPU)
    for i in range(2):
        for j in range(2):
            h.eq(r[i, j], transforms.perform_canting(c[i : i + 1, j : j + 1], d[i : i + 1, j : j + 1], inverse=inv, device=CPU)[0, 0], "facet independent of the others")
