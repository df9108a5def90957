"""P13: end-to-end ray tracing: wiring of the stages, batching and independence of heliostats."""

import random
from types import SimpleNamespace

from checks.common import *
from artist.field.solar_tower import SolarTower
from artist.field.tower_target_areas_cylindrical import TowerTargetAreasCylindrical
from artist.field.tower_target_areas_planar import TowerTargetAreasPlanar
from artist.geometry import transforms
from artist.raytracing import blocking, geometry
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.scene.rays import Rays
from artist.scene.sun import Sun

PROPERTY = "P13"
ASSUMPTIONS = [REALS, "scatter angles are arbitrary symbolic values (the sampling distribution itself is the random number generator's)", "the stages (reflection, scattering, intersection, splatting) are decided by P01, P04-P08; here their composition is"]
HARNESSES = Registry()


def hom(v, w):
    return torch.cat([v, torch.full(v.shape[:-1] + (1,), float(w))], -1)


class FixedSun(Sun):
    """The sun with prescribed (symbolic) scatter angles."""

    def __init__(self, u, e):
        super().__init__(number_of_rays=u.shape[1], device=CPU)
        self.given = u, e

    def get_distortions(self, *a, **k):
        return self.given


def weights(k, seed):
    g = random.Random(seed)
    return torch.tensor([g.randint(1, 64) / 16 for _ in range(k)])


def stage(kind, seed):
    """Stand-in for an intersection routine: a fixed generic function of exactly the data of each ray and its target."""

    def f(rays, points_at_ray_origins, target_areas, target_area_indices=None, bitmap_resolution=None, device=None):
        d, m = rays.ray_directions, rays.ray_magnitudes
        o = points_at_ray_origins[:, None].expand(d.shape)
        if target_area_indices is None:
            target_area_indices = torch.zeros(d.shape[0], dtype=torch.int64)
        t = row(target_areas, kind)[target_area_indices][:, None, None].expand(d.shape[:3] + (-1,))
        x = torch.cat([d, o, t, m[..., None]], -1)
        return tuple(torch.tanh((x * weights(x.shape[-1], seed + j)).sum(-1) / 128) for j in range(4))

    return f


def row(a, kind):
    if kind == "plane":
        return torch.cat([a.centers, a.normals, a.dimensions], -1)
    return torch.cat([a.centers, a.normals, a.axes, a.radii[:, None], a.heights[:, None], a.opening_angles[:, None]], -1)


PLANE, CYL = stage("plane", 10), stage("cylinder", 20)


def splat(res):
    def f(bitmap_intersections_e, bitmap_intersections_u, absolute_intensities, device=None):
        e, u, i = (x[..., None, None] for x in (bitmap_intersections_e, bitmap_intersections_u, absolute_intensities))
        w = [weights(res[0] * res[1], 30 + j).reshape(res[1], res[0]) for j in range(3)]
        k = weights(e.shape[1] * e.shape[2], 40).reshape(1, e.shape[1], e.shape[2], 1, 1)
        return ((e * w[0] + u * w[1] + i * w[2]) * k).sum((1, 2))

    return f


class stages:
    """Replace the intersection routines while the tracer runs."""

    def __enter__(self):
        self.old = geometry.line_plane_intersections, geometry.line_cylinder_intersections
        geometry.line_plane_intersections, geometry.line_cylinder_intersections = PLANE, CYL

    def __exit__(self, *a):
        geometry.line_plane_intersections, geometry.line_cylinder_intersections = self.old


def free(h, name, shape):
    return h.real(name, shape, -1, 1)


def tower(h, np_, nc):
    p = TowerTargetAreasPlanar([f"p{i}" for i in range(np_)], free(h, "pc", (np_, 4)), free(h, "pn", (np_, 4)), free(h, "ps", (np_, 2)))
    q = TowerTargetAreasCylindrical(names=[f"c{i}" for i in range(nc)], centers=free(h, "cc", (nc, 4)), normals=free(h, "cn", (nc, 4)), axes=free(h, "ca", (nc, 4)), radii=free(h, "r", (nc,)), heights=free(h, "ht", (nc,)), opening_angles=free(h, "op", (nc,)))
    return SolarTower([p, q], device=CPU)


class Scene:
    def __init__(self, h, mask, np_, nc, rays=1, points=2):
        self.mask = torch.tensor(mask, dtype=torch.int32)
        k = int(self.mask.sum())
        self.k, self.rays, self.points = k, rays, points
        self.u, self.e = h.real("du", (k, rays, points), -0.1, 0.1), h.real("de", (k, rays, points), -0.1, 0.1)
        self.tower = tower(h, np_, nc)
        self.pts = free(h, "pt", (k, points, 4))
        self.nrm = free(h, "nrm", (k, points, 4))
        self.inc = free(h, "inc", (k, 4))

    def tracer(self, res, **kw):
        n = len(self.mask)
        g = SimpleNamespace(
            active_surface_points=self.pts,
            active_surface_normals=self.nrm,
            surface_points=torch.zeros(n, self.points, 4),
            surface_normals=torch.zeros(n, self.points, 4),
            positions=torch.zeros(n, 4),
            number_of_heliostats=n,
            number_of_active_heliostats=self.k,
            active_heliostats_mask=self.mask,
            preferred_reflection_directions=torch.empty(0),
        )
        sun = FixedSun(self.u, self.e)
        sc = SimpleNamespace(light_sources=SimpleNamespace(light_source_list=[sun]), solar_tower=self.tower, heliostat_field=SimpleNamespace(heliostat_groups=[g]))
        t = HeliostatRayTracer(sc, g, blocking_active=False, bitmap_resolution=torch.tensor(res), **kw)
        t.bilinear_splatting = splat(res)
        return t

    def run(self, t, targets, **kw):
        with stages():
            return t.trace_rays(self.inc, self.mask, torch.tensor(targets), device=CPU, **kw)

    def expected(self, s, target, res, factor, magnitude=1.0):
        """Sample s traced alone, written down stage by stage."""
        refl = geometry.reflect(self.inc[s : s + 1, None], self.nrm[s : s + 1])[0]
        m = transforms.rotate_distortions(u=self.u[s : s + 1], e=self.e[s : s + 1], device=CPU)
        d = (m @ refl[None, None, :, :, None]).squeeze(-1)
        r = Rays(ray_directions=d, ray_magnitudes=torch.full(d.shape[:3], float(magnitude)) if not isinstance(magnitude, torch.Tensor) else magnitude.expand(d.shape[:3]))
        npl = self.tower.target_areas[0].centers.shape[0]
        f, a, k = (PLANE, self.tower.target_areas[0], target) if target < npl else (CYL, self.tower.target_areas[1], target - npl)
        be, bu, _, i = f(r, self.pts[s : s + 1], a, torch.tensor([k]))
        return splat(res)(be, bu, i * factor)[0], (i * factor > 0).sum() / i.numel(), (i > 0).sum() / i.numel()


NAMES = ("flux", "intercept factor", "on-target factor", "blocking factor")
RES = (2, 3)


def compare(h, sc, out, rows, tg, factor, what, mag=1.0):
    for s in rows:
        flux, icpt, on = sc.expected(s, tg[s], RES, factor, mag)
        h.eq(out[0][s], flux, "flux of a heliostat is that of its own rays on its own target" + what)
        h.eq(out[1][s], icpt, "share of rays delivering energy" + what)
        h.eq(out[2][s], on, "share of rays meeting the target" + what)
        h.eq(out[3][s], torch.ones(()), "no ray is blocked without blocking" + what)


@HARNESSES("3 samples of 3 heliostats (some inactive or active twice), 4 assignments to 3 targets (2 planar, 1 cylindrical), batch sizes 1, 2 and 100", max_paths=2000, simplify=True)
def batches(h):
    mask = [[1, 1, 1], [1, 0, 1, 1], [2, 0, 1], [0, 3]][h.choice("mask", 4)]
    sc = Scene(h, mask, 2, 1)
    tg = [[0, 1, 2], [2, 0, 1], [1, 1, 0], [2, 2, 2]][h.choice("targets", 4)]
    b = [1, 2, 100][h.choice("batch", 3)]
    ext, refl = h.real("extinction", (), 0, 0.9), h.real("reflectivity", (), 0.1, 1)
    out = sc.run(sc.tracer(RES, batch_size=b), tg, ray_extinction_factor=ext, mirror_reflectivity=refl)
    h.check(torch.tensor(tuple(out[0].shape) == (3, RES[0], RES[1]) if RES[0] == RES[1] else len(out[0]) == 3), "one bitmap per sample")
    compare(h, sc, out, range(3), tg, (1 - ext) * refl, "")


@HARNESSES("4 samples of 2 to 4 heliostats shared between 1 to 5 processes", max_paths=2000, simplify=True)
def ranks(h):
    mask = [[1, 1, 1, 1], [2, 2], [3, 1], [1, 0, 2, 1]][h.choice("mask", 4)]
    sc = Scene(h, mask, 1, 1, points=1)
    tg = [0, 1, 0, 1]
    w = 1 + h.choice("world", 5)
    b = [1, 2, 100][h.choice("batch", 3)]
    seen = []
    for r in range(w):
        t = sc.tracer(RES, batch_size=b, world_size=w, rank=r)
        own = [int(i) for i in t.get_sampler_indices()]
        out = sc.run(t, tg)
        compare(h, sc, out, own, tg, torch.tensor(0.935), f" (several processes)")
        for i in set(range(4)) - set(own):
            h.eq(out[0][i], torch.zeros(RES[1], RES[0]), "samples of other processes have no energy")
        seen += own
    h.check(torch.tensor(sorted(seen) == list(range(4))), "every sample is traced by exactly one process")


class blocking_stages(stages):
    """Also replace the blocking stages: surfaces are represented by their first point, rays see a generic attenuation."""

    def __init__(self, keep):
        self.keep, self.seen = keep, []

    def __enter__(self):
        super().__enter__()
        self.old_b = {k: getattr(blocking, k) for k in ("create_blocking_primitives_rectangles_by_index", "lbvh_filter_blocking_planes", "soft_ray_blocking_mask")}

        def create(blocking_heliostats_active_surface_points, device=None):
            p = blocking_heliostats_active_surface_points[:, :1]
            return p.expand(-1, 4, -1), p.expand(-1, 2, -1), p[:, 0]

        def filt(points_at_ray_origins, ray_directions, blocking_primitives_corners, ray_to_heliostat_mapping, intersection_distances_target, device=None):
            self.seen.append((points_at_ray_origins, ray_directions, blocking_primitives_corners, ray_to_heliostat_mapping, intersection_distances_target))
            return torch.tensor(self.keep, dtype=torch.int64)

        blocking.create_blocking_primitives_rectangles_by_index = create
        blocking.lbvh_filter_blocking_planes = filt
        blocking.soft_ray_blocking_mask = attenuation

    def __exit__(self, *a):
        super().__exit__()
        for k, v in self.old_b.items():
            setattr(blocking, k, v)


def attenuation(ray_origins, ray_directions, blocking_primitives_corners, blocking_primitives_spans, blocking_primitives_normals, epsilon=1e-12, softness=1000.0, alpha=100.0, ray_origin_offset=0.05):
    x = torch.cat([ray_origins[:, None].expand(ray_directions.shape), ray_directions], -1)
    r = (x * weights(8, 50)).sum(-1)
    p = (blocking_primitives_corners.sum((1, 2)) + 2 * blocking_primitives_spans.sum((1, 2)) + 3 * blocking_primitives_normals.sum(1)).sum()
    return torch.sigmoid((r + p) / 128)


@HARNESSES("3 groups (1, 3 and 2 heliostats, active ones in any of 2 patterns), rays of any group, batch sizes 1 and 100, any of 3 sets of possible blockers", max_paths=2000, simplify=True, budget_s=300)
def blocking_wiring(h):
    sizes = (1, 3, 2)
    masks = [([1], [1, 0, 1], [0, 0]), ([0], [0, 1, 1], [1, 1])][h.choice("pattern", 2)]
    own = 1 if masks[2] == [0, 0] else 1 + h.choice("group", 2)
    b = [1, 100][h.choice("batch", 2)]
    keep = [[], [0], [5, 3]][h.choice("keep", 3)]
    P = 2
    res = RES
    groups, surf = [], []
    for i, (n, m) in enumerate(zip(sizes, masks)):
        k = sum(m)
        g = SimpleNamespace(surface_points=free(h, f"sp{i}", (n, P, 4)), positions=free(h, f"pos{i}", (n, 4)), active_heliostats_mask=torch.tensor(m, dtype=torch.int32), number_of_heliostats=n, number_of_active_heliostats=k, active_surface_points=free(h, f"act{i}", (k, P, 4)), active_surface_normals=free(h, f"nrm{i}", (k, P, 4)), preferred_reflection_directions=torch.empty(0))
        g.surface_normals = torch.zeros(n, P, 4)
        groups.append(g)
        j = 0
        for q in range(n):
            if m[q]:
                surf.append((i, q, j, g.active_surface_points[j]))
                j += 1
            else:
                surf.append((i, q, None, g.surface_points[q] + g.positions[q][None]))
    g = groups[own]
    k = g.number_of_active_heliostats
    sc = Scene.__new__(Scene)
    sc.mask, sc.k, sc.points, sc.rays = g.active_heliostats_mask, k, P, 1
    sc.u, sc.e = h.real("du", (k, 1, P), -0.1, 0.1), h.real("de", (k, 1, P), -0.1, 0.1)
    sc.tower, sc.pts, sc.nrm, sc.inc = tower(h, 2, 1), g.active_surface_points, g.active_surface_normals, free(h, "inc", (k, 4))
    tg = [1, 2][:k]
    scen = SimpleNamespace(light_sources=SimpleNamespace(light_source_list=[FixedSun(sc.u, sc.e)]), solar_tower=sc.tower, heliostat_field=SimpleNamespace(heliostat_groups=groups))
    t = HeliostatRayTracer(scen, g, blocking_active=True, bitmap_resolution=torch.tensor(res), batch_size=b)
    t.bilinear_splatting = splat(res)
    bs = blocking_stages(keep)
    with bs:
        out = t.trace_rays(sc.inc, sc.mask, torch.tensor(tg), device=CPU)
    # what the search for possible blockers is given
    first = torch.stack([s[3][0] for s in surf])
    at = 0
    for o, d, corners, owner, dist in bs.seen:
        h.eq(corners[:, 0], first, "every mirror of every group is a possible blocker, where it stands now")
        nb = o.shape[0]
        owner = owner.reshape(nb, -1)
        for x in range(nb):
            s = at + x
            h.eq(o[x], sc.pts[s], "rays start at their own mirror")
            glob = next(n for n, z in enumerate(surf) if z[0] == own and z[2] == s)
            h.check(owner[x] == glob, "a ray's own mirror is the one excluded from its blockers")
        at += nb
    h.check(torch.tensor(at == k), "all rays are checked for blocking")
    for s in range(k):
        refl = geometry.reflect(sc.inc[s : s + 1, None], sc.nrm[s : s + 1])[0]
        m = transforms.rotate_distortions(u=sc.u[s : s + 1], e=sc.e[s : s + 1], device=CPU)
        d = (m @ refl[None, None, :, :, None]).squeeze(-1)
        r = Rays(ray_directions=d, ray_magnitudes=torch.ones(d.shape[:3]))
        f, a, q = (PLANE, sc.tower.target_areas[0], tg[s]) if tg[s] < 2 else (CYL, sc.tower.target_areas[1], tg[s] - 2)
        be, bu, _, i = f(r, sc.pts[s : s + 1], a, torch.tensor([q]))
        if keep:
            pr = torch.stack([surf[z][3][0] for z in keep])
            bl = attenuation(sc.pts[s : s + 1], d, pr[:, None].expand(-1, 4, -1), pr[:, None].expand(-1, 2, -1), pr)
        else:
            bl = torch.zeros_like(i)
        h.eq(out[0][s], splat(res)(be, bu, i * (1 - bl) * 0.935)[0], "blocked energy is missing from the flux, and nothing else")
        h.eq(out[2][s], (i > 0).sum() / i.numel(), "share of rays meeting the target ignores blocking")
        h.eq(out[3][s], (bl < 1e-3).sum() / i.numel(), "share of rays not blocked")
