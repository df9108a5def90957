"""P08: distributing ray intensities onto the flux bitmap."""

from types import SimpleNamespace

from checks.common import *
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.scene.sun import Sun

PROPERTY = "P08"
ASSUMPTIONS = [REALS]
HARNESSES = Registry()


def tracer(n_hel, res, targets=(2, 1), points=1, rays=1):
    sun = Sun(number_of_rays=rays, device=CPU)
    group = SimpleNamespace(active_surface_points=torch.zeros(n_hel, points, 4), number_of_active_heliostats=n_hel, active_heliostats_mask=torch.ones(n_hel, dtype=torch.int32))
    sc = SimpleNamespace(light_sources=SimpleNamespace(light_source_list=[sun]), solar_tower=SimpleNamespace(number_of_target_areas_per_type=torch.tensor(targets)))
    return HeliostatRayTracer(sc, group, blocking_active=False, bitmap_resolution=torch.tensor(res))


def cell(h, name, n):
    """A bitmap coordinate in [0, n - 1]: a chosen pixel cell and an arbitrary fraction (closed on the last one)."""
    k = h.choice("cell_" + name, n - 1)
    f = h.real("frac_" + name, (), 0, 1)
    if k < n - 2:
        h.assume(f < 1)
    return k + f, k, f


def moments(b, res):
    """Sum and first moments in pixel coordinates of rays: east index from the left, up index from the bottom."""
    e = torch.arange(res[0], dtype=torch.float32)
    u = torch.arange(res[1] - 1, -1, -1, dtype=torch.float32)
    return b.sum(), (b * e[None, :]).sum(), (b * u[:, None]).sum()


@HARNESSES("one ray anywhere on a 4 x 3 bitmap, edges included", max_paths=300)
def one_ray(h):
    res = [4, 3]
    e, ke, fe = cell(h, "e", res[0])
    u, ku, fu = cell(h, "u", res[1])
    m = h.real("m", (), 0, 10)
    b = tracer(1, res).bilinear_splatting(e.reshape(1, 1, 1), u.reshape(1, 1, 1), m.reshape(1, 1, 1), device=CPU)
    h.check(torch.tensor(tuple(b.shape) == (1, 3, 4)), "bitmap shape")
    b = b[0]
    for r in range(res[1]):
        for c in range(res[0]):
            we = {ke: 1 - fe, ke + 1: fe}.get(c)
            wu = {ku: 1 - fu, ku + 1: fu}.get(res[1] - 1 - r)
            h.eq(b[r, c], m * we * wu if we is not None and wu is not None else torch.zeros(()), "the four neighbouring pixels share the ray by proximity")


@HARNESSES("one ray at any real position in [-6, 10]^2 of a 3 x 4 bitmap: energy kept on the target, dropped off it", max_paths=300)
def anywhere(h):
    res = [3, 4]
    e, u, m = h.real("e", (), -6, 10), h.real("u", (), -6, 10), h.real("m", (), 0, 10)
    on = h.branch((e >= 0) & (e <= res[0] - 1) & (u >= 0) & (u <= res[1] - 1))
    b = tracer(1, res).bilinear_splatting(e.reshape(1, 1, 1), u.reshape(1, 1, 1), m.reshape(1, 1, 1), device=CPU)
    s, me, mu = moments(b[0], res)
    h.eq(s, m if on else torch.zeros(()), "total energy of the bitmap")
    if on:
        h.eq(me, m * e, "east centre of energy at the hit point")
        h.eq(mu, m * u, "up centre of energy at the hit point")
    for v in b.reshape(-1):
        h.check(v >= 0, "pixels are never negative")


@HARNESSES("2 heliostats x 1 ray x 2 points on a 3 x 3 bitmap: energies add up and do not leak between heliostats", max_paths=600)
def superposition(h):
    res = [3, 3]
    es, us, ms = [], [], h.real("m", (2, 1, 2), 0, 10)
    for a in range(2):
        for p in range(2):
            es.append(h.real(f"e{a}{p}", (), 0, 2))
            us.append(torch.tensor(0.25 + p) if a else torch.tensor(1.5 - p * 0.75))
    e = torch.stack(es).reshape(2, 1, 2)
    u = torch.stack(us).reshape(2, 1, 2)
    rt = tracer(2, res, points=2)
    b = rt.bilinear_splatting(e, u, ms, device=CPU)
    for a in range(2):
        one = [tracer(1, res).bilinear_splatting(e[a : a + 1, :, p : p + 1], u[a : a + 1, :, p : p + 1], ms[a : a + 1, :, p : p + 1], device=CPU)[0] for p in range(2)]
        h.eq(b[a], one[0] + one[1], "bitmap of a heliostat is the sum over its own rays")


@HARNESSES("3 heliostats with arbitrary 2 x 2 bitmaps aimed at any of 3 targets (27 assignments)", max_paths=100)
def per_target(h):
    res = [2, 2]
    b = h.real("bitmaps", (3, 2, 2), 0, 10)
    t = [h.choice(f"target{i}", 3) for i in range(3)]
    out = tracer(3, res).get_bitmaps_per_target(b, torch.tensor(t), device=CPU)
    h.check(torch.tensor(tuple(out.shape) == (3, 2, 2)), "one bitmap per target")
    for k in range(3):
        ref = sum([b[i] for i in range(3) if t[i] == k], torch.zeros(2, 2))
        h.eq(out[k], ref, "bitmap of a target is the sum of the heliostats aimed at it")
