"""P15: NURBS surfaces: points, normals, basis functions and planar control points."""

from types import SimpleNamespace

from checks.common import *
from artist.field.heliostat_field import HeliostatField
from artist.field.surface import Surface
from artist.geometry import transforms
from artist.nurbs.surfaces import NURBSSurfaces
from artist.nurbs.utils import create_nurbs_evaluation_grid, create_planar_nurbs_control_points

PROPERTY = "P15"
ASSUMPTIONS = [REALS, "evaluation points lie in [0, 1) (uniform knots; the code documents the open unit interval) or in [0, 1] (general knots)"]
HARNESSES = Registry()


def clamped(n, p):
    """Uniform clamped knot vector of n control points of degree p."""
    m = n - p
    return [0.0] * (p + 1) + [k / m for k in range(1, m)] + [1.0] * (p + 1)


def cox(t, p, i, s, x):
    """Value and slope at x (in the half open span s) of the i-th B-spline of degree p over the knots t, by the Cox-de Boor recursion."""
    if i < s - p or i > s:
        return 0.0, 0.0
    if p == 0:
        return 1.0, 0.0
    v = d = 0.0
    a, da = cox(t, p - 1, i, s, x)
    b, db = cox(t, p - 1, i + 1, s, x)
    if s - p + 1 <= i <= s:
        w = t[i + p] - t[i]
        v, d = v + (x - t[i]) / w * a, d + a / w + (x - t[i]) / w * da
    if s - p + 1 <= i + 1 <= s:
        w = t[i + p + 1] - t[i + 1]
        v, d = v + (t[i + p + 1] - x) / w * b, d - b / w + (t[i + p + 1] - x) / w * db
    return v, d


def point_in(h, name, p, n, s=None):
    """An evaluation coordinate in span s (chosen if not given), and that span."""
    s = h.choice("span_" + name, n - p) + p if s is None else s
    f = h.real("x_" + name, (), 0, 1)
    h.assume(f < 1)
    return (s - p + f) / (n - p), s


def ev(x, y):
    z = lambda a: a if isinstance(a, torch.Tensor) else torch.tensor(float(a))
    return torch.stack([z(x), z(y)])


@HARNESSES("degrees 1 to 3, up to 3 more control points than the degree, any evaluation coordinate: spans, basis functions, derivatives", simplify=True)
def basis(h):
    p = 1 + h.choice("degree", 3)
    n = p + 1 + h.choice("more", 3)
    one = h.choice("direction", 2)
    x, s = point_in(h, "x", p, n)
    deg = [2, 2]
    deg[one] = p
    shape = [4, 4]
    shape[one] = n
    e = ev(x, 0.1) if one == 0 else ev(0.1, x)
    nurbs = NURBSSurfaces(torch.tensor(deg), torch.zeros(1, 1, *shape, 3), uniform=h.choice("general", 2) == 0, device=CPU)
    k = [nurbs.knot_vectors_u, nurbs.knot_vectors_v][one]
    t = clamped(n, p)
    h.eq(k[0, 0], torch.tensor(t), "knot vector: uniform and clamped")
    span = nurbs.find_spans(one, e.reshape(1, 1, 1, 2), k, device=CPU)
    h.check(span[0, 0, 0] == s, "knot span of the coordinate")
    span = torch.full((1, 1, 1), s)
    b = nurbs.basis_functions_and_derivatives(one, e.reshape(1, 1, 1, 2), k, span, nth_derivative=1, device=CPU)
    total, slope = torch.zeros(()), torch.zeros(())
    for j in range(p + 1):
        v, d = cox(t, p, s - p + j, s, x)
        h.eq(b[0][j][0, 0, 0], v + torch.zeros(()), "basis function of the Cox-de Boor recursion")
        h.eq(b[1][j][0, 0, 0], d + torch.zeros(()), "derivative of the basis function")
        h.check(b[0][j][0, 0, 0] >= 0, "basis functions are not negative")
        total, slope = total + b[0][j][0, 0, 0], slope + b[1][j][0, 0, 0]
    h.eq(total, torch.ones(()), "basis functions sum to one")
    h.eq(slope, torch.zeros(()), "derivatives sum to zero")


@HARNESSES("any knot vector with gaps of at least 0.05, degree 2, 4 control points, any evaluation coordinate", simplify=True, max_paths=200)
def general_knots(h):
    p, n = 2, 4
    a = h.real("a", (), 0.05, 0.95)
    x = h.real("x", (), 0, 1)
    far = (x <= 1 - 1e-3) | (x >= 1)
    h.assume(far)
    t = [0.0, 0.0, 0.0, a, 1.0, 1.0, 1.0]
    s = 2 if h.branch(x < a) else 3
    nurbs = NURBSSurfaces(torch.tensor([2, 2]), torch.zeros(1, 1, 4, 4, 3), uniform=False, device=CPU)
    k = torch.stack([torch.as_tensor(v) if isinstance(v, torch.Tensor) else torch.tensor(v) for v in t]).reshape(1, 1, 7)
    e = ev(x, 0.1).reshape(1, 1, 1, 2)
    span = nurbs.find_spans(0, e, k, device=CPU)
    h.check(span[0, 0, 0] == s, "knot span of the coordinate")
    span = torch.full((1, 1, 1), s)
    b = nurbs.basis_functions_and_derivatives(0, e, k, span, nth_derivative=1, device=CPU)
    for j in range(p + 1):
        v, d = cox(t, p, s - p + j, s, x)
        h.eq(b[0][j][0, 0, 0], v + torch.zeros(()), "basis function of the Cox-de Boor recursion")
        h.eq(b[1][j][0, 0, 0], d + torch.zeros(()), "derivative of the basis function")


def surface_oracle(cp, deg, x, sx, y, sy):
    """Point and the two tangents of the B-spline surface of the control points cp."""
    nu, nv = cp.shape[:2]
    tu, tv = clamped(nu, deg[0]), clamped(nv, deg[1])
    P = U = V = torch.zeros(3)
    for i in range(sx - deg[0], sx + 1):
        a, da = cox(tu, deg[0], i, sx, x)
        for j in range(sy - deg[1], sy + 1):
            b, db = cox(tv, deg[1], j, sy, y)
            P, U, V = P + a * b * cp[i, j], U + da * b * cp[i, j], V + a * db * cp[i, j]
    return P, U, V


UP = torch.tensor([0.0, 0.0, 1.0])
SQUARE = torch.stack(torch.meshgrid(torch.arange(2.0), torch.arange(2.0), indexing="ij") + (torch.zeros(2, 2),), -1)


def greville(n, p):
    t = clamped(n, p)
    return [sum(t[i + 1 : i + p + 1]) / p for i in range(n)]


def check_surface(h, deg, shape, cells, mode):
    """cells: one (span_u, span_v) or None (any) for each [surface][facet]."""
    S, Fc = len(cells), len(cells[0])
    g = torch.stack(torch.meshgrid(torch.tensor(greville(shape[0], deg[0])) * 2, torch.tensor(greville(shape[1], deg[1])) * 3, indexing="ij") + (torch.zeros(*shape),), -1)
    if mode == "heights":  # any heights over a regular grid
        cp = g.expand(S, Fc, *shape, 3) + h.real("z", (S, Fc, *shape, 1), -2, 2) * torch.tensor([0.0, 0.0, 1.0])
    else:  # any control points
        cp = g + h.real("cp", (S, Fc, *shape, 3), -3, 3)
    pts, want = [], []
    for s in range(S):
        for f in range(Fc):
            c = cells[s][f] or (None, None)
            if mode == "tangents":
                x, sx = [(0.0, 0), (0.1875, 0), (0.625, 1)][h.choice(f"u{s}{f}", 3)]
                y, sy = [(0.9375, 1), (0.25, 0)][h.choice(f"v{s}{f}", 2)]
                x, sx = (x, sx + deg[0]) if sx < shape[0] - deg[0] else (x, deg[0])
                y, sy = (y, sy + deg[1]) if sy < shape[1] - deg[1] else (y, deg[1])
            else:
                x, sx = point_in(h, f"u{s}{f}", deg[0], shape[0], c[0])
                y, sy = point_in(h, f"v{s}{f}", deg[1], shape[1], c[1])
            pts.append(ev(x, y))
            P, U, V = surface_oracle(cp[s, f], deg, x, sx, y, sy)
            c = torch.linalg.cross(U, V)
            if mode == "tangents":
                h.assume((c * c).sum() >= 0.01)
            want.append((P, U, V, c))
    e = torch.stack(pts).reshape(S, Fc, 1, 2)
    nurbs = NURBSSurfaces(torch.tensor(deg), cp, device=CPU)
    if mode == "points":
        normalize, torch.nn.functional.normalize = torch.nn.functional.normalize, lambda v, **k: v
        try:
            points, normals = nurbs(e, None, None, device=CPU)
        finally:
            torch.nn.functional.normalize = normalize
    else:
        points, normals = nurbs(e, None, None, device=CPU)
    k = 0
    for s in range(S):
        for f in range(Fc):
            P, U, V, c = want[k]
            k += 1
            h.eq(points[s, f, 0, :3], P, "point of the B-spline surface of its own control points")
            if mode != "points":
                n = normals[s, f, 0, :3]
                h.eq(n * torch.sqrt((c * c).sum()), c, "unit normal across both tangents, on the upper side")
    h.eq(points[..., 3], torch.ones(S, Fc, 1), "points")
    h.eq(normals[..., 3], torch.zeros(S, Fc, 1), "directions")


@HARNESSES("1 surface, 1 facet, degrees 2 x 1, 3 x 3 control points, any control points and evaluation point: surface point", simplify=True, eager=True)
def points_21(h):
    check_surface(h, [2, 1], [3, 3], [[None]], "points")


@HARNESSES("2 surfaces x 2 facets, degrees 1 x 2, 3 x 4 control points, any control points, an evaluation point anywhere in one cell of each: surface points", simplify=True, eager=True)
def points_batched(h):
    check_surface(h, [1, 2], [3, 4], [[(1, 2), (2, 3)], [(2, 2), (1, 3)]], "points")


@HARNESSES("1 surface, 1 facet, degrees 2 x 1, 4 x 3 control points of any heights, any evaluation point: point and normal", simplify=True, eager=True)
def heights(h):
    check_surface(h, [2, 1], [4, 3], [[None]], "heights")


@HARNESSES("2 surfaces x 2 facets, degrees 1 x 2, 3 x 4 control points of any heights, an evaluation point anywhere in one cell of each: points and normals", simplify=True, eager=True)
def heights_batched(h):
    check_surface(h, [1, 2], [3, 4], [[(1, 2), (2, 3)], [(2, 2), (1, 3)]], "heights")


@HARNESSES("1 surface, 1 facet, degrees 1 x 1, 3 x 3 control points anywhere, 6 evaluation points: point and normal", simplify=True, eager=True)
def tangents(h):
    check_surface(h, [1, 1], [3, 3], [[None]], "tangents")


@HARNESSES("1 surface, 1 facet, degrees 2 x 2, 4 x 4 control points of any heights, any evaluation point", tier="thorough", simplify=True, eager=True, budget_s=600)
def heights_22(h):
    check_surface(h, [2, 2], [4, 4], [[None]], "heights")


@HARNESSES("1 surface, 1 facet, degrees 3 x 3, 5 x 4 control points of any heights, an evaluation point anywhere in one cell", tier="thorough", simplify=True, eager=True, budget_s=800)
def heights_33(h):
    check_surface(h, [3, 3], [5, 4], [[(4, 3)]], "heights")


@HARNESSES("1 surface, 1 facet, degrees 2 x 1, 3 x 3 control points anywhere, 6 evaluation points: point and normal", tier="thorough", simplify=True, eager=True, budget_s=600)
def tangents_21(h):
    check_surface(h, [2, 1], [3, 3], [[None]], "tangents")


@HARNESSES("2 surfaces x 2 facets, degrees 1 x 1, 2 x 2 control points, any heights, tilts about either axis and translations: each facet canted and moved as a whole", simplify=True, eager=True)
def canted(h):
    cp = SQUARE + h.real("cp", (2, 2, 2, 2, 1), -1, 1) * UP
    e = torch.tensor([[0.25, 0.5], [0.75, 0.125]]).expand(2, 2, 2, 2)
    # Each facet is tilted about one axis by its own angle.
    a = h.real("angle", (2, 2), -1, 1)
    z, o = torch.zeros(()), torch.ones(())
    tilt = lambda i, c, v: [[c, z, v, z], [z, o, z, z]] if i % 2 == 0 else [[o, z, z, z], [z, c, v, z]]
    canting = torch.stack([torch.stack([torch.stack([torch.stack(r) for r in tilt(i + j, torch.cos(a[i, j]), torch.sin(a[i, j]))]) for j in range(2)]) for i in range(2)])
    t = torch.cat([h.real("t", (2, 2, 3), -5, 5), torch.zeros(2, 2, 1)], -1)
    nurbs = NURBSSurfaces(torch.tensor([1, 1]), cp, device=CPU)
    flat_p, flat_n = nurbs(e, None, None, device=CPU)
    p, n = nurbs(e, canting, t, device=CPU)
    h.eq(p, transforms.perform_canting(canting, flat_p, device=CPU) + t[:, :, None], "points canted with the facet and moved by its translation")
    h.eq(n, transforms.perform_canting(canting, flat_n, device=CPU), "normals canted, not moved")


@HARNESSES("2 facets, any canting vectors, 2 to 4 x 2 to 4 control points: flat rectangular facets, all points on them, normals up")
def planar(h):
    nu, nv = 2 + h.choice("nu", 3), 2 + h.choice("nv", 3)
    c = torch.cat([h.real("c", (2, 2, 3), -2, 2), torch.zeros(2, 2, 1)], -1)
    size = torch.linalg.vector_norm(c, dim=-1)
    h.assume(size >= 0.1)
    cp = create_planar_nurbs_control_points(torch.tensor([nu, nv]), c, device=CPU)
    h.check(torch.tensor(tuple(cp.shape) == (2, nu, nv, 3)), "one grid of control points per facet")
    for f in range(2):
        for i in range(nu):
            for j in range(nv):
                h.eq(cp[f, i, j], torch.stack([size[f, 0] * (2 * i / (nu - 1) - 1), size[f, 1] * (2 * j / (nv - 1) - 1), torch.zeros(())]), "evenly spaced over the facet, centred and flat")


@HARNESSES("2 ideal facets of any size, degree 2 x 1, a grid of 3 x 2 evaluation points: the surface of the scenario is the canted rectangle", simplify=True, eager=True)
def ideal_surface(h):
    a = h.real("angle", (2, 2), -0.5, 0.5)
    l = h.real("length", (2, 2), 0.1, 3)
    z = torch.zeros(2)
    ce = torch.stack([l[:, 0] * torch.cos(a[:, 0]), z, l[:, 0] * torch.sin(a[:, 0]), z], -1)
    cn = torch.stack([z, l[:, 1] * torch.cos(a[:, 1]), l[:, 1] * torch.sin(a[:, 1]), z], -1)
    k = h.choice("axis", 2)
    canting = torch.stack([ce, torch.stack([z, l[:, 1], z, z], -1)] if k == 0 else [torch.stack([l[:, 0], z, z, z], -1), cn], 1)
    t = torch.cat([h.real("t", (2, 3), -5, 5), torch.zeros(2, 1)], -1)
    cp = create_planar_nurbs_control_points(torch.tensor([3, 2]), canting, device=CPU)
    cfg = SimpleNamespace(facet_list=[SimpleNamespace(degrees=torch.tensor([2, 1]), control_points=cp[i]) for i in range(2)])
    p, n = Surface(cfg, device=CPU).get_surface_points_and_normals(torch.tensor([3, 2]), canting, t, device=CPU)
    h.check(torch.tensor(tuple(p.shape) == (1, 2, 6, 4)), "one point per facet and evaluation point")
    grid = create_nurbs_evaluation_grid(torch.tensor([3, 2]), device=CPU)
    for f in range(2):
        up = torch.linalg.cross(canting[f, 0, :3], canting[f, 1, :3]) / (l[f, 0] * l[f, 1])
        for q in range(6):
            e, m = 2 * grid[q, 0] - 1, 2 * grid[q, 1] - 1
            h.eq(p[0, f, q, :3], t[f, :3] + e * canting[f, 0, :3] + m * canting[f, 1, :3], "evaluation points spread over the canted rectangle of the facet")
            h.eq(n[0, f, q, :3], up, "normal of the canted facet")


@HARNESSES("evaluation grids of 1 to 4 x 1 to 4 points: all pairs, east index slowest, inside the unit square")
def grid(h):
    a, b = 1 + h.choice("a", 4), 1 + h.choice("b", 4)
    g = create_nurbs_evaluation_grid(torch.tensor([a, b]), device=CPU)
    h.check(torch.tensor(tuple(g.shape) == (a * b, 2)), "one row per pair")
    at = lambda i, n: i / (n - 1) if n > 1 else 0.0
    for i in range(a):
        for j in range(b):
            h.check((g[i * b + j, 0] - at(i, a)).abs() < 1e-6, "east coordinates evenly spaced, slowest")
            h.check((g[i * b + j, 1] - at(j, b)).abs() < 1e-6, "north coordinates evenly spaced, fastest")
    h.check((g > 0) & (g < 1), "inside the open unit square")


@HARNESSES("2 groups x 2 heliostats x 2 facets, any control point heights, canting and translations: surfaces are rebuilt from each heliostat's own control points", simplify=True, eager=True)
def field_update(h):
    fld = HeliostatField.__new__(HeliostatField)
    groups = []
    for g in range(2):
        n = 2
        cp = SQUARE + h.real(f"cp{g}", (n, 2, 2, 2, 1), -1, 1) * UP
        k = h.real(f"k{g}", (n, 2, 2), 0.5, 2)
        z = torch.zeros(n, 2)
        canting = torch.stack([torch.stack([k[..., 0], z, z, z], -1), torch.stack([z, k[..., 1], z, z], -1)], 2)
        t = torch.cat([h.real(f"t{g}", (n, 2, 3), -5, 5), torch.zeros(n, 2, 1)], -1)
        groups.append(SimpleNamespace(number_of_heliostats=n, number_of_facets_per_heliostat=2, surface_points=torch.zeros(n, 8, 4), surface_normals=torch.zeros(n, 8, 4), nurbs_degrees=torch.tensor([1, 1]), nurbs_control_points=cp, canting=canting, facet_translations=t))
    fld.heliostat_groups = groups
    HeliostatField.update_surfaces(fld, device=CPU)
    e = create_nurbs_evaluation_grid(torch.tensor([2, 2]), device=CPU)
    for g in groups:
        for i in range(2):
            for f in range(2):
                c = g.nurbs_control_points[i, f]
                for q in range(4):
                    u, v = e[q]
                    b = c[0, 0] * (1 - u) * (1 - v) + c[0, 1] * (1 - u) * v + c[1, 0] * u * (1 - v) + c[1, 1] * u * v
                    h.eq(g.surface_points[i, 4 * f + q, :3], b + g.facet_translations[i, f, :3], "point of the heliostat's own facet")
                    du = (c[1, 0] - c[0, 0]) * (1 - v) + (c[1, 1] - c[0, 1]) * v
                    dv = (c[0, 1] - c[0, 0]) * (1 - u) + (c[1, 1] - c[1, 0]) * u
                    w = torch.linalg.cross(du, dv)
                    h.eq(g.surface_normals[i, 4 * f + q, :3] * torch.linalg.vector_norm(w), w, "normal of the heliostat's own facet")
