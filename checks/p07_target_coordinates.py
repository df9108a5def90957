"""P07: image positions and physical positions on the targets correspond."""

from checks.common import *
from artist.field.solar_tower import SolarTower
from artist.field.tower_target_areas_cylindrical import TowerTargetAreasCylindrical
from artist.field.tower_target_areas_planar import TowerTargetAreasPlanar
from artist.geometry import coordinates
from artist.raytracing import geometry
from artist.scene.rays import Rays

PROPERTY = "P07"
ASSUMPTIONS = [REALS, "planar targets are upright and face north or south; cylinder axes and normals are orthogonal unit vectors"]
HARNESSES = Registry()


def hom(v, w):
    return torch.cat([v, torch.full(v.shape[:-1] + (1,), float(w))], -1)


def planar(h, k, tag=""):
    c = h.real("pc" + tag, (k, 3), -100, 100)
    d = h.real("ps" + tag, (k, 2), 0.1, 20)
    n = torch.tensor([[0.0, 1.0 if i % 2 else -1.0, 0.0] for i in range(k)])
    return TowerTargetAreasPlanar([f"p{i}" for i in range(k)], hom(c, 1), hom(n, 0), d)


def cylindrical(h, k, tag=""):
    c = h.real("cc" + tag, (k, 3), -100, 100)
    al = h.real("az" + tag, (k,), -3.1, 3.1)
    z, o = torch.zeros(k), torch.ones(k)
    n = torch.stack([torch.cos(al), torch.sin(al), z], 1)
    a = torch.stack([z, z, o], 1)
    return TowerTargetAreasCylindrical(names=[f"c{i}" for i in range(k)], centers=hom(c, 1), normals=hom(n, 0), axes=hom(a, 0), radii=h.real("r" + tag, (k,), 0.5, 20), heights=h.real("ht" + tag, (k,), 0.5, 40), opening_angles=h.real("op" + tag, (k,), 0.1, 6.28))


def tower(h, np_, nc):
    return SolarTower([planar(h, np_), cylindrical(h, nc)], device=CPU)


W, Hh = 32, 48


def convert(t, col, row, idx, res=(W, Hh)):
    return coordinates.bitmap_coordinates_to_target_coordinates(torch.stack([col, row], -1), torch.tensor(res), t, idx, device=CPU)


@HARNESSES("planar target, any image position; resolution 32 x 48", simplify=True)
def planar_roundtrip(h):
    t = tower(h, 1, 1)
    col, row = h.real("col", (1,), 0, W - 1), h.real("row", (1,), 0, Hh - 1)
    p = convert(t, col, row, torch.tensor([0]))
    pl = t.target_areas[0]
    h.eq(p[:, 3], torch.ones(1), "a point")
    h.eq(((p - pl.centers) * pl.normals).sum(), torch.zeros(()), "on the plane of the target")
    n = pl.normals[0, :3]
    d = h.real("d", (2,), -1, 1)
    d = torch.stack([d[0], -n[1], d[1]])
    r = Rays(ray_directions=hom(d, 0).reshape(1, 1, 1, 4), ray_magnitudes=torch.ones(1, 1, 1))
    s = h.real("s", (), 0.1, 100)
    be, bu, dist, inten = geometry.line_plane_intersections(r, hom(p[0, :3] - s * d, 1).reshape(1, 1, 4), pl, bitmap_resolution=torch.tensor([W, Hh]), device=CPU)
    h.check(inten[0, 0, 0] > 0, "a ray aimed at the position hits the target")
    h.le(be[0, 0, 0] - col[0], torch.tensor(0.5), "within half a pixel (east)")
    h.le(col[0] - be[0, 0, 0], torch.tensor(0.5), "within half a pixel (east)")
    h.le((Hh - 1 - bu[0, 0, 0]) - row[0], torch.tensor(0.5), "within half a pixel (up)")
    h.le(row[0] - (Hh - 1 - bu[0, 0, 0]), torch.tensor(0.5), "within half a pixel (up)")


@HARNESSES("vertical cylindrical target facing any azimuth, any image position; a radial ray; resolution 32 x 48", simplify=True, eager=True, tiny=1e-10)
def cylindrical_roundtrip(h):
    t = tower(h, 1, 1)
    col, row = h.real("col", (1,), 0, W - 1), h.real("row", (1,), 0, Hh - 1)
    p = convert(t, col, row, torch.tensor([1]))
    cy = t.target_areas[1]
    x = (p - cy.centers)[0, :3]
    h.eq(p[:, 3], torch.ones(1), "a point")
    a, n = cy.axes[0, :3], cy.normals[0, :3]
    hgt = (x * a).sum()
    rad = x - hgt * a
    h.eq((rad * rad).sum(), cy.radii[0] ** 2, "on the lateral surface")
    v = torch.linalg.cross(a, n, dim=-1)
    # the angle around the axis and the height that the ray tracer assigns to image position (col, row)
    ang = (col[0] / (W - 1) - 0.5) * cy.opening_angles[0]
    z = (0.5 - row[0] / (Hh - 1)) * cy.heights[0]
    # pixel centres: position k of W lies at (k + 1/2) / W of the opening sector
    th = ((col[0] + 0.5) / W - 0.5) * cy.opening_angles[0]
    h.eq((rad * n).sum(), cy.radii[0] * torch.cos(th), "angle around the axis")
    h.eq((rad * v).sum(), cy.radii[0] * torch.sin(th), "angle around the axis")
    pix = cy.opening_angles[0] / W
    h.le(th - ang, pix * 0.5, "within half a pixel around the axis")
    h.le(ang - th, pix * 0.5, "within half a pixel around the axis")
    h.le(hgt - z, cy.heights[0] / Hh * 0.5, "within half a pixel in height")
    h.le(z - hgt, cy.heights[0] / Hh * 0.5, "within half a pixel in height")


@HARNESSES("image centre and orientation: 2 planar and 2 cylindrical targets, any assignment of 3 images to targets", max_paths=200, simplify=True)
def mixed_targets(h):
    t = tower(h, 2, 2)
    ks = [h.choice(f"target{i}", 4) for i in range(3)]
    col, row = h.real("col", (3,), 0, W - 1), h.real("row", (3,), 0, Hh - 1)
    p = convert(t, col, row, torch.tensor(ks))
    mid = convert(t, torch.full((3,), (W - 1) / 2), torch.full((3,), (Hh - 1) / 2), torch.tensor(ks))
    cen = t.get_centers_of_target_areas(torch.tensor(ks), device=CPU)
    h.eq(mid, cen, "the image centre is the target centre")
    for i, k in enumerate(ks):
        ta, j = t.index_to_target_area[k]
        one = convert(t, col[i : i + 1], row[i : i + 1], torch.tensor([k]))
        h.eq(p[i], one[0], "each image is mapped with its own target")
        up = (p[i, 2] - cen[i, 2]) * Hh
        ht = ta.dimensions[j, 1] if k < 2 else ta.heights[j]
        h.eq(up, ht * ((Hh - 1) / 2 - row[i]), "rows run from the top of the target to the bottom")
        if k < 2:
            h.eq(cen[i], ta.centers[j], "centre of a planar target")
            h.eq((p[i, 0] - cen[i, 0]) * W, ta.dimensions[j, 0] * ((W - 1) / 2 - col[i]), "columns run from east to west")
        else:
            h.eq(cen[i], ta.centers[j] + ta.radii[j] * ta.normals[j], "centre of a cylindrical target lies on its surface")


@HARNESSES("resolution from 1 x 1 to 512 x 512, planar target")
def any_resolution(h):
    t = tower(h, 1, 1)
    res = h.int("res", (2,), 1, 512)
    col, row = h.real("col", (1,), -1000, 1000), h.real("row", (1,), -1000, 1000)
    p = coordinates.bitmap_coordinates_to_target_coordinates(torch.stack([col, row], -1), res, t, torch.tensor([0]), device=CPU)
    pl = t.target_areas[0]
    h.eq((pl.centers[0, 0] - p[0, 0]) * res[0], ((col[0] + 0.5) - res[0] * 0.5) * pl.dimensions[0, 0], "pixel width is target width over columns")
    h.eq((pl.centers[0, 2] - p[0, 2]) * res[1], ((row[0] + 0.5) - res[1] * 0.5) * pl.dimensions[0, 1], "pixel height is target height over rows")
    h.eq(p[0, 1], pl.centers[0, 1], "in the target plane")


@HARNESSES("names and indices of 2 planar and 2 cylindrical targets")
def index_maps(h):
    t = tower(h, 2, 2)
    k = h.choice("k", 4)
    ta, j = t.index_to_target_area[k]
    name = ["p0", "p1", "c0", "c1"][k]
    h.check(torch.tensor(ta.names[j] == name), "index maps to the target")
    h.check(torch.tensor(t.target_name_to_index[name] == k), "name maps to the index")
    h.eq(t.number_of_target_areas_per_type, torch.tensor([2, 2]), "numbers of targets")
