"""P03: coordinate conversions."""

from checks.common import *
from artist.geometry import coordinates

PROPERTY = "P03"
ASSUMPTIONS = [REALS]
HARNESSES = Registry()


@HARNESSES("2 x 2 points/directions of any value")
def homogeneous(h):
    p = h.real("p", (2, 2, 3))
    q = coordinates.convert_3d_points_to_4d_format(p, device=CPU)
    h.eq(q[..., :3], p, "point components kept")
    h.eq(q[..., 3], torch.ones(2, 2), "points have homogeneous component one")
    d = coordinates.convert_3d_directions_to_4d_format(p, device=CPU)
    h.eq(d[..., :3], p, "direction components kept")
    h.eq(d[..., 3], torch.zeros(2, 2), "directions have homogeneous component zero")


@HARNESSES("3 points in the plane, any coordinates within 1e4 m; a spread of at least 1 m per axis")
def normalized_points(h):
    p = h.real("p", (3, 2), -1e4, 1e4)
    for k in range(2):
        h.assume(p[0, k] - p[1, k] >= 1.0)
    r = coordinates.normalize_points(p)
    h.check(r > 0, "strictly above zero")
    h.check(r < 1, "strictly below one")
    for k in range(2):
        for i in range(3):
            for j in range(3):
                if i != j:
                    h.check((p[i, k] < p[j, k]) == (r[i, k] < r[j, k]), "order kept")
        # affine: ratios of differences are kept
        h.eq((r[0, k] - r[1, k]) * (p[2, k] - p[1, k]), (r[2, k] - r[1, k]) * (p[0, k] - p[1, k]), "affine in each axis")


@HARNESSES("2 azimuth/elevation pairs of any value, slant range in [0.1, 1000]; degrees and radians")
def azimuth_elevation(h):
    a, e = h.real("azimuth", (2,), -720, 720), h.real("elevation", (2,), -90, 90)
    r = h.real("range", (), 0.1, 1000)
    deg = h.branch(h.bool("degree"))
    v = coordinates.azimuth_elevation_to_enu(a, e, slant_range=r, degree=deg, device=CPU)
    f = torch.pi / 180 if deg else 1.0
    ca, sa = torch.cos(a * f), torch.sin(a * f)
    ce, se = torch.cos(e * f), torch.sin(e * f)
    h.eq((v * v).sum(1), (r * r).expand(2), "length equals the slant range")
    h.eq(v[:, 2], r * se, "up component from the elevation")
    h.eq(v[:, 0], r * ce * sa, "east component")
    h.eq(v[:, 1], -r * ce * ca, "azimuth zero points south")


@HARNESSES("2 geographic points within 5 degrees of the reference; latitudes within +-85 degrees")
def wgs84(h):
    ref = h.real("ref", (3,), -85, 85)
    d = h.real("d", (2, 3), -5, 5)
    pts = ref.unsqueeze(0) + d
    out = coordinates.convert_wgs84_coordinates_to_local_enu(pts, ref, device=CPU)
    h.eq(out[:, 2], d[:, 2], "altitude difference")
    a, b = 6378137.0, 6356752.314245
    e2 = (a * a - b * b) / (a * a)
    lat = torch.deg2rad(pts[:, 0])
    w = 1 - e2 * torch.sin(lat) ** 2
    # metres per radian along the meridian and the parallel of the WGS84 ellipsoid, squared to stay algebraic
    n, e = out[:, 1], out[:, 0]
    dn, de = torch.deg2rad(d[:, 0]), torch.deg2rad(d[:, 1])
    h.eq(n * n * w**3, (a * (1 - e2) * dn) ** 2, "north distance along the meridian", rtol=1e-3)
    h.eq(e * e * w, (a * torch.cos(lat) * de) ** 2, "east distance along the parallel", rtol=1e-3)
    h.check((d[:, 0] > 0) == (n > 0), "north is the direction of growing latitude")
    h.check((d[:, 0] < 0) == (n < 0), "south is the direction of falling latitude")


@HARNESSES("reference point itself, sign of the east axis")
def wgs84_signs(h):
    ref = h.real("ref", (3,), -80, 80)
    out = coordinates.convert_wgs84_coordinates_to_local_enu(ref.unsqueeze(0), ref, device=CPU)
    h.eq(out, torch.zeros(1, 3), "the reference point is the origin")
    lat = h.real("lat", (), -80, 80)
    h.assume(torch.cos(torch.deg2rad(lat)) >= 0.1)
    d = h.real("dlon", (), -0.5, 0.5)
    p = torch.stack([lat, ref[1] + d, ref[2]]).unsqueeze(0)
    out = coordinates.convert_wgs84_coordinates_to_local_enu(p, ref, device=CPU)
    h.check((d > 0) == (out[0, 0] > 0), "east is the direction of growing longitude")
