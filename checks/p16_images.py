"""P16: what is measured on flux images: centre of mass, focal spot distance, crops, trapezoids."""

from types import SimpleNamespace

from checks.common import *
from checks.p07_target_coordinates import cylindrical, planar
from artist.field.solar_tower import SolarTower
from artist.field.tower_target_areas_cylindrical import TowerTargetAreasCylindrical
from artist.field.tower_target_areas_planar import TowerTargetAreasPlanar
from artist.flux import bitmap
from artist.optim.loss import FocalSpotLoss

PROPERTY = "P16"
ASSUMPTIONS = [REALS, "flux images are non-negative; images whose centre is used carry a total of at least 1 (the code adds 1e-8 to the total)"]
HARNESSES = Registry()


def images(h, n, rows, cols, name="img"):
    b = h.real(name, (n, rows, cols), 0, 10)
    h.assume(b.sum(dim=(1, 2)) >= 1)
    return b


def centre(b):
    """Column and row of the centre of mass of one image."""
    rows, cols = b.shape
    r = sum(i * b[i, j] for i in range(rows) for j in range(cols))
    c = sum(j * b[i, j] for i in range(rows) for j in range(cols))
    return c / b.sum(), r / b.sum()


@HARNESSES("2 images of 2 x 3 pixels, any intensities: intensity weighted mean position (column, row), one per image", simplify=True)
def centre_of_mass(h):
    b = images(h, 2, 2, 3)
    m = bitmap.get_center_of_mass(b, device=CPU)
    h.check(torch.tensor(tuple(m.shape) == (2, 2)), "one position per image")
    for i in range(2):
        c, r = centre(b[i])
        # The code adds 1e-8 to the total; undo exactly that factor.
        s = b[i].sum()
        h.eq(m[i, 0] * (s + 1e-8) / s, c, "column of the centre of mass")
        h.eq(m[i, 1] * (s + 1e-8) / s, r, "row of the centre of mass")
        h.check((m[i] >= 0) & (m[i, 0] <= 2) & (m[i, 1] <= 1), "inside the image")


@HARNESSES("1 image without flux, 1 with: defined, at the origin")
def dark_image(h):
    b = torch.stack([torch.zeros(2, 3), h.real("img", (2, 3), 0, 10)])
    m = bitmap.get_center_of_mass(b, device=CPU)
    h.eq(m[0], torch.zeros(2), "no flux: position 0")
    h.check((m[1] >= 0) & (m[1, 0] <= 2) & (m[1, 1] <= 1), "inside the image")


@HARNESSES("3 pairs of images of 2 x 3 pixels with a single hot pixel each, 2 planar and 2 cylindrical targets: distance of the spots on their own target", max_paths=300, simplify=True)
def focal_spot(h):
    tower = SolarTower([planar(h, 2), cylindrical(h, 2)], device=CPU)
    idx = torch.tensor([[0, 3, 1], [2, 1, 0], [3, 2, 3]][h.choice("targets", 3)])
    spots = [[(0, 0, 1, 2), (1, 1, 0, 2), (0, 2, 1, 1)], [(1, 0, 1, 2), (0, 1, 1, 1), (0, 0, 0, 2)]][h.choice("spots", 2)]
    m = h.real("m", (3, 2), 1, 10)
    z = torch.zeros(())
    pic = lambda r, c, v: torch.stack([torch.stack([v if (i, j) == (r, c) else z for j in range(3)]) for i in range(2)])
    p = torch.stack([pic(s[0], s[1], m[i, 0]) for i, s in enumerate(spots)])
    g = torch.stack([pic(s[2], s[3], m[i, 1]) for i, s in enumerate(spots)])
    # Without the guard of 1e-8 against dark images the spots are exactly the hot pixels; it moves them by less than 3e-8 pixels.
    loss = FocalSpotLoss(SimpleNamespace(solar_tower=tower))(p, g, target_area_indices=idx, device=CPU)
    h.check(torch.tensor(tuple(loss.shape) == (3,)), "one distance per image")
    for i, s in enumerate(spots):
        f = [m[i, k] / (m[i, k] + 1e-8) for k in range(2)]
        dc, dr = (s[1] * f[0] - s[3] * f[1]) / 3, (s[0] * f[0] - s[2] * f[1]) / 2
        t = int(idx[i])
        if t < 2:
            d = tower.target_areas[0].dimensions[t]
            want = (dc * d[0]) ** 2 + (dr * d[1]) ** 2
        else:
            a = tower.target_areas[1]
            k = t - 2
            # chord of the cylinder between the two spots, and their height difference
            th = [((c * f[q] + 0.5) / 3 - 0.5) * a.opening_angles[k] for q, c in enumerate((s[1], s[3]))]
            want = (a.radii[k] * (torch.cos(th[0]) - torch.cos(th[1]))) ** 2 + (a.radii[k] * (torch.sin(th[0]) - torch.sin(th[1]))) ** 2 + (dr * a.heights[k]) ** 2
        h.eq(loss[i] ** 2, want, "distance between the two spots on the target of the image")
        h.check(loss[i] >= 0, "distance")


def hat(p, k):
    return torch.relu(1 - torch.abs(p - k))


def sized_tower(sizes):
    """Two planar and two cylindrical targets of the given (width, height)."""
    o, z = torch.ones(()), torch.zeros(())
    st = lambda f, r: torch.stack([torch.stack([v if isinstance(v, torch.Tensor) else torch.tensor(float(v)) for v in f(*q)]) for q in r])
    P = TowerTargetAreasPlanar(["a", "b"], torch.zeros(2, 4), torch.zeros(2, 4), st(lambda w, l: (w, l), sizes[:2]))
    C = TowerTargetAreasCylindrical(names=["c", "d"], centers=torch.zeros(2, 4), normals=torch.zeros(2, 4), axes=torch.zeros(2, 4), radii=st(lambda w, l: (w / 2,), sizes[2:])[:, 0], heights=st(lambda w, l: (l,), sizes[2:])[:, 0], opening_angles=torch.tensor([2.0, 2.0]))
    return SolarTower([P, C], device=CPU)


def crop_case(h, b, sizes, targets, crop, guard=0.0):
    n, rows, cols = b.shape
    kw = {} if crop is None else dict(crop_width=crop[0], crop_height=crop[1])
    out = bitmap.crop_flux_distributions_around_center(b, sized_tower(sizes), torch.tensor(targets), device=CPU, **kw)
    h.check(torch.tensor(tuple(out.shape) == (n, rows, cols)), "one crop per image, same resolution")
    cw, ch = crop if crop is not None else (6, 6)
    for i, t in enumerate(targets):
        w, l = sizes[t]
        # Every image here has a total of 1. The guard of the code against images without flux adds 1e-8 to it, which is nothing in float32.
        f = 1 / (1 + guard)
        c, r = [sum(v * k for v, k in zip(b[i].sum(d), range(m))) for d, m in ((0, cols), (1, rows))]
        # the guard moves the centre towards the middle of the image
        c, r = (c - (cols - 1) / 2) * f + (cols - 1) / 2, (r - (rows - 1) / 2) * f + (rows - 1) / 2
        for y in range(rows):
            for x in range(cols):
                # Output pixel at a physical distance from the centre of mass; pixels of the image are w / columns wide.
                px = c + (x - (cols - 1) / 2) * cw / w
                py = r + (y - (rows - 1) / 2) * ch / l
                want = sum(hat(px, q) * hat(py, p) * b[i, p, q] for p in range(rows) for q in range(cols))
                h.eq(out[i, y, x], want, "flux at the position this far from the centre of mass on the own target")


def row(h, name):
    """Three intensities of sum one half."""
    v = h.real(name, (), 0, 0.375)
    return torch.stack([v, torch.tensor(0.125), 0.375 - v])


CROP = dict(simplify=True, eager=True, max_paths=600)


@HARNESSES("images of 2 x 3 pixels with any intensities along one axis, targets of any size along it (cylindrical for the width, planar for the height), default crop", **CROP)
def crop_axis(h):
    v = row(h, "v")
    b = torch.stack([v, v])
    q = h.real("q", (), 0.2, 3)
    k = h.choice("axis", 2)
    t = [2, 1][k]
    sizes = [(5.0, 7.0), (3.0, 9.0), (8.0, 4.0), (7.0, 5.0)]
    sizes[t] = (6 / q, 6) if k == 0 else (6, 6 / q)
    crop_case(h, (b if k == 0 else b.T)[None], sizes, [t], None, 1e-8)


@HARNESSES("2 images of 2 x 3 pixels, a hot pixel in several places, mixed targets, one of any width or any height; crop sizes different in width and height", **CROP)
def crop_mixed(h):
    q = h.real("q", (), 0.3, 2)
    o, rest = torch.zeros(2, 3), torch.tensor([[0.0, 0.0, 0.75], [0.25, 0.0, 0.0]])
    o[[(0, 0), (1, 1)][h.choice("pixel", 2)]] = 1.0
    t, u = [(2, 0), (0, 3), (3, 1)][h.choice("targets", 3)]
    sizes = [(5.0, 7.0), (3.0, 9.0), (8.0, 4.0), (7.0, 5.0)]
    sizes[t] = [(4 / q, 5.0), (6.0, 3 / q)][h.choice("axis", 2)]
    k = h.choice("place", 2)
    crop_case(h, torch.stack([o, rest] if k == 0 else [rest, o]), sizes, [t, u] if k == 0 else [u, t], (4.0, 3.0))


@HARNESSES("2 images of 3 x 3 pixels, a hot pixel in several places, mixed targets, one of any width and height", tier="thorough", budget_s=700, simplify=True, eager=True, max_paths=3000)
def crop_both(h):
    q = h.real("q", (2,), 0.3, 2)
    o, rest = torch.zeros(3, 3), torch.tensor([[0.0, 0.0, 0.75], [0.25, 0.0, 0.0], [0.0, 0.0, 0.0]])
    o[[(0, 0), (1, 2)][h.choice("pixel", 2)]] = 1.0
    sizes = [(5.0, 7.0), (3.0, 9.0), (4 / q[0], 3 / q[1]), (7.0, 5.0)]
    crop_case(h, torch.stack([rest, o]), sizes, [0, 2], (4.0, 3.0))


@HARNESSES("any slope and plateau width, total width 1 to 5: symmetric trapezoid, zero outside, one on the plateau", simplify=True)
def trapezoid(h):
    n = 1 + h.choice("n", 5)
    s, p = h.real("slope", (), 0.1, 10), h.real("plateau", (), 0, 10)
    if h.choice("hard", 2):
        s = 0
    t = bitmap.trapezoid_distribution(n, s, p, device=CPU)
    h.check(torch.tensor(tuple(t.shape) == (n,)), "one value per position")
    for i in range(n):
        d = abs(i - (n - 1) / 2)
        want = torch.where(d - p / 2 <= 0, 1.0, 0.0) if isinstance(s, int) else torch.clamp(1 - (d - p / 2) / s, 0.0, 1.0)
        h.eq(t[i], want, "1 up to the edge of the plateau, falling linearly to 0 over the slope")
