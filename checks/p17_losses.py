"""P17: the losses and regularizers: the documented quantity of every sample, on its own."""

from checks.common import *
from artist.optim import loss as L
from artist.optim.regularizers import IdealSurfaceRegularizer, SmoothnessRegularizer

PROPERTY = "P17"
ASSUMPTIONS = [REALS, "log is a function with exp(log(x)) = x, otherwise uninterpreted", "the guards of 1e-12 of the KL-divergence are part of the expected value"]
HARNESSES = Registry()


def rows(h, name, n, k, lo=-5, hi=5):
    return h.real(name, (n, k), lo, hi)


@HARNESSES("3 samples of 2 and of 2 x 2 values, any values: sum of squared differences over the given dimensions", simplify=True)
def vector(h):
    loss = L.VectorLoss()
    a, b = rows(h, "a", 3, 2), rows(h, "b", 3, 2)
    r = loss(a, b, reduction_dimensions=(1,))
    h.check(torch.tensor(tuple(r.shape) == (3,)), "one loss per sample")
    for i in range(3):
        h.eq(r[i], sum((a[i, k] - b[i, k]) ** 2 for k in range(2)), "sum of squared differences of the sample")
    a, b = h.real("c", (2, 2, 3), -5, 5), h.real("d", (2, 2, 3), -5, 5)
    r, s = loss(a, b, reduction_dimensions=(1, 2)), loss(a, b, reduction_dimensions=(2,))
    for i in range(2):
        h.eq(r[i], sum((a[i, j, k] - b[i, j, k]) ** 2 for j in range(2) for k in range(3)), "sum over both dimensions")
        for j in range(2):
            h.eq(s[i, j], sum((a[i, j, k] - b[i, j, k]) ** 2 for k in range(3)), "sum over the last dimension only")


@HARNESSES("2 pairs of images of 2 x 3 pixels: squared differences over the intensity of the own measured image", simplify=True)
def pixel(h):
    p, g = h.real("p", (2, 2, 3), 0, 10), h.real("g", (2, 2, 3), 0, 10)
    h.assume(g.sum(dim=(1, 2)) >= 0.5)
    r = L.PixelLoss()(p, g, reduction_dimensions=(1, 2))
    h.check(torch.tensor(tuple(r.shape) == (2,)), "one loss per sample")
    for i in range(2):
        d = sum((p[i, j, k] - g[i, j, k]) ** 2 for j in range(2) for k in range(3))
        h.eq(r[i] * g[i].sum(), d, "squared differences relative to the total of the measured image")


def divergence(g, p):
    eps = 1e-12
    g, p = g / g.sum() + eps, p / p.sum() + eps
    return (g * (torch.log(g) - torch.log(p))).sum()


@HARNESSES("2 pairs of images of 2 x 2 pixels, any intensities: divergence of the predicted from the measured distribution", simplify=True, eager=True)
def kl_divergence(h):
    p, g = h.real("p", (2, 2, 2), 0, 10), h.real("g", (2, 2, 2), 0, 10)
    h.assume(g.sum(dim=(1, 2)) >= 0.5)
    h.assume(p.sum(dim=(1, 2)) >= 0.5)
    loss = L.KLDivergenceLoss()
    r = loss(p, g, reduction_dimensions=(1, 2))
    h.check(torch.tensor(tuple(r.shape) == (2,)), "one loss per sample")
    for i in range(2):
        h.eq(r[i], divergence(g[i], p[i]), "sum of measured times log of measured over predicted, both scaled to a total of 1")


@HARNESSES("an image of 2 x 3 pixels and the same image at any other brightness: no divergence; brightness never matters", simplify=True, eager=True)
def kl_brightness(h):
    p, g, f = h.real("p", (1, 2, 2), 0, 10), h.real("g", (1, 2, 2), 0, 10), h.real("f", (), 0.1, 10)
    h.assume(g.sum() >= 0.5)
    h.assume(p.sum() >= 0.5)
    loss = L.KLDivergenceLoss()
    h.eq(loss(p * f, p, reduction_dimensions=(1, 2)), torch.zeros(1), "same image: zero")
    h.eq(loss(p * f, g, reduction_dimensions=(1, 2)), loss(p, g, reduction_dimensions=(1, 2)), "independent of the brightness of the prediction")
    h.eq(loss(p, g * f, reduction_dimensions=(1, 2)), loss(p, g, reduction_dimensions=(1, 2)), "independent of the brightness of the measurement")


def pair(h, tag):
    """Two vectors of any length at the known angle phi in [0, pi]."""
    a, w1, w2 = h.sphere("a" + tag)
    phi, psi = h.real("phi" + tag, (), 0, 3.14), h.real("psi" + tag, (), -4, 4)
    b = torch.cos(phi) * a + torch.sin(phi) * (torch.cos(psi) * w1 + torch.sin(psi) * w2)
    return a, b, phi


@HARNESSES("2 pairs of directions of any length at any angle in [0, 3.14], any fourth components: the angle between them", simplify=True)
def angle(h):
    xs = [pair(h, str(i)) for i in range(2)]
    la, lb, w = h.real("la", (2,), 0.1, 10), h.real("lb", (2,), 0.1, 10), h.real("w", (2, 2), -3, 3)
    p = torch.stack([torch.cat([xs[i][0] * la[i], w[0, i : i + 1]]) for i in range(2)])
    g = torch.stack([torch.cat([xs[i][1] * lb[i], w[1, i : i + 1]]) for i in range(2)])
    r = L.AngleLoss()(p, g)
    h.check(torch.tensor(tuple(r.shape) == (2,)), "one angle per pair")
    for i in range(2):
        h.eq(r[i], xs[i][2], "angle between the two directions")


@HARNESSES("2 pairs of directions of any length at any angle: one minus the cosine of the angle between them", simplify=True)
def cosine(h):
    xs = [pair(h, str(i)) for i in range(2)]
    la, lb = h.real("la", (2,), 0.1, 10), h.real("lb", (2,), 0.1, 10)
    r = L.CosineSimilarityLoss()(torch.stack([xs[i][0] * la[i] for i in range(2)]), torch.stack([xs[i][1] * lb[i] for i in range(2)]))
    h.check(torch.tensor(tuple(r.shape) == (2,)), "one value per pair")
    for i in range(2):
        h.eq(r[i], 1 - torch.cos(xs[i][2]), "one minus the cosine of the angle")


@HARNESSES("3 heliostats with 1 to 3 samples each, any losses: reduced by mean, median, minimum or maximum over the own samples", simplify=True)
def per_heliostat(h):
    n = 1 + h.choice("samples", 3)
    x = h.real("x", (3 * n,), -5, 5)
    mean = L.reduce_loss_per_sample(x, n, lambda v: v.mean(dim=1))
    top = L.reduce_loss_per_sample(x, n, lambda v: v.max(dim=1))
    low = L.reduce_loss_per_sample(x, n, lambda v: v.amin(dim=1))
    for r in (mean, top, low):
        h.check(torch.tensor(tuple(r.shape) == (3,)), "one loss per heliostat")
    for i in range(3):
        own = [x[i * n + k] for k in range(n)]
        h.eq(mean[i] * n, sum(own), "mean over the samples of the heliostat")
        for v in own:
            h.check((top[i] >= v) & (low[i] <= v), "largest and smallest sample of the heliostat")
        h.check(torch.stack([top[i] == v for v in own]).any() & torch.stack([low[i] == v for v in own]).any(), "largest and smallest are losses of the heliostat")


@HARNESSES("2 surfaces of 2 facets with 3 x 3 control points, any displacement: mean squared deviation from the four neighbours (edges repeated), summed over facets", simplify=True)
def smoothness(h):
    a, b = h.real("a", (2, 2, 3, 3, 3), -1, 1), h.real("b", (2, 2, 3, 3, 3), -1, 1)
    r = SmoothnessRegularizer(reduction_dimensions=(1,))(current_control_points=a, original_control_points=b, device=CPU)
    h.check(torch.tensor(tuple(r.shape) == (2,)), "one value per surface")
    d = a - b
    at = lambda s, f, i, j: d[s, f, min(max(i, 0), 2), min(max(j, 0), 2)]
    for s in range(2):
        want = 0
        for f in range(2):
            for i in range(3):
                for j in range(3):
                    want = want + ((4 * at(s, f, i, j) - at(s, f, i - 1, j) - at(s, f, i + 1, j) - at(s, f, i, j - 1) - at(s, f, i, j + 1)) ** 2).sum()
        h.eq(r[s] * 27, want, "deviation of each displacement from those of its neighbours")


@HARNESSES("2 surfaces of 2 facets with 2 x 3 control points: mean squared displacement, summed over facets; zero without displacement; rigid shifts have no roughness", simplify=True)
def ideal_surface(h):
    a, b = h.real("a", (2, 2, 2, 3, 3), -1, 1), h.real("b", (2, 2, 2, 3, 3), -1, 1)
    reg = IdealSurfaceRegularizer(reduction_dimensions=(1,))
    r = reg(current_control_points=a, original_control_points=b, device=CPU)
    h.check(torch.tensor(tuple(r.shape) == (2,)), "one value per surface")
    for s in range(2):
        h.eq(r[s] * 18, ((a[s] - b[s]) ** 2).sum(), "squared displacement of the control points of the surface")
    h.eq(reg(current_control_points=a, original_control_points=a, device=CPU), torch.zeros(2), "no displacement, no penalty")
    shift = h.real("t", (3,), -1, 1)
    h.eq(SmoothnessRegularizer(reduction_dimensions=(1,))(current_control_points=a + shift, original_control_points=a, device=CPU), torch.zeros(2), "a rigid shift is smooth")
