"""P22: reconstruction of kinematics and surfaces: every sample is compared with its own measurement, only the intended parameters change."""

from checks.common import *
from checks.field_standin import *
from artist.flux import bitmap
from artist.nurbs.surfaces import NURBSSurfaces
from artist.nurbs.utils import create_nurbs_evaluation_grid
from artist.optim.kinematics_reconstructor import KinematicsReconstructor
from artist.optim.loss import FocalSpotLoss, KLDivergenceLoss, Loss, PixelLoss
from artist.optim.regularizers import IdealSurfaceRegularizer, SmoothnessRegularizer
from artist.optim.surface_reconstructor import SurfaceReconstructor

PROPERTY = "P22"
ASSUMPTIONS = [
    REALS,
    "orientations, NURBS surfaces, traced and cropped images, losses per sample and regularisers are generic functions of each sample's own data (decided by P12-P17); gradients and optimiser steps are arbitrary; early stopping may stop at any epoch",
    "every heliostat with measurements has the same number of samples, at least two (documented requirement)",
    "one process of a group is observed at a time, it has at least one heliostat to trace; sums over processes are outside the claim",
]
HARNESSES = Registry()
RES = (1, 2)
EPS = 1e-12
INF = float("inf")


def config(max_epoch=1, **constraints):
    return {
        "optimization": dict(initial_learning_rate=0.1, initial_learning_rate_rotation_deviation=0.1, tolerance=-INF, max_epoch=max_epoch, batch_size=10, log_step=1, early_stopping_delta=0.0, early_stopping_patience=1, early_stopping_window=1),
        "scheduler": dict(scheduler_type="exponential"),
        "constraints": constraints,
    }


def per_sample(seed):
    """A generic loss per sample: of its image, its measurement and its target."""

    def f(self, prediction, ground_truth, target_area_indices=None, **k):
        if prediction.shape[0] != ground_truth.shape[0] or (target_area_indices is not None and len(target_area_indices) != prediction.shape[0]):
            raise ValueError("images and measurements do not pair")
        return value(seed, prediction, ground_truth, target_area_indices)

    return f


def value(seed, p, g, t=None):
    x = torch.cat([p.reshape(p.shape[0], -1), g.reshape(g.shape[0], -1)], -1)
    if t is not None:
        x = torch.cat([x, torch.as_tensor(t).reshape(-1, 1).to(torch.float32)], -1)
    return mix(x, 1, seed)[:, 0]


class AnyLoss(Loss):
    def __init__(self):
        pass

    __call__ = per_sample(900)


def crop(flux_distributions, solar_tower, target_area_indices, device=None, **k):
    t = torch.as_tensor(target_area_indices).to(torch.float32)
    if len(t) != flux_distributions.shape[0]:
        raise ValueError("images and targets do not pair")
    f = flux_distributions
    return f * 0.5 + mix(f.reshape(f.shape[0], -1), 1, 920)[:, :, None] * 0.25 + t[:, None, None] * 0.125


def evaluated(self, evaluation_points, canting=None, facet_translations=None, device=None):
    """Stand-in for the evaluation of NURBS surfaces: a generic function of each facet's own data and each point."""
    cp = self.control_points
    x = mix(torch.cat([cp.reshape(cp.shape[0], cp.shape[1], -1), canting.reshape(cp.shape[0], cp.shape[1], -1), facet_translations.reshape(cp.shape[0], cp.shape[1], -1)], -1), 6, 940)[:, :, None]
    x = x * (1 + mix(evaluation_points, 6, 960)) + float(self.degrees[0]) + 4 * float(self.degrees[1])
    return torch.cat([x[..., :3], torch.ones_like(x[..., :1])], -1), torch.cat([x[..., 3:], torch.zeros_like(x[..., :1])], -1)


def regular(seed):
    def f(self, current_control_points, original_control_points, device=None, **k):
        if current_control_points.shape != original_control_points.shape:
            raise ValueError("control points do not pair")
        n = current_control_points.shape[0]
        return torch.sigmoid(mix(torch.cat([current_control_points.reshape(n, -1), original_control_points.reshape(n, -1)], -1), 1, seed)[:, 0] / 1024)

    return f


def patched(h, stop_after):
    s = contextlib.ExitStack()
    s.enter_context(replaced(h, stop_after))
    for cls, name, f in (
        (FocalSpotLoss, "__call__", per_sample(910)),
        (PixelLoss, "__call__", per_sample(911)),
        (KLDivergenceLoss, "__call__", per_sample(912)),
        (SmoothnessRegularizer, "__call__", regular(950)),
        (IdealSurfaceRegularizer, "__call__", regular(951)),
        (bitmap, "crop_flux_distributions_around_center", crop),
        (NURBSSurfaces, "calculate_surface_points_and_normals", evaluated),
    ):
        s.enter_context(mock.patch.object(cls, name, f))
    return s


class Data:
    """Calibration data of one group; stands in for the parser."""

    def __init__(self, h, tag, active, k, targets=3):
        self.active, self.k = active, k
        n = k * sum(active)
        self.flux = h.real(f"flux{tag}", (n, RES[1], RES[0]), 0, 5)
        self.spots = torch.cat([h.real(f"spot{tag}", (n, 3), -5, 5), torch.ones(n, 1)], -1)
        self.rays = torch.cat([h.real(f"ray{tag}", (n, 3), -1, 1), torch.zeros(n, 1)], -1)
        self.motors = h.real(f"motor{tag}", (n, 2), 0, 9)
        self.mask = torch.tensor([a * k for a in active], dtype=torch.int32)
        self.targets = torch.tensor([(2 * i + i // 3) % targets for i in range(n)], dtype=torch.int32)
        self.n_test = max(1, k // 4)
        self.n_train = k - self.n_test
        self.who = [i for i, a in enumerate(active) if a]

    def samples(self, j, test):
        """Numbers of the training (test) samples of the j-th heliostat with measurements."""
        return list(range(j * self.k + (self.n_train if test else 0), (j + 1) * self.k if test else j * self.k + self.n_train))


class Setup:
    def __init__(self, h, k, groups, own=None, world=1, rank=0, control=(2, 2), facets=1, points=2):
        self.h, self.k, self.world, self.rank = h, k, world, rank
        self.groups = [StandInGroup(h, f"g{g}", len(a), points=points, facets=facets, control=control, cp=h.real(f"cp{g}", (len(a), facets) + control + (3,), -1, 1)) for g, a in enumerate(groups)]
        self.data = [Data(h, str(g), a, k) for g, a in enumerate(groups)]
        self.own = list(range(len(groups))) if own is None else own
        self.first = [sum(len(a) for a in groups[:g]) for g in range(len(groups) + 1)]
        self.tower = tower(h)
        self.scenario = scenario(h, self.groups, self.tower)
        self.reference = {}
        self.before = [self.state(g) for g in self.groups]

    def state(self, g):
        k = g.kinematics
        return {n: v.clone() for n, v in dict(positions=g.positions, points=g.surface_points, normals=g.surface_normals, canting=g.canting, facets=g.facet_translations, control=g.nurbs_control_points.detach(), translations=k.translation_deviation_parameters, rotations=k.rotation_deviation_parameters.detach()).items()}

    def ddp(self):
        return ddp(self.own, self.world, self.rank)

    def parse_data_for_reconstruction(self, heliostat_data_mapping, heliostat_group, scenario, bitmap_resolution, device=None):
        d = self.data[[g is heliostat_group for g in self.groups].index(True)]
        return d.flux, d.spots, d.rays, d.motors, d.mask, d.targets

    def source(self):
        return {"data_parser": self, "heliostat_data_mapping": []}

    def mine(self, d):
        """Numbers of the heliostats with measurements that this process traces."""
        return [j for j in range(len(d.who)) if j % min(self.world, len(d.who)) == self.rank]


def image(s, g, d, n, points, normals, matrix, res=RES):
    """Image expected of sample n, given the surface of its heliostat and its orientation."""
    i = d.who[n // d.k]
    m = matrix.reshape(1, 4, 4).transpose(1, 2)
    row = images(points[i : i + 1] @ m, normals[i : i + 1] @ m, d.rays[n : n + 1], d.targets[n : n + 1], res)
    return row[:, : res[0] * res[1]].reshape(1, res[1], res[0])


def orientation(s, g, i, x, rotation):
    return mix(torch.cat([x, rotation[i], s.before[g]["positions"][i]], -1), 16, 100)


def middle(x):
    """The (lower) median of 1 to 3 values."""
    if len(x) == 1:
        return x[0]
    if len(x) == 2:
        return torch.minimum(x[0], x[1])
    a, b = torch.minimum(x[0], x[1]), torch.maximum(x[0], x[1])
    return torch.maximum(a, torch.minimum(b, x[2]))


def mean(x):
    return sum(x) / len(x)


def reported(h, s, final, losses):
    """Losses are reported at the number of each heliostat in the whole field, infinite for those not reconstructed here."""
    h.check(torch.tensor(tuple(final.shape) == (s.first[-1],)), "one loss per heliostat of the field")
    for g, d in enumerate(s.data):
        for i in range(len(d.active)):
            want = losses.get((g, i))
            label = "loss of a heliostat, at its number in the whole field"
            if want is None:
                h.check(torch.isinf(final[s.first[g] + i]), "no loss for heliostats that were not reconstructed here")
            else:
                h.eq(final[s.first[g] + i], want, label)


def unchanged(h, s, but):
    for g, b in zip(s.groups, s.before):
        now = s.state(g)
        for name in b:
            if name not in but:
                h.eq(now[name], b[name], f"reconstruction does not change {name}")


def kinematic(h, s, method, stop=None, max_epoch=1):
    rec = KinematicsReconstructor(s.ddp(), s.scenario, s.source(), config(max_epoch), None, method, torch.tensor(RES))
    with patched(h, stop):
        final, history = rec.reconstruct_kinematics(AnyLoss(), device=CPU)
        s.adams, s.stops = StandInAdam.made, Stopper.made
    unchanged(h, s, ("rotations",))
    flux_driven = method == "raytracing"
    reduce = middle if flux_driven else mean
    worked = [g for g in s.own if s.data[g].who]
    h.check(torch.tensor(len(s.adams) == len(worked) and len(history) == 1 and len(history[0]) == len(worked)), "every group with measurements is reconstructed")
    losses = {}
    epochs = max_epoch + 1 if stop is None else stop + 1
    for o, (g, adam, stopper) in enumerate(zip(worked, s.adams, s.stops)):
        d, grp = s.data[g], s.groups[g]
        h.check(torch.tensor(len(adam.parameters()) == 1 and len(adam.grads) == epochs), "number of optimisation steps")
        h.eq(grp.kinematics.rotation_deviation_parameters, adam.history[-1][0], "the optimised tilts are those of the group")
        h.eq(adam.history[0][0], s.before[g]["rotations"], "optimisation starts from the current tilts")
        for e in range(epochs):
            rot = adam.history[e][0]
            who = s.mine(d) if flux_driven else range(len(d.who))
            per = {}
            for j in who:
                vals = []
                for n in d.samples(j, False):
                    m = orientation(s, g, d.who[j], d.motors[n], rot)
                    if flux_driven:
                        p = image(s, g, d, n, s.before[g]["points"], s.before[g]["normals"], m)
                        vals.append(value(900, p, d.flux[n : n + 1], d.targets[n : n + 1])[0])
                    else:
                        to = torch.nn.functional.normalize(d.spots[n, :3] - s.before[g]["positions"][d.who[j], :3], dim=0)
                        nrm = torch.nn.functional.normalize(to - d.rays[n, :3], dim=0)
                        vals.append(value(900, m.reshape(4, 4)[:, 2][None], torch.cat([nrm, torch.zeros(1)])[None])[0])
                per[j] = reduce(vals)
            total = mean(list(per.values()))
            h.eq(stopper.seen[e], total, "the loss of an epoch is the mean over heliostats, every sample compared with its own measurement")
            if e < len(history[0][o]["total_loss"]):
                h.eq(history[0][o]["total_loss"][e], total, "history of the loss")
        losses.update({(g, d.who[j]): v for j, v in per.items()})
        rot = adam.history[epochs][0]
        test = history[0][o]["test_loss"]
        for name, seed in (("pixel_loss", 911), ("kl_div", 912), ("focal_spot_loss", 910)):
            h.check(torch.tensor(tuple(test[name].shape) == (len(d.who),)), "one test loss per heliostat")
            for j in range(len(d.who)):
                vals = []
                for n in d.samples(j, True):
                    p = image(s, g, d, n, s.before[g]["points"], s.before[g]["normals"], orientation(s, g, d.who[j], d.motors[n], rot))
                    vals.append(value(seed, p, d.flux[n : n + 1], d.targets[n : n + 1] if seed == 910 else None)[0])
                h.eq(test[name][j], reduce(vals), "test losses come from the samples left out of the training, after the last step")
    reported(h, s, final, losses)


# (measured heliostats of each group, groups of this process, processes per group, this process's number)
ONE, TWO, THREE = [(1, 1)], [(0, 1), (1, 0, 1)], [(1, 0, 1, 1), (0, 0), (1,)]
CASES = [(ONE, None, 1, 0), (ONE, None, 2, 1), (TWO, [1], 2, 1), (TWO, [1, 0], 1, 0), (THREE, None, 1, 0), (THREE, [0], 2, 0), (THREE, [0], 3, 2)]


def case(h, samples, which=None, **kw):
    which = which or range(len(CASES))
    groups, own, w, r = CASES[which[h.choice("case", len(which))]]
    return Setup(h, samples, groups, own, w, r, **kw)


FIELDS = "up to 3 groups with up to 3 measured heliostats, some unmeasured, 1 to 3 processes per group"


@HARNESSES(FIELDS + ", 2 or 3 samples each, 2 epochs with any optimiser steps, stopped at any of them", max_paths=300, simplify=True, budget_s=200)
def tilts_by_flux(h):
    k = 2 + h.choice("samples", 2)
    stop = [None, 0][h.choice("stop", 2)] if k == 2 else None
    kinematic(h, case(h, k, points=1), "raytracing", stop)


@HARNESSES(FIELDS + ", 4 samples each", max_paths=300, simplify=True, budget_s=200)
def tilts_by_flux_4(h):
    kinematic(h, case(h, 4, points=1, which=[0, 2, 3, 5]), "raytracing", max_epoch=0)


@HARNESSES(FIELDS + ", 5 and 8 samples each, 3 epochs", tier="thorough", max_paths=300, simplify=True, budget_s=600)
def tilts_by_flux_8(h):
    kinematic(h, case(h, [5, 8][h.choice("samples", 2)], points=1), "raytracing", max_epoch=2)


def distinct(h, s):
    """Focal spots away from their heliostats, the sun not behind them."""
    for d, grp in zip(s.data, s.groups):
        for n in range(len(d.targets)):
            to = d.spots[n, :3] - grp.positions[d.who[n // d.k], :3]
            h.assume(to.norm() >= 1e-12)
            h.assume((to / to.norm() - d.rays[n, :3]).norm() >= 1e-12)


@HARNESSES(FIELDS + ", 2 or 3 samples each, 2 epochs with any optimiser steps", max_paths=300, budget_s=200)
def tilts_by_alignment(h):
    s = case(h, 2 + h.choice("samples", 2), points=1)
    distinct(h, s)
    kinematic(h, s, "alignment", [None, 0][h.choice("stop", 2)] if s.k == 2 else None)


@HARNESSES(FIELDS + ", 5 samples each, 3 epochs", tier="thorough", max_paths=300, budget_s=600)
def tilts_by_alignment_5(h):
    s = case(h, 5, points=1)
    distinct(h, s)
    kinematic(h, s, "alignment", max_epoch=2)


def edge(shape):
    u, v = torch.meshgrid(torch.arange(shape[2]), torch.arange(shape[3]), indexing="ij")
    m = (u == 0) | (u == shape[2] - 1) | (v == 0) | (v == shape[3] - 1)
    return m[None, None, :, :, None] & (torch.arange(3) < 2)


def surfaces(h, s, stop=None, max_epoch=1, smooth=0.0, ideal=0.0, rho=1.0, tolerance=0.01, points=(2, 1)):
    rec = SurfaceReconstructor(s.ddp(), s.scenario, s.source(), config(max_epoch, rho_flux_integral=rho, energy_tolerance=tolerance, weight_smoothness=smooth, weight_ideal_surface=ideal), None, torch.tensor(points), torch.tensor(RES), device=CPU)
    with patched(h, stop):
        final, history = rec.reconstruct_surfaces(AnyLoss(), device=CPU)
        s.adams, s.stops = StandInAdam.made, Stopper.made
        for g, grp in enumerate(s.groups):
            side = round((grp.surface_points.shape[1] // grp.number_of_facets_per_heliostat) ** 0.5)
            p, q = built(s, g, grp.nurbs_control_points.detach(), (side, side))
            h.eq(grp.surface_points, p, "surfaces of all heliostats follow their control points afterwards")
            h.eq(grp.surface_normals, q, "normals of all heliostats follow their control points afterwards")
        unchanged(h, s, ("control", "points", "normals"))
        worked = [g for g in s.own if s.data[g].who]
        for g, (b, grp) in enumerate(zip(s.before, s.groups)):
            if g not in worked:
                h.eq(grp.nurbs_control_points, b["control"], "surfaces reconstructed elsewhere stay as they are")
        h.check(torch.tensor(len(s.adams) == len(worked) and len(history) == 1 and len(history[0]) == len(worked)), "every group with measurements is reconstructed")
        losses = {}
        epochs = max_epoch + 1 if stop is None else stop + 1
        for o, (g, adam, stopper) in enumerate(zip(worked, s.adams, s.stops)):
            d, grp, hist, steps = s.data[g], s.groups[g], history[0][o], [x[0] for x in adam.history]
            h.check(torch.tensor(len(adam.parameters()) == 1 and len(adam.grads) == epochs), "number of optimisation steps")
            h.eq(grp.nurbs_control_points, steps[-1], "the optimised control points are those of the group")
            h.eq(steps[0], s.before[g]["control"], "optimisation starts from the current surface")
            lam = {j: torch.zeros(()) for j in s.mine(d)}
            for e in range(epochs):
                p, q = built(s, g, steps[e], points)
                flux, energy, rel = {}, {}, []
                for j in s.mine(d):
                    vals, lost = [], []
                    for n in d.samples(j, False):
                        x = predicted(s, g, d, n, p, q)
                        vals.append(value(900, x, d.flux[n : n + 1], d.targets[n : n + 1])[0])
                        if e == 0:
                            s.reference[g, n] = x.sum()
                        r = (x.sum() - s.reference[g, n]) / (s.reference[g, n] + EPS)
                        rel.append(r)
                        lost.append(torch.clamp(-tolerance - r, min=0.0))
                    flux[j], energy[j] = mean(vals), mean(lost)
                cons = {j: lam[j] * energy[j] + 0.5 * rho * energy[j] ** 2 for j in lam}
                lam = {j: torch.clamp(lam[j] + rho * energy[j], min=0.0) for j in lam}
                mf = mean(list(flux.values()))
                reg = {j: [] for j in lam}
                parts = {}
                for name, seed, w in (("smoothness_regularizer", 950, smooth), ("ideal_regularizer", 951, ideal)):
                    parts[name] = torch.zeros(())
                    if not (isinstance(w, float) and w == 0.0):
                        f = regular(seed)
                        l = {j: f(None, steps[e][d.who[j]][None], s.before[g]["control"][d.who[j]][None])[0] for j in lam}
                        ml = mean(list(l.values()))
                        scaled = {j: w * mf / (ml + EPS) * l[j] for j in lam}
                        reg = {j: reg[j] + [scaled[j]] for j in lam}
                        parts[name] = mean(list(scaled.values()))
                per = {j: sum(reg[j], flux[j] + cons[j]) for j in lam}
                total = mean(list(per.values()))
                h.eq(stopper.seen[e], total, "the loss of an epoch is the mean over heliostats of the data term, the energy constraint and the regularisers")
                if e < len(hist["total_loss"]):
                    h.eq(hist["total_loss"][e], total, "history of the loss")
                    h.eq(hist["flux_loss"][e], mf, "history of the data term")
                    h.eq(hist["flux_integral_constraint"][e], mean(list(cons.values())), "history of the energy constraint")
                    h.eq(hist["flux_integral"][e], mean(rel), "history of the relative energy")
                    for name in parts:
                        h.eq(hist[name][e], parts[name], f"history of the {name.replace('_', ' ')}")
                # the gradients the optimiser saw
                h.eq(adam.grads[e][0], torch.where(edge(steps[e].shape), torch.zeros(()), adam.raw[e, 0]), "control points on the outer edge move along their normal only, all others freely")
            losses.update({(g, d.who[j]): v for j, v in per.items()})
            p, q = built(s, g, steps[epochs], points)
            mine = [j for j in range(len(d.who)) if j % min(s.world, len(d.who)) == s.rank]
            for name, seed in (("pixel_loss", 911), ("kl_div", 912)):
                test = hist["test_loss"][name]
                h.check(torch.tensor(tuple(test.shape) == (len(mine),)), "one test loss per heliostat")
                for i, j in enumerate(mine):
                    vals = [value(seed, predicted(s, g, d, n, p, q), d.flux[n : n + 1])[0] for n in d.samples(j, True)]
                    h.eq(test[i], mean(vals), "test losses come from the samples left out of the training, after the last step")
    reported(h, s, final, losses)


def built(s, g, control, points):
    """Surfaces of all heliostats of a group from their control points."""
    grp, b = s.groups[g], s.before[g]
    n, f = control.shape[:2]
    e = create_nurbs_evaluation_grid(torch.tensor(points), device=CPU).expand(n, f, -1, -1)
    p, q = evaluated(SimpleNamespace(control_points=control, degrees=grp.nurbs_degrees), e, b["canting"], b["facets"])
    return p.reshape(n, -1, 4), q.reshape(n, -1, 4)


def predicted(s, g, d, n, p, q):
    """Cropped image expected of sample n."""
    aim = s.tower.get_centers_of_target_areas(d.targets[n : n + 1], device=CPU)[0]
    m = orientation(s, g, d.who[n // d.k], torch.cat([d.rays[n], aim]), s.before[g]["rotations"])
    return crop(image(s, g, d, n, p, q, m), None, d.targets[n : n + 1])


@HARNESSES(FIELDS + ", 2 or 3 samples each, 2 epochs with any optimiser steps, stopped at any of them, without regularisation", max_paths=300, budget_s=200)
def shapes(h):
    k = 2 + h.choice("samples", 2)
    stop = [None, 0][h.choice("stop", 2)] if k == 2 else None
    surfaces(h, case(h, k, points=4), stop)


def regularisation(h, k, which, **kw):
    kind = h.choice("kind", 4)
    smooth, ideal = (h.real(n, (), 0, 4) if kind & b else 0.0 for n, b in (("smoothness", 1), ("ideal", 2)))
    for w in (smooth, ideal):
        if not isinstance(w, float):
            h.assume(w > 0)
    surfaces(h, case(h, k, which, points=4 * kw.get("facets", 1), **kw), None, 2, smooth, ideal, h.real("rho", (), 0, 4), h.real("tolerance", (), 0, 0.5))


@HARNESSES(FIELDS + ", 2 samples each, 3 epochs, any weights of the constraint and the regularisers, 3 by 4 control points", max_paths=300, budget_s=200)
def regularised(h):
    regularisation(h, 2, [0, 2, 5], control=(3, 4))


@HARNESSES(FIELDS + ", 4 samples each, 3 epochs, any weights of the constraint and the regularisers, 4 by 3 control points, 2 facets", tier="thorough", max_paths=300, budget_s=800)
def regularised_4(h):
    regularisation(h, 4, None, control=(4, 3), facets=2)
