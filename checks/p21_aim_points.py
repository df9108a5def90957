"""P21: aim point optimisation: motor positions within their limits, constraints and reported values belong to the evaluated field."""

from checks.common import *
from checks.field_standin import *
from artist.optim.aim_point_optimizer import AimPointOptimizer
from artist.optim.loss import KLDivergenceLoss, Loss

PROPERTY = "P21"
ASSUMPTIONS = [
    REALS,
    "orientations and traced images are generic functions of each heliostat's own data (decided by P12, P13); gradients and optimiser steps are arbitrary; early stopping may stop at any epoch",
    "the alignment that starts the optimisation gives motor positions within their limits",
    "one process of a group is observed at a time; sums over processes are outside the claim",
]
HARNESSES = Registry()
EPS = 1e-12


def options(max_epoch=1, tol=-float("inf"), **c):
    return {
        "optimization": dict(initial_learning_rate=0.1, tolerance=tol, max_epoch=max_epoch, batch_size=10, log_step=1, early_stopping_delta=0.0, early_stopping_patience=1, early_stopping_window=1),
        "scheduler": dict(scheduler_type="exponential"),
        "constraints": dict(rho_flux_integral=1.0, rho_local_flux=1.0, rho_intercept=1.0, max_flux_density=1000.0, **c) if not c else c,
    }


def some_loss(base):
    class L(base):
        def __init__(self):
            pass

        def __call__(self, prediction, ground_truth, **kw):
            self.prediction = prediction
            return ((prediction - ground_truth) * weights(prediction.shape[-1], 7)).sum((1, 2)) * 0.25

    return L()


class Setup:
    def __init__(self, h, sizes, own=None, world=1, rank=0, target=0, res=(1, 2), max_epoch=1, dni=None, **c):
        self.h, self.sizes, self.res = h, sizes, res
        self.lo, self.hi, self.start = [], [], []
        self.groups = []
        for g, n in enumerate(sizes):
            lo, hi, start = h.real(f"min{g}", (n, 2), 0, 40000), h.real(f"max{g}", (n, 2), 0, 40000), h.real(f"start{g}", (n, 2), 0, 40000)
            h.assume((lo <= start) & (start <= hi))
            grp = StandInGroup(h, f"g{g}", n, limits=(lo, hi))
            grp.starts = start
            self.lo.append(lo), self.hi.append(hi), self.start.append(start), self.groups.append(grp)
        self.own = list(range(len(sizes))) if own is None else own
        self.tower = tower(h)
        self.scenario = scenario(h, self.groups, self.tower)
        self.light = torch.cat([h.real("light", (3,), -1, 1), torch.zeros(1)])
        self.wanted = h.real("wanted", (res[1], res[0]), 0, 5)
        self.target = target
        self.opt = AimPointOptimizer(ddp(self.own, world, rank), self.scenario, options(max_epoch, **c), self.light, target, self.wanted, dni, torch.tensor(res), device=CPU)

    def run(self, loss, stop_after=None):
        with replaced(self.h, stop_after):
            out = self.opt.optimize(loss, device=CPU)
            self.adam, self.calls, self.stopper = StandInAdam.made[0], StandInTracer.calls, Stopper.made[0]
        return out

    def scale(self, g):
        room = torch.minimum(self.start[g] - self.lo[g], self.hi[g] - self.start[g])
        return torch.maximum(room, torch.ones_like(room))


def limits(h, s, epochs):
    for g in s.own:
        drv = s.groups[g].driven
        h.check(torch.tensor(len(drv) == epochs), "aligned once per epoch")
        for e in range(epochs):
            mp = drv[e]
            h.le(s.lo[g] - 1, mp, "motor positions stay above the lower limit (up to one motor step)")
            h.le(mp, s.hi[g] + 1, "motor positions stay below the upper limit (up to one motor step)")
            want = s.start[g] + torch.tanh(s.adam.history[e][g]) * s.scale(g)
            h.eq(mp, want, "motor positions of the own parameters, scaled by the room left to the nearer limit", rtol=1e-5, tol=1e-2)


@HARNESSES("groups of 2 and 1 heliostats, 2 epochs with any optimiser steps, any limits up to 40000 motor steps", max_paths=3000, simplify=True)
def motor_limits(h):
    s = Setup(h, (2, 1))
    s.run(some_loss(KLDivergenceLoss))
    limits(h, s, 2)
    for g, grp in enumerate(s.groups):
        aim, inc = grp.asked[0]
        h.eq(aim, s.tower.get_centers_of_target_areas(torch.tensor([0] * s.sizes[g]), device=CPU), "first aligned to the chosen target")
        h.eq(inc, s.light.repeat(s.sizes[g], 1), "under the given light")
        h.eq(grp.kinematics.motor_positions, grp.driven[-1], "the motor positions kept are those last evaluated")


def on_target(s, call):
    """Combined image of the samples this process traced."""
    n = s.res[0] * s.res[1]
    return sum((call.rows[i, :n].reshape(s.res[1], s.res[0]) for i in call.own), torch.zeros(s.res[1], s.res[0]))


def evaluated(h, s, epochs):
    """For each epoch: the calls of the tracer and the combined image; every heliostat stands as driven in that epoch."""
    k = len(s.own)
    h.check(torch.tensor(len(s.calls) == epochs * k), "each group is traced once per epoch")
    out = []
    for e in range(epochs):
        calls = s.calls[e * k : (e + 1) * k]
        for g, c in zip(s.own, calls):
            h.check(torch.tensor(c.tracer.heliostat_group is s.groups[g] and c.tracer.blocking_active and c.targets.tolist() == [s.target] * s.sizes[g]), "own group, chosen target, with blocking")
            h.eq(c.incident, s.light.repeat(s.sizes[g], 1), "traced under the given light")
        out.append((calls, sum(on_target(s, c) for c in calls)))
    return out


def factors(h, s, calls, out):
    n, first = s.res[0] * s.res[1], [sum(s.sizes[:g]) for g in range(len(s.sizes))]
    for g, c in zip(s.own, calls):
        for i in c.own:
            for j, name in enumerate(("intercept", "on-target", "blocking")):
                h.eq(out[2 + j][first[g] + i], c.rows[i, n + j], f"{name} factor of a heliostat is its own, at its number in the whole field")


@HARNESSES("3 groups of 1 to 3 heliostats, shared by 1 to 3 processes each, some groups handled elsewhere, losses of any kind", max_paths=300, simplify=True)
def totals(h):
    sizes = [(1, 3), (2, 1, 2), (3, 2)][h.choice("sizes", 3)]
    own = [list(range(len(sizes))), [1], [len(sizes) - 1, 0]][h.choice("own", 3)]
    w, r = [(1, 0), (2, 0), (2, 1), (3, 2)][h.choice("process", 4)]
    if r >= min(sizes[g] for g in own):
        r = 0  # every process has something to trace
    kind = [KLDivergenceLoss, Loss][h.choice("loss", 2)]
    s = Setup(h, sizes, own, w, r, target=2 if kind is Loss else 1, dni=h.real("dni", (), 100, 1000))
    loss = some_loss(kind)
    out = s.run(loss, stop_after=0)
    (calls, flux), = evaluated(h, s, 1)
    h.eq(loss.prediction[0], flux, "the compared image is the sum over all traced heliostats")
    for c in calls:
        h.eq(c.tracer.ray_magnitude, s.opt.dni * (4 * 2**0.5 + 0.02) ** 2, "power of a mirror (2 by 2 facets) under the given irradiance, shared by its rays", rtol=1e-5)
    factors(h, s, calls, out)
    if kind is Loss:
        want = ((flux - s.wanted) * weights(s.res[0], 7)).sum() * 0.25
        h.eq(out[0].reshape(()), want, "without constraints the loss is the flux loss")
        h.eq(torch.stack([torch.as_tensor(x).reshape(()) for x in out[1]["total_loss"]]), want.reshape(1), "history of the loss")


@HARNESSES("groups of 1 and 1 heliostats, 3 epochs, any weights of the constraints, planar and cylindrical targets", max_paths=300, simplify=True)
def constraints(h):
    rf, rl, ri = h.real("rho_flux", (), 0, 5), h.real("rho_local", (), 0, 5), h.real("rho_intercept", (), 0, 5)
    top = h.real("max", (), 0.1, 10)
    target = h.choice("target", 3)
    s = Setup(h, (1, 1), target=target, max_epoch=2, rho_flux_integral=rf, rho_local_flux=rl, rho_intercept=ri, max_flux_density=top)
    out = s.run(some_loss(KLDivergenceLoss))
    t = s.tower
    area = t.target_areas[0].dimensions[target].prod() if target < 2 else t.target_areas[1].radii[0] * t.target_areas[1].opening_angles[0] * t.target_areas[1].heights[0]
    pixel = top * area / (s.res[0] * s.res[1])
    lf = ll = li = torch.zeros(())
    n = s.res[0] * s.res[1]
    pos = lambda x: torch.clamp(x, min=0.0)
    epochs = evaluated(h, s, 3)
    for e, (calls, flux) in enumerate(epochs):
        icpt = torch.stack([c.rows[0, n] for c in calls])
        if e == 0:
            flux0, icpt0 = flux.sum(), icpt
        d_flux, d_icpt, d_loc = (flux0 - flux.sum()) / (flux0 + EPS), (icpt0 - icpt) / (icpt0 + EPS), (flux - pixel) / (pixel + EPS)
        base = ((flux - s.wanted) * weights(s.res[0], 7)).sum() * 0.25
        c_flux = lf * pos(d_flux) + rf / 2 * pos(d_flux) ** 2
        c_icpt = (li * pos(d_icpt) + ri / 2 * pos(d_icpt) ** 2).mean()
        c_loc = (ll * pos(d_loc) + rl / 2 * pos(d_loc) ** 2).max()
        hist = lambda k: torch.as_tensor(out[1][k][e]).reshape(())
        h.eq(hist("flux_loss"), base, "flux loss")
        h.eq(hist("flux_integral_constraint"), c_flux, "energy must not fall below that of the first epoch")
        h.eq(hist("intercept_constraint"), c_icpt, "no heliostat may spill more than in the first epoch")
        h.eq(hist("local_flux_constraint"), c_loc, "no pixel may exceed the allowed density")
        h.eq(hist("total_loss"), base + c_flux + c_icpt + c_loc, "loss is the sum of the flux loss and the penalties")
        lf, li, ll = pos(lf + rf * d_flux), pos(li + ri * d_icpt.mean()), pos(ll + rl * d_loc.max())
    h.eq(out[0].reshape(()), base + c_flux + c_icpt + c_loc, "the reported loss is that of the last epoch")
    factors(h, s, epochs[-1][0], out)
