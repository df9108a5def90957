"""A heliostat field whose kinematics and ray tracing are generic functions of their inputs, and optimisers that may step anywhere.

Used to decide what the optimisation loops do with the quantities they compute, for every course an optimisation can take.
"""

import contextlib
import functools
import random
from types import SimpleNamespace
from unittest import mock

import torch

from artist.field.heliostat_field import HeliostatField
from artist.field.heliostat_group_rigid_body import HeliostatGroupRigidBody
from artist.field.solar_tower import SolarTower
from artist.field.tower_target_areas_cylindrical import TowerTargetAreasCylindrical
from artist.field.tower_target_areas_planar import TowerTargetAreasPlanar
from artist.optim import training
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.scene.sun import Sun

CPU = torch.device("cpu")


@functools.lru_cache(None)
def factors(k, seed):
    g = random.Random(seed)
    return [g.randint(1, 64) / 16 for _ in range(k)]


def weights(k, seed):
    return torch.tensor(factors(k, seed))


def mix(x, k, seed):
    """k generic linear combinations of the last dimension."""
    return x @ torch.tensor([factors(x.shape[-1], seed + j) for j in range(k)]).T


class StandInGroup(HeliostatGroupRigidBody):
    """A real group whose orientations are generic functions of what they are computed from."""

    def __init__(self, h, tag, n, points=1, facets=1, control=(2, 2), degrees=(1, 1), limits=None, cp=None):
        free = lambda name, *s: h.real(f"{name}{tag}", (n,) + s, -1, 1)
        non = torch.zeros(n, 4, 2)
        if limits is not None:
            non = torch.cat([torch.ones(n, 1, 2), torch.zeros(n, 1, 2), limits[0][:, None], limits[1][:, None]], 1)
        fixed = lambda k, *s: (torch.arange(float(n)).reshape((n,) + (1,) * len(s)) + 1).expand((n,) + s) * k
        super().__init__(
            [f"{tag}{i}" for i in range(n)], torch.cat([free("pos", 3), torch.ones(n, 1)], -1), fixed(0.5, points, 4), fixed(0.25, points, 4), fixed(1.0, facets, 2, 4), fixed(2.0, facets, 4),
            fixed(1.0, 4), cp if cp is not None else fixed(0.125, facets, *control, 3), torch.tensor(degrees), torch.zeros(n, 9), free("ro", 4), non, torch.tensor([]), device=CPU,
        )
        self.h, self.tag, self.starts, self.asked, self.driven = h, tag, None, [], []
        self.kinematics.incident_ray_directions_to_orientations = self._by_direction
        self.kinematics.motor_positions_to_orientations = self._by_motors

    def _matrix(self, x):
        return mix(torch.cat([x, self.kinematics.active_rotation_deviation_parameters, self.kinematics.active_heliostat_positions], -1), 16, 100).reshape(-1, 4, 4)

    def _by_direction(self, incident_ray_directions, aim_points, *a, device=None, **k):
        rows = [i for i, c in enumerate(self.active_heliostats_mask.tolist()) for _ in range(int(c))]
        self.asked.append((aim_points, incident_ray_directions))
        if self.starts is not None:
            self.kinematics.active_motor_positions = self.starts[rows]
        return self._matrix(torch.cat([incident_ray_directions, aim_points], -1))

    def _by_motors(self, motor_positions, device=None):
        self.driven.append(motor_positions)
        return self._matrix(motor_positions)


class StandInTracer:
    """Stand-in for HeliostatRayTracer.trace_rays: images are generic functions of each aligned surface, light and target."""

    h, calls, count = None, [], 0


def trace_rays(self, incident_ray_directions, active_heliostats_mask, target_area_indices, ray_extinction_factor=0.0, mirror_reflectivity=0.935, device=None):
    own = [int(i) for i in self.distortions_sampler.rank_indices]
    res, g = [int(v) for v in self.bitmap_resolution.tolist()], self.heliostat_group
    rows = images(g.active_surface_points, g.active_surface_normals, incident_ray_directions, target_area_indices, res)
    n, h = rows.shape[0], StandInTracer.h
    keep = torch.tensor([i in own for i in range(n)])
    StandInTracer.count += 1
    junk = h.real(f"unset{StandInTracer.count}", tuple(rows.shape), 0, 9) if not bool(keep.all()) else rows
    rows = torch.where(keep[:, None], rows, junk)
    pixels = res[0] * res[1]
    StandInTracer.calls.append(SimpleNamespace(tracer=self, own=own, incident=incident_ray_directions, targets=target_area_indices, mask=active_heliostats_mask, rows=rows))
    return rows[:, :pixels].reshape(n, res[1], res[0]), rows[:, pixels], rows[:, pixels + 1], rows[:, pixels + 2]


def images(p, q, incident, targets, res):
    """One row per sample: the pixels and three factors."""
    t = torch.as_tensor(targets).reshape(-1, 1).to(torch.float32)
    x = torch.cat([p.reshape(p.shape[0], -1), q.reshape(q.shape[0], -1), incident, t], -1)
    return torch.sigmoid(mix(x, res[0] * res[1] + 3, 300) / 2**17)


class StandInAdam:
    """An optimiser that may move its parameters anywhere: each step gives them arbitrary new values."""

    h, made = None, []

    def __init__(self, params, lr=None, **kw):
        params = list(params)
        if not isinstance(params[0], dict):
            params = [dict(params=params)]
        self.param_groups = [dict(lr=p.get("lr", lr), params=[p["params"]] if isinstance(p["params"], torch.Tensor) else list(p["params"])) for p in params]
        self.steps, self.grads, self.raw, self.history = 0, [], {}, [self.values()]
        StandInAdam.made.append(self)

    def parameters(self):
        return [p for g in self.param_groups for p in g["params"]]

    def values(self):
        return [p.detach().clone() for p in self.parameters()]

    def zero_grad(self, *a, **k):
        for p in self.parameters():
            p.grad = None

    def step(self, *a):
        self.grads.append([p.grad for p in self.parameters()])
        k = StandInAdam.made.index(self)
        with torch.no_grad():
            for i, p in enumerate(self.parameters()):
                p.copy_(StandInAdam.h.real(f"step{k}_{self.steps}_{i}", tuple(p.shape), -2, 2))
        self.steps += 1
        self.history.append(self.values())


class Stopper:
    """Early stopping that may stop at any epoch."""

    made, stop_after = [], None


def stopper(self, **k):
    self.seen = []
    Stopper.made.append(self)


def stops(self, loss):
    self.seen.append(loss)
    return Stopper.stop_after is not None and len(self.seen) > Stopper.stop_after


def backward(self, *a, **k):
    """Gradients are arbitrary; a loss that does not depend on any parameter has none."""
    if not self.requires_grad:
        raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
    for o in StandInAdam.made:
        for i, p in enumerate(o.parameters()):
            p.grad = StandInAdam.h.real(f"grad{StandInAdam.made.index(o)}_{o.steps}_{i}", tuple(p.shape), -2, 2)
            o.raw[o.steps, i] = p.grad.clone()


@contextlib.contextmanager
def replaced(h, stop_after=None):
    """Run an optimisation with the stand-ins."""
    StandInAdam.h, StandInAdam.made = h, []
    StandInTracer.h, StandInTracer.calls, StandInTracer.count = h, [], 0
    Stopper.made, Stopper.stop_after = [], stop_after
    with contextlib.ExitStack() as s:
        for target, name, value in (
            (HeliostatRayTracer, "trace_rays", trace_rays),
            (torch.optim, "Adam", StandInAdam),
            (training.EarlyStopping, "__init__", stopper),
            (training.EarlyStopping, "step", stops),
            (training, "exponential", lambda optimizer, parameters: SimpleNamespace(step=lambda *a: None)),
            (torch.Tensor, "backward", backward),
        ):
            s.enter_context(mock.patch.object(target, name, value))
        yield


def tower(h, planar=2, cylindrical=1):
    o4 = lambda n, name: torch.cat([h.real(name, (n, 3), -20, 20), torch.ones(n, 1)], -1)
    d4 = lambda n, name: torch.cat([h.real(name, (n, 3), -1, 1), torch.zeros(n, 1)], -1)
    p = TowerTargetAreasPlanar([f"p{i}" for i in range(planar)], o4(planar, "pc"), d4(planar, "pn"), h.real("pd", (planar, 2), 1, 9))
    c = TowerTargetAreasCylindrical(names=[f"c{i}" for i in range(cylindrical)], centers=o4(cylindrical, "cc"), normals=d4(cylindrical, "cn"), axes=d4(cylindrical, "ca"), radii=h.real("cr", (cylindrical,), 1, 3), heights=h.real("ch", (cylindrical,), 1, 9), opening_angles=h.real("co", (cylindrical,), 1, 6))
    return SolarTower([p, c], device=CPU)


def scenario(h, groups, tower_):
    return SimpleNamespace(solar_tower=tower_, heliostat_field=HeliostatField(groups, device=CPU), light_sources=SimpleNamespace(light_source_list=[Sun(1, device=CPU)]))


def ddp(groups, world=1, rank=0):
    return dict(device=CPU, is_distributed=False, is_nested=False, rank=0, world_size=1, process_subgroup=None, groups_to_ranks_mapping={0: list(groups)}, heliostat_group_rank=rank, heliostat_group_world_size=world, ranks_to_groups_mapping={g: [0] for g in groups})
