"""P14: activation and alignment of heliostat groups: the active heliostats are exactly the chosen ones, whatever happened before."""

from checks.common import *
from artist.field.heliostat_group_rigid_body import HeliostatGroupRigidBody

PROPERTY = "P14"
ASSUMPTIONS = [REALS, "activation masks hold 0, 1 or 2 activations per heliostat"]
HARNESSES = Registry()


def group(h, n, linear, points=2, ranges=1.0):
    free = lambda name, *s: h.real(name, (n,) + s, -ranges, ranges)
    non = torch.zeros(n, 7 if linear else 4, 2)
    non[:, 0] = 0.0 if linear else 1.0
    non[:, 2], non[:, 3] = -10.0, 10.0
    opt = torch.tensor([])
    if linear:
        non = torch.cat([non[:, :4], h.real("act", (n, 3, 2), 0.1, 1)], 1)
        opt = free("opt", 2, 2)
    else:
        non = torch.cat([non[:, :3], h.real("max", (n, 1, 2), 5, 10)], 1)
    pos = torch.cat([free("pos", 3), torch.ones(n, 1)], -1)
    g = HeliostatGroupRigidBody(
        [f"h{i}" for i in range(n)], pos, free("sp", points, 4), free("sn", points, 4), free("cant", 1, 2, 4), free("ft", 1, 4),
        free("io", 4), free("cp", 1, 2, 2, 3), torch.tensor([1, 1]), free("tr", 9), free("ro", 4), non, opt, device=CPU,
    )
    g.kinematics.motor_positions = free("mp", 2)
    return g


PAIRS = [
    ("surface points", lambda g: (g.active_surface_points, g.surface_points)),
    ("surface normals", lambda g: (g.active_surface_normals, g.surface_normals)),
    ("canting", lambda g: (g.active_canting, g.canting)),
    ("facet translations", lambda g: (g.active_facet_translations, g.facet_translations)),
    ("control points", lambda g: (g.active_nurbs_control_points, g.nurbs_control_points)),
    ("positions", lambda g: (g.kinematics.active_heliostat_positions, g.positions)),
    ("initial orientations", lambda g: (g.kinematics.active_initial_orientations, g.initial_orientations)),
    ("translation deviations", lambda g: (g.kinematics.active_translation_deviation_parameters, g.kinematics.translation_deviation_parameters)),
    ("rotation deviations", lambda g: (g.kinematics.active_rotation_deviation_parameters, g.kinematics.rotation_deviation_parameters)),
    ("motor positions", lambda g: (g.kinematics.active_motor_positions, g.kinematics.motor_positions)),
    ("actuator parameters", lambda g: (g.kinematics.actuators.active_non_optimizable_parameters, g.kinematics.actuators.non_optimizable_parameters)),
    ("optimizable actuator parameters", lambda g: (g.kinematics.actuators.active_optimizable_parameters, g.kinematics.actuators.optimizable_parameters)),
]


def values(m):
    return [int(x) for x in m.tolist()]


def chosen(h, g, m, before):
    k = sum(m)
    rows = [i for i, c in enumerate(m) for _ in range(c)]
    h.check(torch.tensor(int(g.number_of_active_heliostats) == k and int(g.kinematics.number_of_active_heliostats) == k), "number of active heliostats")
    h.check(torch.tensor(values(g.active_heliostats_mask) == list(m)), "stored mask")
    for name, f in PAIRS:
        a, _ = f(g)
        b = before[name]
        if b.numel() == 0:
            h.check(torch.tensor(a.numel() == 0), name + " stay empty")
            continue
        h.check(torch.tensor(tuple(a.shape) == (k,) + tuple(b.shape[1:])), name + ": one row per activation")
        if k:
            h.eq(a, b[rows], name + ": the rows of the chosen heliostats, in order")
        h.eq(f(g)[1], b, name + " of the field do not change")


def history(h, linear, n, steps):
    g = group(h, n, linear)
    before = {name: f(g)[1].clone() for name, f in PAIRS}
    for s in range(steps):
        m = h.int(f"mask{s}", (n,), 0, 2, dtype=torch.int32)
        m = torch.tensor(values(m), dtype=torch.int32)
        g.activate_heliostats(active_heliostats_mask=m, device=CPU)
        chosen(h, g, values(m), before)
    g.activate_heliostats(device=CPU)
    chosen(h, g, [1] * n, before)


@HARNESSES("2 heliostats with linear actuators, every sequence of 3 activations (each 0 to 2 times, the last of all heliostats)", max_paths=400)
def linear_history(h):
    history(h, True, 2, 2)


@HARNESSES("3 heliostats with ideal actuators, every sequence of 2 activations (each 0 to 2 times, the last of all heliostats)", max_paths=400)
def ideal_history(h):
    history(h, False, 3, 1)


@HARNESSES("3 heliostats with linear actuators, every sequence of 3 activations (each 0 to 2 times, the last of all heliostats)", tier="thorough", max_paths=2000, budget_s=500)
def linear_history_3(h):
    history(h, True, 3, 2)


@HARNESSES("3 heliostats of which any are active (0 to 2 times), any motor positions and surfaces, aligned twice with an activation in between", max_paths=200, simplify=True)
def align(h):
    g = group(h, 3, False)
    before = {name: f(g)[1].clone() for name, f in PAIRS}
    m = torch.tensor(values(h.int("mask", (3,), 0, 2, dtype=torch.int32)), dtype=torch.int32)
    k = int(m.sum())
    if not k:
        return
    rows = [i for i, c in enumerate(values(m)) for _ in range(c)]
    for t in range(2):
        mp = h.real(f"motor{t}", (k, 2), -3, 3)
        g.activate_heliostats(active_heliostats_mask=m, device=CPU)
        o = g.kinematics.motor_positions_to_orientations(mp, device=CPU)
        g.align_surfaces_with_motor_positions(mp, m, device=CPU)
        for s, i in enumerate(rows):
            for p in range(2):
                h.eq(g.active_surface_points[s, p], o[s] @ before["surface points"][i, p], "surface point carried by its own heliostat's pose")
                h.eq(g.active_surface_normals[s, p], o[s] @ before["surface normals"][i, p], "surface normal carried by its own heliostat's pose")
        h.eq(g.surface_points, before["surface points"], "the stored surfaces stay unaligned")
        h.eq(g.surface_normals, before["surface normals"], "the stored normals stay unaligned")
    h.check(torch.tensor(int(g.number_of_active_heliostats) == k), "alignment does not change the active heliostats")


@HARNESSES("2 heliostats of which any are active (0 to 2 times), any sun directions and aim points; the kinematics is a generic stand-in", max_paths=200, simplify=True)
def align_with_sun(h):
    g = group(h, 2, False)
    before = {name: f(g)[1].clone() for name, f in PAIRS}
    m = torch.tensor(values(h.int("mask", (2,), 0, 2, dtype=torch.int32)), dtype=torch.int32)
    k = int(m.sum())
    if not k:
        return
    rows = [i for i, c in enumerate(values(m)) for _ in range(c)]
    g.activate_heliostats(active_heliostats_mask=m, device=CPU)
    sun, aim = h.real("sun", (k, 4), -1, 1), h.real("aim", (k, 4), -1, 1)
    w = torch.arange(1.0, 17.0).reshape(4, 4)

    def pose(incident_ray_directions, aim_points, device=None, **kw):
        x = (incident_ray_directions * torch.tensor([1.0, 2, 3, 4])).sum(-1) + (aim_points * torch.tensor([5.0, 7, 11, 13])).sum(-1)
        return x[:, None, None] * w

    g.kinematics.incident_ray_directions_to_orientations = pose
    g.align_surfaces_with_incident_ray_directions(aim_points=aim, incident_ray_directions=sun, active_heliostats_mask=m, device=CPU)
    o = pose(sun, aim)
    for s, i in enumerate(rows):
        for p in range(2):
            h.eq(g.active_surface_points[s, p], o[s] @ before["surface points"][i, p], "surface point carried by its own heliostat's pose")
            h.eq(g.active_surface_normals[s, p], o[s] @ before["surface normals"][i, p], "surface normal carried by its own heliostat's pose")


@HARNESSES("2 heliostats, any two masks of 0 to 2: alignment for another mask than the active one is refused", max_paths=200)
def wrong_mask(h):
    g = group(h, 2, False)
    a = torch.tensor(values(h.int("active", (2,), 0, 2, dtype=torch.int32)), dtype=torch.int32)
    b = torch.tensor(values(h.int("asked", (2,), 0, 2, dtype=torch.int32)), dtype=torch.int32)
    if values(a) == values(b):
        return
    g.activate_heliostats(active_heliostats_mask=a, device=CPU)
    k = int(b.sum())
    old = g.active_surface_points.clone()
    for which in ("motors", "sun"):
        try:
            if which == "motors":
                g.align_surfaces_with_motor_positions(torch.zeros(k, 2), b, device=CPU)
            else:
                g.align_surfaces_with_incident_ray_directions(torch.ones(k, 4), torch.ones(k, 4), b, device=CPU)
        except Exception:
            h.eq(g.active_surface_points, old, "a refused alignment changes nothing")
        else:
            h.fail("heliostats that are not active cannot be aligned")
