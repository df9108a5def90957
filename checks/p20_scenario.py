"""P20: a scenario read back from its file is the scenario that was written; missing parts come from the prototype."""

from unittest import mock

import h5py

from checks.common import *
from checks.h5_standin import h5
from artist.field import solar_tower, tower_target_areas_cylindrical, tower_target_areas_planar
from artist.field.surface import Surface
from artist.nurbs.surfaces import NURBSSurfaces
from artist.nurbs.utils import create_planar_nurbs_control_points
from artist.io import h5_scenario_parser
from artist.scenario import scenario as scenario_module
from artist.scenario.h5_scenario_generator import H5ScenarioGenerator
from artist.scenario.scenario import Scenario
from artist.scene import light_source_array, sun
from artist.util import config as C

PROPERTY = "P20"
ASSUMPTIONS = [REALS, "the file is a stand-in for h5py.File that keeps symbolic values (groups and datasets by path, keys in alphabetical order); witnesses are replayed with the real h5py", "means and covariances of light sources are given"]
HARNESSES = Registry()
MODULES = [solar_tower, tower_target_areas_planar, tower_target_areas_cylindrical, h5_scenario_parser, scenario_module, light_source_array, sun]

TRANSLATIONS = ["first_joint_translation_e", "first_joint_translation_n", "first_joint_translation_u", "second_joint_translation_e", "second_joint_translation_n", "second_joint_translation_u", "concentrator_translation_e", "concentrator_translation_n", "concentrator_translation_u"]
TILTS = ["first_joint_tilt_n", "first_joint_tilt_u", "second_joint_tilt_e", "second_joint_tilt_n"]
LINEAR = ["increment", "offset", "pivot_radius", "initial_angle", "initial_stroke_length"]
T = torch.tensor


def facets(h, tag, n=2, degree=1, flat=False, points=2):
    """Facets with fixed canting and east/north control coordinates of their own; heights and translations are symbolic."""
    k = sum(map(ord, tag)) % 7
    grid = torch.stack(torch.meshgrid(torch.linspace(-1, 1, points), torch.linspace(-1, 1, points), indexing="ij"), -1)
    out = []
    for i in range(n):
        z = torch.zeros(points, points, 1) if flat else h.real(f"cp{tag}_{i}", (points, points, 1), 0.1, 0.5)
        cant = T([[1.0, 0.0, 0.125 * (k + i), 0.0], [0.0, 2.0, -0.25 * i, 0.0]])
        tr = torch.cat([h.real(f"tr{tag}_{i}", (3,), -2, 2), torch.ones(1)])
        out.append(C.FacetConfig(facet_key=f"facet_{i + 1}", control_points=torch.cat([grid * (1 + k / 8), z], -1), degrees=T([degree, degree]), translation_vector=tr, canting=cant))
    return out


def deviations(h, tag, missing=()):
    v = h.real(f"dev{tag}", (13,), -1, 1)
    given = {k: v[i] for i, k in enumerate(TRANSLATIONS + TILTS) if i not in missing}
    want = [given.get(k, torch.zeros(())) for k in TRANSLATIONS + TILTS]
    return C.KinematicsDeviations(**given), torch.stack(want[:9]), torch.stack(want[9:])


def actuators(h, tag, kind, clockwise, missing=()):
    """Two actuators and the parameter columns expected for them."""
    lst, fixed, free = [], [], []
    v, lim = h.real(f"act{tag}", (2, 5), 0.1, 2), h.real(f"lim{tag}", (2, 2), 0, 9)
    for i in range(2):
        given = {k: v[i, j] for j, k in enumerate(LINEAR) if j not in missing} if kind == "linear" else {}
        lst.append(C.ActuatorConfig(key=f"actuator_{i + 1}", actuator_type=kind, clockwise_axis_movement=bool(clockwise[i]), min_max_motor_positions=lim[i], parameters=C.ActuatorParameters(**given) if kind == "linear" else None))
        g = [given.get(k, torch.zeros(())) for k in LINEAR]
        head = [T(0.0 if kind == "linear" else 1.0), T(float(clockwise[i])), lim[i, 0], lim[i, 1]]
        fixed.append(torch.stack(head + (g[:3] if kind == "linear" else [])))
        if kind == "linear":
            # Surfaces are stored lying flat while heliostats start facing south: a quarter turn about the east axis of actuator one.
            free.append(torch.stack([g[3] - (torch.pi / 2 if i == 0 else 0), g[4]]))
    return C.ActuatorListConfig(actuator_list=lst), torch.stack(fixed, 1), torch.stack(free, 1) if free else torch.zeros(0)


def evaluated(self, evaluation_points, canting=None, facet_translations=None, device=None):
    """Stand-in for the evaluation of NURBS surfaces (checked in P15): some injective-looking linear function of everything it is given."""
    cp, ep = self.control_points, evaluation_points
    k = torch.arange(1, cp.shape[2] * cp.shape[3] + 1).reshape(cp.shape[2], cp.shape[3], 1) * 1.0
    d = float(self.degrees[0]) + 4 * float(self.degrees[1])
    p = (cp * k).sum((2, 3)).unsqueeze(2) * (1 + ep[..., :1] + 2 * ep[..., 1:]) * d
    n = (cp * k * k).sum((2, 3)).unsqueeze(2) * (2 + 3 * ep[..., :1] + ep[..., 1:]) * d
    if canting is not None:
        p, n = p + (canting[:, :, :1, :3] - 2 * canting[:, :, 1:, :3]), n + 3 * canting[:, :, :1, :3] + canting[:, :, 1:, :3]
    if facet_translations is not None:
        p = p + 5 * facet_translations[:, :, None, :3]
    return torch.cat([p, torch.ones_like(p[..., :1])], -1), torch.cat([n, torch.zeros_like(n[..., :1])], -1)


class Parts:
    """Everything a heliostat can own, with what is expected after loading."""

    def __init__(self, h, tag, kind, clockwise, degree=1, missing=(), missing_act=(), flat=False, points=2):
        self.facets = facets(h, tag, degree=degree, flat=flat, points=points)
        self.dev, self.trans, self.tilt = deviations(h, tag, missing)
        self.orient = torch.cat([h.real(f"orient{tag}", (3,), -1, 1), torch.zeros(1)])
        self.act, self.fixed, self.free = actuators(h, tag, kind, clockwise, missing_act)
        self.kind, self.degree = kind, degree


def tower(h, order=(0, 1)):
    o4 = lambda v: torch.cat([v, torch.ones(1)])
    z4 = lambda v: torch.cat([v, torch.zeros(1)])
    pc, pn, pd = h.real("pc", (2, 3), -50, 50), h.real("pn", (2, 3), -1, 1), h.real("pd", (2, 2), 1, 9)
    cc, cn, ca, cs = h.real("cc", (2, 3), -50, 50), h.real("cn", (2, 3), -1, 1), h.real("ca", (2, 3), -1, 1), h.real("cs", (2, 3), 1, 6)
    planar = [C.TargetAreaPlanarConfig(n, o4(pc[i]), z4(pn[i]), pd[i, 0], pd[i, 1]) for i, n in enumerate(("upper", "lower"))]
    cyl = [C.TargetAreaCylindricalConfig(n, cs[i, 0], o4(cc[i]), cs[i, 1], z4(ca[i]), z4(cn[i]), cs[i, 2]) for i, n in enumerate(("receiver", "cavity"))]
    return [planar[k] for k in order], [cyl[k] for k in order]


def light(h, n=1):
    mean, cov = h.real("mean", (n,), -0.1, 0.1), h.real("cov", (n,), 1e-3, 0.1)
    names = ["sun_b", "sun_a"]
    return [C.LightSourceConfig(names[i], "sun", 10 + 3 * i, "normal", mean[i], cov[i]) for i in range(n)], mean, cov


def round_trip(h, heliostats, proto, order=(0, 1), lights=1, position=None, points=(2, 2), control=None):
    planar, cyl = tower(h, order)
    suns, _, _ = light(h, lights)
    position = position if position is not None else torch.zeros(3, dtype=torch.float64)
    with h5(h, MODULES) as folder, mock.patch.object(NURBSSurfaces, "calculate_surface_points_and_normals", evaluated):
        H5ScenarioGenerator(
            folder / "scenario.h5",
            C.PowerPlantConfig(position),
            C.TargetAreaPlanarListConfig(planar),
            C.TargetAreaCylindricalListConfig(cyl),
            C.LightSourceListConfig(suns),
            C.HeliostatListConfig(heliostats),
            C.PrototypeConfig(C.SurfacePrototypeConfig(proto.facets), C.KinematicsPrototypeConfig("rigid_body", proto.orient, proto.dev), C.ActuatorPrototypeConfig(proto.act.actuator_list)),
        ).generate_scenario()
        with h5py.File(folder / "scenario.h5", "r") as f:
            count = int(f["number_of_heliostat_groups"][()])
            s = Scenario.load_scenario_from_hdf5(f, number_of_surface_points_per_facet=T(list(points)), change_number_of_control_points_per_facet=control, device=CPU)
    h.check(T(count == s.heliostat_field.number_of_heliostat_groups), "number of groups noted in the file")
    return s


def check_heliostat(h, g, i, name, position, surface, kin, act, control=None):
    h.check(T(g.names[i] == name), "heliostats in alphabetical order")
    h.eq(g.positions[i], position, "own position")
    if control is None:
        h.eq(g.nurbs_control_points[i], torch.stack([f.control_points for f in surface.facets]), "control points of the own surface")
    else:
        flat = create_planar_nurbs_control_points(control, torch.stack([f.canting for f in surface.facets]), device=CPU)
        h.eq(g.nurbs_control_points[i], flat, "flat control points in the asked number, spanning the own facets")
    h.eq(g.canting[i], torch.stack([f.canting for f in surface.facets]), "canting of the own surface")
    h.eq(g.facet_translations[i], torch.stack([f.translation_vector for f in surface.facets]), "facet translations of the own surface")
    h.check(T(g.nurbs_degrees.tolist() == [surface.degree] * 2), "degrees of the own surface")
    with mock.patch.object(NURBSSurfaces, "calculate_surface_points_and_normals", evaluated):
        p, n = Surface(C.SurfaceConfig(surface.facets), device=CPU).get_surface_points_and_normals(T([2, 2]), g.canting[i], g.facet_translations[i], device=CPU)
    h.eq(g.surface_points[i], p.reshape(-1, 4), "points of the own surface")
    h.eq(g.surface_normals[i], n.reshape(-1, 4), "normals of the own surface")
    h.eq(g.initial_orientations[i], kin.orient, "own initial orientation")
    k = g.kinematics
    h.eq(k.translation_deviation_parameters[i], kin.trans, "own translation deviations, zero where none is given")
    h.eq(k.rotation_deviation_parameters[i], kin.tilt, "own tilts, zero where none is given")
    h.eq(k.actuators.non_optimizable_parameters[i], act.fixed, "own actuator parameters, zero where none is given")
    if act.kind == "linear":
        h.eq(k.actuators.optimizable_parameters[i], act.free, "own initial angles (turned by the rest pose) and strokes")


def build(h, owns, kinds, proto_kind, degrees=None, missing=(), missing_act=(), control=None):
    """Heliostats that own the given parts (surface, kinematics, actuators) and the scenario they are loaded from."""
    names = ["h_c", "h_a", "h_b"][: len(owns)]
    degrees = degrees or [1] * len(owns)
    proto = Parts(h, "_proto", proto_kind, (1, 0), flat=True)
    pos = torch.cat([h.real("pos", (len(owns), 3), -90, 90), torch.ones(len(owns), 1)], 1)
    parts = [Parts(h, f"_{i}", kinds[i], ((i + 1) % 2, i % 2), degrees[i], missing, missing_act, points=max(degrees) + 1) for i in range(len(owns))]
    hs = [
        C.HeliostatConfig(
            names[i],
            i,
            pos[i],
            C.SurfaceConfig(parts[i].facets) if owns[i][0] else None,
            C.KinematicsConfig("rigid_body", parts[i].orient, parts[i].dev) if owns[i][1] else None,
            parts[i].act if owns[i][2] else None,
        )
        for i in range(len(owns))
    ]
    s = round_trip(h, hs, proto, control=control)
    used = [tuple(parts[i] if owns[i][k] else proto for k in range(3)) for i in range(len(owns))]
    groups = {}
    for i in sorted(range(len(owns)), key=lambda i: names[i]):
        groups.setdefault(used[i][2].kind, []).append(i)
    field = s.heliostat_field
    h.check(T([len(g.names) for g in field.heliostat_groups] == [len(v) for v in groups.values()] and field.number_of_heliostats_per_group.tolist() == [len(v) for v in groups.values()]), "one group per kind of heliostat, with all of its heliostats")
    for g, kind in zip(field.heliostat_groups, groups):
        h.check(T(type(g.kinematics.actuators).__name__.lower().startswith(kind)), "kind of actuators of the group")
        for r, i in enumerate(groups[kind]):
            check_heliostat(h, g, r, names[i], pos[i], *used[i], control=control)


@HARNESSES("2 heliostats, each with or without own surface, kinematics and actuators (all 64 combinations), linear actuators, any data", max_paths=200, budget_s=300)
def prototypes(h):
    k = [h.choice(f"own{i}", 8) for i in range(2)]
    build(h, [[(v >> b) & 1 for b in range(3)] for v in k], ["linear", "linear"], "linear")


@HARNESSES("3 heliostats, each with or without own surface, kinematics and actuators (all 512 combinations), linear and ideal actuators, any data", tier="thorough", max_paths=600, budget_s=800)
def prototypes_3(h):
    k = [h.choice(f"own{i}", 8) for i in range(3)]
    build(h, [[(v >> b) & 1 for b in range(3)] for v in k], ["linear", "ideal", "linear"], "linear")


@HARNESSES("2 heliostats with and without own surfaces, loaded with a new number of control points (3 x 4)", max_paths=20)
def control_points(h):
    k = h.choice("own", 4)
    build(h, [(k & 1, 1, 1), (k >> 1, 1, 1)], ["linear", "ideal"], "linear", control=T([3, 4]))


@HARNESSES("3 heliostats with linear and ideal actuators in several mixtures and orders, any data", max_paths=100)
def groups(h):
    kinds = [["linear", "ideal", "linear"], ["ideal", "linear", "ideal"], ["ideal", "ideal", "ideal"], ["linear", "linear", "ideal"]][h.choice("kinds", 4)]
    own = [1, h.choice("own", 2), 1]
    build(h, [(1, 1, own[i]) for i in range(3)], kinds, ["linear", "ideal"][h.choice("proto", 2)])


@HARNESSES("2 heliostats of different groups, surfaces of degree 1 and 2 in either order", max_paths=100)
def degrees(h):
    d = [[1, 2], [2, 1]][h.choice("degrees", 2)]
    build(h, [(1, 1, 1)] * 2, [["linear", "ideal"], ["ideal", "linear"]][h.choice("kinds", 2)], "linear", d)


@HARNESSES("1 heliostat, any one of the 13 kinematics deviations or 5 actuator parameters left out", max_paths=100)
def left_out(h):
    k = h.choice("missing", 18)
    build(h, [(1, 1, 1)], ["linear"], "linear", missing=(k,) if k < 13 else (), missing_act=(k - 13,) if k >= 13 else ())


@HARNESSES("2 planar and 2 cylindrical targets written in any order, any data: found under their names", max_paths=50)
def targets(h):
    order = [(0, 1), (1, 0)][h.choice("order", 2)]
    proto = Parts(h, "_proto", "ideal", (1, 0), flat=True)
    position = h.real("plant", (3,), -90, 90, dtype=torch.float64)
    s = round_trip(h, [C.HeliostatConfig("h", 0, T([0.0, 0.0, 0.0, 1.0]))], proto, order, 2, position)
    planar, cyl = tower(h, order)
    h.eq(s.power_plant_position, position, "position of the power plant")
    t = s.solar_tower
    h.check(T(t.target_name_to_index == {"lower": 0, "upper": 1, "cavity": 2, "receiver": 3} and t.number_of_target_areas_per_type.tolist() == [2, 2]), "planar targets first, each kind by name")
    for c in planar:
        a, k = t.index_to_target_area[t.target_name_to_index[c.target_area_key]]
        h.check(T(a is t.target_areas[0]), "a planar target")
        h.eq(a.centers[k], c.center, "own centre")
        h.eq(a.normals[k], c.normal_vector, "own normal")
        h.eq(a.dimensions[k], torch.stack([c.plane_e, c.plane_u]), "own width and height")
    for c in cyl:
        a, k = t.index_to_target_area[t.target_name_to_index[c.target_area_key]]
        h.check(T(a is t.target_areas[1]), "a cylindrical target")
        for got, want, label in ((a.centers, c.center, "centre"), (a.normals, c.normal, "normal"), (a.axes, c.axis, "axis"), (a.radii, c.radius, "radius"), (a.heights, c.height, "height"), (a.opening_angles, c.opening_angle, "opening angle")):
            h.eq(got[k], want, "own " + label)
    suns, mean, cov = light(h, 2)
    src = s.light_sources.light_source_list
    h.check(T([x.number_of_rays for x in src] == [13, 10]), "light sources by name, own number of rays")
    for x, i in zip(src, (1, 0)):
        h.eq(x.distribution.mean, torch.stack([mean[i]] * 2), "own mean")
        h.eq(x.distribution.covariance_matrix, torch.eye(2) * cov[i], "own covariance, the same in both directions")


@HARNESSES("2 x 3 points, 2 heliostats, 3 rays: every scatter angle is the mean plus a draw of its own scaled by the standard deviation", max_paths=50)
def sun_scatter(h):
    mean, sd = h.real("mean", (), -0.1, 0.1), h.real("sd", (), 0.01, 0.3)
    s = sun.Sun(3, dict(distribution_type="normal", mean=mean, covariance=sd * sd), device=CPU)
    u, e = s.get_distortions(2, 2, 5)
    h.check(T(tuple(u.shape) == (2, 3, 2) and tuple(e.shape) == (2, 3, 2)), "one pair of angles per heliostat, ray and point")
    u2, e2 = s.get_distortions(2, 2, 5)
    h.eq(u2, u, "same seed, same angles")
    h.eq(e2, e, "same seed, same angles")
    if h.sym:
        d = [(x - mean) / sd for x in (u, e)]
        zs = [t for x in d for t in x._a.reshape(-1)]
        zs = [t if not isinstance(t, float) else t for t in zs]
        h.check(T(len({str(t) for t in zs}) == 24), "no draw is used twice")
