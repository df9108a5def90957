"""P18: samples of different heliostats stay aligned: mappings, calibration data, train/test split."""

import json
import pathlib
import tempfile
from collections import namedtuple
from types import SimpleNamespace
from unittest import mock

from checks.common import *
from artist.geometry import coordinates
from artist.io import calibration_parser as CP
from artist.io import paint_calibration_parser as PP
from artist.optim.training import train_test_split
from artist.scenario.scenario import Scenario

PROPERTY = "P18"
ASSUMPTIONS = [REALS, "files are stand-ins that hold symbolic contents", "every active heliostat has the same number of samples when data are split (documented requirement)"]
HARNESSES = Registry()


def counts(h, name, n, hi):
    """Number of samples per heliostat."""
    return [h.choice(f"{name}{i}", hi + 1) for i in range(n)]


@HARNESSES("3 heliostats, each active or not, 1 to 4 samples each, any data, any test fraction in [0, 1)", max_paths=2000, budget_s=250)
def split(h):
    active = [1, h.choice("second", 2), h.choice("third", 2)]
    k = 1 + h.choice("samples", 4)
    order = h.choice("order", 3)
    active = active[order:] + active[:order]
    fraction = h.real("fraction", (), 0, 0.999)
    n = k * sum(active)
    mask = torch.tensor([a * k for a in active], dtype=torch.int32)
    flux, spots, rays, motors = h.real("flux", (n, 2, 2)), h.real("spots", (n, 4)), h.real("rays", (n, 4)), h.real("motors", (n, 2))
    targets = h.int("targets", (n,), 0, 5)
    s = train_test_split(mask, flux, spots, rays, motors, targets, test_fraction=fraction, device=CPU)
    n_test = s.number_of_test_samples
    n_train = s.number_of_train_samples
    h.check(torch.tensor(n_test + n_train == k and s.number_of_samples_per_heliostat == k), "every sample of a heliostat is used once")
    h.check(((n_test <= fraction * k) & (fraction * k < n_test + 1)) | torch.tensor(n_test == 1) & (fraction * k < 1), "share of the test samples, at least one")
    train = [i * k + j for i in range(sum(active)) for j in range(n_train)]
    test = [i * k + j for i in range(sum(active)) for j in range(n_train, k)]
    for tag, ix, want in (("train", s.train_indices, train), ("test", s.test_indices, test)):
        h.check(torch.tensor(ix.tolist() == want), f"{tag} samples are the first (last) ones of every heliostat, in order")
        for name, src in (("flux_measured", flux), ("focal_spots_measured", spots), ("incident_ray_directions", rays), ("motor_positions", motors), ("target_area_indices", targets)):
            got = getattr(s, f"{name}_{tag}")
            h.check(torch.tensor(tuple(got.shape) == (len(want),) + tuple(src.shape[1:])), f"number of {tag} samples")
            for i, j in enumerate(want):
                h.eq(got[i], src[j], f"{tag} data of {name} belong to the selected sample")
    h.eq(s.active_heliostats_mask_train, torch.tensor([a * n_train for a in active]), "train samples per heliostat")
    h.eq(s.active_heliostats_mask_test, torch.tensor([a * n_test for a in active]), "test samples per heliostat")


def scenario(n_targets=3):
    tower = SimpleNamespace(target_name_to_index={f"t{i}": i for i in range(n_targets)})
    s = Scenario.__new__(Scenario)
    s.solar_tower = tower
    return s


NAMES = ["alpha", "beta", "gamma"]
Group = namedtuple("Group", "names number_of_heliostats")


@HARNESSES("3 heliostats, 4 entries naming any of them or one of another group, any targets and light directions", max_paths=3000, budget_s=250)
def mapping(h):
    group = Group(NAMES, 3)
    names = NAMES + ["other"]
    order = [[1, 0, 1, 2], [3, 2, 3, 0], [0, 0, 3, 1], [2, 2, 2, 1]][h.choice("pattern", 4)]
    order[h.choice("place", 4)] = h.choice("who", 4)
    shift = h.choice("shift", 2)
    targets = [(2 * i + shift) % 3 for i in range(4)]
    d = [torch.cat([h.sphere(f"d{i}")[0], torch.zeros(1)]) for i in range(4)]
    mask, tgt, inc = scenario().index_mapping(group, [(names[order[i]], f"t{targets[i]}", d[i]) for i in range(4)], device=CPU)
    want = [(o, i) for o in range(3) for i in range(4) if order[i] == o]
    h.check(torch.tensor(mask.tolist() == [order.count(o) for o in range(3)]), "active counts: how often each heliostat is named")
    h.check(torch.tensor(tgt.tolist() == [targets[i] for _, i in want]), "targets in the order of the heliostats, then of the entries")
    h.check(torch.tensor(tuple(inc.shape) == (len(want), 4)), "one light direction per active heliostat")
    for k, (_, i) in enumerate(want):
        h.eq(inc[k], d[i], "light direction of the same entry")


@HARNESSES("3 heliostats, no mapping: any single light direction and target for all of them", max_paths=300)
def mapping_single(h):
    group = Group(NAMES, 3)
    t = h.choice("target", 3)
    d = torch.cat([h.sphere("d")[0], torch.zeros(1)])
    mask, tgt, inc = scenario().index_mapping(group, None, d, t, device=CPU)
    h.check(torch.tensor(mask.tolist() == [1, 1, 1] and tgt.tolist() == [t] * 3 and tuple(inc.shape) == (3, 4)), "every heliostat once, on the given target")
    for i in range(3):
        h.eq(inc[i], d, "the given light direction")
    mask, tgt, inc = scenario().index_mapping(group, device=CPU)
    h.check(torch.tensor(mask.tolist() == [1, 1, 1] and tgt.tolist() == [0] * 3), "every heliostat once, on the first target")
    h.eq(inc, torch.tensor([[0.0, 1.0, 0.0, 0.0]] * 3), "light from the south")


@HARNESSES("light directions of any length and fourth component, any target index: rejected unless normalised and existing", max_paths=300)
def mapping_invalid(h):
    group = Group(NAMES, 3)
    x = h.real("x", (), 0.5, 1.5)
    w = h.real("w", (), -0.5, 0.5)
    d = torch.stack([torch.zeros(()), x, torch.zeros(()), w])
    bad = ((x - 1).abs() > 1e-3) | (w.abs() > 2e-2)
    good = ((x - 1).abs() < 1e-6) & (w == 0)
    for strings in (False, True):
        try:
            if strings:
                scenario().index_mapping(group, [("beta", "t1", d)], device=CPU)
            else:
                scenario().index_mapping(group, None, d, 1, device=CPU)
            h.check(~bad, "directions that are not normalised are rejected")
        except ValueError:
            h.check(~good, "normalised directions are accepted")
    for call in (lambda: scenario().index_mapping(group, None, None, 3 + h.choice("beyond", 2), device=CPU), lambda: scenario().index_mapping(group, [("beta", "t7", torch.tensor([0.0, 1.0, 0.0, 0.0]))], device=CPU)):
        try:
            call()
            h.check(torch.tensor(False), "unknown targets are rejected")
        except ValueError:
            h.check(torch.tensor(True), "unknown targets are rejected")


def properties(h, n):
    """Symbolic contents of n calibration files."""
    spot = {m: h.real(f"spot_{m}", (n, 3), -1, 1) for m in ("UTIS", "HeliOS")}
    az, el, motor = h.real("az", (n,), -180, 180), h.real("el", (n,), 0, 90), h.real("motor", (n, 2), 0, 60000)
    P = PP.paint_mappings
    data = [
        {
            P.TARGET_NAME_KEY: f"t{(2 * i + 1) % 3}",
            P.FOCAL_SPOT_KEY: {m: [spot[m][i, k] for k in range(3)] for m in spot},
            P.SUN_AZIMUTH: az[i],
            P.SUN_ELEVATION: el[i],
            P.MOTOR_POS_KEY: {P.AXIS1_MOTOR_SAVE: motor[i, 0], P.AXIS2_MOTOR_SAVE: motor[i, 1]},
        }
        for i in range(n)
    ]
    return spot, az, el, motor, data


@HARNESSES("3 heliostats (and one of another group) in any order of the files, up to 2 files each, with and without sample limit, both centroid methods: every row of every result belongs to one file", max_paths=2000, budget_s=250)
def calibration(h):
    c = [[2, 1, 0], [1, 2, 2], [0, 2, 1]][h.choice("counts", 3)]
    limit = [None, 1][h.choice("limit", 2)]
    method = ["UTIS", "HeliOS"][h.choice("method", 2)]
    perm = [[0, 1, 2], [2, 0, 1]][h.choice("order", 2)]
    n = sum(c) + 1
    spot, az, el, motor, data = properties(h, n)
    images = h.real("image", (n, 2, 3), 0, 255)
    files, k = {}, 0
    for i in range(3):
        files[NAMES[i]] = list(range(k, k + c[i]))
        k += c[i]
    with tempfile.TemporaryDirectory() as folder:
        at = lambda j, kind: pathlib.Path(folder) / f"{j}.{kind}"
        for j in range(n):
            at(j, "json").write_text(json.dumps({"stand_in": j}))
            at(j, "png").write_bytes(b"")
        check_parsed(h, c, limit, method, perm, n, files, spot, az, el, motor, data, images, at)


def check_parsed(h, c, limit, method, perm, n, files, spot, az, el, motor, data, images, at):
    entries = [(NAMES[p], [at(j, "json") for j in files[NAMES[p]]], [at(j, "png") for j in files[NAMES[p]]]) for p in perm if c[p]]
    entries.insert(1, ("other", [at(n - 1, "json")], [at(n - 1, "png")]))
    parser = PP.PaintCalibrationDataParser(sample_limit=limit, centroid_extraction_method=method)
    of = lambda path: int(pathlib.Path(str(path)).stem)
    s = scenario()
    s.power_plant_position = torch.tensor([50.91, 6.38, 87.0], dtype=torch.float64)
    parse = json.loads
    # json.load is json.loads of the contents of the file
    fake_loads = lambda text, *a, **k: data[parse(text)["stand_in"]]
    fake_image = lambda path, mode=None: images[of(path)][None].clone()
    # the conversion to local coordinates is decided elsewhere: here any (opaque) map, marked by its arguments
    converted = []

    def convert(points, reference, device=None):
        converted.append((points, reference))
        return points.to(torch.float32) * 3 + 1

    sun = lambda a, e, degree=False, device=None: torch.stack([a, e, a * 2 + e], 1)
    with mock.patch.object(json, "loads", fake_loads), mock.patch.object(CP.torchvision.io, "decode_image", fake_image), mock.patch.object(coordinates, "convert_wgs84_coordinates_to_local_enu", convert), mock.patch.object(coordinates, "azimuth_elevation_to_enu", sun):
        flux, spots, inc, motors, mask, targets = parser.parse_data_for_reconstruction(entries, Group(NAMES, 3), s, torch.tensor([3, 2]), device=CPU)
    used = [files[x][: (limit or 9)] for x in NAMES]
    want = [j for u in used for j in u]
    h.check(torch.tensor(mask.tolist() == [len(u) for u in used]), "samples per heliostat")
    h.check(torch.tensor(targets.tolist() == [(2 * j + 1) % 3 for j in want]), "target of the same file")
    h.check(torch.tensor(all(x.shape[0] == len(want) for x in (flux, spots, inc, motors)) and tuple(flux.shape[1:]) == (2, 3)), "one row per used file")
    h.check(torch.tensor(converted[0][1] is s.power_plant_position), "relative to the power plant")
    for r, j in enumerate(want):
        h.eq(flux[r] * 255, images[j], "flux image of the same file, scaled to one")
        h.eq(spots[r], torch.cat([spot[method][j] * 3 + 1, torch.ones(1)]), "focal spot of the same file and method, in local coordinates")
        h.eq(motors[r], motor[j], "motor positions of the same file")
        h.eq(inc[r], torch.stack([-az[j], -el[j], -az[j] * 2 - el[j], torch.zeros(())]), "light travels from the sun of the same file")
