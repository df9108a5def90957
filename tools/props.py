"""The properties, in one place: gen.py writes properties.jsonl and MANIFEST.json from it."""

P = []


def prop(id, title, statement, text, why, files, mechanism, over=("inputs",), observe=(), state=(), note="", na=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=list(over), text=" ".join(text.split()), why=" ".join(why.split()), files=list(files), mechanism=list(mechanism), observe=list(observe), state=list(state), note=" ".join(note.split()), na=na))


G = "artist/geometry/"
R = "artist/raytracing/"
F = "artist/field/"

prop(
    "P01",
    "Rotations, scatter rotations, translations and canting are rigid motions",
    """Every rotation the library builds (about the east, north or up axis, about an arbitrary axis, or as a small scatter rotation of a ray) preserves lengths and angles,
    is right-handed, turns by exactly the requested angle in the documented sense, and leaves points at infinity (directions) unaffected by translations.
    Canting a facet turns its flat points and normals by one rigid rotation so that the facet is spanned by its canting vectors, and nothing is stretched or sheared.""",
    "every angle, axis, translation, ray scatter angle pair, facet point and pair of non-parallel canting vectors (batched)",
    "The tests compare a few fixed matrices; they do not cover arbitrary angles, batches or canting vectors, where a wrong sign or transposed entry in one element can hide.",
    [G + "transforms.py"],
    [{"name": "homogeneous rotation and translation matrices", "where": G + "transforms.py: rotate_distortions, rotate_n/e/u, translate_enu"}, {"name": "canting", "where": G + "transforms.py: perform_canting"}],
    observe=["returned transformation matrices", "canted points and normals"],
)
prop(
    "P02",
    "The rotation computed between two directions maps the first onto the second",
    """For any two directions, the axis and angle (or the east/up rotation decomposition) the library computes really carries the first direction into the second.
    Equal directions give the zero rotation and opposite directions a half turn about a perpendicular axis.""",
    "all pairs of unit directions, including parallel and antiparallel ones",
    "The tests sample a handful of vector pairs; degenerate pairs and whole quadrants of the sphere are never tried.",
    [G + "rotations.py"],
    [{"name": "axis-angle and angle decomposition", "where": G + "rotations.py: decompose_rotations, rotation_angle_and_axis"}],
    observe=["returned angles and axes, applied as rotations"],
)
prop(
    "P03",
    "Coordinate conversions keep the point they describe",
    """Converting between three- and four-component coordinates, azimuth/elevation and east-north-up directions, and WGS84 and local east-north-up positions describes the same physical point or direction:
    homogeneous components are set as documented, compass angles follow the documented south-based azimuth convention and give unit vectors, normalised point sets span exactly the unit interval, and a position equal to the reference maps to the origin with east, north and height increasing in the right direction.""",
    "all points, angles (degrees or radians) and positions on the globe away from the poles",
    "Tests check a few cardinal directions and one site; sign and axis conventions must hold for every angle and site.",
    [G + "coordinates.py"],
    [{"name": "coordinate conversions", "where": G + "coordinates.py"}],
    observe=["returned coordinates"],
)
prop(
    "P04",
    "Mirrors reflect by the law of reflection",
    """Every reflected ray lies in the plane of the incoming ray and the surface normal, has the same length and the opposite normal component, and reflecting twice gives back the incoming ray.
    Each surface point uses the incoming direction of its own heliostat, and flipping the sign of the normal does not change the result.""",
    "all incident directions and unit normals, batched over heliostats and points",
    "Unit tests use a few axis-aligned rays; batching and broadcasting mistakes need different rays per heliostat and points.",
    [R + "geometry.py", R + "heliostat_ray_tracer.py"],
    [{"name": "reflection", "where": R + "geometry.py: reflect"}],
    observe=["preferred reflection directions", "flux bitmaps"],
)
prop(
    "P05",
    "Rays hit planar targets exactly where geometry says",
    """A ray delivers energy to a flat target if and only if it travels from its origin forwards to the front side of the target plane and meets it inside the target's width and height.
    The reported pixel position is the geometric hit point (seen from the front, i.e. mirrored in east), the reported distance is the distance along the ray, and the intensity is the ray magnitude times the cosine of the incidence angle; every ray is judged with its own origin, direction and target.""",
    "all ray origins, directions, magnitudes, target centres, normals, sizes, bitmap resolutions and heliostat-to-target assignments",
    "Tests trace a few fixed scenes in which all rays start in front of the target; rays from behind, edge hits and mixed targets never occur.",
    [R + "geometry.py"],
    [{"name": "line-plane intersection", "where": R + "geometry.py: line_plane_intersections"}],
    observe=["intersection coordinates, distances and intensities", "flux bitmaps"],
)
prop(
    "P06",
    "Rays hit cylindrical targets exactly where geometry says",
    """A ray delivers energy to a cylindrical receiver if and only if its first forward meeting with the cylinder surface from outside lies inside the receiver's height and opening angle.
    The reported pixel position is the arc position and height of the hit point measured from the receiver's own normal and axis, the distance is the one along the ray, and the intensity follows the cosine law on the curved surface.""",
    "all ray origins, directions, cylinder positions, orientations, radii, heights and opening angles",
    "The tests use one receiver orientation and one ray bundle, so orientation-dependent terms are invisible.",
    [R + "geometry.py"],
    [{"name": "line-cylinder intersection", "where": R + "geometry.py: line_cylinder_intersections"}],
    observe=["intersection coordinates, distances and intensities", "flux bitmaps"],
)
prop(
    "P07",
    "Image positions and physical positions on targets correspond",
    """Converting a bitmap position into a physical aim point and tracing a ray to that point gives back the same bitmap position, for planar and cylindrical targets, and the result always lies on the target.
    Target centres, normals and dimensions are reported for the target that was asked for, whatever mixture of planar and cylindrical targets the tower has and in whatever order they are asked.""",
    "all target geometries, bitmap positions, and index vectors over mixed planar and cylindrical targets",
    "Tests use one tower and fixed index vectors; mixed towers with interleaved queries are not sampled.",
    [G + "coordinates.py", F + "solar_tower.py"],
    [{"name": "bitmap to target coordinates", "where": G + "coordinates.py: bitmap_coordinates_to_target_coordinates"}, {"name": "target lookups", "where": F + "solar_tower.py: get_centers_of_target_areas, index_to_target_area"}],
    observe=["aim points", "target centres"],
)
prop(
    "P08",
    "Flux bitmaps conserve and locate ray energy",
    """Each ray that meets its target adds exactly its intensity to the bitmap of its own heliostat, split over the neighbouring pixels so that the centre of the added energy is the hit position; rays off the target add nothing.
    Energies of different rays, points and heliostats simply add up, and the bitmap of a target area is the sum of the bitmaps of exactly those heliostats that aim at it.""",
    "all hit positions (pixel borders and bitmap edges included), intensities, bitmaps and heliostat-to-target assignments",
    "Tests compare whole images of one scene with a tolerance; energy lost at bitmap edges or given to the wrong pixel or heliostat is invisible there.",
    [R + "heliostat_ray_tracer.py"],
    [{"name": "bilinear splatting", "where": R + "heliostat_ray_tracer.py: sample_bitmaps"}, {"name": "sum per target", "where": R + "heliostat_ray_tracer.py: get_bitmaps_per_target"}],
    observe=["flux bitmaps", "bitmaps per target"],
)
prop(
    "P09",
    "A ray is blocked exactly when another mirror stands in its way",
    """The blocking factor of a ray is close to one if the ray passes, after leaving its origin and clearly before its target, through the inside of the rectangle spanned by a blocking heliostat, and close to zero if it misses every such rectangle;
    it always lies between zero and one, never decreases when a blocker is added, and each ray is judged with its own origin and direction.
    The blocking rectangle of a heliostat has its corners, sides and normal where the aligned mirror surface actually is.""",
    "all ray origins and directions, blocker positions, orientations and sizes, batched over heliostats, rays and points",
    "The tests check blocking for a few hand-made scenes with axis-parallel mirrors; orientation-dependent mistakes and wrong pairing of rays and origins cannot show.",
    [R + "blocking.py"],
    [{"name": "soft ray blocking", "where": R + "blocking.py: soft_ray_blocking_mask"}, {"name": "blocking primitives", "where": R + "blocking.py: create_blocking_primitives_rectangles_by_index, create_blocking_primitives_rectangle"}],
    observe=["blocking factors", "blocking rectangles"],
)
prop(
    "P10",
    "Narrowing down the possible blockers loses none of them",
    """The bounding-volume search that preselects possible blockers builds a proper binary tree in which every blocker is exactly one leaf and every box contains its children,
    and it reports every blocker whose box a ray passes through, for every tree shape, including blockers at equal or nearly equal positions and rays parallel to the coordinate axes.""",
    "all sets of Morton codes, box positions, ray directions and tree shapes within the stated sizes",
    "Tests use one small field of well-separated heliostats; duplicate codes, deep trees, axis-parallel rays and large candidate sets do not occur.",
    [R + "blocking.py"],
    [{"name": "linear bounding volume hierarchy", "where": R + "blocking.py: lbvh_filter_blocking_planes, build_linear_bounding_volume_hierarchies"}, {"name": "ray-box test", "where": R + "blocking.py: ray_aabb_intersect"}],
    observe=["indices of the blockers kept", "tree nodes and boxes"],
)
prop(
    "P11",
    "Joint angles and motor positions correspond",
    """For every actuator the conversion from motor position to joint angle and back gives the motor position again within its reachable stroke, follows the triangle of offset, pivot radius and stroke,
    is strictly monotone in the documented direction, and gives finite angles and strokes for any command. Each heliostat and each actuator uses its own parameters.""",
    "all actuator parameters, motor positions and joint angles (clockwise and counter-clockwise, linear and ideal actuators)",
    "Tests compare a handful of numbers of one parameter set; inverse consistency and clamping hold or fail for whole parameter ranges.",
    [F + "actuators_linear.py", F + "actuators_ideal.py"],
    [{"name": "linear actuator geometry", "where": F + "actuators_linear.py: motor_positions_to_angles, angles_to_motor_positions"}],
    observe=["motor positions and joint angles"],
)
prop(
    "P12",
    "Aligned heliostats reflect the sun onto their aim points",
    """Given the sun direction and an aim point, the orientation computed for a heliostat is a rigid pose at the heliostat's own position whose mirror normal reflects the sun onto the aim point, using motor positions within the limits whenever such exist.
    The stored motor positions are the ones that produce the returned orientation, orientations follow the documented joint composition with all tilts and translations, and heliostats aligned together do not influence each other.""",
    "all heliostat positions, sun directions, aim points, joint angles, tilts, translations and motor limits",
    "Tests compare with stored matrices for one site and one sun position; the law of reflection for arbitrary geometry is not asserted anywhere.",
    [F + "kinematics_rigid_body.py"],
    [{"name": "forward kinematics", "where": F + "kinematics_rigid_body.py: motor_positions_to_orientations"}, {"name": "alignment", "where": F + "kinematics_rigid_body.py: incident_ray_directions_to_orientations"}],
    observe=["orientation matrices", "active motor positions"],
)
prop(
    "P13",
    "Ray tracing gives every heliostat the flux of its own rays",
    """Tracing a set of active heliostats gives each of them, in the order of activation, the bitmap and the factors of exactly its own rays: scattered with its own distortions, sent to its own target (planar or cylindrical), attenuated by extinction, reflectivity and blocking.
    Neither the batch size nor the number of processes nor the other heliostats changes that result; every sample is traced by exactly one process.
    Every mirror of every group is a possible blocker, where it stands now, except the mirror a ray comes from.""",
    "all rays, targets, attenuations, activation masks, target assignments, batch sizes and numbers of processes within the stated sizes",
    "Tests trace one scene with fixed batches on one process; assignments mixing planar and cylindrical targets, repeated activation, several groups and odd batch sizes are not compared with single traces.",
    [R + "heliostat_ray_tracer.py", R + "sampling.py"],
    [{"name": "batched tracing", "where": R + "heliostat_ray_tracer.py: HeliostatRayTracer.trace_rays, scatter_rays"}, {"name": "sample distribution", "where": R + "sampling.py: DistortionsDataset, RestrictedDistributedSampler"}],
    observe=["flux bitmaps", "intercept, on-target and blocking factors", "sampler indices"],
)
prop(
    "P14",
    "Activating and aligning acts on exactly the chosen heliostats",
    """After activating heliostats of a group, everything the rest of the system sees as active (surfaces, canting, control points, positions, deviations, motor positions, actuator parameters) consists of exactly the chosen heliostats' own data, one row per activation, whatever was activated or aligned before.
    Aligning moves each active surface with its own heliostat's pose and leaves the stored surfaces untouched, and asking to align other heliostats than the active ones is refused without effect.""",
    "all group data, all sequences of activation masks (including none active and repeated activation) and alignments within the stated lengths",
    "Tests activate one mask on a fresh group; sequences such as switching a group off and on again are not tried.",
    [F + "heliostat_group.py", F + "heliostat_group_rigid_body.py"],
    [{"name": "activation", "where": F + "heliostat_group.py: HeliostatGroup.activate_heliostats"}, {"name": "alignment of surfaces", "where": F + "heliostat_group_rigid_body.py: align_surfaces_with_incident_ray_directions, align_surfaces_with_motor_positions"}],
    observe=["active_* attributes of a group and its kinematics"],
)
prop(
    "P15",
    "NURBS surfaces are the rational B-splines of their control points",
    """Evaluating a NURBS surface at parameters inside its domain gives the point of the tensor-product B-spline of its control points (basis functions non-negative, summing to one, non-zero only on their own knot spans) and the normal of its two tangents, canted and placed like its facet, for each surface, facet and evaluation point on its own.
    Planar control points of the ideal surface give planar points that span exactly the facet, and evaluation grids cover the facet evenly.""",
    "control points, evaluation points in [0, 1), degrees, numbers of control points and cantings",
    "Tests fit or evaluate a few stored surfaces; partition of unity, locality and agreement of normals with the points are not asserted for arbitrary control points.",
    ["artist/nurbs/surfaces.py", "artist/nurbs/utils.py", F + "surface.py", F + "heliostat_group.py"],
    [{"name": "basis functions and surface evaluation", "where": "artist/nurbs/surfaces.py: NURBSSurfaces"}, {"name": "ideal control points, evaluation points and grids", "where": "artist/nurbs/utils.py"}],
    observe=["surface points and normals", "basis functions and knot vectors"],
)
prop(
    "P16",
    "Measures taken on flux images describe the spot on the target",
    """The centre of mass of a flux image is its intensity-weighted mean pixel, the focal spot loss is the distance in metres of the two centres on the image's own target, and a crop around the centre shows, at every output pixel, the flux at the position that far (in metres) from the centre on the image's own target.
    Images of planar and cylindrical targets of different sizes can be mixed. The trapezoid reference distribution is one on its plateau, zero outside, linear in between.""",
    "image intensities, target sizes and kinds, crop sizes, target assignments",
    "Tests check stored crops and centres of a few images; width/height mix-ups, wrong target sizes and off-by-half-pixel shifts can hide in square or symmetric samples.",
    ["artist/flux/bitmap.py", "artist/optim/loss.py"],
    [{"name": "centre of mass and cropping", "where": "artist/flux/bitmap.py: get_center_of_mass, crop_flux_distributions_around_center, trapezoid_distribution"}, {"name": "focal spot distance", "where": "artist/optim/loss.py: FocalSpotLoss"}],
    observe=["positions, crops and losses"],
)
prop(
    "P17",
    "Losses and regularizers compute the documented quantity per sample",
    """Each loss gives for every sample the documented quantity of that sample's own prediction and measurement: squared distance, squared pixel differences relative to the measured intensity, the Kullback-Leibler divergence of the two distributions (zero for proportional images, independent of brightness), the angle between two directions, one minus its cosine.
    Losses per heliostat are reduced over that heliostat's own samples. The regularizers measure the mean squared displacement of control points and their deviation from the neighbours' displacement.""",
    "all predictions, measurements and control points within the stated sizes",
    "Tests compare a few stored numbers; invariances and independence of samples hold for every input or not at all.",
    ["artist/optim/loss.py", "artist/optim/regularizers.py"],
    [{"name": "losses", "where": "artist/optim/loss.py"}, {"name": "regularizers", "where": "artist/optim/regularizers.py"}],
    observe=["loss values"],
)
prop(
    "P18",
    "Samples stay aligned with their heliostat, target and measurement",
    """Mapping heliostats to targets and light directions, reading calibration data, and splitting samples into training and test sets keep every row of every tensor with its own sample: rows are ordered by heliostat, then by entry; the activation counts match; nothing is lost or duplicated.
    The split takes the last samples of each heliostat for testing (the given share, at least one). Invalid targets and directions that are not normalised are refused.""",
    "all assignments of entries to heliostats and targets, numbers of files and samples, limits, fractions and data values",
    "Tests use one or two heliostats in file order; permutations, repeated and foreign heliostats and limits are where rows get swapped.",
    ["artist/scenario/scenario.py", "artist/io/paint_calibration_parser.py", "artist/io/calibration_parser.py", "artist/optim/training.py"],
    [{"name": "index mapping", "where": "artist/scenario/scenario.py: Scenario.index_mapping"}, {"name": "calibration data", "where": "artist/io/paint_calibration_parser.py: PaintCalibrationDataParser"}, {"name": "train/test split", "where": "artist/optim/training.py: train_test_split"}],
    observe=["masks, target indices, directions, motor positions, focal spots and images"],
)
prop(
    "P19",
    "Early stopping ends a run exactly when progress has stalled",
    """Early stopping reports a stop in an epoch exactly if, in each of the last `patience` epochs, a full window was available and the loss had improved over that window by no more than the required (absolute or relative) amount; one sufficient improvement starts the count anew.""",
    "all loss histories, window sizes, patience values and thresholds within the stated lengths",
    "Tests run two monotone histories; stalls interrupted by improvements and negative or tiny losses are not tried.",
    ["artist/optim/training.py"],
    [{"name": "early stopping", "where": "artist/optim/training.py: EarlyStopping.step"}],
    over=["histories"],
    observe=["stopping decision of each epoch"],
)
prop(
    "P20",
    "A scenario loaded from its file is the scenario that was written",
    """Every heliostat, target area and light source loaded from a scenario file has, under its own name, exactly the data written for it: position, surface (control points, degrees, canting, facet translations), kinematics deviations, actuator parameters, geometry of the target, sun shape.
    Each of surface, kinematics and actuators that a heliostat does not own itself is the prototype's, independently of the others; parameters that were left out are zero. Heliostats with the same kind of kinematics and actuators form one group that contains all of them.
    Scatter angles of the sun have the given mean and spread, one independent draw per heliostat, ray and point, reproducible by the seed.""",
    "all data values, mixtures of owned and prototype parts, actuator types, orders of writing and left-out parameters for up to three heliostats and four targets",
    "Tests load fixed files in which all heliostats are alike; mixtures of prototype and individual parts are where data leaks between heliostats.",
    ["artist/scenario/h5_scenario_generator.py", "artist/scenario/scenario.py", "artist/field/heliostat_field.py", "artist/io/h5_scenario_parser.py", "artist/field/tower_target_areas_planar.py", "artist/field/tower_target_areas_cylindrical.py", "artist/scene/light_source_array.py", "artist/scene/sun.py", "artist/util/config.py"],
    [{"name": "writer", "where": "artist/scenario/h5_scenario_generator.py: H5ScenarioGenerator.generate_scenario"}, {"name": "loader", "where": "artist/scenario/scenario.py: Scenario.load_scenario_from_hdf5"}, {"name": "heliostat field", "where": "artist/field/heliostat_field.py: HeliostatField.from_hdf5"}, {"name": "sun", "where": "artist/scene/sun.py: Sun.get_distortions"}],
    observe=["attributes of the loaded scenario"],
)
prop(
    "P21",
    "Aim point optimisation keeps motor limits and reports the evaluated field",
    """Whatever course an aim point optimisation takes, the motor positions it evaluates and leaves behind are those of the parameters of the respective group and stay within the limits of each actuator (up to one motor step).
    Every epoch evaluates the sum of the images of exactly the heliostats traced; the loss is the chosen flux loss of that image, for the divergence plus the documented penalties for lost energy, spillage and local overload with their multipliers; histories and the final loss are those of the epochs run.
    Intercept, on-target and blocking factors are returned per heliostat at its number in the whole field, also when several processes share a group.""",
    "any optimiser steps, limits, starting positions, light, targets, weights; groups of 1 to 3 heliostats, 1 to 3 processes per group, up to 3 epochs",
    "Tests run one deterministic optimisation of one scenario and compare numbers; other losses, groups, process layouts and step sequences are not run.",
    ["artist/optim/aim_point_optimizer.py"],
    [{"name": "optimisation loop", "where": "artist/optim/aim_point_optimizer.py: AimPointOptimizer.optimize"}],
    over=["schedules", "inputs"],
    observe=["motor positions driven to", "returned loss, history and factors"],
)
prop(
    "P22",
    "Reconstruction compares every sample with its own measurement",
    """In every epoch of a reconstruction of kinematics or surfaces, each training sample is predicted with the current parameters, position, light, motor positions and target of its own heliostat and compared with its own measurement; the loss is the documented reduction over samples, heliostats, energy constraint and regularisers.
    Test losses come from the samples left out, with the parameters after the step. Losses are returned at the number of each heliostat in the whole field, infinite where nothing was reconstructed.
    Only tilts (or control points) of the heliostats' own group change; control points on the outer edge of a facet move only along the normal; after reconstructing surfaces, points and normals of all heliostats follow their control points.""",
    "any measurements, parameters and optimiser steps; up to 3 groups with up to 3 measured heliostats, 2 to 8 samples each, 1 to 3 processes per group, up to 3 epochs, stopping at any of them",
    "Tests run one deterministic reconstruction with two heliostats and compare numbers; samples paired with the wrong heliostat still converge to something.",
    ["artist/optim/kinematics_reconstructor.py", "artist/optim/surface_reconstructor.py", "artist/field/heliostat_field.py", "artist/optim/loss.py"],
    [{"name": "kinematics", "where": "artist/optim/kinematics_reconstructor.py: KinematicsReconstructor.reconstruct_kinematics"}, {"name": "surfaces", "where": "artist/optim/surface_reconstructor.py: SurfaceReconstructor.reconstruct_surfaces"}],
    over=["schedules", "inputs"],
    observe=["losses of the epochs", "returned losses and history", "parameters afterwards"],
)
