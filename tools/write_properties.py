"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, pathlib

P = []

def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

KIN = "artist/field/kinematics_rigid_body.py"
LIN = "artist/field/actuators_linear.py"
IDE = "artist/field/actuators_ideal.py"
GRP = "artist/field/heliostat_group.py"
GRB = "artist/field/heliostat_group_rigid_body.py"
TRC = "artist/raytracing/heliostat_ray_tracer.py"
GEO = "artist/raytracing/geometry.py"
SMP = "artist/raytracing/sampling.py"
BLK = "artist/raytracing/blocking.py"
SUN = "artist/scene/sun.py"
BMP = "artist/flux/bitmap.py"
NRB = "artist/nurbs/surfaces.py"
SRF = "artist/field/surface.py"
FLD = "artist/field/heliostat_field.py"
SCN = "artist/scenario/scenario.py"
TRF = "artist/geometry/transforms.py"
ROT = "artist/geometry/rotations.py"
COO = "artist/geometry/coordinates.py"
H5P = "artist/io/h5_scenario_parser.py"
H5G = "artist/scenario/h5_scenario_generator.py"
CFG = "artist/util/config.py"
PNT = "artist/io/paint_scenario_parser.py"
CAL = "artist/io/calibration_parser.py"
PCA = "artist/io/paint_calibration_parser.py"
STR = "artist/io/stral_scenario_parser.py"
LOS = "artist/optim/loss.py"
REG = "artist/optim/regularizers.py"
TRN = "artist/optim/training.py"
KRE = "artist/optim/kinematics_reconstructor.py"
SRE = "artist/optim/surface_reconstructor.py"
AIM = "artist/optim/aim_point_optimizer.py"
ENV = "artist/util/env.py"
TPL = "artist/field/tower_target_areas_planar.py"
TCY = "artist/field/tower_target_areas_cylindrical.py"
STW = "artist/field/solar_tower.py"
UTI = "artist/util/__init__.py"
SGE = "artist/scenario/surface_generator.py"

prop("K01", "Aiming reflects the sun onto the requested aim point",
 """When a heliostat group is aligned with an incident light direction and an aim point per active heliostat, every
 active heliostat ends up oriented so that light arriving at the centre of its mirror along the given direction and
 reflected at the mirror normal points from that centre to the aim point, for every position, kinematic deviation
 and actuator parameter for which the needed actuator movement is reachable. The aligned surface points and normals are
 the stored surface moved by exactly that one rigid motion, and the motor positions recorded for the group reproduce the
 same orientation.""",
 ["inputs", "configurations"],
 "all heliostat positions, translation and rotation deviations, ideal and linear actuators with their parameters, sun directions and aim points whose solution lies inside the actuator range",
 "tests compare a handful of fixed heliostats with stored orientations that the same code produced",
 [KIN, GRB, LIN, IDE],
 [("iterative alignment", KIN + ":incident_ray_directions_to_orientations"), ("analytic inverse kinematics", KIN + ":_compute_motor_positions_from_normal")],
 ["HeliostatGroup.align_surfaces_with_incident_ray_directions", "kinematics.active_motor_positions"])

prop("K02", "Actuator models convert motor steps and angles consistently",
 """For every actuator, converting motor positions to joint angles follows the triangle geometry of the actuator
 (stroke = steps / increment + initial stroke; law of cosines between offset and pivot radius; opening the triangle
 turns clockwise actuators towards smaller and counter-clockwise actuators towards larger joint angles, starting from the initial angle at motor position zero; ideal actuators: angle =
 position). Converting angles back to motor positions is the inverse of that map over the whole reachable stroke, for
 each heliostat with its own parameters.""",
 ["inputs", "configurations"],
 "all physically valid actuator parameter sets, movement directions, motor positions within reach and batches of heliostats with different parameters",
 "tests check a few PAINT-like parameter sets",
 [LIN, IDE, "artist/field/actuators.py", GRP],
 [("law of cosines", LIN + ":_motor_positions_to_absolute_angles"), ("inverse", LIN + ":angles_to_motor_positions")],
 ["actuators.motor_positions_to_angles", "actuators.angles_to_motor_positions"])

prop("K03", "Forward kinematics is the documented rigid chain of two joints",
 """Aligning a heliostat with motor positions moves its stored surface by the rigid motion composed of: heliostat position;
 first joint tilts (north, positive turning east towards up; up), first joint translation and first joint angle about east; second joint tilts (east,
 north), second joint translation and second joint angle about up; concentrator translation; and the fixed rotation
 from mirror-up to mirror-south. Distances, angles and handedness of the surface are preserved and every heliostat uses
 only its own parameters.""",
 ["inputs", "configurations"],
 "all positions, nine translation and four rotation deviations, motor positions, actuator types and batch compositions",
 "tests use mostly zero deviations and compare stored tensors",
 [KIN, GRB, TRF],
 [("joint chain", KIN + ":_compute_orientations_from_motor_positions"), ("initial offsets", KIN + ":initial_orientation_offsets")],
 ["HeliostatGroup.align_surfaces_with_motor_positions", "active_surface_points", "active_surface_normals"])

prop("K04", "Activating heliostats replicates each one in order and keeps samples independent",
 """After activation with a mask of multiplicities, the active data of a group consists of each heliostat's own data
 repeated exactly as often as its multiplicity, in heliostat order, for surfaces, canting, facet translations, control
 points, positions, deviations and actuator parameters, and the stored data of the group is unchanged. The alignment
 and flux of one active sample depends only on its own heliostat, incident direction, aim point and rays, not on which other samples are
 active. Aligning with a mask that differs from the activated one is rejected.""",
 ["inputs", "histories"],
 "all group sizes, multiplicity masks, sample orders and sequences of activations and alignments",
 "tests activate whole groups or a few fixed masks",
 [GRP, GRB, KIN],
 [("repeat_interleave of every per-heliostat tensor", GRP + ":activate_heliostats")],
 ["group.active_*", "kinematics.active_*", "actuators.active_*"])

prop("G01", "Planar target intersections are exact and limited to the front of the target",
 """For every ray, the planar intersection reports the distance to the target plane, the continuous bitmap coordinates of the hit
 (from the hit's east and up coordinates relative to the target centre: east axis mirrored as seen from the field, up axis from the bottom,
 spanning resolution minus one over the target's width and height) and the ray magnitude times the cosine to the target normal. Rays that miss the rectangle, are parallel to the plane,
 strike its back, or would have to travel backwards to reach it get zero intensity and zero distance.""",
 ["inputs", "configurations"],
 "all ray origins and directions, target centres, normals, sizes, resolutions and per-heliostat target assignments",
 "tests cover a few hand-made rays",
 [GEO, TPL], [("ray-plane intersection", GEO + ":line_plane_intersections")], ["return values of line_plane_intersections"])

prop("G02", "Cylindrical target intersections are exact and limited to the visible sector",
 """For every ray, the cylindrical intersection reports the first positive distance at which the ray meets the cylinder surface, the
 continuous bitmap coordinates of the hit (column proportional to the azimuth around the axis measured from one edge of the
 sector that is centred on the target normal, row proportional to the height from the lower rim) and the ray magnitude
 times the cosine to the outward surface normal. Rays that miss, hit above or below the rims, outside the opening angle, or from inside
 get zero intensity, for every orientation of axis and normal.""",
 ["inputs", "configurations"],
 "all ray origins and directions, cylinder centres, perpendicular axis/normal orientations, radii, heights, opening angles up to the full circle, resolutions and target assignments",
 "tests use one cylinder whose normal points north or south",
 [GEO, TCY], [("ray-cylinder intersection", GEO + ":line_cylinder_intersections")], ["return values of line_cylinder_intersections"])

prop("G03", "Bitmap coordinates and world coordinates agree with the ray tracer",
 """For every target area, converting a bitmap coordinate (pixel e of W counts as its centre, (e + 0.5) / W) to a world point gives the point of that target (plane or cylinder
 sector) at which a ray would have to hit to appear at that coordinate in the traced flux image, up to one pixel, and every
 returned point lies on the target surface. This holds for each target of a tower with several planar and cylindrical areas, selected by
 its global index.""",
 ["inputs", "configurations"],
 "all coordinates, resolutions including non-square ones, target geometries and index mixtures",
 "tests check a few coordinates of fixed targets and never against the ray tracer",
 [BMP, GEO, TRC, STW], [("bitmap to target mapping", BMP + ":bitmap_coordinates_to_target_coordinates")],
 ["bitmap.bitmap_coordinates_to_target_coordinates vs HeliostatRayTracer.trace_rays"])

prop("G04", "Geodetic and solar angle conversions follow WGS84 and the ENU convention",
 """Converting WGS84 latitude, longitude and altitude to local east-north-up metres relative to a reference position agrees with
 the local WGS84 ellipsoid radii (and with the exact ellipsoidal transformation to within the error of that local
 linearisation for plant-sized distances), with east, north and up in that order and zero at the reference. Solar azimuth (0 degrees south, +90 degrees east) and
 elevation map to the unit east-north-up direction for both degrees and radians, and direction and point formats get
 homogeneous coordinates zero and one.""",
 ["inputs"],
 "all latitudes away from the poles, longitudes, altitudes, batch sizes, azimuths and elevations",
 "tests use one plant and a few angles",
 [COO], [("WGS84 linearisation", COO + ":convert_wgs84_coordinates_to_local_enu"), ("azimuth elevation", COO + ":azimuth_elevation_to_enu")],
 ["return values of artist.geometry.coordinates functions"])

prop("G05", "Rotations, translations and cantings are the rigid motions they claim to be",
 """The rotation, translation, distortion and facet-canting transformations are exact homogeneous rigid motions with the documented axis,
 sign and batch behaviour: they preserve lengths, angles and handedness, leave directions untouched by translations, and compose as group
 actions (angles about one axis add, opposite angles cancel). Decomposing the rotation between two directions yields angles that map
 one to the other where that is possible, angles between vectors equal the arc cosine of their normalised product, and canting a facet tilts
 the facet plane onto its two canting vectors.""",
 ["inputs"],
 "all angles, axes, vectors (normalised or not), batch shapes and canting vector pairs",
 "tests check isolated right angles",
 [TRF, ROT], [("rotation builders", TRF), ("decomposition", ROT + ":decompose_rotations")],
 ["return values of artist.geometry.transforms and artist.geometry.rotations"])

prop("N01", "NURBS evaluation gives the exact spline surface and its unit normals",
 """For every degree, control net and evaluation point, the surface points equal the clamped uniform (non-rational) B-spline tensor product of the control
 points and the normals are the unit normals of that surface oriented by the u- and v-tangents, for each heliostat and
 facet independently, including the borders of the closed parameter domain; given non-uniform knot vectors are honoured likewise. Points are an affine-covariant, partition-of-unity
 combination of control points, so moving one control point changes only its local support. Knot spans, basis functions
and their derivatives of every order up to the degree are those of the knot vector.""",
 ["inputs", "configurations"],
 "all degrees, control net sizes, control points, evaluation points in the unit square including knots and end points, and facet/heliostat batch shapes",
 "tests compare stored tensors of one surface",
 [NRB, SRF, "artist/nurbs/utils.py"], [("basis functions", NRB + ":basis_functions_and_derivatives"), ("span search", NRB + ":find_span")],
 ["NURBSSurfaces.calculate_surface_points_and_normals", "Surface.get_surface_points_and_normals"])

prop("N02", "Mirror surfaces are built facet by facet from their own configuration",
 """Loading a heliostat places every facet at its own translation, canted by its own canting vectors when it is ideal (flat), with the ideal
 facets spanning exactly the size of their canting vectors; fitted surfaces are placed without being canted twice. All sampled normals
 are unit length, perpendicular to the surface and on the mirror's front side, and recomputing the surface from unchanged control points
 with the same number of evaluation points gives the same points and normals.""",
 ["inputs", "configurations"],
 "all facet counts, canting vectors, translations, control points, degrees and evaluation grids of the surfaces in a scenario",
 "tests compare stored surfaces of two scenarios",
 [SRF, FLD, NRB, SGE, UTI], [("canting and translation", SRF + ":get_surface_points_and_normals"), ("ideal surface", SGE + ":generate_ideal_surface_config")],
 ["HeliostatGroup.surface_points/surface_normals after loading", "HeliostatField.update_surfaces"])

prop("R01", "The traced flux image equals an independent geometric ray trace",
 """For every aligned group, target and set of ray distortions, the flux image of each active sample equals, within floating-point accuracy,
 the image from an independent trace: the incident direction is mirrored at the local surface normal, rotated by the distortion of that
 ray, intersected with the sample's own target, weighted by magnitude, incidence cosine and losses, and spread bilinearly over the
 four pixels around the hit. Rows run from the top of the target down and columns as seen from the field.""",
 ["inputs", "configurations"],
 "all surfaces, incident directions, distortions, planar and cylindrical targets, target assignments, resolutions including non-square ones and batch sizes",
 "tests compare one total image with a stored tensor",
 [TRC, GEO, TRF], [("ray tracing", TRC + ":trace_rays"), ("splatting", TRC + ":bilinear_splatting")],
 ["return values of HeliostatRayTracer.trace_rays"])

prop("R02", "Radiant power is conserved and scales linearly with losses and irradiance",
 """The sum of each flux image equals the sum over its rays that hit the target of ray magnitude times incidence cosine times unblocked fraction times
 (1 - extinction) times reflectivity, so nothing is lost or created by distributing rays to pixels, no pixel is negative, and an image never
 holds more power than its rays carried. Changing reflectivity or extinction scales the image by exactly that factor, and with a
 given irradiance the total ray power of each heliostat equals irradiance times the outer area of the standard two-by-two-facet heliostat of its group (first heliostat's facet size plus the 2 cm gap), independent of the number of
 rays and surface points.""",
 ["inputs", "configurations"],
 "all scenes, distortions, extinction and reflectivity factors, irradiances, ray and point counts",
 "tests never sum a bitmap against its rays",
 [TRC, GEO], [("intensity product", TRC + ":trace_rays"), ("splatting weights", TRC + ":bilinear_splatting"), ("ray magnitude", TRC + ":__init__")],
 ["return values of HeliostatRayTracer.trace_rays"])

prop("R03", "Reported hit, intercept and blocking fractions count the rays they claim to",
 """For every active sample, the on-target fraction is the share of its rays that geometrically hit its target, the intercept fraction the share that
 also deliver light after blocking, and the blocking fraction (returned last) the share that no other mirror blocks, wherever they end; each lies in
 [0, 1], intercept never exceeds on-target, and without blocking intercept equals on-target and the unblocked share is one.
 The fractions belong to the same sample as the flux image in the same row, for every batch size and mixture of target types.""",
 ["inputs", "configurations"],
 "all scenes, masks, batch sizes, blocking on or off, and target mixtures",
 "tests compare one stored tuple",
 [TRC], [("per-batch counting", TRC + ":trace_rays")], ["second to fourth return values of trace_rays"])

prop("R04", "Flux per target is the sum of exactly the samples aimed at that target",
 """Aggregating per-sample flux images by target gives, for every target area of the tower and in tower order, the sum of the images of exactly the
 samples assigned to it, and an all-zero image for a target without samples, so the total over targets equals the total over samples. This holds for
 any mixture of planar and cylindrical targets and any order of samples.""",
 ["inputs", "configurations"],
 "all target assignments, sample counts, resolutions and numbers of planar and cylindrical targets",
 "tests use one stored image",
 [TRC, STW], [("masked sum", TRC + ":get_bitmaps_per_target")], ["return value of get_bitmaps_per_target"])

prop("R05", "Every sample is traced exactly once for any batch size and number of ranks",
 """For every activation mask (including unequal multiplicities), batch size and world size, the samples traced by the ranks form a partition of all active samples: no
 sample is missing, traced twice, or left with undefined data, every rank returns the rows of its own samples in their order, and ranks without work return none. The combined
 result of all ranks equals the single-rank, single-batch result sample by sample, also when there are more ranks than
 active heliostats.""",
 ["inputs", "configurations", "schedules"],
 "all masks, batch sizes, world sizes and ranks",
 "tests check the sampler for equal multiplicities and the tracer with one rank",
 [SMP, TRC], [("sampler", SMP + ":RestrictedDistributedSampler"), ("batch masks", TRC + ":trace_rays")],
 ["get_sampler_indices", "trace_rays per rank"])

prop("R06", "Sun rays are reproducible and follow the configured distribution",
 """The distortions of a sun depend only on its parameters, the requested shape and the random seed: the same seed reproduces them bit by bit, a
 different seed gives different ones, and so does the traced flux, however often and in whatever order scenes are traced. Both angular
 distortions are independent across rays, points and heliostats and normally distributed with the configured mean and covariance.""",
 ["inputs", "histories"],
 "all seeds, ray, point and heliostat counts, means and covariances, and call sequences",
 "tests draw a few samples for two seeds",
 [SUN, SMP, TRC], [("seeded sampling", SUN + ":get_distortions")], ["Sun.get_distortions", "trace_rays"])

prop("B01", "The blocking search tree is complete and never loses a blocker",
 """For every set of mirror rectangles the bounding volume hierarchy is a proper binary tree that holds every rectangle exactly once in a leaf and whose
 boxes enclose all of their descendants. The set of candidate blockers selected for a set of rays contains every rectangle, not
 belonging to the ray's own heliostat, that some ray crosses before reaching its target, including coincident, aligned and single
 rectangles. The rectangle that stands for a mirror has the outermost points of the mirror as corners, wherever the mirror is turned to, and spans and
a normal that belong to them.""",
 ["inputs", "configurations"],
 "all rectangle sets (random, gridded, coincident, degenerate, up to hundreds) and all ray bundles",
 "tests use a few rectangles",
 [BLK], [("LBVH construction", BLK + ":build_linear_bounding_volume_hierarchies"), ("traversal", BLK + ":lbvh_filter_blocking_planes")],
 ["return values of build_linear_bounding_volume_hierarchies and lbvh_filter_blocking_planes"])

prop("B02", "Light blocked by another heliostat is removed, and only that light",
 """With blocking enabled, a ray clearly crossing the aligned mirror rectangle of any other heliostat of the field (of the same or another
 group) between its own mirror and the target delivers nothing, and a ray clearly missing every other mirror is delivered as without
 blocking (four-facet mirrors of small sag, heliostats active at most once). A heliostat never blocks its own rays, and mirrors not in the way leave the flux image unchanged.""",
 ["inputs", "configurations"],
 "all fields of several groups, alignments, target positions and batch sizes, for rays whose crossing point is away from mirror edges",
 "tests place one blocking scene in a single group",
 [BLK, TRC], [("soft mask", BLK + ":soft_ray_blocking_mask"), ("owner mapping", TRC + ":trace_rays"), ("active surfaces of all groups", TRC + ":__init__")],
 ["trace_rays with blocking on and off"])

prop("S01", "A scenario file restores exactly the configuration it was generated from",
 """Generating a scenario file from configurations and loading it back yields the same power plant position, target areas, light source, heliostat
 positions, facets (control points, degrees, canting, translations), kinematic deviations and actuator parameters, each attached to
 the heliostat or target of that name. Individual settings of a heliostat override the prototype's, a missing optional deviation loads as zero, and
 heliostats are grouped by kinematics and actuator type without loss or duplication. The file always is an HDF5 file next to the given name, and generating it
again replaces all that an older file contained.""",
 ["inputs", "configurations"],
 "all configurations expressible with the configuration classes: prototype and individual surface/kinematics/actuators in every mixture, ideal and linear actuators, one or several facets, degrees and net sizes, targets and names",
 "tests load a few fixed files and compare attribute existence",
 [H5G, CFG, H5P, FLD, SCN, TPL, TCY, STW, SUN, "artist/scene/light_source_array.py"], [("generation", H5G), ("loading", SCN + ":load_scenario_from_hdf5")],
 ["Scenario.load_scenario_from_hdf5 object graph"])

prop("S02", "Heliostat and target index mappings address what their names say",
 """Mapping (heliostat, target, light direction) triples or named target areas to indices activates exactly the named heliostats the given number of times and delivers, in the
 order in which the active samples are stored, the global index and the aim point of the named target area and the given light direction; names that do not exist are rejected or ignored as
 documented. Every request is answered for itself, whatever was asked before. Global indices select the same target in every part of the system for towers with planar and
cylindrical areas.""",
 ["inputs", "configurations"],
 "all scenario layouts, mapping lists (orders, repetitions, partial), default and explicit targets and directions",
 "tests use one scenario with a few mappings",
 [SCN, STW, TPL, TCY], [("index mapping", SCN + ":index_mapping"), ("aim points", STW)],
 ["Scenario.index_mapping", "SolarTower.index_to_target_area / get_centers_of_target_areas"])

prop("S03", "Calibration data reach the optimiser complete and correctly assigned",
 """Parsing calibration files yields one row per usable measurement, grouped by heliostat in the order of the group's heliostats, with the flux centre in local
 coordinates, incident light direction, motor positions, target index and flux image of that same measurement, and an activation mask whose
 multiplicities match the rows. Measurements of heliostats outside the group are ignored, the sample limit is respected, and the order in which
 files or heliostats are listed does not change what is assigned to what; a parser that is asked again reads the files as they are then. A directory mapping pairs the files of one measurement, selects the requested number of
usable ones, and depends on the seed if and only if it is randomised.""",
 ["inputs", "configurations", "histories"],
 "all sets of calibration files, heliostat orders, sample limits, target areas and groups",
 "tests parse fixed files of one plant",
 [CAL, PCA], [("parsing", PCA), ("flux images", CAL)],
 ["CalibrationDataParser.parse_data_for_reconstruction"])

prop("S04", "PAINT and STRAL data are translated without loss or mix-up",
 """Heliostat, tower and calibration metadata in PAINT or STRAL format are converted to configurations that carry each recorded
 quantity of each named heliostat or target (position, canting, facet translations, kinematic offsets, actuator parameters, target corners and
 normals) to the field meant for it, in the units and east-north-up convention used by the rest of the system.""",
 ["inputs", "configurations"],
 "all well-formed property files: numbers of facets, actuator settings, positions, target shapes",
 "tests read the shipped files only",
 [PNT, STR], [("PAINT parsing", PNT), ("STRAL parsing", STR)],
 ["return values of the extract_* functions"])

prop("F01", "Flux centres and crops are taken where the light is",
 """The centre of mass of a flux image is the intensity-weighted mean pixel position for every image, moves with the image when it is shifted, does not depend on its
 scale, and is free of NaN also for an image without light. Cropping around the centre resamples
 the requested physical extent of the target about the centroid so that the cropped image is centred and its content agrees with the original.""",
 ["inputs"],
 "all non-negative flux images with some light, resolutions, target sizes and crop extents",
 "tests use one Gaussian and a few stored values",
 [BMP], [("centre of mass", BMP + ":get_center_of_mass"), ("cropping", BMP + ":crop_flux_distributions_around_center")],
 ["return values of artist.flux.bitmap functions"])

prop("L01", "Loss functions are the distances they are named after",
 """Every loss returns one finite, non-negative value per sample equal to its mathematical definition (vector distance, focal spot distance to the measured
 centre, pixel-wise error, Kullback-Leibler divergence, angle between directions), is zero when prediction equals ground truth and
 strictly positive when they clearly differ, and does not depend on other samples in the batch. Reducing over the requested dimensions is
 the plain sum or mean documented.""",
 ["inputs", "configurations"],
 "all predictions, ground truths, batch sizes, resolutions and targets",
 "tests use constant tensors",
 [LOS], [("losses", LOS)], ["Loss.__call__"])

prop("L02", "Surface regularisers penalise exactly their own defect",
 """The smoothness regulariser is zero exactly for control-point offsets that leave the discrete Laplacian unchanged and grows quadratically otherwise, and the ideal-surface
 regulariser is zero exactly for unchanged control points; both give one value per surface that is independent of the other surfaces
 and equals the stated reduction.""",
 ["inputs"],
 "all control nets, perturbations and batch sizes",
 "tests use two fixed tensors",
 [REG], [("regularisers", REG)], ["Regularizer.__call__"])

prop("T01", "Training and test samples are split without overlap or loss",
 """Splitting calibration measurements assigns every sample of every heliostat to exactly one of training and test set, keeps all fields of a sample together in their order, puts the
 documented share of each heliostat's samples (at least one) into the test set, and yields activation masks whose multiplicities match the split
 rows.""",
 ["inputs", "configurations"],
 "all numbers of heliostats, samples per heliostat (at least two when any) and tensor contents",
 "tests use one layout",
 [TRN, KRE, SRE, UTI], [("split", TRN)], ["return value of the split function"])

prop("T02", "Schedulers and early stopping follow their stated rules for every loss history",
 """Early stopping triggers exactly when the loss has failed to improve by at least the required delta over the configured window for the configured patience,
 for every loss history, and never before. The learning-rate schedulers produce, step by step, exactly the exponential decay, cyclic or
 plateau-reduced rates that their parameters define, and never below the stated minimum.""",
 ["histories", "configurations"],
 "all loss histories and scheduler parameters",
 "tests check creation and one decreasing sequence",
 [TRN], [("early stopping", TRN + ":EarlyStopping"), ("schedulers", TRN)],
 ["EarlyStopping.step", "lr of the optimizer after each step"])

prop("O01", "Kinematics reconstruction improves and keeps untouched parameters intact",
 """Reconstructing kinematics from calibration data generated with known deviations reduces the loss, ends with parameters that are finite and no worse on the training data than the start, and
 reports for every heliostat with data a finite final loss that agrees with re-evaluating the returned field on the
 same measurements. Heliostats without data and parameters that are not optimised stay bit-identical.""",
 ["inputs", "configurations", "histories"],
 "all fields, deviations, measurement sets and optimiser configurations within a short budget",
 "integration tests need data that is not shipped",
 [KRE, LOS, TRN], [("optimisation loop", KRE)], ["KinematicsReconstructor.reconstruct_kinematics"])

prop("O02", "Surface reconstruction improves and keeps untouched surfaces intact",
 """Reconstructing surfaces from measured flux images reduces the flux mismatch for the heliostats with data, returns finite per-heliostat losses, changes only the height information that is
 being optimised while control points of heliostats without data stay bit-identical, and leaves surface points and normals of the
 field consistent with the returned control points.""",
 ["inputs", "configurations", "histories"],
 "all fields, surfaces, measurement sets and optimiser configurations within a short budget",
 "integration tests need data that is not shipped",
 [SRE, LOS, REG, TRN], [("optimisation loop", SRE)], ["SurfaceReconstructor.reconstruct_surfaces"])

prop("O03", "Aim point optimisation improves the flux within the actuator limits",
 """Optimising aim points lowers the loss against the desired flux distribution or focal spot, keeps every motor position finite and inside the allowed
 range of its actuator, reports loss, constraints and per-heliostat fractions that belong to the returned field, and leaves surfaces and kinematic parameters of the field unchanged.""",
 ["inputs", "configurations", "histories"],
 "all fields, targets, desired distributions and optimiser configurations within a short budget",
 "integration tests need data that is not shipped",
 [AIM, LOS, TRN], [("optimisation loop", AIM)], ["AimPointOptimizer.optimize"])

prop("D01", "Work distribution over processes covers every group and reproduces one process",
 """For every number of processes and heliostat groups, each group is assigned to at least one process, each process to a well-defined position inside its subgroup, no
 group is processed by two independent sets of processes, and every process computes the same assignment. A distributed ray trace in several real processes,
 reduced over them, equals the single-process flux. Surface and kinematics reconstruction and aim point optimisation in several processes end, whatever
the relative speed of the processes, leave every process with the same field, and up to rounding and the order of reductions compute what a single process
computes; all processes of a group join the same collective operations in the same order. Without a launcher a
single process holds all groups, and however the distributed block is left, no process group survives it.""",
 ["configurations", "schedules"],
 "all world sizes, group counts and real multi-process runs with the CPU backend under delays",
 "tests mock the process group or run with one process",
 [ENV, TRC, SMP, SRE, KRE, AIM], [("rank distribution", ENV + ":distribute_groups_among_ranks"), ("subgroups", ENV + ":create_subgroups_for_nested_ddp")],
 ["setup_distributed_environment", "all-reduced flux"])

prop("A01", "Gradients through the whole simulation are the true derivatives",
 """The gradient of flux images, surfaces and orientations with respect to control points, motor positions, actuator and kinematic parameters and aim
 points is finite and agrees with the numerical derivative of the same computation, for every scene in which that quantity is smooth, and every
 optimisable parameter of every active heliostat, and no other heliostat, receives gradient.""",
 ["inputs", "configurations"],
 "all scenes, parameters and directions of perturbation away from discontinuities",
 "tests never compare a gradient with a difference quotient",
 [TRC, KIN, LIN, NRB, GEO, BLK, LOS], [("differentiable pipeline", TRC)],
 ["autograd gradients of public results"])

prop("H01", "Results depend on the current request, not on what was computed before",
 """For every sequence of activations, alignments, ray traces, surface updates and mode changes on one scenario, the result of a request equals the result of the same
 request on a freshly built scenario, and computing results never changes the stored scenario data or the tensors passed in. A scenario processed
 twice gives identical results.""",
 ["histories"],
 "all sequences of public operations on a scenario with several groups",
 "each test builds a fresh scenario and performs one sequence",
 [GRP, GRB, KIN, TRC, FLD], [("active copies of stored data", GRP)],
 ["outputs of a request after random histories"])

prop("U01", "Fitted NURBS surfaces reproduce the measured surface they were fitted to",
 """Fitting NURBS surfaces to sampled surface points or normals of a smooth mirror yields control nets whose evaluated surface reproduces the sampled surface within
 the fit tolerance, keeps the fitted facets in their order, and does not end worse than the flat start. A fit stops at its tolerance or its last epoch, and
does not depend on facets or heliostats fitted before with the same optimiser and scheduler. Normalising points to the evaluation range maps
 the extreme points to the ends of the unit interval and keeps the order of points.""",
 ["inputs", "configurations"],
 "all smooth facet surfaces, sampling densities, control net sizes and degrees within a short fitting budget",
 "tests fit one measured facet",
 [SGE, "artist/nurbs/utils.py", NRB], [("fitting", SGE)],
 ["SurfaceGenerator.fit_nurbs", "nurbs.utils"])

prop("O04", "Every optimiser follows the schedule it was given and stops when it has to",
 """Kinematics reconstruction, surface reconstruction, aim point optimisation and NURBS fitting update their parameters once per epoch with exactly the learning
rate their scheduler prescribes for the losses seen so far, starting from the configured rate for every group or facet. They go on exactly until the loss is at or
below the tolerance, the last allowed epoch is over, or early stopping fires, whichever comes first, and an earlier end does not change the course before
it. Nothing but these updates changes the optimised parameters, the last update is kept, and how often progress is logged has no influence.""",
 ["configurations", "histories"],
 "all schedulers and their parameters, tolerances, epoch limits, early stopping settings and loss histories that arise",
 "tests run two or three epochs and compare the final value with a stored one",
 [KRE, SRE, AIM, SGE, TRN], [("optimisation loops", KRE + ":_reconstruct_kinematics_alignment_driven"), ("surface loop", SRE), ("aim point loop", AIM), ("fit loop", SGE)],
 ["optimiser steps", "loss histories"])

prop("E01", "Requests that contradict the field or the documented formats are refused",
 """Aligning or tracing a selection of heliostats other than the active one, mapping to unknown targets or along incident directions that are no unit directions, scenario files
with unknown actuator, kinematics or light source types or without the required parts, configurations with differing facet counts or missing folders, tensors whose shapes
do not belong together, losses without a required argument and unknown method names are refused with an exception. A refused request leaves
the field, its active copies and the file system as they were, and the next valid request is answered as if it had never been made.""",
 ["inputs", "histories"],
 "all fields and selections, and every damage of one part of an otherwise valid request",
 "tests try one bad value per function, on a fresh object, and do not look at what is left behind",
 [GRB, TRC, SCN, H5P, H5G, CFG, COO, TRF, LOS, "artist/scene/rays.py", KRE, PCA, SGE],
 [("selection checks", GRB), ("mapping checks", SCN + ":index_mapping"), ("type dispatch", H5P)],
 ["raised exceptions", "heliostat group state"])

prop("M01", "Logging and runtime tracking observe without interfering",
 """A tracked function gets its arguments, returns its result and raises its exceptions unchanged and keeps its name; every call is logged once when it starts and
once, with its true duration, when it returns, also when calls nest, fail or run in several threads. Configuring loggers delivers each line exactly once to each
requested output at or above the requested level, creates missing folders, and asking for the runtime logger again neither loses nor repeats lines. How often an
optimisation logs and validates, and at which level somebody listens, does not change its updates.""",
 ["inputs", "schedules", "histories"],
 "all nestings, failures, thread counts, levels, outputs and log intervals",
 "tests check that one line appears",
 [UTI, KRE, SRE, AIM], [("tracking", UTI + ":track_runtime"), ("configuration", UTI + ":set_logger_config"), ("runtime logger", UTI + ":set_runtime_logger")],
 ["log records", "optimiser steps"])

prop("P01", "Computations are pure and independent of how their inputs lie in memory",
 """Geometric conversions and transforms, intersections, blocking structures, spline evaluation, flux centres and crops, losses, regularisers, actuator and kinematics formulas
leave the tensors they are given, torch's settings and its random state unchanged. They give the same answer when called again, also when an earlier result
was overwritten or a tensor has got other contents in the meantime, for contiguous, strided and expanded tensors, with and without gradient tracking, and for
a named as for an automatically chosen device. Ray tracing, surface evaluation and index mappings do so too for unchanged objects; constructors, activation, alignment, surface
generation, calibration parsers and optimisers leave the tensors and settings they are called with unchanged.""",
 ["inputs", "histories"],
 "all public computations on all their inputs, in all memory layouts and gradient modes",
 "tests call each function once with fresh contiguous tensors",
 [COO, TRF, GEO, BLK, NRB, "artist/nurbs/utils.py", "artist/flux/bitmap.py", LOS, "artist/optim/regularizers.py", LIN, KIN, "artist/geometry/rotations.py"],
 [("conversions", COO), ("intersections", GEO), ("formulas", KIN)],
 ["inputs and results of every public computation"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
