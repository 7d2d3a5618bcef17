"""P01 - computations have no side effects and do not depend on how their inputs lie in memory.

The families of other checks serve as workloads: their own verdicts are ignored here, while every watched library function is repeated
in variations that must not matter (`vlib/pure.py`).
"""

import importlib

import numpy as np
import torch

from artist.field.actuators_ideal import IdealActuators
from artist.field.actuators_linear import LinearActuators
from artist.field.heliostat_group import HeliostatGroup
from artist.field.heliostat_group_rigid_body import HeliostatGroupRigidBody
from artist.field.kinematics_rigid_body import RigidBody
from artist.field.solar_tower import SolarTower
from artist.field.surface import Surface
from artist.flux import bitmap
from artist.geometry import coordinates, rotations, transforms
from artist.io.paint_calibration_parser import PaintCalibrationDataParser
from artist.nurbs import utils as nurbs_utils
from artist.nurbs.surfaces import NURBSSurfaces
from artist.optim import loss as L
from artist.optim import regularizers as R
from artist.optim.aim_point_optimizer import AimPointOptimizer
from artist.optim.kinematics_reconstructor import KinematicsReconstructor
from artist.optim.surface_reconstructor import SurfaceReconstructor
from artist.raytracing import blocking, geometry
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.scenario.scenario import Scenario
from artist.scenario.surface_generator import SurfaceGenerator
from artist.scene.sun import Sun
from vlib import gen as G
from vlib import pure
from vlib.core import Check, Monitor

CHECK = Check(
    "P01",
    rule="one evaluation = one call of a watched function that was repeated with copied, strided, reordered, shared, learnable and changed "
    "tensors and a device chosen automatically; distinct = (function, workload, shapes of the first tensors); non-trivial = at least one tensor given",
    assumptions=["real numbers may differ by rounding between memory layouts, decisions and pixels in a tenth of the places where rounding decides"],
)
FUNCTIONS = {
    rotations: ("decompose_rotations", "rotation_angle_and_axis"),
    transforms: ("rotate_distortions", "rotate_e", "rotate_n", "rotate_u", "translate_enu", "perform_canting"),
    coordinates: ("convert_3d_points_to_4d_format", "convert_3d_directions_to_4d_format", "normalize_points",
                  "bitmap_coordinates_to_target_coordinates", "azimuth_elevation_to_enu", "convert_wgs84_coordinates_to_local_enu"),
    geometry: ("reflect", "line_plane_intersections", "line_cylinder_intersections"),
    blocking: ("create_blocking_primitives_rectangle", "create_blocking_primitives_rectangles_by_index", "soft_ray_blocking_mask", "morton_codes",
               "build_linear_bounding_volume_hierarchies", "ray_aabb_intersect", "lbvh_filter_blocking_planes"),
    nurbs_utils: ("create_nurbs_evaluation_grid", "create_planar_nurbs_control_points"),
    bitmap: ("get_center_of_mass", "trapezoid_distribution", "crop_flux_distributions_around_center"),
}
METHODS = {
    IdealActuators: ("motor_positions_to_angles", "angles_to_motor_positions"),
    LinearActuators: ("motor_positions_to_angles", "angles_to_motor_positions"),
    RigidBody: ("motor_positions_to_orientations", "incident_ray_directions_to_orientations"),
    NURBSSurfaces: ("find_spans", "basis_functions_and_derivatives", "calculate_surface_points_and_normals"),
    SolarTower: ("get_centers_of_target_areas",),
    HeliostatRayTracer: ("get_bitmaps_per_target", "trace_rays"),
    Surface: ("get_surface_points_and_normals",),
    Scenario: ("index_mapping",),
    **{getattr(L, n): ("__call__",) for n in ("VectorLoss", "FocalSpotLoss", "PixelLoss", "KLDivergenceLoss", "AngleLoss", "CosineSimilarityLoss")},
    R.SmoothnessRegularizer: ("__call__",),
    R.IdealSurfaceRegularizer: ("__call__",),
}
ARGUMENTS = {
    HeliostatGroup: ("__init__", "activate_heliostats"),
    HeliostatGroupRigidBody: ("__init__", "align_surfaces_with_incident_ray_directions", "align_surfaces_with_motor_positions"),
    HeliostatRayTracer: ("__init__",),
    IdealActuators: ("__init__",),
    LinearActuators: ("__init__",),
    RigidBody: ("__init__",),
    NURBSSurfaces: ("__init__",),
    SurfaceGenerator: ("__init__", "fit_nurbs", "generate_fitted_surface_config", "generate_ideal_surface_config"),
    PaintCalibrationDataParser: ("parse_data_for_reconstruction",),
    Sun: ("__init__", "get_distortions"),
    KinematicsReconstructor: ("__init__", "reconstruct_kinematics"),
    SurfaceReconstructor: ("__init__", "reconstruct_surfaces"),
    AimPointOptimizer: ("__init__", "optimize"),
    Scenario: ("__init__", "set_number_of_rays"),
}


def work(mon, rng, names):
    """One case of a family of another check, watched."""
    name = names[int(rng.integers(len(names)))]
    module = importlib.import_module(f"checks.{name}")
    families = sorted(module.CHECK.families)
    family = families[int(rng.integers(len(families)))]
    watched(mon, rng, f"{name}.{family}", module.CHECK.families[family]["fn"])


def watched(mon, rng, name, workload):
    """A workload with a watch on all functions."""

    def seen(label, shapes):
        mon.observe((label, name, tuple(map(len, shapes))), bool(shapes), dict(function=label, workload=name, shapes=shapes))
        mon.count("watched calls")
        mon.count(f"{label}")

    watch = pure.Watch(lambda mech, **d: mon.violation(f"{mech}:{d['function']}", workload=name, **d), seen, rng)
    inner = Monitor("P01", name, mon.index, mon.tier)
    try:
        for owner, functions in FUNCTIONS.items():
            for f in functions:
                watch.function(owner, f)
        for cls, functions in ARGUMENTS.items():
            for f in functions:
                watch.arguments(cls, f)
        for cls, functions in METHODS.items():
            for f in functions:
                watch.method(cls, f)
        workload(inner, np.random.default_rng(int(rng.integers(2**31))))
    except Exception as e:  # noqa: BLE001 - what the workload itself finds is judged by its own check
        if type(e).__name__ == "CaseTimeout":
            raise
        mon.count("workloads that ended early")
    finally:
        watch.close()
    mon.count("workloads")


def helpers(mon, rng):
    """Functions that the other workloads seldom or never reach."""
    n = int(rng.integers(1, 9))
    points = rng.normal(0, 10 ** rng.uniform(-2, 3), (n, 3)) * rng.choice([-1.0, 1.0])
    one = np.tile(G.f32(rng.normal(0, 1, 4)), (n, 1))
    coordinates.normalize_points(G.T(points[:, : int(rng.integers(1, 4))]))
    coordinates.convert_3d_points_to_4d_format(G.T(points), device=G.CPU)
    coordinates.convert_3d_directions_to_4d_format(G.T(points), device=G.CPU)
    coordinates.azimuth_elevation_to_enu(
        G.T(rng.uniform(-180, 360, n)), G.T(rng.uniform(1, 89, n)), degree=bool(rng.random() < 0.7), device=G.CPU)
    ground = np.array([rng.uniform(-80, 80), rng.uniform(-179, 179), rng.uniform(0, 3000)])
    places = torch.tensor(ground + rng.normal(0, 1e-2, (n, 3)), dtype=torch.float64)
    coordinates.convert_wgs84_coordinates_to_local_enu(places, torch.tensor(ground, dtype=torch.float64), device=G.CPU)
    nurbs_utils.create_nurbs_evaluation_grid(torch.tensor(rng.integers(2, 6, 2)), device=G.CPU)
    nurbs_utils.create_planar_nurbs_control_points(torch.tensor(rng.integers(2, 6, 2)), G.T(rng.normal(0, 1, (n, 2, 4))), device=G.CPU)
    rotations.rotation_angle_and_axis(G.T(one[0]), G.T(rng.normal(0, 1, 4)), device=G.CPU)
    rotations.decompose_rotations(G.T(rng.normal(0, 1, (n, 4))), G.T([0.0, 0.0, 1.0, 0.0]))
    bitmap.trapezoid_distribution(*(int(v) for v in rng.integers(1, 20, 3)), device=G.CPU)
    bitmap.get_center_of_mass(G.T(rng.uniform(0, 1, (n, 7, 9)) ** 3), device=G.CPU)
    if mon is not None:
        mon.count("helpers completed")


@CHECK.family(quick=160, thorough=1500, chunk=10)
def utilities(mon, rng):
    """Helpers called directly."""
    watched(mon, rng, "helpers", lambda _, r: helpers(mon, r))


@CHECK.family(quick=40, thorough=400, chunk=4)
def requests(mon, rng):
    """Index mappings and calibration data."""
    work(mon, rng, ("s02", "s03"))


@CHECK.family(quick=900, thorough=9000, chunk=10)
def formulas(mon, rng):
    """Conversions, intersections, images, losses."""
    work(mon, rng, ("g01", "g02", "g03", "g04", "g05", "f01", "l01", "l02"))


@CHECK.family(quick=160, thorough=2000, chunk=5)
def mechanics(mon, rng):
    """Actuators, kinematics, NURBS, blocking structures."""
    work(mon, rng, ("k01", "k02", "k03", "k04", "n01", "n02", "b01"))


@CHECK.family(quick=120, thorough=1200, chunk=4)
def fields(mon, rng):
    """Ray tracing with and without blocking."""
    work(mon, rng, ("r01", "r03", "r04", "b02"))


@CHECK.family(quick=16, thorough=160, chunk=1)
def surfaces(mon, rng):
    """Ideal and fitted surface configurations."""
    watched(mon, rng, "u01.heliostats", importlib.import_module("checks.u01").CHECK.families["heliostats"]["fn"])


@CHECK.family(quick=24, thorough=240, chunk=1, timeout=300)
def optimisations(mon, rng):
    """The first steps of the optimisers."""
    name = ("o01", "o02", "o03")[int(rng.integers(3))]
    watched(mon, rng, f"{name}.first_step", importlib.import_module(f"checks.{name}").CHECK.families["first_step"]["fn"])


CHECK.require("watched calls", 3000)
CHECK.require("workloads", 400)
CHECK.require("helpers completed", 100)
for _label in ("rotations.decompose_rotations", "transforms.perform_canting", "coordinates.bitmap_coordinates_to_target_coordinates",
               "geometry.reflect", "geometry.line_plane_intersections", "geometry.line_cylinder_intersections", "blocking.soft_ray_blocking_mask",
               "bitmap.crop_flux_distributions_around_center", "LinearActuators.angles_to_motor_positions", "RigidBody.motor_positions_to_orientations",
               "NURBSSurfaces.calculate_surface_points_and_normals", "KLDivergenceLoss.__call__", "SmoothnessRegularizer.__call__"):
    CHECK.require(_label, 10)
