"""S04 - PAINT and STRAL data are translated without loss or mix-up."""

import json
import pathlib
import shutil
import struct
import tempfile

import h5py
import numpy as np
import torch

from artist.io import paint_scenario_parser, stral_scenario_parser
from artist.scenario.h5_scenario_generator import H5ScenarioGenerator
from artist.util import config as C
from checks.g04 import A, E2
from vlib import gen as G
from vlib import h5 as H
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "S04",
    rule="one evaluation = one heliostat, target area or facet whose converted configuration was compared with the file it came from; "
    "distinct = (format, shape, facets, actuator kind, direction of the target, surface kind); non-trivial = all",
    assumptions=[
        "the power plant is the first entry of a tower file; target corners are given seen from the field (left is east for a "
        "north-facing area); cylinder sectors are narrower than a half circle",
        "positions are within 300 m of the reference",
    ],
)


def geodetic(ref, enu):
    s = np.sin(np.deg2rad(ref[0]))
    rn, rm = A / np.sqrt(1 - E2 * s**2), A * (1 - E2) / (1 - E2 * s**2) ** 1.5
    return [float(ref[0] + np.rad2deg(enu[1] / rm)), float(ref[1] + np.rad2deg(enu[0] / (rn * np.cos(np.deg2rad(ref[0]))))),
            float(ref[2] + enu[2])]


def scratch(fn):
    def run(mon, rng):
        d = tempfile.mkdtemp()
        try:
            fn(mon, rng, pathlib.Path(d))
        finally:
            shutil.rmtree(d)

    run.__name__ = fn.__name__
    run.__doc__ = fn.__doc__
    return run


def reference(rng):
    return np.array([rng.uniform(-55, 60), rng.uniform(-170, 170), rng.uniform(0, 800)])


# --------------------------------------------------------------------------- tower
def tower_file(rng, path, ref):
    data = {"power_plant_properties": {"ID": "X", "coordinates": [float(v) for v in ref]}}
    spec = {}
    names = H.words(rng, int(rng.integers(1, 6)), prefix="t")
    if rng.random() < 0.5:
        names[int(rng.integers(len(names)))] = "receiver"
    for name in names:
        c = np.array([rng.uniform(-10, 10), rng.uniform(-5, 5), rng.uniform(20, 150)])
        if rng.random() < 0.5 and name != "receiver":
            top, bottom, left, right = rng.uniform(3, 8, 4)
            sign = 1.0 if rng.random() < 0.7 else -1.0  # north- or south-facing
            up = (left + right) / 2
            enu = dict(upper_left=c + [sign * top / 2, 0, left / 2], upper_right=c + [-sign * top / 2, 0, right / 2],
                       lower_left=c + [sign * bottom / 2, 0, -left / 2], lower_right=c + [-sign * bottom / 2, 0, -right / 2])
            normal = [0.0, sign, 0.0]
            shift = rng.uniform(-0.05, 0.05, 3)
            coords = {k: geodetic(ref, v) for k, v in enu.items()}
            coords["center"] = geodetic(ref, c + shift)
            data[name] = dict(type="planar", normal_vector=normal, coordinates=coords)
            spec[name] = dict(type="planar", center=c + shift, normal=normal, e=(top + bottom) / 2, u=up)
        else:
            az, tilt = rng.uniform(-0.8, 0.8), rng.uniform(-0.5, 0.0)
            n = np.array([np.sin(az) * np.cos(tilt), np.cos(az) * np.cos(tilt), np.sin(tilt)])
            side = O.unit(np.cross(n, [0, 0, 1.0]))
            axis = np.cross(side, n)
            r, h, opening = rng.uniform(2, 6), rng.uniform(3, 9), float(rng.uniform(20, 150))
            half = np.deg2rad(opening) / 2

            def corner(left, upper):
                s = -1.0 if left else 1.0
                return c + r * (np.cos(half) * n + s * np.sin(half) * side) + (0.5 if upper else -0.5) * h * axis

            enu = dict(upper_left=corner(True, True), lower_left=corner(True, False), upper_right=corner(False, True),
                       lower_right=corner(False, False))
            prefix = "receiver_inner_" if name == "receiver" else ""
            coords = {prefix + k: geodetic(ref, v) for k, v in enu.items()}
            if prefix:  # outer rim of the receiver, not to be used
                coords |= {f"receiver_outer_{k}": geodetic(ref, c + 1.1 * (v - c)) for k, v in enu.items()}
            coords["center"] = geodetic(ref, c + r * n)
            data[name] = dict(type="convex_cylinder", normal_vector=[float(v) for v in n], radius=float(r), opening_angle=opening,
                              coordinates=coords)
            spec[name] = dict(type="cylindrical", center=c, normal=n, axis=axis, radius=r, height=h, opening=2 * half)
    path.write_text(json.dumps(data))
    return spec


def flat(x):
    return np.asarray(G.N(x) if isinstance(x, torch.Tensor) else x, float).reshape(-1)


@CHECK.family(quick=250, thorough=4000, chunk=20)
@scratch
def tower(mon, rng, d):
    ref = reference(rng)
    spec = tower_file(rng, d / "tower.json", ref)
    with mon.code("extracting tower measurements"):
        plant, planar, cyl = paint_scenario_parser.extract_paint_tower_measurements(d / "tower.json", device=G.CPU)
    mon.close(plant.power_plant_position, ref, "power-plant-position")
    for areas, kind in ((planar, "planar"), (cyl, "cylindrical")):
        want = [n for n, t in spec.items() if t["type"] == kind]
        got = [a.target_area_key for a in areas.target_area_list]
        mon.expect(sorted(got) == sorted(want), "target-areas", got=got, want=want, kind=kind)
        for a in areas.target_area_list:
            t = spec.get(a.target_area_key)
            if t is None or t["type"] != kind:
                continue
            who = dict(name=a.target_area_key, kind=kind)
            mon.close(flat(a.center), np.append(t["center"], 1.0), "target-center", atol=0.01, **who)
            if kind == "planar":
                mon.close(flat(a.normal_vector), np.append(t["normal"], 0.0), "target-normal", atol=1e-6, **who)
                mon.close([float(a.plane_e), float(a.plane_u)], [t["e"], t["u"]], "target-extent", atol=5e-3, **who)
            else:
                mon.close(flat(a.normal), np.append(t["normal"], 0.0), "target-normal", atol=1e-6, **who)
                mon.close(flat(a.axis), np.append(t["axis"], 0.0), "target-axis", atol=1e-5, **who)
                mon.close([float(a.radius), float(a.height)], [t["radius"], t["height"]], "target-cylinder", atol=5e-3, **who)
                mon.close(float(a.opening_angle), t["opening"], "target-opening", atol=1e-5, **who)
            mon.observe(f"tower|{kind}|{a.target_area_key == 'receiver'}|{len(spec)}", sample=who)
            mon.count(f"{kind} areas")


# --------------------------------------------------------------------------- heliostats
def heliostat_file(rng, path, ref, facets, kind, layout=None):
    canting, translation = G.facet_layout(rng, facets, (rng.uniform(0.5, 1.2), rng.uniform(0.4, 1.0)), 100.0, jitter=2e-3)
    translation = translation + np.append(rng.uniform(-0.05, 0.05, 3), 0)
    if layout is not None:
        canting, translation = (np.copy(x) for x in layout)
    act = G.actuators(rng, 1, "linear")[0]
    pos = np.array([rng.uniform(-150, 150), rng.uniform(20, 280), rng.uniform(-3, 5)])
    kin = {f"joint_translation_{a}_{j}": float(rng.uniform(-0.3, 0.3)) for a in "enu" for j in (1, 2)}
    kin |= {f"concentrator_translation_{a}": float(rng.uniform(-0.3, 0.3)) for a in "enu"}
    actuators = []
    for k in range(2):
        actuators.append(dict(
            type_axis=kind, min_increment=int(rng.integers(0, 10)), max_increment=int(rng.integers(60000, 90000)),
            increment=float(act["increment"][k]), offset_shift=0, initial_stroke_length=float(act["initial_stroke"][k]),
            offset=float(act["offset"][k]), pivot_radius=float(act["pivot"][k]), radius_shift=0,
            clockwise_axis_movement=int(rng.integers(2)), initial_angle=float(act["initial_angle"][k] + (np.pi / 2 if k == 0 else 0)),
            min_movement_angle=0.0, max_movement_angle=1.5, movement_speed=0))
    orientation = O.unit(rng.normal(0, 1, 3)) if rng.random() < 0.3 else np.array([0.0, -1.0, 0.0])
    spec = dict(position=pos, canting=canting, translation=translation, kin=kin, actuators=actuators, orientation=orientation, kind=kind)
    path.write_text(json.dumps(dict(
        heliostat_position=geodetic(ref, pos), height=2.5, width=3.2, initial_orientation=[float(v) for v in orientation],
        kinematics_properties=dict(actuators=actuators, **kin),
        facet_properties=dict(canting_type="x", number_of_facets=facets, facets=[
            dict(translation_vector=[float(v) for v in translation[f, :3]], canting_e=[float(v) for v in canting[f, 0, :3]],
                 canting_n=[float(v) for v in canting[f, 1, :3]]) for f in range(facets)]))))
    return spec


JOINTS = {f"{name}_joint_translation_{a}": f"joint_translation_{a}_{j}" for name, j in (("first", 1), ("second", 2)) for a in "enu"}
JOINTS |= {f"concentrator_translation_{a}": f"concentrator_translation_{a}" for a in "enu"}
PARAMETERS = dict(increment="increment", initial_stroke_length="initial_stroke_length", offset="offset", pivot_radius="pivot_radius",
                  initial_angle="initial_angle")


def judge_kinematics(mon, spec, deviations, orientation, actuators, **who):
    for field, key in JOINTS.items():
        mon.close(float(getattr(deviations, field)), spec["kin"][key], "kinematic-deviation", atol=1e-7, field=field, **who)
    for field in ("first_joint_tilt_n", "first_joint_tilt_u", "second_joint_tilt_e", "second_joint_tilt_n"):
        v = getattr(deviations, field)
        mon.close(0.0 if v is None else float(v), 0.0, "kinematic-tilt", field=field, **who)
    mon.close(flat(orientation), np.append(spec["orientation"], 0.0), "initial-orientation", atol=1e-6, **who)
    if not mon.expect(len(actuators) == 2, "actuator-count", **who):
        return
    for k, (kind, clockwise, limits, parameters) in enumerate(actuators):
        want = spec["actuators"][k]
        mon.expect(kind == want["type_axis"] and bool(clockwise) == bool(want["clockwise_axis_movement"]), "actuator-kind", axis=k, **who)
        mon.close([float(v) for v in limits], [want["min_increment"], want["max_increment"]], "actuator-limits", axis=k, **who)
        for field, key in PARAMETERS.items():
            mon.close(float(getattr(parameters, field)), want[key], "actuator-parameter", rtol=1e-6, axis=k, field=field, **who)


@CHECK.family(quick=200, thorough=3000, chunk=20)
@scratch
def properties(mon, rng, d):
    ref = reference(rng)
    facets = int(rng.choice([1, 2, 4, 4, 12]))
    spec = heliostat_file(rng, d / "h.json", ref, facets, str(rng.choice(["linear", "ideal"])))
    with mon.code("extracting heliostat properties"):
        position, translation, canting, deviations, orientation, actuators = paint_scenario_parser.extract_paint_heliostat_properties(
            d / "h.json", torch.tensor(ref, dtype=torch.float64), device=G.CPU)
    mon.close(flat(position), np.append(spec["position"], 1.0), "heliostat-position", atol=0.03)
    mon.close(translation, spec["translation"], "facet-translations", atol=1e-6)
    mon.close(canting, spec["canting"], "facet-canting", atol=1e-6)
    judge_kinematics(mon, spec, deviations, orientation, actuators)
    mon.observe(f"properties|{facets}|{spec['kind']}", sample=dict(facets=facets, position=spec["position"]))
    mon.count("heliostat property files")


def deflectometry_file(rng, path, spec):
    """Points and normals of the facets, each facet with its own number of points."""
    points, normals = [], []
    with h5py.File(path, "w") as f:
        for k in range(len(spec["canting"])):
            n = int(rng.integers(30, 60))
            e, v = spec["canting"][k, 0, :3], spec["canting"][k, 1, :3]
            ab = rng.uniform(-1, 1, (n, 2))
            p = ab[:, :1] * e + ab[:, 1:] * v
            nr = O.unit(np.cross(e, v) + rng.normal(0, 1e-3, (n, 3)))
            f[f"facet{k + 1}/surface_points"] = p.astype(np.float32)
            f[f"facet{k + 1}/surface_normals"] = nr.astype(np.float32)
            points.append(p)
            normals.append(nr)
    return points, normals


@CHECK.family(quick=60, thorough=600, chunk=10)
@scratch
def deflectometry(mon, rng, d):
    facets = int(rng.choice([1, 4, 12]))
    canting, translation = G.facet_layout(rng, facets)
    points, normals = deflectometry_file(rng, d / "x.h5", dict(canting=canting))
    with mon.code("extracting PAINT deflectometry"):
        got_p, got_n = paint_scenario_parser.extract_paint_deflectometry_data(d / "x.h5", facets, device=G.CPU)
    if mon.expect(len(got_p) == len(got_n) == facets, "facet-count"):
        for k in range(facets):
            mon.close(got_p[k], points[k], "deflectometry-points", atol=1e-6, facet=k)
            mon.close(got_n[k], normals[k], "deflectometry-normals", atol=1e-6, facet=k)
    mon.observe(f"deflectometry|{facets}|{len(points[0])}")


def optimizer():
    opt = torch.optim.Adam([torch.empty(1, requires_grad=True)], lr=1e-3)
    return opt, torch.optim.lr_scheduler.ReduceLROnPlateau(opt, mode="min", factor=0.2, patience=50, threshold=1e-7, threshold_mode="abs")


@CHECK.family(quick=60, thorough=500, chunk=4)
@scratch
def fields(mon, rng, d):
    """Whole fields: every named heliostat gets its own data, up to the loaded scenario."""
    ref = reference(rng)
    tower_spec = tower_file(rng, d / "tower.json", ref)
    n, facets = int(rng.integers(1, 5)), int(rng.choice([1, 4]))
    mode = str(rng.choice(["ideal", "mixed", "fitted"], p=[0.5, 0.4, 0.1]))
    names = H.words(rng, n)
    paths, specs = [], {}
    for name in names:
        # the heliostats of a field usually have the same facet layout
        same = list(specs.values())[int(rng.integers(len(specs)))] if specs and rng.random() < 0.5 else None
        spec = heliostat_file(rng, d / f"{len(specs)}.json", ref, facets, str(rng.choice(["linear", "ideal"])),
                              layout=same and (same["canting"], same["translation"]))
        spec["fitted"] = mode == "fitted" or (mode == "mixed" and rng.random() < 0.4)
        entry = (name, d / f"{len(specs)}.json")
        if spec["fitted"]:
            deflectometry_file(rng, d / f"{len(specs)}.h5", spec)
            entry += (d / f"{len(specs)}.h5",)
        elif mode == "mixed" and rng.random() < 0.5:
            entry += (None,)
        paths.append(entry)
        specs[name] = spec
    net = torch.tensor([int(v) for v in rng.integers(4, 8, 2)])
    step = int(rng.choice([1, 2, 5]))
    position = torch.tensor(ref, dtype=torch.float64)
    with mon.code(f"extracting {mode} heliostats", heliostats=n, fitted=sum(s["fitted"] for s in specs.values())):
        if mode == "ideal":
            listed, prototype = paint_scenario_parser.extract_paint_heliostats_ideal_surface(
                paths=paths, power_plant_position=position, number_of_nurbs_control_points=net, device=G.CPU)
        else:
            fn = (paint_scenario_parser.extract_paint_heliostats_mixed_surface if mode == "mixed"
                  else paint_scenario_parser.extract_paint_heliostats_fitted_surface)
            opt, sched = optimizer()
            listed, prototype = fn(paths=paths, power_plant_position=position, nurbs_fit_optimizer=opt, nurbs_fit_scheduler=sched,
                                   number_of_nurbs_control_points=net, deflectometry_step_size=step, nurbs_fit_max_epoch=3, device=G.CPU)
    got = [h.name for h in listed.heliostat_list]
    mon.expect(sorted(got) == sorted(names), "heliostats-lost-or-invented", got=got, want=names)
    for h in listed.heliostat_list:
        spec = specs.get(h.name)
        if spec is None:
            continue
        who = dict(name=h.name, mode=mode)
        mon.close(flat(h.position), np.append(spec["position"], 1.0), "heliostat-position", atol=0.03, **who)
        judge_kinematics(mon, spec, h.kinematics.deviations, h.kinematics.initial_orientation,
                         [(a.actuator_type, a.clockwise_axis_movement, a.min_max_motor_positions, a.parameters)
                          for a in h.actuators.actuator_list], **who)
        if not mon.expect(len(h.surface.facet_list) == facets, "facet-count", **who):
            continue
        alone = None
        if spec["fitted"]:
            # the surface of a heliostat comes from its own measurement, whatever else is in the list
            opt, sched = optimizer()
            with mon.code("extracting one fitted heliostat"):
                single, _ = paint_scenario_parser.extract_paint_heliostats_fitted_surface(
                    paths=[p for p in paths if p[0] == h.name], power_plant_position=position, nurbs_fit_optimizer=opt, nurbs_fit_scheduler=sched,
                    number_of_nurbs_control_points=net, deflectometry_step_size=step, nurbs_fit_max_epoch=3, device=G.CPU)
            alone = single.heliostat_list[0].surface.facet_list
        for k, f in enumerate(h.surface.facet_list):
            mon.close(f.canting, spec["canting"][k], "facet-canting", atol=1e-6, facet=k, **who)
            mon.close(f.translation_vector, spec["translation"][k], "facet-translations", atol=1e-6, facet=k, **who)
            cp = G.N(f.control_points)
            if not mon.expect(cp.shape == (int(net[0]), int(net[1]), 3), "net-size", got=cp.shape, **who):
                continue
            if spec["fitted"]:
                # a few steps of fitting leave the facet where it belongs
                mon.close(cp.reshape(-1, 3).mean(0), spec["translation"][k, :3], "fitted-facet-place", atol=0.05, facet=k, **who)
                mon.close(cp, G.N(alone[k].control_points), "fitted-with-other-data", atol=2e-5, facet=k, **who)
            else:
                half = np.linalg.norm(spec["canting"][k, :, :3], axis=1)
                mon.close(np.abs(cp[..., 2]).max(), 0.0, "ideal-facet-not-flat", facet=k, **who)
                mon.close([cp[..., 0].min(), cp[..., 0].max(), cp[..., 1].min(), cp[..., 1].max()],
                          [-half[0], half[0], -half[1], half[1]], "ideal-facet-size", atol=2e-3, facet=k, **who)
        mon.count("fitted heliostats" if spec["fitted"] else "ideal heliostats")
        mon.observe(f"fields|{mode}|{spec['kind']}|{facets}|{n}|{spec['fitted']}", sample=who)
    # the whole way into a loaded scenario
    with mon.code("generating and loading the PAINT scenario"):
        plant, planar, cyl = paint_scenario_parser.extract_paint_tower_measurements(d / "tower.json", device=G.CPU)
        H5ScenarioGenerator(
            file_path=d / "scenario.h5", power_plant_config=plant, target_area_list_planar_config=planar,
            target_area_list_cylindrical_config=cyl,
            light_source_list_config=C.LightSourceListConfig([C.LightSourceConfig("sun_1", "sun", 10, "normal", 0.0, 4e-6)]),
            prototype_config=prototype, heliostat_list_config=listed).generate_scenario()
        scenario = H.load(d / "scenario.h5", (3, 3))
    mon.expect(sorted(scenario.solar_tower.target_name_to_index) == sorted(tower_spec), "loaded-targets")
    seen = []
    for g in scenario.heliostat_field.heliostat_groups:
        for i, name in enumerate(g.names):
            seen.append(name)
            if name in specs:
                mon.close(G.N(g.positions)[i], np.append(specs[name]["position"], 1.0), "loaded-position", atol=0.03, name=name)
                kin = [specs[name]["kin"][JOINTS[k]] for k in H.TRANSLATIONS]
                mon.close(G.N(g.kinematics.translation_deviation_parameters)[i], kin, "loaded-deviations", atol=1e-6, name=name)
    mon.expect(sorted(seen) == sorted(names), "loaded-heliostats", got=seen, want=names)


# --------------------------------------------------------------------------- STRAL
@CHECK.family(quick=120, thorough=1500, chunk=20)
@scratch
def stral(mon, rng, d):
    nx, ny = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    head = rng.uniform(-9, 9, 7).astype(np.float32)
    blob = struct.pack("=5f2I2f", *head[:5], nx, ny, *head[5:])
    facets = []
    for f in range(nx * ny):
        t, c = G.f32(rng.uniform(-3, 3, 3)), G.f32(rng.uniform(-1, 1, (2, 3)))
        n = int(rng.integers(1, 30))
        p = G.f32(rng.uniform(-2, 2, (n, 7)))
        blob += struct.pack("=i9fI", f, *t, *c[0], *c[1], n) + b"".join(struct.pack("=7f", *row) for row in p)
        facets.append((t, c, p))
    (d / "x.binp").write_bytes(blob)
    with mon.code("extracting STRAL data"):
        translation, canting, points, normals = stral_scenario_parser.extract_stral_deflectometry_data(d / "x.binp", device=G.CPU)
    if not mon.expect(len(points) == len(normals) == len(facets) == len(translation) == len(canting), "facet-count"):
        return
    for f, (t, c, p) in enumerate(facets):
        mon.close(translation[f], np.append(t, 0.0), "stral-translation", facet=f)
        mon.close(canting[f], np.concatenate([c, np.zeros((2, 1))], 1), "stral-canting", facet=f)
        mon.close(points[f], p[:, :3], "stral-points", facet=f)
        mon.close(normals[f], p[:, 3:6], "stral-normals", facet=f)
    mon.observe(f"stral|{nx}|{ny}")


CHECK.require("planar areas", 150)
CHECK.require("cylindrical areas", 150)
CHECK.require("heliostat property files", 150)
CHECK.require("fitted heliostats", 10)
CHECK.require("ideal heliostats", 40)
