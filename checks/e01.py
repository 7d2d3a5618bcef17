"""E01 - requests that contradict the field or the documented formats are refused and leave everything as it was."""

import numpy as np
import torch

import h5py
from artist.field.heliostat_field import HeliostatField
from artist.geometry import coordinates, transforms
from artist.io import PaintCalibrationDataParser
from artist.optim import KinematicsReconstructor
from artist.optim import loss as L
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.scenario import H5ScenarioGenerator
from artist.scenario.surface_generator import SurfaceGenerator
from artist.scene.rays import Rays
from artist.util import config as CFG
from artist.util import constants as C
from vlib import gen as G
from vlib import h5 as H
from vlib import optim as OP
from vlib.core import Check

CHECK = Check(
    "E01",
    rule="one evaluation = one request that has to be refused, built by damaging one thing in a request that was accepted just before; "
    "judged: an exception came, no result came, and nothing of the field, its active copies or the arguments changed; distinct = (kind of "
    "request, kind of damage, group shape); non-trivial = the undamaged request was accepted",
    assumptions=["any exception is a refusal", "damage is well above the tolerances of the validation"],
)
ACTIVE = ("active_surface_points", "active_surface_normals", "active_heliostats_mask", "active_canting", "active_facet_translations",
          "active_nurbs_control_points", "preferred_reflection_directions")


def snapshot(scene):
    out = OP.stored(scene)
    for g, group in enumerate(scene.groups):
        for name in ACTIVE:
            v = getattr(group, name, None)
            out[g, name] = v.detach().clone() if torch.is_tensor(v) else v
        k = group.kinematics
        for name in ("active_motor_positions", "active_orientations", "active_heliostat_positions", "active_rotation_deviation_parameters",
                     "active_translation_deviation_parameters"):
            v = getattr(k, name, None)
            out[g, "kinematics." + name] = v.detach().clone() if torch.is_tensor(v) else v
    return out


def refused(mon, what, damage, fn, **who):
    """True if the request ended in an exception."""
    mon.count(f"refusals demanded: {what}")
    try:
        out = fn()
    except Exception as exc:
        mon.count(f"refused with {type(exc).__name__}")
        return True
    mon.violation(f"accepted:{what.replace(' ', '-')}", damage=damage, result=str(type(out).__name__), **who)
    return False


def other_mask(rng, mask):
    """A mask that differs from `mask`, preferably in a way that keeps the totals."""
    mask = np.asarray(mask)
    for _ in range(20):
        kind = ("permuted", "same total", "switched", "more", "fewer", "ones", "another count")[int(rng.integers(7))]
        m = mask.copy()
        if kind == "permuted":
            m = rng.permutation(m)
        elif kind == "same total":
            i, j = rng.integers(0, len(m), 2)
            if m[i] > 0 and i != j:
                m[i], m[j] = m[i] - 1, m[j] + 1
        elif kind == "switched":
            i = int(rng.integers(len(m)))
            m[i] = 0 if m[i] else 1
        elif kind == "more":
            m[int(rng.integers(len(m)))] += 1
        elif kind == "fewer":
            i = int(rng.integers(len(m)))
            m[i] = max(0, m[i] - 1)
        elif kind == "ones":
            m = (m > 0).astype(m.dtype)
        else:
            m = np.append(m, 0) if rng.random() < 0.5 or len(m) == 1 else m[:-1]
        if m.shape != mask.shape or (m != mask).any():
            return m, kind
    return mask + 1, "more"


@CHECK.family(quick=160, thorough=3000, chunk=10)
def field_state(mon, rng):
    """Alignments and ray traces for another selection than the active one."""
    scene = G.random_scene(rng, groups=int(rng.integers(1, 3)), per_group=(1, 5), rays=1, k=2)
    g = int(rng.integers(len(scene.groups)))
    group, spec = scene.groups[g], scene.specs[g]
    mask = G.random_mask(rng, spec.n, high=3)
    n = int(mask.sum())
    idx, incident = rng.integers(0, len(scene.targets), n), G.sun_directions(rng, n)
    with mon.code("align"):
        m = scene.align(g, mask, idx, incident)
        motors = group.kinematics.active_motor_positions.detach().clone()
    aims = G.T(np.stack([G.aim_point(scene.targets[i]) for i in idx]))
    world = int(rng.integers(1, 3))
    tracer = HeliostatRayTracer(scenario=scene.scenario, heliostat_group=group, blocking_active=bool(rng.random() < 0.3) and mask.max() <= 1,
                                world_size=world, rank=int(rng.integers(world)), batch_size=int(rng.integers(1, 4)), bitmap_resolution=torch.tensor([8, 8]))
    with mon.code("trace_rays"):
        tracer.trace_rays(incident_ray_directions=G.T(incident), active_heliostats_mask=m, target_area_indices=torch.tensor(idx, dtype=torch.int32),
                          device=G.CPU)
    for _ in range(3):
        wrong, kind = other_mask(rng, mask)
        w = torch.tensor(wrong, dtype=torch.int32)
        k = int(wrong.sum())
        pick = rng.integers(0, n, k) if rng.random() < 0.7 else np.arange(min(n, k))
        a, i, t, mo = aims[pick], G.T(incident[pick]), torch.tensor(idx[pick], dtype=torch.int32), motors[pick]
        if rng.random() < 0.4:  # only the mask is wrong
            a, i, t, mo = aims, G.T(incident), torch.tensor(idx, dtype=torch.int32), motors
        request = {
            "align with incident rays": lambda: group.align_surfaces_with_incident_ray_directions(
                aim_points=a, incident_ray_directions=i, active_heliostats_mask=w, device=G.CPU),
            "align with motor positions": lambda: group.align_surfaces_with_motor_positions(motor_positions=mo, active_heliostats_mask=w, device=G.CPU),
            "trace rays": lambda: tracer.trace_rays(incident_ray_directions=i, active_heliostats_mask=w, target_area_indices=t, device=G.CPU)}
        what = list(request)[int(rng.integers(3))]
        before = snapshot(scene)
        if refused(mon, what, kind, request[what], active=mask, requested=wrong):
            OP.unchanged(mon, before, snapshot(scene), mech="refused-request-left-traces", what=what, damage=kind)
        mon.observe(f"{what}|{kind}|{spec.n}")
    with mon.code("trace_rays again"):
        tracer.trace_rays(incident_ray_directions=G.T(incident), active_heliostats_mask=m, target_area_indices=torch.tensor(idx, dtype=torch.int32),
                          device=G.CPU)


@CHECK.family(quick=40, thorough=600, chunk=10)
def stale_selection(mon, rng):
    """The selection that was active before the last activation is no longer accepted; an empty one neither."""
    scene = G.random_scene(rng, groups=1, per_group=(2, 5), rays=1, k=2)
    group, n = scene.groups[0], scene.specs[0].n
    first = G.random_mask(rng, n, high=2)
    second, kind = other_mask(rng, first)
    if len(second) != n or second.sum() == 0:
        second, kind = first + 1, "more"
    masks = [torch.tensor(x, dtype=torch.int32) for x in (first, second)]
    incident = [G.sun_directions(rng, int(x.sum())) for x in (first, second)]
    idx = [rng.integers(0, len(scene.targets), int(x.sum())) for x in (first, second)]
    aims = [G.T(np.stack([G.aim_point(scene.targets[i]) for i in x])) for x in idx]
    with mon.code("align"):
        for k in (0, 1):
            group.activate_heliostats(active_heliostats_mask=masks[k], device=G.CPU)
            group.align_surfaces_with_incident_ray_directions(aim_points=aims[k], incident_ray_directions=G.T(incident[k]),
                                                              active_heliostats_mask=masks[k], device=G.CPU)
    before = snapshot(scene)
    ok = refused(mon, "align with incident rays", "stale " + kind, lambda: group.align_surfaces_with_incident_ray_directions(
        aim_points=aims[0], incident_ray_directions=G.T(incident[0]), active_heliostats_mask=masks[0], device=G.CPU), active=second, requested=first)
    tracer = HeliostatRayTracer(scenario=scene.scenario, heliostat_group=group, blocking_active=False, bitmap_resolution=torch.tensor([8, 8]))
    ok &= refused(mon, "trace rays", "stale " + kind, lambda: tracer.trace_rays(
        incident_ray_directions=G.T(incident[0]), active_heliostats_mask=masks[0], target_area_indices=torch.tensor(idx[0], dtype=torch.int32), device=G.CPU),
        active=second, requested=first)
    if ok:
        OP.unchanged(mon, before, snapshot(scene), mech="refused-request-left-traces", what="stale", damage=kind)
    mon.observe(f"stale|{kind}|{n}")


def bad_direction(rng, d):
    """A damaged incident ray direction and what is wrong with it."""
    d = np.asarray(d, float)
    kind = ("length", "w", "shape", "shape 2", "zero", "nan", "point")[int(rng.integers(7))]
    if kind == "length":
        d = d * float(rng.choice([0.5, 0.99, 1.01, 2.0, 30.0]))
    elif kind == "w":
        d = d + [0, 0, 0, float(rng.choice([-0.2, 0.05, 0.5, 1.0]))]
    elif kind == "shape":
        d = d[:3]
    elif kind == "shape 2":
        d = d[None]
    elif kind == "zero":
        d = d * 0
    elif kind == "nan":
        d = d.copy()
        d[int(rng.integers(3))] = np.nan
    else:  # of unit length in four dimensions, but a point
        d = np.append(d[:3] * np.sqrt(0.5), np.sqrt(0.5))
    return G.T(d), kind


@CHECK.family(quick=200, thorough=4000, chunk=20)
def mappings(mon, rng):
    """Index mappings with unknown targets or directions that are no directions."""
    scene = G.random_scene(rng, groups=int(rng.integers(1, 3)), per_group=(1, 5), rays=1, k=2, planar=(0, 3), cylindrical=(0, 3))
    g = int(rng.integers(len(scene.groups)))
    group = scene.groups[g]
    names = list(scene.tower.target_name_to_index)
    entries = []
    for _ in range(int(rng.integers(1, 8))):
        q = g if rng.random() < 0.8 else int(rng.integers(len(scene.groups)))
        entries.append((str(rng.choice(scene.groups[q].names)), str(rng.choice(names)), G.T(G.sun_directions(rng, 1)[0])))
    mine = [i for i, e in enumerate(entries) if e[0] in group.names]
    single = G.sun_directions(rng, 1)[0]
    with mon.code("index_mapping"):
        scene.scenario.index_mapping(heliostat_group=group, string_mapping=entries, device=G.CPU)
        scene.scenario.index_mapping(heliostat_group=group, single_incident_ray_direction=G.T(single),
                                     single_target_area_index=int(rng.integers(len(names))), device=G.CPU)
    before = snapshot(scene)
    if mine:
        broken = list(entries)
        i = int(rng.choice(mine))
        h, t, d = broken[i]
        if rng.random() < 0.5:
            d, kind = bad_direction(rng, G.N(d))
        else:
            t, kind = [("x" + t, "longer"), (t[:-1], "shorter"), ("", "empty"), (t.upper() + t.lower(), "other"), (h, "a heliostat")][int(rng.integers(5))]
            if t in names:
                t, kind = "nowhere", "other"
        broken[i] = (h, t, d)
        refused(mon, "mapping by names", kind, lambda: scene.scenario.index_mapping(heliostat_group=group, string_mapping=broken, device=G.CPU),
                position=i, entries=len(entries), mine=mine)
        mon.observe(f"mapping|{kind}|{i == mine[0]}|{i == mine[-1]}")
    d, kind = bad_direction(rng, single)
    refused(mon, "mapping of all heliostats", kind, lambda: scene.scenario.index_mapping(
        heliostat_group=group, single_incident_ray_direction=d, single_target_area_index=0, device=G.CPU))
    mon.observe(f"single|{kind}")
    beyond = len(names) + int(rng.choice([0, 1, 7]))
    refused(mon, "mapping of all heliostats", "target index", lambda: scene.scenario.index_mapping(
        heliostat_group=group, single_incident_ray_direction=G.T(single), single_target_area_index=beyond, device=G.CPU), index=beyond, targets=len(names))
    OP.unchanged(mon, before, snapshot(scene), mech="refused-request-left-traces", what="mapping")


def rename(parent, key, value):
    del parent[key]
    parent[key] = value


def group_of(f, what):
    return f["prototypes"] if what == "prototype" else f["heliostats"][what]


def damage_file(rng, f, c):
    """Damages one thing that a loader has to notice; returns what it was, or None if this file offers no such thing."""
    own = [h for h in c.heliostats if h["actuators"]]
    own_k = [h for h in c.heliostats if h["kinematics"]]
    proto = f[C.prototype_key]
    kind = ("kinematics type", "prototype kinematics type", "actuator type", "prototype actuator type", "mixed actuators", "prototype mixed actuators",
            "missing actuator", "prototype missing actuator", "no prototype actuators", "light source type", "light distribution",
            "position")[int(rng.integers(12))]
    if kind == "kinematics type" and own_k:
        h = own_k[int(rng.integers(len(own_k)))]
        rename(f[C.heliostat_key][h["name"]][C.heliostat_kinematics_key], C.kinematics_type, "soft_body")
    elif kind == "prototype kinematics type":
        rename(proto[C.kinematics_prototype_key], C.kinematics_type, "rigid_bodies")
    elif kind in ("actuator type", "mixed actuators", "missing actuator") and own:
        h = own[int(rng.integers(len(own)))]
        acts = f[C.heliostat_key][h["name"]][C.heliostat_actuator_key]
        keys = list(acts.keys())
        if kind == "actuator type":
            for k in keys:
                rename(acts[k], C.actuator_type_key, "hydraulic")
        elif kind == "mixed actuators":
            k = keys[int(rng.integers(len(keys)))]
            now = acts[k][C.actuator_type_key][()].decode()
            rename(acts[k], C.actuator_type_key, C.ideal_actuator_key if now == C.linear_actuator_key else C.linear_actuator_key)
        else:
            del acts[keys[int(rng.integers(len(keys)))]]
    elif kind in ("prototype actuator type", "prototype mixed actuators", "prototype missing actuator", "no prototype actuators"):
        acts = proto[C.actuators_prototype_key]
        keys = list(acts.keys())
        if kind == "prototype actuator type":
            for k in keys:
                rename(acts[k], C.actuator_type_key, "hydraulic")
        elif kind == "prototype mixed actuators":
            k = keys[int(rng.integers(len(keys)))]
            now = acts[k][C.actuator_type_key][()].decode()
            rename(acts[k], C.actuator_type_key, C.ideal_actuator_key if now == C.linear_actuator_key else C.linear_actuator_key)
        elif kind == "prototype missing actuator":
            del acts[keys[int(rng.integers(len(keys)))]]
        else:
            for k in keys:
                del acts[k]
    elif kind == "light source type":
        rename(f[C.light_source_key][c.light["name"]], C.light_source_type, "moon")
    elif kind == "light distribution":
        rename(f[C.light_source_key][c.light["name"]][C.light_source_distribution_parameters], C.light_source_distribution_type, "uniform")
    elif kind == "position":
        h = c.heliostats[int(rng.integers(len(c.heliostats)))]
        del f[C.heliostat_key][h["name"]][C.heliostat_position]
    else:
        return None
    return kind


@CHECK.family(quick=80, thorough=1500, chunk=5, timeout=120)
def scenario_files(mon, rng):
    """Files with unknown types, a wrong number of actuators or missing parts."""
    c = H.random_config(rng, heliostats=(1, 3), facets=int(rng.choice([1, 2])))
    with H.scenario_file(c) as path:
        with mon.code("load"):
            H.load(path, (2, 2))
        with h5py.File(path, "r+") as f:
            kind = damage_file(rng, f, c)
        if kind is None:
            return
        refused(mon, "scenario file", kind, lambda: H.load(path, (2, 2)))
    mon.observe(f"file|{kind}|{len(c.heliostats)}")


@CHECK.family(quick=60, thorough=800, chunk=5, timeout=120)
def without_prototypes(mon, rng):
    """A field whose heliostats all bring a part does without its prototype; otherwise the prototype has to be given."""
    c = H.random_config(rng, heliostats=(1, 4), facets=1, same_degrees=True, individual=True if rng.random() < 0.5 else None)
    parts = ("surface", "kinematics", "actuators")
    needed = {k: any(not h[k] for h in c.heliostats) for k in parts}
    with H.scenario_file(c) as path:
        with mon.code("load"):
            H.load(path, (2, 2))
        missing = str(rng.choice(parts))

        def load():
            with h5py.File(path, "r") as f:
                return HeliostatField.from_hdf5(config_file=f, number_of_surface_points_per_facet=torch.tensor([2, 2]), device=G.CPU, **given)

        if needed[missing]:
            # the others are never looked at before the missing one is
            given = {f"prototype_{k}": None for k in parts}
            refused(mon, "field without prototypes", missing, load)
        elif not any(needed.values()):
            given = {f"prototype_{k}": None for k in parts}
            with mon.code("a field that needs no prototypes"):
                field = load()
            mon.expect(sum(len(g.names) for g in field.heliostat_groups) == len(c.heliostats), "field-incomplete", want=len(c.heliostats))
            mon.count("fields without prototypes")
    mon.observe(f"prototypes|{missing}|{needed}")


@CHECK.family(quick=60, thorough=800, chunk=5, timeout=120)
def configurations(mon, rng):
    """Configurations that cannot become a scenario file."""
    kind = ("folder", "facets", "distribution")[int(rng.integers(3))]
    if kind == "distribution":
        name = str(rng.choice(["Normal", "uniform", "", "normal ", "gaussian"]))
        with mon.code("LightSourceConfig"):
            CFG.LightSourceConfig(light_source_key="s", light_source_type="sun", number_of_rays=3, distribution_type="normal", mean=0.0, covariance=1e-6)
        refused(mon, "light source", kind, lambda: CFG.LightSourceConfig(
            light_source_key="s", light_source_type="sun", number_of_rays=3, distribution_type=name, mean=0.0, covariance=1e-6), name=name)
        mon.observe(f"config|{kind}|{name}")
        return
    c = H.random_config(rng, heliostats=(1, 5), facets=int(rng.choice([2, 3, 4])))
    with H.scenario_file(c) as path:
        if kind == "folder":
            target = path.parent / "missing" / "s.h5"
            if refused(mon, "scenario generator", kind, lambda: H.generator(c, target).generate_scenario()):
                mon.expect(not target.parent.exists(), "refused-request-left-traces", what="folder")
        else:
            h = c.heliostats[int(rng.integers(len(c.heliostats)))]
            h["surface"] = h["surface"] or [dict(f) for f in c.prototype["surface"]]
            h["surface"] = h["surface"][:-1] if rng.random() < 0.5 else h["surface"] + [dict(h["surface"][0])]
            target = path.parent / "other.h5"
            if refused(mon, "scenario generator", kind, lambda: H.generator(c, target).generate_scenario(), facets=len(h["surface"]), prototype=c.facets):
                mon.expect(not target.exists(), "refused-request-left-traces", what="file")
    mon.observe(f"config|{kind}|{len(c.heliostats)}|{c.facets}")


@CHECK.family(quick=200, thorough=4000, chunk=20)
def tensors(mon, rng):
    """Shapes that do not belong together."""
    shape = tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(1, 4))))
    x = torch.rand(*shape, 3)
    size = int(rng.choice([1, 2, 4, 5]))
    with mon.code("conversions"):
        coordinates.convert_3d_points_to_4d_format(x, device=G.CPU)
        coordinates.convert_3d_directions_to_4d_format(x, device=G.CPU)
    refused(mon, "points without three coordinates", size, lambda: coordinates.convert_3d_points_to_4d_format(torch.rand(*shape, size), device=G.CPU))
    refused(mon, "directions without three coordinates", size, lambda: coordinates.convert_3d_directions_to_4d_format(torch.rand(*shape, size), device=G.CPU))
    n = G.size(rng, 1, 5)
    a, b = torch.rand(n), torch.rand(n + int(rng.integers(1, 3)) if n > 1 or rng.random() < 0.5 else n + 1)
    if rng.random() < 0.4:
        b = torch.rand(1) if n > 1 else torch.rand(2)
    with mon.code("azimuth_elevation_to_enu"):
        coordinates.azimuth_elevation_to_enu(a, a, device=G.CPU)
    refused(mon, "angles of different number", (len(a), len(b)), lambda: coordinates.azimuth_elevation_to_enu(a, b, device=G.CPU))
    with mon.code("translate_enu"):
        transforms.translate_enu(e=a, n=a, u=a, device=G.CPU)
    parts = [a, a, a]
    parts[int(rng.integers(3))] = b
    refused(mon, "translations of different number", [len(p) for p in parts], lambda: transforms.translate_enu(e=parts[0], n=parts[1], u=parts[2], device=G.CPU))
    e = torch.rand(*shape[:1], 2, 3)
    with mon.code("rotate_distortions"):
        transforms.rotate_distortions(e=e, u=e, device=G.CPU)
    u = torch.rand(shape[0], 3, 2) if rng.random() < 0.5 else torch.rand(shape[0], 1, 3)
    pair = (e, u) if rng.random() < 0.5 else (u, e)
    refused(mon, "distortions of different shape", [tuple(p.shape) for p in pair], lambda: transforms.rotate_distortions(e=pair[0], u=pair[1], device=G.CPU))
    rays, magnitudes = torch.rand(*shape, 4), torch.rand(shape)
    with mon.code("Rays"):
        Rays(ray_directions=rays, ray_magnitudes=magnitudes)
    damage = int(rng.integers(4))
    if damage == 0:
        wrong = (torch.rand(*shape, 3), magnitudes)
    elif damage == 1:
        wrong = (rays, torch.rand(*shape[:-1], shape[-1] + 1))
    elif damage == 2:
        wrong = (rays, torch.rand(*shape, 1))
    else:
        wrong = (torch.rand(*shape, 4, 4) if rng.random() < 0.5 else torch.rand(*shape, 5), magnitudes)
    refused(mon, "rays", damage, lambda: Rays(ray_directions=wrong[0], ray_magnitudes=wrong[1]), shapes=[tuple(w.shape) for w in wrong])
    mon.observe(f"tensors|{len(shape)}|{size}|{damage}|{tuple(b.shape)}|{n}")


@CHECK.family(quick=60, thorough=800, chunk=10)
def losses(mon, rng):
    """Losses without the arguments they document."""
    scene = G.random_scene(rng, groups=1, per_group=(1, 1), rays=1, k=2, planar=(1, 1), cylindrical=(0, 1))
    n = int(rng.integers(1, 4))
    a, b = torch.rand(n, 6, 7) + 0.1, torch.rand(n, 6, 7) + 0.1
    full = dict(reduction_dimensions=(1, 2), target_area_indices=torch.zeros(n, dtype=torch.int32), device=G.CPU)
    needed = {"VectorLoss": ("reduction_dimensions",), "PixelLoss": ("reduction_dimensions",), "KLDivergenceLoss": ("reduction_dimensions",),
              "FocalSpotLoss": ("device", "target_area_indices")}
    for name, keys in needed.items():
        loss = L.FocalSpotLoss(scenario=scene.scenario) if name == "FocalSpotLoss" else getattr(L, name)()
        with mon.code(name):
            loss(prediction=a, ground_truth=b, **full)
        for key in keys:
            extra = {k: v for k, v in full.items() if k != key and (k in keys or rng.random() < 0.5)}
            refused(mon, "loss", f"{name} without {key}", lambda: loss(prediction=a, ground_truth=b, **extra))
            mon.observe(f"loss|{name}|{key}|{len(extra)}")


@CHECK.family(quick=40, thorough=400, chunk=10)
def methods(mon, rng):
    """Methods nobody implements."""
    word = str(rng.choice(["", "raytracing2", "Alignment", "none", "utis", "fit", H.word(rng)]))
    known = {C.kinematics_reconstruction_raytracing, C.kinematics_reconstruction_alignment, "UTIS", "HeliOS", C.fit_nurbs_from_points, C.fit_nurbs_from_normals}
    if word in known:
        return
    scene = G.random_scene(rng, groups=1, per_group=(1, 1), rays=1, k=2)
    build = lambda method: KinematicsReconstructor(  # noqa: E731
        ddp_setup=OP.single_process(1), scenario=scene.scenario, data={C.data_parser: OP.MemoryParser(scene.scenario), C.heliostat_data_mapping: []},
        optimization_configuration={C.optimization: OP.optimisation(1e-3, 1, 1), C.scheduler: OP.schedule(rng, C.exponential, 1e-3, 1)},
        reconstruction_method=method)
    with mon.code("known methods"):
        build(C.kinematics_reconstruction_raytracing)
        build(C.kinematics_reconstruction_alignment)
        for m in ("UTIS", "HeliOS"):
            PaintCalibrationDataParser(centroid_extraction_method=m)
    refused(mon, "reconstruction method", word, lambda: build(word))
    refused(mon, "centroid method", word, lambda: PaintCalibrationDataParser(centroid_extraction_method=word))
    p = torch.rand(20, 4)
    net = SurfaceGenerator(number_of_control_points=torch.tensor([3, 3]), degrees=torch.tensor([2, 2]), device=G.CPU)
    refused(mon, "fit method", word, lambda: net.fit_nurbs(
        surface_points=p, surface_normals=p, optimizer=torch.optim.Adam([torch.empty(1, requires_grad=True)]), fit_method=word, max_epoch=1, device=G.CPU))
    mon.observe(f"method|{word}")


for _what, _least in (("align with incident rays", 100), ("align with motor positions", 100), ("trace rays", 100), ("mapping by names", 100),
                      ("mapping of all heliostats", 300), ("scenario file", 40), ("scenario generator", 20), ("light source", 8), ("loss", 150),
                      ("rays", 150), ("points without three coordinates", 150), ("angles of different number", 150),
                      ("translations of different number", 150), ("distortions of different shape", 150), ("reconstruction method", 25)):
    CHECK.require(f"refusals demanded: {_what}", _least)
