"""K04 - activation replicates heliostats in order and samples stay independent."""

import numpy as np
import torch

from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from vlib import gen as G
from vlib.core import Check

CHECK = Check(
    "K04",
    rule="one evaluation = one activation whose active tensors were compared entry by entry, or one sample compared between "
    "two batches of different composition; distinct = (monitor, group size, mask pattern class, actuator kind, step); "
    "non-trivial = mask is not all ones",
    assumptions=["alignment of one sample may differ by 3e-5 rad between batches (shared stopping rule)"],
)


def snapshot(group):
    k = group.kinematics
    return {
        "surface_points": G.N(group.surface_points), "surface_normals": G.N(group.surface_normals),
        "canting": G.N(group.canting), "facet_translations": G.N(group.facet_translations),
        "control_points": G.N(group.nurbs_control_points), "positions": G.N(group.positions),
        "kin_positions": G.N(k.heliostat_positions), "translation": G.N(k.translation_deviation_parameters),
        "rotation": G.N(k.rotation_deviation_parameters), "initial": G.N(k.initial_orientations),
        "non_opt": G.N(k.actuators.non_optimizable_parameters), "opt": G.N(k.actuators.optimizable_parameters),
    }


def active(group):
    k = group.kinematics
    return {
        "surface_points": group.active_surface_points, "surface_normals": group.active_surface_normals,
        "canting": group.active_canting, "facet_translations": group.active_facet_translations,
        "control_points": group.active_nurbs_control_points, "kin_positions": k.active_heliostat_positions,
        "translation": k.active_translation_deviation_parameters, "rotation": k.active_rotation_deviation_parameters,
        "initial": k.active_initial_orientations, "non_opt": k.actuators.active_non_optimizable_parameters,
        "opt": k.actuators.active_optimizable_parameters,
    }


def pattern(mask):
    return ("zeros" if (mask == 0).any() else "") + ("multi" if (mask > 1).any() else "") + \
        ("uneven" if len(set(mask[mask > 0])) > 1 else "")


def make(rng, n, kind=None):
    spec = G.group_spec(rng, n, kind=kind, k=2)
    # initial orientations distinguishable per heliostat
    group = G.build_group(spec)
    return spec, group


@CHECK.family(quick=300, thorough=4000, chunk=10)
def replication(mon, rng):
    n = G.size(rng, 1, 8)
    spec, group = make(rng, n)
    group.kinematics.motor_positions = G.T(rng.uniform(0, 100, (n, 2)))
    before = snapshot(group)
    for step in range(4):
        mask = np.ones(n, int) if (step == 0 and rng.random() < 0.2) else G.random_mask(rng, n, 0, 4)
        default = bool(step == 1 and rng.random() < 0.3)
        m = torch.tensor(mask, dtype=torch.int32)
        with mon.code("activate"):
            if default:
                mask = np.ones(n, int)
                group.activate_heliostats(device=G.CPU)
            else:
                group.activate_heliostats(active_heliostats_mask=m, device=G.CPU)
        owners = G.expand(mask)
        mon.expect(int(group.number_of_active_heliostats) == len(owners), "number-of-active", got=group.number_of_active_heliostats)
        mon.expect(np.array_equal(G.N(group.active_heliostats_mask), mask), "stored-mask")
        for name, value in active(group).items():
            if name == "opt" and spec.kind == "ideal":
                continue
            mon.expect(np.array_equal(G.N(value), before[name][owners]), f"active-{name}", mask=mask, step=step)
        mon.expect(np.array_equal(G.N(group.kinematics.active_motor_positions), G.N(group.kinematics.motor_positions)[owners]),
                   "active-motor-positions", mask=mask)
        # an alignment in between must not leak into the next activation
        if rng.random() < 0.6:
            with mon.code("align"):
                group.align_surfaces_with_motor_positions(
                    motor_positions=G.T(rng.uniform(0, 3, (len(owners), 2))), active_heliostats_mask=group.active_heliostats_mask,
                    device=G.CPU)
        after = snapshot(group)
        for name in before:
            mon.expect(np.array_equal(before[name], after[name]), f"stored-{name}-changed", step=step)
        mon.observe((spec.kind, n, pattern(mask), step, default), pattern(mask) != "", dict(mask=mask, kind=spec.kind))


@CHECK.family(quick=200, thorough=2500, chunk=10)
def sample_independence(mon, rng):
    """The same sample alone and inside a random batch."""
    n = G.size(rng, 2, 5)
    spec, group = make(rng, n)
    mask = G.random_mask(rng, n, 0, 3)
    owners = G.expand(mask)
    incident = G.sun_directions(rng, len(owners), 0.7)
    aims = G.f32(np.stack([rng.uniform(-6, 6, len(owners)), rng.uniform(-3, 3, len(owners)), rng.uniform(30, 70, len(owners)), np.ones(len(owners))], 1))

    def run(group, mask, inc, aim, motors=None):
        m = torch.tensor(mask, dtype=torch.int32)
        group.activate_heliostats(active_heliostats_mask=m, device=G.CPU)
        if motors is None:
            group.align_surfaces_with_incident_ray_directions(aim_points=G.T(aim), incident_ray_directions=G.T(inc),
                                                              active_heliostats_mask=m, device=G.CPU)
        else:
            group.align_surfaces_with_motor_positions(motor_positions=G.T(motors), active_heliostats_mask=m, device=G.CPU)
        return G.N(group.active_surface_points), G.N(group.active_surface_normals), G.N(group.kinematics.active_motor_positions)

    with mon.code("align"):
        p, q, mot = run(group, mask, incident, aims)
        i = int(rng.integers(len(owners)))
        single = np.zeros(n, int)
        single[owners[i]] = 1
        p1, q1, mot1 = run(group, single, incident[i : i + 1], aims[i : i + 1])
        pm, qm, _ = run(group, mask, None, None, mot)
        pm1, qm1, _ = run(group, single, None, None, mot[i : i + 1])
    mon.close(p1[0], p[i], "aligned-points-depend-on-batch", atol=3e-4, mask=mask, sample=i)
    mon.close(q1[0], q[i], "aligned-normals-depend-on-batch", atol=3e-5, mask=mask, sample=i)
    mon.close(pm1[0], pm[i], "motor-aligned-points-depend-on-batch", atol=2e-5, mask=mask, sample=i)
    mon.close(qm1[0], qm[i], "motor-aligned-normals-depend-on-batch", atol=1e-6, mask=mask, sample=i)
    mon.observe(("independent", spec.kind, n, pattern(mask)), len(owners) > 1)
    # permuting the samples of one heliostat permutes the results
    for h in range(n):
        rows = np.nonzero(owners == h)[0]
        if len(rows) > 1:
            perm = np.arange(len(owners))
            perm[rows] = rows[::-1]
            with mon.code("align"):
                pp, qq, _ = run(group, mask, incident[perm], aims[perm])
            mon.close(qq, q[perm], "samples-of-one-heliostat-not-exchangeable", atol=3e-5, mask=mask)
            mon.observe(("permuted", spec.kind, n), True)
            break


@CHECK.family(quick=60, thorough=600, chunk=10)
def traced_sample_independence(mon, rng):
    """Flux of one sample with given rays alone and inside a batch (no blocking)."""
    scene = G.random_scene(rng, per_group=(2, 4), k=3, rays=2)
    spec, group = scene.specs[0], scene.groups[0]
    mask = G.random_mask(rng, spec.n, 0, 2, unequal=False)
    owners = G.expand(mask)
    idx = rng.integers(0, len(scene.targets), len(owners))
    incident = G.sun_directions(rng, len(owners), 0.7)
    P = spec.points.shape[1]
    table = rng.normal(0, 2e-3, (2, len(owners), 2, P))
    res = torch.tensor([int(rng.integers(8, 30)), int(rng.integers(8, 30))])

    def trace(mask, idx, incident, table):
        scene.light.table = table
        m = scene.align(0, mask, idx, incident)
        tracer = HeliostatRayTracer(scene.scenario, group, blocking_active=False, batch_size=int(rng.integers(1, 8)),
                                    bitmap_resolution=res)
        return G.N(tracer.trace_rays(G.T(incident), m, torch.tensor(idx, dtype=torch.int32), device=G.CPU)[0])

    i = int(rng.integers(len(owners)))
    single = np.zeros(spec.n, int)
    single[owners[i]] = 1
    with mon.code("trace"):
        full = trace(mask, idx, incident, table)
        alone = trace(single, idx[i : i + 1], incident[i : i + 1], table[:, i : i + 1])
    mon.close(alone[0].sum(), full[i].sum(), "flux-depends-on-batch", atol=3e-3 * max(1.0, full[i].max()), mask=mask, sample=i)
    # equal up to the 2e-4 rad freedom of alignment: compare centroids
    if full[i].sum() > 1:
        g = np.indices(full[i].shape)
        c0 = [(g[a] * full[i]).sum() / full[i].sum() for a in (0, 1)]
        c1 = [(g[a] * alone[0]).sum() / alone[0].sum() for a in (0, 1)]
        mon.close(c1, c0, "flux-position-depends-on-batch", atol=0.02, mask=mask, sample=i)
        mon.count("lit samples compared")
    mon.observe(("traced", len(owners), pattern(mask)), len(owners) > 1 and full[i].sum() > 0)


@CHECK.family(quick=60, thorough=300, chunk=10)
def mismatched_masks(mon, rng):
    n = G.size(rng, 2, 5)
    spec, group = make(rng, n)
    mask = G.random_mask(rng, n, 0, 2)
    while True:
        other = G.random_mask(rng, n, 0, 2)
        if not np.array_equal(mask, other):
            break
    if rng.random() < 0.5:
        other = rng.permutation(mask)
        if np.array_equal(mask, other):
            other = mask + 1
    a, b = torch.tensor(mask, dtype=torch.int32), torch.tensor(other, dtype=torch.int32)
    group.activate_heliostats(active_heliostats_mask=a, device=G.CPU)
    k = int(other.sum())
    for what in ("directions", "motors"):
        rejected = False
        try:
            if what == "motors":
                group.align_surfaces_with_motor_positions(motor_positions=torch.zeros(k, 2), active_heliostats_mask=b, device=G.CPU)
            else:
                group.align_surfaces_with_incident_ray_directions(
                    aim_points=torch.tensor([[0.0, 0, 50, 1]]).repeat(k, 1), incident_ray_directions=torch.tensor([[0.0, 1, 0, 0]]).repeat(k, 1),
                    active_heliostats_mask=b, device=G.CPU)
        except Exception:
            rejected = True
        mon.expect(rejected, "mismatched-mask-accepted", activated=mask, requested=other, what=what)
        mon.observe((what, n, int(mask.sum()) == k), True)


CHECK.require("lit samples compared", 20)
