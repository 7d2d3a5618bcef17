"""K01 - aiming reflects the sun onto the requested aim point."""

import numpy as np
import torch

from vlib import gen as G
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "K01",
    rule="one evaluation = one active heliostat sample aligned by the real code and judged against the law of reflection; "
    "distinct = different combination of actuator kind, movement directions, deviation size, batch size and geometry octant; "
    "non-trivial = needs a real rotation (aim at >= 30 m, residual computed from the moved surface points)",
    assumptions=["aim points at least 30 m away, joint translations below 0.3 m, tilts below 0.03 rad",
                 "residual tolerance 1e-4 rad"],
)
TOL = 1e-4


def rigid_tol(position):
    return 2e-4 + 2e-6 * np.abs(position[:3]).max()


def judge(mon, spec, group, mask, incident, aims, tol=TOL, sig=""):
    owners = G.expand(mask)
    pts, nrm = G.N(group.active_surface_points), G.N(group.active_surface_normals)
    mon.expect(pts.shape == (len(owners),) + spec.points.shape[1:], "shape-of-active-surfaces", shape=pts.shape)
    motors = G.N(group.kinematics.active_motor_positions)
    for i, h in enumerate(owners):
        m, res = O.fit_rigid(spec.points[h], pts[i])
        mon.maximum("rigid residual [m]", res)
        mon.expect(res < rigid_tol(spec.positions[h]) , "not-a-rigid-motion", residual=res, sample=i)
        nres = np.abs(spec.normals[h][:, :3] @ m[:3, :3].T - nrm[i][:, :3]).max()
        mon.maximum("normal residual", nres)
        # the fitted rotation is limited by the size of the mirror and the float32 resolution of the position
        mon.expect(nres < 4e-4 and np.abs(nrm[i][:, 3]).max() < 1e-6, "normals-moved-differently", residual=nres, sample=i)
        # centre and normal of the concentrator from the moved surface; rotation taken from normals (well conditioned)
        u, _, vt = np.linalg.svd(spec.normals[h][:, :3].T @ nrm[i][:, :3] + 1e-12)
        rot = m[:3, :3]
        origin, normal = m[:3, 3], rot[:, 2]
        out = O.reflect(incident[i][:3], normal)
        want = O.unit(aims[i][:3] - origin)
        err = np.linalg.norm(out - want)
        mon.maximum("reflection error [rad]", err)
        mon.expect(err < tol, "reflected-ray-misses-aim-point", error=err, sample=i, heliostat=int(h), kind=spec.kind,
                   position=spec.positions[h], incident=incident[i], aim=aims[i])
        # the recorded motor positions stand for the same orientation
        angles = O.joint_angles(motors[i], _single(spec.acts[h]))
        chain = O.forward_chain(spec.positions[h], spec.trans_dev[h], spec.rot_dev[h], angles)
        dn = np.linalg.norm(chain[:3, 2] - normal)
        mon.maximum("recorded motor positions vs orientation", dn)
        mon.expect(dn < 2e-4, "recorded-motor-positions-differ", error=dn, sample=i, heliostat=int(h), kind=spec.kind)
        do = np.abs(chain[:3, 3] - origin).max()
        mon.expect(do < 2e-3, "recorded-motor-positions-differ", origin_error=do, sample=i)
        a = spec.acts[h]
        lo, hi = np.array(a["min"]), np.array(a["max"])
        mon.expect((motors[i] >= lo - 1).all() and (motors[i] <= hi + 1).all(), "reachable-solution-outside-limits",
                   motors=motors[i], low=lo, high=hi)
        q = (spec.kind, tuple(a["clockwise"]), len(owners), int(normal[0] > 0), int(normal[2] * 5), sig)
        mon.observe(q, True, dict(position=spec.positions[h], incident=incident[i], aim=aims[i], error=err))


def _single(a):
    return a


def _run(mon, rng, kind, deviations, n, near=35.0, far=110.0):
    spec = G.group_spec(rng, n, kind=kind, k=3, deviations=deviations, near=near, far=far)
    group = G.build_group(spec)
    mask = G.random_mask(rng, n, 0, 3)
    owners = G.expand(mask)
    incident = G.sun_directions(rng, len(owners), max_azimuth=0.8)
    aims = G.f32(np.stack([rng.uniform(-6, 6, len(owners)), rng.uniform(-3, 3, len(owners)),
                           rng.uniform(30, 70, len(owners)), np.ones(len(owners))], 1))
    return spec, group, mask, owners, incident, aims


def align(mon, group, mask, incident, aims):
    m = torch.tensor(mask, dtype=torch.int32)
    with mon.code("align"):
        group.activate_heliostats(active_heliostats_mask=m, device=G.CPU)
        if mon.index % 4 == 0:
            called = group.kinematics(G.T(incident), G.T(aims), device=G.CPU)
            mon.expect(torch.equal(called, group.kinematics.incident_ray_directions_to_orientations(G.T(incident), G.T(aims), device=G.CPU)),
                       "module-call-differs")
        group.align_surfaces_with_incident_ray_directions(
            aim_points=G.T(aims), incident_ray_directions=G.T(incident), active_heliostats_mask=m, device=G.CPU)


@CHECK.family(quick=400, thorough=6000, chunk=5)
def random_fields(mon, rng):
    kind = ["linear", "ideal"][int(rng.integers(2))]
    dev = float(rng.choice([0.0, 0.3, 1.0, 1.2]))
    spec, group, mask, owners, incident, aims = _run(mon, rng, kind, dev, G.size(rng, 1, 6))
    align(mon, group, mask, incident, aims)
    judge(mon, spec, group, mask, incident, aims, sig=f"dev{dev}")


@CHECK.family(quick=150, thorough=2000, chunk=5)
def tilted_joints(mon, rng):
    """Large joint tilts: the inverse has to use the phase-shifted sinusoid exactly."""
    spec, group, mask, owners, incident, aims = _run(mon, rng, "ideal", 0.0, G.size(rng, 1, 4))
    spec.rot_dev = G.f32(rng.uniform(-0.3, 0.3, (spec.n, 4)))
    spec.trans_dev = G.f32(rng.uniform(-0.2, 0.2, (spec.n, 9)))
    group = G.build_group(spec)
    align(mon, group, mask, incident, aims)
    judge(mon, spec, group, mask, incident, aims, sig="tilt")


@CHECK.family(quick=150, thorough=2000, chunk=5)
def any_direction(mon, rng):
    """Ideal actuators reach every direction: sun and aim point anywhere around the heliostat."""
    n = G.size(rng, 1, 4)
    spec = G.group_spec(rng, n, kind="ideal", k=3, deviations=0.5)
    group = G.build_group(spec)
    mask = G.random_mask(rng, n, 0, 2)
    owners = G.expand(mask)
    incident, aims = [], []
    for h in owners:
        while True:
            d = O.unit(rng.normal(size=3))
            aim = spec.positions[h][:3] + O.unit(rng.normal(size=3)) * rng.uniform(40, 200)
            half = -d + O.unit(aim - spec.positions[h][:3])
            nrm = half / (np.linalg.norm(half) + 1e-9)
            # keep clear of the kinematic singularity (normal along the first axis) and of grazing incidence
            if np.linalg.norm(half) > 0.6 and abs(nrm[0]) < 0.9:
                break
        incident.append(np.append(d, 0))
        aims.append(np.append(aim, 1))
    incident, aims = G.f32(np.stack(incident)), G.f32(np.stack(aims))
    align(mon, group, mask, incident, aims)
    judge(mon, spec, group, mask, incident, aims, sig="any")


@CHECK.family(quick=60, thorough=400, chunk=4)
def sequences(mon, rng):
    """Repeated re-alignment of one group with changing masks."""
    spec, group, mask, owners, incident, aims = _run(mon, rng, None, 1.0, int(rng.integers(2, 5)))
    for step in range(4):
        mask = G.random_mask(rng, spec.n, 0, 2)
        k = int(mask.sum())
        incident = G.sun_directions(rng, k, max_azimuth=0.8)
        aims = G.f32(np.stack([rng.uniform(-6, 6, k), rng.uniform(-3, 3, k), rng.uniform(30, 70, k), np.ones(k)], 1))
        align(mon, group, mask, incident, aims)
        judge(mon, spec, group, mask, incident, aims, sig=f"step{step}")
        mon.expect(np.array_equal(G.N(group.surface_points), spec.points), "stored-surface-changed")


@CHECK.family(quick=100, thorough=1000, chunk=4)
def reachable_second_solution(mon, rng):
    """Actuator limits that exclude one of the two analytic solutions: the other one has to be used."""
    n = 3
    spec = G.group_spec(rng, n, kind="ideal", k=3, deviations=0.5)
    # ideal actuators: azimuth allowed only beyond +-90 degrees, so the flipped solution is the only one
    flips = rng.random(n) < rng.choice([0.0, 0.5, 1.0])
    for a, flip in zip(spec.acts, flips):
        a["min"], a["max"] = ([-4.0, 1.6], [4.0, 4.8]) if flip else ([-4.0, -1.4], [4.0, 1.4])
    group = G.build_group(spec)
    mask = np.ones(n, int)
    incident = G.sun_directions(rng, n, max_azimuth=0.5, elevation=(0.5, 1.0))
    aims = G.f32(np.stack([rng.uniform(-6, 6, n), rng.uniform(-3, 3, n), rng.uniform(30, 70, n), np.ones(n)], 1))
    # positive-east normals only for the flipped case, so that the wrapped second solution is in range
    align(mon, group, mask, incident, aims)
    motors = G.N(group.kinematics.active_motor_positions)
    for i in range(n):
        chain = O.forward_chain(spec.positions[i], spec.trans_dev[i], spec.rot_dev[i], motors[i])
        out = O.reflect(incident[i][:3], chain[:3, 2])
        err = np.linalg.norm(out - O.unit(aims[i][:3] - chain[:3, 3]))
        inside = (motors[i] >= spec.acts[i]["min"]).all() and (motors[i] <= spec.acts[i]["max"]).all()
        if not flips[i]:
            mon.expect(inside, "reachable-solution-outside-limits", motors=motors[i])
        elif not inside:
            # the second angle may wrap to the negative branch, which the limits do not contain
            mon.expect(motors[i][1] < -1.4, "reachable-solution-outside-limits", motors=motors[i])
            mon.count("second solution wrapped")
        else:
            mon.count("second solution used")
        mon.expect(err < 3e-4, "reflected-ray-misses-aim-point", error=err)
        mon.observe((flips.tolist(), inside, i), True)


CHECK.require("second solution used", 3)
