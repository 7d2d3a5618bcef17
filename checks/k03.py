"""K03 - forward kinematics is the documented rigid chain of two joints."""

import numpy as np
import torch

from vlib import gen as G
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "K03",
    rule="one evaluation = one active sample whose aligned surface was compared point by point with the float64 joint chain; "
    "distinct = (actuator kind, which deviations are non-zero, batch size, heliostat index, facets); non-trivial = at least one "
    "non-zero joint angle and one non-zero deviation",
    assumptions=["positions within 1 km, deviations below 1 m / 0.5 rad, joint angles in [-pi, pi]"],
)


def chain_for(spec, h, motor):
    return O.forward_chain(spec.positions[h], spec.trans_dev[h], spec.rot_dev[h], O.joint_angles(motor, spec.acts[h]))


def motors_for(rng, spec, owners):
    if spec.kind == "ideal":
        return G.f32(rng.uniform(-3.1, 3.1, (len(owners), 2)))
    top = np.array([spec.acts[h]["max"] for h in owners])
    return G.f32(top * rng.uniform(0, 1, top.shape))


def judge(mon, rng, spec, group, mask, motors, sig):
    owners = G.expand(mask)
    m = torch.tensor(mask, dtype=torch.int32)
    with mon.code("align with motor positions"):
        group.activate_heliostats(active_heliostats_mask=m, device=G.CPU)
        group.align_surfaces_with_motor_positions(motor_positions=G.T(motors), active_heliostats_mask=m, device=G.CPU)
    pts, nrm = G.N(group.active_surface_points), G.N(group.active_surface_normals)
    for i, h in enumerate(owners):
        t = chain_for(spec, h, motors[i])
        want_p, want_n = spec.points[h] @ t.T, spec.normals[h] @ t.T
        extra = 0.0
        if spec.kind == "linear":
            extra = 3e-5  # angle tolerance of the strict-positivity transform (see K02)
        tol = 2e-5 + 4e-7 * np.abs(spec.positions[h][:3]).max() + extra * 3
        mon.close(pts[i], want_p, "aligned-points", atol=tol, sample=i, heliostat=int(h), deviations=sig)
        mon.close(nrm[i], want_n, "aligned-normals", atol=4e-6 + extra, sample=i, heliostat=int(h), deviations=sig)
        nz = np.abs(motors[i]).max() > 0
        mon.observe((spec.kind, sig, len(owners), int(h), spec.facets), nz and sig != "none",
                    dict(position=spec.positions[h], translation=spec.trans_dev[h], tilts=spec.rot_dev[h], motors=motors[i]))


@CHECK.family(quick=400, thorough=6000, chunk=10)
def random_chains(mon, rng):
    n = G.size(rng, 1, 6)
    spec = G.group_spec(rng, n, k=int(rng.integers(2, 4)), facets=int(rng.choice([1, 4, 4, 3])))
    spec.positions = G.f32(np.concatenate([rng.uniform(-1, 1, (n, 3)) * 10 ** rng.uniform(0, 3), np.ones((n, 1))], 1))
    spec.trans_dev = G.f32(rng.uniform(-1, 1, (n, 9)))
    spec.rot_dev = G.f32(rng.uniform(-0.5, 0.5, (n, 4)))
    mask = G.random_mask(rng, n, 0, 3)
    judge(mon, rng, spec, G.build_group(spec), mask, motors_for(rng, spec, G.expand(mask)), "all")


@CHECK.family(quick=15 * 14, thorough=14 * 150, chunk=14)
def one_deviation_at_a_time(mon, rng):
    """Each of the 13 deviations alone: every one has to act at its own place in the chain."""
    which = mon.index % 14
    n = int(rng.integers(1, 4))
    spec = G.group_spec(rng, n, kind="ideal" if rng.random() < 0.7 else "linear", k=2, deviations=0.0)
    if which < 9:
        spec.trans_dev[:, which] = G.f32(rng.uniform(0.3, 2.0, n))
    elif which < 13:
        spec.rot_dev[:, which - 9] = G.f32(rng.uniform(0.1, 0.6, n))
    mask = G.random_mask(rng, n, 0, 2)
    sig = "none" if which == 13 else f"only{which}"
    judge(mon, rng, spec, G.build_group(spec), mask, motors_for(rng, spec, G.expand(mask)), sig)


@CHECK.family(quick=100, thorough=1000, chunk=10)
def rigid_invariants(mon, rng):
    """Distances and handedness of the surface survive every movement (no model of the chain needed)."""
    n = G.size(rng, 1, 4)
    spec = G.group_spec(rng, n, k=3)
    spec.rot_dev = G.f32(rng.uniform(-1.0, 1.0, (n, 4)))
    group = G.build_group(spec)
    mask = G.random_mask(rng, n, 0, 2)
    owners = G.expand(mask)
    motors = motors_for(rng, spec, owners)
    m = torch.tensor(mask, dtype=torch.int32)
    with mon.code("align with motor positions"):
        group.activate_heliostats(active_heliostats_mask=m, device=G.CPU)
        group.align_surfaces_with_motor_positions(motor_positions=G.T(motors), active_heliostats_mask=m, device=G.CPU)
    pts, nrm = G.N(group.active_surface_points), G.N(group.active_surface_normals)
    for i, h in enumerate(owners):
        motion, res = O.fit_rigid(spec.points[h], pts[i])
        mon.expect(res < 1e-4, "not-a-rigid-motion", residual=res)
        a, b, c = rng.choice(pts.shape[1], 3, replace=False)
        v0 = np.linalg.det(np.stack([spec.points[h][b, :3] - spec.points[h][a, :3], spec.points[h][c, :3] - spec.points[h][a, :3], spec.normals[h][a, :3]]))
        v1 = np.linalg.det(np.stack([pts[i][b, :3] - pts[i][a, :3], pts[i][c, :3] - pts[i][a, :3], nrm[i][a, :3]]))
        mon.expect(abs(v0 - v1) < 3e-4, "handedness-or-volume-changed", before=v0, after=v1)
        mon.expect(np.abs(np.linalg.norm(nrm[i][:, :3], axis=1) - 1).max() < 1e-5, "normals-not-unit")
        mon.expect((pts[i][:, 3] == 1).all() or np.abs(pts[i][:, 3] - 1).max() < 1e-6, "homogeneous-coordinate")
        mon.expect(np.abs(nrm[i][:, 3]).max() < 1e-6, "homogeneous-coordinate")
        mon.observe((spec.kind, "rigid", len(owners), int(h)), True)
    mon.expect(np.array_equal(G.N(group.surface_points), spec.points), "stored-surface-changed")
