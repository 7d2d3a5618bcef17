"""K02 - actuator models convert motor steps and angles consistently."""

import numpy as np
import torch

from artist.field.actuators_ideal import IdealActuators
from artist.field.actuators_linear import LinearActuators
from vlib import gen as G
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "K02",
    rule="one evaluation = one actuator (heliostat, axis) whose conversions were compared with the triangle geometry in "
    "float64; distinct = (actuator class, axis, direction, stroke decile, batch size, access path); non-trivial = motor "
    "position away from zero",
    assumptions=["strokes inside the open triangle range by at least 2 % and above 0.08 m (the strict-positivity transform "
                 "of the code shifts shorter lengths by more than the tolerance)"],
)


def random_actuators(rng, n):
    """Parameter sets well outside PAINT values, including different parameters for both axes."""
    out = []
    for _ in range(n):
        offset = rng.uniform(0.25, 1.5, 2)
        pivot = offset * rng.uniform(0.55, 1.6, 2)
        lo, hi = np.abs(offset - pivot), offset + pivot
        a, b = np.maximum(lo * 1.02 + 0.01, 0.085), hi * 0.98
        stroke0 = a + (b - a) * rng.uniform(0.0, 0.5, 2)
        increment = 10 ** rng.uniform(3.5, 5.5, 2)
        out.append(dict(kind="linear", clockwise=[int(c) for c in rng.integers(0, 2, 2)],
                        min=[0.0, 0.0], max=[float(v) for v in (b - stroke0) * increment], increment=G.f32(increment),
                        offset=G.f32(offset), pivot=G.f32(pivot), initial_angle=G.f32(rng.uniform(-1.6, 1.6, 2)),
                        initial_stroke=G.f32(stroke0), top=b))
    return out


def expected_angle(a, k, p):
    return O.linear_angle(p, a["clockwise"][k], a["increment"][k], a["offset"][k], a["pivot"][k], a["initial_angle"][k],
                          a["initial_stroke"][k])


def sensitivity(a, k, p):
    h = a["increment"][k] * 1e-5
    return abs(expected_angle(a, k, p + h) - expected_angle(a, k, p - h)) / 2e-5 / a["increment"][k] * a["increment"][k]


def judge(mon, model, acts, owners, motor, path):
    angles = G.N(model.motor_positions_to_angles(G.T(motor), device=G.CPU))
    mon.expect(angles.shape == motor.shape, "angle-shape", shape=angles.shape)
    mon.expect(np.array_equal(G.N(model(G.T(motor), device=G.CPU)), angles), "module-call-differs")
    back = G.N(model.angles_to_motor_positions(G.T(angles), device=G.CPU))
    zero = G.N(model.motor_positions_to_angles(torch.zeros(motor.shape), device=G.CPU))
    for i, h in enumerate(owners):
        a = acts[h]
        for k in range(2):
            p = float(np.float32(motor[i, k]))
            if a["kind"] == "ideal":
                mon.expect(angles[i, k] == p and back[i, k] == p, "ideal-actuator-not-identity", p=p, angle=angles[i, k])
                mon.observe(("ideal", k, int(p), len(owners), path), p != 0)
                continue
            want = expected_angle(a, k, p)
            slope = sensitivity(a, k, p)  # rad per metre of stroke
            slope0 = sensitivity(a, k, 0.0)
            # float32 lengths plus the 1e-6 m strict-positivity shift of offset, radius and stroke
            tol = 1e-5 + 3e-6 * (slope + slope0)
            err = abs(angles[i, k] - want)
            mon.maximum("angle error/tol", err / tol)
            mon.expect(err < tol, "angle-differs-from-triangle-geometry", error=err, tol=tol, axis=k, p=p, actuator=a, sample=i)
            mon.expect(abs(zero[i, k] - a["initial_angle"][k]) < 1e-5, "angle-at-zero-is-not-initial-angle",
                       got=zero[i, k], want=a["initial_angle"][k])
            # the inverse returns the position it came from
            step_tol = 0.3 + a["increment"][k] * (2e-6 + 2e-6 / max(slope, 1e-3))
            mon.maximum("round trip/tol", abs(back[i, k] - p) / step_tol)
            mon.expect(abs(back[i, k] - p) < step_tol, "round-trip", got=back[i, k], want=p, tol=step_tol, axis=k,
                       actuator=a, sample=i)
            frac = p / max(a["max"][k], 1e-9)
            mon.observe(("linear", k, a["clockwise"][k], int(frac * 10), len(owners), path), frac > 1e-3,
                        dict(actuator=a, motor=p, angle=angles[i, k], expected=want))


def make_model(acts):
    non, opt = G.actuator_tensors(acts)
    cls = IdealActuators if acts[0]["kind"] == "ideal" else LinearActuators
    model = cls(non_optimizable_parameters=non, optimizable_parameters=opt, device=G.CPU)
    model.active_non_optimizable_parameters = non
    model.active_optimizable_parameters = opt
    return model


@CHECK.family(quick=300, thorough=6000, chunk=10)
def random_parameters(mon, rng):
    n = int(rng.integers(1, 8))
    acts = random_actuators(rng, n)
    frac = rng.uniform(0, 1, (n, 2)) * (rng.random((n, 2)) < 0.95)
    motor = np.array([a["max"] for a in acts]) * frac
    with mon.code("linear conversion"):
        judge(mon, make_model(acts), acts, range(n), motor, "direct")


@CHECK.family(quick=200, thorough=3000, chunk=10)
def through_groups(mon, rng):
    """The same conversion reached through a group with multiplicities, where parameters have to follow the samples."""
    n = G.size(rng, 1, 5)
    spec = G.group_spec(rng, n, kind="linear" if rng.random() < 0.8 else "ideal", k=2)
    if spec.kind == "linear" and rng.random() < 0.7:
        spec.acts = random_actuators(rng, n)
    group = G.build_group(spec)
    for _ in range(2):
        mask = G.random_mask(rng, n, 0, 3)
        owners = G.expand(mask)
        top = np.array([np.minimum(spec.acts[h]["max"], 1e9) for h in owners])
        motor = top * rng.uniform(0, 1, (len(owners), 2)) if spec.kind == "linear" else rng.uniform(-3, 3, (len(owners), 2))
        with mon.code("group conversion"):
            group.activate_heliostats(active_heliostats_mask=torch.tensor(mask, dtype=torch.int32), device=G.CPU)
            judge(mon, group.kinematics.actuators, spec.acts, owners, motor, "group")


@CHECK.family(quick=150, thorough=2000, chunk=10)
def inverse_first(mon, rng):
    """angle -> motor position -> angle over the reachable angles, and monotonicity along the stroke."""
    n = int(rng.integers(1, 5))
    acts = random_actuators(rng, n)
    model = make_model(acts)
    span = np.array([[sorted([expected_angle(a, k, 0.0), expected_angle(a, k, a["max"][k])]) for k in range(2)] for a in acts])
    angles = G.f32(span[..., 0] + (span[..., 1] - span[..., 0]) * rng.uniform(0.02, 0.98, (n, 2)))
    with mon.code("inverse"):
        motor = G.N(model.angles_to_motor_positions(G.T(angles), device=G.CPU))
    for i, a in enumerate(acts):
        for k in range(2):
            want = O.linear_steps(angles[i, k], a["clockwise"][k], a["increment"][k], a["offset"][k], a["pivot"][k],
                                  a["initial_angle"][k], a["initial_stroke"][k])
            slope = sensitivity(a, k, want)
            slope0 = sensitivity(a, k, 0.0)
            tol = 0.3 + a["increment"][k] * (3e-6 + (6e-6 + 2e-6 * slope0) / max(slope, 1e-3))
            mon.maximum("steps error/tol", abs(motor[i, k] - want) / tol)
            mon.expect(abs(motor[i, k] - want) < tol, "steps-differ-from-triangle-geometry", got=motor[i, k], want=want,
                       tol=tol, axis=k, actuator=a)
            mon.observe(("inv", k, a["clockwise"][k], int(10 * want / a["max"][k]), n), True)
    # monotone along the stroke in the documented direction
    steps = np.linspace(0, 1, 9)
    curve = np.stack([G.N(model.motor_positions_to_angles(G.T(np.array([a["max"] for a in acts]) * f), device=G.CPU)) for f in steps])
    for i, a in enumerate(acts):
        for k in range(2):
            d = np.diff(curve[:, i, k])
            ok = (d < 1e-6).all() if a["clockwise"][k] else (d > -1e-6).all()
            mon.expect(ok, "not-monotone-in-movement-direction", diffs=d, clockwise=a["clockwise"][k])
