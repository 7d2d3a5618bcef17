"""G05 - rotations, translations, cantings and rotation decomposition."""

import numpy as np
import torch

from artist.geometry import rotations, transforms
from vlib import gen as G
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "G05",
    rule="one evaluation = one transformation call whose every matrix or vector was compared with a float64 reference and tested for "
    "rigidity and group laws; distinct = (function, batch size class, angle class); non-trivial = angles or vectors that are not the identity",
    assumptions=["canting vectors span a plane (angle between them above 3 degrees)"],
)


def angles(rng, n):
    mode = rng.integers(4)
    if mode == 0:
        a = rng.uniform(-np.pi, np.pi, n)
    elif mode == 1:
        a = rng.normal(0, 2e-3, n)
    elif mode == 2:
        a = rng.choice([0, np.pi / 2, -np.pi / 2, np.pi, -np.pi, 2 * np.pi], n)
    else:
        a = rng.uniform(-15, 15, n)
    return G.f32(a), int(mode)


def rigid(mon, m, what):
    r = m[..., :3, :3]
    mon.maximum("orthogonality", np.abs(np.einsum("...ji,...jk->...ik", r, r) - np.eye(3)).max())
    mon.expect(np.allclose(np.einsum("...ji,...jk->...ik", r, r), np.eye(3), atol=3e-6), "not-orthogonal", what=what)
    mon.expect(np.allclose(np.linalg.det(r), 1, atol=5e-6), "not-a-proper-rotation", what=what)
    mon.expect((m[..., 3, :] == np.array([0, 0, 0, 1])).all(), "not-homogeneous", what=what)


@CHECK.family(quick=400, thorough=5000, chunk=40)
def axis_rotations(mon, rng):
    n = G.size(rng, 1, 7)
    for name, ref in (("rotate_e", O.rot_e), ("rotate_n", O.rot_n), ("rotate_u", O.rot_u)):
        fn = getattr(transforms, name)
        a, mode = angles(rng, n)
        b, _ = angles(rng, n)
        with mon.code(name):
            m, k, s, back = (G.N(fn(G.T(x), device=G.CPU)) for x in (a, b, a + b, -a))
        mon.expect(m.shape == (n, 4, 4), "shape", got=m.shape)
        mon.close(m, np.stack([ref(x) for x in a]), f"{name}-matrix", atol=2e-6, angles=a)
        rigid(mon, m, name)
        mon.close(m @ k, s, f"{name}-angles-do-not-add", atol=6e-6)
        mon.close(m @ back, np.broadcast_to(np.eye(4), m.shape), f"{name}-inverse", atol=3e-6)
        d = np.concatenate([rng.normal(size=(n, 3)), np.zeros((n, 1))], 1)
        mon.expect(((m @ d[..., None])[..., 3, 0] == 0).all(), "direction-becomes-point")
        mon.observe((name, n > 1, mode), True, dict(angle=a[:3]))


@CHECK.family(quick=200, thorough=2500, chunk=40)
def translation(mon, rng):
    n = G.size(rng, 1, 7)
    t = G.f32(rng.normal(0, 40, (3, n)))
    with mon.code("translate_enu"):
        m = G.N(transforms.translate_enu(*[G.T(x) for x in t], device=G.CPU))
    mon.close(m, np.stack([O.hom(t=t[:, i]) for i in range(n)]), "translation-matrix", atol=0)
    for bad in range(3):
        args = [torch.zeros(n + (1 if k == bad else 0)) for k in range(3)]
        try:
            transforms.translate_enu(*args, device=G.CPU)
            mon.violation("mismatched-shapes-accepted", which=bad)
        except ValueError:
            pass
    mon.observe(("translate", n > 1), True, dict(t=t[:, 0]))


@CHECK.family(quick=300, thorough=4000, chunk=30)
def distortions(mon, rng):
    shape = tuple(int(v) for v in rng.integers(1, 6, 3))
    e, mode = angles(rng, shape)
    u, _ = angles(rng, shape)
    with mon.code("rotate_distortions"):
        m = G.N(transforms.rotate_distortions(e=G.T(e), u=G.T(u), device=G.CPU))
    mon.expect(m.shape == shape + (4, 4), "shape", got=m.shape)
    rigid(mon, m, "rotate_distortions")
    d = O.unit(rng.normal(size=shape + (3,)))
    got = np.einsum("...ij,...j->...i", m[..., :3, :3], d)
    mon.close(got, O.distort(d, e, u), "distortion", atol=3e-6)
    try:
        transforms.rotate_distortions(e=torch.zeros(shape), u=torch.zeros((shape[0] + 1,) + shape[1:]), device=G.CPU)
        mon.violation("mismatched-shapes-accepted")
    except ValueError:
        pass
    mon.observe(("distort", mode, shape), True, dict(shape=shape))


@CHECK.family(quick=400, thorough=5000, chunk=20)
def canting(mon, rng):
    h, f, p = (int(v) for v in rng.integers(1, 6, 3))
    c = np.zeros((h, f, 2, 4))
    for i in range(h):
        for j in range(f):
            a = rng.normal(size=3)
            while True:
                b = rng.normal(size=3)
                if rng.random() < 0.7:
                    a, b = np.array([1, 0, 0]) + rng.normal(0, 0.02, 3), np.array([0, 1, 0]) + rng.normal(0, 0.02, 3)
                if np.linalg.norm(np.cross(O.unit(a), O.unit(b))) > 0.05:
                    break
            c[i, j, 0, :3], c[i, j, 1, :3] = a * rng.uniform(0.2, 3), b * rng.uniform(0.2, 3)
    c = G.f32(G.echo(rng, c, axes=2))
    data = np.zeros((h, f, p, 4))
    data[..., :3] = rng.normal(size=(h, f, p, 3))
    data[..., 3] = rng.integers(0, 2)
    data = G.f32(G.echo(rng, data, axes=3))
    ct, dt = G.T(c), G.T(data)
    with mon.code("perform_canting"):
        fwd = G.N(transforms.perform_canting(ct, dt, device=G.CPU))
        inv = G.N(transforms.perform_canting(ct, G.T(fwd), inverse=True, device=G.CPU))
        inv2 = G.N(transforms.perform_canting(ct, dt, inverse=True, device=G.CPU))
    mon.expect(np.array_equal(G.N(ct), c) and np.array_equal(G.N(dt), data), "input-modified")
    scale = np.abs(data).max() + 1
    for i in range(h):
        for j in range(f):
            r = O.cant_rotation(c[i, j])
            cond = 1 / np.linalg.norm(np.cross(O.unit(c[i, j, 0, :3]), O.unit(c[i, j, 1, :3])))
            mon.close(fwd[i, j, :, :3], data[i, j, :, :3] @ r.T, "canting", atol=1.5e-6 * scale * cond, canting=c[i, j])
            mon.close(inv2[i, j, :, :3], data[i, j, :, :3] @ r, "inverse-canting", atol=1.5e-6 * scale * cond, canting=c[i, j])
            # plane and handedness: north vector is in the canted plane on the positive north side
            n_local = r.T @ c[i, j, 1, :3]
            mon.expect(abs(n_local[2]) < 1e-6 * 3 and n_local[1] > 0, "reference-self-check")
    mon.close(inv, data, "canting-roundtrip", atol=3e-5 * scale)
    mon.expect(np.array_equal(fwd[..., 3], data[..., 3]), "homogeneous-changed")
    mon.count("canted facets", h * f)
    mon.observe(("cant", h > 1, f, p > 1), True, dict(canting=c[0, 0]))


@CHECK.family(quick=400, thorough=5000, chunk=30)
def decomposition(mon, rng):
    n = G.size(rng, 1, 5)
    init = rng.normal(size=(n, 4)) * rng.uniform(0.1, 5, (n, 1))
    target = rng.normal(size=4) * rng.uniform(0.1, 5)
    mode = int(rng.integers(3))
    if mode == 0:  # single-axis case: the decomposition is a rotation
        axis = int(rng.integers(3))
        init[:, axis] = 0
        target[axis] = 0
    elif mode == 1:
        init[0, :3] = target[:3] * 2
    init, target = G.f32(init), G.f32(target)
    with mon.code("decompose_rotations"):
        got = np.stack([G.N(x) for x in rotations.decompose_rotations(G.T(init), G.T(target))], 1)
    for i in range(n):
        a, b = O.unit(init[i, :3]), O.unit(target[:3])
        dot = np.clip(a @ b, -1, 1)
        theta = np.arctan2(np.linalg.norm(np.cross(a, b)), dot)
        axis = np.cross(a, b)
        mon.expect(np.isfinite(got[i]).all(), "decomposition-not-finite", a=a, b=b, got=got[i])
        if 1e-2 < theta < np.pi - 1e-2:
            mon.close(got[i], theta * O.unit(axis), "decomposition", atol=2e-6 + 4e-7 / np.sin(theta) ** 1 * np.pi, a=a, b=b)
            turned = O.rodrigues(O.unit(axis), np.linalg.norm(got[i])) @ a
            mon.close(turned, b, "decomposition-does-not-map", atol=1e-5 + 1e-6 / np.sin(theta))
            if mode == 0:
                k = int(np.argmax(np.abs(axis)))
                m = (O.rot_e, O.rot_n, O.rot_u)[k](got[i][k] if k != 1 else -got[i][k])[:3, :3]
                mon.close(m @ a, b, "single-axis-decomposition", atol=1e-5 + 1e-6 / np.sin(theta))
            mon.count("decomposed")
        elif theta < 1e-6:
            mon.expect(np.abs(got[i]).max() < 2e-3, "parallel-decomposition", got=got[i])
    mon.observe(("decompose", mode, n > 1), True, dict(init=init[0], target=target))


@CHECK.family(quick=600, thorough=8000, chunk=30)
def angle_and_axis(mon, rng):
    a = rng.normal(size=3)
    mode = int(rng.integers(5))
    if mode == 0:
        b = rng.normal(size=3)
    elif mode == 1:
        b = a * rng.uniform(0.2, 4)
    elif mode == 2:
        b = -a * rng.uniform(0.2, 4)
    elif mode == 3:
        a = np.eye(3)[rng.integers(3)] * rng.choice([-1, 1])
        b = -a if rng.random() < 0.5 else np.eye(3)[rng.integers(3)] * rng.choice([-1, 1])
    else:
        b = a + rng.normal(0, 0.05, 3)
    a, b = G.f32(a), G.f32(b)
    width = int(rng.integers(3, 5))
    pad = np.zeros(width - 3)
    with mon.code("rotation_angle_and_axis"):
        axis, angle = rotations.rotation_angle_and_axis(G.T(np.concatenate([a, pad])), G.T(np.concatenate([b, pad])), device=G.CPU)
    axis, angle = G.N(axis), float(angle)
    x, y = O.unit(a), O.unit(b)
    theta = np.arctan2(np.linalg.norm(np.cross(x, y)), x @ y)
    mon.expect(axis.shape == (3,) and np.isfinite(axis).all() and abs(np.linalg.norm(axis) - 1) < 1e-5, "axis-not-unit", axis=axis, a=a, b=b)
    mon.expect(abs(angle - theta) < 1.2e-3 if min(theta, np.pi - theta) < 1e-2 else abs(angle - theta) < 1e-5 / np.sin(theta), "angle", got=angle, want=theta, a=a, b=b)
    turned = O.rodrigues(axis, angle) @ x
    mon.expect(np.linalg.norm(turned - y) < (3e-3 if min(theta, np.pi - theta) < 1e-2 else 2e-5 / np.sin(theta)), "axis-angle-does-not-map", a=a, b=b, axis=axis, angle=angle)
    mon.count(f"axis angle mode {mode}")
    mon.observe(("axis", mode, width, int(theta * 4)), True, dict(a=a, b=b, axis=axis, angle=angle))


CHECK.require("canted facets", 500)
CHECK.require("decomposed", 200)
