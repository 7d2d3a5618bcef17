"""G02 - cylindrical target intersections."""

import numpy as np
import torch

from artist.raytracing import geometry
from artist.scene.rays import Rays
from vlib import gen as G
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "G02",
    rule="one evaluation = one call of the cylindrical intersection whose every ray was compared with a float64 quadratic in a "
    "frame built from axis and normal; distinct = (ray bundle kind, axis class, opening class, number of targets, hit mix); "
    "non-trivial = contains both hits and misses",
    assumptions=["rays within 0.05 px, 1e-2 of the silhouette cosine, or 1e-4 of tangency are not judged"],
)


def judge(mon, origins, directions, magnitudes, targets, idx, res, kind, default_idx=False):
    areas = G.make_tower([], targets).target_areas[1]
    h4 = np.concatenate([origins, np.ones(origins.shape[:-1] + (1,))], -1)
    d4 = np.concatenate([directions, np.zeros(directions.shape[:-1] + (1,))], -1)
    with mon.code("line_cylinder_intersections"):
        e, u, t, w = geometry.line_cylinder_intersections(
            rays=Rays(G.T(d4), G.T(magnitudes)), points_at_ray_origins=G.T(h4), target_areas=areas,
            target_area_indices=None if default_idx else torch.tensor(idx, dtype=torch.int32),
            bitmap_resolution=torch.tensor(res), device=G.CPU)
    e, u, t, w = map(G.N, (e, u, t, w))
    hits = misses = 0
    o32, d32, m32 = G.f32(origins), G.f32(directions), G.f32(magnitudes)
    for i in range(origins.shape[0]):
        tg = targets[0 if default_idx else idx[i]]
        o = np.broadcast_to(o32[i][None], d32[i].shape)
        col, row, dist, cos, valid, margin = O.cylinder_hit(
            o, d32[i], tg["center"][:3], tg["axis"][:3], tg["normal"][:3], tg["radius"], tg["height"], tg["opening"], res)
        far = np.linalg.norm(o - tg["center"][:3], axis=-1)
        # float32 quadratic: absolute error of the discriminant ~ eps * distance^2
        err_m = 4e-7 * (far**2 / tg["radius"] + far) / np.maximum(np.abs(cos), 1e-3)
        px_per_m = max(res[0] / (tg["radius"] * tg["opening"]), res[1] / tg["height"])
        err_px = 2 * err_m * px_per_m + 2e-3
        sure = (margin > 0.05) & (margin > 2 * err_px) & (np.abs(np.where(np.isfinite(cos), cos, 1)) > 0.03)
        v = valid & sure
        hits += int(v.sum())
        misses += int((~valid & sure).sum())
        for name, got, want in (("column", e[i], col), ("row", u[i], row)):
            bad = v & ~(np.abs(got - want) <= err_px)
            if v.any():
                mon.maximum(f"{name} error/tol", (np.abs(got - want) / err_px)[v].max())
            if bad.any():
                k = tuple(np.argwhere(bad)[0])
                mon.violation(f"cylinder-{name}", got=got[k], want=want[k], target=tg, origin=o[k], direction=d32[i][k],
                              res=res, n_bad=int(bad.sum()))
        bad = v & ~(np.abs(t[i] - dist) <= 4 * err_m + 1e-3)
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            mon.violation("cylinder-distance", got=t[i][k], want=dist[k], target=tg, origin=o[k], direction=d32[i][k])
        want_w = m32[i] * cos
        bad = v & ~(np.abs(w[i] - want_w) <= m32[i] * (4 * err_m / tg["radius"] + 1e-4) + 1e-6)
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            mon.violation("cylinder-intensity", got=w[i][k], want=want_w[k], target=tg, magnitude=m32[i][k], origin=o[k],
                          direction=d32[i][k])
        out = ~valid & sure
        bad = out & ~(w[i] == 0)
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            mon.violation("cylinder-accepts-miss", intensity=w[i][k], target=tg, origin=o[k], direction=d32[i][k],
                          col=col[k], row=row[k], cosine=cos[k], res=res, n_bad=int(bad.sum()))
        mon.expect(np.isfinite(w[i]).all() and np.isfinite(t[i]).all(), "cylinder-non-finite")
    mon.count("hits", hits)
    mon.count("misses", misses)
    op = int(min(tg["opening"], 6.29) / 1.6)
    up = "upright" if all(abs(t["axis"][2] - 1) < 1e-6 for t in targets) else "tilted"
    mon.observe((kind, up, op, len(targets), hits > 0, misses > 0), hits > 0 and misses > 0,
                dict(targets=targets, hits=hits, misses=misses, resolution=res))


def resolution(rng):
    return [int(rng.integers(2, 400)), int(rng.integers(2, 400))] if rng.random() < 0.7 else [256, 256]


def towards(rng, t, o, shape, slack=1.3):
    z = rng.uniform(-slack / 2, slack / 2, shape) * t["height"]
    phi = rng.uniform(-np.pi, np.pi, shape) if rng.random() < 0.5 else rng.uniform(-slack / 2, slack / 2, shape) * min(t["opening"], 2 * np.pi)
    n, a = t["normal"][:3], t["axis"][:3]
    s = np.cross(a, n)
    p = t["center"][:3] + t["radius"] * (np.cos(phi)[..., None] * n + np.sin(phi)[..., None] * s) + z[..., None] * a
    return O.unit(p - o)


def bundle(rng, targets, idx, R, P, ring):
    H = len(idx)
    o, d = np.empty((H, P, 3)), np.empty((H, R, P, 3))
    for i in range(H):
        t = targets[idx[i]]
        if ring:  # all around the tower
            az = rng.uniform(0, 2 * np.pi, P)
            r = rng.uniform(20, 90, P)
            o[i] = t["center"][:3] + np.stack([r * np.cos(az), r * np.sin(az), rng.uniform(-60, 20, P)], 1)
        else:
            o[i] = G.field_positions(rng, P)[:, :3]
        d[i] = towards(rng, t, o[i][None], (R, P))
    return o, d


def any_orientation(rng, n):
    out = G.cylinder_targets(rng, n, opening=(0.4, 2 * np.pi))
    for t in out:
        a = O.unit(rng.normal(size=3))
        b = rng.normal(size=3)
        b = O.unit(b - (b @ a) * a)
        t["axis"], t["normal"] = np.append(a, 0), np.append(b, 0)
    return out


@CHECK.family(quick=250, thorough=4000, chunk=10)
def north_facing(mon, rng):
    targets = G.cylinder_targets(rng, int(rng.integers(1, 4)), turn=0.0, tilt=0.0, opening=(0.5, 3.0))
    G.round_targets(targets)
    idx = rng.integers(0, len(targets), G.size(rng, 1, 3, most=40))
    o, d = bundle(rng, targets, idx, int(rng.integers(1, 4)), int(rng.integers(2, 40)), False)
    judge(mon, o, d, rng.uniform(0, 3, d.shape[:-1]), targets, idx, resolution(rng), "north")


@CHECK.family(quick=300, thorough=5000, chunk=10)
def turned(mon, rng):
    """Receivers facing any compass direction, sectors up to the full circle, rays from all around."""
    targets = G.cylinder_targets(rng, int(rng.integers(1, 4)), turn=np.pi, opening=(0.5, 2 * np.pi))
    if rng.random() < 0.2:
        for t in targets:
            t["opening"] = 2 * np.pi
    G.round_targets(targets)
    idx = rng.integers(0, len(targets), G.size(rng, 1, 3, most=40))
    o, d = bundle(rng, targets, idx, int(rng.integers(1, 4)), int(rng.integers(2, 40)), True)
    judge(mon, o, d, rng.uniform(0, 3, d.shape[:-1]), targets, idx, resolution(rng), "turned", bool(rng.random() < 0.1))


@CHECK.family(quick=250, thorough=4000, chunk=10)
def tilted(mon, rng):
    targets = any_orientation(rng, int(rng.integers(1, 4)))
    G.round_targets(targets)
    idx = rng.integers(0, len(targets), G.size(rng, 1, 3, most=40))
    o, d = bundle(rng, targets, idx, int(rng.integers(1, 4)), int(rng.integers(2, 40)), True)
    judge(mon, o, d, rng.uniform(0, 3, d.shape[:-1]), targets, idx, resolution(rng), "tilted")


@CHECK.family(quick=200, thorough=3000, chunk=10)
def inside_and_away(mon, rng):
    """Rays that start inside, lead away, run along the axis or are mixed with hits."""
    targets = any_orientation(rng, 1) if rng.random() < 0.5 else G.cylinder_targets(rng, 1, turn=np.pi)
    G.round_targets(targets)
    t = targets[0]
    P = 30
    o = t["center"][:3] + rng.normal(0, 1, (1, P, 3)) * rng.choice([1.0, 5.0, 30.0], (1, P, 1))
    d = O.unit(rng.normal(size=(1, 2, P, 3)))
    d[0, 0, 0] = t["axis"][:3]
    d[0, :, 5:20] = towards(rng, t, o[:, 5:20], (2, 15))
    judge(mon, o, d, np.ones((1, 2, P)), targets, [0], resolution(rng), "any")
    # nothing hits at all
    far = (t["center"][:3] + np.array([0, 0, 400.0]))[None, None] + rng.normal(0, 1, (1, 3, 3))
    up = np.broadcast_to(np.array([0, 0, 1.0]), (1, 2, 3, 3)).copy()
    if abs(t["axis"][2]) > 0.9:
        judge(mon, far, O.unit(up + rng.normal(0, 0.01, up.shape)), np.ones((1, 2, 3)), targets, [0], [32, 16], "none")


CHECK.require("hits", 3000)
CHECK.require("misses", 3000)
