"""G01 - planar target intersections."""

import numpy as np
import torch

from artist.raytracing import geometry
from artist.scene.rays import Rays
from vlib import gen as G
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "G01",
    rule="one evaluation = one call of the planar intersection whose every ray was compared with a float64 plane equation "
    "(rays closer than the stated margin to an acceptance border are left out); distinct = (ray bundle kind, number of targets, "
    "resolution class, hit mix); non-trivial = contains both hits and misses",
    assumptions=["rays within 0.02 px / 1e-4 cosine of an acceptance border are not judged"],
)


def judge(mon, origins, directions, magnitudes, targets, idx, res, kind, default_idx=False):
    """origins [H,P,3], directions [H,R,P,3]"""
    planar = [t for t in targets if t["type"] == "planar"]
    tower = G.make_tower(planar, [])
    areas = tower.target_areas[0]
    h4 = np.concatenate([origins, np.ones(origins.shape[:-1] + (1,))], -1)
    d4 = np.concatenate([directions, np.zeros(directions.shape[:-1] + (1,))], -1)
    with mon.code("line_plane_intersections"):
        e, u, t, w = geometry.line_plane_intersections(
            rays=Rays(G.T(d4), G.T(magnitudes)), points_at_ray_origins=G.T(h4), target_areas=areas,
            target_area_indices=None if default_idx else torch.tensor(idx, dtype=torch.int32),
            bitmap_resolution=torch.tensor(res), device=G.CPU)
    e, u, t, w = map(G.N, (e, u, t, w))
    hits = misses = 0
    o32, d32, m32 = G.f32(origins), G.f32(directions), G.f32(magnitudes)
    for i in range(origins.shape[0]):
        tg = planar[0 if default_idx else idx[i]]
        o = np.broadcast_to(o32[i][None], d32[i].shape)
        col, row, dist, cos, valid, margin = O.planar_hit(o, d32[i], tg["center"][:3], tg["normal"][:3], tg["dims"], res)
        sure = margin > 0.02
        # float32 cancellation: error of the hit grows with distance and grazing incidence
        scale = 1 + np.abs(np.where(np.isfinite(dist), dist, 1e6)) / np.maximum(np.abs(cos), 1e-6)
        px = np.maximum(res[0] / tg["dims"][0], res[1] / tg["dims"][1])
        sure &= scale * 2e-6 * px < 0.01
        v = valid & sure
        hits += int(v.sum())
        misses += int((~valid & sure).sum())
        tol_px = 2e-6 * scale * px + 2e-4
        for name, got, want in (("column", e[i], col), ("row", u[i], row)):
            bad = v & ~(np.abs(got - want) <= tol_px)
            mon.maximum(f"{name} error [px]", np.abs(got - want)[v].max() if v.any() else 0)
            if bad.any():
                k = tuple(np.argwhere(bad)[0])
                mon.violation(f"planar-{name}", got=got[k], want=want[k], target=tg, origin=o[k], direction=d32[i][k], res=res)
        bad = v & ~(np.abs(t[i] - dist) <= 4e-6 * scale + 1e-4)
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            mon.violation("planar-distance", got=t[i][k], want=dist[k], target=tg, origin=o[k], direction=d32[i][k])
        want_w = m32[i] * cos
        bad = v & ~(np.abs(w[i] - want_w) <= 2e-6 * np.abs(m32[i]) + 1e-6)
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            mon.violation("planar-intensity", got=w[i][k], want=want_w[k], target=tg, magnitude=m32[i][k])
        out = ~valid & sure
        bad = out & ~((w[i] == 0) & (t[i] == 0))
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            reason = "backwards" if (cos[k] > 0 and not dist[k] > 0) else ("back-side" if cos[k] <= 0 else "outside")
            mon.violation(f"planar-accepts-{reason}", intensity=w[i][k], distance=t[i][k], target=tg, origin=o[k],
                          direction=d32[i][k], true_distance=dist[k], cosine=cos[k])
        mon.expect(np.isfinite(e[i][sure]).all() and np.isfinite(u[i][sure]).all(), "planar-non-finite-coordinates")
    mon.count("hits", hits)
    mon.count("misses", misses)
    mon.observe((kind, len(planar), "sq" if res[0] == res[1] else "rect", hits > 0, misses > 0),
                hits > 0 and misses > 0, dict(targets=planar, hits=hits, misses=misses, resolution=res))


def resolution(rng):
    return [int(rng.integers(2, 400)), int(rng.integers(2, 400))] if rng.random() < 0.7 else [256, 256]


def aimed(rng, targets, idx, H, R, P, spread=0.8):
    """Rays from a field towards points in and around their target."""
    o = np.stack([G.field_positions(rng, P)[:, :3] + rng.normal(0, 1, (P, 3)) for _ in range(H)])
    d = np.empty((H, R, P, 3))
    for i in range(H):
        t = targets[idx[i]]
        p = t["center"][:3] + np.stack([rng.uniform(-spread, spread, (R, P)) * t["dims"][0], rng.uniform(-1, 1, (R, P)),
                                        rng.uniform(-spread, spread, (R, P)) * t["dims"][1]], -1)
        # onto the plane, so that hits are spread over the whole target
        n = t["normal"][:3]
        p[..., 1] -= ((p - t["center"][:3]) @ n) / n[1]
        d[i] = O.unit(p - o[i][None])
    return o, d


@CHECK.family(quick=400, thorough=6000, chunk=10)
def aimed_bundles(mon, rng):
    targets = G.planar_targets(rng, int(rng.integers(1, 5)), tilt=0.7, turn=0.9)
    H, R, P = G.size(rng, 1, 4, most=40), int(rng.integers(1, 5)), int(rng.integers(1, 30))
    idx = rng.integers(0, len(targets), H)
    G.round_targets(targets)
    o, d = aimed(rng, targets, idx, H, R, P)
    mag = np.ones((H, R, P)) if rng.random() < 0.3 else rng.uniform(0, 5, (H, R, P))
    default = bool(rng.random() < 0.15)
    judge(mon, o, d, mag, targets, idx, resolution(rng), "aimed", default)


@CHECK.family(quick=300, thorough=4000, chunk=10)
def any_rays(mon, rng):
    """Rays from anywhere in any direction, including behind the target, parallel to it and leaving it."""
    targets = G.planar_targets(rng, int(rng.integers(1, 4)), tilt=0.7, turn=3.1, size=(10, 60))
    G.round_targets(targets)
    H, R, P = G.size(rng, 1, 3, most=40), int(rng.integers(1, 4)), int(rng.integers(1, 40))
    idx = rng.integers(0, len(targets), H)
    o = np.stack([targets[idx[i]]["center"][:3] + rng.normal(0, 20, (P, 3)) for i in range(H)])
    d = O.unit(rng.normal(size=(H, R, P, 3)))
    # exactly parallel and exactly reversed rays
    for i in range(H):
        n = targets[idx[i]]["normal"][:3]
        if rng.random() < 0.5:
            d[i, 0, 0] = O.unit(np.cross(n, [0.3, 0.2, 1.0]))
        if rng.random() < 0.5 and P > 1:
            d[i, 0, 1] = -n
    judge(mon, o, d, rng.uniform(0.5, 2, (H, R, P)), targets, idx, resolution(rng), "any")


@CHECK.family(quick=60, thorough=800, chunk=10)
def behind_and_reverse(mon, rng):
    """Origins behind the plane with front-facing directions: the plane is only met backwards."""
    targets = G.planar_targets(rng, 1, size=(20, 60))
    G.round_targets(targets)
    t = targets[0]
    P = 20
    n = t["normal"][:3]
    q = t["center"][:3] + rng.uniform(-5, 5, (P, 3))
    d = O.unit(-n + rng.normal(0, 0.3, (1, 1, P, 3)))
    o = (q + d[0, 0] * rng.uniform(1, 60, (P, 1)) - n * 5)[None]
    judge(mon, o, d, np.ones((1, 1, P)), targets, [0], resolution(rng), "behind")
    mon.count("reverse bundles")


@CHECK.family(quick=60, thorough=600, chunk=10)
def reflection_law(mon, rng):
    d, n = O.unit(rng.normal(size=(5, 7, 3))), O.unit(rng.normal(size=(5, 7, 3)))
    z = np.zeros((5, 7, 1))
    with mon.code("reflect"):
        got = G.N(geometry.reflect(G.T(np.concatenate([d, z], -1)), G.T(np.concatenate([n, z], -1))))
    mon.close(got[..., :3], O.reflect(G.f32(d), G.f32(n)), "reflection-law", atol=2e-6)
    mon.close(got[..., 3], 0 * got[..., 3], "reflection-homogeneous", atol=1e-7)
    mon.observe(("reflect", mon.index % 10), True)


CHECK.require("hits", 2000)
CHECK.require("misses", 2000)
