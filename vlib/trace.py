"""Shared pieces of the ray tracing monitors."""

from __future__ import annotations

import numpy as np
import torch

from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer

from . import gen as G
from . import oracle as O


class Job:
    """One aligned group together with everything an independent trace of it needs."""

    def __init__(self, rng, scene, g=0, res=None, mask=None, high=3, idx=None, incident=None, zero_ok=True):
        self.scene, self.g = scene, g
        self.group = scene.groups[g]
        self.mask = G.random_mask(rng, self.group.number_of_heliostats, 0, high) if mask is None else np.asarray(mask)
        self.n = int(self.mask.sum())
        self.owner = G.expand(self.mask)
        self.idx = rng.integers(0, len(scene.targets), self.n) if idx is None else np.asarray(idx)
        self.incident = G.sun_directions(rng, self.n) if incident is None else incident
        self.res = [int(rng.integers(2, 90)), int(rng.integers(2, 90))] if res is None else res
        self.m = scene.align(g, self.mask, self.idx, self.incident)

    def tracer(self, **kw):
        kw.setdefault("blocking_active", False)
        kw.setdefault("bitmap_resolution", torch.tensor(self.res))
        return HeliostatRayTracer(scenario=self.scene.scenario, heliostat_group=self.group, **kw)

    def trace(self, tracer, **kw):
        return tracer.trace_rays(incident_ray_directions=G.T(self.incident), active_heliostats_mask=self.m,
                                 target_area_indices=torch.tensor(self.idx), device=G.CPU, **kw)

    def distortions(self, seed=7):
        points = self.group.active_surface_points.shape[1]
        u, e = self.scene.light.get_distortions(points, self.n, seed)
        return G.N(u), G.N(e)

    def expected(self, k, u, e, magnitude=1.0, extinction=0.0, reflectivity=0.935, blocked=None):
        return O.trace_sample(
            G.N(self.group.active_surface_points[k]), G.N(self.group.active_surface_normals[k]), self.incident[k], e[k], u[k],
            self.scene.targets[self.idx[k]], self.res, magnitude, extinction, reflectivity, blocked)


def neighbourhood(img):
    p = np.pad(img, 1)
    h, w = img.shape
    return sum(p[i:i + h, j:j + w] for i in range(3) for j in range(3))


BORDER = 0.02


def image_tolerance(job, r, k, magnitude=1.0):
    """Per pixel tolerance for float32 hit positions, and the power of rays whose fate rounding may decide."""
    t = job.scene.targets[job.idx[k]]
    power = r["power"]
    if t["type"] == "planar":
        d_px = np.full(power.shape, 5e-5 + 3e-6 * max(job.res))
        d_w = 2e-6 * magnitude
    else:
        # the quadratic for the hit distance cancels: the error grows with the squared distance and towards the silhouette
        distance = np.linalg.norm(r["origins"] - t["center"][:3], axis=-1)
        cos = np.maximum(np.where(np.isfinite(r["cos"]), np.abs(r["cos"]), 1.0), 1e-6)
        d_m = 1e-7 * distance**2 / (t["radius"] * cos) + 1e-5
        d_px = d_m * np.maximum((job.res[0] - 1) / (t["radius"] * t["opening"]), (job.res[1] - 1) / t["height"])
        d_w = magnitude * np.minimum(d_m / t["radius"], 1.0)
    border = (r["margin"] < BORDER) | (r["margin"] < 4 * d_px) | (d_px > 0.5)
    slack = magnitude * np.minimum(np.abs(np.where(np.isfinite(r["cos"]), r["cos"], 0.05)), 1.0)[border].sum()
    uncertain = np.where(r["valid"] & ~border, power * 3 * d_px + d_w, 0.0)
    field = O.splat(np.where(r["valid"], r["col"], 0.0).ravel(), np.where(r["valid"], r["row"], 0.0).ravel(), uncertain.ravel(), job.res)
    return 4 * neighbourhood(field) + slack + 2e-6 * r["image"].sum() + 1e-7 * magnitude, slack, \
        float((d_w * np.ones(power.shape))[r["valid"] & ~border].sum())


def compare_image(mon, job, k, got, r, mech, magnitude=1.0, **detail):
    tol, slack, _ = image_tolerance(job, r, k, magnitude)
    err = np.abs(got - r["image"])
    worst = (err / (tol + 1e-12)).max() if np.isfinite(err).all() else np.inf
    mon.maximum(f"err/tol {mech}", worst)
    mon.count("rays compared", r["valid"].size)
    mon.count("rays on target", int(r["valid"].sum()))
    if slack:
        mon.count("images with borderline rays")
    return mon.expect(worst <= 1, mech, worst=worst, got_sum=got.sum(), want_sum=r["image"].sum(), res=job.res, **detail)


def borderline(job, r, k):
    """Rays for which rounding may decide whether they hit their target."""
    t = job.scene.targets[job.idx[k]]
    if t["type"] == "planar":
        return r["margin"] < BORDER
    distance = np.linalg.norm(r["origins"] - t["center"][:3], axis=-1)
    cos = np.maximum(np.where(np.isfinite(r["cos"]), np.abs(r["cos"]), 1.0), 1e-6)
    d_px = (1e-7 * distance**2 / (t["radius"] * cos) + 1e-5) * max((job.res[0] - 1) / (t["radius"] * t["opening"]), (job.res[1] - 1) / t["height"])
    return (r["margin"] < BORDER) | (r["margin"] < 4 * d_px) | (d_px > 0.5)


# --------------------------------------------------------------------------- blocking scenes
def rows(rng, groups=1, rays=2, k=3, scale=2e-3, shuffle=True, align_others=True, tilt=True, cylinders=(0, 1), height=None):
    """Dense rows of heliostats and a low tower, so that front rows stand in the way of back rows."""
    per_row, n_rows = G.size(rng, 1, 3, most=6), G.size(rng, 2, 3, most=6)
    half = (float(rng.uniform(0.5, 0.9)), float(rng.uniform(0.5, 0.8)))
    y0, dy, dx = rng.uniform(30, 70), rng.uniform(4 * half[1] * 0.7, 4 * half[1] * 1.8), 4 * half[0] * rng.uniform(1.1, 1.5)
    pos = []
    for r in range(n_rows):
        for c in range(per_row):
            pos.append([(c - (per_row - 1) / 2) * dx + rng.uniform(-0.3, 0.3) + (r % 2) * rng.uniform(0, dx / 2), y0 + r * dy,
                        rng.uniform(-0.1, 0.1), 1.0])
    pos = np.array(pos)
    order = rng.permutation(len(pos)) if shuffle else np.arange(len(pos))
    pos = pos[order]
    groups = min(groups, len(pos))
    cuts = np.sort(rng.choice(np.arange(1, len(pos)), groups - 1, replace=False)) if groups > 1 else []
    parts = np.split(pos, cuts)
    specs = [G.group_spec(rng, len(p), k=k, positions=p, prefix=f"g{g}h", half=half, bump=1e-4, deviations=0.2,
                          focal=float(rng.uniform(100, 250))) for g, p in enumerate(parts)]
    h = float(rng.uniform(6, 16)) if height is None else height
    planar = G.planar_targets(rng, int(rng.integers(1, 3)), height=h, spread=2.0, size=(3.0, 7.0))
    cyl = G.cylinder_targets(rng, int(rng.integers(cylinders[0], cylinders[1] + 1)), height=h, spread=2.0)
    scene = G.Scene(specs, planar, cyl, G.StubLight(rays, scale, seed=int(rng.integers(2**31))))
    others = []
    for g in range(1, groups):
        if align_others:
            m = rng.integers(0, 2, specs[g].n) if rng.random() < 0.5 else np.ones(specs[g].n, int)
            if m.sum():
                others.append(Job(rng, scene, g, mask=m))
    mask = np.ones(specs[0].n, int) if rng.random() < 0.6 else G.random_mask(rng, specs[0].n, 0, 1)
    job = Job(rng, scene, 0, mask=mask, res=[int(rng.integers(10, 40)), int(rng.integers(10, 40))])
    job.others = others
    return scene, job


def field_corners(scene):
    """Per group: corners (n x 4 x 3) of every mirror as it stands, lower left, upper left, upper right, lower right."""
    out = []
    for s, group in zip(scene.specs, scene.groups):
        mask = G.N(group.active_heliostats_mask).astype(int)
        active = G.N(group.active_surface_points) if mask.any() else None
        corners, a = [], 0
        for i in range(s.n):
            p = s.points[i][:, :3]
            pick = [np.argmin(p[:, 0] + p[:, 1]), np.argmax(p[:, 1] - p[:, 0]), np.argmax(p[:, 0] + p[:, 1]), np.argmax(p[:, 0] - p[:, 1])]
            if mask[i]:
                corners.append(active[a][pick, :3])
                a += 1
            else:
                corners.append(p[pick] + s.positions[i, :3])
        out.append(np.array(corners))
    return out


def blocked_rays(scene, corners, g, owner, r, edge=0.02, exclude_own=True):
    """(certainly blocked, undecided) per ray of one sample `r` of heliostat `owner` in group `g`."""
    valid = r["valid"]
    full = np.zeros(valid.shape, bool)
    unsure = np.zeros(valid.shape, bool)
    for gg, cs in enumerate(corners):
        for i, c in enumerate(cs):
            if gg == g and i == owner and exclude_own:
                continue
            t, a, b = O.rectangle_crossing(r["origins"], r["directions"], c)
            t, a, b = (np.where(np.isfinite(v), v, -1e9) for v in (t, a, b))
            inner = (a > edge) & (a < 1 - edge) & (b > edge) & (b < 1 - edge)
            outer = (a > -edge) & (a < 1 + edge) & (b > -edge) & (b < 1 + edge)
            target = np.where(valid, r["t"], np.inf)
            hit = inner & (t > 0.1) & (t < target - 0.5)
            near = outer & (t > 0.0) & ~hit
            full |= hit
            unsure |= near
    # rays that miss the target may or may not be tested against a mirror, depending on the other rays
    unsure = (unsure & ~full) | (full & ~valid)
    return full & ~unsure, unsure
