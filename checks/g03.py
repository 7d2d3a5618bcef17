"""G03 - bitmap coordinates to world coordinates."""

import numpy as np
import torch

from artist.flux import bitmap
from artist.geometry import coordinates
from artist.raytracing import geometry
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.scene.rays import Rays
from vlib import gen as G
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "G03",
    rule="one evaluation = one conversion call judged point by point (against a float64 model of the target surface), one shooting "
    "of rays at converted points through the real intersection code, or one traced image whose centroid was converted; distinct = "
    "(family, target types present, square or not, indices class); non-trivial = at least one point judged",
    assumptions=["planar targets face north or south within 60 degrees, so that east/up coordinates identify points on them"],
)


def towers(rng, tilted=True):
    p = G.planar_targets(rng, int(rng.integers(0, 4)), turn=0.8 if tilted else 0, tilt=0.6 if tilted else 0)
    c = G.cylinder_targets(rng, int(rng.integers(0, 4)), turn=np.pi, tilt=0.3, opening=(0.5, 2 * np.pi))
    if not p and not c:
        p = G.planar_targets(rng, 1)
    if rng.random() < 0.3:
        for t in p:
            t["normal"] = t["normal"] * np.array([1, -1, 1, 1])
    return p, c


def judge_points(mon, got, coords, res, targets, idx):
    mon.expect(np.allclose(got[:, 3], 1.0), "homogeneous-coordinate", got=got[:, 3])
    for k, i in enumerate(idx):
        t = targets[i]
        want = O.pixel_to_world(t, *coords[k], res)
        tol = 2e-4
        err = np.abs(got[k, :3] - want)
        if t["type"] == "planar":
            flat = np.array([want[0], t["center"][1], want[2]])
            if err.max() > tol and np.abs(got[k, :3] - flat).max() <= tol:
                mon.violation("planar-point-not-on-tilted-plane", target=t, coordinate=coords[k], got=got[k], want=want)
                continue
            mon.count("planar points")
        else:
            mon.count("cylinder points")
        if err.max() > tol or not np.isfinite(got[k]).all():
            mon.violation(f"world-point-{t['type']}", target=t, coordinate=coords[k], res=res, got=got[k], want=want, index=int(i))


@CHECK.family(quick=600, thorough=8000, chunk=20)
def points(mon, rng):
    p, c = towers(rng, tilted=rng.random() < 0.5)
    tower = G.make_tower(p, c)
    targets = p + c
    res = [int(rng.integers(1, 400)), int(rng.integers(1, 400))] if rng.random() < 0.8 else [256, 256]
    n = G.size(rng, 1, 24, most=300)
    idx = rng.integers(0, len(targets), n)
    coords = G.f32(rng.uniform(-0.5, 1, (n, 2)) * np.array(res)) if rng.random() < 0.2 else G.f32(rng.uniform(0, 1, (n, 2)) * (np.array(res) - 1))
    if rng.random() < 0.3:
        coords = np.floor(coords)
    before = coords.copy()
    arg = G.T(coords)
    with mon.code("bitmap_coordinates_to_target_coordinates"):
        got = G.N(coordinates.bitmap_coordinates_to_target_coordinates(
            bitmap_coordinates=arg, bitmap_resolution=torch.tensor(res), solar_tower=tower,
            target_area_indices=torch.tensor(idx, dtype=torch.int32 if rng.random() < 0.5 else torch.int64), device=G.CPU))
    mon.expect((G.N(arg) == before).all(), "input-modified")
    judge_points(mon, got, coords, res, targets, idx)
    kinds = tuple(sorted({targets[i]["type"] for i in idx}))
    mon.observe((kinds, res[0] == res[1], len(p), len(c)), True, dict(res=res, n=n))


@CHECK.family(quick=400, thorough=6000, chunk=20)
def shot(mon, rng):
    """Rays shot at converted points arrive at the pixel that was asked for."""
    p, c = towers(rng, tilted=False)
    for t in p:  # stand in front
        t["normal"] = np.array([0, 1.0, 0, 0])
    tower = G.make_tower(p, c)
    targets = p + c
    res = [int(rng.integers(4, 300)), int(rng.integers(4, 300))]
    n = G.size(rng, 1, 11, most=300)
    # every call of the intersection code handles one target type
    kind = int(rng.integers(2)) if p and c else (0 if p else 1)
    pool = np.arange(len(p)) if kind == 0 else np.arange(len(p), len(targets))
    idx = rng.choice(pool, n)
    coords = G.f32(rng.uniform(0, 1, (n, 2)) * (np.array(res) - 1))
    with mon.code("bitmap_coordinates_to_target_coordinates"):
        world = coordinates.bitmap_coordinates_to_target_coordinates(
            bitmap_coordinates=G.T(coords), bitmap_resolution=torch.tensor(res), solar_tower=tower,
            target_area_indices=torch.tensor(idx), device=G.CPU)
    w = G.N(world)[:, :3]
    origins, dirs = np.empty((n, 1, 3)), np.empty((n, 1, 1, 3))
    for k, i in enumerate(idx):
        t = targets[i]
        out = t["normal"][:3] if kind == 0 else O.unit((w[k] - t["center"][:3]) - ((w[k] - t["center"][:3]) @ t["axis"][:3]) * t["axis"][:3])
        origins[k, 0] = w[k] + 30 * O.unit(out + rng.uniform(-0.5, 0.5, 3))
        dirs[k, 0, 0] = O.unit(w[k] - G.f32(origins[k, 0]))
    fn = geometry.line_plane_intersections if kind == 0 else geometry.line_cylinder_intersections
    with mon.code("intersections"):
        e, u, t_, inten = fn(
            rays=Rays(G.T(np.concatenate([dirs, np.zeros((n, 1, 1, 1))], -1)), torch.ones(n, 1, 1)),
            points_at_ray_origins=G.T(np.concatenate([origins, np.ones((n, 1, 1))], -1)),
            target_areas=tower.target_areas[kind], target_area_indices=torch.tensor(idx - (len(p) if kind else 0)),
            bitmap_resolution=torch.tensor(res), device=G.CPU)
    e, u, inten = G.N(e)[:, 0, 0], G.N(u)[:, 0, 0], G.N(inten)[:, 0, 0]
    for k in range(n):
        if not mon.expect(inten[k] > 0, "point-cannot-be-hit", coordinate=coords[k], target=targets[idx[k]], world=w[k]):
            continue
        d = np.array([e[k] - coords[k, 0], (res[1] - 1 - u[k]) - coords[k, 1]])
        mon.maximum("offset to the traced pixel", np.abs(d).max())
        mon.count("points shot at")
        mon.expect(np.abs(d).max() <= 0.55, "pixel-offset", offset=d, coordinate=coords[k], res=res, target=targets[idx[k]])
    mon.observe((kind, len(p), len(c)), True, dict(res=res, coords=coords[:2], world=w[:2]))


@CHECK.family(quick=120, thorough=1500, chunk=4)
def traced_centroid(mon, rng):
    """The world position of the centroid of a traced image is the mean of the points the rays really hit."""
    scene = G.random_scene(rng, planar=(1, 3), cylindrical=(0, 2), rays=4, k=3, scale=1e-3)
    for t in scene.targets:
        if t["type"] == "planar":
            t["normal"] = np.array([0, 1.0, 0, 0])
    scene = G.Scene(scene.specs, [t for t in scene.targets if t["type"] == "planar"],
                    [t for t in scene.targets if t["type"] == "cylindrical"], scene.light)
    group = scene.groups[0]
    mask = G.random_mask(rng, group.number_of_heliostats, 0, 2)
    n = int(mask.sum())
    idx = rng.integers(0, len(scene.targets), n)
    incident = G.sun_directions(rng, n)
    res = [int(rng.integers(40, 200)), int(rng.integers(40, 200))]
    with mon.code("trace"):
        m = scene.align(0, mask, idx, incident)
        tracer = HeliostatRayTracer(scenario=scene.scenario, heliostat_group=group, blocking_active=False, batch_size=int(rng.integers(1, n + 1)),
                                    bitmap_resolution=torch.tensor(res))
        flux = tracer.trace_rays(incident_ray_directions=G.T(incident), active_heliostats_mask=m,
                                 target_area_indices=torch.tensor(idx), device=G.CPU)[0]
        com = bitmap.get_center_of_mass(flux, device=G.CPU)
        world = G.N(coordinates.bitmap_coordinates_to_target_coordinates(
            bitmap_coordinates=com, bitmap_resolution=torch.tensor(res), solar_tower=scene.tower,
            target_area_indices=torch.tensor(idx), device=G.CPU))
    u, e = scene.light.get_distortions(group.number_of_active_heliostats * 0 + G.N(group.active_surface_points).shape[1], n)
    for k in range(n):
        t = scene.targets[idx[k]]
        r = O.trace_sample(G.N(group.active_surface_points[k]), G.N(group.active_surface_normals[k]), incident[k], G.N(e[k]), G.N(u[k]), t, res)
        if r["valid"].mean() < 0.999:
            mon.count("spilled images left out")
            continue
        weight = r["power"] / r["power"].sum()
        if t["type"] == "planar":
            hit = ((r["origins"] + r["t"][..., None] * r["directions"]) * weight[..., None]).sum((0, 1))
            size = np.array([t["dims"][0] / res[0], 0.02, t["dims"][1] / res[1]])
        else:
            # mean in unrolled coordinates
            hit = O.pixel_to_world(t, (r["col"] * weight).sum() * res[0] / (res[0] - 1) - 0.5,
                                   (res[1] - 1 - (r["row"] * weight).sum()) * res[1] / (res[1] - 1) - 0.5, res)
            size = np.full(3, max(t["radius"] * t["opening"] / res[0], t["height"] / res[1]))
        err = np.abs(world[k, :3] - hit) / size
        mon.maximum("centroid error [px]", err.max())
        mon.count(f"centroids on {t['type']} targets")
        mon.expect(err.max() <= 0.62, "traced-centroid", got=world[k], want=hit, pixel=size, target=t, res=res)
    mon.observe((n, len(scene.targets)), True, dict(res=res, target_indices=idx))


CHECK.require("planar points", 500)
CHECK.require("cylinder points", 500)
CHECK.require("points shot at", 500)
CHECK.require("centroids on planar targets", 20)
CHECK.require("centroids on cylindrical targets", 10)
