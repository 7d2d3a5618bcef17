"""S02 - index mappings address the heliostats and targets that their names say."""

import numpy as np
import torch

from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from vlib import gen as G
from vlib import h5 as H
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "S02",
    rule="one evaluation = one mapping request whose activation mask, target indices and directions were compared with the names, one "
    "global target index resolved in every part of the system, one sample whose light was followed from the named heliostat to the "
    "named target, or one invalid request that had to be rejected; distinct = (monitor, groups, list length class, repetitions, target "
    "mixture, kind of error); non-trivial = all",
    assumptions=["default requests use a valid target index"],
)


def scene_of(rng, groups=(1, 3), **kw):
    s = G.random_scene(rng, groups=int(rng.integers(groups[0], groups[1])), planar=(0, 3), cylindrical=(0, 3), k=2, **kw)
    names = H.words(rng, sum(sp.n for sp in s.specs) + len(s.targets))
    # arbitrary names, also for targets
    specs, k = s.specs, 0
    for sp in specs:
        sp.names = names[k:k + sp.n]
        k += sp.n
    planar = [t for t in s.targets if t["type"] == "planar"]
    cyl = [t for t in s.targets if t["type"] == "cylindrical"]
    for t in planar + cyl:
        t["name"] = names[k]
        k += 1
    return G.Scene(specs, planar, cyl, s.light)


def random_mapping(rng, scene, unknown=False):
    names = [n for sp in scene.specs for n in sp.names]
    length = int(rng.choice([0, 1, 2, 5, 12, 40], p=[0.2, 0.2, 0.2, 0.19, 0.18, 0.03]))
    out = []
    for _ in range(length):
        name = str(rng.choice(names))
        if unknown and rng.random() < 0.2:
            name = "no_such_heliostat"
        out.append((name, scene.targets[int(rng.integers(len(scene.targets)))]["name"], G.sun_directions(rng, 1)[0]))
    return out


def tensors(mapping):
    return [(h, t, G.T(d)) for h, t, d in mapping]


def judge(mon, scene, m, given=None, **extra):
    """Ask every group for the mapping and compare the answers with the names."""
    index = {t["name"]: k for k, t in enumerate(scene.targets)}
    total, seen = 0, []
    for g, group in enumerate(scene.groups):
        with mon.code("index mapping", entries=len(m)):
            mask, idx, directions = scene.scenario.index_mapping(
                group, string_mapping=tensors(m) if given is None else given, device=G.CPU)
        names = scene.specs[g].names
        want_mask = [sum(e[0] == n for e in m) for n in names]
        want = [e for n in names for e in m if e[0] == n]
        total += len(want)
        who = dict(group=g, entries=len(m), **extra)
        mon.close(mask, want_mask, "activation-mask", **who)
        mon.close(idx, [index[e[1]] for e in want], "target-indices", **who)
        mon.close(directions, np.array([e[2] for e in want]).reshape(-1, 4), "directions", **who)
        repeated = max(want_mask, default=0)
        mixed = len({scene.targets[index[e[1]]]["type"] for e in want})
        seen.append((repeated, mixed, want_mask))
        if repeated > 1:
            mon.count("mappings with repeated heliostats")
    known = {n for sp in scene.specs for n in sp.names}
    mon.expect(total == sum(e[0] in known for e in m), "entries-lost", **extra)
    return seen


@CHECK.family(quick=300, thorough=6000, chunk=10)
def mapping(mon, rng):
    scene = scene_of(rng)
    unknown = bool(rng.random() < 0.4)
    m = random_mapping(rng, scene, unknown)
    for repeated, mixed, want_mask in judge(mon, scene, m):
        mon.observe(f"mapping|{len(scene.groups)}|{len(m)}|{min(repeated, 3)}|{mixed}|{unknown}", nontrivial=len(m) > 0,
                    sample=dict(mapping=m, mask=want_mask))


@CHECK.family(quick=100, thorough=1500, chunk=10)
def histories(mon, rng):
    """A scenario asked again and again answers every request for itself, whatever it was asked before."""
    scene = scene_of(rng)
    m = random_mapping(rng, scene)
    while not m:
        m = random_mapping(rng, scene)
    given = tensors(m)
    judge(mon, scene, m, given=given, step="first")
    for step in range(int(rng.integers(2, 6))):
        kind = ["new directions", "directions in place", "targets", "order", "heliostats", "length", "same"][int(rng.integers(7))]
        suns = G.sun_directions(rng, len(m))
        fresh = True
        if kind == "new directions":
            m = [(h, t, s) for (h, t, _), s in zip(m, suns)]
        elif kind == "directions in place":
            m = [(h, t, s) for (h, t, _), s in zip(m, suns)]
            for (_, _, tensor), s in zip(given, suns):
                tensor.copy_(G.T(s))
            fresh = False
        elif kind == "targets":
            m = [(h, scene.targets[int(rng.integers(len(scene.targets)))]["name"], d) for h, _, d in m]
        elif kind == "order":
            m = [m[i] for i in rng.permutation(len(m))]
        elif kind == "heliostats":
            names = [n for sp in scene.specs for n in sp.names]
            m = [(str(rng.choice(names)), t, d) for _, t, d in m]
        elif kind == "length":
            m = m + random_mapping(rng, scene) if rng.random() < 0.5 or len(m) == 1 else m[:-1]
        else:
            fresh = False
        if fresh:
            given = tensors(m)
        judge(mon, scene, m, given=given, step=kind)
        mon.observe(f"history|{kind}|{len(scene.groups)}|{min(len(m), 5)}")
        mon.count("requests after other requests")


@CHECK.family(quick=120, thorough=1500, chunk=10)
def default_mapping(mon, rng):
    scene = scene_of(rng)
    for g, group in enumerate(scene.groups):
        n = scene.specs[g].n
        kw, target, direction = {}, 0, np.array([0.0, 1.0, 0.0, 0.0])
        if rng.random() < 0.7:
            target = int(rng.integers(len(scene.targets)))
            kw["single_target_area_index"] = target
        if rng.random() < 0.7:
            direction = G.sun_directions(rng, 1)[0]
            kw["single_incident_ray_direction"] = G.T(direction)
        with mon.code("default index mapping"):
            mask, idx, directions = scene.scenario.index_mapping(group, device=G.CPU, **kw)
        mon.close(mask, np.ones(n), "default-mask")
        mon.close(idx, np.full(n, target), "default-target")
        mon.close(directions, np.tile(direction, (n, 1)), "default-direction")
        mon.observe(f"default|{len(kw)}|{n}")


@CHECK.family(quick=150, thorough=2000, chunk=10)
def rejected(mon, rng):
    scene = scene_of(rng, per_group=(1, 4))
    g = int(rng.integers(len(scene.groups)))
    group, names = scene.groups[g], scene.specs[g].names
    kind = int(rng.integers(6))
    kw = {}
    good = G.sun_directions(rng, 1)[0]
    m = [e for e in random_mapping(rng, scene) if e[0] in names]
    at = int(rng.integers(len(m) + 1))
    target = scene.targets[0]["name"]
    if kind == 0:
        m.insert(at, (names[0], "no such target", good))
    elif kind == 1:
        m.insert(at, (names[-1], target, good * rng.choice([0.5, 1.5, 0.0])))
    elif kind == 2:
        m.insert(at, (names[-1], target, good + np.array([0, 0, 0, 1.0])))
    elif kind == 3:
        m.insert(at, (names[-1], target, good[:3]))
    elif kind == 4:
        m = None
        kw["single_target_area_index"] = len(scene.targets) + int(rng.integers(3))
    else:
        m = None
        kw["single_incident_ray_direction"] = G.T(good * 0.7 if rng.random() < 0.5 else good + np.array([0, 0, 0, 1.0]))
    refused = False
    try:
        scene.scenario.index_mapping(group, string_mapping=None if m is None else tensors(m), device=G.CPU, **kw)
    except ValueError:
        refused = True
    mon.expect(refused, "invalid-mapping-accepted", kind=kind)
    mon.observe(f"rejected|{kind}|{0 if m is None else len(m)}")
    mon.count("rejected requests")


@CHECK.family(quick=150, thorough=2000, chunk=10)
def targets(mon, rng):
    """A global index means the same target in the tower's name, area, centre and centre-list lookups."""
    scene = scene_of(rng, per_group=(1, 2))
    tower = scene.tower
    mon.expect(len(tower.index_to_target_area) == len(scene.targets) == len(tower.target_name_to_index), "target-count")
    for k, t in enumerate(scene.targets):
        mon.expect(tower.target_name_to_index.get(t["name"]) == k, "name-to-index", name=t["name"], want=k)
        area, local = tower.index_to_target_area[k]
        mon.expect(area.names[local] == t["name"], "index-to-area", index=k)
        mon.close(area.centers[local], t["center"], "index-to-area-center", index=k)
        mon.close(area.normals[local], t["normal"], "index-to-area-normal", index=k)
    kinds = "".join(t["type"][0] for t in scene.targets)
    n = int(rng.integers(1, 9))
    idx = rng.integers(0, len(scene.targets), n)
    with mon.code("centers of target areas"):
        centers = tower.get_centers_of_target_areas(torch.tensor(idx, dtype=torch.int32), device=G.CPU)
    mon.close(centers, np.stack([G.aim_point(scene.targets[i]) for i in idx]), "target-centers", atol=2e-5, kinds=kinds)
    mon.observe(f"targets|{kinds}|{min(n, 4)}", sample=dict(kinds=kinds, idx=idx))


@CHECK.family(quick=60, thorough=900, chunk=4)
def end_to_end(mon, rng):
    """The named heliostat reflects the given direction onto the named target, and the flux of that row lies on it."""
    scene = scene_of(rng, per_group=(2, 5), scale=0.0, rays=1, bump=0.0)
    m = random_mapping(rng, scene)
    for g, group in enumerate(scene.groups):
        spec = scene.specs[g]
        want = [(i, e) for i, n in enumerate(spec.names) for e in m if e[0] == n]
        if not want:
            continue
        with mon.code("mapping, aligning and tracing"):
            mask, idx, directions = scene.scenario.index_mapping(group, string_mapping=tensors(m), device=G.CPU)
            group.activate_heliostats(active_heliostats_mask=mask, device=G.CPU)
            aims = scene.tower.get_centers_of_target_areas(idx, device=G.CPU)
            group.align_surfaces_with_incident_ray_directions(
                aim_points=aims, incident_ray_directions=directions, active_heliostats_mask=mask, device=G.CPU)
            tracer = HeliostatRayTracer(scenario=scene.scenario, heliostat_group=group, blocking_active=False,
                                        bitmap_resolution=torch.tensor([31, 31]))
            flux, _, on_target, _ = tracer.trace_rays(
                incident_ray_directions=directions, active_heliostats_mask=mask, target_area_indices=idx, device=G.CPU)
            per_target = tracer.get_bitmaps_per_target(flux, idx, device=G.CPU)
        share = np.zeros(len(scene.targets))
        names = [t["name"] for t in scene.targets]
        for k, (i, e) in enumerate(want):
            t = scene.targets[names.index(e[1])]
            points = G.N(group.active_surface_points[k])[:, :3]
            normals = G.N(group.active_surface_normals[k])[:, :3]
            n = O.unit(normals.mean(0))
            mid = points.mean(0)
            out = O.reflect(e[2][:3], n)
            aim = G.aim_point(t)[:3]
            # the reflected direction of the mirror centre passes the aim point of the named target
            d = aim - mid
            miss = np.linalg.norm(np.cross(d, out))
            limit = 0.02 + 3e-3 * np.linalg.norm(d)
            mon.expect(miss <= limit, "named-heliostat-misses-named-target", heliostat=e[0], target=e[1], miss=miss, limit=limit)
            place = np.linalg.norm(mid - spec.positions[i, :3])
            mon.expect(place < 2.0, "row-belongs-to-another-heliostat", heliostat=e[0], distance=place)
            share[names.index(e[1])] += float(flux[k].sum())
            mon.observe(f"end|{spec.kind}|{t['type']}|{min(len(want), 4)}")
            mon.count("samples followed to their target")
        mon.close(per_target.sum(dim=(1, 2)), share, "flux-on-named-targets", rtol=1e-4, atol=1e-4)


CHECK.require("mappings with repeated heliostats", 60)
CHECK.require("rejected requests", 100)
CHECK.require("requests after other requests", 200)
CHECK.require("samples followed to their target", 100)
