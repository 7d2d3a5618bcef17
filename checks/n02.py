"""N02 - mirror surfaces are built facet by facet from their own configuration."""

import numpy as np
import torch

from vlib import gen as G
from vlib import h5 as H
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "N02",
    rule="one evaluation = all facets of one loaded or updated heliostat surface compared with their configuration; distinct = "
    "(monitor, actuator kind, facets, flat or fitted, evaluation grid, degrees); non-trivial = all",
    assumptions=[
        "the extent of an ideal facet equals its canting vectors up to 1e-3 of their length (cantings of a few hundredths)",
        "surfaces are recomputed on square evaluation grids, the only ones the update can reproduce",
    ],
)


def facets_of(group, i):
    F = group.number_of_facets_per_heliostat
    return G.N(group.surface_points)[i].reshape(F, -1, 4), G.N(group.surface_normals)[i].reshape(F, -1, 4)


def grid_normals(p, shape):
    """Front-side unit normals from finite differences of a facet's point grid, at the inner points."""
    x = p[:, :3].reshape(shape + (3,))
    de, dn = x[2:, 1:-1] - x[:-2, 1:-1], x[1:-1, 2:] - x[1:-1, :-2]
    return O.unit(np.cross(de, dn))


def ideal_facet(mon, p, n, canting, translation, corners, **who):
    """Planar rectangle through the translation, spanned by the canting vectors, normals on the front side."""
    e, v = canting[0, :3], canting[1, :3]
    normal = O.unit(np.cross(e, v))
    size = max(np.linalg.norm(e), np.linalg.norm(v))
    rel = p[:, :3] - translation[:3]
    mon.close(rel @ normal, np.zeros(len(p)), "facet-not-in-its-plane", atol=1e-5 + 1e-3 * size * 1e-2, **who)
    mon.close(n[:, :3], np.tile(normal, (len(n), 1)), "facet-normal", atol=1e-4, **who)
    mon.expect(normal[2] > 0 and (n[:, 2] > 0).all(), "facet-normal-backwards", **who)
    a = rel @ O.unit(e) / np.linalg.norm(e)
    b = rel @ O.unit(v) / np.linalg.norm(v)
    # the grid covers the facet from border to border
    slack = 5e-3
    mon.close([a.min(), a.max(), b.min(), b.max()], [-1, 1, -1, 1], "facet-extent", atol=slack, **who)
    mon.close(rel.mean(0) if corners else 0.5 * (rel.max(0) + rel.min(0)), np.zeros(3), "facet-center", atol=5e-3 * size, **who)


def unit_and_perpendicular(mon, p, n, shape, tol, **who):
    mon.close(np.linalg.norm(n[:, :3], axis=1), np.ones(len(n)), "normal-length", atol=2e-5, **who)
    mon.close(n[:, 3], np.zeros(len(n)), "normal-not-a-direction", **who)
    mon.close(p[:, 3], np.ones(len(p)), "point-not-a-point", **who)
    mon.expect((n[:, 2] > 0).all(), "normal-on-the-back", **who)
    if min(shape) >= 5:
        got = n[:, :3].reshape(shape + (3,))[1:-1, 1:-1]
        cos = (got * grid_normals(p, shape)).sum(-1)
        mon.expect((cos > np.cos(tol)).all(), "normal-not-perpendicular", worst=float(np.arccos(np.clip(cos.min(), -1, 1))), **who)


def loaded(mon, c, points, change=None):
    with H.scenario_file(c) as path:
        with mon.code("loading the scenario file"):
            return H.load(path, points, change)


def each(c, scenario):
    index = {h["name"]: h for h in c.heliostats}
    for g in scenario.heliostat_field.heliostat_groups:
        for i, name in enumerate(g.names):
            yield g, i, index[name], H.expected_heliostat(c, index[name])


@CHECK.family(quick=90, thorough=1500, chunk=4)
def load(mon, rng):
    """Ideal facets are canted and placed, fitted ones are only placed."""
    fitted = [None, True, False][int(rng.integers(3))]
    c = H.random_config(rng, heliostats=(1, 4), fitted=fitted)
    points = tuple(int(v) for v in rng.integers(2, 9, 2))
    scenario = loaded(mon, c, points)
    for g, i, h, e in each(c, scenario):
        p, n, flat = H.expected_surface(e, points)
        who = dict(name=h["name"], flat=flat, facets=len(p))
        got_p, got_n = facets_of(g, i)
        if not mon.expect(got_p.shape == p.shape, "surface-shape", got=got_p.shape, want=p.shape, **who):
            continue
        stored = G.N(g.facet_translations)[i]
        for f in range(len(p)):
            k = int(np.abs(e["translations"] - stored[f]).max(1).argmin())
            mon.close(got_p[f], p[k], "facet-points", atol=2e-5, facet=f, **who)
            mon.close(got_n[f], n[k], "facet-normals", atol=1e-4, facet=f, **who)
            unit_and_perpendicular(mon, got_p[f], got_n[f], points, 0.06, facet=f, **who)
            if flat:
                ideal_facet(mon, got_p[f], got_n[f], e["canting"][k], e["translations"][k], False, facet=f, **who)
        mon.count("flat surfaces" if flat else "fitted surfaces")
        mon.observe(f"load|{e['kind']}|{len(p)}|{flat}|{points}|{e['degrees']}", sample=who)


@CHECK.family(quick=60, thorough=800, chunk=4)
def recompute(mon, rng):
    """Recomputing the surfaces from unchanged control points on the same grid changes nothing."""
    c = H.random_config(rng, heliostats=(1, 4), fitted=bool(rng.random() < 0.3), facets=int(rng.choice([1, 2, 4, 7])))
    k = int(rng.integers(2, 8))
    scenario = loaded(mon, c, (k, k))
    field = scenario.heliostat_field
    before = [(G.N(g.surface_points), G.N(g.surface_normals)) for g in field.heliostat_groups]
    with mon.code("recomputing the surfaces", points=k):
        field.update_surfaces(device=G.CPU)
    for (p, n), g in zip(before, field.heliostat_groups):
        q, m = G.N(g.surface_points), G.N(g.surface_normals)
        if not mon.expect(q.shape == p.shape and m.shape == n.shape, "recomputed-shape", got=q.shape, want=p.shape):
            continue
        flat = [bool((G.N(g.nurbs_control_points)[i][..., 2] == 0).all()) for i in range(len(p))]
        for i in range(len(p)):
            if flat[i]:
                mon.close(q[i], p[i], "recomputed-points", atol=2e-5)
                mon.close(m[i], n[i], "recomputed-normals", atol=1e-4)
                mon.count("recomputed flat surfaces")
            else:
                # known defect: the update applies canting and translation to control points that already contain them
                control = G.N(g.nurbs_control_points)[i]
                tp, tn = O.heliostat_surface(control, [int(d) for d in g.nurbs_degrees], G.N(g.canting)[i],
                                             G.N(g.facet_translations)[i], k, k)
                if not (np.abs(q[i] - p[i]).max() <= 2e-5 and np.abs(m[i] - n[i]).max() <= 1e-4):
                    twice = np.abs(q[i] - tp).max() <= 3e-5 and np.abs(m[i] - tn).max() <= 2e-4
                    mon.violation("fitted-surface-placed-twice-by-update" if twice else "recomputed-fitted-surface",
                                  worst=float(np.abs(q[i] - p[i]).max()), points=k)
                mon.count("recomputed fitted surfaces")
            mon.observe(f"recompute|{flat[i]}|{k}|{g.number_of_facets_per_heliostat}")


@CHECK.family(quick=60, thorough=800, chunk=4)
def deform(mon, rng):
    """Changed control points of flat-stored heliostats appear, canted and placed, in exactly those heliostats."""
    n_groups = int(rng.integers(1, 3))
    k = int(rng.integers(2, 7))
    specs, kinds = [], ["linear", "ideal"]
    for g in range(n_groups):
        specs.append(G.group_spec(rng, int(rng.integers(1, 5)), kind=kinds[g], facets=int(rng.choice([1, 2, 4])), k=k,
                                  net=tuple(int(v) for v in rng.integers(4, 7, 2)),
                                  degrees=tuple(int(v) for v in rng.integers(1, 4, 2)), prefix=f"g{g}h", bump=0.0))
    scene = G.Scene(specs, G.planar_targets(rng, 1), [], G.StubLight(1))
    current = [s.control.copy() for s in specs]
    for step in range(int(rng.integers(1, 5))):
        for s, g, control in zip(specs, scene.groups, current):
            how = str(rng.choice(["new tensor", "in place", "one heliostat in place", "unchanged"], p=[.4, .3, .2, .1]))
            if how == "unchanged" and step:
                continue
            chosen = rng.random(s.n) < 0.7
            if how == "one heliostat in place":
                chosen = np.arange(s.n) == rng.integers(s.n)
            for i in np.flatnonzero(chosen):
                control[i, ..., 2] += G.f32(rng.normal(0, 3e-3, control[i, ..., 2].shape))
                if rng.random() < 0.3:
                    control[i, ..., :2] += G.f32(rng.normal(0, 1e-3, control[i, ..., :2].shape))
            control[:] = G.f32(control)
            if how == "new tensor":
                g.nurbs_control_points = G.T(control)
            else:
                with torch.no_grad():
                    g.nurbs_control_points.copy_(G.T(control))
                mon.count("nets changed in place")
        with mon.code("recomputing the surfaces", points=k, step=step):
            scene.scenario.heliostat_field.update_surfaces(device=G.CPU)
        for s, g, control in zip(specs, scene.groups, current):
            for i in range(s.n):
                p, n = O.heliostat_surface(control[i], s.degrees, s.canting[i], s.translations[i], k, k)
                who = dict(group=s.kind, heliostat=i, degrees=s.degrees, points=k, step=step)
                mon.close(G.N(g.surface_points)[i], p, "deformed-points", atol=3e-5, **who)
                if min(s.degrees) > 1:
                    mon.close(G.N(g.surface_normals)[i], n, "deformed-normals", atol=2e-4, **who)
                mon.observe(f"deform|{s.kind}|{s.facets}|{s.degrees}|{k}|{step}")
            mon.close(g.nurbs_control_points, control, "control-points-changed")
    mon.count("deformed fields")


@CHECK.family(quick=40, thorough=400, chunk=4)
def resized(mon, rng):
    """Loading with another number of control points keeps the mirrors and stores flat nets of the requested size."""
    c = H.random_config(rng, heliostats=(1, 3), fitted=False, facets=int(rng.choice([1, 4])))
    change = tuple(int(v) for v in rng.integers(4, 10, 2))
    k = int(rng.integers(2, 7))
    scenario = loaded(mon, c, (k, k), change)
    with mon.code("recomputing the surfaces"):
        scenario.heliostat_field.update_surfaces(device=G.CPU)
    for g, i, h, e in each(c, scenario):
        net = G.N(g.nurbs_control_points)[i]
        if not mon.expect(net.shape == (c.facets,) + change + (3,), "resized-net-shape", got=net.shape, want=change):
            continue
        p, n = facets_of(g, i)
        stored = G.N(g.facet_translations)[i]
        for f in range(c.facets):
            q = int(np.abs(e["translations"] - stored[f]).max(1).argmin())
            ideal_facet(mon, p[f], n[f], e["canting"][q], e["translations"][q], False, facet=f, resized=True)
            mon.close(net[f][..., 2], np.zeros(change), "resized-net-not-flat")
        mon.observe(f"resized|{change}|{k}|{c.facets}")
    mon.count("resized fields")


CHECK.require("flat surfaces", 60)
CHECK.require("fitted surfaces", 60)
CHECK.require("recomputed flat surfaces", 60)
CHECK.require("deformed fields", 50)
CHECK.require("nets changed in place", 30)
CHECK.require("resized fields", 30)
