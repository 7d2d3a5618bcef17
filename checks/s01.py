"""S01 - scenario files restore the configuration they were generated from."""

import pathlib
import tempfile

import numpy as np
import torch

from artist.scenario.scenario import Scenario
from vlib import gen as G
from vlib import h5 as H
from vlib.core import Check

CHECK = Check(
    "S01",
    rule="one evaluation = one heliostat, target area or light source of a loaded scenario compared with the configuration it was "
    "generated from, or one invalid configuration that had to be rejected; distinct = (what, actuator kind, which parts are individual, "
    "facets, flat or fitted, target counts); non-trivial = all",
    assumptions=[
        "actuators are keyed in their physical order; all heliostats of one group share spline degrees and net sizes",
        "the initial angle of the first linear actuator is stored relative to mirror-up: loading subtracts a quarter turn",
    ],
)


def match_facets(mon, got, want):
    """Facets are identified by their translation; returns the order of the stored facets or None."""
    order = []
    for row in got:
        d = np.abs(want - row).max(1)
        k = int(d.argmin())
        if d[k] > 0 or k in order:
            return None
        order.append(k)
    return order


def check_heliostat(mon, c, h, group, i, points):
    e = H.expected_heliostat(c, h)
    k = group.kinematics
    who = dict(name=h["name"], kind=e["kind"])
    mon.close(G.N(group.positions)[i], e["position"], "heliostat-position", **who)
    mon.close(G.N(k.heliostat_positions)[i], e["position"], "heliostat-position", **who)
    mon.close(G.N(k.translation_deviation_parameters)[i], e["translation_deviations"], "translation-deviations", **who)
    mon.close(G.N(k.rotation_deviation_parameters)[i], e["rotation_deviations"], "rotation-deviations", **who)
    mon.close(G.N(k.initial_orientations)[i], e["orientation"], "initial-orientation", **who)
    mon.close(G.N(k.actuators.non_optimizable_parameters)[i], e["non_optimizable"], "actuator-parameters", rtol=1e-7, **who)
    if e["optimizable"] is not None:
        mon.close(G.N(k.actuators.optimizable_parameters)[i], e["optimizable"], "actuator-initial-values", atol=1e-6, **who)
    mon.expect(tuple(int(v) for v in group.nurbs_degrees) == tuple(e["degrees"]), "degrees", got=group.nurbs_degrees,
               want=e["degrees"], **who)
    F = len(e["control"])
    if not mon.expect(group.number_of_facets_per_heliostat == F, "facet-count", **who):
        return
    order = match_facets(mon, G.N(group.facet_translations)[i], e["translations"])
    if not mon.expect(order is not None, "facet-translations", got=G.N(group.facet_translations)[i], want=e["translations"], **who):
        return
    mon.close(G.N(group.canting)[i], e["canting"][order], "canting", **who)
    mon.close(G.N(group.nurbs_control_points)[i], e["control"][order], "control-points", **who)
    p, n, flat = H.expected_surface(e, points)
    got_p = G.N(group.surface_points)[i].reshape(F, -1, 4)
    got_n = G.N(group.surface_normals)[i].reshape(F, -1, 4)
    mon.close(got_p, p[order], "surface-points", atol=2e-5, **who)
    mon.close(got_n, n[order], "surface-normals", atol=1e-4, **who)
    own = "".join(part[0] for part in ("surface", "kinematics", "actuators") if h[part])
    mon.observe(f"heliostat|{e['kind']}|{own}|{F}|{flat}", sample=dict(name=h["name"], own=own, facets=F, flat=flat))
    mon.count("heliostats with own parts" if own else "heliostats from the prototype")


def judge(mon, c, scenario, points):
    mon.close(scenario.power_plant_position, c.position, "power-plant-position")
    tower = scenario.solar_tower
    names = {}
    for area, kind in zip(tower.target_areas, ("planar", "cylindrical")):
        want = c.planar if kind == "planar" else c.cylindrical
        if not mon.expect(sorted(area.names) == sorted(t["name"] for t in want), "target-names", got=list(area.names), kind=kind):
            continue
        for k, name in enumerate(area.names):
            t = next(t for t in want if t["name"] == name)
            names[name] = t
            mon.close(G.N(area.centers)[k], t["center"], "target-center", name=name)
            mon.close(G.N(area.normals)[k], t["normal"], "target-normal", name=name)
            if kind == "planar":
                mon.close(G.N(area.dimensions)[k], t["dims"], "target-dimensions", name=name)
            else:
                mon.close(G.N(area.axes)[k], t["axis"], "target-axis", name=name)
                mon.close([float(area.radii[k]), float(area.heights[k]), float(area.opening_angles[k])],
                          [t["radius"], t["height"], t["opening"]], "target-cylinder", rtol=1e-7, name=name)
            mon.observe(f"target|{kind}|{len(want)}")
    mon.expect(set(tower.target_name_to_index) == set(names), "target-index")
    sources = scenario.light_sources.light_source_list
    if mon.expect(len(sources) == 1, "light-sources"):
        s = sources[0]
        mon.expect(s.number_of_rays == c.light["rays"], "ray-count", got=s.number_of_rays, want=c.light["rays"])
        mon.close([s.distribution_parameters["mean"], s.distribution_parameters["covariance"]],
                  [c.light["mean"], c.light["covariance"]], "sun-parameters", rtol=1e-12)
        mon.close(s.distribution.mean, [c.light["mean"]] * 2, "sun-mean", rtol=1e-6)
        mon.close(s.distribution.covariance_matrix, np.eye(2) * c.light["covariance"], "sun-covariance", rtol=1e-5)
        mon.observe(f"light|{c.light['rays']}")
    groups = scenario.heliostat_field.heliostat_groups
    want = H.by_kind(c)
    got_names = [n for g in groups for n in g.names]
    mon.expect(sorted(got_names) == sorted(h["name"] for h in c.heliostats), "heliostats-lost-or-duplicated", got=got_names)
    mon.expect(len(groups) == len(want) == scenario.heliostat_field.number_of_heliostat_groups, "group-count", got=len(groups),
               want=sorted(want))
    index = {h["name"]: h for h in c.heliostats}
    for g in groups:
        kinds = {H.effective(c, index[n])["actuators"]["kind"] for n in g.names if n in index}
        if not mon.expect(len(kinds) == 1, "group-mixes-actuators", got=sorted(kinds)):
            continue
        mon.expect(g.number_of_heliostats == len(g.names), "group-size")
        for i, n in enumerate(g.names):
            if n in index:
                check_heliostat(mon, c, index[n], g, i, points)
    if len(groups) == 2:
        mon.count("scenarios with two groups")


@CHECK.family(quick=120, thorough=2500, chunk=4)
def round_trip(mon, rng):
    c = H.random_config(rng, same_degrees=bool(rng.random() < 0.5), complete=bool(rng.random() < 0.7))
    points = tuple(int(v) for v in rng.integers(2, 5, 2))
    with mon.code("generating the scenario file"):
        ctx = H.scenario_file(c)
        path = ctx.__enter__()
    try:
        with mon.code("loading the scenario file", planar=len(c.planar), cylindrical=len(c.cylindrical)):
            scenario = H.load(path, points)
            count = Scenario.get_number_of_heliostat_groups_from_hdf5(path)
        mon.expect(int(count) == len(H.by_kind(c)), "stored-group-count", got=int(count), want=len(H.by_kind(c)))
        judge(mon, c, scenario, points)
        if rng.random() < 0.3:
            with mon.code("loading the scenario file twice"):
                again = H.load(path, points)
            for a, b in zip(scenario.heliostat_field.heliostat_groups, again.heliostat_field.heliostat_groups):
                mon.expect(a.names == b.names and torch.equal(a.surface_points, b.surface_points)
                           and torch.equal(a.nurbs_control_points, b.nurbs_control_points), "second-load-differs")
            mon.count("second loads")
    finally:
        ctx.__exit__(None, None, None)


@CHECK.family(quick=40, thorough=400, chunk=4)
def file_names(mon, rng):
    """Whatever the given suffix, one HDF5 file appears; generating again replaces all that an older file contained."""
    suffix = ("", ".h5", ".hdf5", ".json")[int(rng.integers(4))]
    with tempfile.TemporaryDirectory() as d:
        path = pathlib.Path(d) / (H.word(rng) + suffix)
        final = path.with_suffix(".h5")
        for _ in range(int(rng.integers(1, 4))):
            c = H.random_config(rng, heliostats=(1, 4), facets=1, same_degrees=True)
            with mon.code("generating the scenario file", suffix=suffix):
                H.generator(c, path).generate_scenario()
            mon.expect([p.name for p in pathlib.Path(d).iterdir()] == [final.name], "file-name", suffix=suffix,
                       got=[p.name for p in pathlib.Path(d).iterdir()])
            with mon.code("loading the scenario file"):
                scenario = H.load(final, (2, 2))
            judge(mon, c, scenario, (2, 2))
            text = str(scenario)
            mon.expect(all(str(n) in text for n in (len(c.planar) + len(c.cylindrical), len(c.heliostats))), "description", got=text)
            mon.count("files generated")
    mon.observe(f"name|{suffix}")


@CHECK.family(quick=30, thorough=400, chunk=4)
def many_heliostats(mon, rng):
    c = H.random_config(rng, heliostats=(15, 40), facets=2, net=(4, 4), same_degrees=True)
    with H.scenario_file(c) as path:
        with mon.code("loading the scenario file"):
            scenario = H.load(path, (2, 2))
    judge(mon, c, scenario, (2, 2))


@CHECK.family(quick=30, thorough=300, chunk=4)
def rejected(mon, rng):
    """Configurations that cannot be represented are refused instead of being loaded as something else."""
    c = H.random_config(rng, heliostats=(2, 4), facets=4, individual=True)
    h = c.heliostats[int(rng.integers(len(c.heliostats)))]
    kind = int(rng.integers(3))
    if kind == 0:
        h["surface"] = h["surface"][:int(rng.integers(1, 4))]
    elif kind == 1:
        h["actuators"]["items"] = h["actuators"]["items"][:1]
    else:
        h["actuators"]["items"].append(dict(h["actuators"]["items"][0], key="actuator_3"))
    refused = False
    try:
        with H.scenario_file(c) as path:
            H.load(path, (2, 2))
    except ValueError:
        refused = True
    mon.expect(refused, "invalid-configuration-accepted", kind=["facet number", "missing actuator", "surplus actuator"][kind])
    mon.observe(f"rejected|{kind}")
    mon.count("rejected configurations")


CHECK.require("heliostats with own parts", 200)
CHECK.require("heliostats from the prototype", 60)
CHECK.require("scenarios with two groups", 30)
CHECK.require("rejected configurations", 25)
