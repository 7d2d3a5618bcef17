"""Random scenario configurations, the HDF5 files generated from them and the field they have to restore."""

from __future__ import annotations

import contextlib
import copy
import pathlib
import string
import tempfile

import h5py
import numpy as np
import torch

import artist.field  # noqa: F401  (import order)
from artist.scenario.h5_scenario_generator import H5ScenarioGenerator
from artist.scenario.scenario import Scenario
from artist.scenario.surface_generator import SurfaceGenerator
from artist.util import config as C

from . import gen as G
from . import oracle as O

TRANSLATIONS = ["first_joint_translation_e", "first_joint_translation_n", "first_joint_translation_u",
                "second_joint_translation_e", "second_joint_translation_n", "second_joint_translation_u",
                "concentrator_translation_e", "concentrator_translation_n", "concentrator_translation_u"]
ROTATIONS = ["first_joint_tilt_n", "first_joint_tilt_u", "second_joint_tilt_e", "second_joint_tilt_n"]


def word(rng, n=6):
    return "".join(rng.choice(list(string.ascii_letters + string.digits + "_-"), n))


def words(rng, n, prefix=""):
    out = []
    while len(out) < n:
        w = prefix + word(rng, int(rng.integers(3, 9)))
        if w not in out:
            out.append(w)
    return out


def t32(x):
    return torch.tensor(np.asarray(x), dtype=torch.float32)


# --------------------------------------------------------------------------- parts
def surface(rng, facets, net, degrees, fitted, layout=None):
    """Specification of one heliostat surface: list of facet dicts."""
    half = (rng.uniform(0.5, 1.5), rng.uniform(0.4, 1.2))
    canting, translation = G.facet_layout(rng, facets, half, rng.uniform(40, 200), jitter=2e-3)
    canting, translation = G.echo(rng, canting, axes=1, p=0.2), translation
    flat = int(rng.integers(facets)) if fitted and facets > 1 and rng.random() < 0.3 else None
    out = []
    ideal = None
    if not fitted:
        cfg = SurfaceGenerator(torch.tensor(net), torch.tensor(degrees), device=G.CPU).generate_ideal_surface_config(
            t32(translation), t32(canting), device=G.CPU)
        ideal = [G.N(f.control_points) for f in cfg.facet_list]
    for f in range(facets):
        if fitted:
            cp = G.control_net(rng, 1, net, half, bump=2e-3)[0] + translation[f, :3]
            if f == flat:  # one facet of a measured mirror may well lie in the plane of the heliostat
                cp[..., 2] = 0.0
        else:
            cp = ideal[f]
        out.append(dict(control=G.f32(cp), degrees=tuple(int(d) for d in degrees), translation=G.f32(translation[f]),
                        canting=G.f32(canting[f])))
    return out


def surface_config(spec, cls=C.SurfaceConfig):
    return cls(facet_list=[C.FacetConfig(
        facet_key=f"facet_{k + 1}", control_points=t32(f["control"]), degrees=torch.tensor(f["degrees"]),
        translation_vector=t32(f["translation"]), canting=t32(f["canting"])) for k, f in enumerate(spec)])


def kinematics(rng):
    mode = int(rng.integers(3))  # none, some, all
    out = {}
    for key in TRANSLATIONS + ROTATIONS:
        if mode == 2 or (mode == 1 and rng.random() < 0.5):
            out[key] = float(np.float32(rng.uniform(-0.3, 0.3) if key in TRANSLATIONS else rng.uniform(-0.03, 0.03)))
    return dict(deviations=out if mode else None,
                orientation=G.f32(np.append(O.unit(rng.normal(0, 1, 3)), 0.0)) if rng.random() < 0.3 else np.array([0.0, -1, 0, 0]))


def kinematics_config(spec, cls=C.KinematicsConfig):
    dev = None
    if spec["deviations"] is not None:
        dev = C.KinematicsDeviations(**{k: torch.tensor(v) for k, v in spec["deviations"].items()})
    return cls(kinematics_type="rigid_body", initial_orientation=t32(spec["orientation"]), deviations=dev)


def actuators(rng, kind, complete=True):
    a = G.actuators(rng, 1, kind)[0]
    out = dict(kind=kind, items=[])
    keys = ["actuator_1", "actuator_2"]
    for k in range(2):
        item = dict(key=keys[k], clockwise=bool(a["clockwise"][k]) if kind == "linear" else bool(rng.integers(2)),
                    min=float(np.float32(a["min"][k] + rng.uniform(0, 5))), max=float(np.float32(a["max"][k] + rng.uniform(0, 5))))
        if kind == "linear":
            item["parameters"] = {}
            for name, key in (("increment", "increment"), ("offset", "offset"), ("pivot_radius", "pivot"),
                              ("initial_stroke_length", "initial_stroke"), ("initial_angle", "initial_angle")):
                if complete or rng.random() < 0.7:
                    v = float(a[key][k])
                    if name == "initial_angle" and k == 0:
                        v = float(np.float32(v + np.pi / 2))  # loading measures the first actuator from mirror-up
                    item["parameters"][name] = v
        out["items"].append(item)
    return out


def actuators_config(spec, cls=C.ActuatorListConfig):
    return cls(actuator_list=[C.ActuatorConfig(
        key=i["key"], actuator_type=spec["kind"], clockwise_axis_movement=i["clockwise"],
        min_max_motor_positions=[i["min"], i["max"]],
        parameters=None if i.get("parameters") is None else C.ActuatorParameters(
            **{k: torch.tensor(v) for k, v in i["parameters"].items()})) for i in spec["items"]])


# --------------------------------------------------------------------------- scenario
class Config:
    pass


def random_config(rng, heliostats=(1, 7), facets=None, planar=(1, 3), cylindrical=(0, 2), fitted=None, complete=True,
                  individual=None, net=None, degrees=None, kinds=("linear", "ideal"), same_degrees=True, layout_near=35.0):
    c = Config()
    c.position = np.array([rng.uniform(-60, 60), rng.uniform(-170, 170), rng.uniform(0, 500)])
    n_p, n_c = int(rng.integers(planar[0], planar[1] + 1)), int(rng.integers(cylindrical[0], cylindrical[1] + 1))
    names = words(rng, n_p + n_c)
    c.planar, c.cylindrical = G.planar_targets(rng, n_p), G.cylinder_targets(rng, n_c)
    for t, name in zip(c.planar + c.cylindrical, names):
        t["name"] = name
    G.round_targets(c.planar)
    G.round_targets(c.cylindrical)
    c.light = dict(name=word(rng), rays=int(rng.integers(1, 5)), mean=float(rng.choice([0.0, 1e-3])),
                   covariance=float(10 ** rng.uniform(-7, -5)))
    F = int(facets if facets is not None else rng.choice([1, 2, 4, 4, 11]))
    c.facets = F
    net = net or tuple(int(v) for v in rng.integers(4, 8, 2))
    degrees = degrees or tuple(int(v) for v in rng.integers(2, 4, 2))
    c.net = {k: net for k in kinds}
    c.degrees = {k: degrees for k in kinds}
    if not same_degrees:
        for k in kinds:
            c.degrees[k] = tuple(int(v) for v in rng.integers(1, 4, 2))
            c.net[k] = tuple(int(v) for v in rng.integers(4, 8, 2))

    def flag(p):
        return bool(rng.random() < p) if individual is None else individual

    def is_fitted():
        return bool(rng.random() < 0.4) if fitted is None else fitted

    proto_kind = str(rng.choice(list(kinds)))
    c.prototype = dict(surface=surface(rng, F, c.net[proto_kind], c.degrees[proto_kind], is_fitted()),
                       kinematics=kinematics(rng), actuators=actuators(rng, proto_kind, complete))
    n = G.size(rng, *heliostats, p=0.03 if heliostats[1] > 4 else 0.0, most=25)
    c.heliostats = []
    positions = G.f32(G.field_positions(rng, n, near=layout_near))
    for i, name in enumerate(words(rng, n)):
        h = dict(name=name, id=int(rng.integers(1, 99999)), position=positions[i], surface=None, kinematics=None, actuators=None)
        if flag(0.5):
            h["kinematics"] = kinematics(rng)
        if flag(0.5):
            h["actuators"] = actuators(rng, str(rng.choice(list(kinds))), complete)
        kind = (h["actuators"] or c.prototype["actuators"])["kind"]
        needs_own = c.degrees[kind] != c.degrees[proto_kind] or c.net[kind] != c.net[proto_kind]
        if needs_own or flag(0.5):
            h["surface"] = surface(rng, F, c.net[kind], c.degrees[kind], is_fitted())
        # equal settings are common in real fields
        other = c.heliostats[int(rng.integers(i))] if i else None
        if other is not None and rng.random() < 0.3:
            if h["kinematics"] and other["kinematics"]:
                h["kinematics"] = copy.deepcopy(other["kinematics"])
            if h["actuators"] and other["actuators"] and h["actuators"]["kind"] == other["actuators"]["kind"]:
                h["actuators"] = copy.deepcopy(other["actuators"])
            if h["surface"] and other["surface"]:
                like = [(f["control"].shape, f["degrees"]) for f in h["surface"]] == [(f["control"].shape, f["degrees"]) for f in other["surface"]]
                bent = all(any(f["control"][..., 2].any() for f in s["surface"]) for s in (h, other))
                if like:
                    for f, g in zip(h["surface"], copy.deepcopy(other["surface"])):
                        if bent and rng.random() < 0.7:  # the same layout with another measured surface
                            g.pop("control")
                        f.update(g)
        c.heliostats.append(h)
    return c


def generator(c, path):
    planar = [C.TargetAreaPlanarConfig(
        target_area_key=t["name"], center=t32(t["center"]), normal_vector=t32(t["normal"]), plane_e=float(t["dims"][0]),
        plane_u=float(t["dims"][1])) for t in c.planar]
    cyl = [C.TargetAreaCylindricalConfig(
        target_area_key=t["name"], radius=t["radius"], center=t32(t["center"]), height=t["height"], axis=t32(t["axis"]),
        normal=t32(t["normal"]), opening_angle=torch.tensor(t["opening"])) for t in c.cylindrical]
    heliostats = [C.HeliostatConfig(
        name=h["name"], heliostat_id=h["id"], position=t32(h["position"]),
        surface=surface_config(h["surface"]) if h["surface"] else None,
        kinematics=kinematics_config(h["kinematics"]) if h["kinematics"] else None,
        actuators=actuators_config(h["actuators"]) if h["actuators"] else None) for h in c.heliostats]
    return H5ScenarioGenerator(
        file_path=pathlib.Path(path),
        power_plant_config=C.PowerPlantConfig(power_plant_position=torch.tensor(c.position, dtype=torch.float64)),
        target_area_list_planar_config=C.TargetAreaPlanarListConfig(planar),
        target_area_list_cylindrical_config=C.TargetAreaCylindricalListConfig(cyl),
        light_source_list_config=C.LightSourceListConfig([C.LightSourceConfig(
            light_source_key=c.light["name"], light_source_type="sun", number_of_rays=c.light["rays"],
            distribution_type="normal", mean=c.light["mean"], covariance=c.light["covariance"])]),
        heliostat_list_config=C.HeliostatListConfig(heliostats),
        prototype_config=C.PrototypeConfig(
            surface_prototype=surface_config(c.prototype["surface"], C.SurfacePrototypeConfig),
            kinematics_prototype=kinematics_config(c.prototype["kinematics"], C.KinematicsPrototypeConfig),
            actuators_prototype=actuators_config(c.prototype["actuators"], C.ActuatorPrototypeConfig)),
    )


@contextlib.contextmanager
def scenario_file(c):
    """Generates the scenario file of a configuration in a scratch directory."""
    with tempfile.TemporaryDirectory() as d:
        path = pathlib.Path(d) / "scenario.h5"
        generator(c, path).generate_scenario()
        yield path


def load(path, points=(3, 3), change=None):
    with h5py.File(path, "r") as f:
        return Scenario.load_scenario_from_hdf5(
            scenario_file=f, number_of_surface_points_per_facet=torch.tensor(points),
            change_number_of_control_points_per_facet=None if change is None else torch.tensor(change), device=G.CPU)


# --------------------------------------------------------------------------- expectations
def effective(c, h):
    return {k: h[k] or c.prototype[k] for k in ("surface", "kinematics", "actuators")}


def by_kind(c):
    out = {}
    for h in c.heliostats:
        out.setdefault(effective(c, h)["actuators"]["kind"], []).append(h)
    return out


def expected_heliostat(c, h):
    e = effective(c, h)
    dev = e["kinematics"]["deviations"] or {}
    a = e["actuators"]
    non = [[1.0 if a["kind"] == "ideal" else 0.0] * 2, [float(i["clockwise"]) for i in a["items"]], [i["min"] for i in a["items"]],
           [i["max"] for i in a["items"]]]
    opt = None
    if a["kind"] == "linear":
        p = [i.get("parameters") or {} for i in a["items"]]
        for key in ("increment", "offset", "pivot_radius"):
            non.append([q.get(key, 0.0) for q in p])
        angle = [q.get("initial_angle", 0.0) for q in p]
        opt = np.array([[angle[0] - np.pi / 2, angle[1]], [q.get("initial_stroke_length", 0.0) for q in p]])
    return dict(
        position=h["position"], translation_deviations=np.array([dev.get(k, 0.0) for k in TRANSLATIONS]),
        rotation_deviations=np.array([dev.get(k, 0.0) for k in ROTATIONS]), non_optimizable=np.array(non), optimizable=opt,
        orientation=e["kinematics"]["orientation"], control=np.stack([f["control"] for f in e["surface"]]),
        canting=np.stack([f["canting"] for f in e["surface"]]), translations=np.stack([f["translation"] for f in e["surface"]]),
        degrees=e["surface"][0]["degrees"], kind=a["kind"])


def facet_order(F):
    """Stored facet order: HDF5 lists facet names alphabetically."""
    return sorted(range(F), key=lambda k: f"facet_{k + 1}")


def expected_surface(x, points):
    """Points and normals of one expected heliostat; flat facets are canted and placed, fitted ones are not."""
    flat = bool((x["control"][..., 2] == 0).all())
    p, n = O.heliostat_surface(x["control"], x["degrees"], x["canting"], x["translations"], points[0], points[1], cant=flat)
    k = points[0] * points[1]
    F = x["control"].shape[0]
    return p.reshape(F, k, 4), n.reshape(F, k, 4), flat
