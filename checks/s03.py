"""S03 - calibration data reach the optimiser complete and correctly assigned."""

import json
import pathlib
import shutil
import tempfile

import numpy as np
import torch
from PIL import Image

from artist.io.paint_calibration_parser import PaintCalibrationDataParser
from artist.io.paint_scenario_parser import build_heliostat_data_mapping
from checks.g04 import A, E2
from checks.s02 import scene_of
from vlib import gen as G
from vlib import h5 as H
from vlib.core import Check

CHECK = Check(
    "S03",
    rule="one evaluation = one measurement row delivered to the optimiser and traced back to the file it came from, or one data mapping "
    "built from a directory; distinct = (monitor, centroid method, limit class, file order, image scaling, groups, samples class); "
    "non-trivial = all",
    assumptions=["each heliostat is listed once, with its property files and images in the same order"],
)


class Store:
    """Measurements on disk, every one with distinguishable content."""

    def __init__(self, rng, directory, scene, names, per_heliostat, shape):
        self.dir = pathlib.Path(directory)
        self.by_name = {}
        self.files = {}
        self.scene, self.shape = scene, shape
        ref = np.array([50.91342112259258, 6.387824755874856, 87.0])
        number = 0
        for name in names:
            d = self.dir / name / "Calibration"
            d.mkdir(parents=True)
            items = []
            for _ in range(int(rng.integers(per_heliostat[0], per_heliostat[1] + 1))):
                number += 1
                enu = {m: np.array([rng.uniform(-60, 60), rng.uniform(-60, 60), rng.uniform(-20, 120)]) for m in ("UTIS", "HeliOS")}
                s = np.sin(np.deg2rad(ref[0]))
                rn, rm = A / np.sqrt(1 - E2 * s**2), A * (1 - E2) / (1 - E2 * s**2) ** 1.5
                geo = {m: [ref[0] + np.rad2deg(p[1] / rm), ref[1] + np.rad2deg(p[0] / (rn * np.cos(np.deg2rad(ref[0])))),
                           ref[2] + p[2]] for m, p in enu.items()}
                az, el = rng.uniform(-110, 110), rng.uniform(5, 85)
                a, e = np.deg2rad(az), np.deg2rad(el)
                toward = np.array([np.cos(e) * np.sin(a), -np.cos(e) * np.cos(a), np.sin(e), 0.0])
                t = int(rng.integers(len(scene.targets)))
                item = dict(id=str(100000 + number * 7), target=t, spots=enu, incident=-toward,
                            motor=[int(v) for v in rng.integers(0, 90000, 2)], coefficients=rng.uniform([85, -40, -40], [170, 40, 40]))
                item.update(sun=(az, el), geo=geo)
                item["files"] = (d / f"{item['id']}-calibration-properties.json", d / f"{item['id']}-flux-centered.png")
                self.write(rng, item)
                items.append(item)
            self.by_name[name] = items
            for item in items:
                self.files[str(item["files"][0])] = item

    def write(self, rng, item):
        yy, xx = np.mgrid[0 : self.shape[0], 0 : self.shape[1]]
        img = self.image(item, (xx + 0.5) / self.shape[1], (yy + 0.5) / self.shape[0])
        item["noise"] = rng.integers(0, 4, self.shape)
        item["pixels"] = np.clip(np.rint(img) + item["noise"], 0, 255).astype(np.uint8)
        Image.fromarray(item["pixels"]).save(item["files"][1])
        item["files"][0].write_text(json.dumps(dict(
            motor_position=dict(axis_1_motor_position=item["motor"][0], axis_2_motor_position=item["motor"][1]),
            target_name=self.scene.targets[item["target"]]["name"], sun_elevation=item["sun"][1], sun_azimuth=item["sun"][0],
            focal_spot=item["geo"])))

    def rewrite(self, rng):
        """Some measurements are taken again, under the same file names."""
        for items in self.by_name.values():
            for item in items:
                if rng.random() < 0.5:
                    item.update(motor=[int(v) for v in rng.integers(0, 90000, 2)], coefficients=rng.uniform([85, -40, -40], [170, 40, 40]),
                                target=int(rng.integers(len(self.scene.targets))))
                    self.write(rng, item)

    @staticmethod
    def image(item, x, y):
        c = item["coefficients"]
        return c[0] + c[1] * x + c[2] * y


def random_store(rng, directory, per_heliostat=(0, 4)):
    scene = scene_of(rng)
    known = [n for s in scene.specs for n in s.names]
    strangers = H.words(rng, int(rng.integers(0, 3)), prefix="x_")
    listed = [n for n in known if rng.random() < 0.85] + strangers
    shape = (int(rng.integers(4, 24)), int(rng.integers(4, 24)))
    return scene, Store(rng, directory, scene, listed, per_heliostat, shape), listed, shape


@CHECK.family(quick=120, thorough=2000, chunk=5)
def rows(mon, rng):
    directory = tempfile.mkdtemp()
    try:
        _rows(mon, rng, directory)
    finally:
        shutil.rmtree(directory)


def _rows(mon, rng, directory):
    scene, store, listed, shape = random_store(rng, directory)
    method = str(rng.choice(["UTIS", "HeliOS"]))
    limit = None if rng.random() < 0.5 else int(rng.integers(1, 4))
    with mon.code("creating the parser"):
        parser = PaintCalibrationDataParser(sample_limit=limit, centroid_extraction_method=method)
    one_round(mon, rng, scene, store, listed, shape, method, limit, parser)
    for _ in range(int(rng.integers(3))):
        # asked again with other orders and resolutions, sometimes after measurements were replaced
        if rng.random() < 0.6:
            store.rewrite(rng)
        one_round(mon, rng, scene, store, listed, shape, method, limit, parser)
        mon.count("parsers asked again")


def one_round(mon, rng, scene, store, listed, shape, method, limit, parser):
    names = [listed[i] for i in rng.permutation(len(listed))]
    mapping, order = [], {}
    for n in names:
        items = [store.by_name[n][i] for i in rng.permutation(len(store.by_name[n]))]
        order[n] = items[:limit] if limit else items
        mapping.append((n, [i["files"][0] for i in items], [i["files"][1] for i in items]))
    scaled = bool(rng.random() < 0.4)
    res = (int(rng.integers(3, 24)), int(rng.integers(3, 24))) if scaled else (shape[1], shape[0])  # width, height
    scaled = res != (shape[1], shape[0])
    delivered = 0
    for g, group in enumerate(scene.groups):
        with mon.code("parsing calibration data", limit=limit, heliostats=len(mapping)):
            flux, spots, incident, motors, mask, idx = parser.parse_data_for_reconstruction(
                heliostat_data_mapping=mapping, heliostat_group=group, scenario=scene.scenario,
                bitmap_resolution=torch.tensor(res), device=G.CPU)
        spec = scene.specs[g]
        want = [(n, item) for n in spec.names for item in order.get(n, [])]
        mon.close(mask, [len(order.get(n, [])) for n in spec.names], "mask", group=g, limit=limit)
        sizes = [len(x) for x in (flux, spots, incident, motors, idx)]
        if not mon.expect(sizes == [len(want)] * 5 and tuple(flux.shape[1:]) == (res[1], res[0]), "row-count", sizes=sizes,
                          want=len(want), shape=list(flux.shape), resolution=res):
            continue
        delivered += len(want)
        for k, (n, item) in enumerate(want):
            who = dict(heliostat=n, row=k, method=method)
            mon.close(motors[k], item["motor"], "motor-positions", **who)
            mon.close(idx[k], item["target"], "target-index", **who)
            mon.close(G.N(incident[k]), item["incident"], "incident-direction", atol=2e-5, **who)
            mon.close(G.N(spots[k]), np.append(item["spots"][method], 1.0), "focal-spot", atol=5e-3, **who)
            if not scaled:
                mon.close(G.N(flux[k]), item["pixels"] / 255.0, "flux-image", atol=1e-6, **who)
            else:
                # a tilted plane survives resampling up to the added noise of at most three grey values and the border
                x = (np.arange(res[0]) + 0.5) / res[0]
                y = (np.arange(res[1]) + 0.5) / res[1]
                ideal = Store.image(item, x[None, :], y[:, None])
                slack = 4.5 + np.abs(item["coefficients"][1:]).sum() * 0.5 * (1 / min(shape) + 1 / min(res))
                mon.close(G.N(flux[k]) * 255.0 - 1.5, ideal, "scaled-flux-image", atol=slack, **who)
            mon.observe(f"rows|{method}|{limit}|{scaled}|{len(scene.groups)}|{min(len(want), 5)}",
                        sample=dict(who, limit=limit, resolution=res, image=shape))
        if limit and any(len(store.by_name[n]) > limit for n in spec.names if n in store.by_name):
            mon.count("limited groups")
    known = {n for s in scene.specs for n in s.names}
    mon.expect(delivered == sum(len(v) for n, v in order.items() if n in known), "measurements-lost-or-invented")
    if any(n not in known for n in names):
        mon.count("mappings with foreign heliostats")


@CHECK.family(quick=60, thorough=600, chunk=5)
def directories(mon, rng):
    """Building the mapping from a directory pairs the files of one measurement and depends only on the seed."""
    directory = tempfile.mkdtemp()
    try:
        _directories(mon, rng, directory)
    finally:
        shutil.rmtree(directory)


def _directories(mon, rng, directory):
    scene, store, listed, _ = random_store(rng, directory, per_heliostat=(0, 7))
    asked = [listed[i] for i in rng.permutation(len(listed))] + ["has_no_directory"]
    usable = {}
    for n in listed:
        usable[n] = set()
        for item in store.by_name[n]:
            if rng.random() < 0.2:
                item["files"][1].unlink()
            else:
                usable[n].add(item["id"])
    number, randomize, seed = int(rng.integers(1, 6)), bool(rng.random() < 0.7), int(rng.integers(1000))

    def build(base, randomize=randomize, seed=seed):
        return build_heliostat_data_mapping(base_path=str(base), heliostat_names=asked, number_of_measurements=number,
                                            image_variant="flux-centered", randomize=randomize, seed=seed)

    with mon.code("building the data mapping"):
        got = build(directory)
    want_names = [n for n in asked if usable.get(n)]
    mon.expect([m[0] for m in got] == want_names, "mapping-heliostats", got=[m[0] for m in got], want=want_names)
    for name, props, images in got:
        ids = [p.name.split("-")[0] for p in props]
        mon.expect(ids == [p.name.split("-")[0] for p in images], "mapping-pairs-wrong-files", name=name)
        mon.expect(all(p.parent.parent.name == name for p in list(props) + list(images)), "mapping-of-another-heliostat", name=name)
        mon.expect(all(p.exists() for p in list(props) + list(images)), "mapping-missing-file", name=name)
        mon.expect(len(set(ids)) == len(ids) == min(number, len(usable[name])) and set(ids) <= usable[name], "mapping-selection",
                   name=name, got=ids, usable=sorted(usable[name]), number=number)
        mon.observe(f"directories|{randomize}|{number}|{min(len(usable[name]), 4)}")
    # an equal directory whose files were created in another order
    copy = pathlib.Path(directory) / "copy"
    for n in listed:
        source = pathlib.Path(directory) / n / "Calibration"
        target = copy / n / "Calibration"
        target.mkdir(parents=True)
        files = sorted(source.iterdir())
        for i in rng.permutation(len(files)):
            shutil.copy(files[i], target / files[i].name)
    with mon.code("building the data mapping again"):
        again = build(copy)

    def names(m):
        return [(n, [p.name for p in a], [p.name for p in b]) for n, a, b in m]

    mon.expect(names(got) == names(again), "mapping-depends-on-file-system-order", first=names(got), second=names(again))
    mon.count("directories")
    seeds = [seed + 1 + int(v) for v in rng.integers(0, 10**6, 14)]
    with mon.code("building the data mapping with other seeds"):
        fixed = {str(names(build(directory, False, s))) for s in seeds[:3]}
        drawn = [build(directory, True, s) for s in seeds]
    mon.expect(len(fixed) == 1, "selection-depends-on-the-seed-without-randomisation", number=number)
    for i, (name, props, _) in enumerate(drawn[0]):
        if len(usable[name]) >= 3 and number >= 2:  # at least 6 equally likely outcomes, 14 draws
            mon.count("selections that have to vary with the seed")
            mon.expect(len({tuple(p.name for p in m[i][1]) for m in drawn}) > 1, "selection-does-not-depend-on-the-seed", name=name, usable=len(usable[name]), number=number)


CHECK.require("limited groups", 20)
CHECK.require("mappings with foreign heliostats", 20)
CHECK.require("directories", 40)
CHECK.require("parsers asked again", 60)
CHECK.require("selections that have to vary with the seed", 20)
