"""Workload generators: random fields, towers, suns and scenarios built through ARTIST's public constructors."""

from __future__ import annotations

import numpy as np
import torch

from artist.field.heliostat_field import HeliostatField
from artist.field.heliostat_group_rigid_body import HeliostatGroupRigidBody
from artist.field.solar_tower import SolarTower
from artist.field.tower_target_areas_cylindrical import TowerTargetAreasCylindrical
from artist.field.tower_target_areas_planar import TowerTargetAreasPlanar
from artist.scenario.scenario import Scenario
from artist.scene.light_source import LightSource
from artist.scene.light_source_array import LightSourceArray
from artist.scene.sun import Sun

from . import oracle as O

PI = np.pi
CPU = torch.device("cpu")


def T(x):
    return torch.tensor(np.asarray(x), dtype=torch.float32)


def N(x):
    return x.detach().cpu().numpy().astype(np.float64)


class StubLight(LightSource):
    """A light source whose ray distortions are given by the workload (seed independent)."""

    def __init__(self, number_of_rays, scale=2e-3, table=None, seed=0):
        super().__init__(number_of_rays=number_of_rays)
        self.scale, self.table, self.seed = scale, table, seed
        self.same = False  # every heliostat gets the same distortions, in whatever batch or process it is traced
        self.requests = []

    def get_distortions(self, number_of_points, number_of_active_heliostats, random_seed=7):
        shape = (number_of_active_heliostats, self.number_of_rays, number_of_points)
        self.requests.append(shape + (random_seed,))
        if self.table is not None:
            u, e = self.table
            assert u.shape == shape, (u.shape, shape)
            return T(u), T(e)
        rng = np.random.default_rng([self.seed, 77])
        drawn = (1, *shape[1:]) if self.same else shape
        u = np.broadcast_to(rng.normal(0, self.scale, drawn), shape)
        e = np.broadcast_to(rng.normal(0, self.scale, drawn), shape)
        return T(u.copy()), T(e.copy())


# --------------------------------------------------------------------------- tower
def planar_targets(rng, n, height=50.0, spread=8.0, tilt=0.35, turn=0.4, size=(4.0, 10.0)):
    out = []
    for k in range(n):
        az, el = rng.uniform(-turn, turn), rng.uniform(-tilt, tilt * 0.3)
        az, el = plain(rng, [az, el], share=(0.5, 1.1))
        normal = np.array([np.sin(az) * np.cos(el), np.cos(az) * np.cos(el), np.sin(el), 0.0])
        center = np.array([rng.uniform(-spread, spread), rng.uniform(-3, 3), height + rng.uniform(-spread, spread), 1.0])
        out.append(dict(type="planar", name=f"planar_{chr(97 + k)}", center=center, normal=normal,
                        dims=rng.uniform(*size, 2)))
    return out


def cylinder_targets(rng, n, height=50.0, spread=8.0, turn=0.6, tilt=0.15, opening=(1.0, 5.5)):
    out = []
    for k in range(n):
        az = float(plain(rng, rng.uniform(-turn, turn)))
        axis = O.unit(np.array([rng.uniform(-tilt, tilt), rng.uniform(-tilt, tilt), 1.0]))
        if rng.random() < 0.3:
            axis = np.array([0.0, 0.0, 1.0])
        normal = np.array([np.sin(az), np.cos(az), 0.0])
        normal = O.unit(normal - (normal @ axis) * axis)
        out.append(dict(
            type="cylindrical", name=f"cyl_{chr(97 + k)}",
            center=np.array([rng.uniform(-spread, spread), rng.uniform(-3, 3), height + rng.uniform(-spread, spread), 1.0]),
            normal=np.append(normal, 0.0), axis=np.append(axis, 0.0), radius=rng.uniform(2.0, 5.0),
            height=rng.uniform(4.0, 10.0), opening=rng.uniform(*opening),
        ))
    return out


def f32(x):
    """Round through float32 so that the oracle sees exactly the numbers the code sees."""
    return np.asarray(np.asarray(x, np.float32), np.float64)


def size(rng, low, high, p=0.03, most=60):
    """A number in low..high; now and then a crowd, far larger than that: real fields are bigger than any practical example."""
    n = int(rng.integers(low, high + 1))
    return n if rng.random() >= p else int(rng.integers(high + 1, max(most, high + 1) + 1))


def echo(rng, *arrays, axes=1, p=0.4):
    """Copies of the arrays in which, now and then, entries along a leading axis repeat each other: real fields are full of equal
    heliostats, facets and requests, independent random numbers never are."""
    arrays = [np.array(a) for a in arrays]
    if rng.random() >= p:
        return arrays if len(arrays) > 1 else arrays[0]
    for _ in range(int(rng.integers(1, 4))):
        axis = int(rng.integers(axes))
        lead = arrays[0].shape[:axes]
        source = int(rng.integers(lead[axis]))
        chosen = rng.random(lead) < rng.choice([0.4, 0.8, 1.1])
        for a in arrays:
            a[...] = np.where(chosen.reshape(lead + (1,) * (a.ndim - axes)), np.take(a, [source], axis), a)
    return arrays if len(arrays) > 1 else arrays[0]


def plain(rng, a, values=(0.0,), p=0.2, share=(0.2, 1.1)):
    """A copy of the array in which, now and then, some entries are exact special numbers, which random numbers never are."""
    a = np.array(a, float)
    if rng.random() < p:
        a = np.where(rng.random(a.shape) < rng.choice(share), rng.choice(values, a.shape), a)
    return a


def round_targets(targets):
    for t in targets:
        for k, v in t.items():
            if k not in ("type", "name"):
                t[k] = f32(v) if np.ndim(v) else float(np.float32(v))
    return targets


def make_tower(planar, cylindrical):
    """Returns the tower; target dicts are rounded to float32 in place."""
    round_targets(planar)
    round_targets(cylindrical)

    def stack(items, key, width):
        return T(np.stack([t[key] for t in items])) if items else torch.zeros((0, width))

    def flat(items, key):
        return T(np.array([t[key] for t in items])) if items else torch.zeros(0)

    p = TowerTargetAreasPlanar(
        names=[t["name"] for t in planar], centers=stack(planar, "center", 4), normals=stack(planar, "normal", 4),
        dimensions=stack(planar, "dims", 2),
    )
    c = TowerTargetAreasCylindrical(
        names=[t["name"] for t in cylindrical], centers=stack(cylindrical, "center", 4),
        normals=stack(cylindrical, "normal", 4), axes=stack(cylindrical, "axis", 4), radii=flat(cylindrical, "radius"),
        heights=flat(cylindrical, "height"), opening_angles=flat(cylindrical, "opening"),
    )
    return SolarTower([p, c], device=CPU)


def aim_point(target):
    c = target["center"].copy()
    if target["type"] == "cylindrical":
        c = c + target["radius"] * target["normal"]
    c[3] = 1.0
    return c


# --------------------------------------------------------------------------- heliostats
def actuators(rng, n, kind):
    """Per heliostat actuator dictionaries; linear ones reach azimuth +-0.9 rad and the whole first axis."""
    out = []
    for _ in range(n):
        if kind == "ideal":
            out.append(dict(kind="ideal", clockwise=[0, 0], min=[-1e4, -1e4], max=[1e4, 1e4]))
            continue
        offset = rng.uniform(0.30, 0.38, 2)
        pivot = offset * rng.uniform(0.92, 0.98, 2)
        stroke0 = rng.uniform(0.085, 0.13, 2)
        increment = rng.uniform(120000, 180000, 2)
        clockwise = rng.integers(0, 2, 2)
        low = np.array([-PI / 2 - 0.15, -0.95]) + rng.uniform(-0.05, 0.05, 2)
        high = np.array([0.15, 0.95]) + rng.uniform(-0.05, 0.05, 2)
        # extending the stroke opens the triangle: clockwise actuators then turn downwards, others upwards
        initial = np.where(clockwise == 1, high, low)
        top = np.array([O.linear_steps(low[k] if clockwise[k] else high[k], clockwise[k], increment[k], offset[k],
                                       pivot[k], initial[k], stroke0[k]) for k in range(2)])
        out.append(dict(kind="linear", clockwise=[int(c) for c in clockwise], min=[0.0, 0.0],
                        max=[float(v) for v in top * 1.05], increment=f32(increment), offset=f32(offset), pivot=f32(pivot),
                        initial_angle=f32(initial), initial_stroke=f32(stroke0)))
    who = echo(rng, np.arange(n), axes=1, p=0.25)
    return [{k: np.copy(v) if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v for k, v in out[i].items()} for i in who]


def actuator_tensors(acts):
    non, opt = [], []
    for a in acts:
        if a["kind"] == "ideal":
            non.append(np.array([[1.0, 1.0], a["clockwise"], a["min"], a["max"]]))
        else:
            non.append(np.array([[0.0, 0.0], a["clockwise"], a["min"], a["max"], a["increment"], a["offset"], a["pivot"]]))
            opt.append(np.array([a["initial_angle"], a["initial_stroke"]]))
    return T(np.stack(non)), (T(np.stack(opt)) if opt else torch.tensor([]))


def field_positions(rng, n, near=35.0, far=110.0, half_angle=0.7):
    r = rng.uniform(near, far, n)
    a = plain(rng, rng.uniform(-half_angle, half_angle, n))
    return np.stack([r * np.sin(a), r * np.cos(a), plain(rng, rng.uniform(-1.5, 3.0, n)), np.ones(n)], 1)


def facet_layout(rng, facets, half=(0.8, 0.6), focal=80.0, jitter=0.0):
    """Canting vectors (F x 2 x 4) and translations (F x 4) of a 2 x 2 (or single/other) facet heliostat."""
    he, hn = half
    if facets == 4:
        centers = np.array([[-he, hn], [he, hn], [-he, -hn], [he, -hn]]) * 1.02
    elif facets == 1:
        centers = np.zeros((1, 2))
    else:
        cols = int(np.ceil(np.sqrt(facets)))
        centers = np.array([[(k % cols) * 2.04 * he, -(k // cols) * 2.04 * hn] for k in range(facets)])
        centers = centers - centers.mean(0)
    canting, trans = [], []
    for c in centers:
        ae, an = c[0] / (2 * focal), c[1] / (2 * focal)
        if jitter:
            ae, an = ae + rng.normal(0, jitter), an + rng.normal(0, jitter)
        e = np.array([np.cos(ae), 0, np.sin(ae)]) * he
        n = np.array([-np.sin(an) * np.sin(ae), np.cos(an), np.sin(an) * np.cos(ae)]) * hn
        z = (c @ c) / (4 * focal)
        canting.append([np.append(e, 0), np.append(n, 0)])
        trans.append([c[0], c[1], z, 0.0])
    return np.array(canting), np.array(trans)


def control_net(rng, facets, shape, half, bump=0.0):
    """Flat control net of each facet spanning its size, optionally with random heights."""
    u, v = np.linspace(-half[0], half[0], shape[0]), np.linspace(-half[1], half[1], shape[1])
    cp = np.zeros((facets, shape[0], shape[1], 3))
    cp[..., 0] = u[None, :, None]
    cp[..., 1] = v[None, None, :]
    cp[..., 2] = rng.normal(0, 1, cp.shape[:3]) * bump
    return cp


class GroupSpec:
    pass


def group_spec(rng, n, kind=None, facets=4, k=4, net=(4, 4), degrees=(2, 2), bump=3e-4, deviations=1.0,
               positions=None, prefix="h", near=35.0, far=110.0, half=None, focal=None):
    s = GroupSpec()
    s.n, s.kind = n, kind or ("linear" if rng.random() < 0.5 else "ideal")
    s.names = [f"{prefix}{i:02d}" for i in range(n)]
    s.positions = f32(positions if positions is not None else field_positions(rng, n, near, far))
    s.facets, s.k, s.degrees = facets, k, degrees
    lay, cps = [], []
    s.half = half if half is not None else (rng.uniform(0.6, 1.0), rng.uniform(0.5, 0.9))
    for i in range(n):
        h = s.half
        f = focal if focal is not None else max(40.0, np.linalg.norm(s.positions[i, :3]) * rng.uniform(0.8, 1.5))
        lay.append(facet_layout(rng, facets, h, f, jitter=2e-4))
        cps.append(control_net(rng, facets, net, h, bump))
    s.canting, s.translations = (f32(x) for x in echo(rng, *(np.stack(x) for x in zip(*lay)), axes=1))
    s.control = f32(echo(rng, np.stack(cps), axes=2))
    pts, nrm = zip(*[O.heliostat_surface(s.control[i], degrees, s.canting[i], s.translations[i], k, k) for i in range(n)])
    s.points, s.normals = f32(np.stack(pts)), f32(np.stack(nrm))
    s.trans_dev = f32(echo(rng, plain(rng, rng.uniform(-0.25, 0.25, (n, 9))), axes=2) * deviations)
    s.rot_dev = f32(echo(rng, plain(rng, rng.uniform(-0.02, 0.02, (n, 4))), axes=2) * deviations)
    s.acts = actuators(rng, n, s.kind)
    return s


def build_group(s):
    non, opt = actuator_tensors(s.acts)
    return HeliostatGroupRigidBody(
        names=list(s.names), positions=T(s.positions), surface_points=T(s.points), surface_normals=T(s.normals),
        canting=T(s.canting), facet_translations=T(s.translations),
        initial_orientations=T(np.tile([0.0, -1.0, 0.0, 0.0], (s.n, 1))), nurbs_control_points=T(s.control),
        nurbs_degrees=torch.tensor(s.degrees, dtype=torch.int32),
        kinematics_translation_deviation_parameters=T(s.trans_dev),
        kinematics_rotation_deviation_parameters=T(s.rot_dev),
        actuator_parameters_non_optimizable=non, actuator_parameters_optimizable=opt, device=CPU,
    )


def sun_directions(rng, n, max_azimuth=1.0, elevation=(0.25, 1.35)):
    """Directions of travel of sun light (sun in the south)."""
    az, el = plain(rng, rng.uniform(-max_azimuth, max_azimuth, n)), plain(rng, rng.uniform(*elevation, n), [PI / 2, PI / 4], p=0.1)
    toward = np.stack([np.sin(az) * np.cos(el), -np.cos(az) * np.cos(el), np.sin(el)], 1)
    return f32(echo(rng, np.concatenate([-toward, np.zeros((n, 1))], 1), p=0.25))


class Scene:
    """A scenario, the specification it was built from and helpers to align and trace it."""

    def __init__(self, specs, planar, cylindrical, light, ray_count=None):
        self.specs, self.targets = specs, planar + cylindrical
        self.tower = make_tower(planar, cylindrical)
        self.groups = [build_group(s) for s in specs]
        self.light = light
        self.scenario = Scenario(
            power_plant_position=torch.tensor([50.91342112259258, 6.387824755874856, 87.0], dtype=torch.float64),
            solar_tower=self.tower, light_sources=LightSourceArray([light]),
            heliostat_field=HeliostatField(self.groups, device=CPU),
        )

    def align(self, g, mask, target_idx, incident, aims=None):
        group = self.groups[g]
        m = torch.tensor(np.asarray(mask), dtype=torch.int32)
        group.activate_heliostats(active_heliostats_mask=m, device=CPU)
        if aims is None:
            aims = np.stack([aim_point(self.targets[i]) for i in target_idx])
        group.align_surfaces_with_incident_ray_directions(
            aim_points=T(aims), incident_ray_directions=T(incident), active_heliostats_mask=m, device=CPU)
        return m


def expand(mask):
    """Heliostat index of every active sample, in storage order."""
    return np.repeat(np.arange(len(mask)), np.asarray(mask))


def random_mask(rng, n, low=0, high=2, unequal=True):
    while True:
        if unequal:
            m = rng.integers(low, high + 1, n)
        else:
            m = rng.integers(0, 2, n) * rng.integers(1, high + 1)
        if m.sum() > 0:
            return m


def random_scene(rng, groups=1, per_group=(1, 4), planar=(1, 3), cylindrical=(0, 2), rays=3, k=3, scale=2e-3, kind=None,
                 deviations=1.0, sun=None, bump=3e-4, most=25, **kw):
    specs = [group_spec(rng, size(rng, *per_group, p=0.03 if per_group[1] > 3 else 0.0, most=most), kind=kind, k=k, prefix=f"g{g}h",
                        deviations=deviations, bump=bump, **kw) for g in range(groups)]
    n_p = size(rng, *planar, p=0.03 if planar[1] > 2 else 0.0, most=12)
    n_c = int(rng.integers(cylindrical[0], cylindrical[1] + 1))
    if n_p + n_c == 0:
        n_p = 1
    light = sun if sun is not None else StubLight(rays, scale, seed=int(rng.integers(2**31)))
    return Scene(specs, planar_targets(rng, n_p), cylinder_targets(rng, n_c), light)
