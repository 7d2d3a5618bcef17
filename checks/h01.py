"""H01 - results do not depend on what was computed before."""

import numpy as np
import torch

from artist.flux import bitmap
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.scene.sun import Sun
from vlib import gen as G
from vlib import optim as OP
from vlib.core import Check

CHECK = Check(
    "H01",
    rule="one evaluation = one request answered by a scenario with a history and by a freshly built one, compared exactly; distinct = "
    "(request, previous operations); non-trivial = at least one operation before",
    assumptions=["a request activates the heliostats before aligning them, as documented",
                 "changes of the stored data themselves (new control points, deviations, ray count) are part of the request: the fresh scenario gets them too"],
)


class World:
    """A scenario and the changes of its stored data that were asked for."""

    def __init__(self, recipe):
        self.recipe = recipe
        self.scene = G.Scene(recipe["specs"], recipe["planar"], recipe["cylindrical"], recipe["light"]())
        self.scenario = self.scene.scenario
        self.groups = self.scene.groups

    def set(self, key, value):
        what, g = key
        if what == "rays":
            self.scenario.set_number_of_rays(value)
        elif what == "surfaces":
            self.groups[g].nurbs_control_points = value.clone()
        elif what == "rotation":
            self.groups[g].kinematics.rotation_deviation_parameters = value.clone()
        elif what == "actuators":
            self.groups[g].kinematics.actuators.optimizable_parameters = value.clone()
        elif what == "points":
            self.groups[g].surface_points, self.groups[g].surface_normals = (v.clone() for v in value)


def recipe_of(rng):
    groups = int(rng.integers(1, 4))
    seed, sun, count = int(rng.integers(2**31)), rng.random() < 0.5, int(rng.integers(2, 5))
    scene = G.random_scene(rng, groups=groups, per_group=(1, 4), most=12, planar=(1, 2), cylindrical=(0, 2), rays=count, k=3, scale=3e-3, deviations=0.5)

    def light():
        if sun:
            return Sun(number_of_rays=count, distribution_parameters=dict(distribution_type="normal", mean=0.0, covariance=1e-5), device=G.CPU)
        return G.StubLight(count, 3e-3, seed=seed)

    n_planar = sum(t["type"] == "planar" for t in scene.targets)
    return dict(specs=scene.specs, planar=scene.targets[:n_planar], cylindrical=scene.targets[n_planar:], light=light, sun=sun)


def some_alignment(rng, recipe, g):
    n = recipe["specs"][g].n
    mask = G.random_mask(rng, n) if rng.random() < 0.5 else G.random_mask(rng, n, high=1)
    m = int(mask.sum())
    targets = recipe["planar"] + recipe["cylindrical"]
    idx = rng.integers(0, len(targets), m)
    aims = np.stack([G.aim_point(targets[i]) for i in idx])
    aims[:, :3] += rng.normal(0, 0.3, (m, 3))
    return dict(g=g, mask=torch.tensor(mask, dtype=torch.int32), idx=torch.tensor(idx, dtype=torch.int32), aims=G.T(aims), incident=G.T(G.sun_directions(rng, m)))


def align(world, a, motors=None):
    group = world.groups[a["g"]]
    group.activate_heliostats(active_heliostats_mask=a["mask"], device=G.CPU)
    if motors is None:
        group.align_surfaces_with_incident_ray_directions(aim_points=a["aims"], incident_ray_directions=a["incident"],
                                                          active_heliostats_mask=a["mask"], device=G.CPU)
    else:
        group.align_surfaces_with_motor_positions(motor_positions=motors, active_heliostats_mask=a["mask"], device=G.CPU)
    return [group.active_surface_points, group.active_surface_normals, group.kinematics.active_motor_positions]


def make_tracer(world, a, r):
    return HeliostatRayTracer(scenario=world.scenario, heliostat_group=world.groups[a["g"]], blocking_active=r["blocking"], world_size=r["world"],
                              rank=r["rank"], batch_size=r["batch"], random_seed=r["seed"], dni=r["dni"], bitmap_resolution=r["res"])


def shoot(tracer, a):
    flux, *rest = tracer.trace_rays(incident_ray_directions=a["incident"], active_heliostats_mask=a["mask"], target_area_indices=a["idx"], device=G.CPU)
    rows = tracer.get_sampler_indices()
    target = tracer.get_bitmaps_per_target(bitmaps_per_heliostat=flux, target_area_indices=a["idx"][rows.long()], device=G.CPU)
    return [flux, *rest, rows, target]


def tensors(x):
    if torch.is_tensor(x):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from tensors(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from tensors(v)


class Request:
    """A question that a scenario answers with tensors."""

    def __init__(self, rng, recipe):
        self.kind = rng.choice(["alignment", "motors", "trace", "trace", "two tracers", "crop", "centers"])
        G_ = len(recipe["specs"])
        blocking = bool(rng.random() < 0.5)
        self.aligned = []
        order = rng.permutation(G_)
        for g in order:
            a = some_alignment(rng, recipe, int(g))
            if blocking:
                # several copies of a heliostat do not block each other
                keep = a["mask"].clamp(max=1)
                m = int(keep.sum())
                a = dict(a, mask=keep, idx=a["idx"][:m], aims=a["aims"][:m].clone(), incident=a["incident"][:m].clone())
            self.aligned.append(a)
        self.motors = [G.T(rng.uniform(-0.4, 0.4, (int(a["mask"].sum()), 2)) if recipe["specs"][a["g"]].kind == "ideal"
                           else rng.uniform(20000, 60000, (int(a["mask"].sum()), 2))) for a in self.aligned]
        world = int(rng.integers(1, 3))
        self.ray = dict(blocking=blocking, world=world, rank=int(rng.integers(world)), batch=int(rng.choice([1, 2, 100])), seed=int(rng.integers(5)),
                        dni=None if rng.random() < 0.5 else 800.0, res=torch.tensor([int(rng.integers(6, 20)), int(rng.integers(6, 20))]))
        self.gradient = bool(rng.random() < 0.3)

    def inputs(self):
        return list(tensors([self.aligned, self.motors, self.ray]))

    def answer(self, world):
        with torch.set_grad_enabled(self.gradient):
            return [x.detach().clone() for x in self._answer(world)]

    def _answer(self, world):
        if self.kind == "alignment":
            return [t for a in self.aligned for t in align(world, a)]
        if self.kind == "motors":
            return [t for a, m in zip(self.aligned, self.motors) for t in align(world, a, m)[:2]]
        if self.kind == "centers":
            a = self.aligned[0]
            return [world.scenario.solar_tower.get_centers_of_target_areas(target_area_indices=a["idx"], device=G.CPU)]
        for a in self.aligned:
            align(world, a)
        a = self.aligned[-1]
        if self.kind == "trace":
            return shoot(make_tracer(world, a, self.ray), a)
        if self.kind == "two tracers":
            # two tracers at work at the same time, and the same one twice
            b = self.aligned[0]
            first, second = make_tracer(world, a, self.ray), make_tracer(world, b, self.ray)
            return [*shoot(second, b), *shoot(first, a), *shoot(second, b)]
        flux = shoot(make_tracer(world, a, dict(self.ray, world=1, rank=0)), a)[0]
        rows = flux.shape[0]
        flux = flux + 1e-3
        return [bitmap.get_center_of_mass(bitmaps=flux, device=G.CPU),
                bitmap.crop_flux_distributions_around_center(flux_distributions=flux, solar_tower=world.scenario.solar_tower,
                                                             target_area_indices=a["idx"][:rows], crop_width=3.0, crop_height=2.5, device=G.CPU)]


def disturb(rng, world, recipe, mon):
    """Something else that happens in between."""
    kind = str(rng.choice(["request", "request", "request", "activate", "nothing active", "failing", "backward", "random", "drop"]))
    if kind == "request":
        Request(rng, recipe).answer(world)
    elif kind == "activate":
        g = int(rng.integers(len(world.groups)))
        world.groups[g].activate_heliostats(active_heliostats_mask=None if rng.random() < 0.5 else some_alignment(rng, recipe, g)["mask"], device=G.CPU)
    elif kind == "nothing active":
        g = int(rng.integers(len(world.groups)))
        world.groups[g].activate_heliostats(active_heliostats_mask=torch.zeros(world.groups[g].number_of_heliostats, dtype=torch.int32), device=G.CPU)
    elif kind == "failing":
        a = some_alignment(rng, recipe, int(rng.integers(len(world.groups))))
        for attempt in (lambda: world.groups[a["g"]].align_surfaces_with_incident_ray_directions(
                            aim_points=a["aims"], incident_ray_directions=a["incident"], active_heliostats_mask=a["mask"] + 1, device=G.CPU),
                        lambda: align(world, dict(a, aims=a["aims"][:, :2])),
                        lambda: shoot(make_tracer(world, a, Request(rng, recipe).ray), dict(a, mask=a["mask"] + 1))):
            try:
                attempt()
            except Exception:  # noqa: BLE001 - refused requests are the point
                mon.count("refused requests")
    elif kind == "backward":
        r = Request(rng, recipe)
        k = world.groups[r.aligned[0]["g"]].kinematics
        k.rotation_deviation_parameters.requires_grad_(True)
        with torch.enable_grad():
            out = r._answer(world)[0]
            if out.requires_grad:
                out.sum().backward()
        # the user is done with optimising
        k.rotation_deviation_parameters = k.rotation_deviation_parameters.detach()
    elif kind == "random":
        torch.manual_seed(int(rng.integers(1000)))
        torch.rand(3)
    return kind


def new_data(rng, world, recipe):
    """A change of the stored data that the fresh scenario gets, too."""
    what = str(rng.choice(["surfaces", "rotation", "actuators", "rays", "points"]))
    g = int(rng.integers(len(world.groups)))
    group, s = world.groups[g], recipe["specs"][g]
    if what == "surfaces":
        return (what, g), group.nurbs_control_points + G.T(rng.normal(0, 2e-4, group.nurbs_control_points.shape))
    if what == "rotation":
        return (what, g), G.T(G.f32(rng.uniform(-0.02, 0.02, (s.n, 4))))
    if what == "actuators":
        base = group.kinematics.actuators.optimizable_parameters.detach()
        return (what, g), base * (1 + G.T(rng.uniform(-0.01, 0.01, base.shape)))
    if what == "points":
        return (what, g), (group.surface_points + G.T(np.append(rng.normal(0, 1e-2, 3), 0.0)), group.surface_normals)
    return (what, None), (int(rng.integers(1, 6)) if recipe["sun"] else None)


@CHECK.family(quick=1200, thorough=20000, chunk=8)
def histories(mon, rng):
    recipe = recipe_of(rng)
    world, changes, trail = World(recipe), {}, []
    for _ in range(int(rng.integers(1, 7))):
        if rng.random() < 0.25:
            key, value = new_data(rng, world, recipe)
            if value is not None:
                changes[key] = value
                world.set(key, value)
                trail.append(key[0])
        before = OP.stored(world.scene)
        with mon.code("history", trail=str(trail)):
            trail.append(disturb(rng, world, recipe, mon))
        OP.unchanged(mon, before, OP.stored(world.scene), trail=str(trail))
        mon.count("operations before requests")
    request = Request(rng, recipe)
    given = request.inputs()
    keep = [x.clone() for x in given]
    before = OP.stored(world.scene)
    settings = torch.get_default_dtype(), torch.is_grad_enabled(), torch.get_num_threads(), torch.are_deterministic_algorithms_enabled()
    who = dict(request=str(request.kind), trail=str(trail))
    with mon.code("request", **who):
        got = request.answer(world)
        again = request.answer(world)
    mon.expect(settings == (torch.get_default_dtype(), torch.is_grad_enabled(), torch.get_num_threads(), torch.are_deterministic_algorithms_enabled()),
               "global-settings-changed", **who)
    mon.expect(all(torch.equal(a, b) for a, b in zip(keep, given)), "inputs-changed", **who)
    OP.unchanged(mon, before, OP.stored(world.scene), **who)
    fresh = World(recipe)
    for key, value in changes.items():
        fresh.set(key, value)
    with mon.code("fresh scenario", **who):
        want = request.answer(fresh)
    for name, other in (("differs-from-fresh-scenario", got), ("differs-when-repeated", again)):
        mon.expect(len(other) == len(want) and all(equal(a, b) for a, b in zip(other, want)), name,
                   off=[float((a - b).abs().max()) if a.shape == b.shape and a.numel() else str((a.shape, b.shape)) for a, b in zip(other, want)], **who)
    mon.count("tensors compared", len(want))
    mon.observe(f"{request.kind}|{trail}|{len(recipe['specs'])}", bool(trail))


def equal(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and torch.equal(torch.nan_to_num(a), torch.nan_to_num(b))


@CHECK.family(quick=300, thorough=4000, chunk=8)
def updates(mon, rng):
    """Recomputing the surfaces of the field: repeated, and after other changes that were taken back."""
    recipe = recipe_of(rng)
    world, fresh = World(recipe), World(recipe)
    field = world.scenario.heliostat_field
    g = int(rng.integers(len(world.groups)))
    original = [x.nurbs_control_points.clone() for x in world.groups]
    nets = world.groups[g].nurbs_control_points + G.T(rng.normal(0, 3e-4, original[g].shape))
    with mon.code("update_surfaces"):
        fresh.groups[g].nurbs_control_points = nets.clone()
        fresh.scenario.heliostat_field.update_surfaces(device=G.CPU)
        for _ in range(int(rng.integers(1, 4))):
            other = int(rng.integers(len(world.groups)))
            world.groups[other].nurbs_control_points = original[other] + G.T(rng.normal(0, 1e-3, original[other].shape))
            if rng.random() < 0.7:
                field.update_surfaces(device=G.CPU)
            if rng.random() < 0.5:
                disturb(rng, world, recipe, mon)
            world.groups[other].nurbs_control_points = original[other].clone()
        world.groups[g].nurbs_control_points = nets.clone()
        field.update_surfaces(device=G.CPU)
        if rng.random() < 0.5:
            field.update_surfaces(device=G.CPU)
    want, got = OP.stored(fresh.scene), OP.stored(world.scene)
    OP.unchanged(mon, want, got, mech="surface-depends-on-previous-surfaces")
    request = Request(rng, recipe)
    with mon.code("request"):
        a, b = request.answer(world), request.answer(fresh)
    mon.expect(all(equal(x, y) for x, y in zip(a, b)), "differs-from-fresh-scenario", request=str(request.kind), trail="updates")
    mon.count("updates compared")
    mon.observe(f"update|{len(recipe['specs'])}|{request.kind}")


@CHECK.family(quick=300, thorough=4000, chunk=8)
def tracers(mon, rng):
    """One tracer asked again and again, with new directions, targets, alignments and surfaces, against a new tracer for each question."""
    recipe = recipe_of(rng)
    world, fresh = World(recipe), World(recipe)
    a = some_alignment(rng, recipe, int(rng.integers(len(recipe["specs"]))))
    request = Request(rng, recipe)
    ray = request.ray if a["mask"].max() <= 1 else dict(request.ray, blocking=False)
    n = int(a["mask"].sum())
    targets = recipe["planar"] + recipe["cylindrical"]
    with mon.code("tracer used again"):
        if ray["blocking"]:
            for other in (world, fresh):
                for g, group in enumerate(other.groups):
                    if g != a["g"]:
                        group.activate_heliostats(active_heliostats_mask=None, device=G.CPU)
        align(world, a)
        tracer = make_tracer(world, a, ray)
        trail, in_place = [], bool(rng.random() < 0.5)
        for k in range(int(rng.integers(2, 5))):
            if k:
                # a tracer is documented to hold the aligned surfaces that block from its construction on
                step = str(rng.choice(["directions", "targets", "nothing", "both"] + ["alignment", "surface"] * (not ray["blocking"])))
                trail.append(step)
                if step in ("directions", "both"):
                    d = a["incident"] + torch.cat([G.T(rng.normal(0, 4e-3, (n, 3))), torch.zeros(n, 1)], 1)
                    d = d / d.norm(dim=1, keepdim=True)
                    if in_place:
                        a["incident"].copy_(d)
                    else:
                        a = dict(a, incident=d)
                if step in ("targets", "both"):
                    idx = torch.tensor(rng.integers(0, len(targets), n), dtype=torch.int32)
                    if in_place:
                        a["idx"].copy_(idx)
                    else:
                        a = dict(a, idx=idx)
                if step == "alignment":
                    aims = G.T(np.stack([G.aim_point(targets[i]) for i in a["idx"]]))
                    a = dict(a, aims=aims)
                    align(world, a)
                if step == "surface":
                    key, value = ("points", a["g"]), (world.groups[a["g"]].surface_points + G.T([0.0, 0.0, 0.01, 0.0]), world.groups[a["g"]].surface_normals)
                    world.set(key, value)
                    fresh.set(key, value)
                    align(world, a)
            if k == 0 or step in ("alignment", "surface"):
                first = {key: v.clone() for key, v in a.items() if torch.is_tensor(v)}
            got = [x.detach().clone() for x in shoot(tracer, a)]
            align(fresh, dict(first, g=a["g"]))
            want = shoot(make_tracer(fresh, a, ray), a)
            mon.expect(all(equal(x, y) for x, y in zip(got, want)), "tracer-remembers", trail=str(trail), in_place=in_place, blocking=ray["blocking"],
                       off=[float((x - y).abs().max()) if x.shape == y.shape and x.numel() else str((x.shape, y.shape)) for x, y in zip(got, want)], n=n, stored=len(recipe["specs"][a["g"]].names))
            mon.count("shots of a used tracer", k > 0)
    mon.observe(f"tracer|{trail}|{ray['blocking']}|{in_place}|{len(recipe['specs'])}")


CHECK.require("shots of a used tracer", 250)
CHECK.require("operations before requests", 2400)
CHECK.require("tensors compared", 1500)
CHECK.require("refused requests", 60)
CHECK.require("updates compared", 80)
