"""A01 - gradients are derivatives."""

import contextlib

import numpy as np
import torch

from artist.flux import bitmap
from artist.nurbs.surfaces import NURBSSurfaces
from artist.nurbs.utils import create_nurbs_evaluation_grid
from artist.optim import loss as L
from artist.optim import regularizers as R
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from vlib import gen as G
from vlib.core import Check

CHECK = Check(
    "A01",
    rule="one evaluation = one scalar functional of a public result, whose gradient was compared with difference quotients of the same "
    "computation along several directions; distinct = (computation, parameter, kind, scene); non-trivial = at least one direction judged",
    assumptions=[
        "difference quotients are taken in double precision (torch's default dtype), where the simulation is continuous; directions for which two "
        "step widths disagree lie on a kink and are left out (counted)",
        "counted fractions of rays (intercept, on target, unblocked) are step functions and carry no gradient",
    ],
)


@contextlib.contextmanager
def double():
    """The library computes in torch's default dtype; the workload's tensors follow."""
    single, dtype = G.T, torch.get_default_dtype()
    torch.set_default_dtype(torch.float64)
    G.T = lambda x: torch.tensor(np.asarray(x, dtype=np.float64))
    try:
        yield
    finally:
        G.T = single
        torch.set_default_dtype(dtype)


def leaf(x):
    return x.detach().clone().requires_grad_(True)


def judge(mon, rng, f, theta, scales, what, directions=3, rows=None, rtol=3e-4, **who):
    """`f(theta)` is a scalar; `theta` maps names to tensors, `scales` to typical magnitudes."""
    theta = {k: leaf(v) for k, v in theta.items()}
    value = f(theta)
    names = list(theta)
    if not mon.expect(value.requires_grad, "result-without-gradient", what=what, **who):
        return None
    grads = torch.autograd.grad(value, [theta[k] for k in names], allow_unused=True)
    grads = {k: (torch.zeros_like(theta[k]) if g is None else g) for k, g in zip(names, grads)}
    for k, g in grads.items():
        if not mon.expect(bool(torch.isfinite(g).all()), "gradient-not-finite", parameter=k, what=what, **who):
            return None
    judged = 0
    with torch.no_grad():
        for j in range(directions):
            for k in names:
                v = torch.zeros_like(theta[k])
                if rows is not None and k in rows and len(rows[k]) and j % 2:
                    # one row at a time, to see gradients that went to another heliostat
                    r = int(rng.choice(rows[k]))
                    v[r] = torch.tensor(rng.normal(0, 1, tuple(v[r].shape)))
                else:
                    v = torch.tensor(rng.normal(0, 1, tuple(v.shape)))
                v = v * scales[k]

                def at(h):
                    return float(f({**theta, k: theta[k] + h * v}))

                size = float((grads[k] * v).abs().sum())
                for h in (2e-8, 2e-7, 5e-9):
                    a, c, b = ((at(x) - at(-x)) / (2 * x) for x in (h, h / 3, h / 10))
                    noise = 1e-13 * (abs(float(value)) + 1) / h
                    if max(abs(a - b), abs(a - c)) <= 2e-5 * (abs(a) + abs(b)) + 1e-7 * size + 20 * noise:
                        break
                else:
                    mon.count("directions on a kink")
                    continue
                slope = float((grads[k] * v).sum())
                judged += 1
                mon.count("directions judged")
                mon.count(f"directions judged: {k}")
                tol = rtol * (abs(slope) + abs(a)) + 1e-5 * size + 40 * noise
                mon.maximum("error of directional derivative / tolerance", abs(slope - a) / tol)
                mon.expect(abs(slope - a) <= tol, f"wrong-derivative-{what}", parameter=k, gradient=slope, difference=a, size=size, **who)
    return grads if judged else None


def same_in_single_precision(mon, double_grads, single, what, rtol, **who):
    for k, g in double_grads.items():
        g32 = single.get(k)
        if g32 is None:
            continue
        norm = float(g.norm())
        mon.expect(bool(torch.isfinite(g32).all()), "gradient-not-finite-in-single-precision", parameter=k, what=what, **who)
        off = float((g32.double() - g).norm())
        mon.maximum(f"single precision gradient error {what}", off / (norm + 1e-30))
        mon.expect(off <= rtol * norm + 1e-9, "single-precision-gradient", parameter=k, what=what, off=off, norm=norm, **who)


class Field:
    """One group, its activation, and its optimisable quantities."""

    def __init__(self, scene, g, job):
        self.scene, self.g, self.job = scene, g, job
        self.group = scene.groups[g]

    def start(self, which):
        group, k = self.group, self.group.kinematics
        at = dict(
            control=group.nurbs_control_points, rotation=k.rotation_deviation_parameters, translation=k.translation_deviation_parameters,
            actuators=k.actuators.optimizable_parameters, aims=G.T(self.job["aims"]), motors=G.T(self.job["motors"]) if "motors" in self.job else None,
        )
        return {w: at[w].detach().clone() for w in which if at[w] is not None and at[w].numel()}

    def scales(self):
        linear = self.scene.specs[self.g].kind == "linear"
        return dict(control=1e-2, rotation=1e-2, translation=1e-1, actuators=1e-2, aims=1.0, motors=2e3 if linear else 0.1)

    def aligned(self, theta):
        """The documented order: parameters, activation, surfaces, alignment."""
        group, k, job = self.group, self.group.kinematics, self.job
        if "control" in theta:
            group.nurbs_control_points = theta["control"]
        if "rotation" in theta:
            k.rotation_deviation_parameters = theta["rotation"]
        if "translation" in theta:
            k.translation_deviation_parameters = theta["translation"]
        if "actuators" in theta:
            k.actuators.optimizable_parameters = theta["actuators"]
        mask = torch.tensor(job["mask"], dtype=torch.int32)
        n = int(mask.sum())
        group.activate_heliostats(active_heliostats_mask=mask, device=G.CPU)
        if "control" in theta:
            grid = create_nurbs_evaluation_grid(number_of_evaluation_points=torch.tensor([3, 3]), device=G.CPU)
            points, normals = NURBSSurfaces(degrees=group.nurbs_degrees, control_points=group.active_nurbs_control_points,
                                            device=G.CPU).calculate_surface_points_and_normals(
                evaluation_points=grid[None, None].expand(n, group.number_of_facets_per_heliostat, -1, -1), canting=group.active_canting,
                facet_translations=group.active_facet_translations, device=G.CPU)
            group.active_surface_points, group.active_surface_normals = points.reshape(n, -1, 4), normals.reshape(n, -1, 4)
        if "motors" in theta:
            group.align_surfaces_with_motor_positions(motor_positions=theta["motors"], active_heliostats_mask=mask, device=G.CPU)
        else:
            group.align_surfaces_with_incident_ray_directions(
                aim_points=theta.get("aims", G.T(job["aims"])), incident_ray_directions=G.T(job["incident"]), active_heliostats_mask=mask, device=G.CPU)
        return group.active_surface_points, group.active_surface_normals

    def traced(self, theta):
        job = self.job
        self.aligned(theta)
        tracer = HeliostatRayTracer(scenario=self.scene.scenario, heliostat_group=self.group, blocking_active=job["blocking"], batch_size=job["batch"],
                                    random_seed=0, dni=job["dni"], bitmap_resolution=torch.tensor(job["res"]))
        return tracer.trace_rays(incident_ray_directions=G.T(job["incident"]), active_heliostats_mask=torch.tensor(job["mask"], dtype=torch.int32),
                                 target_area_indices=torch.tensor(job["idx"], dtype=torch.int32), device=G.CPU)[0]


def make_job(rng, scene, g, blocking=False):
    s = scene.specs[g]
    mask = rng.integers(0, 2, s.n) if blocking else G.random_mask(rng, s.n)
    if not mask.sum():
        mask[int(rng.integers(s.n))] = 1
    n = int(mask.sum())
    idx = rng.integers(0, len(scene.targets), n)
    aims = np.stack([G.aim_point(scene.targets[i]) for i in idx])
    aims[:, :3] += rng.normal(0, 0.3, (n, 3))
    return dict(mask=mask, idx=idx, aims=G.f32(aims), incident=G.sun_directions(rng, n), blocking=blocking, batch=int(rng.choice([1, 2, 100])),
                dni=None if rng.random() < 0.5 else 700.0, res=[int(rng.integers(5, 16)), int(rng.integers(5, 16))])


def with_motors(scene, g, job):
    """Motor positions that aim at the target."""
    scene.align(g, job["mask"], job["idx"], job["incident"], job["aims"])
    return dict(job, motors=G.N(scene.groups[g].kinematics.active_motor_positions))


SETS = (("motors",), ("motors", "rotation", "translation"), ("motors", "actuators"), ("motors", "control"), ("aims",), ("rotation", "translation"),
        ("actuators", "aims"), ("control", "aims"))


def only_active(mon, grads, job, what, **who):
    """No heliostat without sample receives gradient."""
    idle = np.flatnonzero(np.asarray(job["mask"]) == 0)
    for k in ("rotation", "translation", "actuators", "control"):
        if k in grads and len(idle):
            mon.expect(not bool(grads[k][idle].any()), "gradient-of-idle-heliostat", parameter=k, what=what, **who)
            mon.count("idle heliostats without gradient", len(idle))


@CHECK.family(quick=240, thorough=2500, chunk=6)
def orientations(mon, rng):
    which = SETS[mon.index % len(SETS)]
    scene = G.random_scene(rng, groups=1, per_group=(1, 4), most=6, k=3, deviations=0.6)
    job = with_motors(scene, 0, make_job(rng, scene, 0))
    if scene.specs[0].kind == "linear" and "motors" in which:
        job["motors"] = job["motors"] + rng.normal(0, 500, job["motors"].shape)
    n = int(np.sum(job["mask"]))
    points = 36
    w = [rng.normal(0, 1, (n, points, 4)) for _ in range(2)]
    who = dict(kind=scene.specs[0].kind, mask=job["mask"])
    active = np.flatnonzero(job["mask"])
    rows = {k: active for k in ("rotation", "translation", "actuators", "control")} | {"motors": np.arange(n), "aims": np.arange(n)}

    def functional(field):
        def f(theta):
            p, m = field.aligned(theta)
            return (p * G.T(w[0])).sum() + 20 * (m * G.T(w[1])).sum()

        return f

    with mon.code("alignment with gradient", **who), double():
        field = Field(G.Scene(scene.specs, [t for t in scene.targets if t["type"] == "planar"], [t for t in scene.targets if t["type"] != "planar"],
                              scene.light), 0, job)
        theta = field.start(which)
        grads = judge(mon, rng, functional(field), theta, field.scales(), "orientations", rows=rows, **who)
    if grads is None:
        return
    only_active(mon, grads, job, "orientations", **who)
    if "motors" in which:
        for k in grads:
            per_row = grads[k].abs().flatten(1).sum(1)
            need = np.arange(n) if k in ("motors", "aims") else active
            mon.expect(bool((per_row[need] > 0).all()), "active-heliostat-without-gradient", parameter=k, **who)
        # as it is used: single precision
        with mon.code("alignment in single precision", **who):
            field = Field(scene, 0, job)
            theta = {k: leaf(v) for k, v in field.start(which).items()}
            value = functional(field)(theta)
            got = dict(zip(theta, torch.autograd.grad(value, list(theta.values()))))
        same_in_single_precision(mon, grads, got, "orientations", 1e-2, **who)
    mon.observe(f"orientations|{which}|{scene.specs[0].kind}|{job['mask'].tolist()}")


@CHECK.family(quick=240, thorough=2500, chunk=4)
def flux(mon, rng):
    which, blocking = SETS[mon.index % len(SETS)], bool(mon.index // len(SETS) % 2)
    scene = G.random_scene(rng, groups=int(rng.integers(1, 3)), per_group=(1, 4), most=6, k=3, rays=2, scale=3e-3, deviations=0.4)
    g = int(rng.integers(len(scene.groups)))
    job = with_motors(scene, g, make_job(rng, scene, g, blocking))
    n = int(np.sum(job["mask"]))
    w = rng.normal(0, 1, (n, job["res"][1], job["res"][0])) + 0.5
    # a smooth weight, the way a loss would look at the image
    y, x = np.mgrid[0 : job["res"][1], 0 : job["res"][0]]
    w = w * 0.2 + np.sin(x / 3.0) * np.cos(y / 4.0 + 1.0)
    who = dict(kind=scene.specs[g].kind, blocking=blocking, parameters=str(which))
    active = np.flatnonzero(job["mask"])
    rows = {k: active for k in ("rotation", "translation", "actuators", "control")} | {"motors": np.arange(n), "aims": np.arange(n)}
    lit = []
    with mon.code("trace with gradient", **who), double():
        whole = G.Scene(scene.specs, [t for t in scene.targets if t["type"] == "planar"], [t for t in scene.targets if t["type"] != "planar"], scene.light)
        for other in range(len(scene.groups)):
            if other != g and rng.random() < 0.7:
                o = make_job(rng, whole, other, True)
                whole.align(other, o["mask"], o["idx"], o["incident"])
        field = Field(whole, g, job)

        def f(theta):
            image = field.traced(theta)
            lit.append(image.detach().sum((1, 2)))
            return (image * G.T(w)).sum()

        grads = judge(mon, rng, f, field.start(which), field.scales(), "flux", rows=rows, rtol=5e-3 if blocking else 1e-3, **who)
    if grads is None:
        return
    only_active(mon, grads, job, "flux", **who)
    owner = G.expand(job["mask"])
    bright = G.N(lit[0]) > 1e-3
    for k in grads:
        per_row = grads[k].abs().flatten(1).sum(1)
        need = np.flatnonzero(bright) if k in ("motors", "aims") else np.unique(owner[bright])
        mon.expect(bool((per_row[need] > 0).all()), "illuminating-heliostat-without-gradient", parameter=k, **who)
        mon.count("illuminating heliostats with gradient", len(need))
    mon.count("flux images differentiated", n)
    mon.observe(f"flux|{which}|{scene.specs[g].kind}|{blocking}|{job['mask'].tolist()}")


@CHECK.family(quick=200, thorough=2000, chunk=10)
def surfaces(mon, rng):
    """Points and normals of NURBS surfaces with respect to their control points, for any degrees, net and evaluation points."""
    degrees = [int(rng.integers(1, 4)), int(rng.integers(1, 4))]
    shape = [int(rng.integers(d + 1, 8)) for d in degrees]
    n, facets, m = int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 20))
    uv = rng.random((n, facets, m, 2)) * (1 - 2e-6) + 1e-6
    half = rng.uniform(0.4, 1.5, 2)
    net = np.stack([G.control_net(rng, facets, shape, half, 2e-3) for _ in range(n)])
    net[..., :2] += rng.normal(0, 0.02, net[..., :2].shape)
    cant, place = zip(*[G.facet_layout(rng, facets, tuple(half), jitter=1e-3) for _ in range(n)])
    w = [rng.normal(0, 1, (n, facets, m, 4)) for _ in range(2)]
    placed = bool(rng.random() < 0.7)

    def f(theta):
        p, v = NURBSSurfaces(degrees=torch.tensor(degrees), control_points=theta["control"], device=G.CPU).calculate_surface_points_and_normals(
            evaluation_points=G.T(uv), canting=G.T(np.stack(cant)) if placed else None, facet_translations=G.T(np.stack(place)) if placed else None,
            device=G.CPU)
        return (p * G.T(w[0])).sum() + (v * G.T(w[1])).sum()

    who = dict(degrees=degrees, net=shape)
    with mon.code("surfaces with gradient", **who), double():
        grads = judge(mon, rng, f, dict(control=G.T(net)), dict(control=1e-2), "surface", **who)
    if grads is None:
        return
    with mon.code("surfaces in single precision", **who):
        c = G.T(net).requires_grad_(True)
        got = dict(control=torch.autograd.grad(f(dict(control=c)), c)[0])
    same_in_single_precision(mon, grads, got, "surface", 1e-3, **who)
    mon.observe(f"surface|{degrees}|{shape}|{n}|{facets}|{placed}")


LOSSES = ("PixelLoss", "KLDivergenceLoss", "FocalSpotLoss", "VectorLoss", "AngleLoss", "CosineSimilarityLoss", "SmoothnessRegularizer",
          "IdealSurfaceRegularizer", "center", "crop", "targets")


def images(rng, n, res, smooth=False):
    y, x = np.mgrid[0 : res[1], 0 : res[0]]
    out = []
    for _ in range(n):
        c, s = rng.uniform(0.3, 0.7, 2) * res, rng.uniform(0.1, 0.3) * min(res)
        out.append(rng.uniform(0.5, 50) * np.exp(-((x - c[0]) ** 2 + (y - c[1]) ** 2) / (2 * s * s)))
    out = np.stack(out)
    if not smooth:
        out = out * rng.uniform(0.5, 1.5, out.shape)
        out[out < 1e-3 * out.max()] = 0.0 if rng.random() < 0.5 else 1e-2
    return out


@CHECK.family(quick=330, thorough=3300, chunk=11)
def objectives(mon, rng):
    """Losses, regularisers, centres of mass and crops with respect to what they judge."""
    kind = LOSSES[mon.index % len(LOSSES)]
    n, res = int(rng.integers(1, 5)), [int(rng.integers(5, 20)), int(rng.integers(5, 20))]
    targets = G.planar_targets(rng, 2), G.cylinder_targets(rng, 1)
    idx = torch.tensor(rng.integers(0, 3, n), dtype=torch.int32)
    w = rng.uniform(0.5, 2, n)
    who = dict(objective=kind)

    def make():
        """Objective and parameters, in the current precision."""
        scene = G.Scene([G.group_spec(np.random.default_rng(1), 1, prefix="h")], *targets, G.StubLight(1))
        r = np.random.default_rng(seed)
        if kind in ("PixelLoss", "KLDivergenceLoss", "FocalSpotLoss"):
            fn = L.FocalSpotLoss(scene.scenario) if kind == "FocalSpotLoss" else getattr(L, kind)()
            # strictly positive images: the divergence is not smooth at zero
            a, b = images(r, n, res) + 1e-2, images(r, n, res)
            return (lambda t: (fn(prediction=t["image"], ground_truth=G.T(b), reduction_dimensions=(1, 2), target_area_indices=idx, device=G.CPU)
                               * G.T(w)).sum()), dict(image=G.T(a)), dict(image=1e-1 * a.max())
        if kind in ("VectorLoss", "AngleLoss", "CosineSimilarityLoss"):
            fn = getattr(L, kind)()
            a, b = r.normal(0, 1, (n, 4)), r.normal(0, 1, (n, 4))
            a[:, 3] = b[:, 3] = 0
            return (lambda t: (fn(prediction=t["vectors"], ground_truth=G.T(b), reduction_dimensions=(1,), device=G.CPU) * G.T(w)).sum()), dict(
                vectors=G.T(a)), dict(vectors=0.1)
        if kind.endswith("Regularizer"):
            fn = getattr(R, kind)(reduction_dimensions=(1,))
            base = np.stack([G.control_net(r, 4, [4, 5], (1, 1), 1e-3) for _ in range(n)])
            return (lambda t: (fn(current_control_points=t["control"], original_control_points=G.T(base), device=G.CPU) * G.T(w)).sum()), dict(
                control=G.T(base + r.normal(0, 1e-2, base.shape))), dict(control=1e-2)
        a = images(r, n, res)
        if kind == "center":
            v = r.normal(0, 1, (n, 2))
            return (lambda t: (bitmap.get_center_of_mass(bitmaps=t["image"], device=G.CPU) * G.T(v)).sum()), dict(image=G.T(a)), dict(image=0.1 * a.max())
        if kind == "crop":
            v = r.normal(0, 1, (n, res[1], res[0]))
            return (lambda t: (bitmap.crop_flux_distributions_around_center(
                flux_distributions=t["image"], solar_tower=scene.tower, target_area_indices=idx, crop_width=3.0, crop_height=2.5, device=G.CPU)
                * G.T(v)).sum()), dict(image=G.T(a)), dict(image=0.1 * a.max())
        from artist.geometry import coordinates

        v = r.normal(0, 1, (n, 4))
        return (lambda t: (coordinates.bitmap_coordinates_to_target_coordinates(
            bitmap_coordinates=t["pixels"], bitmap_resolution=torch.tensor(res), solar_tower=scene.tower, target_area_indices=idx, device=G.CPU)
            * G.T(v)).sum()), dict(pixels=G.T(r.uniform(0, 4, (n, 2)))), dict(pixels=1.0)

    seed = int(rng.integers(2**31))
    with mon.code("objective with gradient", **who), double():
        f, theta, scales = make()
        grads = judge(mon, rng, f, theta, scales, kind, rows={k: np.arange(n) for k in theta}, **who)
    if grads is None:
        return
    with mon.code("objective in single precision", **who):
        f, theta, _ = make()
        theta = {k: leaf(v) for k, v in theta.items()}
        got = dict(zip(theta, torch.autograd.grad(f(theta), list(theta.values()))))
    same_in_single_precision(mon, grads, got, kind, 2e-2, **who)
    mon.count(f"gradients of {kind}")
    mon.observe(f"{kind}|{n}|{res}")


@CHECK.family(quick=200, thorough=2000, chunk=10)
def special_points(mon, rng):
    """Perfect agreement, empty images, flat surfaces: gradients stay finite."""
    kind = LOSSES[mon.index % 8]
    n, res = int(rng.integers(1, 4)), [int(rng.integers(5, 12)), int(rng.integers(5, 12))]
    scene = G.Scene([G.group_spec(rng, 1, prefix="h")], G.planar_targets(rng, 2), G.cylinder_targets(rng, 1), G.StubLight(1))
    idx = torch.tensor(rng.integers(0, 3, n), dtype=torch.int32)
    state = ("equal", "dark prediction", "parallel")[int(rng.integers(3))]
    who = dict(objective=kind, state=state)
    if kind in ("PixelLoss", "KLDivergenceLoss", "FocalSpotLoss"):
        fn = L.FocalSpotLoss(scene.scenario) if kind == "FocalSpotLoss" else getattr(L, kind)()
        truth = G.T(images(rng, n, res))
        x = leaf(torch.zeros_like(truth) if state == "dark prediction" else truth)
        with mon.code("objective at a special point", **who):
            value = fn(prediction=x, ground_truth=truth, reduction_dimensions=(1, 2), target_area_indices=idx, device=G.CPU)
    elif kind in ("VectorLoss", "AngleLoss", "CosineSimilarityLoss"):
        fn = getattr(L, kind)()
        truth = G.T(rng.normal(0, 1, (n, 4)))
        truth[:, 3] = 0
        if rng.random() < 0.4:
            truth = torch.eye(4)[rng.integers(0, 3, n)]
        x = leaf(truth * (1.0 if state == "equal" else 2.0))
        with mon.code("objective at a special point", **who):
            value = fn(prediction=x, ground_truth=truth, reduction_dimensions=(1,), device=G.CPU)
    else:
        fn = getattr(R, kind)(reduction_dimensions=(1,))
        base = G.T(np.stack([G.control_net(rng, 4, [4, 5], (1, 1), 0.0) for _ in range(n)]))
        x = leaf(base)
        with mon.code("objective at a special point", **who):
            value = fn(current_control_points=x, original_control_points=base, device=G.CPU)
    mon.expect(bool(torch.isfinite(value).all()), "value-not-finite", **who)
    g = torch.autograd.grad(value.sum(), x)[0]
    mon.expect(bool(torch.isfinite(g).all()), f"gradient-not-finite-{kind}", got=g.flatten()[:8], **who)
    mon.count("special points")
    mon.observe(f"special|{kind}|{state}|{n}")


CHECK.require("directions judged", 2500)
for k, least in dict(control=300, rotation=120, translation=120, actuators=100, aims=150, motors=200).items():
    CHECK.require(f"directions judged: {k}", least)
CHECK.require("illuminating heliostats with gradient", 200)
CHECK.require("idle heliostats without gradient", 60)
CHECK.require("special points", 150)
