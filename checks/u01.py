"""U01 - fitted surfaces."""

import numpy as np
import torch

from artist.geometry import coordinates
from artist.scenario.surface_generator import SurfaceGenerator
from artist.util import constants as C
from vlib import gen as G
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "U01",
    rule="one evaluation = one point set normalised, one facet fitted, or one surface of several facets fitted, compared with the "
    "sampled mirror; distinct = (family, method, net, degrees, samples, scheduler); non-trivial = all",
    assumptions=["facets of a heliostat's size and curvature, sampled over a rectangle", "Adam with a learning rate of 1e-3, the documented plateau "
                 "scheduler or none; at least 400 epochs where convergence is judged"],
)


@CHECK.family(quick=300, thorough=3000, chunk=20)
def normalisation(mon, rng):
    n, d = int(rng.integers(2, 400)), 2
    low, size = rng.uniform(-5, 5, d), 10 ** rng.uniform(-1, 1, d)
    p = low + rng.random((n, d)) * size
    if rng.random() < 0.3:
        k = int(rng.integers(2, 8))
        p = low + rng.integers(0, k, (n, d)) / k * size
    p = G.f32(p)
    if (np.ptp(p, axis=0) < 0.05 * size).any():
        return
    x = G.T(p)
    keep = x.clone()
    with mon.code("normalize_points"):
        y = coordinates.normalize_points(x)
    mon.expect(torch.equal(x, keep), "points-changed")
    mon.expect(y.shape == x.shape, "shape")
    y = G.N(y)
    mon.expect(bool((y > 0).all() and (y < 1).all()), "outside-the-open-interval", low=y.min(), high=y.max())
    span = np.ptp(p, axis=0)
    slack = 2e-5 / span + 1e-6
    mon.expect(bool((y.min(0) <= slack).all() and (y.max(0) >= 1 - slack).all()), "extremes-not-at-the-ends", low=y.min(0), high=y.max(0))
    mon.close(y, (p - p.min(0)) / span, "proportions", atol=float((slack + 1e-6 * (1 + np.abs(p).max() / span)).max()))
    for j in range(d):
        order = np.argsort(p[:, j], kind="stable")
        step = np.diff(y[order, j])
        mon.expect((step >= 0).all(), "order-of-points", worst=step.min())
        same = np.diff(p[order, j]) == 0
        mon.expect((step[same] == 0).all(), "equal-points-apart")
        mon.count("ordered pairs", len(step))
    mon.observe(f"normalise|{n}|{size.round(1)}")


class Mirror:
    """A smooth facet: paraboloid, tilt and a long wave of a few tenths of a millimetre."""

    def __init__(self, rng, place=False):
        self.half = G.f32(rng.uniform(0.4, 1.2, 2))
        self.f = rng.uniform(20, 150)
        self.tilt = rng.normal(0, 8e-3, 2)
        self.wave, self.k = rng.normal(0, 2e-4), rng.uniform(-3, 3, 2)
        self.place = np.append(rng.normal(0, 0.02, 2), rng.normal(0, 5e-3)) if place else np.zeros(3)

    def sample(self, rng, n):
        xy = rng.uniform(-1, 1, (n, 2))
        if rng.random() < 0.5:
            k = int(np.sqrt(n))
            xy = np.stack(np.meshgrid(np.linspace(-1, 1, k), np.linspace(-1, 1, k), indexing="ij"), -1).reshape(-1, 2)
            xy = xy[rng.permutation(len(xy))]
        corner = np.array([[-1, -1], [-1, 1], [1, -1], [1, 1]])
        xy[rng.permutation(len(xy))[:4]] = corner
        xy = xy * self.half
        phase = xy @ self.k
        z = (xy**2).sum(1) / (4 * self.f) + xy @ self.tilt + self.wave * np.sin(phase)
        g = xy / (2 * self.f) + self.tilt + self.wave * np.cos(phase)[:, None] * self.k
        return G.f32(np.c_[xy, z] + self.place), G.f32(O.unit(np.c_[-g, np.ones(len(g))]))


def parameters(points):
    p = points[:, :2].astype(float)
    return (p - p.min(0) + 1e-5) / (np.ptp(p, axis=0) + 2e-5)


def flat_net(points, shape):
    size = np.ptp(points[:, :2], axis=0)
    net = np.zeros((*shape, 3))
    net[..., 0] = np.linspace(-size[0] / 2, size[0] / 2, shape[0])[:, None]
    net[..., 1] = np.linspace(-size[1] / 2, size[1] / 2, shape[1])
    return net


def errors(net, degrees, points, normals):
    """Root mean square distance of points and of normals."""
    p, n, _ = O.bspline_surface(np.asarray(net, float), degrees, parameters(points))
    return float(np.sqrt(((p - points) ** 2).sum(1).mean())), float(np.sqrt(((n - normals) ** 2).sum(1).mean()))


def best_fit(points, shape, degrees):
    """Distance of the best net in the least squares sense."""
    uv = parameters(points)
    bu, bv = O.basis(shape[0], degrees[0], uv[:, 0])[0], O.basis(shape[1], degrees[1], uv[:, 1])[0]
    a = np.einsum("pi,pj->pij", bu, bv).reshape(len(uv), -1)
    x = np.linalg.lstsq(a, points.astype(float), rcond=None)[0]
    return float(np.sqrt(((a @ x - points) ** 2).sum(1).mean()))


def spying_adam(lr):
    """The user's optimiser, noting the parameters before each of its steps."""

    class Spy(torch.optim.Adam):
        seen = []

        def step(self, closure=None):
            self.seen.append([p.detach().clone() for group in self.param_groups for p in group["params"]])
            return super().step(closure)

    Spy.seen = []
    return Spy([torch.empty(1, requires_grad=True)], lr=lr)


def plateau(optimizer, spy=None):
    class Spy(torch.optim.lr_scheduler.ReduceLROnPlateau):
        def step(self, metrics, *a, **k):
            if spy is not None:
                spy.append(float(metrics))
            return super().step(metrics, *a, **k)

    return Spy(optimizer, mode="min", factor=0.2, patience=50, threshold=1e-7, threshold_mode="abs")


def net_choice(rng):
    degrees = [int(rng.integers(2, 4)), int(rng.integers(2, 4))]
    shape = [int(rng.integers(d + 1, 9)) for d in degrees]
    return shape, degrees


def generator(shape, degrees):
    return SurfaceGenerator(number_of_control_points=torch.tensor(shape), degrees=torch.tensor(degrees), device=G.CPU)


def as4(points, w):
    return G.T(np.c_[points, np.full(len(points), w)])


@CHECK.family(quick=48, thorough=600, chunk=1, timeout=300)
def fits(mon, rng):
    """One facet, to convergence."""
    method = (C.fit_nurbs_from_points, C.fit_nurbs_from_normals)[mon.index % 2]
    mirror, (shape, degrees) = Mirror(rng, place=mon.index % 4 == 0), net_choice(rng)
    points, normals = mirror.sample(rng, int(rng.integers(60, 300)))
    losses = [] if rng.random() < 0.5 else None
    optimizer = spying_adam(1e-3)
    scheduler = plateau(optimizer, losses) if losses is not None else None
    p, n = as4(points, 1.0), as4(normals, 0.0)
    keep = p.clone(), n.clone()
    epochs = 400 if mon.tier == "quick" else int(rng.integers(400, 900))
    with mon.code("fit_nurbs", method=method):
        surface = generator(shape, degrees).fit_nurbs(surface_points=p, surface_normals=n, optimizer=optimizer, scheduler=scheduler, fit_method=method,
                                                      max_epoch=epochs, device=G.CPU)
    mon.expect(torch.equal(p, keep[0]) and torch.equal(n, keep[1]), "samples-changed")
    net = G.N(surface.control_points)
    who = dict(method=method, net=shape, degrees=degrees, place=bool(mirror.place.any()))
    if not mon.expect(net.shape == (1, 1, *shape, 3) and np.isfinite(net).all(), "control-net", got=net.shape, **who):
        return
    net = net[0, 0]
    far, bent = errors(net, degrees, points, normals)
    far0, bent0 = errors(flat_net(points, shape), degrees, points, normals)
    if method == C.fit_nurbs_from_points:
        best = best_fit(points, shape, degrees)
        mon.maximum("point error over flat start", far / far0)
        mon.expect(far <= best + 0.15 * far0, "points-not-reproduced", error=far, best=best, flat=far0, **who)
    else:
        mon.maximum("normal error over flat start", bent / bent0)
        mon.expect(bent <= 0.15 * bent0 + 1e-4, "normals-not-reproduced", error=bent, flat=bent0, **who)
    mon.count("epochs of fits", len(optimizer.seen))
    mon.observe(f"fit|{method}|{shape}|{degrees}|{len(points)}|{losses is not None}")


@CHECK.family(quick=80, thorough=800, chunk=2)
def progress(mon, rng):
    """Every epoch of a short fit: the loss that the scheduler sees, when it stops, and that it starts from the flat facet."""
    method = (C.fit_nurbs_from_points, C.fit_nurbs_from_normals)[mon.index % 2]
    mirror, (shape, degrees) = Mirror(rng), net_choice(rng)
    points, normals = mirror.sample(rng, int(rng.integers(40, 150)))
    epochs = int(rng.integers(0, 40))
    losses = []
    optimizer = spying_adam(1e-3)
    p, n = as4(points, 1.0), as4(normals, 0.0)

    def loss_of(net):
        far, bent = errors(G.N(net).reshape(*shape, 3), degrees, points, normals)
        return (far if method == C.fit_nurbs_from_points else bent) ** 2 / 4

    first = loss_of(torch.tensor(flat_net(points, shape)))
    tolerance = first * float(rng.choice([0.0, 0.5, 0.9, 2.0]))
    with mon.code("fit_nurbs", method=method):
        surface = generator(shape, degrees).fit_nurbs(surface_points=p, surface_normals=n, optimizer=optimizer, scheduler=plateau(optimizer, losses),
                                                      fit_method=method, tolerance=tolerance, max_epoch=epochs, device=G.CPU)
    seen = [s[0] for s in optimizer.seen]
    who = dict(method=method, net=shape, degrees=degrees, epochs=epochs, tolerance=tolerance)
    if not mon.expect(1 <= len(seen) <= epochs + 1 and all(len(s) == 1 for s in optimizer.seen), "number-of-steps", got=len(seen), **who):
        return
    want = np.array([loss_of(s) for s in seen])
    mon.close(G.N(seen[0]).reshape(*shape, 3), flat_net(points, shape), "start-is-not-flat", atol=1e-5, **who)
    mon.close(losses, want, "loss-seen-by-scheduler", rtol=2e-3, atol=1e-10, **who)
    mon.expect((want[:-1] > tolerance * (1 - 5e-3)).all(), "continues-below-tolerance", losses=want, **who)
    mon.expect(len(seen) == epochs + 1 or want[-1] <= tolerance * (1 + 5e-3), "stops-early", losses=want, **who)
    final = loss_of(surface.control_points.detach())
    if len(seen) >= 25:
        # (the first steps of Adam may overshoot)
        mon.expect(final <= first * 1.05 + 1e-8, "worse-than-the-flat-start", first=first, final=final, **who)
        mon.count("ends against flat starts", 1)
    mon.count("losses watched", len(seen))
    mon.count("stopped at the tolerance", int(len(seen) < epochs + 1))
    mon.observe(f"progress|{method}|{shape}|{degrees}|{len(points)}|{epochs}")


@CHECK.family(quick=40, thorough=400, chunk=1)
def heliostats(mon, rng):
    """Surfaces of several facets: order, translations, subsets of the samples, and no influence of facets fitted earlier."""
    method = (C.fit_nurbs_from_points, C.fit_nurbs_from_normals)[mon.index % 2]
    shape, degrees = net_choice(rng)
    count, step, epochs = int(rng.integers(1, 5)), int(rng.choice([1, 2, 3])), int(rng.integers(55, 140))
    # uneven numbers of samples
    samples = [Mirror(rng).sample(rng, int(rng.integers(120, 160))) for _ in range(count)]
    if rng.random() < 0.5:
        samples = [(p[: len(p) - int(rng.integers(0, 9))], n) for p, n in samples]
        samples = [(p, n[: len(p)]) for p, n in samples]
    use_scheduler = rng.random() < 0.7
    place, canting = G.f32(np.c_[rng.normal(0, 1, (count, 3)), np.zeros(count)]), G.f32(rng.normal(0, 1, (count, 2, 4)))
    points, normals = [G.T(p) for p, _ in samples], [G.T(n) for _, n in samples]
    keep = [x.clone() for x in (*points, *normals)]
    tplace, tcant = G.T(place), G.T(canting)
    g = generator(shape, degrees)
    who = dict(method=method, facets=count, net=shape, degrees=degrees, step=step, scheduler=bool(use_scheduler))

    def tools():
        optimizer = torch.optim.Adam([torch.empty(1, requires_grad=True)], lr=1e-3)
        return dict(optimizer=optimizer, scheduler=plateau(optimizer) if use_scheduler else None)

    def surface(tools, points=points, normals=normals, place=tplace, canting=tcant):
        with mon.code("generate_fitted_surface_config", **who):
            return g.generate_fitted_surface_config(
                heliostat_name="h", facet_translation_vectors=place, canting=canting, surface_points_with_facets_list=points,
                surface_normals_with_facets_list=normals, deflectometry_step_size=step, fit_method=method, max_epoch=epochs, device=G.CPU, **tools)

    shared = tools()
    config = surface(shared)
    mon.expect(all(torch.equal(a, b) for a, b in zip(keep, (*points, *normals))) and np.array_equal(G.N(tplace), place)
               and np.array_equal(G.N(tcant), canting), "inputs-changed", **who)
    facets = config.facet_list
    if not mon.expect(len(facets) == count and [f.facet_key for f in facets] == [f"facet_{k + 1}" for k in range(count)], "facets", **who):
        return
    least = min(len(p) for p in points)
    for k, facet in enumerate(facets):
        at = place[k] if method == C.fit_nurbs_from_normals else np.zeros(4)
        mon.close(G.N(facet.translation_vector), at, "translation", facet=k, **who)
        mon.close(G.N(facet.canting), canting[k], "canting", facet=k, **who)
        mon.expect(G.N(facet.degrees).tolist() == degrees and not facet.control_points.requires_grad, "facet-settings", facet=k, **who)
        # alone, with fresh tools
        alone = surface(tools(), [points[k][:least]], [normals[k][:least]], tplace[k : k + 1], tcant[k : k + 1]).facet_list[0]
        mon.close(G.N(facet.control_points), G.N(alone.control_points), "depends-on-facets-fitted-before", atol=1e-6, rtol=1e-6, facet=k, **who)
        p, n = samples[k][0][:least:step], samples[k][1][:least:step]
        net = G.N(facet.control_points) - at[:3]
        far, bent = errors(net, degrees, p, n)
        far0, bent0 = errors(flat_net(p, shape), degrees, p, n)
        got, start = (far, far0) if method == C.fit_nurbs_from_points else (bent, bent0)
        mon.expect(got <= start * 1.02 + 1e-5, "facet-worse-than-flat", facet=k, error=got, flat=start, **who)
        mon.count("facets fitted", 1)
    # the next heliostat, with the same optimiser and scheduler
    again = surface(shared).facet_list
    mon.expect(all(torch.equal(a.control_points, b.control_points) for a, b in zip(facets, again)), "depends-on-heliostats-fitted-before", **who)
    mon.observe(f"heliostat|{method}|{shape}|{degrees}|{count}|{step}|{use_scheduler}")


@CHECK.family(quick=1, thorough=1)
def known_place(mon, rng):
    """Normals are fitted at parameters that belong to another place of the facet."""
    mirror = Mirror(rng)
    mirror.half, mirror.f, mirror.tilt, mirror.wave = G.f32(np.array([1.0, 1.0])), 30.0, np.zeros(2), 0.0
    points, normals = mirror.sample(rng, 200)
    shape, degrees = [10, 10], [3, 3]
    optimizer = spying_adam(1e-3)
    with mon.code("fit_nurbs", method="normals"):
        surface = generator(shape, degrees).fit_nurbs(surface_points=as4(points, 1.0), surface_normals=as4(normals, 0.0), optimizer=optimizer, max_epoch=400,
                                                      device=G.CPU)
    at, got, _ = O.bspline_surface(G.N(surface.control_points)[0, 0].astype(float), degrees, parameters(points))
    want = O.unit(np.c_[-at[:, :2] / (2 * mirror.f), np.ones(len(at))])
    flat = np.sqrt(((normals - [0, 0, 1]) ** 2).sum(1).mean())
    off = np.sqrt(((got - want) ** 2).sum(1).mean())
    mon.expect(off <= 0.05 * flat, "normals-of-another-place", error=off, flat=flat, shift=np.abs(at[:, :2] - points[:, :2]).max())
    mon.observe("place")


CHECK.require("ordered pairs", 50000)
CHECK.require("epochs of fits", 15000)
CHECK.require("losses watched", 300)
CHECK.require("stopped at the tolerance", 10)
CHECK.require("facets fitted", 60)
CHECK.require("ends against flat starts", 4)
