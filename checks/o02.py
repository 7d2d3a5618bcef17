"""O02 - surface reconstruction improves the field and touches nothing else."""

import numpy as np
import torch

from artist.flux import bitmap
from artist.nurbs import NURBSSurfaces
from artist.nurbs.utils import create_nurbs_evaluation_grid
from artist.optim import SurfaceReconstructor
from artist.optim import loss as L
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.util import constants as C
from checks import l02 as REG
from checks import o01 as KIN
from vlib import gen as G
from vlib import optim as OP
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "O02",
    rule="one evaluation = one heliostat group whose surfaces were reconstructed from flux images of known deformed mirrors, whose recorded "
    "loss terms, reports, returned control points, rebuilt surfaces and untouched data were judged; distinct = (family, loss, scheduler, "
    "facets, heliostats with data, samples per heliostat, groups, regularisation); non-trivial = at least one heliostat with data",
    assumptions=["every heliostat with data has the same number of samples, at least two (documented)",
                 "stored surfaces are flat or deformed facets in facet coordinates (fitted surfaces: see finding N02)",
                 "all measured images carry light"],
)


def grid(k):
    return create_nurbs_evaluation_grid(number_of_evaluation_points=torch.tensor(k), device=G.CPU)


class Case:
    def __init__(self, rng, groups=(1, 2), per_group=(1, 3), samples=None, deform=2.5e-3, bump=0.0, rays=3):
        facets = int(rng.choice([1, 4]))
        self.points = [int(rng.integers(3, 6)), int(rng.integers(3, 6))] if facets == 1 else [3, int(rng.integers(3, 5))]
        net = (int(rng.integers(3, 6)), int(rng.integers(3, 6)))
        self.scene, self.with_data = KIN.plan(rng, groups=groups, per_group=per_group, k=3, facets=facets, net=net, bump=bump, rays=rays,
                                              scale=4e-3, near=30.0, far=70.0)
        self.facets, self.samples = facets, int(rng.integers(2, 6)) if samples is None else samples
        self.res = [int(rng.integers(10, 20)), int(rng.integers(10, 20))]
        self.dni = None if rng.random() < 0.5 else float(rng.uniform(400, 1000))
        self.batch = int(rng.choice([1, 3, 100]))
        self.parser, self.jobs = OP.MemoryParser(self.scene.scenario), []
        for g, who in self.with_data.items():
            s = self.scene.specs[g]
            mask = np.zeros(s.n, int)
            mask[who] = self.samples
            n = int(mask.sum())
            d = dict(g=g, mask=mask, owner=G.expand(mask), n=n, samples=self.samples, idx=rng.integers(0, len(self.scene.targets), n),
                     incident=G.sun_directions(rng, n))
            true = s.control.copy()
            true[..., 2] += rng.normal(0, deform, true.shape[:-1])
            rows = KIN.train_rows(d)
            d["train"], d["test"] = np.flatnonzero(rows), np.flatnonzero(~rows)
            with torch.no_grad():
                flux = torch.zeros((n, self.res[1], self.res[0]))
                for part in (d["train"], d["test"]):
                    flux[part] = self.flux(d, part, G.T(true))
            d["flux"] = flux
            self.jobs.append(d)
            self.parser.put(g, flux, np.ones((n, 4)), d["incident"], np.zeros((n, 2)), mask, d["idx"])

    def usable(self):
        return all((d["flux"].sum((1, 2)) > 0.05).all() for d in self.jobs)

    def flux(self, d, rows, control):
        """The documented pipeline: surfaces from control points, alignment with the sun, trace, crop."""
        group = self.scene.groups[d["g"]]
        mask = np.bincount(d["owner"][rows], minlength=self.scene.specs[d["g"]].n)
        m = torch.tensor(mask, dtype=torch.int32)
        group.activate_heliostats(active_heliostats_mask=m, device=G.CPU)
        owner = torch.tensor(d["owner"][rows])
        surfaces = NURBSSurfaces(degrees=group.nurbs_degrees, control_points=control[owner], device=G.CPU)
        points, normals = surfaces.calculate_surface_points_and_normals(
            evaluation_points=grid(self.points)[None, None].expand(len(rows), self.facets, -1, -1), canting=group.canting[owner],
            facet_translations=group.facet_translations[owner], device=G.CPU)
        group.active_surface_points, group.active_surface_normals = points.reshape(len(rows), -1, 4), normals.reshape(len(rows), -1, 4)
        idx = torch.tensor(d["idx"][rows], dtype=torch.int32)
        group.align_surfaces_with_incident_ray_directions(
            aim_points=self.scene.tower.get_centers_of_target_areas(target_area_indices=idx, device=G.CPU),
            incident_ray_directions=G.T(d["incident"][rows]), active_heliostats_mask=m, device=G.CPU)
        tracer = HeliostatRayTracer(scenario=self.scene.scenario, heliostat_group=group, blocking_active=False, batch_size=100, random_seed=0,
                                    dni=self.dni, bitmap_resolution=torch.tensor(self.res))
        image = tracer.trace_rays(incident_ray_directions=G.T(d["incident"][rows]), active_heliostats_mask=m, target_area_indices=idx,
                                  device=G.CPU)[0]
        return bitmap.crop_flux_distributions_around_center(flux_distributions=image, solar_tower=self.scene.tower, target_area_indices=idx,
                                                            device=G.CPU)

    def loss(self, kind, d, rows, image):
        fn = L.FocalSpotLoss(self.scene.scenario) if kind == "FocalSpotLoss" else getattr(L, kind)()
        return fn(prediction=image, ground_truth=d["flux"][rows], target_area_indices=torch.tensor(d["idx"][rows]), reduction_dimensions=(1, 2),
                  device=G.CPU)

    def run(self, mon, kind, opt, sched, constraints):
        scene, controls = self.scene, []
        base = L.FocalSpotLoss if kind == "FocalSpotLoss" else getattr(L, kind)
        loss = OP.recording(base, **({"scenario": scene.scenario} if kind == "FocalSpotLoss" else {}))
        self.before = OP.stored(scene)
        with mon.code("reconstruct_surfaces", loss=kind):
            worker = SurfaceReconstructor(
                ddp_setup=OP.single_process(len(scene.groups)), scenario=scene.scenario,
                data={C.data_parser: self.parser, C.heliostat_data_mapping: []},
                optimization_configuration={C.optimization: opt, C.scheduler: sched, C.constraints: constraints}, dni=self.dni,
                number_of_surface_points=torch.tensor(self.points), bitmap_resolution=torch.tensor(self.res), device=G.CPU)
            final, history = worker.reconstruct_surfaces(loss_definition=loss, device=G.CPU)
        return loss.calls, final, history


def limits(rng, regular=True, energy=True):
    return {C.rho_flux_integral: float(rng.uniform(0.5, 5)) if energy else 0.0, C.energy_tolerance: float(rng.choice([0.0, 0.01])),
            C.weight_smoothness: float(rng.choice([0.0, 0.005, 0.1])) if regular else 0.0,
            C.weight_ideal_surface: float(rng.choice([0.0, 0.005, 0.1])) if regular else 0.0}


def untouched(mon, case, **who):
    """Only control points of heliostats with data move, never the outline of a facet; surfaces follow the control points."""
    scene = case.scene
    after = OP.stored(scene)
    allowed = {(g, f) for g in range(len(scene.groups)) for f in ("surface_points", "surface_normals")}
    allowed |= {(d["g"], "nurbs_control_points") for d in case.jobs}
    OP.unchanged(mon, case.before, after, allowed=allowed, **who)
    for d in case.jobs:
        old, new = case.before[d["g"], "nurbs_control_points"], after[d["g"], "nurbs_control_points"]
        mon.expect(bool(torch.isfinite(new).all()) and new.shape == old.shape, "control-points-not-finite", **who)
        idle = np.setdiff1d(np.arange(len(d["mask"])), np.unique(d["owner"]))
        mon.expect(torch.equal(new[idle], old[idle]), "heliostat-without-data-changed", idle=idle, **who)
        mon.count("heliostats without data", len(idle))
        edge = np.ones(old.shape[2:4], bool)
        edge[1:-1, 1:-1] = False
        mon.expect(torch.equal(new[:, :, edge][..., :2], old[:, :, edge][..., :2]), "outline-of-facet-moved", **who)
        mon.count("locked coordinates", int(edge.sum()) * old.shape[0] * old.shape[1] * 2)
    for g, (s, group) in enumerate(zip(scene.specs, scene.groups)):
        control = G.N(group.nurbs_control_points)
        points, normals = G.N(group.surface_points), G.N(group.surface_normals)
        for h in range(s.n):
            want_p, want_n = O.heliostat_surface(control[h], s.degrees, s.canting[h], s.translations[h], s.k, s.k)
            mon.close(points[h], want_p, "surface-follows-control-points", atol=3e-5, heliostat=h, **who)
            mon.close(normals[h], want_n, "normals-follow-control-points", atol=3e-5, heliostat=h, **who)
            mon.count("surfaces rebuilt")


@CHECK.family(quick=24, thorough=400, chunk=1)
def first_step(mon, rng):
    """One step moves every free coordinate against the derivative of the documented loss, and no other one."""
    kind = ("PixelLoss", "KLDivergenceLoss", "PixelLoss")[mon.index % 3]
    case = Case(rng, bump=2e-4 * (mon.index % 2))
    if not case.usable():
        return
    lr = float(10 ** rng.uniform(-6, -4))
    calls, final, history = case.run(mon, kind, OP.optimisation(lr, 0, case.batch), OP.schedule(rng, C.exponential, lr, 1), limits(rng))
    who = dict(loss_kind=kind, samples=case.samples)
    reports(mon, case, calls, final, history, 0, None, **who)
    moved = {d["g"]: G.N(case.scene.groups[d["g"]].nurbs_control_points) for d in case.jobs}
    untouched(mon, case, **who)
    for d in case.jobs:
        s = case.scene.specs[d["g"]]
        p = G.T(s.control).requires_grad_()
        rows = d["train"]
        k = len(rows) // len(np.unique(d["owner"]))
        values = case.loss(kind, d, rows, case.flux(d, rows, p))
        values.mean().backward()
        at = KIN.offsets(case.scene)[d["g"]] + np.unique(d["owner"])
        mon.close(G.N(final)[at], G.N(values).reshape(-1, k).mean(1), "loss-value", rtol=1e-4, atol=1e-7, **who)
        grad = G.N(p.grad)
        edge = np.ones(grad.shape[2:4], bool)
        edge[1:-1, 1:-1] = False
        grad[:, :, edge, :2] = 0
        step = moved[d["g"]] - s.control
        clear = np.abs(grad) > 0.02 * np.abs(grad).max() + 1e-5
        clear &= (lr > 100 * np.spacing(np.abs(s.control).astype(np.float32))) | (s.control == 0)
        mon.count("clear derivatives", int(clear.sum()))
        mon.expect(np.array_equal(np.sign(step[clear]), -np.sign(grad[clear])), "step-against-derivative", **who)
        mon.close(np.abs(step[clear]) / lr, np.ones(clear.sum()), "step-size", atol=0.05, **who)
        heights = np.abs(grad[..., 2]) > 0.02 * np.abs(grad[..., 2]).max()
        mon.expect((step[..., 2][heights] != 0).all(), "height-not-optimised", **who)
        mon.observe(f"first|{kind}|{case.facets}|{len(at)}of{s.n}|{case.samples}|{len(case.scene.groups)}|{case.batch}",
                    sample=dict(largest=np.abs(grad).max(), lr=lr))


def reports(mon, case, calls, final, history, epochs, constraints, **who):
    """Every reported number against the recorded evaluations; `constraints` enables the augmented Lagrangian model."""
    off, final = KIN.offsets(case.scene), G.N(final)
    mon.expect(final.shape == (off[-1],), "final-loss-length", **who)
    mon.expect(len(history) == 1 and len(history[0]) == len(case.jobs), "history-entries", got=[len(h) for h in history], **who)
    covered, at = np.zeros(off[-1], bool), 0
    for d, h in zip(case.jobs, history[0]):
        n = len(np.unique(d["owner"]))
        rows = d["train"]
        k = len(rows) // n
        total = np.array(h["total_loss"])
        mine = calls[at:at + len(total)]
        at += len(total)
        mon.expect(len(mine) == len(total) == epochs + 1, "history-length", got=len(total), evaluations=len(mine), want=epochs + 1, **who)
        for c in mine:
            mon.expect(torch.equal(c["truth"], d["flux"][rows]), "measured-flux", **who)
            mon.expect(np.array_equal(G.N(c["kwargs"]["target_area_indices"]), d["idx"][rows]), "measured-targets", **who)
        flux = np.array([G.N(c["loss"]).reshape(n, k).mean(1) for c in mine])
        mon.close(h["flux_loss"], flux.mean(1), "history-is-not-the-flux-loss", rtol=2e-5, atol=1e-7, **who)
        parts = np.array(h["flux_loss"]) + np.array(h["smoothness_regularizer"]) + np.array(h["ideal_regularizer"]) + np.array(h["flux_integral_constraint"])
        mon.close(total, parts, "total-is-not-the-sum-of-its-terms", rtol=1e-4, atol=1e-6, **who)
        where = off[d["g"]] + np.unique(d["owner"])
        covered[where] = True
        mon.close(final[where].mean(), total[-1], "final-loss-is-not-the-last", rtol=1e-4, atol=1e-6, **who)
        mon.expect(np.isfinite(final[where]).all(), "final-loss-not-finite", **who)
        mon.count("loss evaluations watched", len(mine))
        if constraints is None:
            continue
        # energy constraint: augmented Lagrangian on the loss of light against the first epoch
        rho, tol, lam, want, want_rel = constraints[C.rho_flux_integral], constraints[C.energy_tolerance], np.zeros(n), [], []
        reference = G.N(mine[0]["prediction"]).sum((1, 2))
        for c in mine:
            rel = (G.N(c["prediction"]).sum((1, 2)) - reference) / reference
            lost = np.maximum(-tol - rel, 0).reshape(n, k).mean(1)
            want.append((lam * lost + rho / 2 * lost**2).mean())
            want_rel.append(rel.mean())
            lam = np.maximum(lam + rho * lost, 0)
        mon.close(h["flux_integral_constraint"], want, "energy-constraint", rtol=2e-3, atol=3e-6, **who)
        mon.close(h["flux_integral"], want_rel, "energy-history", rtol=1e-3, atol=1e-5, **who)
        mon.count("epochs with active energy constraint", int((np.array(want) > 1e-6).sum()))
        # dynamic weights: a regulariser contributes its weight times the flux loss on average once the surfaces moved
        for name, weight in (("smoothness_regularizer", C.weight_smoothness), ("ideal_regularizer", C.weight_ideal_surface)):
            got, w = np.array(h[name]), constraints[weight]
            mon.expect(abs(got[0]) <= 1e-9 if w else (got == 0).all(), "regulariser-of-unmoved-surface", term=name, got=got[:3], **who)
            # (a vanishing regulariser is divided by itself plus 1e-12, so its share lies between nothing and the full weight)
            mon.expect((got >= 0).all() and (got <= w * flux.mean(1) * 1.001 + 1e-9).all(), "regulariser-outweighs", term=name, **who)
            if w and len(got) > 3:
                change = G.N(case.scene.groups[d["g"]].nurbs_control_points) - G.N(case.before[d["g"], "nurbs_control_points"])
                size = (REG.smooth if name[0] == "s" else REG.ideal)(change[np.unique(d["owner"])]).mean()
                if size > 1e-9:
                    mon.close(got[-1], w * flux.mean(1)[-1], "weight-of-regulariser", rtol=0.01, term=name, **who)
                    mon.count("regularisers weighed")
    mon.expect(np.isinf(final[~covered]).all() and (final[~covered] > 0).all(), "loss-without-data", **who)


@CHECK.family(quick=24, thorough=320, chunk=1)
def several_epochs(mon, rng):
    kind = ("PixelLoss", "KLDivergenceLoss")[mon.index % 2]
    case = Case(rng)
    if not case.usable():
        return
    epochs = int(rng.integers(6, 16))
    constraints = limits(rng)
    name = (C.exponential, C.cyclic, C.reduce_on_plateau)[mon.index % 3]
    lr = float(rng.choice([5e-5, 3e-4]))
    calls, final, history = case.run(mon, kind, OP.optimisation(lr, epochs, case.batch, log_step=int(rng.choice([0, 1, 3]))),
                                     OP.schedule(rng, name, lr, epochs), constraints)
    who = dict(loss_kind=kind, scheduler=name, samples=case.samples)
    reports(mon, case, calls, final, history, epochs, constraints, **who)
    untouched(mon, case, **who)
    for d in case.jobs:
        s = case.scene.specs[d["g"]]
        mon.observe(f"epochs|{kind}|{name}|{case.facets}|{len(np.unique(d['owner']))}of{s.n}|{case.samples}|{len(case.scene.groups)}|"
                    f"{constraints[C.weight_smoothness]}|{constraints[C.weight_ideal_surface]}|{case.batch}",
                    sample=dict(total=history[0][0]["total_loss"]))


@CHECK.family(quick=16, thorough=240, chunk=1)
def improves(mon, rng):
    """Without regularisation and with decaying steps the returned surfaces explain the measurements better."""
    case = Case(rng, deform=3e-3)
    if not case.usable():
        return
    epochs, lr = int(rng.integers(12, 20)), 2e-4
    calls, final, history = case.run(mon, "PixelLoss", OP.optimisation(lr, epochs, case.batch), OP.schedule(rng, C.exponential, lr, epochs, gamma=0.6),
                                     limits(rng, regular=False, energy=False))
    who = dict(samples=case.samples)
    reports(mon, case, calls, final, history, epochs, None, **who)
    controls = [case.scene.groups[d["g"]].nurbs_control_points.detach().clone() for d in case.jobs]
    untouched(mon, case, **who)
    for d, control, h in zip(case.jobs, controls, history[0]):
        s, rows, test = case.scene.specs[d["g"]], d["train"], d["test"]
        n = len(np.unique(d["owner"]))
        with torch.no_grad():
            start = G.N(case.loss("PixelLoss", d, rows, case.flux(d, rows, G.T(s.control)))).reshape(n, -1).mean(1)
            end = G.N(case.loss("PixelLoss", d, rows, case.flux(d, rows, control))).reshape(n, -1).mean(1)
            image = case.flux(d, test, control)
            pixel = G.N(case.loss("PixelLoss", d, test, image)).reshape(n, -1).mean(1)
        at = KIN.offsets(case.scene)[d["g"]] + np.unique(d["owner"])
        mon.close(h["total_loss"][0], start.mean(), "loss-of-initial-surface", rtol=1e-3, atol=1e-5, **who)
        mon.close(G.N(final)[at], end, "reported-loss-of-returned-surface", rtol=0.1, atol=2e-3 * (1 + start.max()), **who)
        mon.close(h["test_loss"]["pixel_loss"], pixel, "test-loss", rtol=0.1, atol=5e-3 * (1 + pixel.max()), **who)
        mon.maximum("remaining fraction of the loss", float(end.mean() / start.mean()))
        mon.expect(end.mean() <= start.mean(), "surface-got-worse", start=start, end=end, **who)
        mon.count("heliostats improved", int((end < start).sum()))
        mon.observe(f"improves|{case.facets}|{len(at)}of{s.n}|{case.samples}|{len(case.scene.groups)}|{case.batch}|{case.dni is None}",
                    sample=dict(start=start, end=end))


CHECK.require("clear derivatives", 300)
CHECK.require("loss evaluations watched", 200)
CHECK.require("surfaces rebuilt", 80)
CHECK.require("heliostats improved", 10)
CHECK.require("regularisers weighed", 5)
