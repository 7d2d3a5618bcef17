"""O03 - aim point optimisation improves the flux within the actuator limits."""

import numpy as np
import torch

from artist.optim import AimPointOptimizer
from artist.optim import loss as L
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.util import constants as C
from checks import o01 as KIN
from vlib import gen as G
from vlib import optim as OP
from vlib.core import Check

CHECK = Check(
    "O03",
    rule="one evaluation = one field whose motor positions were optimised towards a desired flux, whose reports, loss terms, returned motor "
    "positions, actuator limits and untouched data were judged; distinct = (family, loss, scheduler, groups, heliostats, actuator kinds, "
    "target type); non-trivial = all",
    assumptions=["initial motor positions lie at least one unit inside the range of their actuator (except in the family near_the_limit)",
                 "the desired flux is an image that carries light",
                 "steps are not so large that no ray at all meets the target any more (there is no derivative then; the run is counted and left out)"],
)
KINDS = ("KLDivergenceLoss", "PixelLoss", "KLDivergenceLoss", "FocalSpotLoss")


def blob(res, center, width):
    y, x = np.mgrid[0:res[1], 0:res[0]]
    return np.exp(-((x - center[0]) ** 2 + (y - center[1]) ** 2) / (2 * width**2)) + 1e-3


class Case:
    def __init__(self, rng, kind, groups=(1, 2), per_group=(1, 3), rays=3):
        self.kind = kind
        self.scene = G.random_scene(rng, groups=int(rng.integers(groups[0], groups[1] + 1)), per_group=per_group, planar=(0, 2), cylindrical=(0, 2),
                                    k=3, rays=rays, scale=3e-3, deviations=0.2, near=35.0, far=80.0)
        scene = self.scene
        for s in scene.specs:
            if s.kind == "ideal":
                for a in s.acts:
                    a["min"], a["max"] = [-float(rng.uniform(3.3, 4.5))] * 2, [float(rng.uniform(2.5, 4.5))] * 2
        self.scene = scene = G.Scene(scene.specs, [t for t in scene.targets if t["type"] == "planar"],
                                     [t for t in scene.targets if t["type"] != "planar"], scene.light)
        self.target = int(rng.integers(len(scene.targets)))
        self.res = [int(rng.integers(10, 24)), int(rng.integers(10, 24))]
        self.sun = G.sun_directions(rng, 1)[0]
        self.dni = float(rng.uniform(400, 1000)) if rng.random() < 0.6 else None
        self.batch = int(rng.choice([1, 2, 100]))
        self.n = [s.n for s in scene.specs]
        aims = [np.full(s.n, self.target) for s in scene.specs]
        self.start = []
        for g, s in enumerate(scene.specs):
            scene.align(g, np.ones(s.n, int), aims[g], np.tile(self.sun, (s.n, 1)))
            self.start.append(scene.groups[g].kinematics.active_motor_positions.detach().clone())
        self.low = [G.T(np.array([a["min"] for a in s.acts])) for s in scene.specs]
        self.high = [G.T(np.array([a["max"] for a in s.acts])) for s in scene.specs]
        self.margin = [torch.minimum(m - lo, hi - m) for m, lo, hi in zip(self.start, self.low, self.high)]
        center = np.array(self.res) / 2 - 0.5 + rng.uniform(-0.25, 0.25, 2) * self.res
        self.truth = G.T(blob(self.res, center, rng.uniform(0.1, 0.3) * max(self.res)))
        with torch.no_grad():
            self.initial = self.trace(self.start)
        self.truth = self.truth / self.truth.sum() * max(float(self.initial[0].sum()), 1e-3)

    def rays(self):
        return self.scene.light.number_of_rays * self.scene.groups[0].surface_points.shape[1]

    def usable(self):
        return float(self.initial[0].sum()) > 0.5 and all(float(m.min()) >= 1.0 for m in self.margin)

    def trace(self, motors):
        """Total flux on the target and the three fractions of every heliostat, through the public pipeline."""
        scene, sums, fractions = self.scene, 0.0, []
        masks = [torch.ones(n, dtype=torch.int32) for n in self.n]
        for group, mask, m in zip(scene.groups, masks, motors):
            group.activate_heliostats(active_heliostats_mask=mask, device=G.CPU)
            group.align_surfaces_with_motor_positions(motor_positions=m, active_heliostats_mask=mask, device=G.CPU)
        for group, mask in zip(scene.groups, masks):
            n = len(mask)
            tracer = HeliostatRayTracer(scenario=scene.scenario, heliostat_group=group, blocking_active=True, batch_size=self.batch, random_seed=0,
                                        dni=self.dni, bitmap_resolution=torch.tensor(self.res))
            idx = torch.full((n,), self.target, dtype=torch.int32)
            flux, *rest = tracer.trace_rays(incident_ray_directions=G.T(np.tile(self.sun, (n, 1))), active_heliostats_mask=mask,
                                            target_area_indices=idx, device=G.CPU)
            sums = sums + flux.sum(0)
            fractions.append(rest)
        return sums, *(torch.cat([f[k] for f in fractions]) for k in range(3))

    def loss(self, flux):
        fn = L.FocalSpotLoss(self.scene.scenario) if self.kind == "FocalSpotLoss" else getattr(L, self.kind)()
        return fn(prediction=flux[None], ground_truth=self.truth[None], target_area_indices=torch.tensor([self.target]),
                  reduction_dimensions=(1, 2), device=G.CPU).sum()

    def pixel_limit(self, density):
        t = self.scene.targets[self.target]
        area = np.prod(t["dims"]) if t["type"] == "planar" else t["radius"] * t["opening"] * t["height"]
        return area / np.prod(self.res) * density

    def run(self, mon, opt, sched, constraints, truth=None):
        scene = self.scene
        base = L.FocalSpotLoss if self.kind == "FocalSpotLoss" else getattr(L, self.kind)
        loss = OP.recording(base, **({"scenario": scene.scenario} if self.kind == "FocalSpotLoss" else {}))
        self.before = OP.stored(scene)
        truth = self.truth if truth is None else truth
        keep = truth.clone()
        with mon.code("optimize" if truth.dim() == 2 else "optimize-towards-a-focal-spot-vector", loss=self.kind):
            worker = AimPointOptimizer(
                ddp_setup=OP.single_process(len(scene.groups)), scenario=scene.scenario,
                optimization_configuration={C.optimization: opt, C.scheduler: sched, C.constraints: constraints},
                incident_ray_direction=G.T(self.sun), target_area_index=self.target, ground_truth=truth, dni=self.dni,
                bitmap_resolution=torch.tensor(self.res), device=G.CPU)
            try:
                out = worker.optimize(loss_definition=loss, device=G.CPU)
            except RuntimeError:
                # nothing depends on the motors any more once all light misses the target
                if not loss.calls or float(loss.calls[-1]["prediction"].abs().sum()) > 0:
                    raise
                mon.count("runs that lost all their light")
                out = None
        mon.expect(torch.equal(truth, keep), "desired-flux-modified")
        return loss.calls, out

    def final(self):
        return [g.kinematics.motor_positions.detach().clone() for g in self.scene.groups]

    def signature(self):
        return f"{len(self.n)}|{self.n}|{[s.kind for s in self.scene.specs]}|{self.scene.targets[self.target]['type']}|{self.dni is None}"


def limits(rng, case, active=True):
    peak = float(case.initial[0].max())
    # a density limit around the present peak, or far above it
    density = peak / case.pixel_limit(1.0) * float(rng.choice([0.5, 0.9, 50.0]))
    return {C.rho_flux_integral: float(rng.uniform(0.5, 3)) if active else 0.0, C.rho_local_flux: float(rng.uniform(0.5, 3)) if active else 0.0,
            C.rho_intercept: float(rng.uniform(0.5, 3)) if active else 0.0, C.max_flux_density: density}


def within(mon, case, motors, **who):
    for m, lo, hi, start in zip(motors, case.low, case.high, case.start):
        mon.expect(bool(torch.isfinite(m).all()) and m.shape == start.shape, "motor-positions-not-finite", **who)
        slack = 1e-6 * torch.maximum(lo.abs(), hi.abs()) + 1e-6
        mon.expect(bool(((m >= lo - slack) & (m <= hi + slack)).all()), "motor-outside-its-range", motor=m, low=lo, high=hi, **who)
        mon.count("motor positions against their range", m.numel())


def alike(mon, case, got, want, mech, **who):
    """The same image, except for rounding and for a few rays that graze an edge."""
    got, want = G.N(got).astype(float), G.N(want).astype(float)
    ray = max(want.sum(), got.sum()) / (case.rays() * sum(case.n))
    off = np.abs(got - want)
    mon.maximum(f"rays apart {mech}", off.sum() / (ray + 1e-12))
    if off.sum() > 5 * ray:
        mon.close(got, want, mech, rtol=2e-4, atol=1.5e-3 * want.max() + 1e-6, **who)


def reports(mon, case, calls, out, constraints, epochs, **who):
    loss, history, *fractions = out
    total, flux = np.array(history["total_loss"]), np.array(history["flux_loss"])
    mon.expect(len(total) == len(flux) == len(calls), "history-length", got=len(total), evaluations=len(calls), **who)
    if epochs is not None:
        mon.expect(len(calls) == epochs + 1, "number-of-epochs", got=len(calls), want=epochs + 1, **who)
    mon.close(flux, [float(c["loss"].sum()) for c in calls], "history-is-not-the-flux-loss", rtol=1e-5, atol=1e-8, **who)
    mon.close(float(loss.sum()), total[-1], "returned-loss", rtol=1e-5, atol=1e-8, **who)
    mon.count("loss evaluations watched", len(calls))
    for c in calls:
        mon.expect(torch.equal(c["truth"][0], case.truth), "desired-flux", **who)
    # what was traced at the start and at the end
    alike(mon, case, calls[0]["prediction"][0], case.initial[0], "initial-flux", **who)
    with torch.no_grad():
        motors = case.final()
        end = case.trace(motors)
    alike(mon, case, calls[-1]["prediction"][0], end[0], "returned-field-has-other-flux", **who)
    for name, got, want in zip(("intercept", "on target", "unblocked"), fractions, end[1:]):
        mon.close(got, want, f"reported {name} fraction", atol=2e-4 + 3.5 / case.rays(), rtol=2e-4, **who)
    if case.kind != "KLDivergenceLoss":
        mon.close(total, flux, "loss-without-constraints", rtol=1e-6, atol=1e-9, **who)
        return motors, end
    # augmented Lagrangian of the documented constraints, fed with the recorded flux images
    r_i, r_l, r_s = (constraints[k] for k in (C.rho_flux_integral, C.rho_local_flux, C.rho_intercept))
    limit = case.pixel_limit(constraints[C.max_flux_density])
    lam_i = lam_l = 0.0
    reference, integral, local, gained = float(calls[0]["prediction"].sum()), [], [], []
    for c in calls:
        f = G.N(c["prediction"][0])
        lost = (reference - f.sum()) / reference
        over = (f - limit) / limit
        integral.append(lam_i * max(lost, 0) + r_i / 2 * max(lost, 0) ** 2)
        o = np.maximum(over, 0)
        local.append((lam_l * o + r_l / 2 * o**2).max())
        gained.append(-100 * lost)
        lam_i, lam_l = max(lam_i + r_i * lost, 0), max(lam_l + r_l * over.max(), 0)
    mon.close(history["flux_integral_constraint"], integral, "flux-integral-constraint", rtol=5e-3, atol=3e-6, **who)
    mon.close(history["local_flux_constraint"], local, "local-flux-constraint", rtol=2e-3, atol=2e-6 * (1 + max(local)), **who)
    mon.close(history["flux_integral"], gained, "flux-integral-history", rtol=2e-3, atol=1e-2, **who)
    spill = np.array(history["intercept_constraint"])
    mon.expect((spill >= 0).all() and abs(spill[0]) < 1e-9, "intercept-constraint-sign", got=spill[:3], **who)
    mon.close(total, flux + np.array(history["flux_integral_constraint"]) + np.array(history["local_flux_constraint"]) + spill,
              "total-is-not-the-sum-of-its-terms", rtol=1e-5, atol=1e-6, **who)
    mon.count("epochs over the density limit", int((np.array(local) > 0).sum()))
    mon.count("epochs with less light", int((np.array(integral) > 1e-8).sum()))
    if len(calls) == 2:
        first, last = G.N(case.initial[1]), G.N(end[1])
        lost = np.maximum((first - last) / (first + 1e-12), 0)
        mon.close(spill[1], (r_s / 2 * lost**2).mean(), "intercept-constraint", rtol=0.01, atol=1e-6, **who)
    return motors, end


def untouched(mon, case, **who):
    OP.unchanged(mon, case.before, OP.stored(case.scene), **who)


@CHECK.family(quick=100, thorough=1500, chunk=2)
def first_step(mon, rng):
    """One step moves every motor against the derivative of the documented loss, by the documented fraction of its margin."""
    case = Case(rng, KINDS[mon.index % 4])
    if not case.usable():
        return
    lr = float(10 ** rng.uniform(-5, -3.3))
    constraints = limits(rng, case)
    calls, out = case.run(mon, OP.optimisation(lr, 1, case.batch), OP.schedule(rng, C.exponential, lr, 1), constraints)
    who = dict(loss_kind=case.kind)
    motors, _ = reports(mon, case, calls, out, constraints, 1, **who)
    within(mon, case, motors, **who)
    untouched(mon, case, **who)
    start = [m.clone().requires_grad_() for m in case.start]
    flux = case.trace(start)[0]
    loss = case.loss(flux)
    if case.kind == "KLDivergenceLoss":
        limit = case.pixel_limit(constraints[C.max_flux_density])
        over = ((flux - limit) / limit).clamp(min=0)
        loss = loss + (constraints[C.rho_local_flux] / 2 * over**2).max()
    loss.backward()
    mon.close(out[1]["total_loss"][0], float(loss), "loss-of-initial-field", rtol=1e-3, atol=1e-6, **who)
    pushes = [G.N(m.grad * k) for m, k in zip(start, case.margin)]
    largest = max(np.abs(p).max() for p in pushes)
    for g, (push, m, s, k) in enumerate(zip(pushes, motors, case.start, case.margin)):
        step = G.N((m - s) / k)
        # rounding of the motor position itself hides tiny steps
        fine = np.spacing(np.abs(G.N(s)).astype(np.float32)) / G.N(k) < 0.02 * lr
        clear = (np.abs(push) > 0.02 * largest + 1e-5) & fine
        mon.count("clear derivatives", int(clear.sum()))
        mon.expect(np.array_equal(np.sign(step[clear]), -np.sign(push[clear])), "step-against-derivative", push=push, step=step / lr, **who)
        mon.close(np.abs(step[clear]) / np.tanh(lr), np.ones(clear.sum()), "step-size", atol=0.06, **who)
    mon.observe(f"first|{case.kind}|{case.signature()}", sample=dict(loss=float(loss), largest=largest))


@CHECK.family(quick=80, thorough=1200, chunk=1)
def several_epochs(mon, rng):
    case = Case(rng, KINDS[int(rng.integers(4))])
    if not case.usable():
        return
    epochs = int(rng.integers(3, 12))
    name = (C.exponential, C.cyclic, C.reduce_on_plateau)[mon.index % 3]
    lr = float(10 ** rng.uniform(-4, -2))
    constraints = limits(rng, case)
    opt = OP.optimisation(lr, epochs, case.batch, log_step=int(rng.choice([0, 1, 3])))
    calls, out = case.run(mon, opt, OP.schedule(rng, name, lr, epochs), constraints)
    who = dict(loss_kind=case.kind, scheduler=name)
    if out is None:
        return
    motors, _ = reports(mon, case, calls, out, constraints, epochs, **who)
    within(mon, case, motors, **who)
    untouched(mon, case, **who)
    mon.observe(f"epochs|{case.kind}|{name}|{case.signature()}", sample=dict(history=out[1]["total_loss"]))


@CHECK.family(quick=30, thorough=500, chunk=1)
def violent_steps(mon, rng):
    """However hard the optimiser pushes, no motor leaves its range."""
    case = Case(rng, "PixelLoss" if mon.index % 2 else "KLDivergenceLoss")
    if not case.usable():
        return
    lr = float(10 ** rng.uniform(-0.5, 1.5))
    constraints = limits(rng, case)
    epochs = int(rng.integers(2, 7))
    calls, out = case.run(mon, OP.optimisation(lr, epochs, 100), OP.schedule(rng, C.exponential, lr, epochs), constraints)
    motors = case.final()
    within(mon, case, motors, loss_kind=case.kind, lr=lr)
    untouched(mon, case)
    used = max(float(((m - s).abs() / k).max()) for m, s, k in zip(motors, case.start, case.margin))
    mon.maximum("fraction of the margin used", used)
    if used > 0.9:
        mon.count("fields pushed to the end of their range")
    mon.observe(f"violent|{case.kind}|{case.signature()}|{used > 0.9}", sample=dict(lr=lr, used=used))


@CHECK.family(quick=40, thorough=700, chunk=1)
def improves(mon, rng):
    case = Case(rng, ("KLDivergenceLoss", "FocalSpotLoss", "PixelLoss")[mon.index % 3])
    if not case.usable():
        return
    # angles of about two milliradians in total
    angle = [(2e-3 if s.kind == "ideal" else 2e-3 * 5e4) / float(k.median()) for s, k in zip(case.scene.specs, case.margin)]
    epochs, lr = int(rng.integers(14, 22)), 0.3 * min(angle)
    constraints = limits(rng, case, active=False)
    calls, out = case.run(mon, OP.optimisation(lr, epochs, case.batch), OP.schedule(rng, C.exponential, lr, epochs, gamma=0.8), constraints)
    who = dict(loss_kind=case.kind)
    if out is None:
        return
    motors, _ = reports(mon, case, calls, out, constraints, epochs, **who)
    within(mon, case, motors, **who)
    total = np.array(out[1]["total_loss"])
    mon.maximum(f"remaining fraction of the loss {case.kind}", total[-1] / total[0])
    mon.expect(total[-1] <= total[0] * (1 + 1e-6) if case.kind != "KLDivergenceLoss" else total.min() <= total[0], "field-got-worse", history=total, **who)
    mon.count("fields improved", int(total[-1] < total[0]))
    mon.observe(f"improves|{case.kind}|{case.signature()}", sample=dict(history=total))


@CHECK.family(quick=16, thorough=200, chunk=1)
def near_the_limit(mon, rng):
    """Initial positions closer to the end of the range than one unit."""
    case = Case(rng, "PixelLoss", groups=(1, 1))
    spec, kin = case.scene.specs[0], case.scene.groups[0].kinematics
    if spec.kind != "ideal" or not case.usable():
        return
    row = int(rng.integers(2))
    margin = float(rng.uniform(0.05, 0.8))
    high = case.start[0].clone()[:, row] + margin
    kin.actuators.non_optimizable_parameters[:, 3, row] = high
    case.high[0][:, row] = high
    case.margin[0][:, row] = margin
    lr = float(10 ** rng.uniform(-0.5, 1.0))
    case.run(mon, OP.optimisation(lr, int(rng.integers(1, 4)), 100), OP.schedule(rng, C.exponential, lr, 3), limits(rng, case))
    m = case.final()[0]
    beyond = torch.maximum(m - case.high[0], case.low[0] - m)
    mon.expect(float(beyond.max()) <= 1e-6, "range-ignored-within-one-unit" if float((m - case.start[0]).abs().max()) <= 4.6 and
               bool((beyond[:, 1 - row] <= 1e-6).all()) and float(beyond.max()) <= 1.0 - margin + 1e-6 else "motor-outside-its-range",
               beyond=beyond, margin=margin)
    mon.count("initial positions near the end of the range", len(m))
    mon.observe(f"near|{row}|{case.signature()}")


@CHECK.family(quick=2, thorough=8, chunk=1)
def desired_focal_spot(mon, rng):
    """The desired focal spot may be given as a homogeneous coordinate."""
    case = Case(rng, "FocalSpotLoss", groups=(1, 1))
    if not case.usable():
        return
    spot = case.scene.tower.get_centers_of_target_areas(target_area_indices=torch.tensor([case.target]), device=G.CPU)[0]
    mon.observe(f"spot|{case.signature()}")
    case.run(mon, OP.optimisation(1e-4, 1, 100), OP.schedule(rng, C.exponential, 1e-4, 1), limits(rng, case), truth=spot)


CHECK.require("clear derivatives", 100)
CHECK.require("loss evaluations watched", 300)
CHECK.require("fields improved", 8)
CHECK.require("fields pushed to the end of their range", 3)
CHECK.require("epochs over the density limit", 10)
CHECK.require("epochs with less light", 5)
