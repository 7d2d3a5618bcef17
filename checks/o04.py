"""O04 - every optimiser follows the schedule it was given and stops when it has to."""

import contextlib
import math

import numpy as np
import torch
from torch.optim import optimizer as OPT

from artist.util import constants as C
from checks import o01 as KIN
from checks import o02 as SURF
from checks import o03 as AIM
from checks import u01 as FIT
from vlib import gen as G
from vlib import optim as OP
from vlib.core import Check

CHECK = Check(
    "O04",
    rule="one evaluation = one optimisation of one group (or of the whole field, or of one facet) whose every update was recorded inside the "
    "optimiser: number of updates, learning rate of each, parameters before and after, loss it was derived from; judged by list-based models "
    "of schedule, tolerance, epoch limit and early stopping; distinct = (optimiser, scheduler, reason for the end, length class, log step); "
    "non-trivial = more than one update",
    assumptions=["losses within rounding distance of a stopping threshold are left undecided", "one process"],
)
SCHEDULERS = (C.exponential, C.cyclic, C.reduce_on_plateau)


class Recorder:
    """Updates of every optimiser that works while this is active, seen from inside the optimiser library."""

    def __enter__(self):
        self.runs, self.losses, self.by = [], [], {}
        original = torch.Tensor.backward
        self.original = original
        recorder = self

        def backward(tensor, *a, **k):
            if tensor.numel() == 1:
                recorder.losses.append(float(tensor.detach()))
            return original(tensor, *a, **k)

        torch.Tensor.backward = backward

        def before(optimizer, *_):
            params = [p for g in optimizer.param_groups for p in g["params"]]
            key = (id(optimizer), tuple(id(p) for p in params))
            run = self.by.get(key)
            if run is None:
                run = self.by[key] = dict(optimizer=optimizer, params=params, steps=[])
                self.runs.append(run)
            run["steps"].append(dict(rates=[float(g["lr"]) for g in optimizer.param_groups], start=[p.detach().clone() for p in params],
                                     loss=self.losses.pop() if self.losses else None,
                                     grads=[None if p.grad is None else p.grad.detach().clone() for p in params]))
            self.losses.clear()

        def after(optimizer, *_):
            params = [p for g in optimizer.param_groups for p in g["params"]]
            run = self.by.get((id(optimizer), tuple(id(p) for p in params)))
            if run is not None:
                run["steps"][-1]["end"] = [p.detach().clone() for p in params]

        self.handles = [OPT.register_optimizer_step_pre_hook(before), OPT.register_optimizer_step_post_hook(after)]
        return self

    def __exit__(self, *_):
        torch.Tensor.backward = self.original
        for h in self.handles:
            h.remove()


def rates(name, sched, start, losses):
    """Learning rate of every update; None once a decision of the plateau rule is too close to call."""
    out, best, bad, cool, lr = [], math.inf, 0, 0, start
    for k, loss in enumerate(losses):
        if name == C.exponential:
            out.append(start * sched[C.gamma] ** k)
        elif name == C.cyclic:
            up = sched[C.step_size_up]
            phase = k % (2 * up)
            x = phase / up if phase <= up else 2 - phase / up
            out.append(sched[C.lr_min] + (sched[C.lr_max] - sched[C.lr_min]) * x)
        else:
            out.append(lr)
            bar = best * (1 - sched[C.threshold]) if math.isfinite(best) else math.inf
            if math.isfinite(bar) and abs(loss - bar) <= 1e-7 * abs(bar):
                return out + [None] * (len(losses) - len(out))
            if loss < bar:
                best, bad = loss, 0
            else:
                bad += 1
            if cool > 0:
                cool, bad = cool - 1, 0
            if bad > sched[C.patience]:
                new = max(lr * sched[C.reduce_factor], sched[C.lr_min])
                lr = new if lr - new > 1e-8 else lr
                cool, bad = sched[C.cooldown], 0
    return out


def stopped(opt, losses):
    """Epochs at which early stopping fires (True), does not (False) or may (None)."""
    window, patience, delta = opt[C.early_stopping_window], opt[C.early_stopping_patience], opt[C.early_stopping_delta]
    bad, sure, out = 0, True, []
    for k, loss in enumerate(losses):
        if k + 1 < window:
            out.append(False)
            continue
        first = losses[k + 1 - window]
        gain = (first - loss) / max(abs(first), 1e-8)
        sure &= gain == 0 or abs(gain - delta) > 1e-6
        bad = 0 if gain > delta else bad + 1
        out.append((bad >= patience) if sure else None)
    return out


def judge(mon, run, opt, name, sched, lr, final=None, **who):
    steps = run["steps"]
    losses = [s["loss"] for s in steps]
    n, limit, tol = len(steps), opt[C.max_epoch], float(opt[C.tolerance])
    if not mon.expect(all(x is not None and math.isfinite(x) for x in losses), "update-without-loss", losses=losses, **who):
        return
    # when the run ends
    early = stopped(opt, losses)
    mon.expect(n <= limit + 1, "more-epochs-than-allowed", updates=n, **who)
    for k in range(n - 1):
        mon.expect(losses[k] > tol, "went-on-below-tolerance", epoch=k, tolerance=tol, losses=losses[:k + 2], **who)
        mon.expect(early[k] is not True, "went-on-after-early-stop", epoch=k, losses=losses[:k + 2], **who)
    close = abs(losses[-1] - tol) <= 1e-6 * abs(tol)
    reached, fired, full = losses[-1] <= tol, early[-1], n == limit + 1
    mon.expect(reached or full or fired is not False or close, "ended-for-no-reason", updates=n, limit=limit, tolerance=tol, losses=losses, **who)
    reason = "full" if full else "tolerance" if reached else "early" if fired else "unclear"
    mon.count(f"runs that ended: {reason}")
    # the learning rates
    want = rates(name, sched, lr, losses)
    for k, (s, w) in enumerate(zip(steps, want)):
        if w is None:
            mon.count("rates left undecided")
            break
        mon.count("learning rates compared", len(s["rates"]))
        if not mon.expect(all(math.isclose(r, w, rel_tol=1e-5, abs_tol=1e-14) for r in s["rates"]), "learning-rate", epoch=k, got=s["rates"],
                          want=w, scheduler=name, parameters=sched, **who):
            break
    mon.count("changes of the learning rate", sum(a is not None and b is not None and a != b for a, b in zip(want, want[1:])))
    # nothing but the updates changes the parameters
    for k, (a, b) in enumerate(zip(steps, steps[1:])):
        mon.expect(all(torch.equal(x, y) for x, y in zip(a["end"], b["start"])), "parameters-changed-between-updates", epoch=k, **who)
    mon.count("updates watched", n)
    if final is not None:
        mon.expect(all(x.shape == y.shape and torch.equal(x, y) for x, y in zip(steps[-1]["end"], final)), "last-update-lost", **who)
    mon.observe(f"{who['optimiser']}|{name}|{reason}|{min(n, 6)}|{opt[C.log_step]}", n > 1, sample=dict(losses=losses, rates=want))


def ending(rng, opt, losses, epochs, way):
    """Limits under which the same optimisation ends before its last epoch, if the losses allow it."""
    if way == "tolerance":
        k = int(rng.integers(0, max(1, len(losses) - 1)))
        lower = [x for x in losses if x < losses[k]]
        opt[C.tolerance] = (losses[k] + max(lower)) / 2 if lower else losses[k] * 1.01
        if rng.random() < 0.2:
            opt[C.tolerance] = repr(float(opt[C.tolerance]))
    elif way == "early":
        window = int(rng.integers(1, max(2, len(losses) - 2)))
        gains = sorted((losses[k + 1 - window] - losses[k]) / max(abs(losses[k + 1 - window]), 1e-8) for k in range(window - 1, len(losses)))
        q = int(rng.integers(len(gains)))
        opt[C.early_stopping_window] = window
        opt[C.early_stopping_delta] = max((gains[q] + gains[min(q + 1, len(gains) - 1)]) / 2, 0.0)
        opt[C.early_stopping_patience] = int(rng.integers(1, 4))
    elif way == "short":
        opt[C.max_epoch] = int(rng.integers(1, epochs))
    return opt


def twice(mon, rng, work, optimiser, epochs, lr):
    """The optimisation with no other end than the last epoch, then once more, from the same start, with a nearer end."""
    name = SCHEDULERS[mon.index % 3]
    sched = OP.schedule(rng, name, lr, epochs)
    sched[C.threshold] = float(rng.choice([1e-3, 0.05, 0.3]))
    opt = OP.optimisation(lr, epochs, 100, tolerance=-1e9, log_step=int(rng.choice([0, 1, 2, 5])))
    seed = int(rng.integers(2**31))
    first = work(np.random.default_rng(seed), dict(opt), sched)
    if first is None:
        return
    runs, finals = first
    who = dict(optimiser=optimiser)
    for run, final in zip(runs, finals):
        judge(mon, run, opt, name, sched, lr, final, **who)
    losses = [s["loss"] for s in runs[int(rng.integers(len(runs)))]["steps"]]
    if name == C.reduce_on_plateau and len(losses) > 2:  # the same again where the rule has to tell the epochs apart
        best = np.minimum.accumulate(losses)
        gains = sorted(1 - b / a for a, b in zip(best, losses[1:]) if a > 0)
        if gains:
            k = int(rng.integers(len(gains)))
            sharp = dict(sched, **{C.threshold: float(max((gains[k] + gains[min(k + 1, len(gains) - 1)]) / 2, 0.0)), C.patience: 0, C.cooldown: 0})
            tuned = work(np.random.default_rng(seed), dict(opt), sharp)
            for run, final in zip(*(tuned or ((), ()))):
                mon.count("runs with a sharp plateau rule")
                judge(mon, run, opt, name, sharp, lr, final, **who)
    opt = ending(rng, dict(opt), losses, epochs, ("tolerance", "early", "short")[int(rng.integers(3))])
    again = work(np.random.default_rng(seed), dict(opt), sched)
    if again is None:
        return
    for run, final in zip(*again):
        judge(mon, run, opt, name, sched, lr, final, **who)
    for a, b in zip(runs, again[0]):
        mon.count("runs repeated with another end")
        mon.expect(all(math.isclose(x["loss"], y["loss"], rel_tol=1e-6, abs_tol=1e-9) for x, y in zip(a["steps"], b["steps"])),
                   "another-course-with-another-end", **who)


def matched(mon, recorder, jobs, what, **who):
    """One optimiser per group with data, which owns exactly the tensor that is optimised."""
    runs = recorder.runs
    if not mon.expect(len(runs) == len(jobs), "number-of-optimisers", got=len(runs), want=len(jobs), **who):
        return None
    for run in runs:
        mon.expect(len(run["params"]) == 1, "optimised-tensors", got=len(run["params"]), **who)
    return runs, [[x] for x in what]


def alignment_work(mon, rng):
    kind = ("AngleLoss", "CosineSimilarityLoss")[int(rng.integers(2))]

    def work(r, opt, sched):
        scene, parser, jobs, _ = KIN.alignment_setup(r, size=0.02)
        with Recorder() as rec:
            KIN.run_alignment(mon, r, scene, parser, kind, opt, sched)
        return matched(mon, rec, jobs, [scene.groups[d["g"]].kinematics.rotation_deviation_parameters for d in jobs], optimiser="alignment")

    return work


@CHECK.family(quick=60, thorough=1200, chunk=3)
def alignment(mon, rng):
    work = alignment_work(mon, rng)
    twice(mon, rng, work, "alignment", int(rng.integers(3, 16)), float(10 ** rng.uniform(-3.6, -2.2)))


def raytracing_work(mon, rng):
    res = [int(rng.integers(10, 18)), int(rng.integers(10, 18))]
    kind = ("FocalSpotLoss", "PixelLoss", "KLDivergenceLoss")[int(rng.integers(3))]

    def work(r, opt, sched):
        scene, with_data = KIN.plan(r, per_group=(1, 3), k=2, rays=2, scale=4e-3, bump=0.0)
        parser, jobs = OP.MemoryParser(scene.scenario), []
        samples = int(r.integers(2, 6))
        for g, who in with_data.items():
            d = KIN.measure(r, scene, g, who, samples, 1.5e-3)
            f = KIN.trace_with(scene, d, d["true"], res, None)
            truth = f(np.arange(d["n"]))
            f.restore()
            if (truth.sum((1, 2)) < 0.01).any():
                return None
            parser.put(g, truth, np.ones((d["n"], 4)), d["incident"], d["motors"], d["mask"], d["idx"])
            jobs.append(d)
        loss = KIN.L.FocalSpotLoss(scenario=scene.scenario) if kind == "FocalSpotLoss" else getattr(KIN.L, kind)()
        with Recorder() as rec, mon.code("reconstruct_kinematics", method="raytracing", loss=kind):
            KIN.reconstructor(scene, parser, opt, sched, C.kinematics_reconstruction_raytracing, res, None).reconstruct_kinematics(
                loss_definition=loss, device=G.CPU)
        return matched(mon, rec, jobs, [scene.groups[d["g"]].kinematics.rotation_deviation_parameters for d in jobs], optimiser="raytracing")

    return work


@CHECK.family(quick=12, thorough=300, chunk=1)
def raytracing(mon, rng):
    work = raytracing_work(mon, rng)
    twice(mon, rng, work, "raytracing", int(rng.integers(3, 10)), float(10 ** rng.uniform(-4.2, -3.2)))


def surfaces_work(mon, rng):
    kind = ("PixelLoss", "KLDivergenceLoss")[int(rng.integers(2))]
    regular = bool(rng.random() < 0.5)

    def work(r, opt, sched):
        case = SURF.Case(r, groups=(1, 2), per_group=(1, 2), samples=int(r.integers(2, 4)))
        if not case.usable():
            return None
        constraints = SURF.limits(r, regular=regular)
        with Recorder() as rec:
            case.run(mon, kind, opt, sched, constraints)
        return matched(mon, rec, case.jobs, [case.scene.groups[d["g"]].nurbs_control_points.detach() for d in case.jobs], optimiser="surfaces")

    return work


@CHECK.family(quick=18, thorough=400, chunk=1)
def surfaces(mon, rng):
    work = surfaces_work(mon, rng)
    twice(mon, rng, work, "surfaces", int(rng.integers(3, 8)), float(10 ** rng.uniform(-4.5, -3.3)))


def aim_points_work(mon, rng):
    kind = AIM.KINDS[int(rng.integers(4))]

    def work(r, opt, sched):
        case = AIM.Case(r, kind)
        if not case.usable():
            return None
        with Recorder() as rec:
            _, out = case.run(mon, opt, sched, AIM.limits(r, case))
        if out is None:
            return None
        if not mon.expect(len(rec.runs) == 1, "number-of-optimisers", got=len(rec.runs), optimiser="aim points"):
            return None
        sizes = sorted(p.numel() for p in rec.runs[0]["params"])
        mon.expect(sizes == sorted(2 * n for n in case.n), "optimised-tensors", got=sizes, want=case.n, optimiser="aim points")
        return rec.runs, [None]

    return work


@CHECK.family(quick=24, thorough=500, chunk=1)
def aim_points(mon, rng):
    work = aim_points_work(mon, rng)
    twice(mon, rng, work, "aim points", int(rng.integers(3, 12)), float(10 ** rng.uniform(-4.2, -2.5)))


@CHECK.family(quick=24, thorough=400, chunk=1)
def fits(mon, rng):
    """Every facet is fitted with the caller's optimiser, from its initial rate and with the scheduler as it was handed over."""
    method = (C.fit_nurbs_from_points, C.fit_nurbs_from_normals)[mon.index % 2]
    shape, degrees = FIT.net_choice(rng)
    lr = float(10 ** rng.uniform(-4, -2.5))
    optimizer = torch.optim.Adam([torch.empty(1, requires_grad=True)], lr=lr)
    sched = {C.reduce_factor: float(rng.uniform(0.2, 0.8)), C.patience: int(rng.integers(0, 6)), C.threshold: float(rng.choice([1e-4, 0.02, 0.3])),
             C.cooldown: int(rng.integers(0, 3)), C.lr_min: 0.0}
    scheduler = None
    if rng.random() < 0.8:
        scheduler = torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer, factor=sched[C.reduce_factor], patience=sched[C.patience],
                                                               threshold=sched[C.threshold], cooldown=sched[C.cooldown])
    else:
        sched[C.patience] = 10**9
    generator = FIT.generator(shape, degrees)
    opt = OP.optimisation(lr, int(rng.integers(2, 40)), 1)
    kept = []
    with Recorder() as rec:
        for _ in range(int(rng.integers(1, 4))):
            points, normals = FIT.Mirror(rng).sample(rng, int(rng.integers(30, 80)))
            opt[C.tolerance] = float(10 ** rng.uniform(-9, -4))
            before = len(rec.runs)
            with mon.code("fit_nurbs", method=method):
                net = generator.fit_nurbs(surface_points=FIT.as4(points, 1.0), surface_normals=FIT.as4(normals, 0.0), optimizer=optimizer,
                                          scheduler=scheduler, fit_method=method, tolerance=opt[C.tolerance], max_epoch=opt[C.max_epoch], device=G.CPU)
            kept.append(net)  # keeps the identity of the optimised tensor unique
            if not mon.expect(len(rec.runs) == before + 1, "number-of-optimisers", got=len(rec.runs) - before, optimiser="fit"):
                return
            judge(mon, rec.runs[-1], opt, C.reduce_on_plateau, sched, lr, [net.control_points.detach()], optimiser="fit")


CHECK.require("updates watched", 1500)
CHECK.require("learning rates compared", 1500)
CHECK.require("changes of the learning rate", 300)
CHECK.require("runs with a sharp plateau rule", 15)
CHECK.require("runs repeated with another end", 60)
CHECK.require("runs that ended: full", 60)
CHECK.require("runs that ended: tolerance", 15)
CHECK.require("runs that ended: early", 8)
