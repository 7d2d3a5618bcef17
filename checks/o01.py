"""O01 - kinematics reconstruction improves the field and touches nothing else."""

import numpy as np
import torch

from artist.optim import KinematicsReconstructor
from artist.optim import loss as L
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.util import constants as C
from vlib import gen as G
from vlib import optim as OP
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "O01",
    rule="one evaluation = one heliostat group reconstructed from measurements that were generated with known deviations, whose reported "
    "losses, history, returned parameters and untouched data were judged; distinct = (method, loss, scheduler, actuator kind, heliostats "
    "with data, samples per heliostat, groups, epochs class); non-trivial = at least one heliostat with data",
    assumptions=["every heliostat with data has the same number of samples, at least two (documented)",
                 "true deviations differ from the stored ones by less than 0.03 rad",
                 "at least one heliostat of the field has data"],
)


def plan(rng, groups=(1, 2), per_group=(1, 4), k=2, deviations=0.3, rays=2, scale=1e-3, planar=(1, 2), cylindrical=(0, 1), **kw):
    scene = G.random_scene(rng, groups=int(rng.integers(groups[0], groups[1] + 1)), per_group=per_group, planar=planar,
                           cylindrical=cylindrical, k=k, deviations=deviations, rays=rays, scale=scale, **kw)
    with_data = {}
    for g, s in enumerate(scene.specs):
        chosen = rng.random(s.n) < 0.7
        if chosen.any() and (len(scene.specs) == 1 or rng.random() < 0.8):
            with_data[g] = np.flatnonzero(chosen)
    if not with_data:
        with_data[0] = np.array([int(rng.integers(scene.specs[0].n))])
    return scene, with_data


def measure(rng, scene, g, heliostats, samples, size=0.02):
    """Motor positions of a nominal alignment and the normals that the true deviations lead to."""
    s, group = scene.specs[g], scene.groups[g]
    mask = np.zeros(s.n, int)
    mask[heliostats] = samples
    n = int(mask.sum())
    idx = rng.integers(0, len(scene.targets), n)
    incident = G.sun_directions(rng, n)
    scene.align(g, mask, idx, incident)
    motors = G.f32(G.N(group.kinematics.active_motor_positions))
    true = s.rot_dev + rng.uniform(-size, size, s.rot_dev.shape)
    owner = G.expand(mask)
    return dict(g=g, mask=mask, owner=owner, idx=idx, incident=incident, motors=motors, true=true, samples=samples, n=n)


def normals(scene, d, tilts):
    """Mirror normals (n x 3) of every sample for tilts (heliostats x 4)."""
    s = scene.specs[d["g"]]
    return np.stack([O.forward_chain(s.positions[h], s.trans_dev[h], tilts[h], O.joint_angles(m, s.acts[h]))[:3, 2]
                     for h, m in zip(d["owner"], d["motors"])])


def focal_spots(rng, scene, d, true_normals):
    pos = scene.specs[d["g"]].positions[d["owner"], :3]
    out = O.reflect(d["incident"][:, :3], true_normals)
    far = rng.uniform(30, 120, (d["n"], 1))
    return np.concatenate([pos + far * out, np.ones((d["n"], 1))], 1)


def train_rows(d):
    k = d["samples"]
    test = max(1, int(k * 0.25))
    row = np.arange(d["n"]) % k
    return row < k - test


def evaluate(kind, normal, truth):
    dot = (normal * truth).sum(-1)
    return np.arccos(np.clip(dot, -1, 1)) if kind == "AngleLoss" else 1 - dot


def loss_tolerance(kind, value):
    return 4e-7 / np.maximum(value, 5e-4) + 1e-6 if kind == "AngleLoss" else 4e-7 + 1e-5 * value


def well_posed(kind, normal, truth):
    """The arc cosine in float32 has no usable derivative where the normals nearly agree."""
    return kind != "AngleLoss" or evaluate(kind, normal, truth).min() > 5e-3


def per_heliostat(d, values, rows):
    owner = d["owner"][rows]
    return np.array([values[owner == h].mean() for h in np.unique(d["owner"])])


def objective(scene, d, truth, rows, kind, tilts):
    return per_heliostat(d, evaluate(kind, normals(scene, d, tilts)[rows], truth[rows]), rows)


def rounding(scene, d, truth, rows, kind, tilts):
    """What float32 may add to `objective`; linear actuators carry 6e-5 rad (see K02)."""
    extra = 6e-5 if scene.specs[d["g"]].kind == "linear" else 0.0
    return per_heliostat(d, loss_tolerance(kind, evaluate(kind, normals(scene, d, tilts)[rows], truth[rows])), rows) + extra


def gradient(scene, d, truth, rows, kind, tilts, eps=1e-6):
    """Derivative of the mean loss over heliostats with respect to every tilt, by central differences in float64."""
    grad = np.zeros_like(tilts)
    for p in range(4):
        up, down = tilts.copy(), tilts.copy()
        up[:, p] += eps
        down[:, p] -= eps
        a, b = objective(scene, d, truth, rows, kind, up), objective(scene, d, truth, rows, kind, down)
        who = np.unique(d["owner"])
        grad[who, p] = (a - b) / (2 * eps) / len(who)
    return grad


def reconstructor(scene, parser, opt, sched, method, res, dni=None):
    return KinematicsReconstructor(
        ddp_setup=OP.single_process(len(scene.groups)), scenario=scene.scenario,
        data={C.data_parser: parser, C.heliostat_data_mapping: []},
        optimization_configuration={C.optimization: opt, C.scheduler: sched}, dni=dni, reconstruction_method=method,
        bitmap_resolution=torch.tensor(res))


def offsets(scene):
    return np.concatenate([[0], np.cumsum([s.n for s in scene.specs])])


def bookkeeping(mon, scene, jobs, final, history, calls, reduce, epochs, **who):
    """Reported losses against the recorded evaluations; returns the calls of every group."""
    off = offsets(scene)
    final = G.N(final)
    mon.expect(final.shape == (off[-1],), "final-loss-length", got=final.shape, want=int(off[-1]), **who)
    mon.expect(len(history) == 1 and len(history[0]) == len(jobs), "history-entries", got=[len(h) for h in history], want=len(jobs), **who)
    covered = np.zeros(off[-1], bool)
    parts, at = [], 0
    for j, d in enumerate(jobs):
        total = history[0][j]["total_loss"]
        mine = calls[at:]
        rows = int(train_rows(d).sum())
        # calls of one group have that group's number of training samples and follow each other
        size = 0
        while size < len(mine) and size <= epochs and len(mine[size]["loss"]) == rows and size < max(len(total), 1):
            size += 1
        if size < len(mine) and j == len(jobs) - 1:
            size = len(mine)  # an early stop leaves one evaluation without a history entry
        mine = mine[:size]
        at += size
        parts.append(mine)
        means = [reduce(G.N(c["loss"]).reshape(-1, rows // len(np.unique(d["owner"])))) for c in mine]
        mon.close(np.array(total), np.array([m.mean() for m in means])[:len(total)], "history-is-not-the-loss", atol=1e-6, rtol=2e-5,
                  entry=j, **who)
        mon.expect(len(total) in (size, size - 1), "history-length", got=len(total), evaluations=size, **who)
        where = off[d["g"]] + np.unique(d["owner"])
        covered[where] = True
        mon.close(final[where], means[-1], "final-loss-of-heliostat", atol=1e-6, rtol=2e-5, entry=j, **who)
        mon.count("loss evaluations watched", size)
        mon.count("heliostats with reported loss", len(where))
    mon.expect(np.isinf(final[~covered]).all() and (final[~covered] > 0).all(), "loss-without-data", got=final[~covered], **who)
    return parts


def mean_reduce(x):
    return x.mean(1)


def lower_median(x):
    return np.sort(x, 1)[:, (x.shape[1] - 1) // 2]


def untouched(mon, scene, before, jobs, **who):
    after = OP.stored(scene)
    moved = {(d["g"], "rotation_deviation_parameters") for d in jobs}
    OP.unchanged(mon, before, after, allowed=moved, **who)
    for d in jobs:
        rot = scene.groups[d["g"]].kinematics.rotation_deviation_parameters
        mon.expect(bool(torch.isfinite(rot).all()), "parameters-not-finite", **who)
        mon.expect(not rot.requires_grad, "parameters-still-in-graph", **who)
        idle = np.setdiff1d(np.arange(scene.specs[d["g"]].n), np.unique(d["owner"]))
        old = before[d["g"], "rotation_deviation_parameters"]
        mon.expect(torch.equal(rot.detach()[idle], old[idle]), "heliostat-without-data-moved", **who)
        mon.count("heliostats without data", len(idle))


def alignment_setup(rng, size=0.02, samples=None, groups=(1, 2), res=(10, 8)):
    scene, with_data = plan(rng, groups=groups)
    samples = int(rng.integers(2, 9)) if samples is None else samples
    parser, jobs = OP.MemoryParser(scene.scenario), []
    for g, who in with_data.items():
        d = measure(rng, scene, g, who, samples, size)
        d["truth"] = normals(scene, d, d["true"])
        flux = rng.uniform(0.5, 2.0, (d["n"], res[1], res[0]))
        parser.put(g, flux, focal_spots(rng, scene, d, d["truth"]), d["incident"], d["motors"], d["mask"], d["idx"])
        jobs.append(d)
    # a fresh history: something else was active before
    return scene, parser, jobs, samples


def run_alignment(mon, rng, scene, parser, kind, opt, sched, res=(10, 8)):
    loss = OP.recording(getattr(L, kind))
    before = OP.stored(scene)
    with mon.code("reconstruct_kinematics", method="alignment"):
        final, history = reconstructor(scene, parser, opt, sched, C.kinematics_reconstruction_alignment, list(res)).reconstruct_kinematics(
            loss_definition=loss, device=G.CPU)
    return loss.calls, before, final, history


def judge_calls(mon, scene, d, calls, **who):
    """Every evaluation compares the training samples with the normals that the measurements imply; the first starts at the field."""
    rows = train_rows(d)
    tol = 3e-5 if scene.specs[d["g"]].kind == "linear" else 5e-6
    for c in calls:
        mon.close(c["truth"][:, :3], d["truth"][rows], "measured-normals", atol=1e-5, **who)
    start = scene.specs[d["g"]].rot_dev
    mon.close(calls[0]["prediction"][:, :3], normals(scene, d, start)[rows], "predicted-normals", atol=tol, **who)


@CHECK.family(quick=60, thorough=1200, chunk=4)
def first_step(mon, rng):
    """One optimiser step moves every tilt of the heliostats with data against the true derivative, and nothing else."""
    kind = ("AngleLoss", "CosineSimilarityLoss")[mon.index % 2]
    scene, parser, jobs, samples = alignment_setup(rng)
    lr = float(10 ** rng.uniform(-5, -3))
    sched = OP.schedule(rng, (C.exponential, C.reduce_on_plateau)[int(rng.integers(2))], lr, 1)
    calls, before, final, history = run_alignment(mon, rng, scene, parser, kind, OP.optimisation(lr, 0, 100), sched)
    who = dict(kind=kind, samples=samples)
    parts = bookkeeping(mon, scene, jobs, final, history, calls, mean_reduce, 0, **who)
    untouched(mon, scene, before, jobs, **who)
    for d, mine in zip(jobs, parts):
        s = scene.specs[d["g"]]
        rows = train_rows(d)
        judge_calls(mon, scene, d, mine, **who)
        want = objective(scene, d, d["truth"], rows, kind, s.rot_dev)
        mon.close(G.N(final)[offsets(scene)[d["g"]] + np.unique(d["owner"])], want, "loss-value",
                  atol=rounding(scene, d, d["truth"], rows, kind, s.rot_dev), **who)
        grad = gradient(scene, d, d["truth"], rows, kind, s.rot_dev)
        step = G.N(scene.groups[d["g"]].kinematics.rotation_deviation_parameters) - s.rot_dev
        clear = np.abs(grad) > 0.03 * np.abs(grad).max(1, keepdims=True) + 1e-4 * np.abs(grad).max()
        clear &= well_posed(kind, normals(scene, d, s.rot_dev)[rows], d["truth"][rows])
        mon.count("clear derivatives", int(clear.sum()))
        mon.expect(np.array_equal(np.sign(step[clear]), -np.sign(grad[clear])), "step-against-derivative", grad=grad, step=step / lr, **who)
        mon.close(np.abs(step[clear]) / lr, np.ones(clear.sum()), "step-size", atol=0.02 + 4e-9 / lr, **who)
        mon.observe(f"first|{kind}|{s.kind}|{len(np.unique(d['owner']))}of{s.n}|{samples}|{len(scene.groups)}", sample=dict(grad=grad, step=step))


@CHECK.family(quick=40, thorough=800, chunk=2)
def trajectory(mon, rng):
    """Several epochs follow the optimiser and scheduler that were requested, on the true derivatives."""
    kind = "CosineSimilarityLoss" if rng.random() < 0.5 else "AngleLoss"
    scene, parser, jobs, samples = alignment_setup(rng, size=0.03, samples=int(rng.integers(3, 8)), groups=(1, 1))
    epochs = int(rng.integers(1, 6))
    lr = float(rng.uniform(2e-4, 1.5e-3))
    name = (C.exponential, C.reduce_on_plateau, C.cyclic)[mon.index % 3]
    sched = OP.schedule(rng, name, lr, epochs, gamma=float(rng.uniform(0.4, 0.95)))
    calls, before, final, history = run_alignment(mon, rng, scene, parser, kind, OP.optimisation(lr, epochs, 100), sched)
    d, s = jobs[0], scene.specs[jobs[0]["g"]]
    rows = train_rows(d)
    who = dict(kind=kind, scheduler=name, steps=epochs)
    bookkeeping(mon, scene, jobs, final, history, calls, mean_reduce, epochs, **who)
    untouched(mon, scene, before, jobs, **who)
    judge_calls(mon, scene, d, calls, **who)
    mon.expect(len(calls) == epochs + 1, "number-of-epochs", got=len(calls), want=epochs + 1, **who)
    p = torch.tensor(s.rot_dev, dtype=torch.float64, requires_grad=True)
    adam = torch.optim.Adam([p], lr=lr)
    plan_ = {C.exponential: lambda: torch.optim.lr_scheduler.ExponentialLR(adam, gamma=sched[C.gamma]),
             C.cyclic: lambda: torch.optim.lr_scheduler.CyclicLR(adam, base_lr=sched[C.lr_min], max_lr=sched[C.lr_max], step_size_up=sched[C.step_size_up]),
             C.reduce_on_plateau: lambda: torch.optim.lr_scheduler.ReduceLROnPlateau(
                 adam, factor=sched[C.reduce_factor], patience=sched[C.patience], threshold=sched[C.threshold], cooldown=sched[C.cooldown],
                 min_lr=sched[C.lr_min])}[name]()
    clear = np.ones((s.n, 4), bool)
    losses, usable = [], True
    for _ in range(epochs + 1):
        x = p.detach().numpy()
        usable &= well_posed(kind, normals(scene, d, x)[rows], d["truth"][rows])
        value = objective(scene, d, d["truth"], rows, kind, x).mean()
        grad = gradient(scene, d, d["truth"], rows, kind, x)
        clear &= np.abs(grad) > 0.05 * np.abs(grad).max(1, keepdims=True) + 1e-3 * np.abs(grad).max()
        p.grad = torch.tensor(grad)
        adam.step()
        plan_.step(value) if name == C.reduce_on_plateau else plan_.step()
        losses.append(value)
    if not usable:
        mon.count("trajectories through the kink of the angle loss")
        return
    mon.close(history[0][0]["total_loss"], losses, "loss-history", atol=float(loss_tolerance(kind, min(losses))) + 2e-4, rtol=0.02, **who)
    got = G.N(scene.groups[d["g"]].kinematics.rotation_deviation_parameters)
    want = p.detach().numpy()
    mon.count("clear parameters", int(clear.sum()))
    mon.close((got - s.rot_dev)[clear], (want - s.rot_dev)[clear], "parameters-after-epochs", atol=0.06 * lr * (epochs + 1) + 2e-8, **who)
    mon.observe(f"trajectory|{kind}|{name}|{s.kind}|{len(np.unique(d['owner']))}of{s.n}|{samples}|{epochs}", sample=dict(losses=losses))


@CHECK.family(quick=30, thorough=600, chunk=2)
def alignment_converges(mon, rng):
    """With a decaying learning rate the field ends better than it started and the reported loss belongs to the returned field."""
    kind = ("AngleLoss", "CosineSimilarityLoss")[mon.index % 2]
    size = float(rng.uniform(0.005, 0.03))
    scene, parser, jobs, samples = alignment_setup(rng, size=size)
    epochs = int(rng.integers(25, 45))
    lr = size * 0.15
    sched = OP.schedule(rng, C.exponential, lr, epochs, gamma=0.8)
    opt = OP.optimisation(lr, epochs, 100, log_step=int(rng.choice([0, 1, 7])))
    if rng.random() < 0.3:
        opt[C.tolerance] = 1e-3 if kind == "AngleLoss" else 1e-6
    calls, before, final, history = run_alignment(mon, rng, scene, parser, kind, opt, sched)
    who = dict(kind=kind, samples=samples)
    parts = bookkeeping(mon, scene, jobs, final, history, calls, mean_reduce, epochs, **who)
    untouched(mon, scene, before, jobs, **who)
    for j, (d, mine) in enumerate(zip(jobs, parts)):
        s, rows = scene.specs[d["g"]], train_rows(d)
        judge_calls(mon, scene, d, mine, **who)
        got = G.N(scene.groups[d["g"]].kinematics.rotation_deviation_parameters)
        at = offsets(scene)[d["g"]] + np.unique(d["owner"])
        start, end = (objective(scene, d, d["truth"], rows, kind, t) for t in (s.rot_dev, got))
        slack = rounding(scene, d, d["truth"], rows, kind, got) + 3e-6
        total = history[0][j]["total_loss"]
        mon.expect(total[-1] <= total[0] + 1e-6, "loss-increased", first=total[0], last=total[-1], **who)
        if len(total) > epochs:  # the last steps were tiny: the report belongs to the returned field
            mon.close(G.N(final)[at], end, "reported-loss-of-returned-field", atol=slack + 20 * lr * 0.8**epochs, rtol=0.01, **who)
        mon.expect(end.mean() <= start.mean() + slack.max(), "field-got-worse", start=start, end=end, **who)
        mon.maximum("remaining fraction of the loss", float(end.mean() / start.mean()))
        mon.count("heliostats improved", int((end < start).sum()))
        mon.count("heliostats not improved", int((end >= start).sum()))
        mon.observe(f"converge|{kind}|{s.kind}|{len(np.unique(d['owner']))}of{s.n}|{samples}|{len(scene.groups)}|{opt[C.log_step]}",
                    sample=dict(start=start, end=end))


def trace_with(scene, d, tilts, res, dni):
    """Flux of all samples through the public pipeline with given tilts, and of a subset of rows."""
    group = scene.groups[d["g"]]
    keep = group.kinematics.rotation_deviation_parameters
    group.kinematics.rotation_deviation_parameters = G.T(tilts)

    def flux(rows):
        mask = np.bincount(d["owner"][rows], minlength=scene.specs[d["g"]].n)
        m = torch.tensor(mask, dtype=torch.int32)
        group.activate_heliostats(active_heliostats_mask=m, device=G.CPU)
        group.align_surfaces_with_motor_positions(motor_positions=G.T(d["motors"][rows]), active_heliostats_mask=m, device=G.CPU)
        tracer = HeliostatRayTracer(scenario=scene.scenario, heliostat_group=group, blocking_active=False, batch_size=100,
                                    random_seed=0, dni=dni, bitmap_resolution=torch.tensor(res))
        return tracer.trace_rays(incident_ray_directions=G.T(d["incident"][rows]), active_heliostats_mask=m,
                                 target_area_indices=torch.tensor(d["idx"][rows], dtype=torch.int32), device=G.CPU)[0].detach()

    out = flux
    out.restore = lambda: setattr(group.kinematics, "rotation_deviation_parameters", keep)
    return out


def image_loss(scene, kind, prediction, truth, idx):
    loss = L.FocalSpotLoss(scene.scenario) if kind == "FocalSpotLoss" else getattr(L, kind)()
    return G.N(loss(prediction=prediction, ground_truth=truth, target_area_indices=torch.tensor(idx), reduction_dimensions=(1, 2), device=G.CPU))


def retry(scene, jobs, parser, kind, opt, res, dni, lr):
    """The losses of the same reconstruction, started again with other steps."""
    for d in jobs:
        scene.groups[d["g"]].kinematics.rotation_deviation_parameters = G.T(scene.specs[d["g"]].rot_dev)
    opt = OP.optimisation(lr, opt[C.max_epoch], opt[C.batch_size])
    sched = {C.scheduler_type: C.exponential, C.gamma: 0.9}
    loss = L.FocalSpotLoss(scene.scenario) if kind == "FocalSpotLoss" else getattr(L, kind)()
    _, history = reconstructor(scene, parser, opt, sched, C.kinematics_reconstruction_raytracing, res, dni).reconstruct_kinematics(
        loss_definition=loss, device=G.CPU)
    return [history[0][j]["total_loss"] for j in range(len(jobs))]


@CHECK.family(quick=24, thorough=400, chunk=1)
def raytracing(mon, rng):
    kind = ("FocalSpotLoss", "FocalSpotLoss", "PixelLoss", "KLDivergenceLoss")[mon.index % 4]
    scene, with_data = plan(rng, per_group=(1, 3), k=3, rays=3, scale=4e-3, bump=0.0)
    samples, size = int(rng.integers(2, 7)), 1.5e-3
    res = [int(rng.integers(12, 28)), int(rng.integers(12, 28))]
    dni = None if rng.random() < 0.5 else float(rng.uniform(400, 1000))
    parser, jobs = OP.MemoryParser(scene.scenario), []
    for g, who in with_data.items():
        d = measure(rng, scene, g, who, samples, size)
        f = trace_with(scene, d, d["true"], res, dni)
        rows, test = np.flatnonzero(train_rows(d)), np.flatnonzero(~train_rows(d))
        truth = torch.zeros((d["n"], res[1], res[0]))
        truth[rows], truth[test] = f(rows), f(test)
        f.restore()
        if (truth.sum((1, 2)) < 0.01).any():
            return
        d["flux"] = truth
        parser.put(g, truth, np.ones((d["n"], 4)), d["incident"], d["motors"], d["mask"], d["idx"])
        jobs.append(d)
    epochs, lr = int(rng.integers(12, 18)), size * 0.2
    opt = OP.optimisation(lr, epochs, int(rng.choice([1, 3, 100])), log_step=int(rng.choice([0, 1, 4])))
    sched = OP.schedule(rng, C.exponential, lr, epochs, gamma=0.6)
    loss = OP.recording(L.FocalSpotLoss, scenario=scene.scenario) if kind == "FocalSpotLoss" else OP.recording(getattr(L, kind))
    before = OP.stored(scene)
    with mon.code("reconstruct_kinematics", method="raytracing", loss=kind):
        final, history = reconstructor(scene, parser, opt, sched, C.kinematics_reconstruction_raytracing, res, dni).reconstruct_kinematics(
            loss_definition=loss, device=G.CPU)
    who = dict(kind=kind, samples=samples)
    parts, doubts = bookkeeping(mon, scene, jobs, final, history, loss.calls, lower_median, epochs, **who), []
    untouched(mon, scene, before, jobs, **who)
    for j, (d, mine) in enumerate(zip(jobs, parts)):
        s, rows = scene.specs[d["g"]], np.flatnonzero(train_rows(d))
        test = np.flatnonzero(~train_rows(d))
        k_train, k_test = len(rows) // len(np.unique(d["owner"])), len(test) // len(np.unique(d["owner"]))
        got = G.N(scene.groups[d["g"]].kinematics.rotation_deviation_parameters)
        values = {}
        for label, tilts in (("start", s.rot_dev), ("end", got)):
            f = trace_with(scene, d, tilts, res, dni)
            values[label] = lower_median(image_loss(scene, kind, f(rows), d["flux"][rows], d["idx"][rows]).reshape(-1, k_train))
            if label == "start":
                far = image_loss(scene, "FocalSpotLoss", f(rows), d["flux"][rows], d["idx"][rows]).mean()
            else:
                prediction = f(test)
                for name, other in () if kind == "KLDivergenceLoss" else (("focal_spot_loss", "FocalSpotLoss"), ("pixel_loss", "PixelLoss")):
                    want = lower_median(image_loss(scene, other, prediction, d["flux"][test], d["idx"][test]).reshape(-1, k_test))
                    mon.close(history[0][j]["test_loss"][name], want, "test-loss", rtol=0.05, atol=2e-3 * (1 + np.abs(want).max()), loss=name, **who)
            f.restore()
        at = offsets(scene)[d["g"]] + np.unique(d["owner"])
        for c in mine:
            mon.expect(torch.equal(c["truth"], d["flux"][rows]), "measured-flux", **who)
            mon.expect(np.array_equal(G.N(c["kwargs"]["target_area_indices"]), d["idx"][rows]), "measured-targets", **who)
        first = lower_median(G.N(mine[0]["loss"]).reshape(-1, k_train))
        mon.close(first, values["start"], "loss-of-initial-field", rtol=1e-3, atol=1e-5 * (1 + values["start"].max()), **who)
        if kind != "KLDivergenceLoss":  # (the logarithm of dark pixels reacts to the last tiny step)
            mon.close(G.N(final)[at], values["end"], "reported-loss-of-returned-field", rtol=0.05, atol=2e-3 * (1 + values["start"].max()), **who)
        total = history[0][j]["total_loss"]
        ratio = values["end"].mean() / values["start"].mean()
        mon.maximum(f"remaining fraction of the loss {kind}", float(ratio))
        mon.observe(f"raytracing|{kind}|{s.kind}|{len(at)}of{s.n}|{samples}|{len(scene.groups)}|{opt[C.batch_size]}|{dni is None}",
                    sample=dict(start=values["start"], end=values["end"]))
        if far > 0.1 and kind != "KLDivergenceLoss":  # the optimiser does not start inside the size of its own steps
            mon.count("groups that start off their measurements")
            if min(total) >= total[0] or ratio > 1.02:
                doubts.append((j, dict(history=total, start=values["start"], end=values["end"], **who)))
    # a step of the requested size may leave the valley of the loss: small ones must go down in any case
    for j, detail in doubts:
        mon.count("progress judged with smaller steps")
        again = retry(scene, jobs, parser, kind, opt, res, dni, lr / 30)[j]
        mon.expect(min(again) < again[0], "no-epoch-improved", with_smaller_steps=again, **detail)


CHECK.require("clear derivatives", 300)
CHECK.require("clear parameters", 100)
CHECK.require("loss evaluations watched", 800)
CHECK.require("heliostats improved", 40)
CHECK.require("stored tensors compared", 2000)
CHECK.require("groups that start off their measurements", 12)
