"""D01 - work distribution over processes."""

import numpy as np
import torch

from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.optim import AimPointOptimizer, KinematicsReconstructor, SurfaceReconstructor
from artist.optim import loss as L
from artist.scene.sun import Sun
from artist.util import constants as C
from artist.util import env
from checks import o01 as KIN
from checks import o02 as O02
from checks import o03 as O03
from vlib import dist as DI
from vlib import gen as G
from vlib import optim as OP
from vlib.core import Check

CHECK = Check(
    "D01",
    rule="one evaluation = one assignment of groups to processes, or one program run in several real processes of a gloo process group with "
    "random delays before collectives, whose collective calls, per-process results and reduced result were judged; distinct = (family, "
    "processes, groups, heliostats); non-trivial = more than one process",
    assumptions=["CPU processes on one machine (gloo over loopback)",
                 "aim points: no mirror deviates from its plane by more than 2.5 cm (its own rays are then never taken to be blocked by it)"],
)


def check_assignment(mon, world, groups, mapping, nested):
    who = dict(world=world, groups=groups)
    mon.expect(sorted(mapping) == list(range(world)), "ranks-of-mapping", got=sorted(mapping), **who)
    owners = {g: [r for r in range(world) if g in mapping.get(r, [])] for g in range(groups)}
    mon.expect(all(owners.values()), "group-without-process", got=owners, **who)
    flat = [g for r in range(world) for g in mapping.get(r, [])]
    mon.expect(set(flat) <= set(range(groups)) and all(len(set(v)) == len(v) for v in mapping.values()), "assigned-groups", got=mapping, **who)
    mon.expect(bool(nested) == (world > groups), "nested-flag", got=nested, **who)
    if nested:
        mon.expect(all(len(v) == 1 for v in mapping.values()), "process-in-several-subgroups", got=mapping, **who)
        sizes = [len(v) for v in owners.values()]
    else:
        mon.expect(all(len(v) == 1 for v in owners.values()), "group-processed-twice", got=mapping, **who)
        sizes = [len(v) for v in mapping.values()]
    mon.expect(max(sizes) - min(sizes) <= 1, "uneven-work", got=mapping, **who)
    return owners


@CHECK.family(quick=40, thorough=400, chunk=10)
def assignment(mon, rng):
    groups = mon.index % 40 + 1
    for world in [*range(1, 25), *rng.integers(25, 300, 3).tolist()]:
        with mon.code("distribute_groups_among_ranks", world=world, groups=groups):
            mapping, nested = env.distribute_groups_among_ranks(world_size=world, number_of_heliostat_groups=groups)
            again = env.distribute_groups_among_ranks(world_size=world, number_of_heliostat_groups=groups)
        mon.expect((mapping, nested) == again, "assignment-differs-between-calls")
        check_assignment(mon, world, groups, mapping, nested)
        mon.count("assignments")
        mon.observe(f"assign|{world}|{groups}", world > 1)


def judged(mon, results, logs, **who):
    """All processes finished, agreed on their collectives, and none raised."""
    problem = DI.matching(logs)
    mon.count("collective calls", sum(map(len, logs)))
    if problem:
        mon.violation("collectives-do-not-match", **problem, **who)
    for rank, (state, value) in enumerate(results):
        if state == "error":
            if not value["inside"]:
                raise RuntimeError(f"harness error in rank {rank}: {value}")
            mon.violation("process-failed", rank=rank, **value, others=[s if s == "value" else str(v)[:200] for s, v in results], **who)
    if any(s == "error" for s, _ in results):
        return None
    if not mon.expect(all(s == "value" for s, _ in results), "processes-never-finished", got=[(s, v if s == "hang" else None) for s, v in results],
                      calls=[len(entries) for entries in logs], **who):
        return None
    if problem:
        return None
    return [v for _, v in results]


def describe(setup):
    return {k: (dict(v) if k.endswith("mapping") else v) for k, v in setup.items() if k not in ("device", "process_subgroup")}


def trace_group(scene, g, job, rank, world, batch, res):
    mask = torch.tensor(job["mask"], dtype=torch.int32)
    idx = torch.tensor(job["idx"], dtype=torch.int32)
    tracer = HeliostatRayTracer(scenario=scene.scenario, heliostat_group=scene.groups[g], blocking_active=job["blocking"], world_size=world,
                                rank=rank, batch_size=batch, random_seed=job.get("seed", rank), dni=job["dni"], bitmap_resolution=torch.tensor(res))
    flux, *fractions = tracer.trace_rays(incident_ray_directions=G.T(job["incident"]), active_heliostats_mask=mask, target_area_indices=idx,
                                         device=G.CPU)
    rows = tracer.get_sampler_indices()
    per_target = tracer.get_bitmaps_per_target(bitmaps_per_heliostat=flux, target_area_indices=idx[rows], device=G.CPU)
    return flux.detach(), [f.detach() for f in fractions], rows.clone(), per_target.detach()


class _Interruption(Exception):
    pass


@CHECK.family(quick=40, thorough=300, chunk=10)
def alone(mon, rng):
    """Without a launcher the single process holds all groups, and nothing distributed remains, however the block is left."""
    groups, fails = int(rng.integers(1, 12)), bool(rng.random() < 0.5)
    setup, passed = None, False
    with mon.code("setting up without a launcher", groups=groups):
        try:
            with env.setup_distributed_environment(number_of_heliostat_groups=groups, device=None if rng.random() < 0.5 else G.CPU) as setup:
                facts, group, device = describe(setup), setup["process_subgroup"], setup["device"]
                if fails:
                    raise _Interruption
        except _Interruption:
            passed = True
    want = dict(is_distributed=False, is_nested=False, rank=0, world_size=1, groups_to_ranks_mapping={0: list(range(groups))}, heliostat_group_rank=0,
                heliostat_group_world_size=1, ranks_to_groups_mapping={g: [0] for g in range(groups)})
    mon.expect(facts == want and group is None and torch.device(device).type == "cpu", "single-process-setup", got=str(facts), want=str(want))
    mon.expect(passed == fails, "exception-swallowed")
    mon.expect(not torch.distributed.is_initialized(), "process-group-survives", groups=groups)
    mon.observe(f"alone|{groups}|{fails}")


@CHECK.family(quick=8, thorough=60, chunk=1, timeout=400)
def interrupted(mon, rng):
    """Processes that leave the block with an exception get that exception, and no process group survives."""
    groups, world = int(rng.integers(1, 4)), int(rng.integers(2, 5))

    def work(rank, log):
        try:
            with env.setup_distributed_environment(number_of_heliostat_groups=groups, device=G.CPU) as setup:
                torch.distributed.barrier()
                inside = torch.distributed.is_initialized() and setup["rank"] == rank
                raise _Interruption
        except _Interruption:
            return inside, True, torch.distributed.is_initialized()
        return inside, False, torch.distributed.is_initialized()

    results, logs = DI.run_world(world, work, seed=int(rng.integers(10**6)))
    values = judged(mon, results, logs, world=world, groups=groups, what="interrupted")
    if values is None:
        return
    for rank, (inside, passed, left) in enumerate(values):
        mon.expect(inside and passed, "exception-swallowed", rank=rank, world=world)
        mon.expect(not left, "process-group-survives", rank=rank, world=world)
    mon.count("interrupted worlds")
    mon.observe(f"interrupted|{world}|{groups}")


@CHECK.family(quick=50, thorough=500, chunk=1, timeout=400)
def tracing(mon, rng):
    """The tutorial's distributed ray trace."""
    groups, world = int(rng.integers(1, 5)), int(rng.integers(1, 7))
    scene = G.random_scene(rng, groups=groups, per_group=(1, 5), most=12, k=2, rays=2, scale=3e-3, deviations=0.3)
    scene.light.same = True
    if rng.random() < 0.5:
        # with the same seed everywhere, the real rays must be those of a single process
        sun = Sun(number_of_rays=2, distribution_parameters=dict(distribution_type="normal", mean=0.0, covariance=1e-5), device=G.CPU)
        scene.scenario.light_sources.light_source_list[0] = sun
    blocking = bool(rng.random() < 0.5)
    res, batch = [int(rng.integers(5, 14)), int(rng.integers(5, 14))], int(rng.choice([1, 2, 50]))
    jobs = []
    for s in scene.specs:
        mask = rng.integers(0, 2, s.n) if blocking else G.random_mask(rng, s.n)
        if mask.sum() == 0:
            mask[int(rng.integers(s.n))] = 1
        n = int(mask.sum())
        jobs.append(dict(mask=mask, idx=rng.integers(0, len(scene.targets), n), incident=G.sun_directions(rng, n), blocking=blocking,
                         dni=None if rng.random() < 0.5 else 700.0))
        if scene.scenario.light_sources.light_source_list[0] is not scene.light:
            jobs[-1]["seed"] = int(rng.integers(1000))
            mon.count("groups traced with real rays")

    def align_all():
        for g, job in enumerate(jobs):
            scene.align(g, job["mask"], job["idx"], job["incident"])

    def work(rank, log):
        with env.setup_distributed_environment(number_of_heliostat_groups=groups, device=G.CPU) as setup:
            facts = describe(setup)
            with torch.no_grad():
                align_all()
                total = torch.zeros((len(scene.targets), res[1], res[0]))
                pieces = {}
                for g in setup["groups_to_ranks_mapping"][setup["rank"]]:
                    flux, fractions, rows, per_target = trace_group(scene, g, jobs[g], setup["heliostat_group_rank"],
                                                                    setup["heliostat_group_world_size"], batch, res)
                    total = total + per_target
                    pieces[g] = (G.N(flux), [G.N(f) for f in fractions], G.N(rows).astype(int))
                size = None
                if setup["is_nested"]:
                    size = torch.ones(1)
                    torch.distributed.all_reduce(size, group=setup["process_subgroup"])
                    # the documented reduction inside a group
                    inner = total.clone()
                    torch.distributed.all_reduce(inner, op=torch.distributed.ReduceOp.SUM, group=setup["process_subgroup"])
                    facts["inner"] = G.N(inner)
                if setup["is_distributed"]:
                    torch.distributed.all_reduce(total, op=torch.distributed.ReduceOp.SUM)
            facts["members"] = None if size is None else int(size)
        facts["left"] = torch.distributed.is_initialized()
        return facts, pieces, G.N(total)

    who = dict(world=world, groups=groups)
    results, logs = DI.run_world(world, work, seed=int(rng.integers(10**6)))
    values = judged(mon, results, logs, **who)
    if values is None:
        return
    with torch.no_grad():
        align_all()
        single = [trace_group(scene, g, jobs[g], 0, 1, batch, res) for g in range(groups)]
    want = sum(G.N(s[3]).astype(float) for s in single)
    peak = max(want.max(), 1e-6)
    first = values[0][0]
    owners = check_assignment(mon, world, groups, first["groups_to_ranks_mapping"], first["is_nested"])
    position = {}
    for rank, (facts, pieces, total) in enumerate(values):
        mon.expect(facts["rank"] == rank and facts["world_size"] == world and facts["is_distributed"], "rank-and-world", got=str(facts), **who)
        mon.expect(facts["groups_to_ranks_mapping"] == first["groups_to_ranks_mapping"]
                   and {g: sorted(r) for g, r in facts["ranks_to_groups_mapping"].items()} == owners, "processes-disagree-on-assignment", **who)
        mine = [g for g in range(groups) if rank in owners[g]]
        mon.expect(sorted(pieces) == mine, "groups-of-process", got=sorted(pieces), want=mine, **who)
        k, size = facts["heliostat_group_rank"], facts["heliostat_group_world_size"]
        if first["is_nested"]:
            mon.expect(size == len(owners[mine[0]]) == facts["members"] and 0 <= k < size, "position-in-subgroup", got=(k, size), **who)
            mon.expect((mine[0], k) not in position, "two-processes-at-one-position", got=(mine[0], k), **who)
            position[mine[0], k] = rank
            mon.close(facts["inner"], G.N(single[mine[0]][3]), "flux-reduced-inside-group", atol=1e-5 * peak, rtol=1e-4, **who)
        else:
            mon.expect((k, size) == (0, 1), "position-without-subgroup", got=(k, size), **who)
        mon.expect(not facts["left"], "process-group-survives", **who)
        mon.close(total, want, "reduced-flux", atol=1e-5 * peak, rtol=1e-4, rank=rank, **who)
    for g in range(groups):
        rows = np.concatenate([values[r][1][g][2] for r in owners[g]])
        mon.expect(sorted(rows.tolist()) == list(range(len(jobs[g]["idx"]))), "samples-of-group", got=sorted(rows.tolist()), **who)
        for r in owners[g]:
            flux, fractions, rows = values[r][1][g]
            mon.close(flux, G.N(single[g][0])[rows], "flux-of-process", atol=1e-5 * peak, rtol=1e-4, **who)
            for a, b in zip(fractions, single[g][1]):
                mon.close(a, G.N(b)[rows], "fractions-of-process", atol=1e-5, **who)
            mon.count("idle processes", int(len(rows) == 0))
    mon.count("processes", world)
    mon.observe(f"trace|{world}|{groups}|{[s.n for s in scene.specs]}", world > 1)


def reconstruct_surfaces(case, setup, kind, opt, sched, constraints):
    loss = L.FocalSpotLoss(case.scene.scenario) if kind == "FocalSpotLoss" else getattr(L, kind)()
    worker = SurfaceReconstructor(
        ddp_setup=setup, scenario=case.scene.scenario, data={C.data_parser: case.parser, C.heliostat_data_mapping: []},
        optimization_configuration={C.optimization: opt, C.scheduler: sched, C.constraints: constraints}, dni=case.dni,
        number_of_surface_points=torch.tensor(case.points), bitmap_resolution=torch.tensor(case.res), device=G.CPU)
    final, history = worker.reconstruct_surfaces(loss_definition=loss, device=G.CPU)
    return dict(parameters=[G.N(g.nurbs_control_points) for g in case.scene.groups],
                surfaces=[G.N(g.surface_points) for g in case.scene.groups], final=[G.N(final)], history=history)


@CHECK.family(quick=60, thorough=900, chunk=1, timeout=400)
def surfaces(mon, rng):
    world = int(rng.integers(2, 5))
    case = O02.Case(rng, groups=(1, 3), per_group=(2, 5), samples=int(rng.integers(2, 4)))
    case.scene.light.same = True
    if not case.usable():
        return
    groups, lr, epochs = len(case.scene.groups), 1e-4, int(rng.integers(1, 6))
    args = ("PixelLoss", OP.optimisation(lr, epochs, case.batch), OP.schedule(rng, C.exponential, lr, epochs), O02.limits(rng))

    def work(rank, log):
        with env.setup_distributed_environment(number_of_heliostat_groups=groups, device=G.CPU) as setup:
            return describe(setup), reconstruct_surfaces(case, setup, *args)

    values = run(mon, rng, world, work, groups, idle=idle(world, groups, case.jobs), what="surfaces")
    if values is None:
        return
    single = reconstruct_surfaces(case, OP.single_process(groups), *args)
    compare(mon, values, single, world, groups, lr, "surfaces", [s.n for s in case.scene.specs],
            shared_evenly(world, groups, case.jobs), [d["g"] for d in case.jobs])


def idle(world, groups, jobs):
    """Some process of a group has no heliostat with data to work on."""
    if world <= groups:
        return False
    owners = {g: len(range(g, world, groups)) for g in range(groups)}
    return any(owners[d["g"]] > len(np.unique(d["owner"])) for d in jobs)


def shared_evenly(world, groups, jobs):
    """Groups whose processes all have the same number of heliostats."""
    if world <= groups:
        return {d["g"] for d in jobs}
    return {d["g"] for d in jobs if len(np.unique(d["owner"])) % len(range(d["g"], world, groups)) == 0}


def run(mon, rng, world, work, groups, idle, what):
    results, logs = DI.run_world(world, work, seed=int(rng.integers(10**6)))
    if idle and any(r[0] != "value" for r in results):
        # one finding, however its processes fall over
        mon.violation(f"{what}:process-without-heliostat", world=world, groups=groups, states=[str(r[1])[:300] if r[0] == "error" else r[0] for r in results])
        mon.observe(f"{what}|idle|{world}|{groups}")
        return None
    return judged(mon, results, logs, world=world, groups=groups, what=what)


def compare(mon, values, single, world, groups, step, what, sizes, even, with_data):
    """Every process ends with the same field, which is the one that a single process computes."""
    who = dict(world=world, groups=groups, what=what)
    for rank, (facts, out) in enumerate(values):
        for key in single:
            if key == "history":
                continue
            for g, (a, b, c) in enumerate(zip(out[key], values[0][1][key], single[key])):
                mon.expect(np.array_equal(a, b), f"{key}-differ-between-processes", rank=rank, group=g, **who)
                if key == "final":
                    known = np.isfinite(c)
                    mon.expect(np.array_equal(known, np.isfinite(a)), "heliostats-with-loss", got=a, want=c, **who)
                    if world <= groups:
                        mon.close(a[known], c[known], "reported-losses", rtol=1e-3, atol=1e-5, **who)
                elif world <= groups:
                    mon.close(a, c, f"{key}-differ-from-one-process", atol=1e-3 * step, rtol=1e-6, group=g, **who)
                elif g in even:
                    # the same gradient up to rounding: Adam follows it except where the gradient itself is rounding
                    off = (np.abs(a - c) > 0.1 * step) if a.size else np.zeros(1)
                    mon.maximum(f"fraction apart {key}", off.mean())
                    mon.expect(off.mean() <= 0.2, f"{key}-differ-from-one-process", apart=np.abs(a - c) / step, fraction=off.mean(), group=g, **who)
                    mon.count("evenly shared groups")
        history = out["history"]
        if mon.expect(len(history) == world, "histories-of-processes", got=len(history), **who) and world <= groups:
            # one list per process, with one entry for each of its groups that have data, in their order
            by_group = dict(zip(sorted(with_data), single["history"][0]))
            for r, entries in enumerate(history):
                want = [by_group[g]["total_loss"] for g in facts["groups_to_ranks_mapping"][r] if g in by_group]
                got = [h["total_loss"] for h in entries]
                if mon.expect(len(got) == len(want), "history-entries-of-process", got=len(got), want=len(want), **who):
                    for a, b in zip(got, want):
                        mon.close(a, b, "history-of-process", rtol=1e-4, atol=1e-6, **who)
    mon.count("processes", world)
    mon.count(f"distributed runs of {what}")
    mon.observe(f"{what}|{world}|{groups}|{sizes}")


def reconstruct_kinematics(scene, parser, setup, method, loss, opt, sched, res, dni):
    worker = KinematicsReconstructor(
        ddp_setup=setup, scenario=scene.scenario, data={C.data_parser: parser, C.heliostat_data_mapping: []},
        optimization_configuration={C.optimization: opt, C.scheduler: sched}, dni=dni, reconstruction_method=method,
        bitmap_resolution=torch.tensor(res))
    final, history = worker.reconstruct_kinematics(loss_definition=loss, device=G.CPU)
    return dict(parameters=[G.N(g.kinematics.rotation_deviation_parameters) for g in scene.groups],
                actuators=[G.N(g.kinematics.actuators.optimizable_parameters) for g in scene.groups], final=[G.N(final)], history=history)


@CHECK.family(quick=60, thorough=900, chunk=1, timeout=400)
def kinematics(mon, rng):
    world, alignment = int(rng.integers(2, 5)), mon.index % 3 == 0
    scene, with_data = KIN.plan(rng, groups=(1, 3), per_group=(2, 5), k=3, rays=2, scale=4e-3, bump=0.0)
    scene.light.same = True
    groups, samples = len(scene.groups), int(rng.integers(2, 5))
    res, dni = [int(rng.integers(10, 16)), int(rng.integers(10, 16))], None if rng.random() < 0.5 else 600.0
    parser, jobs = OP.MemoryParser(scene.scenario), []
    for g, chosen in with_data.items():
        d = KIN.measure(rng, scene, g, chosen, samples, 2e-3)
        f = KIN.trace_with(scene, d, d["true"], res, dni)
        flux = f(np.arange(d["n"]))
        f.restore()
        if (flux.sum((1, 2)) < 0.01).any():
            return
        focal = KIN.focal_spots(rng, scene, d, KIN.normals(scene, d, d["true"]))
        parser.put(g, flux, focal, d["incident"], d["motors"], d["mask"], d["idx"])
        jobs.append(d)
    lr, epochs = 1e-4, int(rng.integers(1, 6))
    loss = L.CosineSimilarityLoss() if alignment else (L.FocalSpotLoss(scene.scenario) if rng.random() < 0.7 else L.PixelLoss())
    args = (C.kinematics_reconstruction_alignment if alignment else C.kinematics_reconstruction_raytracing, loss,
            OP.optimisation(lr, epochs, int(rng.choice([1, 2, 100]))), OP.schedule(rng, C.exponential, lr, epochs), res, dni)

    def work(rank, log):
        with env.setup_distributed_environment(number_of_heliostat_groups=groups, device=G.CPU) as setup:
            return describe(setup), reconstruct_kinematics(scene, parser, setup, *args)

    what = "alignment" if alignment else "kinematics"
    values = run(mon, rng, world, work, groups, idle=not alignment and idle(world, groups, jobs), what=what)
    if values is None:
        return
    single = reconstruct_kinematics(scene, parser, OP.single_process(groups), *args)
    compare(mon, values, single, world, groups, lr, what, [s.n for s in scene.specs], shared_evenly(world, groups, jobs), [d["g"] for d in jobs])


def flat(scene):
    """All aligned surface points lie within 2.5 cm of the plane of their mirror: no mirror can be found to block its own rays, which
    would depend on the other rays traced in the same batch (the assumption of B02)."""
    for g in scene.groups:
        points = G.N(g.surface_points)[..., :3].astype(float)
        for p in points:
            centered = p - p.mean(0)
            normal = np.linalg.svd(centered)[2][-1]
            if np.ptp(centered @ normal) > 0.025:
                return False
    return True


def optimize_aim_points(case, setup, opt, sched, constraints):
    loss = L.FocalSpotLoss(case.scene.scenario) if case.kind == "FocalSpotLoss" else getattr(L, case.kind)()
    loss = OP.recording(type(loss), **({"scenario": case.scene.scenario} if case.kind == "FocalSpotLoss" else {}))
    worker = AimPointOptimizer(
        ddp_setup=setup, scenario=case.scene.scenario,
        optimization_configuration={C.optimization: opt, C.scheduler: sched, C.constraints: constraints},
        incident_ray_direction=G.T(case.sun), target_area_index=case.target, ground_truth=case.truth, dni=case.dni,
        bitmap_resolution=torch.tensor(case.res), device=G.CPU)
    final, history, *fractions = worker.optimize(loss_definition=loss, device=G.CPU)
    return dict(motors=[G.N(g.kinematics.motor_positions) for g in case.scene.groups], final=float(final.sum()), history=history,
                fractions=[G.N(f) for f in fractions], flux=[G.N(c["prediction"][0]) for c in loss.calls])


@CHECK.family(quick=130, thorough=2000, chunk=1, timeout=400)
def aim_points(mon, rng):
    world = int(rng.integers(2, 5))
    case = O03.Case(rng, ("PixelLoss", "KLDivergenceLoss", "FocalSpotLoss")[mon.index % 3], groups=(1, 3), per_group=(2, 4))
    case.scene.light.same = True
    with torch.no_grad():
        case.initial = case.trace(case.start)
    if not case.usable() or not flat(case.scene):
        return
    groups, lr, epochs = len(case.scene.groups), 1e-5, int(rng.integers(1, 5))
    args = (OP.optimisation(lr, epochs, case.batch), OP.schedule(rng, C.exponential, lr, epochs), O03.limits(rng, case))

    def work(rank, log):
        with env.setup_distributed_environment(number_of_heliostat_groups=groups, device=G.CPU) as setup:
            return describe(setup), optimize_aim_points(case, setup, *args)

    all_jobs = [dict(g=g, owner=np.arange(n)) for g, n in enumerate(case.n)]
    values = run(mon, rng, world, work, groups, idle=idle(world, groups, all_jobs), what="aim-points")
    if values is None:
        return
    single = optimize_aim_points(case, OP.single_process(groups), *args)
    who = dict(world=world, groups=groups, loss_kind=case.kind)
    first = values[0][1]
    for rank, (facts, out) in enumerate(values):
        mon.expect(all(np.array_equal(a, b) for a, b in zip(out["motors"], first["motors"])), "motors-differ-between-processes", rank=rank, **who)
        mon.expect(out["history"] == first["history"] and out["final"] == first["final"], "losses-differ-between-processes", rank=rank, **who)
        mon.expect(all(np.array_equal(a, b) for a, b in zip(out["fractions"], first["fractions"])), "fractions-differ-between-processes", rank=rank, **who)
        mon.expect(all(np.array_equal(a, b) for a, b in zip(out["flux"], first["flux"])), "flux-differs-between-processes", rank=rank, **who)
    O03.alike(mon, case, torch.tensor(first["flux"][0]), torch.tensor(single["flux"][0]), "flux-of-all-processes", **who)
    for key, history in single["history"].items():
        if mon.expect(len(first["history"][key]) == len(history), "history-length", which=key, **who) and history:
            scale = max(1e-3, np.abs(single["history"]["total_loss"]).max())
            mon.close(first["history"][key], history, f"{key}-of-all-processes", rtol=5e-3, atol=(2e-3 if key != "flux_integral" else 0.05) * scale, **who)
    for name, a, b in zip(("intercept", "on target", "unblocked"), first["fractions"], single["fractions"]):
        mon.close(a, b, f"{name}-fraction-of-all-processes", atol=1e-4 + 3.5 / case.rays(), **who)
    if case.kind != "KLDivergenceLoss" or epochs == 1:
        # (the intercept constraint of later epochs reacts to single rays)
        for a, b, k in zip(first["motors"], single["motors"], case.margin):
            off = np.abs(a - b) / G.N(k) > 0.15 * lr * epochs
            mon.maximum("fraction apart motors", off.mean())
            mon.expect(off.mean() <= 0.34, "motors-differ-from-one-process", apart=np.abs(a - b) / G.N(k) / lr, **who)
            mon.count("motor positions of several processes", a.size)
    mon.count("processes", world)
    mon.count("distributed runs of aim-points")
    mon.observe(f"aim points|{world}|{groups}|{case.n}|{case.kind}")


CHECK.require("assignments", 900)
CHECK.require("processes", 40)
CHECK.require("collective calls", 50)
CHECK.require("evenly shared groups", 20)
for what, least in (("surfaces", 8), ("kinematics", 6), ("alignment", 4), ("aim-points", 8)):
    CHECK.require(f"distributed runs of {what}", least)
