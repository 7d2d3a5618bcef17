"""R05 - every sample is traced exactly once for any batch size and number of ranks."""

import numpy as np
import torch

from artist.raytracing.sampling import RestrictedDistributedSampler
from vlib import gen as G
from vlib import trace as TR
from vlib.core import Check

CHECK = Check(
    "R05",
    rule="one evaluation = one set of samplers, or one set of ranks and batches whose combined rays were compared with a single-rank, "
    "single-batch trace; distinct = (family, mask, world size, batch size); non-trivial = more than one rank or batch",
)


@CHECK.family(quick=3000, thorough=40000, chunk=50)
def sampler(mon, rng):
    active = G.size(rng, 1, 11, most=150)
    if rng.random() < 0.5:
        per = int(rng.integers(1, 6))
        samples = per * active
    else:
        samples, per = int(rng.integers(active, active * 6 + 1)), None
    world = G.size(rng, 1, 15, most=40)
    arg = torch.tensor(active) if rng.random() < 0.5 else active
    chunks = []
    with mon.code("RestrictedDistributedSampler"):
        for rank in range(world):
            s = RestrictedDistributedSampler(number_of_samples=samples, number_of_active_heliostats=arg, world_size=world, rank=rank)
            first, second = [int(i) for i in s], [int(i) for i in s]
            mon.expect(first == second, "iteration-not-repeatable", first=first, second=second)
            chunks.append(first)
    flat = [i for c in chunks for i in c]
    mon.expect(sorted(flat) == list(range(samples)), "not-a-partition", samples=samples, active=active, world=world, chunks=chunks)
    busy = sum(1 for c in chunks if c)
    mon.expect(all(c == sorted(c) for c in chunks), "order-within-rank", chunks=chunks)
    if per:  # equal multiplicities: samples of one heliostat stay together, as the reconstructions rely on
        owner = {i: r for r, c in enumerate(chunks) for i in c}
        for h in range(active):
            mon.expect(len({owner[h * per + j] for j in range(per)}) == 1, "heliostat-split-over-ranks", heliostat=h, chunks=chunks)
    mon.count("ranks without work", world - busy)
    mon.count("rank chunks", world)
    mon.observe((samples, active, world), world > 1, dict(samples=samples, active=active, world=world, chunks=chunks))


def assemble(mon, job, world, batch, seed, blocking=False):
    rows, order, idle = [[] for _ in range(4)], [], 0
    for rank in rng_order(job, world):
        with mon.code("rank trace", world=world, rank=rank, mask=job.mask):
            tracer = job.tracer(world_size=world, rank=rank, batch_size=batch, random_seed=seed, blocking_active=blocking)
            mine = tracer.get_sampler_indices().tolist()
            out = job.trace(tracer)
            per_target = tracer.get_bitmaps_per_target(
                bitmaps_per_heliostat=out[0], target_area_indices=torch.tensor(job.idx)[tracer.get_sampler_indices()], device=G.CPU)
        if not mon.expect(all(o.shape[0] == len(mine) for o in out), "rows-of-rank", got=[o.shape[0] for o in out], mine=mine):
            return None
        if not mine:
            idle += 1
            mon.expect(not G.N(per_target).any(), "idle-rank-contributes", rank=rank)
        order += mine
        for r, o in zip(rows, out):
            r.append(G.N(o))
        mon.count("rank traces")
    mon.count("idle ranks", idle)
    if not mon.expect(sorted(order) == list(range(job.n)), "samples-not-partitioned", order=order, n=job.n, world=world, mask=job.mask):
        return None
    back = np.argsort(order)
    return [np.concatenate(r)[back] for r in rows]


def rng_order(job, world):
    return np.random.default_rng(job.n + world).permutation(world).tolist()


@CHECK.family(quick=400, thorough=5000, chunk=4)
def ranks(mon, rng):
    scene = G.random_scene(rng, planar=(0, 3), cylindrical=(0, 2), rays=2, k=2, per_group=(1, 6), scale=float(rng.choice([1e-3, 0.05])))
    job = TR.Job(rng, scene, res=[int(rng.integers(5, 30)), int(rng.integers(5, 30))], high=int(rng.choice([1, 2, 5])))
    seed = int(rng.integers(0, 100))
    with mon.code("single trace"):
        want = [G.N(o) for o in job.trace(job.tracer(batch_size=1000, random_seed=seed))]
    mon.expect(all(np.isfinite(w).all() for w in want), "undefined-data")
    for _ in range(3):
        world = int(rng.choice([1, 1, 2, 3, 4, int(rng.integers(5, 13))]))
        batch = int(rng.choice([1, 2, 3, 5, job.n, job.n + 1, 100]))
        got = assemble(mon, job, world, batch, seed)
        if got is None:
            return
        for name, g, w in zip(("flux", "intercept", "on-target", "unblocked"), got, want):
            mon.close(g, w, f"combined-{name}", atol=1e-6 + 1e-6 * np.abs(w).max(initial=0), rtol=1e-5, world=world, batch=batch, mask=job.mask)
        mon.count("combined traces")
        mon.observe((tuple(job.mask), world, batch), world > 1 or batch < job.n, dict(mask=job.mask, world=world, batch=batch))


@CHECK.family(quick=120, thorough=1500, chunk=4)
def ranks_sun(mon, rng):
    """The sun draws its rays for all samples on every rank."""
    from artist.scene.sun import Sun

    light = Sun(number_of_rays=3, distribution_parameters=dict(distribution_type="normal", mean=0.0, covariance=1e-5), device=G.CPU)
    scene = G.random_scene(rng, sun=light, k=2, per_group=(1, 5))
    job = TR.Job(rng, scene, res=[20, 25])
    with mon.code("single trace"):
        want = [G.N(o) for o in job.trace(job.tracer(batch_size=1000, random_seed=3))]
    world, batch = int(rng.integers(1, 8)), int(rng.integers(1, 5))
    got = assemble(mon, job, world, batch, 3)
    if got is None:
        return
    mon.close(got[0], want[0], "combined-flux-sun", atol=1e-5, rtol=1e-5, world=world, batch=batch)
    mon.count("combined traces")
    mon.observe((tuple(job.mask), world, batch), True, dict(mask=job.mask, world=world, batch=batch))


@CHECK.family(quick=120, thorough=1500, chunk=4)
def ranks_blocking(mon, rng):
    scene, job = TR.rows(rng, groups=int(rng.integers(1, 3)), rays=2, k=2)
    with mon.code("single trace"):
        want = [G.N(o) for o in job.trace(job.tracer(batch_size=1000, blocking_active=True))]
    world, batch = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    got = assemble(mon, job, world, batch, 7, blocking=True)
    if got is None:
        return
    # mirrors are selected per batch: rays at the soft edge of a mirror may be dimmed or not
    corners = TR.field_corners(scene)
    u, e = job.distortions()
    for k in range(job.n):
        r = job.expected(k, u, e)
        _, unsure = TR.blocked_rays(scene, corners, 0, job.owner[k], r)
        diff = np.abs(got[0][k] - want[0][k]).sum()
        mon.expect(diff <= 2.1 * unsure.sum() + 1e-3, "combined-flux-blocking", difference=diff, undecided=int(unsure.sum()), world=world, batch=batch)
    mon.count("combined traces with blocking")
    mon.observe((tuple(job.mask), world, batch), True, dict(mask=job.mask, world=world, batch=batch))


CHECK.require("combined traces", 800)
CHECK.require("idle ranks", 300)
CHECK.require("ranks without work", 1000)
CHECK.require("combined traces with blocking", 80)
