"""R04 - flux per target area."""

import numpy as np
import torch

from vlib import gen as G
from vlib import trace as TR
from vlib.core import Check

CHECK = Check(
    "R04",
    rule="one evaluation = one aggregation compared target by target with a float64 sum of the per-sample images; distinct = (family, numbers "
    "of planar and cylindrical targets, samples, number of targets without samples); non-trivial = at least two samples",
)


def judge(mon, job, images, idx, got, mech):
    targets = len(job.scene.targets)
    images, got = G.N(images), G.N(got)
    if not mon.expect(got.shape == (targets,) + images.shape[1:], "shape", got=list(got.shape), targets=targets):
        return
    for t in range(targets):
        want = images[idx == t].sum(0) if (idx == t).any() else np.zeros(images.shape[1:])
        mon.close(got[t], want, mech, atol=1e-5 * max(1.0, np.abs(want).max()), rtol=1e-5, target=t, idx=idx)
        mon.count("targets with samples" if (idx == t).any() else "targets without samples")
    mon.close(got.sum(), images.sum(), "total", atol=1e-3, rtol=1e-5)


def sig(job, idx):
    kinds = [t["type"] for t in job.scene.targets]
    return (kinds.count("planar"), kinds.count("cylindrical"), len(idx), len(kinds) - len(set(idx)))


@CHECK.family(quick=1000, thorough=12000, chunk=10)
def synthetic(mon, rng):
    """Arbitrary images and assignments of any length."""
    scene = G.random_scene(rng, planar=(0, 4), cylindrical=(0, 4), rays=1, k=1)
    job = TR.Job(rng, scene, res=[int(rng.integers(1, 30)), int(rng.integers(1, 30))])
    n = G.size(rng, 0, 11, most=150)
    idx = rng.integers(0, len(scene.targets), n)
    images = torch.tensor(rng.exponential(1, (n, job.res[1], job.res[0])), dtype=torch.float32)
    keep = images.clone()
    with mon.code("get_bitmaps_per_target"):
        got = job.tracer().get_bitmaps_per_target(
            bitmaps_per_heliostat=images, target_area_indices=torch.tensor(idx, dtype=torch.int32 if rng.random() < 0.5 else torch.int64),
            device=G.CPU)
    mon.expect(torch.equal(images, keep), "input-modified")
    judge(mon, job, images, idx, got, "sum-per-target")
    mon.observe(sig(job, idx), n > 1, dict(idx=idx, res=job.res))


@CHECK.family(quick=200, thorough=2500, chunk=4)
def traced(mon, rng):
    """Traced images, in the order of the samples, aggregated and compared with independently traced ones."""
    scene = G.random_scene(rng, planar=(0, 3), cylindrical=(0, 3), rays=2, k=2, groups=1)
    job = TR.Job(rng, scene, res=[int(rng.integers(5, 40)), int(rng.integers(5, 40))])
    with mon.code("trace and aggregate"):
        tracer = job.tracer(batch_size=int(rng.integers(1, job.n + 1)))
        images = job.trace(tracer)[0]
        got = tracer.get_bitmaps_per_target(bitmaps_per_heliostat=images, target_area_indices=torch.tensor(job.idx), device=G.CPU)
    judge(mon, job, images, job.idx, got, "sum-per-target-traced")
    u, e = job.distortions()
    for t in range(len(scene.targets)):
        want, slack = 0.0, 0.0
        for k in np.nonzero(job.idx == t)[0]:
            r = job.expected(k, u, e)
            want += r["power"].sum()
            _, s, w = TR.image_tolerance(job, r, k)
            slack += s + w
        mon.close(got[t].sum(), want, "power-per-target", atol=slack + 1e-3, rtol=1e-4, target=t)
    mon.observe(sig(job, job.idx), job.n > 1, dict(idx=job.idx, totals=got.sum((1, 2))))


CHECK.require("targets with samples", 1500)
CHECK.require("targets without samples", 800)
