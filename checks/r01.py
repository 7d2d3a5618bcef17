"""R01 - flux images against an independent trace."""

import numpy as np
import torch

from vlib import gen as G
from vlib import trace as TR
from vlib.core import Check

CHECK = Check(
    "R01",
    rule="one evaluation = one call of trace_rays whose images were all compared with an independent float64 trace; distinct = "
    "(family, samples, masks unequal, target types, wide or high image, batch class, light spread); non-trivial = at least one ray hits",
    assumptions=["rays within 0.02 pixels of a target border may fall on either side",
                 "aligned surface points and normals are taken as observed from the group (their correctness is K04's business)"],
)


def judge(mon, job, images, u, e, mech, **kw):
    hits = 0
    if not mon.expect(tuple(images.shape) == (job.n, job.res[1], job.res[0]), "shape", got=list(images.shape), res=job.res, n=job.n):
        return 0
    images = G.N(images)
    for k in range(job.n):
        r = job.expected(k, u, e, **kw)
        t = job.scene.targets[job.idx[k]]
        TR.compare_image(mon, job, k, images[k], r, f"{mech}-{t['type']}", magnitude=kw.get("magnitude", 1.0), 
                         owner=int(job.owner[k]), target=t["name"], idx=job.idx, mask=job.mask)
        hits += int(r["valid"].sum())
        if r["valid"].any():
            mon.count(f"lit images on {t['type']} targets")
    return hits


def signature(job, batch, scale):
    return (job.n, len(set(job.mask[job.mask > 0])) > 1, tuple(sorted({job.scene.targets[i]["type"] for i in job.idx})),
            np.sign(job.res[0] - job.res[1]), "one" if batch == 1 else ("all" if batch >= job.n else "some"), scale)


@CHECK.family(quick=1600, thorough=20000, chunk=8)
def images(mon, rng):
    scale = float(rng.choice([0.0, 5e-4, 3e-3, 3e-2, 0.2]))
    scene = G.random_scene(rng, planar=(0, 3), cylindrical=(0, 3), rays=G.size(rng, 1, 5, most=30), k=G.size(rng, 2, 5, most=12), scale=scale,
                           bump=float(rng.choice([0, 3e-4, 2e-3])))
    job = TR.Job(rng, scene)
    batch = int(rng.choice([1, 2, 3, 100])) if rng.random() < 0.8 else int(rng.integers(1, job.n + 1))
    kw = dict(ray_extinction_factor=float(rng.choice([0.0, 0.3])), mirror_reflectivity=float(rng.choice([0.935, 0.5])))
    world = int(rng.integers(2, 5)) if rng.random() < 0.25 else 1
    with mon.code("trace_rays", world=world):
        if world == 1:
            got = job.trace(job.tracer(batch_size=batch), **kw)[0]
        else:  # the shares of all processes put together
            got = torch.full((job.n, job.res[1], job.res[0]), torch.nan)
            for rank in range(world):
                tracer = job.tracer(batch_size=batch, world_size=world, rank=rank)
                got[tracer.get_sampler_indices().long()] = job.trace(tracer, **kw)[0]
            mon.count("images from several processes", job.n)
    u, e = job.distortions()
    hits = judge(mon, job, got, u, e, "image", extinction=kw["ray_extinction_factor"], reflectivity=kw["mirror_reflectivity"])
    mon.observe(signature(job, batch, scale), hits > 0, dict(res=job.res, mask=job.mask, targets=job.idx, hits=hits))


@CHECK.family(quick=600, thorough=8000, chunk=4)
def large_targets(mon, rng):
    """Steep, badly aimed rays on large or strongly turned targets, and cylinders seen from all sides."""
    specs = [G.group_spec(rng, int(rng.integers(1, 4)), k=3, prefix="a")]
    planar = G.planar_targets(rng, int(rng.integers(0, 3)), turn=1.0, tilt=0.9, size=(3.0, 40.0))
    cyl = G.cylinder_targets(rng, int(rng.integers(0 if planar else 1, 3)), turn=np.pi, tilt=0.5, opening=(0.4, 2 * np.pi))
    scene = G.Scene(specs, planar, cyl, G.StubLight(4, float(rng.choice([2e-3, 0.05])), seed=int(rng.integers(2**31))))
    n_t = len(scene.targets)
    mask = G.random_mask(rng, specs[0].n, 0, 2)
    n = int(mask.sum())
    idx = rng.integers(0, n_t, n)
    incident = G.sun_directions(rng, n)
    job = TR.Job(rng, scene, mask=mask, idx=idx, incident=incident)
    aims = np.stack([G.aim_point(scene.targets[i]) for i in idx])
    aims[:, :3] += rng.uniform(-4, 4, (n, 3))
    with mon.code("trace_rays"):
        job.m = scene.align(0, mask, idx, incident, aims=G.f32(aims))
        got = job.trace(job.tracer(batch_size=int(rng.integers(1, n + 1))))[0]
    u, e = job.distortions()
    hits = judge(mon, job, got, u, e, "turned-target-image")
    mon.observe(signature(job, 1, "large"), hits > 0, dict(res=job.res, mask=mask, targets=idx, hits=hits))


@CHECK.family(quick=300, thorough=4000, chunk=4)
def single_ray(mon, rng):
    """One ray per image: position and weight of a single splat."""
    scene = G.random_scene(rng, planar=(0, 2), cylindrical=(0, 2), rays=1, k=1, scale=float(rng.choice([0, 2e-3, 0.03])), facets=1)
    job = TR.Job(rng, scene, res=[int(rng.integers(2, 12)), int(rng.integers(2, 12))])
    with mon.code("trace_rays"):
        got = job.trace(job.tracer(batch_size=int(rng.integers(1, 4))))[0]
    u, e = job.distortions()
    hits = judge(mon, job, got, u, e, "single-ray-image")
    for k in range(job.n):
        lit = int((G.N(got[k]) > 1e-6).sum())
        mon.expect(lit <= 4, "more-than-four-pixels-lit-by-one-ray", lit=lit)
    mon.observe(signature(job, 1, "single"), hits > 0, dict(res=job.res, image=got[0]))


@CHECK.family(quick=200, thorough=2000, chunk=2)
def sun(mon, rng):
    """The real sun as the light source, with the tracer's own seed."""
    from artist.scene.sun import Sun

    light = Sun(number_of_rays=int(rng.integers(1, 8)), distribution_parameters=dict(
        distribution_type="normal", mean=float(rng.choice([0.0, 2e-3])), covariance=float(10 ** rng.uniform(-7, -4))), device=G.CPU)
    scene = G.random_scene(rng, sun=light, k=3)
    job = TR.Job(rng, scene)
    seed = int(rng.integers(0, 1000))
    with mon.code("trace_rays"):
        if rng.random() < 0.3:
            seed = 7
            got = job.trace(job.tracer(batch_size=int(rng.integers(1, job.n + 1))))[0]
        else:
            got = job.trace(job.tracer(batch_size=int(rng.integers(1, job.n + 1)), random_seed=seed))[0]
    u, e = job.distortions(seed)
    hits = judge(mon, job, got, u, e, "sun-image")
    mon.observe(signature(job, 1, "sun"), hits > 0, dict(seed=seed, res=job.res, hits=hits))


CHECK.require("lit images on planar targets", 300)
CHECK.require("lit images on cylindrical targets", 300)
CHECK.require("rays on target", 20000)
CHECK.require("images from several processes", 200)
