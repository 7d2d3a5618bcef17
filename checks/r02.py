"""R02 - radiant power is conserved."""

import numpy as np

from vlib import gen as G
from vlib import trace as TR
from vlib.core import Check

CHECK = Check(
    "R02",
    rule="one evaluation = one traced scene whose image sums were balanced against the power of the rays that hit (power), compared under "
    "changed losses (losses), or compared with and without an irradiance (irradiance); distinct = (family, samples, target types, "
    "resolution orientation, batch, spread); non-trivial = at least one image carries power",
    assumptions=["rays within 0.02 pixels of a target border may fall on either side",
                 "heliostats of one group share their facet dimensions (the tracer takes the area of the first one), four facets"],
)


def build(rng, **kw):
    scale = float(rng.choice([0.0, 2e-3, 2e-2, 0.15]))
    scene = G.random_scene(rng, planar=(0, 3), cylindrical=(0, 2), rays=G.size(rng, 1, 7, most=30), k=G.size(rng, 2, 5, most=12), scale=scale, **kw)
    return scene, scale


def signature(job, batch, scale):
    return (job.n, tuple(sorted({job.scene.targets[i]["type"] for i in job.idx})), np.sign(job.res[0] - job.res[1]), batch, scale)


@CHECK.family(quick=1200, thorough=15000, chunk=8)
def power(mon, rng):
    scene, scale = build(rng)
    job = TR.Job(rng, scene, res=[int(rng.integers(2, 40)), int(rng.integers(2, 40))])
    batch = int(rng.choice([1, 2, 100]))
    ext, ref = float(rng.uniform(0, 1)), float(rng.uniform(0, 1))
    dni = float(rng.uniform(100, 1100)) if rng.random() < 0.4 else None
    with mon.code("trace_rays"):
        tracer = job.tracer(batch_size=batch, dni=dni)
        got = G.N(job.trace(tracer, ray_extinction_factor=ext, mirror_reflectivity=ref)[0])
    u, e = job.distortions()
    mon.expect((got >= 0).all(), "negative-pixel", worst=got.min())
    mag = 1.0
    if dni is not None:
        c = scene.specs[0].canting[0, 0]
        mag = dni * (4 * np.linalg.norm(c[0]) + 0.02) * (4 * np.linalg.norm(c[1]) + 0.02) / u[0].size
    lit = 0
    for k in range(job.n):
        r = job.expected(k, u, e, magnitude=mag, extinction=ext, reflectivity=ref)
        _, slack, rounding = TR.image_tolerance(job, r, k, mag)
        slack *= (1 - ext) * ref
        total = r["power"].sum()
        mon.close(got[k].sum(), total, "image-power", atol=slack + rounding * (1 - ext) * ref + 1e-6 * mag, rtol=2e-5 if dni is None else 5e-4, target=scene.targets[job.idx[k]]["name"],
                  res=job.res, dni=dni)
        mon.expect(got[k].sum() <= u[k].size * mag * (1 - ext) * ref * (1 + 1e-4) + 1e-9, "more-power-than-the-rays-carried",
                   got=got[k].sum(), rays=u[k].size, magnitude=mag)
        mon.count("images balanced")
        lit += total > 0
        mon.count("lit images", int(total > 0))
        mon.count("rays lost beside the target", int((~r["valid"]).sum()))
    mon.observe(signature(job, batch, scale), lit > 0, dict(res=job.res, sums=got.sum((1, 2)), dni=dni, extinction=ext, reflectivity=ref))


@CHECK.family(quick=300, thorough=3000, chunk=4)
def losses(mon, rng):
    scene, scale = build(rng)
    job = TR.Job(rng, scene, res=[int(rng.integers(2, 40)), int(rng.integers(2, 40))])
    blocking = bool(rng.random() < 0.4) and job.mask.max() <= 1
    with mon.code("trace_rays"):
        tracer = job.tracer(batch_size=int(rng.choice([1, 2, 100])), blocking_active=blocking)
        base = job.trace(tracer, ray_extinction_factor=0.0, mirror_reflectivity=1.0)
        default = job.trace(tracer)
        factors = []
        for _ in range(3):
            ext, ref = float(rng.choice([0, rng.uniform(0, 1), 1])), float(rng.choice([rng.uniform(0, 1), 1.0, 0.0]))
            factors.append(((1 - ext) * ref, job.trace(tracer, ray_extinction_factor=ext, mirror_reflectivity=ref)))
    factors.append((0.935, default))
    b = G.N(base[0])
    for f, out in factors:
        mon.close(out[0], b * f, "losses-scale-the-image", atol=1e-6, rtol=2e-5, factor=f)
        mon.count("loss combinations")
    mon.observe(signature(job, blocking, scale), b.sum() > 0, dict(factors=[f for f, _ in factors], total=b.sum()))


@CHECK.family(quick=300, thorough=3000, chunk=4)
def irradiance(mon, rng):
    """Total ray power is the irradiance times the mirror area whatever the sampling."""
    kind = "ideal"
    state = rng.bit_generator.state
    dni = float(rng.uniform(50, 1200))
    half = (float(rng.uniform(0.4, 1.4)), float(rng.uniform(0.4, 1.4)))
    totals = []
    for rays, k in ((1, 2), (int(rng.integers(2, 9)), int(rng.integers(2, 7)))):
        sub = np.random.default_rng([int(state["state"]["state"]) % 2**32, 5])
        scene = G.random_scene(sub, planar=(1, 2), cylindrical=(0, 1), rays=rays, k=k, scale=1e-3, kind=kind, bump=0, half=half)
        job = TR.Job(sub, scene, res=[60, 50])
        with mon.code("trace_rays"):
            plain = G.N(job.trace(job.tracer(), mirror_reflectivity=1.0)[0]).sum((1, 2))
            real = G.N(job.trace(job.tracer(dni=dni), mirror_reflectivity=1.0)[0]).sum((1, 2))
        area = (4 * half[0] + 0.02) * (4 * half[1] + 0.02)
        count = rays * 4 * k * k
        for p, q in zip(plain, real):
            if p > 0.05 * count:
                mon.close(q / p * count, dni * area, "ray-power-times-rays", rtol=2e-3, rays=rays, k=k, half=half)
                mon.count("heliostats with irradiance")
        totals.append((plain / count, real))
    mon.observe((len(plain), tuple(np.round(half, 1))), bool((totals[0][1] > 0).any()), dict(dni=dni, half=half, totals=totals[1][1]))


CHECK.require("lit images", 1500)
CHECK.require("loss combinations", 800)
CHECK.require("heliostats with irradiance", 400)
CHECK.require("rays lost beside the target", 5000)
