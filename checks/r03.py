"""R03 - hit, intercept and blocking fractions."""

import numpy as np

from vlib import gen as G
from vlib import oracle as O
from vlib import trace as TR
from vlib.core import Check

CHECK = Check(
    "R03",
    rule="one evaluation = one traced scene whose three fractions were recounted ray by ray; distinct = (family, samples, target types, "
    "batch, blocking, spread); non-trivial = at least one fraction strictly between zero and one",
    assumptions=["rays within 0.02 pixels of a target border, or crossing a mirror within 2 % of its edge, may be counted either way"],
)


def common(mon, flux, intercept, on_target, blocking, n):
    for name, v in (("intercept", intercept), ("on-target", on_target), ("unblocked", blocking)):
        if not mon.expect(v.shape == (n,) and np.isfinite(v).all() and (v >= 0).all() and (v <= 1 + 1e-6).all(), f"{name}-range", got=v):
            return False
    mon.expect((intercept <= on_target + 1e-6).all(), "intercept-above-on-target", intercept=intercept, on_target=on_target)
    dark = flux.reshape(n, -1).sum(1) == 0
    mon.expect((flux.reshape(n, -1).sum(1)[intercept == 0] == 0).all(), "light-without-intercept")
    mon.count("dark images", int(dark.sum()))
    return True


@CHECK.family(quick=1200, thorough=15000, chunk=8)
def unblocked(mon, rng):
    scale = float(rng.choice([0.0, 5e-3, 3e-2, 0.1, 0.3]))
    scene = G.random_scene(rng, planar=(0, 3), cylindrical=(0, 3), rays=G.size(rng, 1, 5, most=30), k=G.size(rng, 2, 4, most=12), scale=scale)
    job = TR.Job(rng, scene, res=[int(rng.integers(2, 60)), int(rng.integers(2, 60))])
    if rng.random() < 0.3:  # some heliostats aim beside their target
        aims = np.stack([G.aim_point(scene.targets[i]) for i in job.idx])
        aims[:, :3] += rng.uniform(-6, 6, (job.n, 3))
        job.m = scene.align(0, job.mask, job.idx, job.incident, aims=G.f32(aims))
    batch = int(rng.choice([1, 2, 3, 100]))
    ext = float(rng.choice([0, 0.5]))
    with mon.code("trace_rays"):
        flux, intercept, on_target, free = [G.N(x) for x in job.trace(job.tracer(batch_size=batch), ray_extinction_factor=ext)]
    u, e = job.distortions()
    if not common(mon, flux, intercept, on_target, free, job.n):
        return
    mon.expect(np.allclose(free, 1.0, atol=1e-6), "unblocked-share-without-blocking", got=free)
    mon.expect(np.allclose(intercept, on_target, atol=1e-6), "intercept-without-blocking", intercept=intercept, on_target=on_target)
    partial = 0
    for k in range(job.n):
        r = job.expected(k, u, e)
        border = TR.borderline(job, r, k)
        count = r["valid"].size
        mon.close(on_target[k], r["valid"].mean(), "on-target-share", atol=(border.sum() + 0.01) / count, sample=k,
                  target=scene.targets[job.idx[k]]["name"], mask=job.mask, idx=job.idx)
        partial += int(0 < r["valid"].mean() < 1)
    mon.count("partly missing samples", partial)
    mon.count("samples", job.n)
    mon.observe((job.n, tuple(sorted({scene.targets[i]["type"] for i in job.idx})), batch, scale), partial > 0,
                dict(on_target=on_target, res=job.res))


@CHECK.family(quick=300, thorough=4000, chunk=8)
def grazing(mon, rng):
    """However weak a ray arrives, it counts: tiny mirrors send light onto huge targets seen almost from the side."""
    scene = G.random_scene(rng, planar=(2, 3), cylindrical=(0, 1), rays=int(rng.integers(1, 4)), k=int(rng.integers(2, 4)), scale=1e-5,
                           half=(0.02, 0.02), deviations=0.0, bump=0.0, near=60.0)
    weak = [i for i, t in enumerate(scene.targets) if t["type"] == "planar" and (i == 0 or rng.random() < 0.3)]
    ideal, planar = scene.specs[0], [t for t in scene.targets if t["type"] == "planar"]
    seen_by = {}
    for i in weak:
        seen_by[i] = int(rng.integers(ideal.n))
        d = O.unit(planar[i]["center"][:3] - ideal.positions[seen_by[i], :3])
        side = O.unit(np.cross(d, rng.normal(size=3)))
        cos = 10 ** rng.uniform(-3.7, -2.6)
        planar[i]["normal"] = np.append(O.unit(side * np.sqrt(1 - cos**2) - d * cos), 0.0)
        planar[i]["dims"] = rng.uniform(200, 900, 2)
    scene = G.Scene(scene.specs, G.round_targets(planar), [t for t in scene.targets if t["type"] != "planar"], scene.light)
    mask = G.random_mask(rng, ideal.n, 0, 3)
    mask[seen_by[0]] = max(mask[seen_by[0]], 1)
    idx = rng.integers(0, len(scene.targets), int(mask.sum()))
    for i, h in seen_by.items():
        idx = np.where((G.expand(mask) == h) & (rng.random(len(idx)) < 0.8), i, idx)
    job = TR.Job(rng, scene, res=[int(rng.integers(2, 9)), int(rng.integers(2, 9))], mask=mask, idx=idx)
    with mon.code("trace_rays"):
        flux, intercept, on_target, free = [G.N(x) for x in job.trace(job.tracer(batch_size=int(rng.choice([1, 2, 100]))))]
    u, e = job.distortions()
    if not common(mon, flux, intercept, on_target, free, job.n):
        return
    mon.expect(np.allclose(intercept, on_target, atol=1e-6), "intercept-without-blocking", intercept=intercept, on_target=on_target)
    faint = 0
    for k in range(job.n):
        r = job.expected(k, u, e)
        t = scene.targets[job.idx[k]]
        border = TR.borderline(job, r, k)
        if t["type"] == "planar":
            cos = np.maximum(np.abs(r["cos"]), 1e-7)
            far = np.linalg.norm(r["origins"] - t["center"][:3], axis=-1) + t["dims"].max()  # float32 directions, the longer the path
            border |= (cos < 2e-5) | (r["margin"] < 6e-7 * far / cos * (np.array(job.res) / t["dims"]).max())
        mon.close(on_target[k], r["valid"].mean(), "on-target-share", atol=(border.sum() + 0.01) / border.size, sample=k, target=t["name"],
                  mask=job.mask, idx=job.idx)
        faint += int((r["valid"] & ~border & (np.abs(r["cos"]) < 1e-3)).sum())
    mon.count("faint rays", faint)
    mon.observe(("grazing", job.n, len(weak), faint > 0), faint > 0, dict(on_target=on_target, res=job.res))


@CHECK.family(quick=300, thorough=4000, chunk=4)
def total_loss(mon, rng):
    """Without reflectivity nothing is intercepted although the rays still hit."""
    scene = G.random_scene(rng, planar=(1, 2), cylindrical=(0, 2), rays=2, k=2)
    job = TR.Job(rng, scene, res=[20, 30])
    with mon.code("trace_rays"):
        tracer = job.tracer(batch_size=int(rng.choice([1, 100])))
        ref = [G.N(x) for x in job.trace(tracer)]
        kw = dict(mirror_reflectivity=0.0) if rng.random() < 0.5 else dict(ray_extinction_factor=1.0)
        out = [G.N(x) for x in job.trace(tracer, **kw)]
    mon.expect((out[0] == 0).all() and (out[1] == 0).all(), "intercept-with-total-loss", intercept=out[1])
    mon.close(out[2], ref[2], "on-target-depends-on-losses", atol=1e-6)
    mon.close(out[3], ref[3], "unblocked-share-depends-on-losses", atol=1e-6)
    mon.count("total losses")
    mon.observe((job.n, tuple(kw)), ref[2].sum() > 0, dict(on_target=out[2]))


@CHECK.family(quick=400, thorough=5000, chunk=4)
def blocked(mon, rng):
    """Two rows of heliostats: the front row stands in the way of the back row."""
    rays, k = int(rng.integers(1, 4)), int(rng.integers(2, 5))
    scene, job = TR.rows(rng, rays=rays, k=k)
    batch = int(rng.choice([1, 2, 100]))
    with mon.code("trace_rays"):
        flux, intercept, on_target, free = [
            G.N(x) for x in job.trace(job.tracer(batch_size=batch, blocking_active=True))]
    u, e = job.distortions()
    if not common(mon, flux, intercept, on_target, free, job.n):
        return
    corners = TR.field_corners(scene)
    strict = 0
    for kk in range(job.n):
        r = job.expected(kk, u, e)
        border = TR.borderline(job, r, kk)
        full, unsure = TR.blocked_rays(scene, corners, 0, job.owner[kk], r)
        count = full.size
        clear = ~full & ~unsure
        mon.close(free[kk], clear.mean(), "unblocked-share", atol=(unsure.sum() + 0.01) / count, sample=kk, batch=batch)
        mon.close(on_target[kk], r["valid"].mean(), "on-target-share-blocking", atol=(border.sum() + 0.01) / count, sample=kk)
        mon.close(intercept[kk], (r["valid"] & clear).mean(), "intercept-share", atol=((unsure | border).sum() + 0.01) / count, sample=kk)
        strict += (0 < clear.mean() < 1) and unsure.mean() < 0.3
        mon.count("clearly blocked rays", int(full.sum()))
    mon.count("partly blocked samples", int(strict))
    mon.observe((job.n, batch, rays, k, strict), strict > 0, dict(unblocked=free, intercept=intercept, on_target=on_target))


CHECK.require("partly missing samples", 1000)
CHECK.require("partly blocked samples", 50)
CHECK.require("clearly blocked rays", 2000)
CHECK.require("total losses", 100)
CHECK.require("faint rays", 200)
