"""R06 - reproducible sun rays of the configured distribution."""

import numpy as np
import torch
from scipy import stats

from artist.scene.sun import Sun
from artist.util import env
from vlib import dist as DI
from vlib import gen as G
from vlib import trace as TR
from vlib.core import Check

CHECK = Check(
    "R06",
    rule="one evaluation = one set of draws judged for reproducibility (history), for its distribution (statistics) or through the ray tracer "
    "(traced); distinct = (family, shape, mean, covariance class); non-trivial = more than one number drawn",
    assumptions=["statistical statements use a false-alarm probability below 1e-9 per test"],
)


def sun(rng):
    mean = float(rng.choice([0.0, rng.normal(0, 3e-3)]))
    cov = float(10 ** rng.uniform(-8, -2))
    rays = int(rng.integers(1, 12))
    return Sun(number_of_rays=rays, distribution_parameters=dict(distribution_type="normal", mean=mean, covariance=cov), device=G.CPU), mean, cov, rays


@CHECK.family(quick=1500, thorough=20000, chunk=20)
def history(mon, rng):
    light, mean, cov, rays = sun(rng)
    shapes = [(int(rng.integers(1, 20)), int(rng.integers(1, 6))) for _ in range(3)]
    seeds = rng.choice(10000, 3, replace=False)
    record = {}
    with mon.code("get_distortions"):
        for _ in range(8):
            (p, h), s = shapes[rng.integers(3)], int(seeds[rng.integers(3)])
            if rng.random() < 0.5:  # whatever else uses the global generator must not matter
                torch.rand(int(rng.integers(1, 50)))
            if rng.random() < 0.2:
                torch.manual_seed(int(rng.integers(1000)))
            u, e = light.get_distortions(p, h, s)
            mon.expect(u.shape == (h, rays, p) and e.shape == (h, rays, p), "shape", got=list(u.shape), want=[h, rays, p])
            mon.expect(bool(torch.isfinite(u).all() and torch.isfinite(e).all()), "not-finite")
            drawn, (u, e) = (u, e), (G.N(u), G.N(e))
            key = (p, h, s)
            if key in record:
                mon.expect((record[key][0] == u).all() and (record[key][1] == e).all(), "same-seed-differs", key=key)
                mon.count("repetitions")
            for other, (v, w) in record.items():
                if other[:2] == key[:2] and other[2] != s:
                    mon.expect((v != u).mean() > 0.5 or u.size < 4, "different-seed-same-rays", key=key, other=other)
                    mon.count("seed pairs")
            if u.size > 3:
                mon.expect((u != e).any(), "u-equals-e")
            record[key] = (u, e)
            if rng.random() < 0.3:  # what becomes of rays that were handed out must not matter either
                for x in drawn:
                    x.mul_(2).add_(1)
            if rng.random() < 0.3:
                factor = float(rng.choice([0.25, 4.0]))
                other = Sun(number_of_rays=rays, distribution_parameters=dict(distribution_type="normal", mean=mean, covariance=cov * factor), device=G.CPU)
                v, w = (G.N(x) for x in other.get_distortions(p, h, s))
                mon.expect((v != u).mean() > 0.5 and (w != e).mean() > 0.5, "other-sun-same-rays", key=key)
        again = Sun(number_of_rays=rays, distribution_parameters=dict(distribution_type="normal", mean=mean, covariance=cov), device=G.CPU)
        key = next(iter(record))
        u, e = again.get_distortions(number_of_points=key[0], number_of_active_heliostats=key[1], random_seed=key[2])
        mon.expect((G.N(u) == record[key][0]).all() and (G.N(e) == record[key][1]).all(), "equal-suns-differ")
        default = light.get_distortions(5, 1)[0], light.get_distortions(5, 1, 7)[0]
        mon.expect(torch.equal(*default), "default-seed")
    mon.observe((tuple(shapes[0]), rays, mean == 0), True, dict(mean=mean, covariance=cov, keys=[list(k) for k in record]))


def z(mon, value, sigma, mech, **kw):
    mon.maximum(f"sigmas {mech}", abs(value) / sigma)
    mon.count("statistical tests")
    mon.expect(abs(value) <= 6.5 * sigma, mech, sigmas=value / sigma, **kw)


@CHECK.family(quick=24, thorough=300, chunk=1, timeout=400)
def processes(mon, rng):
    """Every process of a world draws the rays that a single process draws."""
    light, mean, cov, rays = sun(rng)
    world, groups = int(rng.integers(2, 5)), int(rng.integers(1, 4))
    keys = [(int(rng.integers(1, 20)), int(rng.integers(1, 6)), int(rng.integers(10000))) for _ in range(4)]

    def draw():
        return [[G.N(x) for x in light.get_distortions(p, h, s)] for p, h, s in keys]

    def work(rank, log):
        with env.setup_distributed_environment(number_of_heliostat_groups=groups, device=G.CPU):
            return draw()

    results, _ = DI.run_world(world, work, seed=int(rng.integers(10**6)))
    if not mon.expect(all(r[0] == "value" for r in results), "process-failed", results=[str(r[1])[:300] if r[0] != "value" else "" for r in results]):
        return
    with mon.code("get_distortions"):
        want = draw()
    for rank, (_, got) in enumerate(results):
        mon.expect(all(np.array_equal(a, b) for x, y in zip(got, want) for a, b in zip(x, y)), "process-draws-other-rays", rank=rank, world=world)
        mon.count("processes that drew rays")
    mon.observe(("processes", world, groups, rays), True, dict(keys=keys))


@CHECK.family(quick=160, thorough=1500, chunk=4)
def statistics(mon, rng):
    light, mean, cov, rays = sun(rng)
    h, p = int(rng.integers(2, 6)), int(40000 / rays / 3)
    with mon.code("get_distortions"):
        u, e = (G.N(x) for x in light.get_distortions(p, h, int(rng.integers(0, 10**6))))
    sd = np.sqrt(cov)
    n = u.size
    info = dict(mean=mean, covariance=cov, shape=u.shape)
    for name, x in (("u", u), ("e", e)):
        y = (x - mean) / sd
        z(mon, y.mean(), 1 / np.sqrt(n), f"mean-{name}", **info)
        z(mon, (y**2).mean() - 1, np.sqrt(2 / n), f"variance-{name}", **info)
        d, pv = stats.kstest(y.ravel(), "norm")
        mon.expect(pv > 1e-10, f"not-normal-{name}", p=pv, **info)
        # independence between neighbours along every axis
        for axis in range(3):
            if y.shape[axis] > 1:
                a, b = np.take(y, range(1, y.shape[axis]), axis), np.take(y, range(y.shape[axis] - 1), axis)
                z(mon, (a * b).mean(), 1 / np.sqrt(a.size), f"correlation-{name}-axis{axis}", **info)
        z(mon, (y[:, :, 0] * y[:, :, -1]).mean(), 1 / np.sqrt(y[:, :, 0].size), f"first-last-correlation-{name}", **info)
        for i in range(h):
            z(mon, y[i].mean(), 1 / np.sqrt(y[i].size), f"mean-per-heliostat-{name}", **info)
            z(mon, (y[i] ** 2).mean() - 1, np.sqrt(2 / y[i].size), f"variance-per-heliostat-{name}", **info)
    z(mon, ((u - mean) / sd * (e - mean) / sd).mean(), 1 / np.sqrt(n), "correlation-u-e", **info)
    mon.count("numbers drawn", 2 * n)
    mon.observe((h, rays, int(np.log10(cov)), mean == 0), True, info)


@CHECK.family(quick=200, thorough=2000, chunk=4)
def traced(mon, rng):
    light, mean, cov, rays = sun(rng)
    scene = G.random_scene(rng, sun=light, k=2)
    job = TR.Job(rng, scene, res=[20, 20])
    seed = int(rng.integers(0, 1000))
    with mon.code("trace_rays"):
        a = job.trace(job.tracer(random_seed=seed))
        torch.rand(17)
        tracer = job.tracer(random_seed=seed, batch_size=int(rng.integers(1, job.n + 1)))
        torch.manual_seed(3)
        b = job.trace(tracer)
        c = job.trace(tracer)
        other = job.trace(job.tracer(random_seed=seed + 1))
        default, seven = job.trace(job.tracer()), job.trace(job.tracer(random_seed=7))
    mon.close(b[0], a[0], "same-seed-different-image", atol=1e-6, rtol=1e-6)
    mon.close(c[0], b[0], "second-trace-different", atol=1e-6, rtol=1e-6)
    mon.close(default[0], seven[0], "default-seed-image", atol=1e-6, rtol=1e-6)
    if cov > 1e-5 and G.N(a[0]).sum() > 1:
        mon.expect((G.N(a[0]) != G.N(other[0])).any(), "seed-ignored-by-tracer")
        mon.count("images with other seeds")
    mon.observe((job.n, rays, int(np.log10(cov))), True, dict(seed=seed, total=a[0].sum()))


CHECK.require("processes that drew rays", 30)
CHECK.require("repetitions", 2000)
CHECK.require("seed pairs", 1000)
CHECK.require("statistical tests", 2000)
CHECK.require("images with other seeds", 30)
