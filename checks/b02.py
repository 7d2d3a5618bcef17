"""B02 - blocked light is removed, and only that light."""

import numpy as np
import torch

from vlib import gen as G
from vlib import oracle as O
from vlib import trace as TR
from vlib.core import Check

CHECK = Check(
    "B02",
    rule="one evaluation = one scene traced with and without blocking whose images and unblocked shares were compared with exact ray-rectangle "
    "crossings of all other mirrors of the field; distinct = (family, groups, samples, batch, aligned others, blockers seen from other groups); "
    "non-trivial = at least one ray clearly blocked (dense), or none (sparse)",
    assumptions=["rays crossing a mirror within 2 % of its edge, within 10 cm of their origin or behind the target are not judged",
                 "activation masks with entries zero or one, four facets with square point grids"],
)


def judge(mon, job, scene, out, plain, batch, mech):
    """Compare image, pixelwise bound and unblocked share of every sample of the traced group."""
    flux, _, _, free = [G.N(x) for x in out]
    plain = G.N(plain[0])
    corners = TR.field_corners(scene)
    u, e = job.distortions()
    total = dict(clear=0, blocked=0, foreign=0, unsure=0)
    for k in range(job.n):
        r = job.expected(k, u, e)
        full, unsure = TR.blocked_rays(scene, corners, job.g, job.owner[k], r)
        own_group, _ = TR.blocked_rays(scene, [c if g == job.g else c[:0] for g, c in enumerate(corners)], job.g, job.owner[k], r)
        total["blocked"] += int((full & r["valid"]).sum())
        total["foreign"] += int((full & ~own_group & r["valid"]).sum())
        total["unsure"] += int(unsure.sum())
        total["clear"] += int((~full & ~unsure & r["valid"]).sum())
        mon.expect((flux[k] <= plain[k] + 1e-5 + 1e-5 * plain[k]).all(), f"{mech}-light-added-by-blocking", sample=k)
        undecided = (r["power"] * unsure).sum()
        want = job.expected(k, u, e, blocked=(full | unsure).astype(float))
        tol, slack, rounding = TR.image_tolerance(job, r, k)
        low, high = want["image"] - tol, r["image"] * 0 + want["image"] + O.splat(
            np.where(r["valid"], r["col"], 0.0).ravel(), np.where(r["valid"], r["row"], 0.0).ravel(), (r["power"] * unsure).ravel(), job.res) + tol
        n_blocked, n_unsure = int(full.sum()), int(unsure.sum())
        info = dict(sample=k, owner=int(job.owner[k]), blocked=n_blocked, undecided=n_unsure, rays=full.size, batch=batch, mask=job.mask,
                    groups=len(scene.groups), group=job.g, got=flux[k].sum(), want=want["image"].sum(), plain=plain[k].sum())
        mon.expect((flux[k] >= low).all(), f"{mech}-unblocked-light-removed", **info)
        mon.expect((flux[k] <= high).all(), f"{mech}-blocked-light-delivered", **info)
        mon.expect(abs(flux[k].sum() - want["image"].sum()) <= undecided + slack + rounding + 1e-3 * (1 + plain[k].sum()), f"{mech}-power", **info)
        share = (~full & ~unsure).mean()
        mon.expect(share - 1e-6 <= free[k] <= share + (n_unsure + 0.01) / full.size, f"{mech}-unblocked-share", got_share=free[k],
                   want_share=share, **info)
        if n_blocked == 0 and n_unsure == 0:
            mon.close(flux[k], plain[k], f"{mech}-image-changed-without-blocker", atol=1e-5, rtol=1e-5, **info)
            mon.count("samples without blocker")
        mon.count("samples")
    for name, v in total.items():
        mon.count(f"rays {name}", v)
    return total


def run_scene(mon, rng, scene, job, mech):
    batch = int(rng.choice([1, 2, 3, 100]))
    with mon.code("trace_rays with blocking"):
        out = job.trace(job.tracer(blocking_active=True, batch_size=batch))
        plain = job.trace(job.tracer(blocking_active=False, batch_size=batch))
    total = judge(mon, job, scene, out, plain, batch, mech)
    return batch, total


@CHECK.family(quick=500, thorough=6000, chunk=4)
def dense(mon, rng):
    """Rows in each other's way, one to three groups, others aligned, partly aligned or still horizontal."""
    groups = int(rng.integers(1, 4))
    scene, job = TR.rows(rng, groups=groups, rays=int(rng.integers(1, 4)), k=int(rng.integers(2, 5)), align_others=rng.random() < 0.8,
                         cylinders=(0, 2))
    batch, total = run_scene(mon, rng, scene, job, "dense")
    mon.observe((len(scene.groups), job.n, batch, total["blocked"] > 0, total["foreign"] > 0), total["blocked"] > 0, total)


@CHECK.family(quick=200, thorough=2500, chunk=4)
def every_group(mon, rng):
    """The same field seen from each of its groups."""
    scene, job = TR.rows(rng, groups=int(rng.integers(2, 4)), rays=2, k=2, cylinders=(0, 1))
    for other in job.others + [job]:
        batch, total = run_scene(mon, rng, scene, other, "group")
        mon.count("groups traced")
        mon.observe((len(scene.groups), other.g, other.n, batch), total["blocked"] > 0, total)


@CHECK.family(quick=300, thorough=4000, chunk=4)
def planted(mon, rng):
    """A mirror put exactly into one heliostat's beam, belonging to any group at any place of the storage order."""
    groups = int(rng.integers(1, 4))
    sizes = rng.integers(1, 4, groups)
    g = int(rng.integers(groups))
    half = (0.8, 0.6)
    height = 25.0
    positions = [np.stack([rng.uniform(60, 100, n) * rng.choice([-1, 1], n), rng.uniform(120, 200, n), np.zeros(n), np.ones(n)], 1)
                 for n in sizes]
    me = int(rng.integers(sizes[g]))
    positions[g][me, :3] = [rng.uniform(-3, 3), rng.uniform(45, 70), 0]
    blocker_group = int(rng.integers(groups))
    choices = [i for i in range(sizes[blocker_group]) if (blocker_group, i) != (g, me)]
    target = G.planar_targets(rng, 1, height=height, spread=1.0, size=(5.0, 8.0))
    aim = G.aim_point(target[0])[:3]
    blocker = None
    if choices and rng.random() < 0.8:
        blocker = int(rng.choice(choices))
        s = rng.uniform(0.1, 0.85)
        p = positions[g][me, :3]
        positions[blocker_group][blocker, :3] = p + s * (aim - p) + rng.normal(0, 0.3, 3)
    specs = [G.group_spec(rng, int(n), k=2, positions=p, prefix=f"g{i}h", half=half, deviations=0.2) for i, (n, p) in enumerate(zip(sizes, positions))]
    scene = G.Scene(specs, target, [], G.StubLight(2, 1e-3, seed=int(rng.integers(2**31))))
    for i in range(groups):
        if i != g and rng.random() < 0.8:
            TR.Job(rng, scene, i, mask=np.ones(sizes[i], int), res=[10, 10])
    mask = np.ones(sizes[g], int)
    if rng.random() < 0.4:
        mask = rng.integers(0, 2, sizes[g])
        mask[me] = 1
    job = TR.Job(rng, scene, g, mask=mask, res=[30, 20])
    batch, total = run_scene(mon, rng, scene, job, "planted")
    mon.count("planted blockers", int(blocker is not None))
    mon.count("planted blockers of another group", int(blocker is not None and blocker_group != g))
    mon.observe((groups, g, blocker_group if blocker is not None else None, job.n, batch), True,
                dict(total, blocker=blocker, blocker_group=blocker_group, group=g, me=me))


@CHECK.family(quick=100, thorough=1200, chunk=4)
def sparse(mon, rng):
    """Fields without any blocking: the images do not change."""
    scene = G.random_scene(rng, groups=int(rng.integers(1, 3)), per_group=(1, 4), planar=(1, 2), cylindrical=(0, 2), rays=2, k=2, near=60)
    for s in scene.specs:
        assert s.facets == 4
    mask = G.random_mask(rng, scene.specs[0].n, 0, 1)
    job = TR.Job(rng, scene, 0, mask=mask, res=[20, 20])
    batch, total = run_scene(mon, rng, scene, job, "sparse")
    mon.observe((len(scene.groups), job.n, batch), total["blocked"] == 0, total)


CHECK.require("rays blocked", 10000)
CHECK.require("rays foreign", 3000)
CHECK.require("rays clear", 20000)
CHECK.require("samples without blocker", 300)
CHECK.require("planted blockers of another group", 60)
