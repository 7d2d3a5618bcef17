"""L01 - loss functions."""

from functools import partial

import numpy as np
import torch

from artist.optim import loss as L
from checks.f01 import batch, mean_position
from vlib import gen as G
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "L01",
    rule="one evaluation = one loss call whose values were compared sample by sample with a float64 definition, with the loss of each "
    "sample alone and with the loss of equal inputs; distinct = (loss, batch size class, shapes, kinds of samples); non-trivial = at "
    "least one sample with clearly different prediction and ground truth",
    assumptions=["measured flux images carry light (the pixel loss is relative to their total)",
                 "planar targets of the focal spot loss stand vertically facing north or south (see the finding of G03)"],
)


def call(mon, what, fn, prediction, truth, **kw):
    p, t = G.T(prediction), G.T(truth)
    keep = (p.clone(), t.clone())
    with mon.code(what):
        out = fn(prediction=p, ground_truth=t, **kw)
    mon.expect(torch.equal(p, keep[0]) and torch.equal(t, keep[1]), "input-modified", loss=what)
    return G.N(out)


def judge(mon, what, fn, prediction, truth, want, atol, rtol=2e-5, zero=1e-6, kw=lambda sel: {}, symmetric=False, reduce=True):
    """prediction/truth: [n, ...] float32-exact numpy arrays; kw(sel) are the keyword arguments for a selection of samples."""
    n = len(prediction)
    everything = np.arange(n)
    got = call(mon, what, fn, prediction, truth, **kw(everything))
    if not mon.expect(got.shape == want.shape, f"{what}-shape", got=got.shape, want=want.shape):
        return None
    mon.close(got, want, f"{what}-definition", atol=atol, rtol=rtol)
    mon.expect(np.isfinite(got).all() and (got >= -atol).all(), f"{what}-negative", got=got)
    clear = want > 10 * (atol + zero)
    mon.expect((got[clear] > 0).all(), f"{what}-not-positive", got=got, want=want)
    mon.count("samples judged", n)
    mon.count("samples clearly different", int(clear.sum()))
    same = call(mon, what, fn, truth, truth, **kw(everything))
    mon.expect(np.abs(same).max() <= zero, f"{what}-not-zero-for-equal", got=same)
    # alone and in any order
    order = rng_perm(n)
    mon.close(call(mon, what, fn, prediction[order], truth[order], **kw(order)), got[order], f"{what}-order", atol=atol, rtol=rtol)
    k = int(order[0])
    mon.close(call(mon, what, fn, prediction[k:k + 1], truth[k:k + 1], **kw(everything[k:k + 1])), got[k:k + 1], f"{what}-alone", atol=atol, rtol=rtol)
    if symmetric:
        mon.close(call(mon, what, fn, truth, prediction, **kw(everything)), got, f"{what}-symmetric", atol=atol, rtol=rtol)
    return bool(clear.any())


def rng_perm(n):
    return np.random.default_rng(n).permutation(n)


def pair(rng, n, shape, scale):
    truth = rng.normal(0, scale, (n,) + shape)
    pred = truth + rng.normal(0, scale, (n,) + shape) * rng.choice([0, 1e-3, 1, 10], (n,) + (1,) * len(shape))
    return G.f32(pred), G.f32(truth)


@CHECK.family(quick=400, thorough=5000, chunk=40)
def vector(mon, rng):
    n, dims = G.size(rng, 1, 8), int(rng.integers(1, 4))
    shape = tuple(int(v) for v in rng.integers(1, 7, dims))
    scale = float(rng.choice([1e-2, 1.0, 50.0]))
    p, t = pair(rng, n, shape, scale)
    red = tuple(range(1, dims + 1))
    if dims > 1 and rng.random() < 0.3:  # partial reduction keeps the other dimensions
        red = tuple(sorted(rng.choice(red, int(rng.integers(1, dims)), replace=False).tolist()))
    want = ((p - t) ** 2).sum(axis=red)
    nt = judge(mon, "vector", L.VectorLoss(), p, t, want, atol=1e-6 * scale**2, kw=lambda s: dict(reduction_dimensions=red), zero=0.0,
               symmetric=True)
    missing(mon, "vector", L.VectorLoss(), p, t)
    mon.observe((dims, len(red), min(n, 3), scale), bool(nt), dict(shape=shape, reduction=red))


def missing(mon, what, fn, p, t, **kw):
    try:
        fn(prediction=G.T(p), ground_truth=G.T(t), **kw)
        mon.violation(f"{what}-missing-argument-accepted")
    except ValueError:
        mon.count("missing arguments rejected")


def images(rng):
    truth, kinds = batch(rng, low=2, high=40, dark=False)
    pred, more = batch(rng, low=2, high=40, n=(len(truth), len(truth) + 1), dark=True)
    h, w = truth.shape[1:]
    out = np.zeros_like(truth)
    hh, ww = min(h, pred.shape[1]), min(w, pred.shape[2])
    out[:, :hh, :ww] = pred[:, :hh, :ww]
    if rng.random() < 0.4:
        out = truth * rng.uniform(0.5, 1.5, truth.shape)
    if rng.random() < 0.2:
        out = truth * rng.uniform(0.5, 1.5)
    return G.f32(out), truth, kinds


@CHECK.family(quick=400, thorough=5000, chunk=40)
def pixel(mon, rng):
    p, t, kinds = images(rng)
    want = ((p - t) ** 2).sum((1, 2)) / t.sum((1, 2))
    nt = judge(mon, "pixel", L.PixelLoss(), p, t, want, atol=1e-6, rtol=1e-4, zero=0.0, kw=lambda s: dict(reduction_dimensions=(1, 2)))
    missing(mon, "pixel", L.PixelLoss(), p, t)
    mon.observe((tuple(sorted(set(kinds)))[:3], min(len(p), 3)), bool(nt), dict(want=want[:3], shape=p.shape))


@CHECK.family(quick=400, thorough=5000, chunk=40)
def divergence(mon, rng):
    p, t, kinds = images(rng)
    eps = 1e-12
    lit = p.sum((1, 2)) > 0
    P = t / t.sum((1, 2), keepdims=True) + eps
    Q = p / np.maximum(p.sum((1, 2), keepdims=True), eps) + eps
    want = (P * np.log(P / Q)).sum((1, 2))
    nt = judge(mon, "divergence", L.KLDivergenceLoss(), p, t, want, atol=2e-4, rtol=2e-4, zero=1e-5,
               kw=lambda s: dict(reduction_dimensions=(1, 2)))
    missing(mon, "divergence", L.KLDivergenceLoss(), p, t)
    # independent of the brightness of either image
    f = rng.uniform(0.3, 30)
    if lit.all():
        a = call(mon, "divergence", L.KLDivergenceLoss(), G.f32(p * f), t, reduction_dimensions=(1, 2))
        mon.close(a, want, "divergence-brightness", atol=2e-4, rtol=2e-4, factor=f)
    mon.observe((tuple(sorted(set(kinds)))[:3], min(len(p), 3), bool(lit.all())), bool(nt), dict(want=want[:3], shape=p.shape))


def directions(rng, n):
    v = rng.normal(0, 1, (n, 3))
    v /= np.linalg.norm(v, axis=1, keepdims=True)
    return v


@CHECK.family(quick=600, thorough=8000, chunk=50)
def angles(mon, rng):
    n = G.size(rng, 1, 11)
    t = directions(rng, n) * rng.uniform(0.2, 5.0, (n, 1))
    p = np.empty_like(t)
    angle = rng.choice([0.0, 1e-3, 0.1, 1.0, np.pi / 2, 3.0, np.pi], n)
    for k in range(n):
        axis = np.cross(t[k], directions(rng, 1)[0])
        p[k] = (O.rodrigues(axis, angle[k])[:3, :3] @ t[k]) * rng.uniform(0.2, 5.0)
    zero = np.zeros((n, 1))
    p, t = G.f32(np.concatenate([p, zero], 1)), G.f32(np.concatenate([t, zero], 1))
    cos = np.clip((p * t).sum(1) / np.linalg.norm(p, axis=1) / np.linalg.norm(t, axis=1), -1, 1)
    # float32 cosines resolve angles near 0 and 180 degrees to about 5e-4 rad only
    sine = np.sqrt(1 - cos**2)
    got = call(mon, "angle", L.AngleLoss(), p, t)
    if mon.expect(got.shape == (n,), "angle-shape", got=got.shape):
        bound = np.minimum(8e-4, 6e-7 / np.maximum(sine, 1e-9)) + 1e-6
        mon.close((got - np.arccos(cos)) / bound, np.zeros(n), "angle-definition", atol=1.0, got=got)
        mon.expect((got >= 0).all() and np.isfinite(got).all(), "angle-negative", got=got)
    judge(mon, "cosine", L.CosineSimilarityLoss(), p, t, 1 - cos, atol=2e-6, zero=1e-6, symmetric=True)
    judge(mon, "angle", L.AngleLoss(), p, t, np.arccos(cos), atol=1.2e-3, zero=1e-3, symmetric=True)
    mon.observe((min(n, 3), tuple(sorted(set(np.round(angle, 3))))[:3]), True, dict(angle=angle))


@CHECK.family(quick=400, thorough=5000, chunk=25)
def focal_spot(mon, rng):
    p, t, kinds = images(rng)
    n, h, w = t.shape
    p = np.where(p.sum((1, 2), keepdims=True) > 0.01, p, t)
    pl = G.planar_targets(rng, int(rng.integers(0, 3)))
    for x in pl:
        x["normal"] = np.array([0, 1.0 if rng.random() < 0.7 else -1.0, 0, 0])
    cy = G.cylinder_targets(rng, int(rng.integers(0 if pl else 1, 3)), turn=np.pi, tilt=0.3, opening=(0.5, 2 * np.pi))
    scene = G.Scene([G.group_spec(rng, 1, k=2)], pl, cy, G.StubLight(1))
    targets = scene.targets
    idx = rng.integers(0, len(targets), n)
    want = np.array([np.linalg.norm(O.pixel_to_world(targets[i], *mean_position(p[k]), [w, h])
                                    - O.pixel_to_world(targets[i], *mean_position(t[k]), [w, h])) for k, i in enumerate(idx)])
    fn = L.FocalSpotLoss(scene.scenario)
    nt = judge(mon, "focal-spot", fn, p, t, want, atol=1.5e-3, rtol=1e-4, zero=1e-5, symmetric=True,
               kw=lambda s: dict(target_area_indices=torch.tensor(idx[s]), device=G.CPU))
    missing(mon, "focal-spot", fn, p, t, device=G.CPU)
    missing(mon, "focal-spot", fn, p, t, target_area_indices=torch.tensor(idx))
    mon.observe((tuple(sorted({targets[i]["type"] for i in idx})), h == w, min(n, 3)), bool(nt), dict(want=want[:3], resolution=[w, h]))


@CHECK.family(quick=300, thorough=4000, chunk=50)
def reduction(mon, rng):
    """Losses per heliostat are the requested statistic of exactly the samples of that heliostat."""
    H, S = G.size(rng, 1, 8), G.size(rng, 1, 8)
    extra = int(rng.integers(0, S)) if rng.random() < 0.3 else 0
    x = G.f32(rng.exponential(1, H * S + extra))
    block = x[:H * S].reshape(H, S)
    which = ("mean", "sum", "median")[int(rng.integers(3))]
    fn, want = {"mean": (partial(torch.mean, dim=-1), block.mean(1)), "sum": (partial(torch.sum, dim=1), block.sum(1)),
                "median": (partial(torch.median, dim=1), np.sort(block, 1)[:, (S - 1) // 2])}[which]
    with mon.code("reduce_loss_per_sample"):
        got = G.N(L.reduce_loss_per_sample(loss_per_sample=G.T(x), number_of_samples_per_heliostat=S, reduction=fn))
    mon.close(got, want, f"reduction-{which}", atol=1e-6, rtol=1e-5, samples=S, heliostats=H, extra=extra)
    mon.count("reductions judged")
    mon.observe((which, min(S, 4), min(H, 4), extra > 0), H > 1, dict(heliostats=H, samples=S))


CHECK.require("samples judged", 5000)
CHECK.require("samples clearly different", 2500)
CHECK.require("missing arguments rejected", 1000)
CHECK.require("reductions judged", 200)
