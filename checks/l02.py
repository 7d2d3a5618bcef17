"""L02 - surface regularisers."""

import numpy as np

import torch

from artist.optim import regularizers as R
from vlib import gen as G
from vlib.core import Check

CHECK = Check(
    "L02",
    rule="one evaluation = one regulariser call compared surface by surface with a float64 definition, or a relation between calls (same "
    "control points, constant offsets, scaled offsets, each surface alone, added common offset); distinct = (family, offset kind, "
    "numbers of surfaces and facets, net shape class); non-trivial = offsets present",
    assumptions=["regularisers are reduced over the facets, as the surface reconstruction does"],
)


def laplacian(d):
    p = np.pad(d, ((0, 0), (0, 0), (1, 1), (1, 1), (0, 0)), mode="edge")
    return 4 * d - p[:, :, :-2, 1:-1] - p[:, :, 2:, 1:-1] - p[:, :, 1:-1, :-2] - p[:, :, 1:-1, 2:]


def smooth(d):
    return (laplacian(d) ** 2).mean((2, 3, 4)).sum(1)


def ideal(d):
    return (d**2).mean((2, 3, 4)).sum(1)


CASES = dict(smoothness=(R.SmoothnessRegularizer, smooth), ideal=(R.IdealSurfaceRegularizer, ideal))
KINDS = ("none", "random", "constant", "heights", "one", "ramp", "big")


def offsets(rng, shape, kind):
    d = np.zeros(shape)
    H, F, U, V, _ = shape
    if kind in ("random", "big"):
        d = rng.normal(0, 1e-2 if kind == "random" else 3.0, shape)
    elif kind == "constant":
        d += rng.normal(0, 0.1, (H, F, 1, 1, 3))
    elif kind == "heights":
        d[..., 2] = rng.normal(0, 1e-2, shape[:-1])
    elif kind == "one":
        d[tuple(int(rng.integers(s)) for s in shape)] = rng.choice([-1, 1]) * rng.uniform(0.01, 1)
    elif kind == "ramp":
        d[..., 2] = np.linspace(0, 1, U)[:, None] * rng.normal() + np.linspace(0, 1, V) * rng.normal()
    return d


def call(mon, what, current, original):
    a, b = G.T(current), G.T(original)
    keep = a.clone(), b.clone()
    with mon.code(what):
        out = CASES[what][0](reduction_dimensions=(1,))(current_control_points=a, original_control_points=b, device=G.CPU)
    mon.expect(torch.equal(a, keep[0]) and torch.equal(b, keep[1]), "input-modified", regularizer=what)
    return G.N(out)


@CHECK.family(quick=1200, thorough=15000, chunk=40)
def definition(mon, rng):
    shape = (G.size(rng, 1, 5, most=25), int(rng.integers(1, 6)), int(rng.integers(1, 9)), int(rng.integers(1, 9)), 3)
    kind = KINDS[int(rng.integers(len(KINDS)))]
    original = G.f32(rng.normal(0, 1, shape)) if rng.random() < 0.5 else np.zeros(shape)
    d = offsets(rng, shape, kind)
    current = G.f32(original + d)
    d = current - original
    size = np.abs(d).max() + 1e-12
    for what, (_, definition_) in CASES.items():
        got = call(mon, what, current, original)
        want = definition_(d)
        atol = 1e-5 * size**2 + 1e-6 * size * np.abs(current).max() * 1.0 + 1e-13
        if not mon.close(got, want, f"{what}-definition", atol=atol, rtol=1e-4, kind=kind, shape=shape):
            continue
        mon.expect((got >= 0).all(), f"{what}-negative", got=got)
        if kind == "none":
            mon.expect((got == 0).all(), f"{what}-not-zero", got=got)
        if kind == "constant" and what == "smoothness":
            mon.expect((got <= 1e-10).all(), "smoothness-of-constant-offset", got=got)
            mon.count("constant offsets")
        if kind in ("random", "big", "heights") and (what == "ideal" or shape[2] * shape[3] > 1):
            mon.expect((got > 0).all(), f"{what}-defect-not-seen", got=got)
            mon.count("defects seen")
        if kind == "one" and (what == "ideal" or shape[2] * shape[3] > 1):
            mon.expect((got > 0).sum() == 1, f"{what}-single-offset", got=got, shape=shape)
            mon.count("single offsets")
        # every surface on its own
        k = int(rng.integers(shape[0]))
        mon.close(call(mon, what, current[k:k + 1], original[k:k + 1]), got[k:k + 1], f"{what}-alone", rtol=1e-5)
    mon.observe((kind, shape[0] > 1, shape[1] > 1, shape[2] == 1 or shape[3] == 1, shape[2] == shape[3]), kind != "none", dict(shape=shape, kind=kind))


@CHECK.family(quick=500, thorough=6000, chunk=40)
def scaling(mon, rng):
    """Quadratic in the offset; the sign of the offset and the original shape do not matter."""
    shape = (G.size(rng, 1, 3, most=25), int(rng.integers(1, 5)), int(rng.integers(2, 9)), int(rng.integers(2, 9)), 3)
    d = G.f32(offsets(rng, shape, ("random", "heights", "one")[int(rng.integers(3))]))
    f = 2.0 ** int(rng.integers(-3, 6))  # exact in float32
    zero = np.zeros(shape)
    for what in CASES:
        base = call(mon, what, d, zero)
        mon.close(call(mon, what, d * f, zero), base * f * f, f"{what}-quadratic", rtol=1e-5, factor=f)
        mon.close(call(mon, what, -d, zero), base, f"{what}-sign", rtol=1e-5)
        mon.close(call(mon, what, zero, d), base, f"{what}-sign", rtol=1e-5)
        original = G.f32(rng.normal(0, 1, shape))
        mon.close(call(mon, what, original + d, original), base, f"{what}-original-shape", rtol=1e-3, atol=1e-6 * (np.abs(d).max() + 1e-6))
        mon.count("relations checked", 4)
        # mirrored nets carry the same defect
        mon.close(call(mon, what, d[:, :, ::-1].copy(), zero), base, f"{what}-mirror", rtol=1e-5)
        mon.close(call(mon, what, d[:, :, :, ::-1].copy(), zero), base, f"{what}-mirror", rtol=1e-5)
        mon.close(call(mon, what, np.swapaxes(d, 2, 3).copy(), np.swapaxes(zero, 2, 3)), base, f"{what}-transpose", rtol=1e-5)
    mon.observe((shape[0] > 1, shape[1] > 1, f), True, dict(shape=shape, factor=f))


CHECK.require("defects seen", 500)
CHECK.require("single offsets", 150)
CHECK.require("constant offsets", 80)
CHECK.require("relations checked", 2000)
