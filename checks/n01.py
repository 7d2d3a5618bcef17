"""N01 - NURBS evaluation."""

import numpy as np
import torch

from artist.nurbs.surfaces import NURBSSurfaces
from vlib import gen as G
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "N01",
    rule="one evaluation = one facet surface evaluated at all its points by the real code and compared with a float64 Cox-de Boor "
    "tensor product; distinct = (mode, degrees, net size, batch shape, evaluation point kind); non-trivial = all",
    assumptions=["normals are judged where the surface is regular and, for degree one, away from knots"],
)


def eval_points(rng, shape, nets, degrees, closed):
    """Random points, knots, starts and ends of the domain."""
    S, F, P = shape
    kind = int(rng.integers(4))
    x = rng.uniform(0, 1, (S, F, P, 2))
    if kind == 1:
        for k in range(2):
            spans = nets[k] - degrees[k]
            x[..., k] = rng.integers(0, spans + 1, (S, F, P)) / spans
    elif kind == 2:
        x = rng.choice([0.0, 1e-7, 0.5, 1 - 1e-7, 1.0], (S, F, P, 2))
    elif kind == 3:
        n = max(2, int(np.sqrt(P)))
        a = O.grid_uv(n, n)
        x = np.broadcast_to(a, (S, F) + a.shape).copy()
    x = np.clip(x, 0, 1)
    if not closed:
        x = np.minimum(x, 1 - 1.2e-7)
    return G.f32(x), kind


def control_points(rng, S, F, nets):
    he, hn = rng.uniform(0.3, 3), rng.uniform(0.3, 3)
    kind = int(rng.integers(3))
    cp = np.zeros((S, F) + tuple(nets) + (3,))
    cp[..., 0] = np.linspace(-he, he, nets[0])[None, None, :, None]
    cp[..., 1] = np.linspace(-hn, hn, nets[1])[None, None, None, :]
    cp[..., 2] = rng.normal(0, [1e-3, 0.1, 0.5][kind], cp.shape[:-1])
    if kind == 2:
        cp += rng.normal(0, 0.15, cp.shape) * min(he, hn) / max(nets)
    cp += rng.normal(0, 1, (S, F, 1, 1, 3)) * (rng.random() < 0.5)
    return G.f32(cp), kind


def canting(rng, S, F):
    c, t = np.zeros((S, F, 2, 4)), np.zeros((S, F, 4))
    c[..., 0, :3] = np.array([1.0, 0, 0]) + rng.normal(0, 0.05, (S, F, 3))
    c[..., 1, :3] = np.array([0, 1.0, 0]) + rng.normal(0, 0.05, (S, F, 3))
    t[..., :3] = rng.normal(0, 2, (S, F, 3))
    return G.f32(c), G.f32(t)


def judge(mon, got_p, got_n, cp, degrees, uv, knots, cant, trans, what):
    S, F = cp.shape[:2]
    scale = np.abs(cp).max() + 1
    for s in range(S):
        for f in range(F):
            ku, kv = (None, None) if knots is None else (knots[0][s, f], knots[1][s, f])
            nu, nv = cp.shape[2:4]
            ku = O.clamped_knots(nu, degrees[0]) if ku is None else ku
            kv = O.clamped_knots(nv, degrees[1]) if kv is None else kv
            bu, du = O.basis(nu, degrees[0], uv[s, f, :, 0], ku)
            bv, dv = O.basis(nv, degrees[1], uv[s, f, :, 1], kv)
            p = np.einsum("pi,pj,ijk->pk", bu, bv, cp[s, f])
            tu, tv = np.einsum("pi,pj,ijk->pk", du, bv, cp[s, f]), np.einsum("pi,pj,ijk->pk", bu, dv, cp[s, f])
            raw = np.cross(tu, tv)
            length = np.linalg.norm(raw, axis=1)
            area = np.linalg.norm(tu, axis=1) * np.linalg.norm(tv, axis=1)
            n = raw / np.maximum(length, 1e-300)[:, None]
            if cant is not None:
                r = O.cant_rotation(cant[s, f])
                p, n = p @ r.T + trans[s, f, :3], n @ r.T
            mon.close(got_p[s, f, :, :3], p, "surface-point", atol=1.5e-6 * scale * (1 + max(degrees)), what=what, degrees=degrees, net=cp.shape[2:4])
            mon.expect((got_p[s, f, :, 3] == 1).all() and (got_n[s, f, :, 3] == 0).all(), "homogeneous", what=what)
            regular = length > 0.05 * area
            for k, (d, kn) in enumerate(((degrees[0], ku), (degrees[1], kv))):
                if d == 1:
                    regular &= np.abs(uv[s, f, :, k][:, None] - np.unique(kn)[None, 1:-1]).min(axis=1, initial=1) > 1e-5
            err = np.abs(got_n[s, f, :, :3] - n).max(1)
            tol = 6e-6 * (1 + max(degrees)) * (1 + area / np.maximum(length, 1e-300)) * max(1, max(nu, nv) / 8)
            bad = regular & ~(err <= tol)
            if regular.any():
                mon.maximum("normal error / tolerance", (err / tol)[regular].max())
                mon.count("normals", regular.sum())
            if bad.any():
                k = int(np.argwhere(bad)[0, 0])
                mon.violation("surface-normal", what=what, got=got_n[s, f, k], want=n[k], uv=uv[s, f, k], degrees=degrees, net=cp.shape[2:4], bad=int(bad.sum()))
            mon.expect((np.abs(np.linalg.norm(got_n[s, f, regular, :3], axis=1) - 1) < 1e-5).all(), "normal-not-unit", what=what)


def run(mon, rng, uniform):
    degrees = [int(v) for v in rng.integers(1, 5, 2)]
    nets = [d + 1 + int(rng.integers(0, 8)) for d in degrees]
    S, F, P = G.size(rng, 1, 3, most=30), int(rng.integers(1, 5)), int(rng.integers(1, 40))
    cp, kind = control_points(rng, S, F, nets)
    uv, points = eval_points(rng, (S, F, P), nets, degrees, closed=True)
    cant, trans = canting(rng, S, F) if rng.random() < 0.4 else (None, None)
    knots = None
    arg = G.T(cp)
    with mon.code("NURBSSurfaces"):
        nurbs = NURBSSurfaces(degrees=torch.tensor(degrees, dtype=torch.int32), control_points=arg, uniform=uniform, device=G.CPU)
    if not uniform and rng.random() < 0.7:
        knots = []
        for k in range(2):
            inner = nets[k] - degrees[k] - 1
            v = np.zeros((S, F, nets[k] + degrees[k] + 1))
            gaps = rng.uniform(0.5, 1.5, (S, F, inner + 1))
            v[..., degrees[k] + 1 : degrees[k] + 1 + inner] = (np.cumsum(gaps, -1) / gaps.sum(-1, keepdims=True))[..., :-1]
            v[..., nets[k] :] = 1
            knots.append(G.f32(v))
        nurbs.knot_vectors_u, nurbs.knot_vectors_v = G.T(knots[0]), G.T(knots[1])
    with mon.code("NURBS evaluation", uniform=uniform, facets=F, surfaces=S, points=P):
        c, t = (None, None) if cant is None else (G.T(cant), G.T(trans))
        fn = nurbs if rng.random() < 0.3 else nurbs.calculate_surface_points_and_normals
        p, n = fn(G.T(uv), c, t, device=G.CPU)
    what = "uniform" if uniform else "nonuniform"
    mon.expect(tuple(p.shape) == uv.shape[:3] + (4,) and tuple(n.shape) == uv.shape[:3] + (4,), "shape", got=tuple(p.shape))
    mon.expect(np.array_equal(G.N(arg), cp), "input-modified")
    judge(mon, G.N(p), G.N(n), cp, degrees, uv, knots, cant, trans, what)
    for _ in range(S * F):
        mon.observe((what, *degrees, *nets, S > 1, F > 1, points, kind, cant is not None), True,
                    dict(degrees=degrees, net=nets, points=uv[0, 0, :3], surface=G.N(p)[0, 0, :3]))


@CHECK.family(quick=600, thorough=9000, chunk=10)
def uniform(mon, rng):
    run(mon, rng, True)


@CHECK.family(quick=400, thorough=6000, chunk=10)
def nonuniform(mon, rng):
    run(mon, rng, False)


def derivative(i, p, x, t, order):
    """Derivative of the i-th basis function of degree p, zero over zero being zero."""
    if order == 0:
        return O.basis(len(t) - p - 1, p, x, t)[0][:, i] if p else None
    out = 0.0
    for j, sign in ((i, 1), (i + 1, -1)):
        width = t[j + p] - t[j]
        if width > 0:
            lower = derivative(j, p - 1, x, t, order - 1) if p > 1 else ((x >= t[j]) & (x < t[j + 1])).astype(float)
            out = out + sign * p * lower / width
    return out * np.ones_like(x)


@CHECK.family(quick=200, thorough=3000, chunk=10)
def basis_functions(mon, rng):
    """Spans, basis functions and their derivatives of every order up to the degree."""
    degrees = [int(v) for v in rng.integers(1, 5, 2)]
    nets = [d + 1 + int(rng.integers(0, 8)) for d in degrees]
    S, F, P = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 30))
    cp, _ = control_points(rng, S, F, nets)
    nurbs = NURBSSurfaces(degrees=torch.tensor(degrees, dtype=torch.int32), control_points=G.T(cp), uniform=True, device=G.CPU)
    uv = G.f32(rng.uniform(0.0, 1.0, (S, F, P, 2)) * 0.9999)
    side = int(rng.integers(2))
    d, n = degrees[side], nets[side]
    order = int(rng.integers(1, d + 1))
    with mon.code("basis functions", degree=d, order=order):
        knots = nurbs.calculate_uniform_knot_vectors(side, device=G.CPU)
        spans = nurbs.find_spans(side, G.T(uv), knots, device=G.CPU)
        got = nurbs.basis_functions_and_derivatives(side, G.T(uv), knots, spans, nth_derivative=order, device=G.CPU)
    t = O.clamped_knots(n, d)
    mon.close(knots, np.broadcast_to(t, (S, F, len(t))), "knots", atol=2e-7)
    x = uv[..., side].astype(float)
    inner = np.abs(x[..., None] - t[d + 1 : n]).min(-1, initial=1.0) > 1e-5
    want_spans = np.searchsorted(t[: n + 1], x, side="right") - 1
    mon.expect(np.array_equal(G.N(spans)[inner], want_spans[inner]), "spans", degree=d, net=n)
    for k in range(order + 1):
        values = np.stack([derivative(i, d, x[inner], t, k) for i in range(n)], -1)
        scale = max(1.0, np.abs(values).max(initial=0))
        for r in range(d + 1):
            w = np.take_along_axis(values, (want_spans[inner] - d + r)[:, None], 1)[:, 0]
            mon.close(G.N(got[k][r])[inner], w, "basis-function" if k == 0 else "basis-derivative", atol=2e-5 * scale * (1 + d), order=k, degree=d, net=n)
    mon.count("basis functions", S * F * P)
    mon.count("higher derivatives", order > 1)
    mon.observe((d, n, order, S > 1, F > 1), True, dict(degree=d, net=n, order=order))


@CHECK.family(quick=150, thorough=2000, chunk=10)
def moving_one_control_point(mon, rng):
    """Only the local support moves, and other facets do not move at all."""
    degrees = [int(v) for v in rng.integers(1, 4, 2)]
    nets = [d + 1 + int(rng.integers(1, 7)) for d in degrees]
    S, F, P = int(rng.integers(1, 3)), int(rng.integers(1, 4)), 60
    cp, _ = control_points(rng, S, F, nets)
    uv = G.f32(rng.uniform(0, 1 - 1e-6, (S, F, P, 2)))
    moved = cp.copy()
    s, f, i, j = int(rng.integers(S)), int(rng.integers(F)), int(rng.integers(nets[0])), int(rng.integers(nets[1]))
    moved[s, f, i, j] += rng.normal(0, 0.3, 3)
    moved = G.f32(moved)
    out = []
    for c in (cp, moved):
        with mon.code("NURBS evaluation"):
            nurbs = NURBSSurfaces(degrees=torch.tensor(degrees), control_points=G.T(c), device=G.CPU)
            out.append([G.N(v) for v in nurbs.calculate_surface_points_and_normals(G.T(uv), None, None, device=G.CPU)])
    bu = O.basis(nets[0], degrees[0], uv[s, f, :, 0])[0][:, i]
    bv = O.basis(nets[1], degrees[1], uv[s, f, :, 1])[0][:, j]
    d = out[1][0][..., :3] - out[0][0][..., :3]
    want = np.zeros_like(d)
    want[s, f] = (bu * bv)[:, None] * (moved - cp)[s, f, i, j]
    mon.close(d, want, "local-support", atol=2e-5, point=(i, j), degrees=degrees, net=nets)
    other = np.ones((S, F), bool)
    other[s, f] = False
    mon.expect(np.array_equal(out[0][0][other], out[1][0][other]) and np.array_equal(out[0][1][other], out[1][1][other]), "other-facets-moved")
    mon.count("points outside the support", int((bu * bv == 0).sum()))
    mon.observe((*degrees, *nets, S, F), bool((bu * bv > 0).any()), dict(point=(i, j), degrees=degrees, net=nets))


CHECK.require("normals", 5000)
CHECK.require("points outside the support", 200)
CHECK.require("higher derivatives", 40)
