"""B01 - blocking search tree and candidate selection."""

import numpy as np
import torch

from artist.raytracing import blocking
from vlib import gen as G
from vlib import oracle as O
from vlib.core import Check

CHECK = Check(
    "B01",
    rule="one evaluation = one hierarchy walked from its root and audited (tree), or one candidate selection audited against exact "
    "ray-rectangle crossings (candidates); distinct = (family, arrangement, number of rectangles, spread class); non-trivial = at least two "
    "rectangles, for candidates at least one crossing",
    assumptions=["crossings closer than 2 % to a rectangle edge or 1 cm to the ray origin or target are not required to be found"],
)

PATTERNS = ["random", "grid", "line", "row_of_pairs", "coincident", "clusters", "far_outlier", "stack", "flat", "curve"]


def rectangles(rng, pattern, n):
    """n x 4 x 4 corners in the order lower left, upper left, upper right, lower right."""
    spread = float(10 ** rng.uniform(0.5, 3))
    size = float(rng.uniform(0.5, 3))
    c = rng.uniform(-spread, spread, (n, 3)) * [1, 1, 0.02 if rng.random() < 0.7 else 1]
    if pattern == "grid":
        w = int(np.ceil(np.sqrt(n)))
        c = np.array([[(i % w) * 2 * size, (i // w) * 2 * size, 0.0] for i in range(n)])
    elif pattern == "line":
        c = np.outer(np.arange(n), rng.normal(0, 1, 3)) * size
    elif pattern == "row_of_pairs":
        c = c[np.arange(n) // 2] + rng.normal(0, 1e-4, (n, 3))
    elif pattern == "coincident":
        c = c[rng.integers(0, max(1, n // 4), n)]
    elif pattern == "clusters":
        c = c[rng.integers(0, max(1, n // 5), n)] + rng.normal(0, size, (n, 3))
    elif pattern == "far_outlier":
        c[0] = [5e4, 0, 0]
    elif pattern == "stack":
        c[:, :2] = 0
        c[:, 2] = np.arange(n) * size
    elif pattern == "flat":
        c[:, 2] = 0
    elif pattern == "curve":
        a = np.sort(rng.uniform(0, 6, n))
        c = np.stack([np.exp(a) * 0.5, a * 3, np.zeros(n)], 1)
    c = c[rng.permutation(n)]
    out = np.empty((n, 4, 4))
    out[..., 3] = 1
    flat = pattern == "flat" or rng.random() < 0.2
    for i in range(n):
        r = np.eye(3) if flat else O.rodrigues(rng.normal(0, 1, 3), rng.uniform(0, np.pi))
        e, v = r[:, 0] * size * rng.uniform(0.3, 1), r[:, 1] * size * rng.uniform(0.3, 1)
        out[i, :, :3] = c[i] + np.array([-e - v, -e + v, e + v, e - v]) / 2
    return G.f32(out), spread


def number(rng, tier="quick"):
    return int(rng.choice([1, 2, 3, 4, 5, int(rng.integers(6, 40)), int(rng.integers(40, 160)), int(rng.integers(160, 700))],
                          p=[.06, .08, .1, .1, .1, .36, .15, .05]))


@CHECK.family(quick=3000, thorough=40000, chunk=20)
def tree(mon, rng):
    n = number(rng)
    pattern = str(rng.choice(PATTERNS))
    corners, spread = rectangles(rng, pattern, n)
    arg = G.T(corners)
    with mon.code("build_linear_bounding_volume_hierarchies", pattern=pattern, n=n):
        out = blocking.build_linear_bounding_volume_hierarchies(blocking_primitives_corners=arg, device=G.CPU)
    left, right, leaf, prim = (out[k].numpy() for k in ("left", "right", "is_leaf", "primitive_index"))
    low, high = G.N(out["aabb_min"]), G.N(out["aabb_max"])
    mon.expect((G.N(arg) == corners).all(), "input-modified")
    if not mon.expect(len(left) == 2 * n - 1, "node-count", got=len(left), n=n):
        return
    seen, reached, order, stack = np.zeros(len(left), int), [], [], [0]
    ok = True
    while stack:
        node = stack.pop()
        if not 0 <= node < len(left):
            ok = mon.expect(False, "child-out-of-range", node=node, n=n, pattern=pattern)
            break
        seen[node] += 1
        if seen[node] > 1:
            ok = mon.expect(False, "node-reached-twice", node=node, n=n, pattern=pattern)
            break
        order.append(node)
        if leaf[node]:
            reached.append(int(prim[node]))
            mon.expect(left[node] < 0 and right[node] < 0, "leaf-with-children", node=node)
        else:
            stack += [int(left[node]), int(right[node])]
    mon.count("nodes visited", len(order))
    if ok and mon.expect(sorted(reached) == list(range(n)), "primitives-in-leaves", n=n, pattern=pattern, reached=len(reached),
                         missing=sorted(set(range(n)) - set(reached))[:10]):
        for node in order:
            if leaf[node]:
                c = corners[prim[node], :, :3]
                inside = (low[node] <= c.min(0)).all() and (high[node] >= c.max(0)).all()
            else:
                a, b = left[node], right[node]
                inside = (low[node] <= np.minimum(low[a], low[b])).all() and (high[node] >= np.maximum(high[a], high[b])).all()
            mon.expect(inside, "box-does-not-enclose", node=node, leaf=bool(leaf[node]), n=n, pattern=pattern)
        mon.count("boxes checked", len(order))
        mon.count("trees complete")
    mon.observe((pattern, n, int(np.log10(spread) * 2)), n > 1, dict(pattern=pattern, n=n, reached=len(reached)))


@CHECK.family(quick=1500, thorough=20000, chunk=10)
def candidates(mon, rng):
    n = min(number(rng), 150)
    pattern = str(rng.choice(PATTERNS))
    corners, spread = rectangles(rng, pattern, n)
    h, r, p = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 6))
    owner = rng.integers(0, n, h)
    origins = np.empty((h, p, 3))
    for i in range(h):
        c = corners[owner[i]]
        w = rng.uniform(0.05, 0.95, (p, 2))
        origins[i] = c[0, :3] + w[:, :1] * (c[1] - c[0])[:3] + w[:, 1:] * (c[3] - c[0])[:3]
    origins = G.f32(origins)
    # half of the rays are sent through some rectangle, the others anywhere; axis-parallel ones as well
    d = rng.normal(0, 1, (h, r, p, 3))
    for i in np.ndindex(h, r, p):
        z = rng.random()
        if z < 0.6:
            c = corners[rng.integers(0, n)]
            a, b = rng.uniform(0.05, 0.95, 2)
            d[i] = c[0, :3] + a * (c[1] - c[0])[:3] + b * (c[3] - c[0])[:3] - origins[i[0], i[2]]
        elif z < 0.75:
            d[i] = 0
            d[i][rng.integers(0, 3)] = rng.choice([-1, 1])
        if np.linalg.norm(d[i]) < 1e-6:
            d[i] = [0, 0, 1.0]
    d = G.f32(O.unit(d))
    distance = G.f32(rng.uniform(0, 3 * spread, (h, r, p)) * (rng.random((h, r, p)) < 0.9))
    mapping = np.repeat(owner, r * p)
    with mon.code("lbvh_filter_blocking_planes", pattern=pattern, n=n):
        got = blocking.lbvh_filter_blocking_planes(
            points_at_ray_origins=G.T(np.concatenate([origins, np.ones((h, p, 1))], -1)),
            ray_directions=G.T(np.concatenate([d, np.zeros((h, r, p, 1))], -1)),
            blocking_primitives_corners=G.T(corners), ray_to_heliostat_mapping=torch.tensor(mapping),
            intersection_distances_target=G.T(distance), device=G.CPU)
    got = got.numpy()
    mon.expect(len(set(got)) == len(got) and ((got >= 0) & (got < n)).all(), "candidate-indices", got=got, n=n)
    chosen = set(got.tolist())
    o = np.broadcast_to(origins[:, None], d.shape)
    crossings = 0
    for i in range(n):
        t, a, b = O.rectangle_crossing(o, d, corners[i, :, :3])
        inside = (a > 0.02) & (a < 0.98) & (b > 0.02) & (b < 0.98) & (t > 0.01 + 1e-5 * spread) & (t < distance - 0.01 - 1e-5 * spread)
        inside &= (owner != i)[:, None, None]
        k = int(inside.sum())
        crossings += k
        if k:
            mon.expect(i in chosen, "crossed-rectangle-not-selected", n=n, pattern=pattern, primitive=i, rays=k)
            mon.count("crossed rectangles")
    # a rectangle that only its own heliostat's rays come near must not be selected: nobody else's box test succeeds
    far = [i for i in chosen if not reachable(o, d, distance, owner, corners[i, :, :3], i, spread)]
    mon.expect(not far, "selected-without-a-ray-near-its-box", primitives=far[:5], n=n, pattern=pattern)
    mon.count("crossings", crossings)
    mon.count("selected", len(chosen))
    mon.count("not selected", n - len(chosen))
    mon.observe((pattern, n, h, r, p), crossings > 0, dict(pattern=pattern, n=n, selected=len(chosen), crossings=crossings))


def reachable(o, d, distance, owner, c, i, spread):
    """Does some ray of another heliostat pass the (slightly enlarged) box of rectangle i before its target?"""
    eps = 1e-3 + 1e-5 * spread
    low, high = c.min(0) - eps, c.max(0) + eps
    with np.errstate(divide="ignore", invalid="ignore"):
        a, b = (low - o) / d, (high - o) / d
    outside = ((d == 0) & ((o < low) | (o > high))).any(-1)
    entry = np.where(d == 0, -np.inf, np.minimum(a, b)).max(-1)
    leave = np.where(d == 0, np.inf, np.maximum(a, b)).min(-1)
    hit = (leave >= entry) & (leave > -eps) & (entry <= distance + eps) & ~outside & (owner != i)[:, None, None]
    return hit.any()


CHECK.require("trees complete", 2000)
CHECK.require("boxes checked", 50000)
CHECK.require("crossed rectangles", 1500)
CHECK.require("not selected", 3000)


def spans_and_normals(mon, corners, spans, normals, want, what):
    """The corners are the expected ones, the sides lead away from the first, the normal is upright on both."""
    mon.close(corners, want, f"{what}-corners", atol=1e-5 * (1 + np.abs(want).max()))
    c = G.N(corners)
    mon.close(spans, np.stack([c[:, 1] - c[:, 0], c[:, 3] - c[:, 0]], 1), f"{what}-spans", atol=1e-5 * (1 + np.abs(want).max()))
    n = np.cross(c[:, 1, :3] - c[:, 0, :3], c[:, 3, :3] - c[:, 0, :3])
    long = np.linalg.norm(n, axis=1, keepdims=True)
    mon.close(normals, np.concatenate([n / long, 0 * long], 1), f"{what}-normals", atol=2e-3)


@CHECK.family(quick=300, thorough=4000, chunk=20)
def outlines(mon, rng):
    """Rectangles that stand for mirrors: the outermost points of the unaligned mirror, wherever the aligned mirror has them."""
    n, w, h = int(rng.integers(1, 9)), int(rng.integers(2, 9)), int(rng.integers(2, 9))
    size = rng.uniform(0.5, 4, (n, 2))
    u, v = np.meshgrid(np.linspace(-1, 1, w), np.linspace(-1, 1, h), indexing="ij")
    flat = np.stack([u.ravel()[None] * size[:, :1], v.ravel()[None] * size[:, 1:], 0.01 * rng.normal(0, 1, (n, w * h))], -1)
    flat[..., :2] += rng.normal(0, 3, (n, 1, 2)) * (rng.random() < 0.5)
    flat = flat[:, rng.permutation(w * h)] if rng.random() < 0.7 else flat
    moved = np.stack([flat[i] @ O.rodrigues(rng.normal(0, 1, 3), rng.uniform(0, np.pi)).T + rng.normal(0, 50, 3) for i in range(n)])
    one = np.ones(flat.shape[:2] + (1,))
    a, b = G.T(np.concatenate([flat, one], 2)), G.T(np.concatenate([moved, one], 2))
    with mon.code("create_blocking_primitives_rectangle"):
        corners, spans, normals = blocking.create_blocking_primitives_rectangle(a, b, device=G.CPU)
    want = []
    for i in range(n):
        e, s = flat[i, :, 0], flat[i, :, 1]
        ends = [(e.min(), s.min()), (e.min(), s.max()), (e.max(), s.max()), (e.max(), s.min())]
        want.append([G.N(b)[i, np.argmin(np.hypot(e - x, s - y))] for x, y in ends])
    spans_and_normals(mon, corners, spans, normals, np.array(want), "outline")
    # mirrors of four facets in the usual order: the same rectangle without looking for the outermost points
    k = int(rng.integers(2, 7))
    s = G.group_spec(rng, n, facets=4, k=k, bump=0.0)
    g = G.build_group(s)
    base = g.surface_points.reshape(n, -1, 4)
    turn = np.stack([O.hom(O.rodrigues(rng.normal(0, 1, 3), rng.uniform(0, np.pi)), rng.normal(0, 50, 3)) for _ in range(n)])
    aligned = base @ G.T(turn).transpose(1, 2)
    with mon.code("create_blocking_primitives_rectangles_by_index"):
        corners, spans, normals = blocking.create_blocking_primitives_rectangles_by_index(aligned, device=G.CPU)
    e, m = G.N(base)[..., 0], G.N(base)[..., 1]
    want = np.stack([np.stack([G.N(aligned)[i, np.argmax(x * e[i] + y * m[i])] for x, y in ((-1, -1), (-1, 1), (1, 1), (1, -1))]) for i in range(n)])
    got = G.N(corners)
    # every corner of the mirror is one of the rectangle's, in the same sense of rotation
    for i in range(n):
        first = int(np.linalg.norm(want[i] - got[i, 0], axis=1).argmin())
        order = [(first + j) % 4 for j in range(4)]
        mon.close(got[i], want[i][order], "mirror-corners", atol=1e-3, heliostat=i)
    mon.count("outlines", n)
    mon.observe((n, w == h, k), True, dict(size=size[0], corners=got[0]))


CHECK.require("outlines", 500)
