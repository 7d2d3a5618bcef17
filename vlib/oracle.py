"""Independent reference models in float64 numpy. Nothing in here imports ARTIST."""

from __future__ import annotations

import numpy as np

PI = np.pi


# --------------------------------------------------------------------------- rigid motions
def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def hom(r=None, t=None):
    m = np.eye(4)
    if r is not None:
        m[:3, :3] = r
    if t is not None:
        m[:3, 3] = t
    return m


def rot_e(a):
    c, s = np.cos(a), np.sin(a)
    return hom(np.array([[1, 0, 0], [0, c, -s], [0, s, c]]))


def rot_n(a):
    """ARTIST convention: a positive angle turns east towards up."""
    c, s = np.cos(a), np.sin(a)
    return hom(np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]]))


def rot_u(a):
    c, s = np.cos(a), np.sin(a)
    return hom(np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]]))


def rodrigues(axis, angle):
    k = unit(axis)
    kx = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(angle) * kx + (1 - np.cos(angle)) * kx @ kx


# mirror-up (0,0,1) is turned into mirror-south (0,-1,0) about east
UP_TO_SOUTH = rot_e(PI / 2)


def forward_chain(position, translation, tilts, angles):
    """Documented joint chain of one heliostat (4x4)."""
    t = np.asarray(translation, float)
    r = np.asarray(tilts, float)
    first = rot_n(r[0]) @ rot_u(r[1]) @ hom(t=t[0:3]) @ rot_e(angles[0])
    second = rot_e(r[2]) @ rot_n(r[3]) @ hom(t=t[3:6]) @ rot_u(angles[1])
    return hom(t=np.asarray(position, float)[:3]) @ first @ second @ hom(t=t[6:9]) @ UP_TO_SOUTH


def linear_angle(steps, clockwise, increment, offset, pivot, initial_angle, initial_stroke):
    def absolute(p):
        stroke = p / increment + initial_stroke
        return np.arccos((offset**2 + pivot**2 - stroke**2) / (2 * offset * pivot))

    delta = absolute(0.0) - absolute(steps)
    return initial_angle + delta if clockwise else initial_angle - delta


def linear_steps(angle, clockwise, increment, offset, pivot, initial_angle, initial_stroke):
    a0 = np.arccos((offset**2 + pivot**2 - initial_stroke**2) / (2 * offset * pivot))
    delta = angle - initial_angle if clockwise else initial_angle - angle
    a = a0 - delta
    stroke = np.sqrt(offset**2 + pivot**2 - 2 * offset * pivot * np.cos(a))
    return (stroke - initial_stroke) * increment


def joint_angles(motor, actuator):
    """`actuator` is a dict from gen.actuators for a single heliostat."""
    if actuator["kind"] == "ideal":
        return np.asarray(motor, float)
    return np.array(
        [
            linear_angle(
                motor[k],
                actuator["clockwise"][k],
                actuator["increment"][k],
                actuator["offset"][k],
                actuator["pivot"][k],
                actuator["initial_angle"][k],
                actuator["initial_stroke"][k],
            )
            for k in range(2)
        ]
    )


def fit_rigid(source, target):
    """Least-squares rigid motion source -> target (points n x 3); returns 4x4 and the worst residual."""
    a, b = np.asarray(source, float)[:, :3], np.asarray(target, float)[:, :3]
    ca, cb = a.mean(0), b.mean(0)
    u, _, vt = np.linalg.svd((a - ca).T @ (b - cb))
    d = np.sign(np.linalg.det(vt.T @ u.T))
    r = vt.T @ np.diag([1, 1, d]) @ u.T
    m = hom(r, cb - r @ ca)
    res = np.abs((a @ r.T + m[:3, 3]) - b).max()
    return m, res


def reflect(d, n):
    d, n = np.asarray(d, float), np.asarray(n, float)
    return d - 2 * (d * n).sum(-1, keepdims=True) * n


# --------------------------------------------------------------------------- targets
def planar_hit(origin, direction, center, normal, dims, resolution):
    """Vectorised over leading dimensions of origin/direction (.. x 3).

    Returns column, row-from-bottom coordinates, distance, cosine, valid and the signed margin (in pixels / metres /
    cosine) to the closest validity border, so that borderline rays can be left out of a comparison.
    """
    w, h = resolution
    cos = -(direction @ normal)
    with np.errstate(divide="ignore", invalid="ignore"):
        t = ((center - origin) @ normal) / -cos
    p = origin + t[..., None] * direction
    x = (p[..., 0] - center[0] + dims[0] / 2) / dims[0] * (w - 1)
    y = (p[..., 2] - center[2] + dims[1] / 2) / dims[1] * (h - 1)
    inside = np.minimum(np.minimum(x, w - 1 - x), np.minimum(y, h - 1 - y))
    inside = np.where(np.isfinite(inside), inside, -np.inf)
    valid = (cos > 0) & (t > 0) & (inside >= 0)
    margin = np.minimum(np.abs(inside), np.minimum(np.abs(cos) * 1e3, np.abs(np.where(np.isfinite(t), t, 1e9))))
    return (w - 1) - x, y, t, cos, valid, margin


def cylinder_hit(origin, direction, center, axis, normal, radius, height, opening, resolution):
    w, h = resolution
    axis, normal = unit(axis), unit(normal)
    side = np.cross(axis, normal)  # azimuth grows from `normal` towards `side`
    o = origin - center
    oa, ob, oz = o @ normal, o @ side, o @ axis
    da, db, dz = direction @ normal, direction @ side, direction @ axis
    a = da**2 + db**2
    b = 2 * (oa * da + ob * db)
    c = oa**2 + ob**2 - radius**2
    disc = b * b - 4 * a * c
    with np.errstate(divide="ignore", invalid="ignore"):
        s = np.sqrt(np.where(disc > 0, disc, np.nan))
        t1, t2 = (-b - s) / (2 * a), (-b + s) / (2 * a)
    t = np.where(t1 > 0, t1, np.where(t2 > 0, t2, np.nan))
    x, y, z = oa + t * da, ob + t * db, oz + t * dz
    phi = np.arctan2(y, x)  # 0 at the target normal
    cos = -(da * x + db * y) / radius
    col = (phi + opening / 2) / opening * (w - 1)
    row = (z + height / 2) / height * (h - 1)
    inside = np.minimum(np.minimum(col, w - 1 - col), np.minimum(row, h - 1 - row))
    inside = np.where(np.isfinite(inside), inside, -np.inf)
    valid = np.isfinite(t) & (cos > 0) & (inside >= 0)
    # distance to the discontinuities of this map
    edge = np.where(opening >= 2 * PI - 1e-6, (PI - np.abs(phi)) / (2 * PI) * (w - 1), np.inf)
    margin = np.minimum(np.abs(np.where(np.isfinite(inside), inside, 1e9)), np.where(np.isfinite(edge), edge, 1e9))
    margin = np.minimum(margin, np.where(np.isfinite(cos), np.abs(cos) * 1e2, 1e9))
    with np.errstate(invalid="ignore", divide="ignore"):
        graze = np.abs(disc) / (4 * a * radius**2 + 1e-30)
        margin = np.minimum(margin, np.where(np.isfinite(graze), graze * 1e2, 1e9))
        near0 = np.minimum(np.abs(t1), np.abs(t2))
        margin = np.minimum(margin, np.where(np.isfinite(near0), near0, 1e9))
    return col, row, t, cos, valid, margin


def target_hit(target, origin, direction, resolution):
    if target["type"] == "planar":
        return planar_hit(origin, direction, target["center"][:3], target["normal"][:3], target["dims"], resolution)
    return cylinder_hit(
        origin, direction, target["center"][:3], target["axis"][:3], target["normal"][:3],
        target["radius"], target["height"], target["opening"], resolution,
    )


def distort(direction, e, u):
    """Rotate by `u` about up, then by `e` about east (direction .. x 3)."""
    x, y, z = direction[..., 0], direction[..., 1], direction[..., 2]
    x1 = np.cos(u) * x - np.sin(u) * y
    y1 = np.sin(u) * x + np.cos(u) * y
    y2 = np.cos(e) * y1 - np.sin(e) * z
    z2 = np.sin(e) * y1 + np.cos(e) * z
    return np.stack([x1, y2, z2], -1)


def splat(col, row, weight, resolution):
    """Bilinear distribution of weights; image rows run from the top."""
    w, h = resolution
    img = np.zeros((h, w))
    i, j = np.floor(col).astype(int), np.floor(row).astype(int)
    fx, fy = col - i, row - j
    ok = (i >= 0) & (i + 1 < w) & (j >= 0) & (j + 1 < h)
    for di, dj, c in ((0, 0, (1 - fx) * (1 - fy)), (1, 0, fx * (1 - fy)), (0, 1, (1 - fx) * fy), (1, 1, fx * fy)):
        np.add.at(img, (h - 1 - (j[ok] + dj), i[ok] + di), (c * weight)[ok])
    return img


def trace_sample(points, normals, incident, dist_e, dist_u, target, resolution, magnitude=1.0,
                 extinction=0.0, reflectivity=0.935, blocked=None):
    """One active sample: points, normals P x 3; distortions R x P. Returns image and per-ray data."""
    base = reflect(np.broadcast_to(incident[:3], normals[:, :3].shape), normals[:, :3])
    d = distort(base[None], dist_e, dist_u)
    o = np.broadcast_to(points[None, :, :3], d.shape)
    col, row, t, cos, valid, margin = target_hit(target, o, d, resolution)
    weight = np.where(valid, magnitude * cos, 0.0)
    power = weight * (1 - extinction) * reflectivity
    if blocked is not None:
        power = power * (1 - blocked)
    img = splat(np.where(valid, col, 0.0).ravel(), np.where(valid, row, 0.0).ravel(), power.ravel(), resolution)
    return dict(image=img, col=col, row=row, t=t, cos=cos, valid=valid, margin=margin, power=power,
                directions=d, origins=o)


# --------------------------------------------------------------------------- B-splines
def clamped_knots(n, p):
    inner = np.linspace(0, 1, n - p + 1)
    return np.concatenate([np.zeros(p), inner, np.ones(p)])


def basis(n, p, x, knots=None):
    """Cox-de Boor: all n basis functions and first derivatives at x (len(x) x n)."""
    k = clamped_knots(n, p) if knots is None else knots
    x = np.asarray(x, float)
    last = np.nonzero(k < 1.0)[0].max()
    table = np.zeros((len(k) - 1, x.size))
    for i in range(len(k) - 1):
        if k[i] < k[i + 1]:
            table[i] = (x >= k[i]) & ((x < k[i + 1]) | ((i == last) & (x <= k[i + 1])))
    deriv = None
    for q in range(1, p + 1):
        if q == p:
            deriv = np.zeros((len(k) - 1 - q, x.size))
            for i in range(len(k) - 1 - q):
                if k[i + q] > k[i]:
                    deriv[i] += q / (k[i + q] - k[i]) * table[i]
                if k[i + q + 1] > k[i + 1]:
                    deriv[i] -= q / (k[i + q + 1] - k[i + 1]) * table[i + 1]
        new = np.zeros((len(k) - 1 - q, x.size))
        for i in range(len(k) - 1 - q):
            if k[i + q] > k[i]:
                new[i] += (x - k[i]) / (k[i + q] - k[i]) * table[i]
            if k[i + q + 1] > k[i + 1]:
                new[i] += (k[i + q + 1] - x) / (k[i + q + 1] - k[i + 1]) * table[i + 1]
        table = new
    return table[:n].T, deriv[:n].T


def bspline_surface(control, degrees, uv):
    """control nu x nv x 3, uv P x 2 -> points P x 3, unit normals P x 3, and length of the raw normal."""
    bu, du = basis(control.shape[0], degrees[0], uv[:, 0])
    bv, dv = basis(control.shape[1], degrees[1], uv[:, 1])
    pts = np.einsum("pi,pj,ijk->pk", bu, bv, control)
    tu = np.einsum("pi,pj,ijk->pk", du, bv, control)
    tv = np.einsum("pi,pj,ijk->pk", bu, dv, control)
    n = np.cross(tu, tv)
    ln = np.linalg.norm(n, axis=1)
    return pts, n / np.maximum(ln, 1e-300)[:, None], ln


def cant_rotation(canting):
    """3x3 rotation with columns: east canting direction, in-plane north, facet normal."""
    e = unit(canting[0, :3])
    u = unit(np.cross(e, canting[1, :3]))
    return np.stack([e, np.cross(u, e), u], axis=1)


def grid_uv(n_e, n_n, eps=1e-7):
    e, n = np.linspace(eps, 1 - eps, n_e), np.linspace(eps, 1 - eps, n_n)
    a, b = np.meshgrid(e, n, indexing="ij")
    return np.stack([a.ravel(), b.ravel()], 1)


def heliostat_surface(control, degrees, canting, translations, n_e, n_n, cant=True):
    """All facets of one heliostat concatenated: points and normals (F*n_e*n_n x 4)."""
    uv = grid_uv(n_e, n_n)
    pts, nrm = [], []
    for f in range(control.shape[0]):
        p, n, _ = bspline_surface(control[f].astype(float), degrees, uv)
        if cant:
            r = cant_rotation(canting[f].astype(float))
            p = p @ r.T + translations[f, :3]
            n = n @ r.T
        pts.append(np.concatenate([p, np.ones((len(p), 1))], 1))
        nrm.append(np.concatenate([n, np.zeros((len(n), 1))], 1))
    return np.concatenate(pts), np.concatenate(nrm)


# --------------------------------------------------------------------------- blocking
def rectangle_crossing(origins, directions, corners):
    """corners 4 x 3 (lower left, upper left, upper right, lower right); origins/directions .. x 3.

    Returns distance along the ray and parallelogram coordinates of the crossing with the plane.
    """
    c0 = corners[0]
    su, sv = corners[1] - c0, corners[3] - c0
    n = unit(np.cross(su, sv))
    with np.errstate(divide="ignore", invalid="ignore"):
        t = ((c0 - origins) @ n) / (directions @ n)
        x = origins + t[..., None] * directions - c0
    g = np.array([[su @ su, su @ sv], [su @ sv, sv @ sv]])
    gi = np.linalg.inv(g)
    a, b = x @ su, x @ sv
    return t, gi[0, 0] * a + gi[0, 1] * b, gi[1, 0] * a + gi[1, 1] * b


def pixel_to_world(target, e, u, resolution):
    """World point of bitmap coordinate (e from the left, u from the top), pixels being cells of the target."""
    w, h = resolution
    fe, fu = (e + 0.5) / w, (u + 0.5) / h
    if target["type"] == "planar":
        n = target["normal"][:3]
        x = (0.5 - fe) * target["dims"][0]
        z = (0.5 - fu) * target["dims"][1]
        y = -(x * n[0] + z * n[2]) / n[1]
        return target["center"][:3] + np.array([x, y, z])
    n, a = unit(target["normal"][:3]), unit(target["axis"][:3])
    phi = (fe - 0.5) * target["opening"]
    z = (0.5 - fu) * target["height"]
    return target["center"][:3] + target["radius"] * (np.cos(phi) * n + np.sin(phi) * np.cross(a, n)) + z * a
