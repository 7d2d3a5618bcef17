"""G04 - geodetic, solar angle and homogeneous coordinate conversions."""

import numpy as np
import torch

from artist.geometry import coordinates
from vlib import gen as G
from vlib.core import Check

CHECK = Check(
    "G04",
    rule="one evaluation = one conversion call judged row by row; distinct = (family, dtype or unit, batch size class, quadrant / "
    "latitude class); non-trivial = at least one row that is not the identity",
    assumptions=["latitudes up to 80 degrees and distances up to 10 km for the comparison with the exact ellipsoidal transformation"],
)
A, B = 6378137.0, 6356752.314245
E2 = (A**2 - B**2) / A**2


def ecef(lat, lon, alt):
    lat, lon = np.deg2rad(lat), np.deg2rad(lon)
    n = A / np.sqrt(1 - E2 * np.sin(lat) ** 2)
    return np.stack([(n + alt) * np.cos(lat) * np.cos(lon), (n + alt) * np.cos(lat) * np.sin(lon),
                     (n * (1 - E2) + alt) * np.sin(lat)], -1)


def exact_enu(p, ref):
    la, lo = np.deg2rad(ref[0]), np.deg2rad(ref[1])
    d = ecef(p[:, 0], p[:, 1], p[:, 2]) - ecef(*ref)
    r = np.array([[-np.sin(lo), np.cos(lo), 0],
                  [-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)],
                  [np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)]])
    return d @ r.T


@CHECK.family(quick=600, thorough=8000, chunk=40)
def wgs84(mon, rng):
    ref = np.array([rng.uniform(-80, 80), rng.uniform(-179.5, 179.5), rng.uniform(-200, 3000)])
    n = G.size(rng, 1, 11, most=300)
    span = float(rng.choice([50.0, 500.0, 3000.0, 10000.0]))
    m_per_lat = np.deg2rad(A * (1 - E2) / (1 - E2 * np.sin(np.deg2rad(ref[0])) ** 2) ** 1.5)
    m_per_lon = np.deg2rad(A * np.cos(np.deg2rad(ref[0])) / np.sqrt(1 - E2 * np.sin(np.deg2rad(ref[0])) ** 2))
    p = ref + np.stack([rng.uniform(-span, span, n) / m_per_lat, rng.uniform(-span, span, n) / m_per_lon, rng.uniform(-100, 300, n)], 1)
    if rng.random() < 0.2:
        p[0] = ref
    a, b = torch.tensor(p, dtype=torch.float64), torch.tensor(ref, dtype=torch.float64)
    with mon.code("convert_wgs84_coordinates_to_local_enu"):
        got = G.N(coordinates.convert_wgs84_coordinates_to_local_enu(a, b, device=G.CPU))
    mon.expect((a.numpy() == p).all() and (b.numpy() == ref).all(), "input-modified")
    # radii of curvature at the point
    s = np.sin(np.deg2rad(p[:, 0]))
    rn, rm = A / np.sqrt(1 - E2 * s**2), A * (1 - E2) / (1 - E2 * s**2) ** 1.5
    want = np.stack([np.deg2rad(p[:, 1] - ref[1]) * rn * np.cos(np.deg2rad(p[:, 0])), np.deg2rad(p[:, 0] - ref[0]) * rm, p[:, 2] - ref[2]], 1)
    mon.close(got, want, "enu-local-radii", atol=2e-3, rtol=2e-6 + 2 * span * np.tan(np.deg2rad(min(abs(ref[0]) + 0.3, 81))) / A, ref=ref, points=p)
    ex = exact_enu(p, ref)
    # what linearising leaves out: the height over the ellipsoid, the second order of the sagging (up) and of the bending
    # of the parallels (north); the east component has no second order of its own
    d2 = (ex[:, :2] ** 2).sum(1)
    east = ex[:, 0] ** 2
    first = np.abs(ex[:, :2]) * (np.abs(p[:, 2:3]) * 1.2 + 0.02 * np.sqrt(d2)[:, None]) / A + 5e-3
    slack = np.stack([
        first[:, 0] + np.abs(ex[:, 0]) * d2 / A**2 * (1 + np.tan(np.deg2rad(p[:, 0])) ** 2),
        first[:, 1] + 0.7 * east * np.tan(np.deg2rad(np.abs(p[:, 0]))) / A + np.sqrt(d2) * d2 / A**2 * (1 + np.tan(np.deg2rad(p[:, 0])) ** 2),
        0.7 * d2 / A + 5e-3,
    ], 1)
    bad = ~(np.abs(got - ex) <= slack)
    mon.maximum("error / linearisation error", (np.abs(got - ex) / slack).max())
    if bad.any():
        k = tuple(np.argwhere(bad)[0])
        mon.violation("enu-ellipsoid", got=got[k[0]], want=ex[k[0]], component=k[1], ref=ref, point=p[k[0]], slack=slack[k])
    one = coordinates.convert_wgs84_coordinates_to_local_enu(b[None].clone(), b, device=G.CPU)
    mon.expect((G.N(one) == 0).all(), "reference-not-zero", got=one)
    k = int(rng.integers(n))
    single = G.N(coordinates.convert_wgs84_coordinates_to_local_enu(a[k : k + 1], b, device=G.CPU))[0]
    mon.expect(np.array_equal(single, got[k]), "rows-not-independent", got=got[k], alone=single)
    mon.count("points", n)
    mon.observe((int(ref[0] // 20), span, n > 1), True, dict(ref=ref, point=p[0], enu=got[0]))


@CHECK.family(quick=600, thorough=8000, chunk=40)
def azimuth_elevation(mon, rng):
    n = G.size(rng, 1, 19, most=300)
    az = rng.uniform(-720, 720, n) if rng.random() < 0.5 else rng.uniform(-180, 180, n)
    el = rng.uniform(-90, 90, n)
    if rng.random() < 0.2:
        az = rng.choice([0, 90, 180, 270, 360, -90, -180], n).astype(float)
        el = rng.choice([0, 90, 45, -90], n).astype(float)
    degree = bool(rng.random() < 0.5)
    dtype = torch.float64 if rng.random() < 0.3 else torch.float32
    r = 1.0 if rng.random() < 0.6 else float(rng.uniform(0.1, 500))
    x, y = (az, el) if degree else (np.deg2rad(az), np.deg2rad(el))
    ta, te = torch.tensor(x, dtype=dtype), torch.tensor(y, dtype=dtype)
    before = ta.clone(), te.clone()
    with mon.code("azimuth_elevation_to_enu"):
        got = G.N(coordinates.azimuth_elevation_to_enu(ta, te, slant_range=r, degree=degree, device=G.CPU) if (r != 1.0 or not degree or rng.random() < 0.5)
                  else coordinates.azimuth_elevation_to_enu(ta, te, device=G.CPU))
    mon.expect(torch.equal(before[0], ta) and torch.equal(before[1], te), "input-modified")
    az, el = np.deg2rad(az), np.deg2rad(el)
    want = r * np.stack([np.cos(el) * np.sin(az), -np.cos(el) * np.cos(az), np.sin(el)], 1)
    mon.close(got, want, "direction", atol=6e-6 * r, azimuth=x, elevation=y, degree=degree)
    mon.close(np.linalg.norm(got, axis=1), np.full(n, r), "length", rtol=2e-6)
    mon.count("directions", n)
    mon.observe((degree, str(dtype), n > 1, r == 1.0, int(np.rad2deg(az[0]) // 90), int(np.rad2deg(el[0]) // 45)), True, dict(azimuth=x[:2], elevation=y[:2], enu=got[:2]))


@CHECK.family(quick=200, thorough=2000, chunk=40)
def homogeneous(mon, rng):
    shape = tuple(int(v) for v in rng.integers(1, 5, int(rng.integers(0, 4))))
    dtype = torch.float64 if rng.random() < 0.3 else torch.float32
    x = torch.tensor(rng.normal(0, 50, shape + (3,)), dtype=dtype)
    for fn, last in ((coordinates.convert_3d_points_to_4d_format, 1.0), (coordinates.convert_3d_directions_to_4d_format, 0.0)):
        with mon.code(fn.__name__):
            y = fn(x, device=G.CPU)
        mon.expect(y.shape == shape + (4,) and y.dtype == dtype and torch.equal(y[..., :3], x) and bool((y[..., 3] == last).all()),
                   "homogeneous-format", shape=shape, last=last, got=y)
        for width in (2, 4):
            try:
                fn(torch.zeros(shape + (width,)), device=G.CPU)
                mon.violation("wrong-width-accepted", width=width)
            except ValueError:
                pass
    mon.observe((len(shape), str(dtype)), True, dict(shape=shape))


CHECK.require("points", 500)
CHECK.require("directions", 500)
