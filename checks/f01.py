"""F01 - centres of mass, crops and trapezoid distributions of flux images."""

import numpy as np
import torch

from artist.flux import bitmap
from vlib import gen as G
from vlib import trace as TR
from vlib.core import Check

CHECK = Check(
    "F01",
    rule="one evaluation = one batch of images whose centres, crops or trapezoids were compared with float64 models or with their own "
    "transformed copies; distinct = (family, image kind, batch size class, resolution relation, target types); non-trivial = at least "
    "one image with light",
    assumptions=["images carry either no light at all or a total of at least 0.0003 (the code adds 1e-8 to the total)"],
)
KINDS = ("spot", "noise", "pixel", "edge", "bright", "faint", "dark", "ramp")


def image(rng, h, w, kind):
    y, x = np.mgrid[0:h, 0:w]
    if kind in ("spot", "bright", "faint"):
        c = rng.uniform(0, 1, 2) * [h - 1, w - 1]
        s = rng.uniform(0.05, 0.3) * max(h, w) + 0.3
        img = np.exp(-((y - c[0]) ** 2 + (x - c[1]) ** 2) / (2 * s * s)) + 1e-3
        img *= {"spot": 1.0, "bright": 1e5, "faint": 10.0 ** rng.uniform(-3.5, -1) / img.sum()}[kind]
    elif kind == "noise":
        img = rng.exponential(1, (h, w))
    elif kind == "pixel":
        img = np.zeros((h, w))
        img[rng.integers(h), rng.integers(w)] = rng.uniform(0.1, 100)
    elif kind == "edge":
        img = np.zeros((h, w))
        img[(0, -1)[rng.integers(2)], :] = rng.uniform(0, 1, w) + 0.01
        img[:, (0, -1)[rng.integers(2)]] = rng.uniform(0, 1, h) + 0.01
    elif kind == "ramp":
        img = (x + 2.0 * y + 1) / (h + w)
    else:
        img = np.zeros((h, w))
    return img


def batch(rng, low=1, high=60, n=(1, 8), dark=True):
    h, w = (int(v) for v in rng.integers(low, high, 2))
    kinds = [KINDS[i] for i in rng.integers(0, len(KINDS), int(rng.integers(*n)))]
    if not dark:
        kinds = [k if k != "dark" else "spot" for k in kinds]
    return G.f32(np.stack([image(rng, h, w, k) for k in kinds])), kinds


def mean_position(img):
    y, x = np.mgrid[0:img.shape[0], 0:img.shape[1]]
    total = img.sum()
    return np.array([(x * img).sum() / total, (y * img).sum() / total]) if total > 0 else np.zeros(2)


def centers(mon, arg):
    keep = arg.clone()
    with mon.code("get_center_of_mass"):
        out = bitmap.get_center_of_mass(arg, device=G.CPU)
    mon.expect(torch.equal(keep, arg), "input-modified")
    return G.N(out)


@CHECK.family(quick=1500, thorough=20000, chunk=50)
def center_of_mass(mon, rng):
    imgs, kinds = batch(rng, high=int(rng.choice([8, 40, 150])))
    n, h, w = imgs.shape
    got = centers(mon, G.T(imgs))
    if not mon.expect(got.shape == (n, 2), "shape", got=got.shape):
        return
    tol = 3e-5 * max(h, w) + 1e-4
    for k in range(n):
        mon.expect(np.isfinite(got[k]).all(), "not-finite", kind=kinds[k], got=got[k])
        if kinds[k] == "dark":
            mon.count("dark images")
            continue
        mon.close(got[k], mean_position(imgs[k]), "mean-position", atol=tol + 3e-8 * max(h, w) / imgs[k].sum(), kind=kinds[k], resolution=[w, h])
        mon.count("centres judged")
    # every image on its own, in another order, and scaled
    order = rng.permutation(n)
    mon.close(centers(mon, G.T(imgs[order])), got[order], "order", atol=1e-4)
    lit = np.array([k != "dark" for k in kinds])
    if lit.any():
        f = 10.0 ** rng.uniform(-0.5, 3.5)
        mon.close(centers(mon, G.T(imgs[lit] * f)), got[lit], "scale-invariance",
                  atol=tol + 1e-7 * max(h, w) / min(i.sum() for i in imgs[lit]), factor=f)
    mon.observe((tuple(sorted(set(kinds)))[:3], min(n, 3), (h > w) - (h < w)), bool(lit.any()), dict(kinds=kinds, got=got[:2]))


@CHECK.family(quick=600, thorough=8000, chunk=50)
def shifted(mon, rng):
    """Shifting an image shifts its centre by as many pixels."""
    imgs, kinds = batch(rng, low=2, high=20, dark=False)
    n, h, w = imgs.shape
    H, W = h + int(rng.integers(0, 30)), w + int(rng.integers(0, 30))
    canvas, at = np.zeros((n, H, W)), []
    base = centers(mon, G.T(imgs))
    for k in range(n):
        dy, dx = int(rng.integers(0, H - h + 1)), int(rng.integers(0, W - w + 1))
        canvas[k, dy:dy + h, dx:dx + w] = imgs[k]
        at.append([dx, dy])
    mon.close(centers(mon, G.T(canvas)), base + np.array(at), "shift", atol=3e-5 * max(H, W) + 1e-4, size=[h, w], canvas=[H, W])
    mon.observe((tuple(sorted(set(kinds)))[:3], min(n, 3), (H > W) - (H < W)), True, dict(at=at[:2]))


def bilinear(img, y, x):
    """Sample with zero padding at the pixel positions y (rows) and x (columns)."""
    h, w = img.shape
    pad = np.zeros((h + 4, w + 4))
    pad[2:-2, 2:-2] = img
    y, x = np.clip(y, -1.5, h + 0.5) + 2, np.clip(x, -1.5, w + 0.5) + 2
    i, j = np.floor(y).astype(int), np.floor(x).astype(int)
    i, j = np.clip(i, 0, h + 2), np.clip(j, 0, w + 2)
    a, b = (y - i)[:, None], (x - j)[None, :]
    return ((1 - a) * (1 - b) * pad[np.ix_(i, j)] + a * (1 - b) * pad[np.ix_(i + 1, j)]
            + (1 - a) * b * pad[np.ix_(i, j + 1)] + a * b * pad[np.ix_(i + 1, j + 1)])


def extent(t):
    return np.array(t["dims"], float) if t["type"] == "planar" else np.array([t["radius"] * t["opening"], t["height"]])


@CHECK.family(quick=700, thorough=10000, chunk=25)
def crops(mon, rng):
    """Cropped images against a float64 resampling of the requested extent about the float64 centre."""
    imgs, kinds = batch(rng, low=2, high=int(rng.choice([12, 60])), n=(1, 7))
    n, h, w = imgs.shape
    p = G.planar_targets(rng, int(rng.integers(0, 4)))
    c = G.cylinder_targets(rng, int(rng.integers(0 if p else 1, 4)))
    tower, targets = G.make_tower(p, c), p + c
    idx = rng.integers(0, len(targets), n)
    size = rng.uniform(0.5, 14.0, 2)
    if rng.random() < 0.2:
        size[1] = size[0]
    arg = G.T(imgs)
    keep = arg.clone()
    with mon.code("crop_flux_distributions_around_center"):
        got = G.N(bitmap.crop_flux_distributions_around_center(
            flux_distributions=arg, solar_tower=tower, target_area_indices=torch.tensor(idx, dtype=torch.int32 if rng.random() < 0.5 else torch.int64),
            crop_width=float(size[0]), crop_height=float(size[1]), device=G.CPU))
    mon.expect(torch.equal(keep, arg), "input-modified")
    if not mon.expect(got.shape == imgs.shape, "shape", got=got.shape):
        return
    for k in range(n):
        mon.expect(np.isfinite(got[k]).all(), "not-finite", kind=kinds[k])
        if kinds[k] == "dark":
            mon.expect((got[k] == 0).all(), "light-from-nowhere")
            mon.count("dark images")
            continue
        c0 = mean_position(imgs[k])
        pitch = extent(targets[idx[k]]) / (np.array([w, h]) - 1)  # metres per pixel
        x = c0[0] + np.linspace(-0.5, 0.5, w) * size[0] / pitch[0]
        y = c0[1] + np.linspace(-0.5, 0.5, h) * size[1] / pitch[1]
        want = bilinear(imgs[k], y, x)
        # positions carry float32 rounding: allow the slope of the image times that
        pad = np.pad(imgs[k], 1)
        slope = max(np.abs(np.diff(pad, axis=0)).max(), np.abs(np.diff(pad, axis=1)).max())
        tol = slope * (2e-5 * max(h, w) + 1e-4) + 1e-6 * imgs[k].max()
        mon.close(got[k], want, f"crop-{targets[idx[k]]['type']}", atol=tol, kind=kinds[k], crop=size, extent=extent(targets[idx[k]]),
                  target=int(idx[k]))
        mon.count(f"crops on {targets[idx[k]]['type']} targets")
    mon.observe((tuple(sorted({targets[i]["type"] for i in idx})), len(p), len(c), h == w), True, dict(size=size, kinds=kinds))


@CHECK.family(quick=300, thorough=4000, chunk=25)
def centred(mon, rng):
    """A compact spot cropped with room around it sits in the middle of the crop and keeps its light density."""
    h, w = (int(v) for v in rng.integers(40, 90, 2))
    n = G.size(rng, 1, 4, most=30)
    p, c = G.planar_targets(rng, int(rng.integers(1, 3))), G.cylinder_targets(rng, int(rng.integers(0, 3)))
    tower, targets = G.make_tower(p, c), p + c
    idx = rng.integers(0, len(targets), n)
    imgs = []
    y, x = np.mgrid[0:h, 0:w]
    for _ in range(n):
        s = rng.uniform(1.5, 3.0)
        cy, cx = rng.uniform(4 * s, h - 1 - 4 * s), rng.uniform(4 * s, w - 1 - 4 * s)
        imgs.append(np.exp(-((y - cy) ** 2 + (x - cx) ** 2) / (2 * s * s)) * (((y - cy) ** 2 + (x - cx) ** 2) < (4 * s) ** 2))
    imgs = np.stack(imgs)
    # the crop holds the whole spot (radius 12 px) of every target and may exceed the target
    pitch = np.stack([extent(targets[i]) / (np.array([w, h]) - 1) for i in idx])
    size = pitch.max(0) * 26 * rng.uniform(1.0, 2.0, 2)
    with mon.code("crop_flux_distributions_around_center"):
        got = bitmap.crop_flux_distributions_around_center(
            flux_distributions=G.T(imgs), solar_tower=tower, target_area_indices=torch.tensor(idx), crop_width=float(size[0]),
            crop_height=float(size[1]), device=G.CPU)
    com = centers(mon, got)
    mid = np.array([(w - 1) / 2, (h - 1) / 2])
    scale = size[None] / extent_stack(targets, idx)
    for k in range(n):
        if scale[k].max() > 1.8:  # a spot of 1.5 pixels would fall between the pixels of the crop
            mon.count("spots too small for the crop left out")
            continue
        # resampling a spot with fewer pixels than its width moves its centre a little
        tol = 0.05 + 0.05 * max(0.0, scale[k].max() - 1)
        mon.maximum("offset from the middle [px]", np.abs(com[k] - mid).max())
        mon.expect(np.abs(com[k] - mid).max() <= tol, "not-centred", offset=com[k] - mid, scale=scale[k])
        total = G.N(got[k]).sum() * scale[k].prod()
        mon.expect(abs(total / imgs[k].sum() - 1) < 0.02 + 0.1 * max(0.0, scale[k].max() - 1), "light-density", ratio=total / imgs[k].sum(), scale=scale[k])
    mon.observe((tuple(sorted({targets[i]["type"] for i in idx})), n, scale.max() > 1), True, dict(scale=scale[:2]))


def extent_stack(targets, idx):
    return np.stack([extent(targets[i]) for i in idx])


@CHECK.family(quick=60, thorough=800, chunk=4)
def traced(mon, rng):
    """The centre of a traced image is the mean pixel position of the light its rays carry."""
    scene = G.random_scene(rng, rays=3, k=3, scale=1e-3)
    job = TR.Job(rng, scene, res=[int(rng.integers(20, 90)), int(rng.integers(20, 90))])
    with mon.code("trace"):
        images = job.trace(job.tracer())[0]
    com = centers(mon, images)
    u, e = job.distortions()
    for k in range(job.n):
        r = job.expected(k, u, e)
        if r["valid"].mean() < 0.999 or r["power"].sum() < 0.1:
            mon.expect(np.isfinite(com[k]).all(), "not-finite")
            mon.count("spilled images left out")
            continue
        wgt = r["power"] / r["power"].sum()
        want = np.array([(r["col"] * wgt).sum(), job.res[1] - 1 - (r["row"] * wgt).sum()])
        mon.close(com[k], want, "traced-centre", atol=0.05, resolution=job.res)
        mon.count("traced centres judged")
    mon.observe((job.n, job.res[0] > job.res[1]), True, dict(res=job.res, com=com[:2]))


@CHECK.family(quick=600, thorough=6000, chunk=50)
def trapezoid(mon, rng):
    """Plateau one, linear slopes to zero, symmetric about the middle, cut or padded to the total width."""
    total = int(rng.integers(1, 300))
    slope, plateau = int(rng.integers(0, 120)) * int(rng.random() < 0.8), int(rng.integers(0, 200))
    with mon.code("trapezoid_distribution"):
        got = G.N(bitmap.trapezoid_distribution(total_width=total, slope_width=slope, plateau_width=plateau, device=G.CPU))
    if not mon.expect(got.shape == (total,), "trapezoid-shape", got=got.shape):
        return
    d = np.abs(np.arange(total) - (total - 1) / 2) - plateau / 2
    want = (d <= 0).astype(float) if slope == 0 else np.clip(1 - np.maximum(d, 0) / slope, 0, 1)
    mon.close(got, want, "trapezoid", atol=1e-5, total=total, slope=slope, plateau=plateau)
    mon.close(got, got[::-1], "trapezoid-symmetry", atol=1e-5)
    mon.observe((slope == 0, total % 2, plateau % 2, np.sign(total - 2 * slope - plateau)), True, dict(total=total, slope=slope, plateau=plateau))


CHECK.require("centres judged", 3000)
CHECK.require("dark images", 100)
CHECK.require("crops on planar targets", 500)
CHECK.require("crops on cylindrical targets", 500)
CHECK.require("traced centres judged", 40)
