"""T01 - splitting calibration measurements into training and test set."""

import numpy as np
import torch

from artist.optim import training
from vlib import gen as G
from vlib.core import Check

CHECK = Check(
    "T01",
    rule="one evaluation = one split whose fields, indices, masks and sizes were compared with a list-based model of the samples; "
    "distinct = (samples per heliostat, heliostats with and without samples, fraction); non-trivial = at least two samples per heliostat",
    assumptions=["every heliostat with samples has the same number of them, as the reconstructors require"],
)
FIELDS = ("flux_measured", "focal_spots_measured", "incident_ray_directions", "motor_positions", "target_area_indices")


@CHECK.family(quick=3000, thorough=40000, chunk=100)
def splits(mon, rng):
    H, S = G.size(rng, 1, 9), G.size(rng, 1, 20, most=80)
    mask = (rng.random(H) < rng.uniform(0.2, 1)).astype(int) * S
    if not mask.any():
        mask[rng.integers(H)] = S
    n, active = int(mask.sum()), int((mask > 0).sum())
    fraction = float(rng.choice([0.25, 0.1, 0.35, 0.5, 0.75, 0.9, 0.0])) if rng.random() < 0.6 else None
    h, w = (int(v) for v in rng.integers(1, 5, 2))
    # every sample carries its own number in every field
    tag = np.arange(n)
    data = dict(
        flux_measured=torch.tensor(np.broadcast_to(tag[:, None, None], (n, h, w)).copy(), dtype=torch.float32),
        focal_spots_measured=torch.tensor(np.stack([tag, tag + 0.25, -tag, np.ones(n)], 1), dtype=torch.float32),
        incident_ray_directions=torch.tensor(np.stack([tag, -tag, tag + 0.5, np.zeros(n)], 1), dtype=torch.float32),
        motor_positions=torch.tensor(np.stack([tag * 2, tag * 3], 1), dtype=torch.float32),
        target_area_indices=torch.tensor(tag),
    )
    keep = {k: v.clone() for k, v in data.items()}
    m = torch.tensor(mask, dtype=torch.int32 if rng.random() < 0.7 else torch.int64)
    before = m.clone()
    with mon.code("train_test_split"):
        kw = {} if fraction is None else dict(test_fraction=fraction)
        s = training.train_test_split(active_heliostats_mask=m, device=G.CPU, **kw, **data)
    mon.expect(torch.equal(m, before) and all(torch.equal(keep[k], data[k]) for k in data), "input-modified")
    f = 0.25 if fraction is None else fraction
    test = max(1, int(S * f))
    train = S - test
    info = dict(mask=mask, fraction=f)
    mon.expect((s.number_of_train_samples, s.number_of_test_samples, s.number_of_samples_per_heliostat) == (train, test, S), "sizes",
               got=[s.number_of_train_samples, s.number_of_test_samples, s.number_of_samples_per_heliostat], want=[train, test, S], **info)
    owner = np.repeat(np.arange(H), mask)
    want = dict(train=np.array([k for k in range(n) if k % S < train], int), test=np.array([k for k in range(n) if k % S >= train], int))
    for part, rows in want.items():
        got = getattr(s, f"{part}_indices").cpu().numpy()
        mon.expect(np.array_equal(got, rows), f"{part}-indices", got=got, want=rows, **info)
        for field in FIELDS:
            mon.expect(torch.equal(getattr(s, f"{field}_{part}"), keep[field][torch.tensor(rows, dtype=torch.long)]), f"{part}-{field}", **info)
        got_mask = getattr(s, f"active_heliostats_mask_{part}").cpu().numpy()
        mon.expect(np.array_equal(got_mask, np.bincount(owner[rows], minlength=H)), f"{part}-mask", got=got_mask, **info)
        mon.count(f"{part} rows", len(rows))
    union = np.concatenate([s.train_indices.cpu().numpy(), s.test_indices.cpu().numpy()])
    mon.expect(np.array_equal(np.sort(union), tag), "partition", union=union, **info)
    mon.count("idle heliostats", int((mask == 0).sum()))
    mon.observe((S, active, H - active > 0, f), S > 1, dict(mask=mask, fraction=f, train=want["train"][:5], test=want["test"][:5]))


CHECK.require("train rows", 30000)
CHECK.require("test rows", 10000)
CHECK.require("idle heliostats", 2000)
