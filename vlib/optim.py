"""Shared pieces of the optimiser monitors: in-memory measurements, a recording loss and frozen copies of a field."""

from __future__ import annotations

import numpy as np
import torch

from artist.io import CalibrationDataParser
from artist.optim import loss as L
from artist.util import constants as C

from . import gen as G


class MemoryParser(CalibrationDataParser):
    """Hands measurements of the workload to the optimiser instead of reading files."""

    def __init__(self, scenario):
        super().__init__()
        self.scenario, self.table, self.requests = scenario, {}, []

    def put(self, g, flux, focal, incident, motors, mask, idx):
        self.table[g] = (G.T(flux), G.T(focal), G.T(incident), G.T(motors), torch.tensor(np.asarray(mask), dtype=torch.int32),
                         torch.tensor(np.asarray(idx), dtype=torch.int32))

    def parse_data_for_reconstruction(self, heliostat_data_mapping, heliostat_group, scenario, bitmap_resolution=None, device=None):
        for g, group in enumerate(self.scenario.heliostat_field.heliostat_groups):
            if group is heliostat_group:
                self.requests.append(g)
                if g in self.table:
                    return tuple(t.clone() for t in self.table[g])
        n = heliostat_group.number_of_heliostats
        return (torch.zeros(0, 8, 8), torch.zeros(0, 4), torch.zeros(0, 4), torch.zeros(0, 2), torch.zeros(n, dtype=torch.int32),
                torch.zeros(0, dtype=torch.int32))


def recording(base, **kw):
    """An instance of a subclass of the loss `base` that keeps every call."""

    class Recorder(base):
        def __init__(self):
            super().__init__(**kw)
            self.calls = []

        def __call__(self, prediction, ground_truth, **kwargs):
            out = super().__call__(prediction, ground_truth, **kwargs)
            self.calls.append(dict(prediction=prediction.detach().clone(), truth=ground_truth.detach().clone(), loss=out.detach().clone(),
                                   kwargs={k: (v.clone() if torch.is_tensor(v) else v) for k, v in kwargs.items()}))
            return out

    Recorder.__name__ = base.__name__
    return Recorder()


def single_process(groups):
    return dict(device=G.CPU, is_distributed=False, is_nested=False, rank=0, world_size=1, process_subgroup=None,
                groups_to_ranks_mapping={0: list(range(groups))}, heliostat_group_rank=0, heliostat_group_world_size=1,
                ranks_to_groups_mapping={g: [0] for g in range(groups)})


def schedule(rng, kind, lr, epochs, gamma=None):
    s = {C.scheduler_type: kind, C.gamma: 0.9 if gamma is None else gamma, C.lr_min: lr * 1e-3, C.lr_max: lr,
         C.step_size_up: max(1, epochs // 3), C.reduce_factor: float(rng.uniform(0.3, 0.8)), C.patience: int(rng.integers(0, 3)),
         C.threshold: 1e-3, C.cooldown: int(rng.integers(0, 2))}
    return s


def optimisation(lr, epochs, batch, tolerance=0.0, log_step=1, window=10**6, patience=10**6, delta=0.0):
    return {C.initial_learning_rate: lr, C.initial_learning_rate_rotation_deviation: lr, C.initial_learning_rate_initial_angles: lr,
            C.initial_learning_rate_initial_stroke_length: lr, C.tolerance: tolerance, C.max_epoch: epochs, C.batch_size: batch,
            C.log_step: log_step, C.early_stopping_delta: delta, C.early_stopping_patience: patience, C.early_stopping_window: window}


FIELDS = ("names", "positions", "surface_points", "surface_normals", "canting", "facet_translations", "initial_orientations",
          "nurbs_control_points", "nurbs_degrees")


def stored(scene):
    """Copies of everything a field stores, by group and name."""
    out = {}
    for g, group in enumerate(scene.groups):
        for name in FIELDS:
            v = getattr(group, name, None)
            out[g, name] = v.detach().clone() if torch.is_tensor(v) else (list(v) if v is not None else None)
        k = group.kinematics
        out[g, "translation_deviation_parameters"] = k.translation_deviation_parameters.detach().clone()
        out[g, "rotation_deviation_parameters"] = k.rotation_deviation_parameters.detach().clone()
        out[g, "actuators_non_optimizable"] = k.actuators.non_optimizable_parameters.detach().clone()
        out[g, "actuators_optimizable"] = k.actuators.optimizable_parameters.detach().clone()
    for k, v in tower(scene).items():
        out["tower", k] = v
    return out


def tower(scene):
    out = {}
    for t, areas in enumerate(scene.tower.target_areas):
        for name, v in vars(areas).items():
            if torch.is_tensor(v):
                out[f"{t}.{name}"] = v.detach().clone()
    return out


def same(a, b):
    if torch.is_tensor(a) and torch.is_tensor(b):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        return bool(((a == b) | ((a != a) & (b != b))).all())  # noqa: PLR0124 - memory never written to holds NaN here
    return type(a) is type(b) and a == b


def unchanged(mon, before, after, allowed=(), mech="stored-data-changed", **detail):
    """`allowed` names keys (group, field) that may differ."""
    mon.count("stored tensors compared", len(before) - len(allowed))
    for key, v in before.items():
        if key not in allowed:
            mon.expect(key in after and same(v, after[key]), mech, which=str(key), **detail)
