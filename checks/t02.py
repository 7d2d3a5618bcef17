"""T02 - learning rate schedulers and early stopping."""

import math

import numpy as np
import torch

from artist.optim import training
from artist.util import constants
from vlib.core import Check

CHECK = Check(
    "T02",
    rule="one evaluation = one complete loss history fed to the early stopping or to a scheduler, every returned decision or rate compared "
    "with a list-based model; distinct = (family, window, patience, relative, kind of history, whether and when it stopped) or (scheduler, "
    "parameters class, number of rate changes); non-trivial = the history contains a decision (stop, reset, reduction or turn)",
    assumptions=["losses are finite", "histories within rounding distance of a threshold are left out"],
)


def history(rng, n):
    kind = ("flat", "decay", "noise", "stairs", "plateaus", "rise", "mixed", "tiny", "negative")[int(rng.integers(9))]
    k = np.arange(n)
    if kind == "flat":
        x = np.full(n, rng.uniform(0, 5))
    elif kind == "decay":
        x = rng.uniform(0.1, 100) * np.exp(-k * 10.0 ** rng.uniform(-4, 0)) + rng.uniform(0, 1)
    elif kind == "noise":
        x = rng.uniform(0.1, 5) + rng.normal(0, 10.0 ** rng.uniform(-5, -0.5), n)
    elif kind == "stairs":
        x = 10 - np.floor(k / rng.integers(1, 12)) * 10.0 ** rng.uniform(-4, -0.3)
    elif kind == "plateaus":
        x = np.repeat(rng.uniform(0.1, 10, n), rng.integers(1, 15))[:n]
    elif kind == "rise":
        x = 1 + k * 10.0 ** rng.uniform(-6, 0)
    elif kind == "mixed":
        x = np.concatenate([history(rng, n // 2 + 1)[0], history(rng, n)[0]])[:n]
    elif kind == "tiny":
        x = rng.uniform(0, 1, n) * 10.0 ** rng.uniform(-12, -6)
    else:
        x = rng.normal(0, 1, n) - k * 10.0 ** rng.uniform(-4, -1)
    return [float(v) for v in x], kind


@CHECK.family(quick=6000, thorough=100000, chunk=200)
def early_stopping(mon, rng):
    window, patience = int(rng.integers(1, 14)), int(rng.integers(1, 25))
    delta = float(rng.choice([0.0, 1e-6, 1e-4, 1e-2, 0.3, 1.0]))
    relative = bool(rng.random() < 0.6)
    eps = 1e-8 if rng.random() < 0.8 else float(10.0 ** rng.uniform(-10, -2))
    losses, kind = history(rng, int(rng.integers(1, 150)))
    with mon.code("EarlyStopping"):
        if (window, patience, delta, relative, eps) == (10, 20, 1e-4, True, 1e-8):
            stopper = training.EarlyStopping()
        else:
            stopper = training.EarlyStopping(window_size=window, patience=patience, min_improvement=delta, relative=relative, eps=eps)
    bad, first, resets = 0, None, 0
    for k, loss in enumerate(losses):
        with mon.code("EarlyStopping.step"):
            got = stopper.step(loss)
        if k + 1 < window:
            want = False
        else:
            start = losses[k + 1 - window]
            improvement = start - loss
            if relative:
                improvement /= max(abs(start), eps)
            if improvement != 0 and abs(improvement - delta) <= 1e-9 * (abs(delta) + abs(start) * (not relative) + 1e-12):
                mon.count("histories cut at a borderline decision")
                break
            if improvement > delta:
                resets += bad > 0
                bad = 0
            else:
                bad += 1
            want = bad >= patience
        mon.count("decisions")
        if not mon.expect(bool(got) == want, "stopped-wrongly" if got else "not-stopped", epoch=k, window=window, patience=patience, delta=delta,
                          relative=relative, kind=kind, losses=losses[max(0, k - window):k + 1]):
            return
        if want and first is None:
            first = k
    mon.count("histories stopped" if first is not None else "histories not stopped")
    mon.count("counter resets", resets)
    mon.observe((min(window, 4), min(patience, 4), relative, kind, first is None, resets > 0), first is not None or resets > 0,
                dict(window=window, patience=patience, delta=delta, kind=kind, stopped=first, epochs=len(losses)))


@CHECK.family(quick=500, thorough=5000, chunk=50)
def defaults(mon, rng):
    """Documented defaults: window 10, patience 20, relative improvement of 1e-4."""
    stopper, losses = training.EarlyStopping(), [1.0]
    rate = float(rng.choice([0.0, 2e-6, 5e-5, 1e-3]))
    while len(losses) < 60:
        losses.append(losses[-1] * (1 - rate))
    got = []
    with mon.code("EarlyStopping.step"):
        got = [stopper.step(x) for x in losses]
    improving = 1 - (1 - rate) ** 9 > 1e-4
    want = [False] * 60 if improving else [k >= 28 for k in range(60)]
    mon.expect(got == want, "defaults", rate=rate, first=got.index(True) if True in got else None)
    mon.observe((rate,), True)


def optimizer(rng, n):
    rates = [float(10.0 ** rng.uniform(-5, 0)) for _ in range(n)]
    params = [torch.nn.Parameter(torch.zeros(2)) for _ in rates]
    cls = torch.optim.Adam
    return cls([dict(params=[p], lr=r) for p, r in zip(params, rates)]), params, rates


def texts(rng, parameters):
    """Configurations read from files may hold numbers as text."""
    return {k: (repr(v) if rng.random() < 0.15 and isinstance(v, float) else v) for k, v in parameters.items()}


def step(opt, params):
    for p in params:
        p.grad = torch.ones_like(p)
    opt.step()


def compare(mon, what, opt, want, k, **info):
    got = [g["lr"] for g in opt.param_groups]
    mon.count("rates compared", len(got))
    return mon.expect(all(math.isclose(a, b, rel_tol=1e-6, abs_tol=1e-15) for a, b in zip(got, want)), what, step=k, got=got, want=want, **info)


@CHECK.family(quick=400, thorough=5000, chunk=40)
def exponential(mon, rng):
    opt, params, rates = optimizer(rng, int(rng.integers(1, 4)))
    gamma = float(rng.choice([0.5, 0.9, 0.99, 0.999, 1.0])) if rng.random() < 0.5 else float(rng.uniform(0.3, 1))
    p = {constants.gamma: gamma}
    with mon.code("exponential"):
        s = training.exponential(optimizer=opt, parameters=texts(rng, p))
        for k in range(1, 80):
            step(opt, params)
            s.step()
            if not compare(mon, "exponential-rate", opt, [r * gamma**k for r in rates], k, parameters=p):
                return
    mon.observe(("exponential", len(rates), round(gamma, 1)), gamma < 1, dict(gamma=gamma, rates=rates))


@CHECK.family(quick=400, thorough=5000, chunk=40)
def cyclic(mon, rng):
    opt, params, rates = optimizer(rng, int(rng.integers(1, 4)))
    low = float(10.0 ** rng.uniform(-8, -2))
    high = low * float(rng.uniform(1.5, 1000))
    up = int(rng.integers(1, 40))
    p = {constants.lr_min: low, constants.lr_max: high, constants.step_size_up: up}
    with mon.code("cyclic"):
        s = training.cyclic(optimizer=opt, parameters=texts(rng, p))
        for k in range(0, 130):
            phase = k % (2 * up)
            x = phase / up if phase <= up else 2 - phase / up
            want = low + (high - low) * x
            if not compare(mon, "cyclic-rate", opt, [want] * len(rates), k, parameters=p):
                return
            mon.expect(all(g["lr"] >= low * (1 - 1e-9) and g["lr"] <= high * (1 + 1e-9) for g in opt.param_groups), "cyclic-range", step=k)
            step(opt, params)
            s.step()
    mon.observe(("cyclic", len(rates), up), True, dict(parameters=p))


@CHECK.family(quick=1500, thorough=20000, chunk=60)
def reduce_on_plateau(mon, rng):
    opt, params, rates = optimizer(rng, int(rng.integers(1, 3)))
    p = {constants.reduce_factor: float(rng.uniform(0.05, 0.95)), constants.patience: int(rng.integers(0, 12)),
         constants.threshold: float(rng.choice([0.0, 1e-4, 1e-2, 0.2])), constants.cooldown: int(rng.integers(0, 8)),
         constants.lr_min: float(rng.choice([0.0, 1e-6, 1e-4, 1e-2]))}
    losses, kind = history(rng, int(rng.integers(5, 150)))
    with mon.code("reduce_on_plateau"):
        s = training.reduce_on_plateau(optimizer=opt, parameters=texts(rng, p))
    best, bad, cool, reductions = math.inf, 0, 0, 0
    want = list(rates)
    tensor = rng.random() < 0.5
    for k, loss in enumerate(losses):
        value = torch.tensor(loss, dtype=torch.float64) if tensor else loss
        step(opt, params)
        with mon.code("scheduler step"):
            s.step(value)
        bar = best * (1 - p[constants.threshold]) if math.isfinite(best) else math.inf
        if loss != best and math.isfinite(bar) and abs(loss - bar) <= 1e-9 * abs(bar):
            mon.count("histories cut at a borderline decision")
            break
        if loss < bar:
            best, bad = loss, 0
        else:
            bad += 1
        if cool > 0:
            cool, bad = cool - 1, 0
        if bad > p[constants.patience]:
            for i, r in enumerate(want):
                new = max(r * p[constants.reduce_factor], p[constants.lr_min])
                if r - new > 1e-8:
                    want[i] = new
                elif r - new > 0.9e-8:
                    return
            cool, bad, reductions = p[constants.cooldown], 0, reductions + 1
        if not compare(mon, "plateau-rate", opt, want, k, parameters=p, kind=kind):
            return
        mon.expect(all(g["lr"] >= min(p[constants.lr_min], r) * (1 - 1e-9) for g, r in zip(opt.param_groups, rates)), "plateau-minimum", step=k, parameters=p)
    mon.count("plateau reductions", reductions)
    mon.observe(("plateau", kind, p[constants.patience], p[constants.cooldown] > 0, min(reductions, 4)), reductions > 0, dict(parameters=p, kind=kind, reductions=reductions))


CHECK.require("decisions", 100000)
CHECK.require("histories stopped", 1000)
CHECK.require("histories not stopped", 800)
CHECK.require("counter resets", 1000)
CHECK.require("rates compared", 100000)
CHECK.require("plateau reductions", 1000)
