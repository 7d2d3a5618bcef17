"""A sanitizer around the library's computations: every watched call is repeated in variations that must not matter."""

import functools
import sys

import torch

# rounding of values that would be zero, where it is more than the rounding of the largest value
FLOOR = {"KLDivergenceLoss.__call__": 1e-5, "CosineSimilarityLoss.__call__": 1e-5, "AngleLoss.__call__": 1e-3, "FocalSpotLoss.__call__": 1e-4,
         "rotations.decompose_rotations": 1e-3, "rotations.rotation_angle_and_axis": 1e-3}
# the ray batches are drawn with a data loader, which takes a number for its workers from the random state
DRAWS = {"HeliostatRayTracer.trace_rays"}
LIMIT = 3  # shadowed calls per function and case


def tensors(x, depth=0):
    """All tensors inside an argument, also those of library objects."""
    if torch.is_tensor(x):
        return [x]
    if isinstance(x, (list, tuple)):
        return [t for v in x for t in tensors(v, depth)]
    if isinstance(x, dict):
        return [t for v in x.values() for t in tensors(v, depth)]
    if depth < 3 and type(x).__module__.split(".")[0] == "artist" and hasattr(x, "__dict__"):
        return [t for v in vars(x).values() for t in tensors(v, depth + 1)]
    return []


def plain(x):
    """The tensors given directly or in containers, but not those of library objects."""
    if torch.is_tensor(x):
        return [x]
    if isinstance(x, dict):
        return [t for v in x.values() for t in plain(v)]
    return [t for v in x for t in plain(v)] if isinstance(x, (list, tuple)) else []


def outline(x):
    """What containers hold: plain values by value, everything else by identity."""
    if isinstance(x, dict):
        return [(k, outline(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [outline(v) for v in x]]
    if x is None or isinstance(x, (bool, int, float, str)):
        return repr(x)
    return id(x)


def mapped(x, f):
    """The argument with `f` applied to its tensors; library objects are passed on as they are."""
    if torch.is_tensor(x):
        return f(x)
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(mapped(v, f) for v in x)
    if isinstance(x, dict):
        return {k: mapped(v, f) for k, v in x.items()}
    return x


def same(a, b):
    if torch.is_tensor(a) or torch.is_tensor(b):
        if not (torch.is_tensor(a) and torch.is_tensor(b)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        return bool(((a == b) | ((a != a) & (b != b))).all())
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b)


def alike(a, b, floor=1e-7, rtol=1e-4):
    """Equal up to rounding; indices and decisions may differ in few places, where rounding decides."""
    if torch.is_tensor(a) or torch.is_tensor(b):
        if not (torch.is_tensor(a) and torch.is_tensor(b)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.numel() == 0:
            return True
        a, b = a.detach(), b.detach()
        if not a.is_floating_point():
            return int((a != b).sum()) <= max(2, 0.1 * a.numel())
        usable = a[torch.isfinite(a)]
        scale = float(usable.abs().max()) if usable.numel() else 1.0
        close = ((a - b).abs() <= rtol * scale + floor) | (a == b) | ((a != a) & (b != b))
        return int((~close).sum()) <= max(2, 0.1 * a.numel())
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(alike(u, v, floor, rtol) for u, v in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(alike(a[k], b[k], floor, rtol) for k in a)
    return type(a) is type(b)


def worst(a, b):
    """Where two results differ most, for the report."""
    for t, u in zip(tensors([a]), tensors([b])):
        if t.shape == u.shape and not same(t.detach(), u.detach()):
            k = int((t.detach().double() - u.detach().double()).abs().nan_to_num(1e30).argmax())
            return dict(got=float(t.flatten()[k]), first=float(u.flatten()[k]), shape=list(t.shape))
    return {}


def copied(x):
    return x.detach().clone()


def strided(x):
    """The same values, lying apart in memory."""
    if x.dim() == 0:
        return copied(x)
    wide = torch.zeros(*x.shape[:-1], 2 * x.shape[-1] + 1, dtype=x.dtype)
    view = wide[..., 1::2]
    view.copy_(x.detach())
    return view


def turned(x):
    """The same values in another order of dimensions."""
    if x.dim() < 2:
        return strided(x)
    return x.detach().transpose(0, -1).contiguous().transpose(0, -1)


def spread(x):
    """Rows that are all alike share their memory, as expanded tensors do."""
    if x.dim() == 0 or x.shape[0] < 2 or not bool((x == x[:1]).all()):
        return copied(x)
    return x.detach()[:1].clone().expand_as(x)


def learnable(x):
    return copied(x).requires_grad_(True) if x.is_floating_point() else copied(x)


def settings():
    return dict(
        dtype=torch.get_default_dtype(), grad=torch.is_grad_enabled(), threads=torch.get_num_threads(),
        deterministic=torch.are_deterministic_algorithms_enabled(), inference=torch.is_inference_mode_enabled(),
        anomaly=torch.is_anomaly_enabled(), device=str(torch.get_default_device()),
    )


class Watch:
    """Wraps library functions; `report(mechanism, **detail)` is called for what a watched call should not have done."""

    def __init__(self, report, seen, rng):
        self.report, self.seen, self.rng, self.quiet, self.calls = report, seen, rng, False, {}
        self.undo = []

    def function(self, module, name):
        original = getattr(module, name, None)
        if original is None or not callable(original):
            return
        shadow = self.around(original, f"{module.__name__.split('.')[-1]}.{name}", False)
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").split(".")[0] in ("artist", "checks", "vlib") and getattr(m, name, None) is original:
                setattr(m, name, shadow)
                self.undo.append((m, name, original))

    def method(self, cls, name):
        original = cls.__dict__.get(name)
        if original is None:
            return
        if isinstance(original, staticmethod):
            setattr(cls, name, staticmethod(self.around(original.__func__, f"{cls.__name__}.{name}", False)))
        else:
            setattr(cls, name, self.around(original, f"{cls.__name__}.{name}", True))
        self.undo.append((cls, name, original))

    def arguments(self, cls, name):
        """Methods that may change their object, but not the tensors they are called with."""
        original = cls.__dict__.get(name)
        if original is None or not callable(original):
            return
        label = f"{cls.__name__}.{name}"

        @functools.wraps(original)
        def shadow(*args, **kwargs):
            given = [t for v in (*args[1:], *kwargs.values()) for t in plain(v)]
            before, form, world = [copied(t) for t in given], outline([args[1:], kwargs]), settings()
            result = original(*args, **kwargs)
            if settings() != world:
                self.report("settings-changed", function=label, before=str(world), after=str(settings()))
            self.unchanged(given, before, None, label, "call")
            if outline([args[1:], kwargs]) != form:
                self.report("container-changed", function=label)
            if not self.quiet:
                self.seen(label, [tuple(t.shape) for t in given[:4]])
            return result

        setattr(cls, name, shadow)
        self.undo.append((cls, name, original))

    def close(self):
        for owner, name, original in reversed(self.undo):
            setattr(owner, name, original)

    def around(self, original, label, bound):
        @functools.wraps(original)
        def shadow(*args, **kwargs):
            if self.quiet:
                return original(*args, **kwargs)
            self.calls[label] = self.calls.get(label, 0) + 1
            if self.calls[label] > LIMIT and self.rng.random() > LIMIT / self.calls[label]:
                return original(*args, **kwargs)
            given = tensors([args, kwargs])
            before, versions, world = [copied(t) for t in given], [t._version for t in given], settings()
            noise, form = torch.random.get_rng_state(), outline([args, kwargs])
            result = original(*args, **kwargs)
            if label not in DRAWS and not torch.equal(noise, torch.random.get_rng_state()):
                self.report("random-state-changed", function=label)
            if settings() != world:
                self.report("settings-changed", function=label, before=str(world), after=str(settings()))
            self.unchanged(given, before, versions, label, "call")
            if outline([args, kwargs]) != form:
                self.report("container-changed", function=label)
            self.quiet = True
            try:
                self.variations(original, label, bound, args, kwargs, result)
            finally:
                self.quiet = False
            self.unchanged(given, before, None, label, "repetition")
            self.seen(label, [tuple(t.shape) for t in given[:4]])
            return result

        return shadow

    def unchanged(self, given, before, versions, label, when):
        for k, (t, b) in enumerate(zip(given, before)):
            if not same(t.detach(), b):
                self.report("input-changed", function=label, tensor=k, shape=list(t.shape), when=when)
                break

    def variations(self, original, label, bound, args, kwargs, result):
        own, rest = (args[:1], args[1:]) if bound else ((), args)

        def again(f, **changed):
            k = mapped({**kwargs, **changed}, f)
            return original(*own, *mapped(rest, f), **k)

        kept = mapped(result, copied)
        with torch.no_grad():
            for how, f in (("copies", copied), ("strided", strided), ("turned", turned), ("shared", spread)):
                try:
                    other = again(f)
                except Exception as e:  # noqa: BLE001 - judged
                    self.report(f"{how}-refused", function=label, message=f"{type(e).__name__}: {e}"[:200])
                    continue
                if not (same(other, kept) if how == "copies" else alike(other, kept, FLOOR.get(label, 1e-7))):
                    self.report(f"{how}-differ", function=label, **worst(other, kept))
                elif how == "copies":
                    # whoever receives a result may write to it
                    mapped(other, lambda t: t.fill_(0) if not is_shared(t) else t)
                    if not same(again(copied), kept):
                        self.report("result-remembered", function=label)
            if "device" in kwargs and kwargs["device"] is not None:
                if not same(again(copied, device=None), kept):
                    self.report("device-chosen-differs", function=label)
            # the same objects with other contents
            mine = mapped((rest, kwargs), copied)
            for t in tensors(list(mine)):
                if t.is_floating_point() and not any(t is u for u in tensors([v for v in (*rest, *kwargs.values()) if not torch.is_tensor(v)])):
                    t.mul_(1.0 + 1e-3)
            self.compare(original, label, own, mine)
        with torch.enable_grad():
            try:
                other = again(learnable)
            except Exception as e:  # noqa: BLE001 - judged
                self.report("gradients-refused", function=label, message=f"{type(e).__name__}: {e}"[:200])
                return
            if not alike(mapped(other, copied), kept, FLOOR.get(label, 1e-7)):
                self.report("gradients-differ", function=label, **worst(other, kept))

    def compare(self, original, label, own, mine):
        fresh = mapped(mine, copied)
        outcomes = []
        for rest, kwargs in (mine, fresh):
            try:
                outcomes.append(mapped(original(*own, *rest, **kwargs), copied))
            except Exception as e:  # noqa: BLE001 - only compared
                outcomes.append(type(e).__name__)
        if not same(*outcomes):
            self.report("other-contents-not-noticed", function=label)
        elif not isinstance(outcomes[0], str):
            # with gradients nothing that was kept from earlier calls can be reused
            with torch.enable_grad():
                try:
                    tracked = mapped(original(*own, *mapped(mine[0], learnable), **mapped(mine[1], learnable)), copied)
                except Exception:  # noqa: BLE001 - judged with the first contents
                    return
            if not alike(tracked, outcomes[0], FLOOR.get(label, 1e-7)):
                self.report("other-contents-not-noticed", function=label, **worst(tracked, outcomes[0]))


def is_shared(t):
    return 0 in t.stride() and t.numel() > 1
