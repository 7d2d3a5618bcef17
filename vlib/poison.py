"""Uninitialised-memory sanitizer for tensors.

`torch.empty` and its relatives return whatever the allocator held, often plausible values of an earlier tensor.  Here they return
NaN (floats), the largest value (integers) or True, which no oracle accepts, so that every element that is read without
having been written shows up in whatever is computed from it.
"""

import torch

allocations = 0


def _fill(t):
    global allocations
    if isinstance(t, torch.Tensor) and t.layout == torch.strided and t.device.type == "cpu" and t.numel():
        allocations += 1
        with torch.no_grad():
            if t.is_floating_point() or t.is_complex():
                t.detach().fill_(float("nan"))
            elif t.dtype == torch.bool:
                t.fill_(True)
            elif not t.dtype.is_complex and t.dtype in (torch.int8, torch.int16, torch.int32, torch.int64, torch.uint8):
                t.fill_(torch.iinfo(t.dtype).max)
    return t


def install():
    def wrap(fn):
        def call(*args, **kwargs):
            return _fill(fn(*args, **kwargs)) if kwargs.get("out") is None else fn(*args, **kwargs)

        call.__name__ = getattr(fn, "__name__", "empty")
        return call

    for name in ("empty", "empty_like", "empty_strided"):
        setattr(torch, name, wrap(getattr(torch, name)))
    for name in ("new_empty", "new_empty_strided"):
        setattr(torch.Tensor, name, wrap(getattr(torch.Tensor, name)))
