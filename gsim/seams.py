"""The seam under every tensor operation of the library."""
from __future__ import annotations

import math
import threading

import torch
from torch.utils._python_dispatch import TorchDispatchMode

aten = torch.ops.aten

_ALLOC = {
    aten.empty.memory_format, aten.empty_strided.default, aten.empty_like.default,
    aten.new_empty.default, aten.new_empty_strided.default,
}
for _n in ("names",):
    try:
        _ALLOC.add(getattr(aten.empty, _n))
    except AttributeError:
        pass

_UNI = {aten.rand.default, aten.rand_like.default, aten.uniform_.default, aten.rand.generator}
_NRM = {aten.randn.default, aten.randn_like.default, aten.normal_.default, aten.randn.generator}

try:
    _SEEDED = torch.Tag.nondeterministic_seeded
except AttributeError:  # pragma: no cover
    _SEEDED = None


class SimMemoryError(MemoryError):
    pass


class SimRuntimeError(RuntimeError):
    pass


class SimInterrupt(KeyboardInterrupt):
    pass


FAULTS = {
    "alloc": (SimMemoryError, "simulated: allocation failed"),
    "oom": (SimRuntimeError, "simulated: DefaultCPUAllocator: can't allocate memory"),
    "interrupt": (SimInterrupt, "simulated: interrupt"),
}


_pending = threading.local()


def make_fault(kind):
    cls, msg = FAULTS[kind]
    _pending.fault = True
    return cls(msg)


def is_sim(exc) -> bool:
    """Whether the exception is an injected fault, perhaps wrapped."""
    pending = getattr(_pending, "fault", False)
    e, seen = exc, 0
    while e is not None and seen < 10:
        if isinstance(e, (SimMemoryError, SimRuntimeError, SimInterrupt)) or getattr(e, "_gsim", False):
            _pending.fault = False
            return True
        # the TorchScript interpreter replaces the exception, and may drop its message
        if pending and isinstance(e, RuntimeError) and "TorchScript interpreter" in str(e):
            _pending.fault = False
            e._gsim = True
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


class StepLimit(Exception):
    pass


def _poison(t: torch.Tensor, pattern: str, n: int):
    if t.numel() == 0:
        return
    if pattern == "zero":
        t.zero_()
    elif t.is_floating_point() or t.is_complex():
        if pattern == "nan":
            t.fill_(float("nan"))
        elif pattern == "inf":
            t.fill_(float("inf"))
        elif pattern == "huge":
            t.fill_(3.0e30 if t.dtype is not torch.float16 else 6e4)
        elif pattern == "noise":
            # arithmetic noise: must not touch any generator
            k = torch.arange(t.numel(), dtype=torch.float64)
            v = torch.sin(k * 12.9898 + n) * 43758.5453
            v = (v - v.floor()) * 4 - 2
            t.copy_(v.reshape(t.shape).to(t.dtype))
    elif t.dtype is torch.bool:
        t.fill_(True)
    else:
        t.fill_(113)


def _override(t: torch.Tensor, kind: str, pat: str, n: int):
    """Replaces a draw by a boundary value a generator can produce."""
    if t.numel() == 0 or not t.is_floating_point():
        return
    if kind == "uniform":
        lo = 0.0
        hi = 1 - 2.0 ** -24
        if pat == "lo":
            t.fill_(lo)
        elif pat == "hi":
            t.fill_(hi)
        elif pat == "half":
            t.fill_(0.5)
        elif pat == "halfup":
            t.fill_(0.5 + 2.0 ** -24)
        elif pat == "tiny":
            t.fill_(2.0 ** -24)
        elif pat == "quarter":
            t.fill_(0.25)
        elif pat == "alt":
            f = t.reshape(-1)
            k = torch.arange(f.numel()) % 2
            t.copy_((k.to(t.dtype) * hi).reshape(t.shape))
        elif pat == "same":
            t.fill_(0.37109375)
        elif pat.startswith("edge"):
            # values next to the multiples of 1/8 and to both ends
            g = torch.Generator().manual_seed(int(pat[4:]) * 1013 + n)
            k = torch.randint(0, 9, t.shape, generator=g).double() / 8
            e = torch.randint(-1, 2, t.shape, generator=g).double() * 2.0 ** -24
            t.copy_((k + e).clamp(lo, hi).to(t.dtype))
        return
    # normal draws; rows are the last dimension
    d = t.shape[-1] if t.dim() else 1
    rows = t.numel() // d
    z = torch.zeros(rows, d, dtype=torch.float64)
    if pat == "axis":
        for i in range(rows):
            z[i, (i + n) % d] = 1.0 if (i // d) % 2 == 0 else -1.0
    elif pat == "axis0":
        z[:, 0] = 1.25
    elif pat == "axisneg":
        z[:, -1] = -0.75
    elif pat == "equal":
        z[:] = 0.8
    elif pat == "big":
        z[:] = 6.0
        z[:, (n + 1) % d] = -6.5
    elif pat == "small":
        z[:] = 1e-4
        z[:, n % d] = -2e-4
    elif pat == "mixed":
        z[:] = 1e-7
        z[:, n % d] = 3.0
    elif pat == "near":
        base = torch.tensor([0.3, -1.1, 0.7, 0.5, 0.2, -0.4][:d] + [0.1] * max(0, d - 6), dtype=torch.float64)
        z[:] = base
        k = torch.arange(rows * d, dtype=torch.float64).reshape(rows, d)
        z += 1e-5 * torch.sin(k * 1.7 + 0.3)
    elif pat == "same":
        base = torch.tensor([0.3, -1.1, 0.7, 0.5, 0.2, -0.4][:d] + [0.1] * max(0, d - 6), dtype=torch.float64)
        z[:] = base
    elif pat.startswith("mag"):
        # every entry of its own magnitude, from tiny to the largest ones drawn
        g = torch.Generator().manual_seed(int(pat[3:]) * 1009 + n)
        z = 10.0 ** (torch.rand(rows, d, generator=g, dtype=torch.float64) * 6.75 - 6)
        z = z * (1 - 2 * (torch.rand(rows, d, generator=g, dtype=torch.float64) < 0.5).double())
    elif pat == "halfturn":
        z[:, 1 % d] = 1.0
        z[:, 2 % d] = 1e-3
    else:
        return
    t.copy_(z.reshape(t.shape).to(t.dtype))


UNI_PATTERNS = ["lo", "hi", "half", "halfup", "tiny", "quarter", "alt", "same"]
NRM_PATTERNS = ["axis", "axis0", "axisneg", "equal", "big", "small", "mixed", "near", "same", "halfturn"]


def _in_cleanup():
    from .sched import in_cleanup
    return in_cleanup()


class Seam(TorchDispatchMode):
    """One per call (or per thread); nothing in it draws randomness.

    fault:    None or (kind, k): raise before the k-th tensor operation
    poison:   pattern for unwritten memory
    draws:    dict(uniform=pattern | None, normal=pattern | None, every=m, off=o):
              draws with (index % m == o) are replaced
    on_op:    callback after every operation (scheduler)
    """

    def __init__(self, ctx, fault=None, poison=None, draws=None, on_op=None, limit=3_000_000):
        super().__init__()
        self.ctx = ctx
        self.fault = fault if fault and len(fault) == 2 else None
        self.poison = poison
        self.draws = draws
        self.on_op = on_op
        self.n = 0
        self.nalloc = 0
        self.ndraw = 0
        self.nseeded = 0
        self.fired = False
        self.limit = limit

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.n += 1
        n = self.n
        if n > self.limit:
            raise StepLimit()
        if self.fault is not None and not self.fired and n >= self.fault[1] and not _in_cleanup():
            self.fired = True
            self.ctx.faults[self.fault[0] + "@op"] += 1
            raise make_fault(self.fault[0])
        out = func(*args, **(kwargs or {}))
        if func in _ALLOC:
            self.nalloc += 1
            if self.poison is not None and isinstance(out, torch.Tensor):
                _poison(out, self.poison, self.nalloc)
                self.ctx.faults["poison:" + self.poison] += 1
        elif _SEEDED is not None and _SEEDED in func.tags:
            self.nseeded += 1
            kind = "uniform" if func in _UNI else "normal" if func in _NRM else None
            if kind and not (kwargs and kwargs.get("generator") is not None):
                d = self.draws
                i = self.ndraw
                self.ndraw += 1
                if d and d.get(kind) and i % d.get("every", 1) == d.get("off", 0) % d.get("every", 1):
                    tgt = out if isinstance(out, torch.Tensor) else None
                    if tgt is not None:
                        _override(tgt, kind, d[kind], i)
                        self.ctx.faults["draw:" + kind + ":" + d[kind].rstrip("0123456789")] += 1
        if self.on_op is not None:
            self.on_op()
        return out


def run_seamed(ctx, fn, **kw):
    seam = Seam(ctx, **kw)
    with seam:
        out = fn()
    return out, seam
