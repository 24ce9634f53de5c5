"""Simulated processes.

A World is one process's view of gconv: booting it executes gconv's sources
from /repo's working tree again, so every module-level object (the grid cache
above all) is new. Several worlds can be alive in one interpreter: a process
that crashed, the one that restarted, and reference twins.
"""
from __future__ import annotations

import gc
import importlib.abc
import importlib.machinery
import importlib.util
import locale
import os
import random
import signal
import sys
import threading
import time
import warnings

REPO = os.environ.get("GSIM_REPO", "/repo")

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-gsim-pycache"
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402
import torch  # noqa: E402

torch.set_num_threads(1)
try:
    torch.set_num_interop_threads(1)
except RuntimeError:
    pass
# the profiling JIT compiles differently on the n-th call; the simulator wants
# every call to run the same code
torch._C._jit_set_profiling_executor(False)
torch._C._jit_set_profiling_mode(False)
torch._C._jit_set_texpr_fuser_enabled(False)
torch._C._jit_override_can_fuse_on_cpu(False)

import tqdm.std  # noqa: E402

tqdm.std.tqdm.monitor_interval = 0

_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_real_sleep = time.sleep
_real_urandom = os.urandom
_real_lock = threading.Lock
_real_rlock = threading.RLock


def wall() -> float:
    return _real_monotonic()


# --------------------------------------------------------------------- import


class _Loader(importlib.machinery.SourceFileLoader):
    """SourceFileLoader that compiles each file once per interpreter."""

    _codes: dict = {}

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        st = os.stat(path)
        key = (path, st.st_mtime_ns, st.st_size)
        if key not in self._codes:
            with open(path, "rb") as f:
                self._codes[key] = compile(f.read(), path, "exec", dont_inherit=True)
        return self._codes[key]


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "gconv" and not fullname.startswith("gconv."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.exists(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(fullname, init),
                submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_Loader(fullname, base + ".py"))
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


sys.meta_path.insert(0, _Finder())


def _gconv_names():
    return [m for m in sys.modules if m == "gconv" or m.startswith("gconv.")]


class Env:
    """Virtual clock, entropy and terminal of the simulated machine."""

    def __init__(self, seed: int = 0, clock: float = 1.7e9, tick: float = 1e-4,
                 jumps=(), stderr_faults=()):
        self.rng = random.Random(seed)
        self.now = clock
        self.start = clock
        self.tick = tick
        self.reads = 0
        self.jumps = dict(jumps)            # read index -> jump in seconds
        self.advanced = 0.0
        self.stderr = SimStderr(dict(stderr_faults))

    def time(self):
        self.reads += 1
        d = self.tick + float(self.jumps.get(self.reads, 0.0))
        self.now += d
        self.advanced += abs(d)
        return self.now

    def sleep(self, s):
        self.now += s
        self.advanced += s

    def urandom(self, n):
        return bytes(self.rng.getrandbits(8) for _ in range(n))


class SimStderr:
    """The terminal the progress bar writes to."""

    def __init__(self, faults):
        self.faults = faults                # write index -> exception class name
        self.n = 0
        self.fired = 0
        self.text = 0
        self.encoding = "utf-8"

    def write(self, s):
        self.n += 1
        self.text += len(s)
        f = self.faults.get(self.n)
        if f:
            self.fired += 1
            exc = {"EPIPE": BrokenPipeError(32, "Broken pipe"),
                   "ENOSPC": OSError(28, "No space left on device"),
                   "closed": ValueError("I/O operation on closed file")}[f]
            exc._gsim = True
            raise exc
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no file descriptor")


class World:
    """One booted copy of gconv."""

    def __init__(self, seed: int = 0):
        self.seed = seed
        saved = {m: sys.modules.pop(m) for m in _gconv_names()}
        try:
            import gconv.geometry as geometry
            import gconv.geometry.groups.so2 as so2
            import gconv.geometry.groups.o2 as o2
            import gconv.geometry.groups.so3 as so3
            import gconv.geometry.groups.o3 as o3
            import gconv.geometry.groups.s2 as s2
            import gconv.geometry.interpolation as interpolation
            import gconv.geometry.repulsion as repulsion
            import gconv.gnn as gnn
            import gconv.gnn.kernels as kernels
            import gconv.gnn.functional as gF

            self.geometry, self.so2, self.o2, self.so3, self.o3, self.s2 = (
                geometry, so2, o2, so3, o3, s2)
            self.interpolation, self.repulsion = interpolation, repulsion
            self.gnn, self.kernels, self.gF = gnn, kernels, gF
            self.modules = {m: sys.modules[m] for m in _gconv_names()}
        finally:
            for m in _gconv_names():
                del sys.modules[m]
            sys.modules.update(saved)

    def activate(self):
        return _Active(self)


class _Active:
    def __init__(self, world):
        self.world = world

    def __enter__(self):
        self.saved = {m: sys.modules.pop(m) for m in _gconv_names()}
        sys.modules.update(self.world.modules)

    def __exit__(self, *exc):
        # modules imported lazily belong to the world
        for m in _gconv_names():
            self.world.modules[m] = sys.modules.pop(m)
        sys.modules.update(self.saved)


class Machine:
    """Installs an Env for the duration of a run."""

    def __init__(self, env: Env):
        self.env = env

    def __enter__(self):
        e = self.env
        self.saved = (time.time, time.monotonic, time.perf_counter, time.sleep,
                      os.urandom, tqdm.std.time, sys.stderr)
        time.time = time.monotonic = time.perf_counter = e.time
        time.sleep = e.sleep
        os.urandom = e.urandom
        tqdm.std.time = e.time
        sys.stderr = e.stderr
        # tqdm's own lock is shared between forked workers and leaks when a write fails
        tqdm.std.tqdm.set_lock(_real_rlock())
        return e

    def __exit__(self, *exc):
        (time.time, time.monotonic, time.perf_counter, time.sleep,
         os.urandom, tqdm.std.time, sys.stderr) = self.saved


def seed_all(seed: int):
    random.seed(seed)
    np.random.seed(seed & 0xFFFFFFFF)
    torch.manual_seed(seed & 0x7FFFFFFFFFFFFFFF)


def reset_torch():
    """Process-wide torch settings every run starts from."""
    torch.set_grad_enabled(True)
    torch.set_default_dtype(torch.float32)
    torch.use_deterministic_algorithms(False)
    torch.autograd.set_detect_anomaly(False)


def ambient() -> tuple:
    """Process-wide settings a library call must not change."""
    return (
        torch.is_grad_enabled(),
        torch.is_inference_mode_enabled(),
        str(torch.get_default_dtype()),
        torch.are_deterministic_algorithms_enabled(),
        torch.is_anomaly_enabled(),
        torch.get_num_threads(),
        torch.is_autocast_enabled(),
        torch.is_autocast_cpu_enabled(),
        torch.get_float32_matmul_precision(),
        str(np.geterr()),
        sys.getrecursionlimit(),
        tuple(os.environ.items()),
        os.getcwd(),
        len(warnings.filters),
        torch.is_autocast_cache_enabled(),
        str(torch.get_autocast_dtype("cpu")),
        torch.is_warn_always_enabled(),
        torch.backends.cudnn.enabled, torch.backends.cudnn.benchmark, torch.backends.cudnn.deterministic,
        torch.backends.mkldnn.enabled,
        torch.get_default_device() if hasattr(torch, "get_default_device") else None,
        torch._C._is_multithreading_enabled(),
        str(torch._tensor_str.PRINT_OPTS),
        float("1e-310") * float(1) > 0,      # denormal numbers are kept
        gc.isenabled(), gc.get_threshold(),
        sys.getswitchinterval(),
        signal.getsignal(signal.SIGINT),
        locale.setlocale(locale.LC_ALL),
    )


_warm = False


def warm():
    """Pay for lazy imports (optimizers, JIT) before runs and forks."""
    global _warm
    if _warm:
        return
    _warm = True
    w = World()
    with Machine(Env()), w.activate():
        seed_all(0)
        w.so3.uniform_grid(26, steps=2)
        lay = w.gnn.GSeparableConvSE3(1, 1, 3, 2)
        x = torch.randn(1, 1, 2, 3, 3, 3)
        y, _ = lay(x, lay.kernel.grid_H)
        y.sum().backward()
