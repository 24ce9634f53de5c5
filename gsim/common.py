"""Layer configurations, building, calling and comparing."""
from __future__ import annotations

import math

import torch
from torch import nn

from . import poses
from .core import Ctx, HarnessError, Rng, Skip, Violation, brief, from_repo
from .seams import Seam, StepLimit, is_sim  # noqa: F401
from .world import ambient

DT = {"f32": torch.float32, "f64": torch.float64}


# ------------------------------------------------------------------ SUT calls


def sut(ctx, label, fn, world=None, allow=(), **seam):
    """Runs library code under the tensor seam. Whatever it raises without an
    injected fault is a violation; injected faults propagate."""
    s = Seam(ctx, **seam)
    try:
        with s:
            if world is not None:
                with world.activate():
                    out = fn()
            else:
                out = fn()
    except StepLimit:
        raise Violation("no-progress", f"{label}: tensor operations without end")
    except (Violation, HarnessError, Skip):
        raise
    except BaseException as e:
        if is_sim(e) or isinstance(e, allow):
            raise
        if isinstance(e, Exception):
            raise Violation("exception", f"{label} raised {brief(e)}")
        raise
    finally:
        ctx.ops[label.split(" ")[0]] += 1
        ctx.steps += s.n
        seam_last[0] = s
    return out


seam_last = [None]


# ------------------------------------------------------------- configurations


def gen_cfg(rng: Rng, kinds=("lift", "sep", "full"), fams=poses.FAM, small=True,
            nearest_ok=True, sym=False, dtypes=("f32", "f64"), cin=None, uncached=False,
            custom=True, strides=True):
    """A layer configuration as plain data. sym: spatial geometry is symmetric
    under the lattice, for a spatial size chosen in cfg['size']."""
    fam = rng.pick(fams)
    kind = rng.pick(kinds)
    D = poses.dim(fam)
    groups = rng.wpick([(1, 6), (2, 2), (3, 1)])
    ci = cin if cin is not None else groups * rng.pick([1, 1, 2, 3] if D == 2 else [1, 1, 2])
    if ci % groups:
        groups = 1
    co = groups * rng.pick([1, 2, 3] if D == 2 else [1, 1, 2])
    k = rng.wpick([(3, 5), (1, 1), (2, 1), (4, 1), (5, 3)]) if D == 2 else \
        rng.wpick([(3, 6), (1, 1), (2, 1), (5, 1)])
    if fam in ("SE2",):
        gk = rng.wpick([(4, 4), (2, 1), (3, 1), (5, 1), (6, 1), (8, 1)])
    elif fam == "SE3":
        gk = rng.wpick([(4, 4), (2, 1), (3, 1), (5, 1), (8, 1)]) if not uncached else rng.pick([25, 26])
    else:
        a, b = rng.pick([2, 3, 4, 4, 5]), rng.pick([2, 3, 4, 4])
        gk = rng.wpick([([a, b], 4), (rng.pick([2, 3, 4]), 2)])
        if uncached and fam == "E3":
            gk = [25, rng.pick([2, 3, 25])]
    big = not uncached and rng.chance(0.05)
    if big:
        # more elements than anything tuned to small grids expects
        gk = {"SE2": rng.pick([12, 16]), "SE3": rng.pick([12, 17, 24]), "E2": [rng.pick([9, 12]), rng.pick([2, 9])],
              "E3": [rng.pick([2, 12]), 9]}[fam]
        k = min(k, 3)
    elif not uncached and rng.chance(0.04):
        # kernels wider than anyone tunes for
        # (torch computes wrong weight gradients for 3-D kernels from 6 on)
        k = rng.pick([6, 7, 8, 9] if D == 2 else [4])
        ci, co = groups, groups
        if cin is not None and cin % groups == 0:
            ci = cin
    elif not uncached and cin is None and rng.chance(0.03):
        # more channels than anything tuned to thin layers expects
        groups = rng.pick([1, 4, 8] if D == 2 else [1, 4])
        ci, co = groups * rng.pick([1, 2, 5]), groups * rng.pick([1, 2, 5])
        if groups == 1:
            ci, co = rng.pick([(17, 1), (1, 17), (9, 9), (33, 2), (2, 33)] if D == 2 else [(9, 1), (1, 17), (17, 2)])
        k = min(k, 3)
    cfg = dict(fam=fam, kind=kind, cin=ci, cout=co, k=k, gk=gk, groups=groups,
               bias=rng.chance(0.4), mask=rng.chance(0.75),
               dtype=rng.pick(dtypes), permute=True)
    cfg["pmode"] = rng.wpick([("zeros", 5), ("circular", 2), ("replicate", 1), ("reflect", 1)])
    cfg["dilation"] = rng.wpick([(1, 24), (2, 4), (3, 1 if k <= 3 else 0)])
    cfg["padding"] = rng.pick([0, 1, 2, k // 2])
    if cfg["padding"] >= 4:
        cfg["padding"] = 1
    cfg["stride"] = rng.wpick([(1, 20), (2, 8), (3, 1)]) if strides else 1
    if not sym and rng.chance(0.1) and cfg["stride"] == 1:
        cfg["padding"] = rng.pick(["same", "valid"])
    cfg["spad"] = rng.wpick([("border", 6), ("zeros", 1), ("reflection", 1)])
    cfg["smode"] = "bilinear" if sym else rng.wpick([("bilinear", 6), ("nearest", 1)])
    if kind != "lift":
        cfg["gmode"] = "nearest" if nearest_ok and rng.chance(0.2) else "rbf"
        cfg["width"] = rng.wpick([(0.0, 5), (0.7, 1), (1.1, 1)])
        if big:
            cfg["width"] = 0.0
    cfg["grid"] = None
    if custom and rng.chance(0.3):
        cfg["grid"] = dict(seed=rng.seed63(), rot=rng.chance(0.5))
    # spatial size: valid for k, dilation, padding; symmetric if asked for
    s = cfg["stride"]
    p = cfg["padding"] if isinstance(cfg["padding"], int) else 0
    ke = cfg["dilation"] * (k - 1) + 1
    lo = max(ke - 2 * p, 3, p + 1)
    size = lo + rng.pick([0, 1, 2, 3] if D == 2 else [0, 1, 2])
    if sym:
        while (size + 2 * p - ke) % s:
            size += 1
    cfg["size"] = size
    # what the layer has been through before the run looks at it
    cfg["warm"] = None
    if not uncached and rng.chance(0.02):
        cfg["warm"] = dict(n=rng.wpick([(12, 2), (36, 3), (70, 2), (135, 1)]) if D == 2 else rng.wpick([(12, 2), (36, 3), (70, 1)]),
                           how=rng.pick(["calls", "calls", "same", "builds"]), seed=rng.seed63())
    return cfg


def gk_total(cfg):
    gk = cfg["gk"]
    if cfg["fam"] in ("E2", "E3"):
        a, b = (gk, gk) if isinstance(gk, int) else gk
        return a + b
    return gk


def gk_pair(cfg):
    gk = cfg["gk"]
    return (gk, gk) if isinstance(gk, int) else tuple(gk)


def custom_grid(cfg, dtype=torch.float32):
    """The reference grid given by the caller: rotations first, then reflections."""
    fam = cfg["fam"]
    r = Rng("grid", cfg["grid"]["seed"])
    n = gk_total(cfg)
    ref = None
    if fam in ("E2", "E3"):
        a, b = gk_pair(cfg)
        ref = [False] * a + [True] * b
    lim = (2 * math.pi / max(2, n) * 0.45) if poses.dim(fam) == 2 else 0.5
    M = poses.spread_mats(fam, n, r, lim, reflect=ref)
    if M is None:
        raise Skip("no spread grid")
    return poses.from_mat(fam, M, dtype)


NAMES = {"lift": "GLiftingConv", "sep": "GSeparableConv", "full": "GConv"}


def layer_kwargs(cfg):
    kw = dict(in_channels=cfg["cin"], out_channels=cfg["cout"], kernel_size=cfg["k"],
              groups=cfg["groups"], stride=cfg["stride"], padding=cfg["padding"],
              dilation=cfg["dilation"], padding_mode=cfg["pmode"], bias=cfg["bias"],
              mask=cfg["mask"])
    gk = cfg["gk"]
    kw["group_kernel_size"] = tuple(gk) if isinstance(gk, (list, tuple)) else gk
    if cfg["kind"] == "lift":
        kw["sampling_mode"] = cfg["smode"]
        kw["sampling_padding_mode"] = cfg["spad"]
    else:
        kw["spatial_sampling_mode"] = cfg["smode"]
        kw["spatial_sampling_padding_mode"] = cfg["spad"]
        kw["group_sampling_mode"] = cfg["gmode"]
        if cfg["width"]:
            if cfg["fam"] in ("E2", "E3"):
                kw["group_rotation_sampling_width"] = cfg["width"]
                kw["group_reflection_sampling_width"] = cfg["width"] * 1.1
            else:
                kw["group_sampling_width"] = cfg["width"]
    if cfg.get("tuplegk") and not isinstance(gk, list):
        pass
    return kw


def build(world, cfg, permute=None, grid=None):
    """Constructs the layer (call inside sut)."""
    cls = getattr(world.gnn, NAMES[cfg["kind"]] + cfg["fam"])
    kw = layer_kwargs(cfg)
    kw["permute_output_grid"] = cfg["permute"] if permute is None else permute
    if cfg["grid"] is not None:
        kw["grid_H"] = custom_grid(cfg) if grid is None else grid
    lay = cls(**kw)
    if cfg["dtype"] == "f64":
        lay = lay.double()
    return lay


def build_pair(ctx, world, twin_world, cfg):
    """A layer and its twin with randomisation off in another world."""
    warm_builds(ctx, world, cfg)
    lay = sut(ctx, "build " + cfg["kind"], lambda: build(world, cfg), world)
    warm_up(ctx, world, lay, cfg)
    if twin_world is None:
        return lay, None
    tw = sut(ctx, "build twin", lambda: build(twin_world, cfg, permute=False), twin_world)
    copy_params(lay, tw)
    return lay, tw


def warm_up(ctx, world, lay, cfg):
    """A long life before the run: many calls of the layer, alike or each with
    other shapes and poses."""
    wm = cfg.get("warm")
    if not wm or wm["how"] == "builds":
        return
    dt = DT[cfg["dtype"]]
    D = poses.dim(cfg["fam"])
    p = cfg["padding"] if isinstance(cfg["padding"], int) else 0
    lo = max(cfg["dilation"] * (cfg["k"] - 1) + 1 - 2 * p, p + 1)
    state = torch.get_rng_state()

    def go():
        for i in range(wm["n"]):
            j = 0 if wm["how"] == "same" else i
            size = (lo + (j % 3 if D == 2 else j % 2),) * D
            n, m = 1 + j % 2, 1 + j % 3
            poses_ = [make_poses(dict(seed=wm["seed"] + j + q, n=v, how="rand"), cfg["fam"], dt) for q, v in ((0, n), (7, m))]
            x = tensor(wm["seed"] + j, (1, cfg["cin"], *(() if cfg["kind"] == "lift" else (n,)), *size), dt)
            with torch.no_grad():
                lay(x, poses_[1]) if cfg["kind"] == "lift" else lay(x, *poses_)
    sut(ctx, "warm up", go, world)
    torch.set_rng_state(state)
    ctx.probes["warm_" + wm["how"]] += 1


def warm_builds(ctx, world, cfg):
    """Many layers of its kind built and dropped before."""
    wm = cfg.get("warm")
    if not wm or wm["how"] != "builds":
        return
    state = torch.get_rng_state()

    def go():
        for i in range(wm["n"]):
            build(world, dict(cfg, k=min(cfg["k"], 2 + i % 2), grid=None))
    sut(ctx, "warm up", go, world)
    torch.set_rng_state(state)
    ctx.probes["warm_builds"] += 1


def copy_params(src, dst):
    """Gives dst the parameters and reference grid of src without going through
    the library's own load hooks being the thing under test."""
    dst.load_state_dict({k: v.detach().clone() for k, v in src.state_dict().items()})


# -------------------------------------------------------------- inputs, poses


def tensor(seed, shape, dtype, kind="normal"):
    """Deterministic data that does not touch torch's global generator."""
    g = torch.Generator().manual_seed(seed & 0x7FFFFFFFFFFF)
    x = torch.randn(shape, generator=g, dtype=torch.float64)
    if kind == "pos":
        x = x.abs() + 0.1
    elif kind == "sparse":
        x = x * (torch.rand(shape, generator=g, dtype=torch.float64) < 0.3)
    return x.to(dtype)


def layout(x, how):
    """The same values in another memory layout."""
    if how == "strided":
        y = torch.empty(*x.shape[:-1], x.shape[-1] * 2, dtype=x.dtype)
        y.zero_()
        y[..., ::2] = x
        return y[..., ::2]
    if how == "perm":
        return x.transpose(-1, -2).contiguous().transpose(-1, -2)
    if how == "offset":
        b = torch.zeros(x.numel() + 3, dtype=x.dtype)
        b[3:] = x.reshape(-1)
        return b[3:].reshape(x.shape)
    return x


def gen_poses(rng: Rng, cfg, n=None):
    few = rng.pick([1, 2, 3, 4, 5]) if not rng.chance(0.03) else rng.pick([9, 17, 17, 33, 66])
    if few > 17 and (cfg["k"] > 3 or cfg["size"] > 6):
        few = 17
    return dict(seed=rng.seed63(), n=n if n is not None else few,
                how=rng.wpick([("rand", 4), ("lattice", 1), ("spread", 2), ("dup", 1)]),
                lay=rng.wpick([("plain", 7), ("strided", 1), ("perm", 1), ("offset", 1)]))


def make_poses(spec, fam, dtype):
    r = Rng("poses", spec["seed"])
    n = spec["n"]
    if spec["how"] == "lattice":
        L = poses.lattice(fam)
        M = torch.stack([r.pick(L) for _ in range(n)])
    elif spec["how"] == "spread":
        M = poses.spread_mats(fam, n, r, 0.3)
        if M is None:
            M = poses.rand_mats(fam, n, r)
    elif spec["how"] == "dup":
        M = poses.rand_mats(fam, n, r)
        M[-1] = M[0]
    else:
        M = poses.rand_mats(fam, n, r)
    return layout(poses.from_mat(fam, M, dtype), spec.get("lay"))


def feat_shape(cfg, batch, nH):
    sp = (cfg["size"],) * poses.dim(cfg["fam"])
    if cfg["kind"] == "lift":
        return (batch, cfg["cin"], *sp)
    return (batch, cfg["cin"], nH, *sp)


def gen_call(rng: Rng, cfg, batch=None, plain=False):
    """One forward call as data."""
    c = dict(xseed=rng.seed63(), batch=batch or (rng.wpick([(1, 3), (2, 3), (3, 1)]) if not rng.chance(0.02) else rng.pick([8, 9, 33, 66, 129])),
             lay=rng.wpick([("plain", 5), ("strided", 1), ("perm", 1), ("offset", 1)]) if not plain else "plain",
             hist=rng.wpick([("train", 3), ("eval", 1)]), nograd=rng.chance(0.25) if not plain else False)
    if cfg["kind"] == "lift":
        c["H"] = None if rng.chance(0.5) else gen_poses(rng, cfg)
    else:
        c["Hin"] = "own" if rng.chance(0.3) else gen_poses(rng, cfg)
        c["Hout"] = None if rng.chance(0.5) else gen_poses(rng, cfg)
    return c


def own_grid(lay):
    return lay.kernel.grid_H.detach().clone()


def call_args(lay, cfg, c):
    """(x, [in_H], requested output poses or None)."""
    dt = DT[cfg["dtype"]]
    fam = cfg["fam"]
    if cfg["kind"] == "lift":
        x = layout(tensor(c["xseed"], feat_shape(cfg, c["batch"], 0), dt), c["lay"])
        H = None if c["H"] is None else make_poses(c["H"], fam, dt)
        return (x,), H
    Hin = own_grid(lay) if c["Hin"] == "own" else make_poses(c["Hin"], fam, dt)
    x = layout(tensor(c["xseed"], feat_shape(cfg, c["batch"], Hin.shape[0]), dt), c["lay"])
    Hout = None if c["Hout"] is None else make_poses(c["Hout"], fam, dt)
    return (x, Hin), Hout


def default_out(lay, cfg, args):
    """Documented default output poses when none are requested."""
    if cfg["kind"] == "lift":
        return own_grid(lay)
    if cfg["fam"] in ("SE2", "SE3"):
        return args[1]
    return own_grid(lay)


def forward(lay, args, H):
    return lay(*args) if H is None else lay(*args, H)


# ------------------------------------------------------------------ comparing


def tol(dtype, f32=1e-3, f64=1e-6):
    return f64 if dtype in ("f64", torch.float64) else f32


def reldiff(a, b, scale=None):
    a, b = a.detach().double(), b.detach().double()
    if a.shape != b.shape:
        return float("inf")
    if a.numel() == 0:
        return 0.0
    d = (a - b).abs().max().item()
    if math.isnan(d):
        same_nan = torch.equal(torch.isnan(a), torch.isnan(b))
        if not same_nan:
            return float("inf")
        m = ~torch.isnan(a)
        if not m.any():
            return 0.0
        d = (a[m] - b[m]).abs().max().item()
        if math.isnan(d):
            return 0.0 if torch.equal(a[m], b[m]) else float("inf")
    s = max(a[torch.isfinite(a)].abs().max().item() if torch.isfinite(a).any() else 0.0,
            b[torch.isfinite(b)].abs().max().item() if torch.isfinite(b).any() else 0.0,
            scale or 0.0, 1e-12)
    return d / s


def expect_close(kind, what, a, b, rtol, scale=None):
    if a.shape != b.shape:
        raise Violation(kind, f"{what}: shape {tuple(a.shape)} instead of {tuple(b.shape)}")
    d = reldiff(a, b, scale)
    if not d <= rtol:
        raise Violation(kind, f"{what}: differs by {d:.3g} (relative; allowed {rtol:.1g})")


def pose_err(fam, A, B):
    """Largest entry difference of the elements' matrices."""
    if A.shape != B.shape:
        return float("inf")
    if A.numel() == 0:
        return 0.0
    d = (poses.to_mat(fam, A) - poses.to_mat(fam, B)).abs().max().item()
    return float("inf") if math.isnan(d) else d


def single_translate(fam, Hreq, Hgot, what, kind="poses"):
    """Checks Hgot = r.Hreq for one valid r; returns r as a matrix."""
    if Hgot.shape != Hreq.shape:
        raise Violation(kind, f"{what}: poses of shape {tuple(Hgot.shape)} for {tuple(Hreq.shape)} requested")
    if Hreq.shape[0] == 0:
        return None
    if not torch.isfinite(Hgot).all():
        raise Violation(kind, f"{what}: non-finite poses")
    A, B = poses.to_mat(fam, Hreq), poses.to_mat(fam, Hgot)
    r = B[0] @ torch.linalg.inv(A[0])
    e = (r @ A - B).abs().max().item()
    if not e < 2e-4:
        raise Violation(kind, f"{what}: returned poses are not one left-translate of the requested ones (error {e:.3g})")
    D = poses.dim(fam)
    o = (r @ r.T - torch.eye(D, dtype=r.dtype)).abs().max().item()
    if not o < 1e-3:
        raise Violation(kind, f"{what}: the drawn element is not orthogonal (error {o:.3g})")
    if fam in ("SE2", "SE3") and torch.det(r) < 0:
        raise Violation(kind, f"{what}: the drawn element is a reflection")
    if fam in ("E2", "E3"):
        c = Hgot[:, 0]
        if not bool(((c == 1) | (c == -1)).all()):
            raise Violation(kind, f"{what}: reflection coefficients {c.tolist()}")
    return r


def nearest_margin_ok(lay, cfg, Hin, Hout, margin=1e-3):
    """Whether nearest-neighbour group sampling has no (near) ties here."""
    if cfg["kind"] == "lift" or cfg.get("gmode") != "nearest":
        return True
    fam = cfg["fam"]
    A = poses.to_mat(fam, Hin)
    B = poses.to_mat(fam, Hout)
    G = poses.to_mat(fam, own_grid(lay))
    rel = (torch.linalg.inv(B)[:, None] @ A[None]).reshape(-1, poses.dim(fam), poses.dim(fam))
    if poses.dim(fam) == 2 and fam == "E2":
        # angle coordinate is what the library compares
        d = angle_dist(poses.from_mat(fam, rel, torch.float64), poses.from_mat(fam, G, torch.float64))
    else:
        d = poses.geo(fam, rel, G)
    d = torch.nan_to_num(d, posinf=1e9)
    s = d.sort(-1)[0]
    if s.shape[-1] < 2:
        return True
    return bool(((s[:, 1] - s[:, 0]) > margin).all())


def angle_dist(P, Q):
    d = (P[:, None, 1] - Q[None, :, 1]).abs() % (2 * math.pi)
    d = torch.minimum(d, 2 * math.pi - d)
    return torch.where(P[:, None, 0] == Q[None, :, 0], d, torch.full_like(d, float("inf")))


# -------------------------------------------------------------------- states


def tensor_sig(t):
    return (tuple(t.shape), str(t.dtype), t.detach().cpu().clone(), t.requires_grad)


def snap_module(m: nn.Module):
    return {k: v.detach().clone() for k, v in list(m.named_parameters()) + list(m.named_buffers())}


def check_snap(m: nn.Module, snap, kind, what):
    cur = dict(list(m.named_parameters()) + list(m.named_buffers()))
    if set(cur) != set(snap):
        raise Violation(kind, f"{what}: parameters/buffers {sorted(set(cur) ^ set(snap))} appeared or vanished")
    for k, v in snap.items():
        c = cur[k].detach()
        if c.shape != v.shape or c.dtype != v.dtype or not same(c, v):
            raise Violation(kind, f"{what}: {k} changed")


def same(a, b):
    """Bitwise equality, NaNs equal."""
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.is_floating_point():
        na, nb = torch.isnan(a), torch.isnan(b)
        if na.any() or nb.any():
            return bool(torch.equal(na, nb)) and bool(torch.equal(a[~na], b[~nb]))
    return bool(torch.equal(a, b))


class ArgGuard:
    """Arguments of a call must come out as they went in."""

    def __init__(self, *ts):
        self.ts = [t for t in ts if isinstance(t, torch.Tensor)]
        self.snap = [(t.detach().clone(), t.requires_grad, t._version) for t in self.ts]

    def check(self, kind, what):
        for i, (t, (v, rg, _)) in enumerate(zip(self.ts, self.snap)):
            if not same(t.detach(), v):
                raise Violation(kind, f"{what}: argument {i} was modified")
            if t.requires_grad != rg:
                raise Violation(kind, f"{what}: argument {i} has requires_grad={t.requires_grad} now")


class Buffers:
    """A program that keeps its tensors in buffers and fills them anew: the
    same tensor objects, at the same addresses, with other values."""

    def __init__(self, on):
        self.on = bool(on)
        self.b = {}

    def put(self, name, t):
        if not self.on or t is None:
            return t
        key = (name, tuple(t.shape), t.dtype, t.stride())
        if key in self.b:
            with torch.no_grad():
                self.b[key].copy_(t)
        else:
            self.b[key] = t
        return self.b[key]


def reset_rng(seed):
    torch.manual_seed(seed & 0x7FFFFFFFFFFF)


def sig(*ts):
    """Short content hash for the event log (bit-exact)."""
    import hashlib
    h = hashlib.sha256()
    for t in ts:
        if isinstance(t, torch.Tensor):
            h.update(str(tuple(t.shape)).encode())
            h.update(t.detach().contiguous().cpu().numpy().tobytes())
        else:
            h.update(str(t).encode())
    return h.hexdigest()[:12]


def draw_spec(rng: Rng, p=0.3):
    """Boundary draws for a call, or None."""
    from .seams import NRM_PATTERNS, UNI_PATTERNS
    if not rng.chance(p):
        return None
    return dict(uniform=rng.pick(UNI_PATTERNS + [None, f"edge{rng.randrange(10000)}"]),
                normal=rng.pick(NRM_PATTERNS + [None, f"mag{rng.randrange(10000)}", f"mag{rng.randrange(10000)}"]),
                every=rng.pick([1, 1, 2]), off=rng.pick([0, 1]))
