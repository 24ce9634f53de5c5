"""C19: features are the group convolution with the interpolated kernel."""
from __future__ import annotations

import math

import torch
import torch.nn.functional as F

from .. import poses
from ..common import *  # noqa: F401,F403
from ..seams import is_sim
from ..world import World
from . import c01

ID = "C19"
QUICK = 2600
THOROUGH = 20000
RULE = ("A run drives one layer through a history of calls (ordinary and boundary draws, failed and repeated calls) interleaved with "
        "parameter updates, checkpoint restores of other reference grids, dtype moves and mode switches; a reference model of a few "
        "dozen lines in double precision, fed with the layer's state dictionary and the poses the layer returned, predicts the "
        "features. Non-trivial: a drawn pose other than the identity was compared.")
STATES = "hash of (family, kind, sampling, padding, poses, events)"
LISTS = ("calls",)
STUBS = "the draws (boundary draws only); os.urandom, terminal. The oracle is the simulator's own model of the layer"


def gen(rng, tier):
    cfg = gen_cfg(rng, dtypes=("f32", "f64", "f64"))
    cfg["permute"] = rng.chance(0.85)
    if rng.chance(0.06) and cfg["fam"] == "SE2":
        cfg["gk"] = 1
    if rng.chance(0.1) and cfg["fam"] == "E2":
        cfg["gk"] = rng.pick([[1, 3], [4, 1], [2, 5]])
    if cfg["kind"] != "lift":
        # widths within the well-conditioned range
        cfg["width"] = rng.wpick([(0.0, 6), (0.4, 1), (0.6, 1)])
    calls = []
    for _ in range(rng.pick([1, 2, 3, 4])):
        c = gen_call(rng, cfg)
        c["draws"] = draw_spec(rng, 0.2)
        c["event"] = rng.wpick([(None, 6), ("inplace", 1), ("load", 1), ("regrid", 2), ("move", 1)])
        c["eseed"] = rng.seed63()
        c["fault"] = [rng.pick(["alloc", "oom", "interrupt"]), rng.randrange(1, 80)] if rng.chance(0.15) else None
        calls.append(c)
    return dict(cfg=cfg, calls=calls)


# ------------------------------------------------------------ reference model


def half_angle(fam, A, B):
    """Distance the kernels are interpolated with; inf between components."""
    d = poses.geo(fam, A, B)
    return d if poses.dim(fam) == 2 else d / 2


def nearest_rotation(M):
    """The orthogonal matrices closest to M, and how far M is from them: the
    grids shipped with the library are rounded to four digits."""
    U, _, V = torch.linalg.svd(M)
    R = U @ V
    return R, float((R - M).abs().max()) if len(M) else 0.0


def rel_dist(fam, rel, G):
    if fam == "E2":
        return angle_dist(poses.from_mat(fam, rel, torch.float64), poses.from_mat(fam, G, torch.float64))
    return half_angle(fam, rel, G)


def basis(cfg, G, rel, split):
    """(weights of each reference element for each relative pose, condition number)."""
    fam = cfg["fam"]
    D = rel_dist(fam, rel, G)                     # (n, L)
    if cfg["gmode"] == "nearest":
        out = torch.zeros_like(D)
        out[torch.arange(len(D)), D.argmin(-1)] = 1.0
        return out, 1.0
    out = torch.zeros_like(D)
    cond = 1.0
    parts = [slice(0, len(G))] if split is None else [slice(0, split), slice(split, len(G))]
    for i, s in enumerate(parts):
        g = G[s]
        if not len(g):
            continue
        gg = rel_dist(fam, g, g)
        w = cfg["width"] * (1.1 if i else 1.0)
        if not w:
            off = gg + torch.diag(torch.full((len(g),), math.inf, dtype=gg.dtype))
            w = 0.8 * float(off.min(-1)[0].mean())
        f = lambda d: torch.exp(-math.log(2) * d * d / (w * w)) if math.isfinite(w) else torch.ones_like(d)
        m = f(gg)
        cond = max(cond, float(torch.linalg.cond(m)))
        hit = torch.isfinite(D[:, s]).all(-1)
        out[hit, s] = f(D[hit, s]) @ torch.linalg.inv(m)
    return out, cond


def space_grid(cfg):
    """Kernel offsets as points, in the coordinates the group acts on."""
    k = cfg["k"]
    ax = torch.linspace(-1, 1, k, dtype=torch.float64) if k > 1 else torch.zeros(1, dtype=torch.float64)
    if poses.dim(cfg["fam"]) == 2:
        i, j = torch.meshgrid(ax, ax, indexing="ij")
        return torch.stack((i, j), -1)
    i, j, l = torch.meshgrid(ax, ax, ax, indexing="ij")
    return torch.stack((l, j, i), -1)


def spatial(cfg, w, g):
    """Spatial weights w (C, k...) turned by g, masked."""
    X = space_grid(cfg)
    P = (torch.linalg.inv(g) @ X[..., None])[..., 0]
    if poses.dim(cfg["fam"]) == 2:
        P = P.flip(-1)                            # (row, column) -> grid_sample's (x, y)
    out = F.grid_sample(w[None], P[None], mode=cfg["smode"], padding_mode=cfg["spad"], align_corners=False)[0]
    if cfg["mask"]:
        r = X.norm(dim=-1)
        out = out * (r <= max(1.1, float(r.min()) + 1e-9))
    # how far the sampling is from a jump
    return out, P


def conv(cfg, x, K, groups):
    D = poses.dim(cfg["fam"])
    p = cfg["padding"]
    tot = cfg["dilation"] * (cfg["k"] - 1)
    pads = (p, p) if isinstance(p, int) else ((tot // 2, tot - tot // 2) if p == "same" else (0, 0))
    mode = {"zeros": "constant"}.get(cfg["pmode"], cfg["pmode"])
    if sum(pads):
        x = F.pad(x, [q for _ in range(D) for q in pads], mode=mode)
    f = F.conv2d if D == 2 else F.conv3d
    return f(x, K, None, cfg["stride"], 0, cfg["dilation"], groups)


def model(cfg, state, x, Hin, H, arr):
    """Features at the output poses H; arr: how stored weights are laid out."""
    fam = cfg["fam"]
    D = poses.dim(fam)
    st = {k: v.detach().double() for k, v in state.items() if v.is_floating_point()}
    x = x.detach().double()
    gs, off = nearest_rotation(poses.to_mat(fam, H))
    swap, turn = arr
    ci, co, ng = cfg["cin"] // cfg["groups"], cfg["cout"], cfg["groups"]
    k = (cfg["k"],) * D
    W = st["kernel.weight"]
    if turn:
        W = W.transpose(-1, -2)
    cond = 1.0
    outs = []
    if cfg["kind"] != "lift":
        G, o1 = nearest_rotation(poses.to_mat(fam, st["kernel.grid_H"]))
        hs, o2 = nearest_rotation(poses.to_mat(fam, Hin))
        off = max(off, o1, o2)
        split = gk_pair(cfg)[0] if fam in ("E2", "E3") else None
    for g in gs:
        if cfg["kind"] == "lift":
            K = spatial(cfg, W.reshape(co * ci, *k), g)[0].reshape(co, ci, *k)
            outs.append(conv(cfg, x, K, ng))
            continue
        b, c = basis(cfg, G, torch.linalg.inv(g) @ hs, split)    # (nin, L)
        cond = max(cond, c)
        n = len(hs)
        L = len(G)
        V = st["kernel.weight_H"] if cfg["kind"] == "sep" else W
        tail = V.shape[3:]
        V = V.reshape(L, ci, co, *tail).transpose(1, 2) if swap else V
        Kh = torch.einsum("hl,loi...->oih...", b, V)             # (co, ci, nin, k...)
        if cfg["kind"] == "sep":
            S = spatial(cfg, W.reshape(co, *k), g)[0]            # (co, k...)
            K = Kh.reshape(co, ci, n, *[1] * D) * S.reshape(co, 1, 1, *k)
        else:
            K = spatial(cfg, Kh.reshape(co * ci * n, *k), g)[0].reshape(co, ci, n, *k)
        outs.append(conv(cfg, x.flatten(1, 2), K.reshape(co, ci * n, *k), ng))
    y = torch.stack(outs, 2)
    if st.get("bias") is not None:
        y = y + st["bias"].reshape(1, co, 1, *[1] * D)
    return y, cond, off


def jumps(cfg, H):
    """Whether nearest spatial sampling is near a tie for some offset."""
    if cfg["smode"] != "nearest":
        return False
    X = space_grid(cfg).reshape(-1, poses.dim(cfg["fam"]))
    for g in poses.to_mat(cfg["fam"], H):
        P = X @ torch.linalg.inv(g).T
        pix = ((P + 1) * cfg["k"] - 1) / 2
        fr = (pix - pix.floor() - 0.5).abs()
        if bool((fr < 1e-4).any()):
            return True
    return False


# ----------------------------------------------------------------------- run


def regrid(cfg, lay, seed):
    """A checkpoint of the same configuration with another reference grid."""
    r = Rng("regrid", seed)
    n = gk_total(cfg)
    ref = None
    if cfg["fam"] in ("E2", "E3"):
        a, b = gk_pair(cfg)
        ref = [False] * a + [True] * b
    lim = (2 * math.pi / max(2, n) * 0.45) if poses.dim(cfg["fam"]) == 2 else 0.5
    M = poses.spread_mats(cfg["fam"], n, r, lim, reflect=ref)
    if M is None:
        return None
    return poses.from_mat(cfg["fam"], M, lay.kernel.grid_H.dtype)


def run(plan, ctx):
    cfg = plan["cfg"]
    fam = cfg["fam"]
    w = World()
    warm_builds(ctx, w, cfg)
    lay = sut(ctx, "build " + cfg["kind"], lambda: build(w, cfg), w)
    warm_up(ctx, w, lay, cfg)
    dt = DT[cfg["dtype"]]
    arrs = [(a, b) for a in ((False, True) if cfg["kind"] != "lift" else (False,)) for b in (False, True)]
    ctx.h.update(b"c19")
    low = cfg["dtype"] == "f32"
    for i, c in enumerate(plan["calls"]):
        what = f"call {i} of {cfg['kind']}{fam}"
        e = c["event"]
        if e in ("inplace", "load"):
            c01.update(lay, e, c["eseed"])
        elif e == "regrid":
            g = regrid(cfg, lay, c["eseed"])
            if g is not None:
                sd = {k: v.detach().clone() for k, v in lay.state_dict().items()}
                sd["kernel.grid_H"] = g
                how = c["eseed"] % 4
                if how == 1:                 # the grid alone, or all but the weights
                    sd = {"kernel.grid_H": g}
                elif how == 2:
                    sd = {k: v for k, v in sd.items() if "weight" not in k}
                kw = [{}, dict(strict=False), dict(strict=False), dict(assign=True)][how]
                sut(ctx, "load", lambda: lay.load_state_dict(sd, **kw), w)
        elif e == "move" and dt == torch.float64:
            # through single precision and back, as saving memory does
            sut(ctx, "move", lambda: lay.float().double(), w)
        if e:
            ctx.probes["event_" + e] += 1
        args, H = call_args(lay, cfg, c)
        (lay.train if c["hist"] == "train" else lay.eval)()
        if c["fault"]:
            try:
                sut(ctx, "forward", lambda: forward(lay, args, H), w, fault=tuple(c["fault"]))
            except BaseException as ex:
                if not is_sim(ex):
                    raise
        with torch.set_grad_enabled(not c["nograd"]):
            y, Ho = sut(ctx, "forward", lambda: forward(lay, args, H), w, draws=c["draws"])
        Ho = Ho.detach()
        Hin = None if cfg["kind"] == "lift" else args[1].detach()
        if not nearest_margin_ok(lay, cfg, Hin if Hin is not None else Ho, Ho, 1e-4) or jumps(cfg, Ho):
            ctx.probes["tie"] += 1
            continue
        st = {k: v for k, v in lay.state_dict().items()}
        best = None
        keep = []
        for a in arrs:
            want, cond, off = model(cfg, st, args[0], Hin, Ho, a)
            if want.shape != y.shape:
                raise Violation("shape", f"{what}: features of shape {tuple(y.shape)}, the model's are {tuple(want.shape)}")
            if cond > 1e4:
                raise Skip("ill-conditioned interpolation")
            eps = (1e-3 + 2e-5 * cond if low else 1e-4 + 2e-6 * cond) + off * (20 + 5 * cond)
            d = reldiff(y, want)
            ctx.metrics["rel" + cfg["dtype"]] = max(ctx.metrics.get("rel" + cfg["dtype"], 0.0), min(d / eps, 10.0) if d < eps else 0.0)
            best = d if best is None else min(d, best)
            if d <= eps:
                keep.append(a)
        if not keep:
            raise Violation("features", f"{what} (draws {c['draws']}): differs from the group convolution with the interpolated kernel by {best:.3g} (relative; allowed {eps:.1g})")
        arrs = keep
        ident = (poses.to_mat(fam, Ho) - torch.eye(poses.dim(fam), dtype=torch.float64)).abs().max().item() < 1e-3
        ctx.nontrivial |= not ident
        ctx.ev(i, sig(y), sig(Ho))
        ctx.state(f"{fam}{cfg['kind']}{cfg['smode']}{cfg['pmode']}{cfg.get('gmode')}{c.get('H')}{c.get('Hout')}{e}{c['draws']}")
    ctx.h.update(str(arrs).encode())
