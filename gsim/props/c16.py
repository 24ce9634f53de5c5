"""C16: layers respond at every pose with their default settings."""
from __future__ import annotations

import torch

from .. import poses
from ..common import *  # noqa: F401,F403
from ..world import World

ID = "C16"
QUICK = 900
THOROUGH = 12000
RULE = ("A run is one layer with default sampling widths and mask on any precomputed or generated grid, with weights as the library initialises them, "
        "and a history of calls at drawn, lattice, repeated and reference poses, some with boundary draws injected; the response of every output pose "
        "to every input pose and channel, and the energy every weight receives over the history, are compared with one another "
        "within wide bands. Non-trivial: at least one drawn pose was measured.")
STATES = "hash of (family, kind, grid sizes, kernel size, pose kinds, draw patterns)"
LISTS = ("calls",)


def gen(rng, tier):
    fam = rng.pick(poses.FAM)
    kind = rng.pick(["lift", "sep", "sep", "full"])
    D = poses.dim(fam)
    if fam == "SE2":
        gk = rng.pick([2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24])
    elif fam == "E2":
        gk = [rng.pick([2, 3, 4, 5, 8, 12]), rng.pick([2, 3, 4, 6, 8])]
    elif fam == "SE3":
        gk = rng.wpick([(rng.pick([2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 24]), 12), (rng.pick([25, 27]), 0.4)])
    else:
        gk = rng.wpick([([rng.pick([2, 3, 4, 6, 8, 12]), rng.pick([2, 3, 4, 5, 8])], 12), ([25, 2], 0.3)])
    groups = rng.wpick([(1, 3), (2, 1)])
    cfg = dict(fam=fam, kind=kind, cin=4, cout=4, k=rng.pick([1, 2, 3, 3, 4, 5, 5, 7] if D == 2 else [1, 2, 3, 3, 3, 4, 5]),
               gk=gk, groups=groups, bias=rng.chance(0.4), dtype=rng.pick(["f32", "f32", "f64"]), permute=rng.chance(0.8), grid=None)
    if D == 3 and cfg["k"] == 5 and kind == "full":
        cfg["k"] = 3
    n = gk if isinstance(gk, int) else sum(gk)
    if kind == "full" and D == 3 and n > 15:
        cfg["k"] = rng.pick([1, 2, 3])
    cfg["padding"] = rng.pick([0, cfg["k"] // 2])
    cfg["size"] = cfg["k"] + rng.pick([1, 2]) if D == 3 else cfg["k"] + rng.pick([2, 3])
    calls = []
    for _ in range(rng.pick([3, 4])):
        calls.append(dict(xseed=rng.seed63(), how=rng.wpick([("rand", 4), ("lattice", 1), ("own", 1), ("near", 1)]), hseed=rng.seed63(),
                          n=rng.pick([3, 5, 6]), m=rng.pick([2, 3, 4]), draws=draw_spec(rng, 0.25), train=rng.chance(0.5)))
    return dict(cfg=cfg, calls=calls, kwtuple=rng.chance(0.5), reinit=rng.chance(0.2))


def make(world, cfg, kwtuple):
    cls = getattr(world.gnn, NAMES[cfg["kind"]] + cfg["fam"])
    gk = tuple(cfg["gk"]) if isinstance(cfg["gk"], list) else cfg["gk"]
    kw = dict(in_channels=cfg["cin"], out_channels=cfg["cout"], kernel_size=cfg["k"], group_kernel_size=gk, groups=cfg["groups"],
              padding=cfg["padding"], bias=cfg["bias"], permute_output_grid=cfg["permute"])
    lay = cls(**kw)
    return lay.double() if cfg["dtype"] == "f64" else lay


def choose(c, cfg, lay, n, salt):
    fam = cfg["fam"]
    dt = DT[cfg["dtype"]]
    if c["how"] == "own":
        return own_grid(lay)
    if c["how"] == "near":
        # reference elements moved a little
        g = own_grid(lay)
        r = Rng("near", c["hseed"], salt)
        M = poses.to_mat(fam, g)
        R = poses.rand_mats("SE2" if poses.dim(fam) == 2 else "SE3", M.shape[0], r)
        E = torch.eye(M.shape[-1], dtype=R.dtype)
        Q, _ = torch.linalg.qr(E + 0.02 * (R - R.transpose(-1, -2)))
        Q = Q * torch.sign(torch.diagonal(Q, dim1=-2, dim2=-1))[:, None, :]
        return poses.from_mat(fam, Q.to(M.dtype) @ M, dt)
    return make_poses(dict(seed=c["hseed"] + salt, n=n, how=c["how"]), fam, dt)


def energy(y):
    """Root mean square over batch, channels and space, for every pose."""
    return y.detach().double().square().movedim(2, 0).flatten(1).mean(1).sqrt()


def run(plan, ctx):
    cfg = plan["cfg"]
    fam, kind, D = cfg["fam"], cfg["kind"], poses.dim(cfg["fam"])
    dt = DT[cfg["dtype"]]
    torch.manual_seed(plan["seed"] & 0x7FFFFFFF)
    w = World()
    what0 = f"{kind}{fam} with grid {cfg['gk']} and kernel size {cfg['k']}"
    lay = sut(ctx, "build", lambda: make(w, cfg, plan["kwtuple"]), w)
    if plan["reinit"]:
        sut(ctx, "reset", lay.kernel.reset_parameters, w)
    for n, t in list(lay.named_parameters()) + list(lay.named_buffers()):
        if not torch.isfinite(t).all():
            raise Violation("non-finite", f"{what0}: {n} is not finite after construction")
    with torch.no_grad():
        for n, p in lay.named_parameters():
            if n == "bias":
                p.zero_()
            else:
                # keeps chance zeros among the weights from looking like lost ones
                sd = p.std() if p.numel() > 1 else p.abs().mean()
                if not 1e-4 < sd < 100:
                    raise Violation("init", f"{what0}: {n} starts with size {sd:.3g}")
                p.add_(0.5 * sd * torch.where(p >= 0, 1.0, -1.0))
    ctx.state(f"{fam}{kind}{cfg['gk']}{cfg['k']}{[(c['how'], str(c['draws'])) for c in plan['calls']]}")
    en = {n: torch.zeros(p.shape, dtype=torch.float64) for n, p in lay.named_parameters()}
    sp = (cfg["size"],) * D
    nposes = set()
    gains = []
    lo_pair, hi_pair = 1 / 25, 15
    lo, hi = 1 / 6, 6
    for i, c in enumerate(plan["calls"]):
        what = f"call {i} of {what0}"
        Ho = choose(c, cfg, lay, c["n"], 1)
        lay.train(c["train"])
        if kind == "lift":
            x = tensor(c["xseed"], (3, cfg["cin"], *sp), dt)
            args = (x,)
        else:
            Hi = choose(c, cfg, lay, c["m"], 2)
            if kind == "full" and D == 3:
                Ho, Hi = Ho[:6], Hi[:5]
            x = tensor(c["xseed"], (3, cfg["cin"], Hi.shape[0], *sp), dt)
            args = (x, Hi)
        st = torch.get_rng_state()

        def go(*a):
            torch.set_rng_state(st)
            return sut(ctx, "forward", lambda: forward(lay, a, Ho), w, draws=c["draws"])
        y, H1 = go(*args)
        if not torch.isfinite(y).all():
            raise Violation("non-finite", f"{what}: features are not finite (draws {c['draws']})")
        e = energy(y)
        gains.append(e)
        med = e.median().item()
        if not med > 1e-6:
            raise Violation("dead", f"{what}: features of size {med:.3g} for inputs of size 1")
        if not med < 1e4:
            raise Violation("scale", f"{what}: features of size {med:.3g} for inputs of size 1")
        if e.min().item() < med * lo or e.max().item() > med * hi:
            raise Violation("dead" if e.min().item() < med * lo else "scale",
                            f"{what}: features per output pose between {e.min().item():.3g} and {e.max().item():.3g}, median {med:.3g}")
        ctx.metrics["out_lo"] = min(ctx.metrics.get("out_lo", 1.0), e.min().item() / med)
        ctx.metrics["out_hi"] = max(ctx.metrics.get("out_hi", 1.0), e.max().item() / med)
        # every input pose reaches every output pose
        if kind != "lift":
            m = x.shape[2]
            for j in range(min(m, 3)):
                z = torch.zeros_like(x)
                z[:, :, j] = x[:, :, j]
                ej = energy(go(z, args[1])[0]) * m ** 0.5
                if ej.min().item() < med * lo_pair or ej.max().item() > med * hi_pair:
                    raise Violation("dead" if ej.min().item() < med * lo_pair else "scale",
                                    f"{what}: input pose {j} alone gives features between {ej.min().item():.3g} and {ej.max().item():.3g}, all together {med:.3g}")
                ctx.metrics["pair_lo"] = min(ctx.metrics.get("pair_lo", 1.0), ej.min().item() / med)
                ctx.metrics["pair_hi"] = max(ctx.metrics.get("pair_hi", 1.0), ej.max().item() / med)
        # every input channel matters
        for ch in range(cfg["cin"]):
            z = torch.zeros_like(x)
            z[:, ch] = x[:, ch]
            ec = (energy(go(z, *args[1:])[0]).square().mean().sqrt() * cfg["cin"] ** 0.5).item()
            if ec < med / 20 or ec > med * 15:
                raise Violation("dead", f"{what}: input channel {ch} alone gives features of size {ec:.3g}, all together {med:.3g}")
            ctx.metrics["chan_lo"] = min(ctx.metrics.get("chan_lo", 1.0), ec / med)
        # every weight receives its share
        cc = tensor(c["xseed"] + 3, tuple(y.shape), dt)
        g = sut(ctx, "backward", lambda: torch.autograd.grad((cc * y).sum(), list(lay.parameters()), allow_unused=True), w)
        for (n, p), q in zip(lay.named_parameters(), g):
            if q is not None:
                if not torch.isfinite(q).all():
                    raise Violation("non-finite", f"{what}: the gradient of {n} is not finite")
                en[n] += q.detach().double().square() / max(1e-30, q.detach().double().square().mean().item())
        nposes.add(c["how"])
        ctx.nontrivial |= cfg["permute"] or c["how"] == "rand"
        ctx.ev(i, sig(y), sig(H1))
    # the scale over the history
    med = torch.stack([g.median() for g in gains])
    if (med.max() / med.min()).item() > 15:
        raise Violation("scale", f"{what0}: the size of features went from {med.min().item():.3g} to {med.max().item():.3g} between calls")
    ctx.metrics["hist"] = max(ctx.metrics.get("hist", 1.0), (med.max() / med.min()).item())
    if lay.bias is not None:
        with torch.no_grad():
            lay.bias.copy_(tensor(5, tuple(lay.bias.shape), dt))
        y2, _ = go(*args)
        y2 = y2.detach()
        sh = (1, -1) + (1,) * (y.dim() - 2)
        expect_close("bias", f"{what0}: features with a bias against features plus the bias", y2, y.detach() + lay.bias.detach().view(sh), tol(cfg["dtype"], 1e-4, 1e-5))
    if nposes & {"rand"} or cfg["permute"]:
        shares(ctx, lay, cfg, en, what0)


def shares(ctx, lay, cfg, en, what):
    """Energy of the gradient over the history, for every slot of every weight."""
    D = poses.dim(cfg["fam"])
    k = cfg["k"]
    n = gk_total(cfg)
    for name, e in en.items():
        if e.sum() == 0:
            raise Violation("dead", f"{what}: {name} has no influence on any feature")
        for d in range(e.dim()):
            s = e.movedim(d, 0).flatten(1).mean(1)
            if e.dim() - d <= D and e.dim() > D and e.shape[d] == k and list(e.shape[-D:]) == [k] * D:
                continue            # space, below
            if len(s) > 1:
                r = (s.min() / s.mean()).item()
                ctx.metrics["slot_lo"] = min(ctx.metrics.get("slot_lo", 1.0), r)
                if r < 1e-5:
                    raise Violation("dead", f"{what}: slot {int(s.argmin())} of dimension {d} of {name} has {r:.2g} of its share of influence")
        if e.dim() > D and list(e.shape[-D:]) == [k] * D and k > 1:
            s = e.flatten(0, e.dim() - D - 1).mean(0)
            ax = torch.linspace(-1, 1, k, dtype=torch.float64)
            dist = torch.stack(torch.meshgrid(*[ax] * D, indexing="ij")).square().sum(0).sqrt()
            inside = dist <= 1.0 + 1e-6 if k > 2 else torch.ones_like(dist, dtype=torch.bool)
            r = (s[inside].min() / s[inside].mean()).item()
            ctx.metrics["tap_lo"] = min(ctx.metrics.get("tap_lo", 1.0), r)
            if r < 1e-3:
                raise Violation("dead", f"{what}: a weight of {name} inside the spherical support has {r:.2g} of its share of influence")
