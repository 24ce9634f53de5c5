"""C02: stacks of layers are equivariant whatever poses they draw."""
from __future__ import annotations

import torch
from torch import nn

from .. import poses
from ..common import *  # noqa: F401,F403
from ..world import World

ID = "C02"
QUICK = 2200
THOROUGH = 20000
RULE = ("A run is a stack of 1-4 layers (lifting/separable/full convolutions with random output poses, activations, norms, "
        "pooling) applied to g.x at g.H for a lattice symmetry g, refined stage by stage against the same stack in another "
        "world with randomisation off, applied to x at H and asked for g^-1 times the poses the first drew. "
        "Non-trivial: g is not the identity or a drawn pose is not, and at least one convolution was compared.")
STATES = "hash of (family, stack of layer kinds, symmetry, boundary draw)"


def gen(rng, tier):
    fam = rng.pick(poses.FAM)
    D = poses.dim(fam)
    L = poses.lattice(fam)
    gi = rng.randrange(len(L))
    stack = []
    nconv = rng.wpick([(1, 4), (2, 3), (3, 1)]) if D == 2 else rng.wpick([(1, 5), (2, 2)])
    first = rng.wpick([("lift", 5), ("sep", 2), ("full", 2)])
    size = None
    cin = None
    for i in range(nconv):
        kinds = (first,) if i == 0 else ("sep", "full")
        for _ in range(60):
            cfg = gen_cfg(rng, kinds=kinds, fams=(fam,), sym=True, cin=cin)
            if i:
                cfg["dtype"] = stack[0]["cfg"]["dtype"]
                p = cfg["padding"]
                ke = cfg["dilation"] * (cfg["k"] - 1) + 1
                if size + 2 * p < ke or (size + 2 * p - ke) % cfg["stride"] or size <= p:
                    continue
                cfg["size"] = size
                if size ** D * gk_total(cfg) > 2500:
                    continue
            break
        else:
            break
        st = dict(op="conv", cfg=cfg, hout=None, draws=draw_spec(rng, 0.2))
        if rng.chance(0.4):
            st["hout"] = gen_poses(rng, cfg)
        # how the unmoved run asks for its poses
        st["ask"] = dict(seed=rng.seed63(), order=rng.chance(0.5), split=rng.chance(0.3), inorder=rng.chance(0.4), batch=rng.chance(0.3))
        stack.append(st)
        p = cfg["padding"]
        ke = cfg["dilation"] * (cfg["k"] - 1) + 1
        size = (cfg["size"] + 2 * p - ke) // cfg["stride"] + 1
        cin = cfg["cout"]
        if rng.chance(0.4):
            stack.append(dict(op=rng.pick(["relu", "gelu", "leaky", "wrap", "inorm", "bnorm", "lnorm"])))
        if rng.chance(0.3) and size > 1:
            divs = [q for q in (2, 3) if size % q == 0]
            if divs:
                q = rng.pick(divs)
                stack.append(dict(op=rng.pick(["maxsp", "avgsp", "amaxsp", "aavgsp"]), q=q, size=size))
                size //= q
        if size < 1:
            break
    if rng.chance(0.4):
        stack.append(dict(op=rng.pick(["maxg", "avgg"])))
    else:
        if rng.chance(0.6):
            stack.append(dict(op=rng.pick(["maxglob", "avgglob"])))
    c0 = stack[0]["cfg"]
    return dict(fam=fam, g=gi, ops=stack, xseed=rng.seed63(), batch=rng.pick([1, 1, 2]),
                hin=gen_poses(rng, c0) if rng.chance(0.7) else None)


def simple_layer(gnn, o, D, C, size):
    s = "3d" if D == 3 else "2d"
    op = o["op"]
    if op == "relu":
        return gnn.GReLU()
    if op == "gelu":
        return gnn.GGELU()
    if op == "leaky":
        return gnn.GLeakyReLU(0.2)
    if op == "wrap":
        return gnn.GWrap(nn.Tanh())
    if op == "inorm":
        return getattr(gnn, "GInstanceNorm" + s)(C)
    if op == "bnorm":
        return getattr(gnn, "GBatchNorm" + s)(C)
    if op == "lnorm":
        return gnn.GLayerNorm(list(size), elementwise_affine=False)
    if op in ("maxsp", "avgsp"):
        return getattr(gnn, {"maxsp": "GMaxSpatialPool", "avgsp": "GAvgSpatialPool"}[op] + s)(o["q"])
    if op in ("amaxsp", "aavgsp"):
        return getattr(gnn, {"amaxsp": "GAdaptiveMaxSpatialPool", "aavgsp": "GAdaptiveAvgSpatialPool"}[op] + s)(
            tuple(z // o["q"] for z in size))
    return getattr(gnn, {"maxg": "GMaxGroupPool", "avgg": "GAvgGroupPool",
                         "maxglob": "GMaxGlobalPool", "avgglob": "GAvgGlobalPool"}[op])()


def ask(ctx, world, lay, cfg, x, H, Ho, a, what):
    """The features at the poses Ho, asked for in another order and in parts:
    what a feature is must not depend on what else is computed with it."""
    r = Rng("ask", a.get("seed", 0))
    n = Ho.shape[0]
    order = list(range(n))
    if a.get("order"):
        r.shuffle(order)
    parts = [order]
    if a.get("split") and n > 1:
        c = r.randrange(1, n)
        parts = [order[:c], order[c:]]
    if a.get("inorder") and H is not None:
        p = list(range(H.shape[0]))
        r.shuffle(p)
        x, H = x[:, :, p], H[p]
    rows = [x]
    if a.get("batch") and x.shape[0] > 1:
        rows = [x[i:i + 1] for i in range(x.shape[0])]
    out = []
    for z in rows:
        cols = [None] * n
        for p in parts:
            args = (z.clone(),) if cfg["kind"] == "lift" else (z.clone(), H.clone())
            want = Ho[p].clone()
            y, H2 = sut(ctx, "reference", lambda: lay(*args, want.clone()), world)
            if not same(H2, want):
                raise Violation("poses", f"{what}: the layer with randomisation off does not return the requested poses")
            if y.shape[2] != len(p):
                raise Violation("shape", f"{what}: {y.shape[2]} features for {len(p)} poses")
            for j, q in enumerate(p):
                cols[q] = y[:, :, j]
        out.append(torch.stack(cols, dim=2))
    return torch.cat(out, dim=0)


def run(plan, ctx):
    fam = plan["fam"]
    D = poses.dim(fam)
    L = poses.lattice(fam)
    g = L[plan["g"] % len(L)]
    convs = [o for o in plan["ops"] if o["op"] == "conv"]
    if not convs or plan["ops"][0]["op"] != "conv":
        raise Skip("no convolution")
    cfg0 = convs[0]["cfg"]
    if any(o["cfg"]["kind"] == "lift" for o in convs[1:]):
        raise Skip("lifting twice")
    dt = DT[cfg0["dtype"]]
    wB, wA = World(), World()
    name = "+".join(o["op"] if o["op"] != "conv" else o["cfg"]["kind"] for o in plan["ops"])

    def gi(H):
        return poses.from_mat(fam, g.T @ poses.to_mat(fam, H), H.dtype)

    def gm(H):
        return poses.from_mat(fam, g @ poses.to_mat(fam, H), H.dtype)

    # inputs
    HA = HB = None
    if cfg0["kind"] == "lift":
        xA = tensor(plan["xseed"], feat_shape(cfg0, plan["batch"], 0), dt)
    else:
        HA = make_poses(plan["hin"] or dict(seed=plan["xseed"], n=3, how="rand"), fam, dt)
        HB = gm(HA)
        xA = tensor(plan["xseed"], feat_shape(cfg0, plan["batch"], HA.shape[0]), dt)
    xB = poses.move(fam, g, xA)
    eps = tol(cfg0["dtype"], 2e-3, 2e-4)
    pooled = False
    ident = bool((g - torch.eye(D, dtype=g.dtype)).abs().max() < 1e-9)
    for i, o in enumerate(plan["ops"]):
        what = f"stage {i} ({o['op'] if o['op'] != 'conv' else o['cfg']['kind']}) of {fam} {name}, symmetry {plan['g']}"
        if o["op"] == "conv":
            if i and float(xA.abs().max()) < 2e-2 * scale:
                raise Skip("only rounding noise reaches the convolution")
            scale = 0.0
            if pooled:
                raise Skip("convolution after pooling")
            cfg = o["cfg"]
            if i and (xA.shape[1] != cfg["cin"]):
                raise Skip("channels")
            cfg = dict(cfg, permute=True)
            lay, tw = build_pair(ctx, wB, wA, cfg)
            Hreq = None if o["hout"] is None else make_poses(o["hout"], fam, dt)
            if HB is not None:
                HB = HB.clone()
            argsB = (xB,) if cfg["kind"] == "lift" else (xB, HB)
            yB, HoB = sut(ctx, "forward", lambda: forward(lay, argsB, Hreq), wB, draws=o["draws"])
            single_translate(fam, Hreq if Hreq is not None else default_out(lay, cfg, argsB), HoB, what)
            HoA = gi(HoB.detach())
            yA = ask(ctx, wA, tw, cfg, xA, HA, HoA, o.get("ask") or {}, what)
            okm = nearest_margin_ok(tw, cfg, HA if HA is not None else HoA, HoA)
            if not okm:
                ctx.probes["nearest_tie"] += 1
                raise Skip("nearest tie")
            xA, xB, HA, HB = yA.detach(), yB.detach(), HoA, HoB.detach()
            ctx.nontrivial = True
            ctx.state(f"{fam}{name}{plan['g']}{o['draws']}")
        else:
            if pooled:
                raise Skip("layer after pooling")
            C, size = xA.shape[1], tuple(xA.shape[3:])
            if o.get("q") and any(s % o["q"] for s in size):
                raise Skip("pool size")
            if o["op"] in ("inorm",) and xA[0, 0].numel() < 2:
                raise Skip("instance norm of one value")
            if o["op"] == "bnorm" and xA[:, 0].numel() < 2:
                raise Skip("batch norm of one value")
            if o["op"] == "lnorm" and xA[0, 0, 0].numel() < 2:
                raise Skip("layer norm of one value")
            if o["op"] in ("inorm", "bnorm", "lnorm"):
                # normalising an (almost) constant signal only amplifies rounding
                z = xA.flatten(2) if o["op"] == "inorm" else xA.transpose(0, 1).flatten(1) if o["op"] == "bnorm" else xA.flatten(3)
                if float(z.std(-1).min()) < 2e-2 * float(xA.abs().max()):
                    raise Skip("norm of a nearly constant signal")
            scale = max(scale, float(xA.abs().max()))
            lB = sut(ctx, "build " + o["op"], lambda: simple_layer(wB.gnn, o, D, C, size).to(dt), wB)
            lA = sut(ctx, "build " + o["op"], lambda: simple_layer(wA.gnn, o, D, C, size).to(dt), wA)
            rB = sut(ctx, o["op"], lambda: lB(xB.clone(), HB), wB)
            rA = sut(ctx, o["op"], lambda: lA(xA.clone(), HA), wA)
            if o["op"] in ("maxg", "avgg", "maxglob", "avgglob"):
                xA, xB = rA, rB
                pooled = True
            else:
                (xA, hA), (xB, hB) = rA, rB
                if not same(hB, HB) or not same(hA, HA):
                    raise Violation("poses", f"{what}: poses changed")
            if o["op"] in ("inorm", "bnorm", "lnorm"):
                eps *= 8     # division by a small spread amplifies rounding
            xA, xB = xA.detach(), xB.detach()
        if not isinstance(xB, torch.Tensor):
            raise Violation("shape", f"{what}: returned {type(xB).__name__}")
        want = xA if o["op"] in ("maxglob", "avgglob") else poses.move(fam, g, xA)
        expect_close("equivariance", what, xB, want, eps, scale)
        ctx.ev(i, sig(xB))
    if not ident:
        ctx.probes["moved_input"] += 1
    if g.det() < 0:
        ctx.probes["reflection"] += 1
