"""C01: a randomised layer computes its features at the poses it returns."""
from __future__ import annotations

import torch

from .. import poses
from ..common import *  # noqa: F401,F403
from ..world import World

ID = "C01"
QUICK = 2600
THOROUGH = 30000
RULE = ("A run is one layer (kind, family, geometry, grids, dtype drawn by the seed) and a history of 2-5 forward calls "
        "with other inputs, poses, modes and boundary draws; each is refined against a twin in a separately booted world "
        "with randomisation off. Non-trivial: at least one call drew a pose other than the identity and was compared.")
STATES = "hash of (family, kind, pose given by the generator, call features)"


def gen(rng, tier):
    unc = rng.chance(0.02)
    cfg = gen_cfg(rng, uncached=unc)
    cfg["permute"] = rng.chance(0.9)
    calls = []
    for _ in range(rng.pick([2, 2, 3, 4, 5])):
        c = gen_call(rng, cfg)
        c["draws"] = draw_spec(rng, 0.25)
        again = calls and rng.chance(0.35)
        if again:
            # the same call again, or a near repeat
            c = dict(rng.pick(calls))
            if rng.chance(0.5):
                c["xseed"] = rng.seed63()
        c["grad"] = rng.chance(0.3)
        # what the program does to the layer before the call
        c["update"] = rng.pick(["inplace", "data", "load"]) if rng.chance(0.5 if again else 0.15) else None
        c["useed"] = rng.seed63()
        c["toggle"] = rng.chance(0.08)
        calls.append(c)
    if cfg["warm"]:
        # a long life, looked at call by call
        cfg["warm"] = None
        again = dict(calls[0]) if rng.chance(0.3) else None
        for _ in range(rng.randrange(20, 50 if poses.dim(cfg["fam"]) == 3 or cfg["k"] > 5 else 140)):
            c = again or gen_call(rng, cfg, batch=1)
            calls.insert(0, dict(c, draws=None, grad=False, update=None, useed=0, toggle=False))
    # the program keeps its poses and features in buffers it fills anew
    return dict(cfg=cfg, calls=calls, reuse=rng.chance(0.4))


def update(lay, how, seed):
    """Changes the parameters as a training program does."""
    new = {k: p.detach() + 0.5 * tensor(seed + i, tuple(p.shape), p.dtype) for i, (k, p) in enumerate(lay.named_parameters())}
    if how == "load":
        lay.load_state_dict({**{k: v.detach().clone() for k, v in lay.state_dict().items()}, **new})
        return
    for k, p in lay.named_parameters():
        if how == "data":
            p.data = new[k]
        else:
            with torch.no_grad():
                p.copy_(new[k])


def run(plan, ctx):
    cfg = plan["cfg"]
    buf = Buffers(plan.get("reuse"))
    permute = cfg["permute"]
    w, w2 = World(), World()
    lay, tw = build_pair(ctx, w, w2, cfg)
    fam = cfg["fam"]
    snap = snap_module(lay)
    drawn = []
    D = poses.dim(fam)
    for i, c in enumerate(plan["calls"]):
        what = f"call {i} of {cfg['kind']}{fam}"
        args, H = call_args(lay, cfg, c)
        if buf.on:
            args = tuple(buf.put(f"arg{j}", a) for j, a in enumerate(args))
            H = buf.put("H", H)
        if c.get("update"):
            sut(ctx, "update", lambda: (update(lay, c["update"], c["useed"]), update(tw, c["update"], c["useed"])), w)
            snap = snap_module(lay)
            ctx.probes["update_" + c["update"]] += 1
        if c.get("toggle"):
            permute = not permute
            lay.permute_output_grid = permute
        (lay.train if c["hist"] == "train" else lay.eval)()
        req = default_out(lay, cfg, args) if H is None else H
        req = req.clone()
        guard = ArgGuard(*args, H)
        if c["grad"] and not c["nograd"]:
            args = (args[0].clone().requires_grad_(True), *args[1:])
        with torch.set_grad_enabled(not c["nograd"]):
            y, Ho = sut(ctx, "forward", lambda: forward(lay, args, H), w, draws=c["draws"])
        guard.check("argument", what)
        check_snap(lay, snap, "state", what)
        r = single_translate(fam, req, Ho, what)
        if permute:
            if c["draws"] is None:
                drawn.append(r)
                if same(Ho.detach(), req):
                    raise Violation("no-draw", f"{what}: randomisation is on but the requested poses came back")
            ident = (r - torch.eye(D, dtype=r.dtype)).abs().max().item() < 1e-3
            ctx.nontrivial |= not ident
            ctx.probes["identity_draw" if ident else "draw"] += 1
        else:
            if not same(Ho.detach(), req):
                raise Violation("poses", f"{what}: randomisation is off but the poses are not the requested ones")
        twargs = tuple(a.detach().clone() for a in args)
        with torch.set_grad_enabled(False):
            y2, H2 = sut(ctx, "twin", lambda: tw(*twargs, Ho.detach().clone()), w2)
        if not same(H2, Ho.detach()):
            raise Violation("poses", f"{what}: the layer with randomisation off does not return the requested poses")
        Hin = req if cfg["kind"] == "lift" else args[1]
        if nearest_margin_ok(tw, cfg, Hin, Ho.detach(), 1e-5):
            expect_close("features", what + f" at the returned poses (draws {c['draws']})", y, y2, tol(cfg["dtype"], 1e-4, 1e-5))
        else:
            ctx.probes["nearest_tie"] += 1
        ctx.ev(i, sig(y), sig(Ho))
        # nothing is kept, so its memory can serve the next call
        y = Ho = y2 = H2 = req = guard = args = twargs = H = Hin = None
        ctx.state(f"{fam}{cfg['kind']}{c.get('H')}{c.get('Hout')}{c['nograd']}{c['lay']}{c['draws']}")
    if drawn:
        for a in range(len(drawn)):
            for b in range(a):
                if drawn[a] is None or drawn[b] is None:
                    continue
                if (drawn[a] - drawn[b]).abs().max().item() < 1e-7:
                    raise Violation("stale-draw", f"calls {b} and {a} used the same group element")
