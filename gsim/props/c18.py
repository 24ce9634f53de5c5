"""C18: large inputs may be processed in tiles."""
from __future__ import annotations

import heapq
import itertools

import torch
import torch.nn.functional as F

from .. import poses
from ..common import *  # noqa: F401,F403
from ..seams import is_sim
from ..world import World

ID = "C18"
QUICK = 2600
THOROUGH = 15000
RULE = ("A run processes one large input (of unequal side lengths) through a stack of layers (a convolution of any kind with any "
        "stride, padding, dilation and padding mode, perhaps activation, pooling and a second convolution) twice: as a whole, with "
        "randomised poses, and in tiles of seeded shape, each read from the input padded by the harness and sent as a message to a "
        "worker whose layers have no padding of their own and hold the same state; messages are delayed, reordered, duplicated and "
        "grouped, calls fail and are repeated, workers crash and restart from the state dictionary. Non-trivial: at least two tiles "
        "were stitched and compared.")
STATES = "hash of (family, kind, stride, padding, dilation, padding mode, tiles)"
LISTS = ("faults", "crashes", "cuts")
STUBS = "clock, message delays, tile queue and workers (discrete events), process crash; os.urandom, terminal"


def ke_of(st):
    return st["dilation"] * (st["k"] - 1) + 1


def gen(rng, tier):
    cfg = gen_cfg(rng, dtypes=("f32", "f64", "f64"))
    cfg["permute"] = True
    fam = cfg["fam"]
    D = poses.dim(fam)
    if rng.chance(0.08):
        # an odd number of cells of padding altogether, so the two sides differ
        cfg["padding"], cfg["stride"] = "same", 1
        cfg["pmode"] = rng.pick(["zeros", "circular", "replicate", "reflect"])
        if rng.chance(0.7):
            cfg["k"] = rng.pick([2, 4])
    mid = [rng.pick(["relu", "leaky", "avgsp", "maxsp"])] if rng.chance(0.4) else []
    cfg2 = None
    if rng.chance(0.35):
        while True:
            cfg2 = gen_cfg(rng, kinds=("sep", "full"), fams=(fam,), cin=cfg["cout"], dtypes=(cfg["dtype"],))
            if cfg2["k"] <= 3 and cfg2["groups"] == 1:
                break
        cfg2["padding"] = 0
        cfg2["pmode"] = "zeros"
    n = poses_n = rng.pick([1, 2, 3])
    # side lengths: enough for a few outputs at the end
    want = [rng.pick([2, 3, 4, 5, 7] if D == 2 else [1, 2, 3, 4]) for _ in range(D)]
    if rng.chance(0.06):
        want[rng.randrange(D)] = rng.pick([17, 33, 66] if D == 2 else [9, 17])
    sides = []
    for w in want:
        if cfg2:
            w = (w - 1) * cfg2["stride"] + ke_of(cfg2) + rng.randrange(cfg2["stride"])
        for m in reversed(mid):
            if m.endswith("sp"):
                w = w * 2 + rng.randrange(2)
        w = (w - 1) * cfg["stride"] + ke_of(cfg) + rng.randrange(cfg["stride"])
        p = cfg["padding"]
        tot = 2 * p if isinstance(p, int) else (ke_of(cfg) - 1 if p == "same" else 0)
        lo = max(1, (tot + 1) // 2 + 1)
        sides.append(max(w - tot, lo))
    return dict(cfg=cfg, cfg2=cfg2, mid=mid, sides=sides, n=n, batch=rng.pick([1, 1, 2]) if not rng.chance(0.02) else rng.pick([9, 66]), xseed=rng.seed63(),
                hin=gen_poses(rng, cfg, poses_n), hout=None if rng.chance(0.4) else gen_poses(rng, cfg, rng.pick([1, 2, 3])),
                hout2=gen_poses(rng, cfg, rng.pick([1, 2])),
                cuts=[[d, rng.randrange(1, 8 if max(want) < 8 else max(want))] for d in range(D) for _ in range(rng.pick([0, 1, 1, 2]))],
                order=rng.seed63(), dup=rng.pick([0.0, 0.0, 0.2]), group=rng.pick([1, 1, 2, 3]), grad=rng.chance(0.3), train=rng.chance(0.3),
                faults=[[rng.randrange(8), rng.pick(["alloc", "oom", "interrupt"]), rng.randrange(1, 80)] for _ in range(rng.pick([0, 0, 1, 2]))],
                crashes=[rng.randrange(8)] if rng.chance(0.2) else [])


def mid_layer(gnn, o, D):
    s = f"{D}d"
    if o == "relu":
        return gnn.GReLU()
    if o == "leaky":
        return gnn.GLeakyReLU(0.2)
    return getattr(gnn, {"avgsp": "GAvgSpatialPool", "maxsp": "GMaxSpatialPool"}[o] + s)(2)


class Worker:
    """The stack in a world of its own."""

    def __init__(self, ctx, plan, state=None, tiles=False):
        cfg, cfg2 = plan["cfg"], plan["cfg2"]
        self.ctx, self.plan = ctx, plan
        self.w = World()
        if tiles:
            cfg = dict(cfg, padding=0, pmode="zeros", permute=False)
        self.l1 = sut(ctx, "build", lambda: build(self.w, cfg), self.w)
        self.l2 = None
        if cfg2:
            self.l2 = sut(ctx, "build", lambda: build(self.w, dict(cfg2, permute=not tiles)), self.w)
        self.mid = [mid_layer(self.w.gnn, o, poses.dim(cfg["fam"])) for o in plan["mid"]]
        if state is None:
            # as the workers: widths follow from the loaded grid in its own precision
            state = self.state()
        if state is not None:
            self.l1.load_state_dict({k: v.clone() for k, v in state[0].items()})
            if self.l2 is not None:
                self.l2.load_state_dict({k: v.clone() for k, v in state[1].items()})
        for m in (self.l1, self.l2, *self.mid):
            if m is not None:
                m.train(plan["train"])

    def state(self):
        return [None if m is None else {k: v.detach().clone() for k, v in m.state_dict().items()} for m in (self.l1, self.l2)]

    def params(self):
        return [p for m in (self.l1, self.l2) if m is not None for p in m.parameters()]

    def go(self, x, Hin, H1, H2, cot=None, **seam):
        """(features, poses after the first and second convolution, gradients)."""
        g = cot is not None

        def call():
            x_ = x.clone().requires_grad_(g)
            with torch.set_grad_enabled(g):
                args = (x_,) if Hin is None else (x_, Hin.clone())
                y, A = self.l1(*args) if H1 is None else self.l1(*args, H1.clone())
                h = A
                for m in self.mid:
                    y, h = m(y, h)
                B = None
                if self.l2 is not None:
                    y, B = self.l2(y, h, H2.clone())
                gr = None
                if g:
                    c = cot(y)
                    ps = self.params()
                    gr = torch.autograd.grad((y * c).sum(), [x_, *ps], allow_unused=True)
                    gr = [torch.zeros_like(v) if q is None else q for q, v in zip(gr, [x_, *ps])]
            return y.detach(), A.detach(), None if B is None else B.detach(), gr
        return sut(self.ctx, "forward", call, self.w, **seam)


def run(plan, ctx):
    cfg, cfg2 = plan["cfg"], plan["cfg2"]
    fam, dt = cfg["fam"], DT[cfg["dtype"]]
    D = poses.dim(fam)
    lift = cfg["kind"] == "lift"
    eps = tol(cfg["dtype"], 3e-4, 1e-8)
    what = f"{cfg['kind']}{fam} k={cfg['k']} stride={cfg['stride']} padding={cfg['padding']} dilation={cfg['dilation']} {cfg['pmode']}" + \
           (f" + {plan['mid']}" if plan["mid"] else "") + (f" + {cfg2['kind']} k={cfg2['k']} stride={cfg2['stride']}" if cfg2 else "")
    whole = Worker(ctx, plan)
    state = whole.state()
    Hin = None if lift else make_poses(plan["hin"], fam, dt)
    H1 = None if plan["hout"] is None else make_poses(plan["hout"], fam, dt)
    H2 = make_poses(plan["hout2"], fam, dt)
    nH = [] if lift else [plan["hin"]["n"]]
    X = tensor(plan["xseed"], (plan["batch"], cfg["cin"], *nH, *plan["sides"]), dt)
    if any(o.endswith("sp") for o in plan["mid"]) or plan["grad"]:
        # boundary draws of the other kind are C01's; here plain draws
        pass
    cots = {}

    def cot_whole(y):
        cots["c"] = tensor(plan["xseed"] + 9, tuple(y.shape), dt)
        return cots["c"]
    Y, A, B, G = whole.go(X, Hin, H1, H2, cot_whole if plan["grad"] else None)
    # expected sizes, by the harness's own arithmetic
    stages = [(ke_of(cfg), cfg["stride"])] + [(2, 2) for o in plan["mid"] if o.endswith("sp")]
    if cfg2:
        stages.append((ke_of(cfg2), cfg2["stride"]))
    p = cfg["padding"]
    tot = ke_of(cfg) - 1
    pads = (p, p) if isinstance(p, int) else ((tot // 2, tot - tot // 2) if p == "same" else (0, 0))
    outs = []
    for s in plan["sides"]:
        n = s + sum(pads)
        for ke, st in stages:
            n = (n - ke) // st + 1 if n >= ke else 0
        if n < 1:
            raise Skip("no output")
        outs.append(n)
    nHo = (B if B is not None else A).shape[0]
    co = (cfg2 or cfg)["cout"]
    if tuple(Y.shape) != (plan["batch"], co, nHo, *outs):
        raise Violation("size", f"{what}: features of shape {tuple(Y.shape)} for an input of {plan['sides']}, expected {(plan['batch'], co, nHo, *outs)}")
    # the harness pads
    flat = X.reshape(plan["batch"], -1, *plan["sides"])
    mode = {"zeros": "constant"}.get(cfg["pmode"], cfg["pmode"])
    if sum(pads):
        if mode == "reflect" and max(pads) >= min(plan["sides"]) or mode == "circular" and max(pads) > min(plan["sides"]):
            raise Skip("padding wider than the input")
        flat = F.pad(flat, [q for _ in range(D) for q in pads], mode=mode)
    P = flat.reshape(*X.shape[:-D], *flat.shape[-D:])
    # tiles of the output
    bounds = []
    for d in range(D):
        cs = sorted({0, outs[d], *(1 + (c - 1) % (outs[d] - 1) for dd, c in plan["cuts"] if dd == d and outs[d] > 1)})
        bounds.append(list(zip(cs, cs[1:])))
    tiles = []
    for box in itertools.product(*bounds):
        src = []
        for a, b in box:
            for ke, st in reversed(stages):
                a, b = a * st, (b - 1) * st + ke
            src.append((a, b))
        tiles.append((box, src))

    rng = Rng("tiles", plan["order"])
    worker = Worker(ctx, plan, state, tiles=True)
    faults = {}
    for n, kind, k in plan["faults"]:
        faults.setdefault(n, (kind, k))
    crashes = set(plan["crashes"])
    ev = []
    for i in range(len(tiles)):
        heapq.heappush(ev, (rng.random(), i, 0))
        if rng.random() < plan["dup"]:
            ctx.faults["duplicate_delivery"] += 1
            heapq.heappush(ev, (rng.random() * 2, i, 1))
    got = torch.full_like(Y, float("nan"))
    dP = torch.zeros_like(P) if plan["grad"] else None
    dW = None
    done = set()
    calls = 0
    now = 0.0
    while ev:
        now, i, _ = heapq.heappop(ev)
        idx = [i]
        # group tiles of one shape into one batch
        while ev and len(idx) < plan["group"]:
            j = ev[0][1]
            if j in idx or any((b - a) != (d - c) for (a, b), (c, d) in zip(tiles[i][1], tiles[j][1])):
                break
            heapq.heappop(ev)
            idx.append(j)
        xs = torch.cat([P[(..., *(slice(a, b) for a, b in tiles[j][1]))] for j in idx])

        def cot_tile(y, idx=idx):
            if y.shape[0] != plan["batch"] * len(idx) or any(s != b - a for s, (a, b) in zip(y.shape[3:], tiles[idx[0]][0])):
                raise Violation("size", f"{what}: a tile has features of shape {tuple(y.shape)}")
            c = cots["c"]
            return torch.cat([c[(..., *(slice(a, b) for a, b in tiles[j][0]))] for j in idx])
        for attempt in range(8):
            n = calls
            calls += 1
            if n in crashes:
                crashes.discard(n)
                ctx.faults["worker_crash"] += 1
                worker = Worker(ctx, plan, state, tiles=True)
            try:
                y, A2, B2, g = worker.go(xs, Hin, A, B if B is not None else H2, cot_tile if plan["grad"] else None, fault=faults.pop(n, None))
                break
            except BaseException as e:
                if not is_sim(e):
                    raise
                ctx.ops["repeated"] += 1
        else:
            raise Violation("no-progress", f"{what}: no call succeeded after the faults stopped")
        if not same(A2, A) or B is not None and not same(B2, B):
            raise Violation("poses", f"{what}: randomisation is off but the poses are not the requested ones")
        for r, j in enumerate(idx):
            box = tiles[j][0]
            part = y[r * plan["batch"]:(r + 1) * plan["batch"]]
            if tuple(part.shape[3:]) != tuple(b - a for a, b in box):
                raise Violation("size", f"{what}: a tile of {tiles[j][1]} has features of shape {tuple(part.shape)}, expected {box}")
            got[(..., *(slice(a, b) for a, b in box))] = part
        if plan["grad"] and not any(j in done for j in idx):
            for r, j in enumerate(idx):
                dP[(..., *(slice(a, b) for a, b in tiles[j][1]))] += g[0][r * plan["batch"]:(r + 1) * plan["batch"]]
            dW = g[1:] if dW is None else [a + b for a, b in zip(dW, g[1:])]
        elif plan["grad"]:
            # a repeated tile came grouped with others: take the others apart
            for j in idx:
                if j not in done:
                    heapq.heappush(ev, (now + 0.01, j, 2))
            idx = [j for j in idx if j in done]
        done |= set(idx)
    ctx.simtime += now
    if len(done) != len(tiles):
        raise Violation("unanswered", f"{what}: {len(tiles) - len(done)} tiles never answered")
    sc = float(Y.abs().max())
    expect_close("tiles", f"{what}: {plan['sides']} in {len(tiles)} tiles", got, Y, eps, sc)
    if plan["grad"]:
        for q, (a, b) in enumerate(zip(dW, G[1:])):
            expect_close("tile-gradients", f"{what}: gradient of parameter {q} summed over {len(tiles)} tiles", a, b, 20 * eps)
        # fold the padding's gradient back with autograd on the harness's own padding
        leaf = X.clone().requires_grad_()
        fl = leaf.reshape(plan["batch"], -1, *plan["sides"])
        if sum(pads):
            fl = F.pad(fl, [q for _ in range(D) for q in pads], mode=mode)
        (dX,) = torch.autograd.grad(fl.reshape(P.shape), leaf, dP)
        expect_close("tile-gradients", f"{what}: gradient of the input summed over {len(tiles)} tiles", dX, G[0], 20 * eps)
    if len(tiles) > 1:
        ctx.nontrivial = True
    ctx.h.update(b"c18")
    ctx.ev(what, sig(got))
    ctx.state(f"{what}{len(tiles)}{outs}")
