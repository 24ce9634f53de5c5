"""C17: what is computed together makes no difference."""
from __future__ import annotations

import heapq

import torch
from torch import nn

from .. import poses
from ..common import *  # noqa: F401,F403
from ..seams import is_sim
from ..world import World, ambient

ID = "C17"
QUICK = 2000
THOROUGH = 20000
RULE = ("A run is a batching inference server around one model (a convolution of any kind, perhaps followed by evaluation-mode "
        "normalisation, activation and spatial pooling) in simulated time: requests (sample, output poses, channel group) "
        "arrive, are delivered twice, reordered and merged into calls over joint samples and poses, input poses are shared "
        "out over workers whose partial results are added up, calls fail and are repeated, and the server crashes and restarts "
        "from its state dictionary. Every answer is compared with the request computed on its own, pose by pose, in another "
        "world. Non-trivial: at least one call computed more than one request or pose at once and was compared.")
STATES = "hash of (family, kind, batch composition)"
LISTS = ("requests", "faults", "crashes")
STUBS = "clock, arrival times, the server's queue and workers (discrete events), process crash; os.urandom, terminal"


def gen(rng, tier):
    cfg = gen_cfg(rng)
    cfg["permute"] = rng.chance(0.3)
    S, P = rng.pick([1, 2, 3]), rng.pick([2, 3, 4, 5])
    rush = rng.chance(0.05)      # a burst of requests: large batches and many poses
    if rush:
        P = rng.pick([5, 12, 20, 70])
        cfg["size"] = min(cfg["size"], 5) if cfg["k"] <= 3 and cfg["dilation"] == 1 else cfg["size"]
    reqs = []
    t = 0.0
    for _ in range(rng.pick([2, 3, 4, 5, 6]) if not rush else rng.pick([17, 40, 70])):
        t += rng.random() * rng.pick([0.002, 0.02]) * (0.2 if rush else 1.0)
        ps = [rng.randrange(P) for _ in range(rng.pick([1, 1, 2, 3, 4]) if P < 70 or rng.chance(0.9) else 70)]
        reqs.append(dict(t=round(t, 6), s=rng.randrange(S), ps=ps, twice=rng.chance(0.15),
                         grp=rng.randrange(cfg["groups"]) if cfg["groups"] > 1 and rng.chance(0.4) else None))
    post = []
    if rng.chance(0.3):
        post = [rng.pick(["relu", "leaky", "wrap", "bnorm", "avgsp", "maxsp"]) for _ in range(rng.pick([1, 2]))]
        cfg["size"] += 2 * sum(o.endswith("sp") for o in post) * cfg["stride"]
    nin = rng.wpick([(rng.pick([1, 2, 3, 4, 5]), 10), (rng.pick([8, 9, 12, 17, 33]), 1)])
    if nin > 5:
        cfg["size"] = min(cfg["size"], 5) if cfg["k"] <= 3 and cfg["dilation"] == 1 and not post else cfg["size"]
    return dict(cfg=cfg, S=S, P=P, requests=reqs, post=post, xseed=rng.seed63(),
                hin=gen_poses(rng, cfg, nin), hpool=dict(gen_poses(rng, cfg, P), how=rng.pick(["rand", "rand", "lattice"])),
                window=rng.pick([0.0, 0.005, 0.02]) if not rush else 0.3, order=rng.seed63(),
                merge=rng.pick(["concat", "concat", "union", "shuffle"]), partial=rng.chance(0.35 if nin <= 5 else 0.7), lay=rng.pick(["plain", "plain", "strided", "perm", "offset"]),
                reuse=rng.chance(0.3), train=rng.chance(0.3) and not post, nograd=rng.chance(0.6),
                faults=[[rng.randrange(6), rng.pick(["alloc", "oom", "interrupt"]), rng.randrange(1, 80)] for _ in range(rng.pick([0, 0, 1, 2]))],
                crashes=[rng.randrange(8)] if rng.chance(0.2) else [])


def post_layers(gnn, plan, C, D, dt):
    out = []
    s = f"{D}d"
    for o in plan["post"]:
        if o == "relu":
            m = gnn.GReLU()
        elif o == "leaky":
            m = gnn.GLeakyReLU(0.3)
        elif o == "wrap":
            m = gnn.GWrap(nn.Sigmoid())
        elif o == "bnorm":
            m = getattr(gnn, "GBatchNorm" + s)(C)
            with torch.no_grad():
                m.running_mean.copy_(tensor(plan["xseed"] + 3, (C,), torch.float32))
                m.running_var.copy_(tensor(plan["xseed"] + 4, (C,), torch.float32, "pos"))
                m.weight.copy_(tensor(plan["xseed"] + 5, (C,), torch.float32))
        else:
            m = getattr(gnn, {"avgsp": "GAvgSpatialPool", "maxsp": "GMaxSpatialPool"}[o] + s)(2, stride=1)
        out.append(m.to(dt))
    return out


class Server:
    def __init__(self, ctx, plan, state=None, permute=None):
        self.ctx, self.plan, self.cfg = ctx, plan, plan["cfg"]
        self.w = World()
        cfg = self.cfg
        warm_builds(ctx, self.w, cfg)
        self.lay = sut(ctx, "build " + cfg["kind"], lambda: build(self.w, cfg, permute=permute), self.w)
        if permute is None:
            warm_up(ctx, self.w, self.lay, cfg)
        if state is not None:
            self.lay.load_state_dict({k: v.clone() for k, v in state.items()})
        self.post = sut(ctx, "build post", lambda: post_layers(self.w.gnn, plan, cfg["cout"], poses.dim(cfg["fam"]), DT[cfg["dtype"]]), self.w)
        self.buf = Buffers(plan["reuse"])
        self.lay.train(plan["train"])
        for m in self.post:
            m.eval()

    def conv(self, x, H, Ho, **seam):
        def go():
            with torch.set_grad_enabled(not self.plan["nograd"]):
                return self.lay(x, Ho) if H is None else self.lay(x, H, Ho)
        y, H2 = sut(self.ctx, "forward", go, self.w, **seam)
        return y.detach(), H2.detach()

    def tail(self, y, H):
        if min(y.shape[3:]) <= sum("sp" in p for p in self.plan["post"]):
            raise Skip("too small to pool")

        def go():
            z, h = y, H
            with torch.set_grad_enabled(not self.plan["nograd"]):
                for m in self.post:
                    z, h = m(z, h)
            return z, h
        z, h = sut(self.ctx, "tail", go, self.w)
        if not same(h, H):
            raise Violation("poses", "the layers after the convolution changed the poses")
        return z.detach()


def merged(plan, reqs, rng):
    """(samples, pose indices, where each request's answer is)."""
    samples = sorted({r["s"] for r in reqs})
    how = plan["merge"]
    if how == "concat":
        samples = [r["s"] for r in reqs]
        cols = [p for r in reqs for p in r["ps"]]
    else:
        cols = sorted({p for r in reqs for p in r["ps"]})
        if how == "shuffle":
            rng.shuffle(cols)
            rng.shuffle(samples)
    where = []
    k = 0
    for i, r in enumerate(reqs):
        if how == "concat":
            where.append((i, list(range(k, k + len(r["ps"])))))
            k += len(r["ps"])
        else:
            where.append((samples.index(r["s"]), [cols.index(p) for p in r["ps"]]))
    return samples, cols, where


def run(plan, ctx):
    cfg = plan["cfg"]
    fam, dt = cfg["fam"], DT[cfg["dtype"]]
    lift = cfg["kind"] == "lift"
    eps = tol(cfg["dtype"], 1e-3, 3e-4)
    srv = Server(ctx, plan)
    state = {k: v.detach().clone() for k, v in srv.lay.state_dict().items()}
    ref = Server(ctx, dict(plan, reuse=False, nograd=True), state, permute=False)
    Hin = None if lift else make_poses(plan["hin"], fam, dt)
    nH = 0 if lift else Hin.shape[0]
    pool = make_poses(plan["hpool"], fam, dt)
    X = tensor(plan["xseed"], feat_shape(cfg, plan["S"], nH), dt)
    bias = srv.lay.bias
    ctx.h.update(b"c17")
    lone = {}

    def alone(s, H, key):
        """The request on its own: one sample, one output pose."""
        if key not in lone:
            if not nearest_margin_ok(ref.lay, cfg, Hin if Hin is not None else H, H, 1e-4):
                raise Skip("nearest tie")
            y, _ = ref.conv(X[s:s + 1].clone(), None if lift else Hin.clone(), H.clone())
            lone[key] = (y, ref.tail(y, H) if plan["post"] else y)
        return lone[key]

    def partition(n, rng):
        idx = list(range(n))
        rng.shuffle(idx)
        if n < 2:
            return [idx]
        c = rng.randrange(1, n)
        return [idx[:c], idx[c:]]

    ncall = [0]
    faults = {}
    for n, kind, k in plan["faults"]:
        faults.setdefault(n, (kind, k))
    crashes = set(plan["crashes"])

    def call(x, H, Ho, what):
        """One call of a worker, repeated until it succeeds."""
        for attempt in range(8):
            nonlocal srv
            n = ncall[0]
            ncall[0] += 1
            if n in crashes:
                crashes.discard(n)
                ctx.faults["server_crash"] += 1
                srv = Server(ctx, plan, state)
            f = faults.pop(n, None)
            args = (x.clone(), None if H is None else H.clone(), Ho.clone())
            if srv.buf.on:
                args = tuple(srv.buf.put(j, a) for j, a in zip("xhp", args))
            try:
                y, H2 = srv.conv(*args, fault=f)
            except BaseException as e:
                if not is_sim(e):
                    raise
                ctx.ops["repeated"] += 1
                continue
            if tuple(y.shape[:3]) != (x.shape[0], cfg["cout"], Ho.shape[0]):
                raise Violation("shape", f"{what}: features of shape {tuple(y.shape)} for {x.shape[0]} samples at {Ho.shape[0]} poses")
            if cfg["permute"]:
                single_translate(fam, Ho, H2, what)
            elif not same(H2, Ho):
                raise Violation("poses", f"{what}: randomisation is off but the poses are not the requested ones")
            return y, H2
        raise Violation("no-progress", f"{what}: no call succeeded after the faults stopped")

    # discrete events: arrivals, then the batching window closes
    rng = Rng("batch", plan["order"])
    ev = []
    for i, r in enumerate(plan["requests"]):
        r = dict(r, i=i)
        if r["grp"] is not None and r["grp"] >= cfg["groups"]:
            r["grp"] = None
        if not r["ps"] or max(r["ps"]) >= plan["P"] or r["s"] >= plan["S"]:
            raise Skip("request out of range")
        heapq.heappush(ev, (r["t"], i, 0, r))
        if r["twice"]:
            ctx.faults["duplicate_delivery"] += 1
            heapq.heappush(ev, (r["t"] + rng.random() * 0.02, i, 1, r))
    queue, close, now = [], None, 0.0
    answered = set()
    while ev or queue:
        if ev and (close is None or ev[0][0] <= close):
            now, _, _, r = heapq.heappop(ev)
            queue.append(r)
            if close is None:
                close = now + plan["window"]
            continue
        now = close
        close = None
        rng.shuffle(queue)
        # a long queue is served at once
        take = queue[:rng.pick([1, 2, 3, 4]) if len(queue) < 10 or rng.chance(0.3) else len(queue)]
        queue = queue[len(take):]
        if queue:
            close = now + 0.001
        serve(ctx, plan, cfg, take, rng, X, Hin, pool, call, alone, partition, srv_tail=lambda y, H: srv.tail(y, H),
              bias=bias, eps=eps, answered=answered, dt=dt)
    ctx.simtime += now
    miss = {r for r in range(len(plan["requests"]))} - answered
    if miss:
        raise Violation("unanswered", f"requests {sorted(miss)} were never answered")


def serve(ctx, plan, cfg, take, rng, X, Hin, pool, call, alone, partition, srv_tail, bias, eps, answered, dt):
    fam, lift = cfg["fam"], cfg["kind"] == "lift"
    samples, cols, where = merged(plan, take, rng)
    what = f"{len(take)} requests ({len(samples)} samples, {len(cols)} output poses, {plan['merge']}) on {cfg['kind']}{fam}"
    x = X[samples].clone()
    # other tenants' channel groups hold whatever they hold
    grp = take[0]["grp"] if all(r["grp"] == take[0]["grp"] for r in take) else None
    if grp is not None:
        ci = cfg["cin"] // cfg["groups"]
        noise = 3.0 * tensor(rng.seed63(), tuple(x.shape), dt)
        keep = torch.zeros(x.shape[1], dtype=torch.bool)
        keep[grp * ci:(grp + 1) * ci] = True
        x[:, ~keep] = noise[:, ~keep]
    x = layout(x, plan["lay"])
    Ho = pool[cols].clone()
    parts = partition(Hin.shape[0], rng) if plan["partial"] and not lift and not cfg["permute"] else None
    if parts is None:
        y, H2 = call(x, Hin, Ho, what)
    else:
        # workers hold parts of the input poses; their answers add up
        y, H2 = 0, Ho
        b = 0 if bias is None else bias.detach()
        for p in parts:
            if not p:
                continue
            q, _ = call(x[:, :, p], Hin[p], Ho, what + f", input poses {p} of {Hin.shape[0]}")
            y = y + (q - b)
        y = y + b
        ctx.probes["partial_sums"] += 1
    co = cfg["cout"] // cfg["groups"]
    chan = list(range(cfg["cout"])) if grp is None else list(range(grp * co, (grp + 1) * co))
    z = srv_tail(y, H2) if plan["post"] and parts is None else None
    for r, (row, cs) in zip(take, where):
        answered.add(r["i"])
        for p, c in zip(r["ps"], cs):
            H = H2[c:c + 1].clone()
            key = (r["s"], p) if not cfg["permute"] else (r["s"], p, sig(H))
            want, wantz = alone(r["s"], H, key)
            sc = float(want.abs().max()) * (1 if parts is None else 3)
            key2 = "rel" + cfg["dtype"]
            ctx.metrics[key2] = max(ctx.metrics.get(key2, 0.0), reldiff(y[row:row + 1, chan, c], want[:, chan, 0], sc))
            expect_close("batching", f"{what}: sample {r['s']} at pose {p}", y[row:row + 1, chan, c], want[:, chan, 0], eps, sc)
            if z is not None:
                expect_close("batching", f"{what} + {plan['post']}: sample {r['s']} at pose {p}", z[row:row + 1, chan, c], wantz[:, chan, 0],
                             5 * eps, float(want.abs().max()))
            if len(samples) > 1 or len(cols) > 1:
                ctx.nontrivial = True
    if grp is not None:
        ctx.probes["other_channel_groups_changed"] += 1
    ctx.ev(what, sig(y))
    ctx.state(f"{fam}{cfg['kind']}{plan['merge']}{samples}{cols}{parts}{grp}")
