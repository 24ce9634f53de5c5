"""C13: element-wise, norm and pooling layers follow their plain counterparts."""
from __future__ import annotations

import copy
import io
import pickle

import torch
import torch.nn.functional as F
from torch import nn

from .. import poses
from ..common import *  # noqa: F401,F403
from ..disk import CrashNow, SimDisk
from ..world import World, seed_all

ID = "C13"
QUICK = 3600
THOROUGH = 40000
RULE = ("A run is a chain of one to three element-wise, norm or pooling layers and a history of calls in train and eval mode on features of "
        "changing size, memory layout and poses, gradient steps, casts, failed calls, checkpoints to a faulty disk, crashes and restarts in a new "
        "process; features, gradients and running state are refined step by step against a reference model written without the library. "
        "Non-trivial: at least one call was compared.")
STATES = "hash of (layer kinds and settings, operation sequence)"
LISTS = ("ops", "layers")
REAL = "gconv.gnn normalization, pooling, wrappers, activations; torch modules below them; save and load"
STUBS = "disk (in memory, with faults), process crash and restart (a new copy of gconv)"

NORMS = ("bnorm", "inorm", "lnorm")
ELEM = ("relu", "gelu", "leaky", "wrap")
POOLS = ("maxsp", "avgsp", "amaxsp", "aavgsp")
FINAL = ("maxg", "avgg", "maxglob", "avgglob")


def gen_layer(rng, D, C, last):
    kind = rng.wpick([("bnorm", 6), ("inorm", 4), ("lnorm", 2), ("relu", 1), ("gelu", 1), ("leaky", 1), ("wrap", 3),
                      ("maxsp", 3), ("avgsp", 3), ("amaxsp", 2), ("aavgsp", 2)] +
                     ([("maxg", 2), ("avgg", 2), ("maxglob", 2), ("avgglob", 2)] if last else []))
    s = dict(kind=kind)
    if kind in ("bnorm", "inorm"):
        s.update(eps=rng.pick([1e-5, 1e-5, 1e-2]), momentum=rng.pick([0.1, 0.1, 0.5, 1.0] + ([None] if kind == "bnorm" else [])),
                 affine=rng.chance(0.7) if kind == "bnorm" else rng.chance(0.4),
                 track=rng.chance(0.8) if kind == "bnorm" else rng.chance(0.4))
    elif kind == "lnorm":
        s.update(dims=rng.pick(["W", "space", "Hspace", "all"]), eps=rng.pick([1e-5, 1e-3]), affine=rng.chance(0.6), bias=rng.chance(0.7))
    elif kind == "relu":
        s.update(inplace=rng.chance(0.3))
    elif kind == "gelu":
        s.update(approx=rng.pick(["none", "tanh"]))
    elif kind == "leaky":
        s.update(slope=rng.pick([0.01, 0.2, -0.1]))
        s["inplace"] = s["slope"] > 0 and rng.chance(0.2)
    elif kind == "wrap":
        s.update(mod=rng.pick(["prelu", "preluC", "sigmoid", "elu", "dropout", "dropout3", "seq", "softplus", "identity", "wrapseq"]), p=rng.pick([0.2, 0.5]))
    elif kind in ("maxsp", "avgsp"):
        k = [rng.pick([1, 2, 2, 3]) for _ in range(D)]
        if rng.chance(0.6):
            k = [k[0]] * D
        s.update(k=k if len(set(k)) > 1 or rng.chance(0.3) else k[0], ceil=rng.chance(0.3),
                 stride=rng.pick([None, 1, 2, 3, [rng.pick([1, 2]) for _ in range(D)]]))
        s["padding"] = rng.pick([0, min(k) // 2])
        if kind == "maxsp":
            s["dilation"] = rng.wpick([(1, 4), (2, 1)])
        else:
            s["count"] = rng.chance(0.7)
            s["div"] = rng.wpick([(None, 4), (3, 1)])
    elif kind in ("amaxsp", "aavgsp"):
        s["out"] = rng.pick([1, 2, 3, [rng.pick([1, 2, 3, None]) for _ in range(D)]])
    return s


def gen(rng, tier):
    D = rng.pick([2, 3])
    C = rng.wpick([(rng.pick([1, 2, 3, 4]), 30), (rng.pick([8, 17, 33]), 1)])
    n = rng.pick([1, 1, 1, 2, 3])
    layers = [gen_layer(rng, D, C, i == n - 1) for i in range(n)]
    if any(l["kind"] == "lnorm" for l in layers):
        fixed = True
        # layer norm has fixed sizes: keep it first
        ln = next(l for l in layers if l["kind"] == "lnorm")
        layers = [ln] + [l for l in layers if l["kind"] != "lnorm"]
    else:
        fixed = False
    for l in layers[1:]:
        if "inplace" in l:
            l["inplace"] = False        # would overwrite what the layer before needs for its gradient
    ops = []
    for _ in range(rng.pick([2, 3, 4, 6, 8]) if not rng.chance(0.02) else rng.pick([20, 40, 70])):
        ops.append(rng.wpick([
            (dict(op="call", train=rng.chance(0.6), grad=rng.chance(0.6), step=rng.chance(0.5)), 8),
            (dict(op="save", how=rng.pick(["state", "state", "model", "pickle"]), fault=rng.wpick([(None, 5), ("enospc", 1), ("eio", 1), ("crash", 1), ("lost", 1)]),
                  at=rng.random()), 2),
            (dict(op="crash", torn=rng.pick([0.0, 0.5])), 1),
            (dict(op="deepcopy"), 1),
            (dict(op="plain"), 1),
            (dict(op="reset"), 0.4),
            (dict(op="failed", fault=[rng.pick(["alloc", "oom", "interrupt"]), rng.randrange(1, 8)]), 1),
            (dict(op="cast"), 0.5)]))
        o = ops[-1]
        if o["op"] in ("call", "failed"):
            o.update(seed=rng.seed63(), batch=rng.pick([1, 2, 3]), nH=rng.pick([1, 2, 3, 4]),
                     lay=rng.pick(["plain", "plain", "strided", "perm", "offset", "chlast", "expand", "Hlast"]),
                     size=[rng.pick([3, 4, 5, 6] if D == 2 else [3, 4]) for _ in range(D)],
                     data=rng.pick(["normal", "normal", "neg", "shift", "tiny", "special", "huge"]),
                     hreq=rng.chance(0.1), poison=rng.pick([None, "nan", "noise"]), noH=rng.chance(0.3))
            if rng.chance(0.04):
                # more of something than anything tuned to small features expects
                big = rng.pick(["batch", "nH", "size"])
                o[big] = rng.pick([9, 17, 33, 70]) if big != "size" else [rng.pick([2, 3, 9, 17, 33] if D == 2 else [2, 3, 9, 17]) for _ in range(D)]
                if big != "batch":
                    o["batch"] = 1
            # single layers (or what a wrapper holds) kept in the other mode
            o["other"] = [i for i in range(n) if rng.chance(0.1)] if o["op"] == "call" else []
            if fixed:
                o.update(nH=3, size=[4] * D)
    if not any(o["op"] == "call" for o in ops):
        ops.append(dict(op="call", train=True, grad=True, step=True, seed=rng.seed63(), batch=2, nH=3, lay="plain", size=[4] * D, data="normal",
                        hreq=False, poison=None, noH=False))
    return dict(D=D, C=C, layers=layers, ops=ops, dtype=rng.pick(["f32", "f64"]), fam=rng.pick(["SE2", "E2"] if D == 2 else ["SE3", "E3"]),
                sub=rng.chance(0.3))


def wrapped(s, C):
    m = s["mod"]
    if m == "prelu":
        return nn.PReLU()
    if m == "preluC":
        return nn.PReLU(C)
    if m == "sigmoid":
        return nn.Sigmoid()
    if m == "elu":
        return nn.ELU()
    if m == "dropout":
        return nn.Dropout(s["p"])
    if m == "dropout3":
        return nn.AlphaDropout(s["p"])
    if m == "softplus":
        return nn.Softplus()
    if m == "identity":
        return nn.Identity()
    return nn.Sequential(nn.PReLU(C), nn.Tanh(), nn.PReLU())


def tup(v):
    return tuple(v) if isinstance(v, list) else v


def make_layer(world, s, plan):
    g, D, C, k = world.gnn, plan["D"], plan["C"], s["kind"]
    dt = DT[plan["dtype"]]
    if k == "bnorm":
        return getattr(g, f"GBatchNorm{D}d")(C, eps=s["eps"], momentum=s["momentum"], affine=s["affine"], track_running_stats=s["track"]).to(dt)
    if k == "inorm":
        return getattr(g, f"GInstanceNorm{D}d")(C, eps=s["eps"], momentum=s["momentum"], affine=s["affine"], track_running_stats=s["track"]).to(dt)
    if k == "lnorm":
        return g.GLayerNorm(ln_shape(s, plan), eps=s["eps"], elementwise_affine=s["affine"], bias=s["bias"]).to(dt)
    if k == "relu":
        return g.GReLU(inplace=s["inplace"])
    if k == "gelu":
        return g.GGELU(approximate=s["approx"])
    if k == "leaky":
        return g.GLeakyReLU(s["slope"], s["inplace"])
    if k == "wrap":
        return g.GWrap(wrapped(s, C)).to(dt)
    if k == "maxsp":
        return getattr(g, f"GMaxSpatialPool{D}d")(tup(s["k"]), tup(s["stride"]), s["padding"], s["dilation"], ceil_mode=s["ceil"])
    if k == "avgsp":
        return getattr(g, f"GAvgSpatialPool{D}d")(tup(s["k"]), tup(s["stride"]), s["padding"], s["ceil"], s["count"], s["div"])
    if k == "amaxsp":
        return getattr(g, f"GAdaptiveMaxSpatialPool{D}d")(tup(s["out"]))
    if k == "aavgsp":
        return getattr(g, f"GAdaptiveAvgSpatialPool{D}d")(tup(s["out"]))
    return {"maxg": g.GMaxGroupPool, "avgg": g.GAvgGroupPool, "maxglob": g.GMaxGlobalPool, "avgglob": g.GAvgGlobalPool}[k]()


def ln_shape(s, plan):
    D, C = plan["D"], plan["C"]
    return {"W": [4], "space": [4] * D, "Hspace": [3] + [4] * D, "all": [C, 3] + [4] * D}[s["dims"]]


class Ref:
    """The reference model of one layer: formulas over plain tensors."""

    def __init__(self, s, plan, dt):
        self.s, self.plan = s, plan
        C, k = plan["C"], s["kind"]
        self.p, self.b = {}, {}
        self.amp = 1.0          # how much the last call amplified rounding
        if k in ("bnorm", "inorm"):
            if s["affine"]:
                self.p = dict(weight=torch.ones(C, dtype=dt), bias=torch.zeros(C, dtype=dt))
            if s["track"]:
                self.b = dict(running_mean=torch.zeros(C, dtype=dt), running_var=torch.ones(C, dtype=dt), num_batches_tracked=torch.tensor(0))
        elif k == "lnorm" and s["affine"]:
            sh = ln_shape(s, plan)
            self.p = dict(weight=torch.ones(sh, dtype=dt))
            if s["bias"]:
                self.p["bias"] = torch.zeros(sh, dtype=dt)
        elif k == "wrap":
            m = wrapped(s, C)
            self.p = {"module." + n: v.detach().clone().to(dt) for n, v in m.named_parameters()}
        for n in self.p:
            self.p[n].requires_grad_(True)

    def load(self, st):
        self.p = {n: st[n].clone().requires_grad_(True) for n in self.p}
        self.b = {n: st[n].clone() for n in self.b}

    def state(self):
        return {**{n: v.detach().clone() for n, v in self.p.items()}, **{n: v.clone() for n, v in self.b.items()}}

    def cast(self, dt):
        self.p = {n: v.detach().to(dt).requires_grad_(True) for n, v in self.p.items()}
        self.b = {n: v.to(dt) if v.is_floating_point() else v for n, v in self.b.items()}

    def forward(self, x, train):
        s, k, D = self.s, self.s["kind"], self.plan["D"]
        self.kink = float("inf")
        if (k in ("relu", "leaky") or k == "wrap" and s["mod"] in ("prelu", "preluC", "seq", "wrapseq")) and x.numel():
            self.kink = float(x.detach().abs().min())
        if k in ("bnorm", "inorm"):
            return self.norm(x, train)
        if k == "lnorm":
            n = len(ln_shape(s, self.plan))
            dims = list(range(x.dim() - n, x.dim()))
            m = x.mean(dims, keepdim=True)
            v = ((x - m) ** 2).mean(dims, keepdim=True)
            self.amp = float(((x - m).detach().abs().amax() + m.detach().abs().amax()) / torch.sqrt(v + s["eps"]).amin())
            y = (x - m) / torch.sqrt(v + s["eps"])
            if self.p:
                y = y * self.p["weight"]
                if "bias" in self.p:
                    y = y + self.p["bias"]
            return y
        if k == "relu":
            return torch.where(x > 0, x, torch.zeros_like(x)) if not torch.isnan(x).any() else F.relu(x)
        if k == "gelu":
            return F.gelu(x, approximate=s["approx"])
        if k == "leaky":
            return torch.where(x > 0, x, x * s["slope"])
        if k == "wrap":
            return self.wrap(x, train)
        if k in POOLS:
            # pose by pose
            return torch.stack([self.pool(x[:, :, h]) for h in range(x.shape[2])], 2)
        if k == "maxg":
            return torch.amax(x, 2)
        if k == "avgg":
            return sum(x[:, :, h] for h in range(x.shape[2])) / x.shape[2]
        flat = x.reshape(x.shape[0], x.shape[1], -1)
        return (torch.amax(flat, -1) if k == "maxglob" else flat.sum(-1) / flat.shape[-1]).unsqueeze(-1)

    def wrap(self, x, train):
        m = self.s["mod"]
        P = list(self.p.values())

        def prelu(x, a):
            a = a if a.numel() == 1 else a.view(1, -1, *([1] * (x.dim() - 2)))
            return torch.where(x > 0, x, a * x)
        if m in ("prelu", "preluC"):
            return prelu(x, P[0])
        if m == "sigmoid":
            return 1 / (1 + torch.exp(-x))
        if m == "elu":
            return torch.where(x > 0, x, torch.expm1(x))
        if m == "dropout":
            return F.dropout(x, self.s["p"], train)
        if m == "dropout3":
            return F.alpha_dropout(x, self.s["p"], train)
        if m == "softplus":
            return F.softplus(x)
        if m == "identity":
            return x
        return prelu(torch.tanh(prelu(x, P[0])), P[1])

    def pool(self, x):
        s, k, D = self.s, self.s["kind"], self.plan["D"]
        if k == "maxsp":
            f = F.max_pool2d if D == 2 else F.max_pool3d
            return f(x, tup(s["k"]), tup(s["stride"]), s["padding"], s["dilation"], ceil_mode=s["ceil"])
        if k == "avgsp":
            f = F.avg_pool2d if D == 2 else F.avg_pool3d
            return f(x, tup(s["k"]), tup(s["stride"]), s["padding"], s["ceil"], s["count"], s["div"])
        if k == "amaxsp":
            return (F.adaptive_max_pool2d if D == 2 else F.adaptive_max_pool3d)(x, tup(s["out"]))
        return (F.adaptive_avg_pool2d if D == 2 else F.adaptive_avg_pool3d)(x, tup(s["out"]))

    def norm(self, x, train):
        s = self.s
        per = s["kind"] == "inorm"
        sh = (1, -1) + (1,) * (x.dim() - 2)
        dims = list(range(2, x.dim())) if per else [0] + list(range(2, x.dim()))
        use_batch = train or not s["track"]
        if use_batch:
            m = x.mean(dims, keepdim=True)
            v = ((x - m) ** 2).mean(dims, keepdim=True)
            if train and s["track"]:
                n = x.numel() // m.numel()
                with torch.no_grad():
                    mm = m.detach().flatten(1).mean(0) if per else m.detach().flatten()
                    vv = v.detach() * n / (n - 1)
                    vv = vv.flatten(1).mean(0) if per else vv.flatten()
                    if not per:
                        self.b["num_batches_tracked"] = self.b["num_batches_tracked"] + 1
                    f = s["momentum"] if s["momentum"] is not None else 1.0 / float(self.b["num_batches_tracked"])
                    self.b["running_mean"] = (1 - f) * self.b["running_mean"] + f * mm
                    self.b["running_var"] = (1 - f) * self.b["running_var"] + f * vv
        else:
            m, v = self.b["running_mean"].view(sh), self.b["running_var"].view(sh)
        self.amp = float(((x - m).detach().abs().amax() + m.detach().abs().amax()) / torch.sqrt(v + s["eps"]).amin())
        y = (x - m) / torch.sqrt(v + s["eps"])
        if self.p:
            y = y * self.p["weight"].view(sh) + self.p["bias"].view(sh)
        return y


def data(o, plan, dt):
    shape = (o["batch"], plan["C"], o["nH"], *o["size"])
    x = tensor(o["seed"], shape, torch.float64)
    if o["data"] == "neg":
        x = -x.abs() - 0.5
    elif o["data"] == "shift":
        x = x * 2 + 3 + torch.arange(plan["C"], dtype=torch.float64).view(1, -1, *([1] * (x.dim() - 2)))
    elif o["data"] == "tiny":
        x = x * 1e-3
    elif o["data"] == "huge" and not any(l["kind"] == "wrap" for l in plan["layers"]):
        x = -x.abs() * 1e6 - 1e5 if o["seed"] % 2 else x * 1e6
    x = x.to(dt)
    if o["data"] == "special" and all(l["kind"] in ("relu", "maxsp", "amaxsp", "maxg", "maxglob") for l in plan["layers"]):
        v = x.flatten()
        v[o["seed"] % v.numel()] = float("-inf")
        v[(o["seed"] // 7) % v.numel()] = float("inf")
    if 1 in x.shape and any(l["kind"] in ("bnorm", "inorm") for l in plan["layers"]) and o["lay"] in ("chlast", "Hlast", "perm"):
        # torch's own batch norm gives wrong gradients for some strides of size one dimensions
        return x
    if any(l.get("mod", "").startswith("dropout") for l in plan["layers"]):
        # which element a draw goes to depends on the memory layout
        return x
    if o["lay"] == "chlast":
        n = x.dim()
        perm = [0] + list(range(2, n)) + [1]
        return x.permute(perm).contiguous().permute([0, n - 1] + list(range(1, n - 1)))
    if o["lay"] == "Hlast":
        return x.movedim(2, -1).contiguous().movedim(-1, 2)
    if o["lay"] == "expand" and not plan["layers"][0].get("inplace"):
        return x[:, :, :1].expand(x.shape)
    return layout(x, o["lay"]) if o["lay"] != "expand" else x


class Chain(nn.Module):
    def __init__(self, mods):
        super().__init__()
        self.m = nn.ModuleList(mods)


def too_small(plan, o):
    """Sizes the plain operation rejects."""
    D = plan["D"]
    sp = list(o["size"])
    n = o["batch"]
    for l in plan["layers"]:
        if l["kind"] in ("maxsp", "avgsp"):
            try:
                r = Ref(l, plan, torch.float32).pool(torch.zeros(1, 1, *sp))
            except Exception:
                return True
            sp = list(r.shape[2:])
            if min(sp) < 1 or not torch.isfinite(r).all():
                return True         # a window without any element: torch writes out of bounds there
        elif l["kind"] in ("amaxsp", "aavgsp"):
            out = l["out"] if isinstance(l["out"], list) else [l["out"]] * D
            sp = [a if b is None else b for a, b in zip(sp, out)]
        elif l["kind"] in ("bnorm", "inorm"):
            m = o["nH"]
            for a in sp:
                m *= a
            if m < 2:
                return True
    return False


def run(plan, ctx):
    w = World()
    seed_all(plan["seed"])
    D = plan["D"]
    dt = DT[plan["dtype"]]
    ctx.state(str([sorted((k, str(v)) for k, v in l.items()) for l in plan["layers"]]) + str([o["op"] for o in plan["ops"]]) + str(D))
    if "wrap" in [l["kind"] for l in plan["layers"]]:
        pass
    net = sut(ctx, "build", lambda: Chain([make_layer(w, s, plan) for s in plan["layers"]]), w)
    refs = [Ref(s, plan, dt) for s in plan["layers"]]
    check_state(ctx, net, refs, "a new layer", dt)
    disk, saves, nsave = SimDisk(ctx), {}, 0
    init = [r.state() for r in refs]
    for k, o in enumerate(plan["ops"]):
        what = f"op {k} ({o['op']}) on " + "+".join(l["kind"] for l in plan["layers"]) + f" {D}d"
        crash = o["op"] == "crash"
        torn = o.get("torn", 0.5)
        if o["op"] == "call":
            if too_small(plan, o):
                ctx.probes["too_small"] += 1
                continue
            call(ctx, w, net, refs, plan, o, dt, what)
        elif o["op"] == "failed":
            if too_small(plan, o):
                continue
            net.eval()
            x = data(o, plan, dt)
            H = make_poses(dict(seed=o["seed"], n=o["nH"], how="rand"), plan["fam"], dt)
            try:
                sut(ctx, "failed", lambda: chain(net, plan, x, H, o), w, fault=tuple(o["fault"]), poison=o["poison"])
            except BaseException as e:
                if not is_sim(e):
                    raise
            check_state(ctx, net, refs, what, dt)
        elif o["op"] == "save":
            name = f"c{nsave}"
            nsave += 1

            def blob():
                b = io.BytesIO()
                if o["how"] == "state":
                    torch.save(net.state_dict(), b)
                elif o["how"] == "model":
                    torch.save(net, b)
                else:
                    pickle.dump(net, b)
                return b.getvalue()
            raw = sut(ctx, "save", blob, w)
            f = disk.create(name + ".tmp", o["fault"] if o["fault"] != "lost" else None, int(o["at"] * len(raw)))
            try:
                for i in range(0, len(raw), 1024):
                    f.write(raw[i:i + 1024])
                f.done()
                disk.fsync(name + ".tmp", lie=o["fault"] == "lost")
                disk.rename(name + ".tmp", name)
                saves[name] = (o["how"], [r.state() for r in refs], len(raw))
            except CrashNow:
                crash = True
            except OSError:
                pass
        elif o["op"] == "deepcopy":
            cp = sut(ctx, "deepcopy", lambda: copy.deepcopy(net), w)
            check_state(ctx, cp, refs, what, dt)
            with torch.no_grad():
                for t in list(cp.parameters()) + list(cp.buffers()):
                    t.add_(1)
            check_state(ctx, net, refs, what + ": the original", dt)
        elif o["op"] == "plain":
            load_plain(ctx, w, net, refs, plan, dt, what)
        elif o["op"] == "reset":
            for m, r in zip(net.m, refs):
                if r.b:
                    sut(ctx, "reset", m.reset_running_stats, w)
                    r.b = Ref(r.s, plan, dt).b
            check_state(ctx, net, refs, what, dt)
        elif o["op"] == "cast":
            dt = torch.float64 if dt == torch.float32 else torch.float32
            sut(ctx, "cast", lambda: net.to(dt), w)
            for r in refs:
                r.cast(dt)
            check_state(ctx, net, refs, what, torch.float32)
            for m, r in zip(net.m, refs):
                r.load({n: t_.detach() for n, t_ in m.state_dict().items()})
        if crash:
            ctx.faults["crash"] += 1
            disk.crash(torn)
            w = World()
            seed_all(plan["seed"] + k)
            got = None
            for name in sorted(saves, reverse=True):
                how, st, size = saves[name]
                if name not in disk.cache or len(disk.cache[name]) != size:
                    ctx.probes["lost_checkpoint"] += 1
                    continue
                got = (how, st, disk.read(name))
                break
            if got is None:
                dt = DT[plan["dtype"]]
                net = sut(ctx, "build", lambda: Chain([make_layer(w, s, plan) for s in plan["layers"]]), w)
                for r, st in zip(refs, init):
                    r.load(st)
                saves.clear()
            else:
                how, st, b = got
                with w.activate():
                    obj = pickle.load(b) if how == "pickle" else torch.load(b, weights_only=how == "state")
                if how == "state":
                    net = sut(ctx, "build", lambda: Chain([make_layer(w, s, plan) for s in plan["layers"]]), w)
                    fl = [v for v in obj.values() if v.is_floating_point()]
                    if fl:
                        dt = fl[0].dtype
                        net.to(dt)
                    sut(ctx, "load", lambda: net.load_state_dict(obj), w)
                else:
                    net = obj
                    fl = [v for v in net.state_dict().values() if v.is_floating_point()]
                    if fl:
                        dt = fl[0].dtype
                for r, s in zip(refs, st):
                    r.load(s)
                ctx.probes["restored"] += 1
            check_state(ctx, net, refs, what + ": after the restart", dt)
        ctx.ev(k, o["op"], *[sig(v) for _, v in sorted(net.state_dict().items())])


def load_plain(ctx, w, net, refs, plan, dt, what):
    """A checkpoint of the plain torch layers loads into the group layers."""
    D, C = plan["D"], plan["C"]
    for m, r in zip(net.m, refs):
        s = r.s
        if s["kind"] == "bnorm":
            p = getattr(nn, f"BatchNorm{D}d")(C, affine=s["affine"], track_running_stats=s["track"]).to(dt)
        elif s["kind"] == "inorm":
            p = getattr(nn, f"InstanceNorm{D}d")(C, affine=s["affine"], track_running_stats=s["track"]).to(dt)
        else:
            continue
        with torch.no_grad():
            for i, t in enumerate(list(p.parameters()) + list(p.buffers())):
                t.copy_(tensor(plan["seed"] + i, tuple(t.shape), torch.float64, "pos").to(t.dtype)) if t.is_floating_point() else t.fill_(3)
        sd = p.state_dict()
        sut(ctx, "load", lambda: m.load_state_dict(sd), w)
        r.load(sd)
    check_state(ctx, net, refs, what, dt)


def check_state(ctx, net, refs, what, dt, amp=1.0):
    t = (1e-4 if dt == torch.float32 else 1e-8) * amp
    for m, r in zip(net.m, refs):
        sd = m.state_dict()
        want = r.state()
        if set(sd) != set(want):
            raise Violation("state", f"{what}: the {r.s['kind']} layer's state is {sorted(sd)}, its plain counterpart's {sorted(want)}")
        for n, v in want.items():
            if not v.is_floating_point():
                if int(sd[n]) != int(v):
                    raise Violation("state", f"{what}: {n} is {int(sd[n])}, its plain counterpart's {int(v)}")
            else:
                expect_close("state", f"{what}: {n}", sd[n], v, t, 1.0 if n == "running_mean" else 0.05 if len(refs) > 1 else None)


def chain(net, plan, x, H, o):
    Ho = H
    for m, s in zip(net.m, plan["layers"]):
        if s["kind"] in FINAL:
            x = m(x) if o["noH"] else m(x, Ho)
        else:
            x, Ho = m(x, Ho)
    return x, Ho


def call(ctx, w, net, refs, plan, o, dt, what):
    x = data(o, plan, dt)
    H = make_poses(dict(seed=o["seed"], n=o["nH"], how="rand"), plan["fam"], dt)
    if o["hreq"]:
        H.requires_grad_(True)
    inplace = any(s.get("inplace") for s in plan["layers"])
    finals = plan["layers"][-1]["kind"] in FINAL
    ks = [l["kind"] for l in plan["layers"]]
    ties = o["lay"] == "expand" or o["data"] == "special" or any(
        a in POOLS for i, a in enumerate(ks) for b in ks[i + 1:] if b in ("maxsp", "amaxsp", "maxg", "maxglob"))
    z = x.detach().clone()
    lx = x
    net.train(o["train"])
    other = [i for i in o.get("other", ()) if i < len(refs)]
    for i in other:
        for m in net.m[i].children() if refs[i].s["kind"] == "wrap" else [net.m[i]]:
            m.train(not o["train"])
    modes = [(n, m.training) for n, m in net.named_modules()]
    params = list(net.parameters())
    rparams = [p for r in refs for p in r.p.values()]
    if o["grad"]:
        lx.requires_grad_(True)
        z.requires_grad_(True)
    guard = ArgGuard(lx, H)
    hold = lx
    if inplace:
        # in-place layers write what they are given
        hold = lx * 1.0
    seed = o["seed"] & 0xFFFFFFFF
    with torch.set_grad_enabled(o["grad"]):
        torch.manual_seed(seed)
        y, Ho = sut(ctx, "call", lambda: chain(net, plan, hold, H, o), w, poison=o["poison"])
        torch.manual_seed(seed)
        v = z
        for i, r in enumerate(refs):
            v = r.forward(v, o["train"] != (i in other))
    if [(n, m.training) for n, m in net.named_modules()] != modes:
        raise Violation("mode", f"{what}: a call changed which modules are in training mode")
    guard.check("argument", what)
    if not isinstance(Ho, torch.Tensor) or not same(Ho.detach(), H.detach()):
        raise Violation("poses", f"{what}: the poses came back changed")
    if not isinstance(y, torch.Tensor):
        raise Violation("features", f"{what}: returned {type(y).__name__} for features")
    if y.dtype != dt:
        raise Violation("features", f"{what}: features of type {y.dtype} for {dt}")
    t = 2e-4 if dt == torch.float32 else 1e-8
    for r in refs:
        t *= max(1.0, r.amp)
    if t > 0.02:
        ctx.probes["ill_conditioned"] += 1
        for m, r in zip(net.m, refs):
            r.load({n: t_.detach() for n, t_ in m.state_dict().items()})
        return
    sc = 1.0 if any(l["kind"] in NORMS for l in plan["layers"]) else None
    expect_close("features", f"{what} ({o['lay']}, {o['data']}, train={o['train']})", y, v, t, sc)
    check_state(ctx, net, refs, what, dt, max(1.0, *[r.amp for r in refs]))
    ctx.nontrivial = True
    if len(refs) > 1 and min(r.kink for r in refs[1:]) < t:
        ties = True         # the sign is a matter of rounding
    if o["grad"] and not ties and y.numel():
        c = tensor(o["seed"] + 1, tuple(y.shape), dt)
        g = sut(ctx, "backward", lambda: torch.autograd.grad((y * c).sum(), [lx] + params, allow_unused=True), w)
        h = torch.autograd.grad((v * c).sum(), [z] + rparams, allow_unused=True)
        for i, (a, b) in enumerate(zip(g, h)):
            if (a is None) != (b is None):
                raise Violation("gradient", f"{what}: gradient {i} is {'missing' if a is None else 'unexpected'}")
            if a is not None:
                lim = 20 * t if any(s["kind"] in NORMS for s in plan["layers"]) else t
                sc = c.abs().max().item() * 1e-2
                if any(s["kind"] in NORMS for s in plan["layers"]) and o["data"] in ("tiny",):
                    sc = c.abs().max().item() * 10
                if sum(l["kind"] in NORMS for l in plan["layers"]) > 1:
                    sc = max(sc, c.abs().sum().item() * 0.1)        # the second takes most of the first's away
                expect_close("gradient", f"{what}: gradient {i} (train={o['train']})", a, b, lim, sc)
        if o["step"] and params:
            with torch.no_grad():
                for p, q, a, b in zip(params, rparams, g[1:], h[1:]):
                    n = b.norm() + 1
                    p -= 0.1 * a / n
                    q -= 0.1 * b / n
            # one state from here on: rounding must not accumulate
            for m, r in zip(net.m, refs):
                r.load({n: t_.detach() for n, t_ in m.state_dict().items()})
