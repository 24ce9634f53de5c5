"""C04: a restored checkpoint is the same function."""
from __future__ import annotations

import copy
import io
import pickle

import torch
from torch import nn

from .. import poses
from ..common import *  # noqa: F401,F403
from ..disk import CrashNow, SimDisk
from ..world import World, seed_all

ID = "C04"
QUICK = 900
THOROUGH = 12000
RULE = ("A run is a training program on a small model in a process that saves checkpoints to a simulated disk (torn, short, "
        "lost and failing writes), crashes, and is restarted in a new process with other seeds, where loads may first fail "
        "midway; the restored model must give the features and gradients recorded at the save and redo the lost training "
        "steps identically. Non-trivial: at least one restore was compared.")
STATES = "hash of (layer kinds, operation sequence, fault kinds)"
LISTS = ("ops", "steps")
REAL = "all of gconv; torch.save/torch.load/pickle, load_state_dict, autograd"
STUBS = "disk (in memory, with faults), process crash and restart (a new copy of gconv), clock, os.urandom"


def gen(rng, tier):
    unc = rng.chance(0.03)
    if unc:
        cfg = gen_cfg(rng, uncached=True, kinds=("lift", "sep"), fams=("SE3", "E3"), custom=False)
        cfg.update(cin=1, cout=1, groups=1, k=1 if rng.chance(0.5) else 3, padding=1, pmode="zeros", dilation=1, stride=1, size=3)
    else:
        cfg = gen_cfg(rng)
    cfg["permute"] = rng.chance(0.8)
    cfgs = [cfg]
    if not unc and rng.chance(0.35):
        c2 = gen_cfg(rng, kinds=("sep", "full"), fams=(cfg["fam"],), cin=cfg["cout"], dtypes=(cfg["dtype"],))
        c2.update(k=1 if rng.chance(0.6) else 3, padding=1, pmode="zeros", dilation=1, stride=1, permute=rng.chance(0.8))
        cfgs.append(c2)
    ops = []
    for _ in range(rng.pick([2, 3, 4, 5, 6])):
        ops.append(rng.wpick([
            (dict(op="train", seed=rng.seed63()), 4),
            (dict(op="save", how=rng.wpick([("state", 5), ("model", 2), ("pickle", 1)]),
                  fault=rng.wpick([(None, 5), ("enospc", 1), ("eio", 1), ("crash", 1), ("lost", 1)]),
                  at=rng.random()), 4),
            (dict(op="crash", torn=rng.pick([0.0, 0.3, 0.9])), 3),
            (dict(op="deepcopy"), 1),
            (dict(op="use", seed=rng.seed63()), 1),
            (dict(op="mode", train=rng.chance(0.5)), 1)]))
    if not any(o["op"] == "save" and o["fault"] is None for o in ops):
        ops.insert(rng.randrange(len(ops) + 1), dict(op="save", how=rng.pick(["state", "state", "model"]), fault=None, at=0.0))
    ops.append(dict(op="crash", torn=rng.pick([0.0, 0.5])))
    for o in ops:
        if o["op"] == "crash":
            o.update(seed=rng.seed63(), used=rng.pick([None, None, "eval", "eval", "train", "both"]), other_grid=rng.chance(0.4), assign=rng.chance(0.2),
                     partial=rng.chance(0.25), copyback=rng.chance(0.15),
                     fault=[rng.pick(["alloc", "oom", "interrupt"]), rng.randrange(1, 60)] if rng.chance(0.25) else None)
    return dict(cfgs=cfgs, norm=rng.chance(0.3), wrap=rng.chance(0.3), ops=ops, probe=rng.seed63(),
                batch=rng.pick([1, 2]), hin=gen_poses(rng, cfg, rng.pick([2, 3, 4])))


class Net(nn.Module):
    def __init__(self, convs, norm, act):
        super().__init__()
        self.convs = nn.ModuleList(convs)
        self.norm = norm
        self.act = act

    def forward(self, x, H):
        for i, c in enumerate(self.convs):
            x, H = c(x, H) if H is not None else c(x)
            if i == 0:
                if self.norm is not None:
                    x, H = self.norm(x, H)
                if self.act is not None:
                    x, H = self.act(x, H)
        return x, H


def make(ctx, world, plan, other=False):
    D = poses.dim(plan["cfgs"][0]["fam"])
    dt = DT[plan["cfgs"][0]["dtype"]]

    def go():
        convs = []
        for cfg in plan["cfgs"]:
            if other and cfg["grid"] is not None:
                cfg = dict(cfg, grid=dict(cfg["grid"], seed=cfg["grid"]["seed"] + 1))
            convs.append(build(world, cfg))
        c = plan["cfgs"][0]["cout"]
        norm = getattr(world.gnn, f"GBatchNorm{D}d")(c).to(dt) if plan["norm"] else None
        act = world.gnn.GWrap(nn.PReLU(c)).to(dt) if plan["wrap"] else None
        return Net(convs, norm, act)
    return sut(ctx, "build net", go, world)


def inputs(plan):
    cfg = plan["cfgs"][0]
    dt = DT[cfg["dtype"]]
    if cfg["kind"] == "lift":
        return tensor(plan["probe"], feat_shape(cfg, plan["batch"], 0), dt), None
    H = make_poses(plan["hin"], cfg["fam"], dt)
    return tensor(plan["probe"], feat_shape(cfg, plan["batch"], H.shape[0]), dt), H


def infer(ctx, world, net, plan):
    """Features and poses of inference from the generator state of the probe."""
    x, H = inputs(plan)

    def go():
        torch.manual_seed(plan["probe"] & 0xFFFFFFFF)
        with torch.no_grad():
            return net(x.clone(), None if H is None else H.clone())
    return sut(ctx, "use", go, world)


def probe(ctx, world, net, plan):
    """Features, poses and gradients from a fixed generator state, in eval mode
    as well as state that training changes."""
    x, H = inputs(plan)
    mode = net.training
    net.eval()

    def go():
        torch.manual_seed(plan["probe"] & 0xFFFFFFFF)
        z = x.clone().requires_grad_(True)
        y, Ho = net(z, None if H is None else H.clone())
        ps = [p for p in net.parameters()]
        g = torch.autograd.grad((y * y).sum() + y.sum(), [z, *ps], allow_unused=True)
        return y.detach(), Ho.detach(), [torch.zeros(()) if q is None else q.detach() for q in g]
    try:
        yi, Hi = infer(ctx, world, net, plan)
        r = sut(ctx, "probe", go, world)
        compare(plan, (yi, Hi, []), (r[0], r[1], []), "the same call without and with gradients")
        return r
    finally:
        net.train(mode)


def train(ctx, world, net, plan, seed):
    x, H = inputs(plan)

    def go():
        torch.manual_seed(seed & 0xFFFFFFFF)
        z = x + 0.3 * tensor(seed, tuple(x.shape), x.dtype)
        for p in net.parameters():
            p.grad = None
        y, _ = net(z, None if H is None else H.clone())
        loss = ((y - 0.5) ** 2).mean()
        loss.backward()
        with torch.no_grad():
            for p in net.parameters():
                if p.grad is not None:
                    n = p.grad.norm()
                    p -= 0.05 * p.grad / (1.0 + n)
    sut(ctx, "train", go, world)


def compare(plan, got, want, what):
    dtp = plan["cfgs"][0]["dtype"]
    t = tol(dtp, 2e-3, 2e-3)
    fam = plan["cfgs"][-1]["fam"]
    if got[1].shape != want[1].shape or pose_err(fam, got[1], want[1]) > 1e-3:
        raise Violation("poses", f"{what}: other output poses from the same generator state")
    expect_close("features", f"{what}: features", got[0], want[0], t)
    for i, (a, b) in enumerate(zip(got[2], want[2])):
        sc = max(q.abs().max().item() if q.numel() else 0.0 for q in want[2])
        expect_close("gradients", f"{what}: gradient {i}", a, b, 5 * t, 1e-2 * sc)


def write(ctx, disk, world, net, how, fault, at, name):
    """A careful program's save: write, sync, rename. Returns True if it believes it succeeded."""
    def blob():
        b = io.BytesIO()
        if how == "state":
            torch.save(net.state_dict(), b)
        elif how == "model":
            torch.save(net, b)
        else:
            pickle.dump(net, b)
        return b.getvalue()
    data = sut(ctx, "save " + how, blob, world)
    f = disk.create(name + ".tmp", fault if fault != "lost" else None, int(at * len(data)))
    try:
        for i in range(0, len(data), 4096):
            f.write(data[i:i + 4096])
    except OSError:
        return False
    f.done()
    disk.fsync(name + ".tmp", lie=fault == "lost")
    disk.rename(name + ".tmp", name)
    disk.sizes[name] = len(data)
    return True


def run(plan, ctx):
    w = World()
    seed_all(plan["seed"])
    net = make(ctx, w, plan)
    disk = SimDisk(ctx)
    saves = []          # (name, how, probe at the save, index into steps)
    steps = []          # (seed or mode, probe after)
    nsave = 0
    ctx.state("".join(c["fam"] + c["kind"] for c in plan["cfgs"]) + str([(o["op"], o.get("how"), o.get("fault") if o["op"] == "save" else None) for o in plan["ops"]]))
    for k, o in enumerate(plan["ops"]):
        op = o["op"]
        what = f"op {k} ({op})"
        crash = op == "crash"
        if op == "train":
            train(ctx, w, net, plan, o["seed"])
            steps.append(("train", o["seed"], probe(ctx, w, net, plan)))
        elif op == "mode":
            net.train(o["train"])
            steps.append(("mode", o["train"], probe(ctx, w, net, plan)))
        elif op == "use":
            before = probe(ctx, w, net, plan)
            m = net.training
            net.eval()
            infer(ctx, w, net, plan)
            net.train(m)
            compare(plan, probe(ctx, w, net, plan), before, what)
        elif op == "deepcopy":
            before = probe(ctx, w, net, plan)
            cp = sut(ctx, "deepcopy", lambda: copy.deepcopy(net), w)
            compare(plan, probe(ctx, w, cp, plan), before, what + ": the copy")
            train(ctx, w, cp, plan, 17 + k)
            compare(plan, probe(ctx, w, net, plan), before, what + ": the original after training the copy")
            ctx.nontrivial = True
        elif op == "save":
            before = probe(ctx, w, net, plan)
            name = f"ckpt{nsave:03d}"
            nsave += 1
            try:
                ok = write(ctx, disk, w, net, o["how"], o["fault"], o["at"], name)
            except CrashNow:
                crash, ok = True, False
                o = dict(torn=0.5, seed=o.get("seed", plan["seed"] + k), used=False, other_grid=True, assign=False,
                         partial=False, copyback=False, fault=None)
            if ok:
                saves.append((name, plan["ops"][k]["how"], before, len(steps), net.training))
            if not crash:
                compare(plan, probe(ctx, w, net, plan), before, what + ": the saved model itself")
        if crash:
            ctx.faults["crash"] += 1
            disk.crash(o["torn"])
            w, net, sv = restore(ctx, plan, disk, saves, o, what)
            if sv is None:
                # nothing durable: start over
                seed_all(plan["seed"])
                net = make(ctx, w, plan)
                steps.clear()
                saves.clear()
                continue
            name, how, want, at, mode = sv
            net.train(mode)
            compare(plan, probe(ctx, w, net, plan), want, f"{what}: restored from {name} ({how})")
            ctx.nontrivial = True
            # redo what was lost
            redo = steps[at:]
            del steps[at:]
            saves = [s for s in saves if s[0] <= name]
            for kind, v, want in redo:
                if kind == "train":
                    train(ctx, w, net, plan, v)
                else:
                    net.train(v)
                got = probe(ctx, w, net, plan)
                compare(plan, got, want, f"{what}: redone {kind} step after restoring {name} ({how})")
                ctx.ops["redone"] += 1
                steps.append((kind, v, want))
            ctx.ev(k, name, how, sig(want[0]))


def restore(ctx, plan, disk, saves, o, what):
    """A new process finds what is on the disk."""
    w = World()
    seed_all(o["seed"])
    net = None
    good = {s[0]: s for s in saves}
    for name in sorted(disk.cache, reverse=True):
        base = name.removesuffix(".tmp")
        try:
            how = good[base][1] if base in good else "state"

            def read():
                b = disk.read(name)
                if how == "pickle":
                    return pickle.load(b)
                return torch.load(b, weights_only=(how == "state"))
            with w.activate():
                obj = read()
        except Exception as e:
            if name in good and len(disk.cache[name]) == disk.sizes[name]:
                raise Violation("exception", f"{what}: loading {name} raised {brief(e)}")
            ctx.probes["torn_file_rejected"] += 1
            continue
        if name.endswith(".tmp") or base not in good:
            ctx.probes["complete_but_unacknowledged"] += 1
            continue
        if how != "state":
            return w, obj, good[base]
        if net is None:
            net = make(ctx, w, plan, other=o["other_grid"])
            if o["used"] in ("eval", "both", True):
                if o["used"] != "eval":
                    train(ctx, w, net, plan, o["seed"])
                net.eval()
                infer(ctx, w, net, plan)
            elif o["used"]:
                train(ctx, w, net, plan, o["seed"])
        sd = obj
        if o["partial"]:
            keys = list(sd)
            part = {k: sd[k] for k in keys[:max(1, len(keys) // 2)]}
            try:
                sut(ctx, "load partial", lambda: net.load_state_dict(part), w, allow=(RuntimeError,))
            except RuntimeError:
                ctx.faults["partial_state_dict"] += 1
        if o["fault"]:
            try:
                sut(ctx, "load faulted", lambda: net.load_state_dict(sd, assign=o["assign"]), w,
                    fault=tuple(o["fault"]), allow=(RuntimeError,))
            except BaseException as e:
                if not is_sim(e) and not isinstance(e, RuntimeError):
                    raise
        if o["copyback"]:
            sd = {k: v.clone() for k, v in sd.items()}
        sut(ctx, "load", lambda: net.load_state_dict(sd, assign=o["assign"]), w)
        if o["assign"]:
            for p in net.parameters():
                p.requires_grad_(True)
        return w, net, good[base]
    return w, net, None

