"""C05: layers and served grids are isolated from one another."""
from __future__ import annotations

import copy

import torch

from .. import poses
from ..common import *  # noqa: F401,F403
from ..world import World

ID = "C05"
QUICK = 1000
THOROUGH = 15000
RULE = ("A run is a history in one process: layers are built (on default, shared given, or served grids), trained, loaded, cast, "
        "edited in place or dropped, grids are requested and edited in place; after every event each layer that was not "
        "touched must give the features it gave when last touched, and each grid request what it gives in a pristine process. "
        "Non-trivial: at least two layers alive and one mutation.")
STATES = "hash of the operation sequence"
LISTS = ("ops",)


def gen(rng, tier):
    pool = []
    base = gen_cfg(rng)
    base["grid"] = None
    for _ in range(rng.pick([1, 1, 2])):
        c = gen_cfg(rng, fams=(base["fam"],) if rng.chance(0.7) else poses.FAM)
        if c["fam"] == base["fam"] and rng.chance(0.7):
            c["gk"] = base["gk"]
        c["grid"] = None
        pool.append(c)
    pool.append(base)
    ops = []
    nl = 0
    for k in range(rng.pick([5, 7, 9, 12])):
        what = "build" if nl < 2 else rng.wpick([
            ("build", 3), ("train", 2), ("edit", 3), ("load", 2), ("cast", 1), ("callergrid", 2),
            ("grid", 4), ("deepcopy", 1), ("zero", 1), ("state_edit", 1), ("drop", 0.5), ("fwdedit", 1.5)])
        if what == "build":
            nl += 1
            ops.append(dict(op="build", cfg=rng.randrange(len(pool)), vary=rng.chance(0.3), dtype=rng.pick(["f32", "f32", "f64"]), permute=rng.chance(0.65),
                            src=rng.wpick([("default", 5), ("shared", 3), ("served", 2)])))
        elif what == "grid":
            ops.append(gen_grid(rng, base))
        elif what == "edit":
            ops.append(dict(op="edit", i=rng.randrange(8), what=rng.pick(["grid_H", "grid_Rn", "mask", "param", "all"]),
                            how=rng.pick(["zero", "add", "flip"])))
        elif what == "callergrid":
            ops.append(dict(op="callergrid", how=rng.pick(["zero", "add", "flip"])))
        else:
            ops.append(dict(op=what, i=rng.randrange(8), j=rng.randrange(8), seed=rng.seed63(),
                            how=rng.pick(["zero", "add", "flip"])))
    return dict(pool=pool, ops=ops)


def gen_grid(rng, cfg):
    fam = rng.pick(poses.FAM)
    return dict(op="grid", fam=fam, n=rng.pick([1, 2, 3, 4, 4, 5, 8]), m=rng.pick([1, 2, 3, 4, 4]),
                param=rng.pick(["quat", "matrix"]), how=rng.pick(["zero", "add", "flip", None]),
                kind=rng.wpick([("grid", 5), ("Rn", 2), ("mask", 2)]))


def serve(world, o):
    """A deterministic grid the library hands out."""
    if o["kind"] == "Rn":
        return (world.gF.create_grid_R2 if poses.dim(o["fam"]) == 2 else world.gF.create_grid_R3)(o["n"])
    if o["kind"] == "mask":
        return (world.gF.create_spherical_mask_R2 if poses.dim(o["fam"]) == 2 else world.gF.create_spherical_mask_R3)(o["n"])
    fam = o["fam"]
    if fam == "SE2":
        return world.so2.uniform_grid(o["n"])
    if fam == "E2":
        return world.o2.uniform_grid((o["n"], o["m"]))
    if fam == "SE3":
        return world.so3.uniform_grid(o["n"], o["param"])
    return world.o3.uniform_grid((o["n"], o["m"]))


def mutate(t, how):
    with torch.no_grad():
        if how == "zero":
            t.zero_()
        elif how == "add":
            t.add_(0.37 if t.is_floating_point() else 1)
        elif how == "flip" and t.dim():
            t.copy_(t.flip(0).clone())
            if t.shape[0] == 1:
                t.mul_(-1)
        elif how == "flip":
            t.mul_(-1)


def probe(ctx, world, lay, cfg):
    """Features at fixed poses: the random pose is taken from a fixed generator state."""
    dt = DT[cfg["dtype"]]
    fam = cfg["fam"]
    H = make_poses(dict(seed=5, n=2, how="rand"), fam, dt)

    def go():
        torch.manual_seed(77)
        with torch.no_grad():
            if cfg["kind"] == "lift":
                x = tensor(9, feat_shape(cfg, 1, 0), dt)
                y, Ho = lay(x, H)
                return y, Ho
            x = tensor(9, feat_shape(cfg, 1, 2), dt)
            return lay(x, H, make_poses(dict(seed=6, n=2, how="rand"), fam, dt))
    return sut(ctx, "probe", go, world)


def default_probe(ctx, world, lay, cfg):
    """Also through the layer's own default poses."""
    dt = DT[cfg["dtype"]]

    def go():
        torch.manual_seed(78)
        with torch.no_grad():
            if cfg["kind"] == "lift":
                return lay(tensor(9, feat_shape(cfg, 1, 0), dt))
            H = make_poses(dict(seed=5, n=2, how="rand"), cfg["fam"], dt)
            return lay(tensor(9, feat_shape(cfg, 1, 2), dt), H)
    return sut(ctx, "probe", go, world)


def probes(ctx, w, lay, cfg):
    a, ha = probe(ctx, w, lay, cfg)
    b, hb = default_probe(ctx, w, lay, cfg)
    return [a.clone(), ha.clone(), b.clone(), hb.clone()]


def run(plan, ctx):
    w, pristine = World(), World()
    layers = []         # dict(lay, cfg, base)
    shared = {}
    served = []
    muts = 0
    ctx.state(str([(o["op"], o.get("src"), o.get("what"), o.get("how")) for o in plan["ops"]]))
    for k, o in enumerate(plan["ops"]):
        op = o["op"]
        what = f"op {k} ({op})"
        touched = set()
        if op == "build":
            cfg = dict(plan["pool"][o["cfg"] % len(plan["pool"])], dtype=o["dtype"], permute=o["permute"])
            if o["vary"] and cfg["kind"] != "lift":
                cfg["width"] = 0.9
            G = None
            gkey = (cfg["fam"], gk_total(cfg), str(cfg["gk"]))
            if o["src"] == "shared":
                if gkey not in shared:
                    shared[gkey] = custom_grid(dict(cfg, grid=dict(seed=k + 11, rot=False)))
                G = shared[gkey]
            elif o["src"] == "served":
                a, b = gk_pair(cfg)
                G = sut(ctx, "serve", lambda: serve(w, dict(kind="grid", fam=cfg["fam"], n=a, m=b, param="matrix")), w)
                shared[gkey] = G
            if G is not None:
                cfg = dict(cfg, grid=dict(seed=0, rot=False))
                guard = ArgGuard(G)
            lay = sut(ctx, "build " + cfg["kind"], lambda: build(w, cfg, grid=G), w)
            if G is not None:
                guard.check("argument", what + ": the given grid")
            layers.append(dict(lay=lay, cfg=cfg))
            touched.add(len(layers) - 1)
        elif op == "grid":
            got = sut(ctx, "serve", lambda: serve(w, o), w)
            ref = sut(ctx, "serve pristine", lambda: serve(pristine, o), pristine)
            if not same(got, ref.clone()):
                raise Violation("served-grid", f"{what}: {o['kind']} {o['fam']} of size {o['n']} is not what a pristine process serves")
            if o["how"]:
                mutate(got, o["how"])
                muts += 1
                ctx.faults["served_grid_edited"] += 1
                again = sut(ctx, "serve", lambda: serve(w, o), w)
                if not same(again, ref):
                    raise Violation("served-grid", f"{what}: editing the served grid changed what is served next")
            served.append(got)
        elif op == "callergrid":
            for g in shared.values():
                mutate(g, o["how"])
                muts += 1
                ctx.faults["caller_grid_edited"] += 1
            shared = {}
        elif layers:
            i = o["i"] % len(layers)
            L = layers[i]
            touched.add(i)
            muts += 1
            if L["base"] is None and op in ("train", "fwdedit"):
                continue
            if op == "train":
                def step():
                    torch.manual_seed(o["seed"] & 0xFFFF)
                    y = fw(L)
                    y.square().sum().backward()
                    torch.optim.SGD(L["lay"].parameters(), lr=0.01).step()
                sut(ctx, "train", step, w)
            elif op == "edit":
                sd = dict(L["lay"].named_parameters()) if o["what"] == "param" else dict(L["lay"].named_buffers())
                for n, t in sd.items():
                    if o["what"] in ("param", "all") or n.endswith(o["what"]):
                        mutate(t.detach(), o["how"])
                        ctx.faults["buffer_edited"] += 1
            elif op == "load":
                j = o["j"] % len(layers)
                src = layers[j]
                sd = {n: t.detach().clone() for n, t in src["lay"].state_dict().items()}
                cur = L["lay"].state_dict()
                if i == j or set(sd) != set(cur) or any(sd[n].shape != cur[n].shape for n in sd):
                    sd = {n: t.detach().clone() for n, t in cur.items()}
                    for n, t in sd.items():
                        if n.endswith("grid_H"):
                            M = poses.to_mat(L["cfg"]["fam"], t)
                            # another valid grid: every element turned by its own angle
                            if poses.dim(L["cfg"]["fam"]) == 2:
                                t[:, -1] = t[:, -1] * 0.9 + 0.1
                            else:
                                r = Rng("load", o["seed"])
                                q = poses.rand_mats("SE3", M.shape[0], r)
                                t.copy_(poses.from_mat(L["cfg"]["fam"], q @ M, t.dtype))
                        elif t.is_floating_point():
                            t.mul_(0.5)
                sut(ctx, "load", lambda: L["lay"].load_state_dict(sd), w)
            elif op == "cast":
                if L["cfg"]["dtype"] == "f32":
                    L["lay"].double()
                    L["cfg"] = dict(L["cfg"], dtype="f64")
                else:
                    L["lay"].float()
                    L["cfg"] = dict(L["cfg"], dtype="f32")
            elif op == "zero":
                for p in L["lay"].parameters():
                    with torch.no_grad():
                        p.zero_()
            elif op == "deepcopy":
                lay = sut(ctx, "deepcopy", lambda: copy.deepcopy(L["lay"]), w)
                touched.clear()
                layers.append(dict(lay=lay, cfg=L["cfg"], base=L["base"]))
            elif op == "state_edit":
                # loading from another layer's live state dict, then changing that layer
                j = o["j"] % len(layers)
                if layers[j]["cfg"] is not L["cfg"]:
                    sd = L["lay"].state_dict()
                else:
                    sd = layers[j]["lay"].state_dict()
                try:
                    sut(ctx, "load", lambda: L["lay"].load_state_dict(sd), w, allow=(RuntimeError,))
                except RuntimeError:
                    pass
            elif op == "drop":
                if len(layers) > 2:
                    layers.pop(i)
                    touched.clear()
            elif op == "fwdedit":
                # the caller edits what a call returned
                touched.clear()
                def call():
                    (L["lay"].eval if o["seed"] % 2 else L["lay"].train)()
                    with torch.no_grad():
                        if L["cfg"]["kind"] == "lift":
                            return L["lay"](tensor(9, feat_shape(L["cfg"], 1, 0), DT[L["cfg"]["dtype"]]))
                        H = make_poses(dict(seed=5, n=2, how="rand"), L["cfg"]["fam"], DT[L["cfg"]["dtype"]])
                        return L["lay"](tensor(9, feat_shape(L["cfg"], 1, 2), DT[L["cfg"]["dtype"]]), H)
                y, H = sut(ctx, "forward", call, w)
                mutate(y, o["how"])
                mutate(H, o["how"])
                ctx.faults["result_edited"] += 1
        for i, L in enumerate(layers):
            if i in touched:
                L["base"] = safe_probes(ctx, w, L)
                continue
            if L["base"] is None:
                continue
            got = probes(ctx, w, L["lay"], L["cfg"])
            for a, b, n in zip(got, L["base"], ("features", "poses", "default features", "default poses")):
                if not close(a, b):
                    raise Violation("isolation", f"{what} changed the {n} of layer {i} "
                                    f"({L['cfg']['kind']}{L['cfg']['fam']}), which it did not touch")
        ctx.nontrivial |= len(layers) > 1 and muts > 0
    ctx.ev(sig(*[t for L in layers if L["base"] for t in L["base"]]))


def close(a, b):
    return a.shape == b.shape and reldiff(a, b) < 1e-6


def safe_probes(ctx, w, L):
    """A layer whose buffers were overwritten with nonsense may well fail: then it is not observed."""
    try:
        return probes(ctx, w, L["lay"], L["cfg"])
    except Violation:
        return None


def fw(L):
    cfg = L["cfg"]
    dt = DT[cfg["dtype"]]
    if cfg["kind"] == "lift":
        return L["lay"](tensor(9, feat_shape(cfg, 1, 0), dt))[0]
    H = make_poses(dict(seed=5, n=2, how="rand"), cfg["fam"], dt)
    return L["lay"](tensor(9, feat_shape(cfg, 1, 2), dt), H)[0]
