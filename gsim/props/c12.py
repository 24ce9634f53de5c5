"""C12: results stay put and arguments are never modified."""
from __future__ import annotations

import torch

from ..common import *  # noqa: F401,F403
from ..program import Runner, gen_program
from ..world import World

ID = "C12"
QUICK = 1800
THOROUGH = 20000
RULE = ("A run is a program of constructions, forward/backward calls, group functions, grid requests, norm, pooling and activation layers; every "
        "tensor returned and every tensor passed stays alive and is compared with its snapshot after each operation, with state-dict loads, casts, "
        "parameter updates and in-place edits of other results by the caller in between. Non-trivial: at least two results and one argument were "
        "watched across at least one later operation.")
STATES = "hash of the operation sequence with the caller's actions"
LISTS = ("steps", "acts")


def gen(rng, tier):
    prog = gen_program(rng, n=rng.pick([3, 4, 6, 9]))
    acts = []
    for _ in range(rng.pick([0, 1, 2, 4])):
        acts.append(dict(after=rng.randrange(len(prog["steps"])), act=rng.wpick([("edit", 4), ("load", 2), ("cast", 1), ("zero", 1)]),
                         which=rng.randrange(1000)))
    # the same arguments given twice
    rep = [dict(k=rng.randrange(len(prog["steps"]))) for _ in range(rng.pick([0, 1, 2]))]
    return dict(prog=prog, acts=acts, rep=rep, poison=rng.pick([None, "noise"]))


class Pool:
    def __init__(self):
        self.items = []

    def add(self, kind, label, t):
        if not isinstance(t, torch.Tensor):
            return
        for it in self.items:
            if it[2] is t:
                return
        self.items.append([kind, label, t, t.detach().clone(), t.requires_grad, None if t.grad is None else t.grad.clone()])

    def check(self, what):
        for kind, label, t, snap, rg, g in self.items:
            if t.shape != snap.shape or not same(t.detach(), snap):
                raise Violation("result-changed" if kind == "result" else "argument-changed",
                                f"{what} changed {label}, {'returned' if kind == 'result' else 'passed'} earlier")
            if t.requires_grad != rg:
                raise Violation("flag-changed", f"{what} set requires_grad={t.requires_grad} on {label}")
            if kind == "arg" and t.is_leaf and (t.grad is None) != (g is None):
                raise Violation("grad-changed", f"{what} wrote the gradient of {label}")

    def resnap(self, t):
        for it in self.items:
            if it[2] is t:
                it[3] = t.detach().clone()


def storage(t):
    return t.untyped_storage().data_ptr()


def run(plan, ctx):
    prog = plan["prog"]
    w = World()
    torch.manual_seed(plan["seed"] & 0x7FFFFFFF)
    ctx.state(str([(s["op"], s.get("name"), s.get("kind")) for s in prog["steps"]]) + str([(a["after"], a["act"]) for a in plan["acts"]]))
    pool = Pool()
    order = list(range(len(prog["steps"])))
    for r in plan["rep"]:
        order.append(r["k"])
    label = [None]

    def on_args(kind, *ts):
        for i, t in enumerate(ts):
            if isinstance(t, torch.Tensor):
                pool.add("arg", f"argument {i} of {label[0]}", t)
    R = Runner(ctx, w, prog, seam=dict(poison=plan["poison"]), on_args=on_args)
    args_store = set()
    for pos, k in enumerate(order):
        s = prog["steps"][k]
        label[0] = f"operation {pos} ({s['op']} {s.get('name', s.get('kind', ''))})"
        out = R.step(k)
        pool.check(label[0])
        for it in pool.items:
            if it[0] == "arg":
                args_store.add(storage(it[2]))
        for lab, t in out:
            if s["op"] == "repulse" and s["in_place"]:
                continue
            pool.add("result", f"{lab} of {label[0]}", t)
        for a in plan["acts"]:
            if a["after"] == pos:
                act(ctx, w, R, pool, args_store, a, label[0])
        # a result that lives in a layer's state: load another state right away
        if s["op"] == "layer" and s["i"] in R.layers:
            own = {storage(t) for t in R.layers[s["i"]].state_dict().values()}
            if any(isinstance(t, torch.Tensor) and storage(t) in own for _, t in out):
                act(ctx, w, R, pool, args_store, dict(act="load", which=sorted(R.layers).index(s["i"])), label[0])
        ctx.ev(pos, sig(*[t for _, t in out]))
    ctx.nontrivial = sum(i[0] == "result" for i in pool.items) >= 2 and len(args_store) >= 1 and len(order) > 1


def act(ctx, w, R, pool, args_store, a, after):
    what = f"the caller's {a['act']} after {after}"
    if a["act"] == "edit":
        own = [it for it in pool.items if it[0] == "result" and storage(it[2]) not in args_store and it[2].numel()
               and not it[2].requires_grad and it[2].is_floating_point()]
        if not own:
            return
        it = own[a["which"] % len(own)]
        # results of one call may be views of one another; they were made together
        mates = [o for o in pool.items if o is not it and storage(o[2]) == storage(it[2])]
        src = it[1].split(" of operation ")[-1]
        for m in mates:
            if m[1].split(" of operation ")[-1] != src:
                raise Violation("shared", f"{it[1]} and {m[1]} share memory")
        with torch.no_grad():
            it[2].mul_(1.5).add_(0.25)
        for x in [it] + mates:
            x[3] = x[2].detach().clone()
        pool.check(f"editing {it[1]}")
    elif R.layers:
        ks = sorted(R.layers)
        lay = R.layers[ks[a["which"] % len(ks)]]
        cfg = R.prog["cfgs"][ks[a["which"] % len(ks)]]
        if a["act"] == "load":
            sd = {k: (v.detach().clone() * 0.5 + 0.25 if "grid" not in k and "mask" not in k else v.detach().clone()) for k, v in lay.state_dict().items()}
            if cfg["grid"] is None or a["which"] % 2:
                # another reference grid, as a checkpoint of another run would hold
                for k in sd:
                    if k.endswith("grid_H"):
                        sd[k] = make_poses(dict(seed=a["which"], n=sd[k].shape[0], how="spread"), cfg["fam"], sd[k].dtype)
                        if cfg["fam"] in ("E2", "E3"):
                            # rotations first, then reflections, as before
                            sd[k][:, 0] = lay.state_dict()[k][:, 0]
            sut(ctx, "load", lambda: lay.load_state_dict(sd), w)
        elif a["act"] == "cast":
            sut(ctx, "cast", lambda: lay.half(), w)
            sut(ctx, "cast", lambda: lay.to(DT[cfg["dtype"]]), w)
        else:
            with torch.no_grad():
                for p in lay.parameters():
                    p.mul_(0.5)
        pool.check(what)
    ctx.ops["act_" + a["act"]] += 1
