"""C03: concurrent callers of shared layers do not influence each other."""
from __future__ import annotations

import torch

from .. import poses
from ..common import *  # noqa: F401,F403
from ..sched import Sched
from ..world import World, ambient
from .c02 import simple_layer

ID = "C03"
QUICK = 900
THOROUGH = 12000
RULE = ("A run is 2-4 threads, each a list of forward calls (some with backward) on 1-2 shared layers, element-wise and norm "
        "layers, and grid requests, interleaved by the scheduler at every tensor operation and every source line of the library; "
        "some threads are stalled or have an operation fail. Every result is checked afterwards against a twin that ran alone. "
        "Non-trivial: at least two threads with a completed call and at least one switch inside a call.")
STATES = "hash of the list of context switches (interleavings)"
LISTS = ("threads", "calls", "decisions")
ASSUME = ["threads switch at tensor operations and source lines of the library, not inside one tensor operation"]


def gen(rng, tier):
    cfgs = []
    for _ in range(rng.pick([1, 1, 2])):
        cfg = gen_cfg(rng, small=True)
        cfg["permute"] = rng.chance(0.85)
        cfgs.append(cfg)
    threads = []
    for t in range(rng.wpick([(2, 5), (3, 3), (4, 1)])):
        calls = []
        for _ in range(rng.pick([1, 2, 2, 3])):
            what = rng.wpick([("fwd", 7), ("grid", 2), ("side", 1)])
            if what == "fwd":
                L = rng.randrange(len(cfgs))
                c = gen_call(rng, cfgs[L])
                c.update(op="fwd", layer=L, grad=rng.chance(0.4))
                calls.append(c)
            elif what == "grid":
                calls.append(dict(op="grid", size=rng.pick([1, 2, 3, 4, 8, 24, 25, 25, 26]), cache=rng.chance(0.7),
                                  param=rng.pick(["quat", "matrix", "euler"]), edit=rng.chance(0.3)))
            else:
                calls.append(dict(op="side", kind=rng.pick(["relu", "lnorm", "bnorm", "inorm", "avgsp", "maxsp", "maxg", "maxglob"]),
                                  xseed=rng.seed63(), q=1))
        fault = None
        if rng.chance(0.12):
            fault = [rng.pick(["alloc", "oom", "interrupt"]), rng.pick(["op", "line"]), rng.randrange(1, 250)]
        threads.append(dict(calls=calls, fault=fault))
    n = len(threads)
    pol = rng.wpick([("rand", 5), ("pct", 5), ("stall", 1)])
    if pol == "rand":
        policy = ["rand", rng.pick([0.02, 0.1, 0.3, 0.7])]
    elif pol == "pct":
        policy = ["pct", sorted(rng.randrange(1, 2500) for _ in range(rng.pick([2, 4, 8, 16])))]
    else:
        policy = ["stall", [0.2, rng.randrange(n), rng.randrange(1, 800)]]
    return dict(cfgs=cfgs, threads=threads, sched=dict(seed=rng.seed63(), policy=policy),
                draws=draw_spec(rng, 0.1))


def run(plan, ctx):
    w, w2 = World(), World()
    lays, twins = [], []
    for cfg in plan["cfgs"]:
        a, b = build_pair(ctx, w, w2, cfg)
        lays.append(a)
        twins.append(b)
    snaps = [snap_module(m) for m in lays]
    threads = plan["threads"]
    side = {}
    for k in ("relu", "lnorm", "bnorm", "inorm", "avgsp", "maxsp", "maxg", "maxglob"):
        o = dict(op=k, q=1)
        def mk(world):
            m = simple_layer(world.gnn, o, 2, 2, (3, 3))
            return m.eval() if k == "bnorm" else m
        side[k] = (sut(ctx, "build side", lambda: mk(w), w), sut(ctx, "build side", lambda: mk(w2), w2))
    sideH = make_poses(dict(seed=3, n=3, how="rand"), "SE2", torch.float32)
    prep = []
    for th in threads:
        row = []
        for c in th["calls"]:
            if c["op"] == "fwd":
                if c["layer"] >= len(lays):
                    raise Skip("layer gone")
                lay, cfg = lays[c["layer"]], plan["cfgs"][c["layer"]]
                args, H = call_args(lay, cfg, c)
                req = (default_out(lay, cfg, args) if H is None else H).clone()
                if c["grad"] and not c["nograd"]:
                    args = (args[0].detach().clone().requires_grad_(True), *args[1:])
                row.append(dict(args=args, H=H, req=req, guard=ArgGuard(*args, H),
                                cot=tensor(c["xseed"] + 1, (1,), torch.float32)))
            elif c["op"] == "side":
                x = tensor(c["xseed"], (2, 2, 3, 3, 3), torch.float32)
                row.append(dict(x=x, guard=ArgGuard(x, sideH)))
            else:
                row.append({})
        prep.append(row)
    outs = [[None] * len(th["calls"]) for th in threads]

    def body(t):
        def go():
            for j, c in enumerate(threads[t]["calls"]):
                try:
                    p = prep[t][j]
                    if c["op"] == "fwd":
                        with torch.set_grad_enabled(not c["nograd"]):
                            y, Ho = forward(lays[c["layer"]], p["args"], p["H"])
                            g = None
                            if c["grad"] and not c["nograd"]:
                                ps = [q for q in lays[c["layer"]].parameters()]
                                g = torch.autograd.grad(weighted(y, c["xseed"]), [p["args"][0], *ps])
                        outs[t][j] = ("ok", y, Ho, g)
                    elif c["op"] == "side":
                        outs[t][j] = ("ok", side[c["kind"]][0](p["x"], sideH))
                    else:
                        with torch.enable_grad():
                            G = w.so3.uniform_grid(c["size"], c["param"], steps=2, show_pbar=False, cache_grid=c["cache"])
                        keep = G.clone()
                        if c["edit"]:
                            G.mul_(0).add_(7)
                        outs[t][j] = ("ok", keep, G)
                except BaseException as e:
                    if is_sim(e):
                        outs[t][j] = ("fault",)
                        continue
                    raise
        return go

    kw = []
    for th in threads:
        k = dict(draws=plan["draws"])
        f = th.get("fault")
        if f:
            if f[1] == "op":
                k["fault"] = (f[0], f[2])
            else:
                k["line_fault"] = (f[0], f[2])
        kw.append(k)
    sc = plan["sched"] or dict(decisions=[])
    s = Sched(ctx, Rng("sched", sc.get("seed", 0)), tuple(sc.get("policy", ("rand", 0.1))),
              decisions=sc.get("decisions"))
    amb = ambient()
    with w.activate():
        res = s.run([body(t) for t in range(len(threads))], kw)
    for t, r in enumerate(res):
        if r[0] == "exc":
            if isinstance(r[1], Exception) and from_repo(r[1]):
                raise Violation("exception", f"thread {t}: {brief(r[1])}")
            raise r[1]
    if ambient() != amb:
        raise Violation("ambient", "process-wide settings changed")
    for m, sn in zip(lays, snaps):
        check_snap(m, sn, "state", "concurrent forward calls")
    ctx.ops["thread"] += len(threads)
    drawn = []
    # requests for one uncached size: one grid must come of all cached ones
    grids = {}
    pristine = World()
    for t, th in enumerate(threads):
        for j, c in enumerate(th["calls"]):
            o = outs[t][j]
            what = f"thread {t} call {j} ({c['op']})"
            if o is None:
                raise HarnessError(f"{what} did not run")
            if o[0] == "fault":
                continue
            ctx.ops[c["op"]] += 1
            if c["op"] == "fwd":
                verify_fwd(plan, ctx, lays, twins, w2, c, prep[t][j], o, what, drawn)
            elif c["op"] == "side":
                p = prep[t][j]
                p["guard"].check("argument", what)
                ref = sut(ctx, "twin side", lambda: side[c["kind"]][1](p["x"].clone(), sideH.clone()), w2)
                a, b = o[1], ref
                if isinstance(a, tuple):
                    if not same(a[1], sideH):
                        raise Violation("poses", f"{what}: poses changed")
                    a, b = a[0], b[0]
                expect_close("features", f"{what} {c['kind']}", a, b, 1e-5)
            else:
                G = o[1]
                n = c["size"]
                if c["edit"] and not bool((o[2] == 7).all()):
                    raise Violation("shared-grid", f"{what}: a served grid was changed by another caller")
                if not c["edit"] and not same(o[2], G):
                    raise Violation("shared-grid", f"{what}: a served grid was changed by another caller")
                shp = {"quat": (n, 4), "matrix": (n, 3, 3), "euler": (n, 3)}[c["param"]]
                if tuple(G.shape) != shp or not torch.isfinite(G).all():
                    raise Violation("grid", f"{what}: shape {tuple(G.shape)} or non-finite elements")
                if n <= 24 and c["param"] != "euler":
                    ref = sut(ctx, "pristine", lambda: pristine.so3.uniform_grid(n, c["param"]), pristine)
                    if not same(ref, G):
                        raise Violation("grid", f"{what}: precomputed grid {n} {c['param']} is another one now")
                elif c["cache"]:
                    k = (n, c["param"])
                    if k in grids and not same(grids[k], G):
                        raise Violation("grid", f"{what}: two caching requests for {k} got different grids")
                    grids[k] = G
    if plan["draws"] is None:
        for a in range(len(drawn)):
            for b in range(a):
                if (drawn[a][1].shape == drawn[b][1].shape and
                        (drawn[a][1] - drawn[b][1]).abs().max().item() < 1e-7):
                    raise Violation("shared-draw", f"{drawn[a][0]} and {drawn[b][0]} used the same group element")
    ctx.nontrivial = len(s.trace) > len(threads) + 1 and sum(any(o and o[0] == "ok" for o in r) for r in outs) > 1
    ctx.ev(len(s.trace), sig(*[x for r in outs for o in r if o for x in o if isinstance(x, torch.Tensor)]))


def weighted(y, seed):
    return (y * tensor(seed ^ 0x5A5A, tuple(y.shape), y.dtype)).sum()


def verify_fwd(plan, ctx, lays, twins, w2, c, p, o, what, drawn):
    cfg = plan["cfgs"][c["layer"]]
    fam = cfg["fam"]
    _, y, Ho, g = o
    p["guard"].check("argument", what)
    r = single_translate(fam, p["req"], Ho, what)
    if cfg["permute"]:
        if r is not None:
            drawn.append((what, r))
    elif not same(Ho.detach(), p["req"]):
        raise Violation("poses", f"{what}: randomisation is off but the poses are not the requested ones")
    tw = twins[c["layer"]]
    Hin = p["req"] if cfg["kind"] == "lift" else p["args"][1]
    if not nearest_margin_ok(tw, cfg, Hin, Ho.detach(), 1e-5):
        ctx.probes["nearest_tie"] += 1
        return
    args = tuple(a.detach().clone() for a in p["args"])
    if g is not None:
        args[0].requires_grad_(True)
    def ref():
        with torch.set_grad_enabled(g is not None):
            y2, _ = tw(*args, Ho.detach().clone())
            g2 = None
            if g is not None:
                g2 = torch.autograd.grad(weighted(y2, c["xseed"]), [args[0], *tw.parameters()])
            return y2, g2
    y2, g2 = sut(ctx, "twin", ref, w2)
    expect_close("features", f"{what} at the poses it returned", y, y2, tol(cfg["dtype"], 1e-4, 1e-5))
    if g is not None:
        for a, b in zip(g, g2):
            expect_close("gradients", f"{what} at the poses it returned", a, b, tol(cfg["dtype"], 5e-4, 2e-5))
    if y.requires_grad != y2.requires_grad and g is None and not c["nograd"]:
        pass
    ctx.ops["verified"] += 1
