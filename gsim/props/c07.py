"""C07: a call that fails midway leaves no trace."""
from __future__ import annotations

import sys

import torch

from .. import poses
from ..common import *  # noqa: F401,F403
from ..sched import LineTracer
from ..world import World, ambient
from .c02 import simple_layer
from .c06 import valid

ID = "C07"
QUICK = 900
THOROUGH = 12000
RULE = ("A run is a list of calls (forward, grid request, layer construction, side layers) on shared objects; each is first made "
        "in a twin process undisturbed, then made to fail one to three times at chosen tensor operations, source lines or "
        "terminal writes, then retried from the same generator state. Non-trivial: at least one fault fired and the retry was compared.")
STATES = "hash of (operation kind, fault kind, fraction of the call executed)"
LISTS = ("ops", "faults")
ASSUME = ["no exception is injected on the header line of a with/try statement nor inside handlers and finally blocks"]


def gen(rng, tier):
    cfgs = [gen_cfg(rng) for _ in range(rng.pick([1, 2]))]
    for c in cfgs:
        c["permute"] = rng.chance(0.85)
    ops = []
    for _ in range(rng.pick([1, 2, 3, 4])):
        k = rng.wpick([("fwd", 5), ("grid", 3), ("build", 2), ("side", 1), ("s2", 0.5), ("o3", 0.5)])
        o = dict(op=k, seed=rng.seed63())
        if k == "fwd":
            o["layer"] = rng.randrange(len(cfgs))
            o["call"] = gen_call(rng, cfgs[o["layer"]])
            o["grad"] = rng.chance(0.5)
            # a pair of equal poses, then another call of the same layer
            if rng.chance(0.25):
                o["equal"] = rng.pick([1, 1, 2])
            o["then"] = gen_call(rng, cfgs[o["layer"]]) if rng.chance(0.5) else None
        elif k == "grid":
            o.update(n=rng.wpick([(rng.pick([25, 26, 30]), 4), (rng.randrange(1, 25), 2)]), param=rng.pick(["quat", "matrix", "euler"]),
                     cache=rng.chance(0.7), steps=rng.pick([1, 2, 3]))
        elif k == "build":
            o["cfg"] = gen_cfg(rng, uncached=rng.chance(0.03))
            o["cfg"]["permute"] = True
        elif k == "side":
            o["kind"] = rng.pick(["relu", "gelu", "wrap", "lnorm", "bnorm", "inorm", "avgsp", "maxsp", "maxg", "maxglob", "avgg", "avgglob"])
        elif k == "s2":
            o.update(n=rng.pick([3, 6]), param=rng.pick(["spherical", "euclidean", "matrix"]))
        elif k == "o3":
            o.update(n=rng.pick([2, 4, 25]), m=rng.pick([2, 4]))
        kinds = ["alloc", "oom", "interrupt"]
        o["faults"] = []
        for _ in range(rng.wpick([(1, 6), (2, 2), (3, 1)])):
            w = rng.wpick([("op", 5), ("line", 5), ("stderr", 2 if k in ("grid", "s2") else 0)])
            late = rng.random() ** rng.pick([1, 1, 0.3, 0.05])
            o["faults"].append([rng.pick(kinds) if w != "stderr" else rng.pick(["EPIPE", "ENOSPC", "closed"]), w, round(late, 4)])
        ops.append(o)
    return dict(cfgs=cfgs, ops=ops)


def run(plan, ctx):
    w, w2 = World(), World()
    pairs = []
    for cfg in plan["cfgs"]:
        s = int(str(cfg["size"])) + 5
        torch.manual_seed(s)
        a = sut(ctx, "build", lambda: build(w, cfg), w)
        torch.manual_seed(s)
        b = sut(ctx, "build twin", lambda: build(w2, cfg), w2)
        pairs.append((a, b))
    served = {}
    for k, o in enumerate(plan["ops"]):
        what = f"op {k} ({o['op']})"
        call, same_result, guard = operation(plan, ctx, w, pairs, o, 0)
        ref, _, _ = operation(plan, ctx, w2, pairs, o, 1)
        # undisturbed, in the twin process
        torch.manual_seed(o["seed"] & 0x7FFFFFFF)
        lt = LineTracer()
        wr0 = sys.stderr.n
        with lt:
            want = sut(ctx, o["op"], ref, w2)
        nops, nlines, nwr = seam_last[0].n, lt.n, sys.stderr.n - wr0
        snaps = [snap_module(a) for a, _ in pairs]
        amb = ambient()
        fired = 0
        for kind, where, frac in o["faults"]:
            torch.manual_seed(o["seed"] & 0x7FFFFFFF)
            out = None
            try:
                if where == "op":
                    out = sut(ctx, o["op"], call, w, fault=(kind, 1 + int(frac * max(0, nops - 1))))
                elif where == "line":
                    with LineTracer(ctx, fault=(kind, 1 + int(frac * max(0, nlines - 1)))):
                        out = sut(ctx, o["op"], call, w)
                else:
                    sys.stderr.faults = {sys.stderr.n + 1 + int(frac * max(0, nwr - 1)): kind}
                    out = sut(ctx, o["op"], call, w, allow=(OSError, ValueError))
            except BaseException as e:
                if not is_sim(e):
                    raise
                fired += 1
                ctx.state(f"{o['op']}{kind}{where}{frac:.2f}")
                ctx.ops["failed_call"] += 1
                del e
            finally:
                sys.stderr.faults = {}
            where_s = f"{what} after {kind} at {where} {frac}"
            if out is not None:
                same_result(out, want, where_s + " (the call completed)")
            guard(where_s)
            for (a, _), sn in zip(pairs, snaps):
                check_snap(a, sn, "state", where_s)
                for n, p in a.named_parameters():
                    if p.grad is not None or not p.requires_grad:
                        raise Violation("state", f"{where_s}: parameter {n} has a gradient or stopped requiring one")
            now = ambient()
            if now != amb:
                diff = [(x, y) for x, y in zip(amb, now) if x != y]
                raise Violation("ambient", f"{where_s}: process-wide settings changed: {str(diff)[:200]}")
        torch.manual_seed(o["seed"] & 0x7FFFFFFF)
        got = sut(ctx, o["op"] + " retry", call, w)
        same_result(got, want, f"{what} retried")
        guard(what + " retried")
        ctx.nontrivial |= fired > 0
        ctx.ev(k, o["op"], fired, nops, nlines)
        if o.get("then"):
            # later calls of the same layer find it as an undisturbed process would
            torch.manual_seed(o["seed"] & 0x7FFFFFFF)
            call, same_result, _ = operation(plan, ctx, w, pairs, dict(o, call=o["then"], equal=0), 0)
            ref, _, _ = operation(plan, ctx, w2, pairs, dict(o, call=o["then"], equal=0), 1)
            got = sut(ctx, "later call", call, w)
            torch.manual_seed(o["seed"] & 0x7FFFFFFF)
            same_result(got, sut(ctx, "later call twin", ref, w2), f"{what}: a later call")
        # grids served later
        if o["op"] in ("grid", "build", "o3"):
            n = o.get("n", 4)
            for p in ("quat", "matrix"):
                for q in {min(n, 24), 4}:
                    A = sut(ctx, "serve", lambda: w.so3.uniform_grid(q, p), w)
                    B = sut(ctx, "serve twin", lambda: w2.so3.uniform_grid(q, p), w2)
                    if not same(A, B):
                        raise Violation("served-grid", f"{what}: precomputed grid {q} {p} differs afterwards")
        if o["op"] == "grid" and o["cache"]:
            for n in (o["n"], 1, 2):
                A = sut(ctx, "serve", lambda: w.so3.uniform_grid(o["n"], o["param"], steps=1, show_pbar=False), w)
                B = sut(ctx, "serve twin", lambda: w2.so3.uniform_grid(o["n"], o["param"], steps=1, show_pbar=False), w2)
                if not same(A, B):
                    raise Violation("served-grid", f"{what}: the cached grid differs from an undisturbed process's")


def operation(plan, ctx, w, pairs, o, which):
    """-> (callable, comparison of two results, argument guard)"""
    nothing = lambda s: None
    if o["op"] == "fwd":
        if o["layer"] >= len(pairs):
            raise Skip("layer gone")
        lay, cfg = pairs[o["layer"]][which], plan["cfgs"][o["layer"]]
        args, H = call_args(lay, cfg, o["call"])
        if o.get("equal") and cfg["kind"] != "lift":
            P = make_poses(dict(seed=o["seed"], n=o["equal"], how="rand"), cfg["fam"], DT[cfg["dtype"]])
            args, H = (args[0][:, :, :1].repeat(1, 1, o["equal"], *[1] * poses.dim(cfg["fam"])).contiguous(), P.clone()), P.clone()
        ng = o["call"]["nograd"]
        if o["grad"] and not ng:
            args = (args[0].detach().clone().requires_grad_(True), *args[1:])
        g = ArgGuard(*args, H)

        def call():
            if ng:
                with torch.no_grad():
                    return forward(lay, args, H)
            return forward(lay, args, H)

        def cmp(a, b, s):
            expect_close("retry", s + ": features", a[0], b[0], tol(cfg["dtype"], 1e-5, 1e-6))
            if pose_err(cfg["fam"], a[1], b[1]) > 1e-5:
                raise Violation("retry", f"{s}: other poses from the same generator state")
        return call, cmp, lambda s: g.check("argument", s)
    if o["op"] == "grid":
        def call():
            return w.so3.uniform_grid(o["n"], o["param"], steps=o["steps"], cache_grid=o["cache"])

        def cmp(a, b, s):
            valid(a, o["n"], o["param"], s)
            expect_close("retry", s, a, b, 1e-5)
            if a.requires_grad:
                raise Violation("retry", f"{s}: the grid requires gradients")
        return call, cmp, nothing
    if o["op"] == "s2":
        return (lambda: w.s2.uniform_grid_s2(o["n"], o["param"], steps=2)), \
            (lambda a, b, s: expect_close("retry", s, a, b, 1e-5)), nothing
    if o["op"] == "o3":
        return (lambda: w.o3.uniform_grid((o["n"] if o["n"] < 25 else 24, o["m"]))), \
            (lambda a, b, s: expect_close("retry", s, a, b, 1e-6)), nothing
    if o["op"] == "build":
        cfg = o["cfg"]
        G = custom_grid(cfg) if cfg["grid"] is not None else None
        g = ArgGuard(G)

        def cmp(a, b, s):
            A, B = snap_module(a), snap_module(b)
            if set(A) != set(B):
                raise Violation("retry", f"{s}: another set of parameters")
            for n in B:
                expect_close("retry", f"{s}: {n}", A[n], B[n], 1e-5)
        return (lambda: build(w, cfg, grid=G)), cmp, lambda s: g.check("argument", s)
    x = tensor(o["seed"], (2, 2, 3, 3, 3), torch.float32)
    H = make_poses(dict(seed=3, n=3, how="rand"), "SE2", torch.float32)
    m = simple_layer(w.gnn, dict(op=o["kind"], q=1), 2, 2, (3, 3)).eval()
    if o["kind"] in ("gelu", "wrap"):
        x.requires_grad_(True)
    g = ArgGuard(x, H)

    def cmp(a, b, s):
        if isinstance(a, tuple) != isinstance(b, tuple):
            raise Violation("retry", f"{s}: another kind of result")
        a, b = (a[0], b[0]) if isinstance(a, tuple) else (a, b)
        expect_close("retry", s, a, b, 1e-6)
    return (lambda: m(x, H)), cmp, lambda s: g.check("argument", s)
