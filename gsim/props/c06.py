"""C06: the rotation-grid service is coherent over any request history."""
from __future__ import annotations

import torch

from .. import poses
from ..common import *  # noqa: F401,F403
from ..sched import LineTracer, Sched
from ..world import World

ID = "C06"
QUICK = 900
THOROUGH = 12000
RULE = ("A run is a history of grid requests (sizes 0-40, parameterisations in any letter case, with and without caching), edits "
        "of served grids, requests broken off by faults, O(3) and layer requests, concurrent phases of 2-4 threads and process "
        "restarts, up to 140 cached sizes, checked against a dictionary model and a pristine process. Non-trivial: some size requested at least twice.")
STATES = "hash of the request sequence and of the context switches"
LISTS = ("ops", "threads", "decisions", "sizes")


def req(rng):
    return dict(op="req", n=rng.wpick([(rng.randrange(1, 25), 5), (rng.pick([25, 26, 27, 40]), 4), (24, 0.5), (0, 0.2)]),
                param=rng.pick(["quat", "matrix", "euler", "quat", "matrix", "QUAT", "Matrix", "EULER"]),
                cache=rng.chance(0.5), steps=rng.wpick([(1, 4), (2, 3), (5, 1)]), seed=rng.seed63(),
                edit=rng.wpick([(None, 5), ("zero", 1), ("add", 1), ("flip", 1)]))


def gen(rng, tier):
    ops = []
    sizes = []
    for _ in range(rng.pick([4, 6, 8, 10])):
        k = rng.wpick([("req", 8), ("fault", 2), ("threads", 1.2), ("o3", 1), ("layer", 0.7), ("restart", 0.4), ("both", 1.5), ("many", 0.25)])
        if k == "req" or k == "fault":
            o = req(rng)
            if sizes and rng.chance(0.6):
                o["n"], o["param"] = rng.pick(sizes)
            else:
                sizes.append((o["n"], o["param"]))
            if k == "fault":
                o["op"] = "fault"
                o["fault"] = [rng.pick(["alloc", "oom", "interrupt"]), rng.pick(["op", "line"]), rng.randrange(1, 160)]
                # counted from the end of the undisturbed call
                if rng.chance(0.5):
                    o["cache"] = o["cache"] or rng.chance(0.6)
                    o["fault"][1] = rng.pick(["op", "line", "line"])
                    o["fault"][2] = -rng.randrange(0, 14)
            ops.append(o)
        elif k == "threads":
            th = []
            focus = rng.pick(sizes) if sizes and rng.chance(0.5) else (rng.pick([25, 26, 33]), rng.pick(["quat", "matrix", "euler"]))
            for _ in range(rng.pick([2, 2, 3, 4])):
                calls = []
                for _ in range(rng.pick([1, 1, 2])):
                    o = req(rng)
                    if rng.chance(0.75):
                        o["n"], o["param"] = focus
                        o["cache"] = rng.chance(0.8)
                    o["steps"] = 1
                    calls.append(o)
                th.append(calls)
            sizes.append(focus)
            pol = ["rand", rng.pick([0.05, 0.3, 0.6])] if rng.chance(0.5) else \
                ["pct", sorted(rng.randrange(1, 900) for _ in range(rng.pick([1, 2, 4, 8])))]
            ops.append(dict(op="threads", threads=[dict(calls=c) for c in th], sched=dict(seed=rng.seed63(), policy=pol)))
        elif k == "many":
            # more sizes than any cache with a bound may hold
            m = rng.wpick([(4, 4), (10, 3), (36, 2), (140, 0.4)])
            lo = rng.randrange(25, 45)
            ops.append(dict(op="many", sizes=rng.sample(range(lo, lo + m), m), param=rng.pick(["quat", "matrix", "euler"]), seed=rng.seed63()))
        elif k == "both":
            ops.append(dict(op="both", n=rng.randrange(1, 25)))
        elif k == "o3":
            ops.append(dict(op="o3", n=rng.randrange(1, 9), m=rng.randrange(1, 9), edit=rng.pick([None, "zero", "add"])))
        elif k == "layer":
            ops.append(dict(op="layer", n=rng.pick([2, 4, 6]), edit=rng.chance(0.5)))
        else:
            ops.append(dict(op="restart"))
    return dict(ops=ops)


def valid(G, n, param, what):
    param = param.lower()
    shp = (0,) if n == 0 else {"quat": (n, 4), "matrix": (n, 3, 3), "euler": (n, 3)}[param]
    if tuple(G.shape) != shp:
        raise Violation("shape", f"{what}: shape {tuple(G.shape)} instead of {shp}")
    if n == 0:
        return None
    if not torch.isfinite(G).all():
        raise Violation("invalid", f"{what}: not finite")
    g = G.detach().double()
    if param == "quat":
        if (g.norm(dim=-1) - 1).abs().max() > 3e-4:
            raise Violation("invalid", f"{what}: quaternions of length {g.norm(dim=-1).tolist()}")
        M = poses.quat_mat(g)
    elif param == "euler":
        M = poses.euler_mat(g)
    else:
        M = g
    e = (M @ M.transpose(-1, -2) - torch.eye(3, dtype=M.dtype)).abs().max().item()
    if e > 1e-3 or float((torch.det(M) - 1).abs().max()) > 3e-3:
        raise Violation("invalid", f"{what}: not rotations (error {e:.3g})")
    if n > 1:
        d = poses.geo_rot(M, M) + 10 * torch.eye(n, dtype=M.dtype)
        if float(d.min()) < 1e-3:
            raise Violation("duplicate", f"{what}: two equal rotations")
    return M


def ask(w, o):
    torch.manual_seed(o["seed"] & 0x7FFFFFFF)
    return w.so3.uniform_grid(o["n"], o["param"], steps=o["steps"], show_pbar=False, cache_grid=o["cache"])


def mutate(t, how):
    if how == "zero":
        t.zero_()
    elif how == "add":
        t.add_(0.37)
    elif how == "flip" and t.dim():
        t.copy_(t.flip(0).clone()).mul_(-1)


def run(plan, ctx):
    w, pristine = World(), World()
    known = {}          # (n, param) -> grid every later request must give
    maybe = set()       # a broken-off caching request may have completed
    seen = set()
    ctx.state(str([(o["op"], o.get("n"), o.get("param"), o.get("cache")) for o in plan["ops"]]))

    def expect(o, G, what):
        """The model's verdict on one completed request."""
        n, p = o["n"], o["param"].lower()
        valid(G, n, p, what)
        if n == 0:
            return
        key = (n, p)
        if key in seen:
            ctx.nontrivial = True
        seen.add(key)
        if n <= 24 and p != "euler" and key not in known:
            known[key] = sut(ctx, "pristine", lambda: pristine.so3.uniform_grid(n, p, show_pbar=False), pristine).clone()
        if key in known:
            if not same(G, known[key]):
                raise Violation("incoherent", f"{what}: grid {key} is not the one served before")
            return
        if key not in maybe:
            fresh = World() if len(seen) > 50 else pristine
            ref = sut(ctx, "pristine", lambda: ask(fresh, dict(o, cache=False)), fresh)
            # not cached: the generator alone decides, so earlier requests may not show
            if not same(G, ref) and "threads" not in what:
                expect_close("history-dependent", f"{what}: an uncached grid depends on earlier requests", G, ref, 1e-5)
        if o["cache"]:
            known[key] = G.detach().clone()
            maybe.discard(key)

    for k, o in enumerate(plan["ops"]):
        op = o["op"]
        what = f"op {k} ({op} {o.get('n', '')} {o.get('param', '')}{' cached' if o.get('cache') else ''})"
        if op == "req":
            G = sut(ctx, "request", lambda: ask(w, o), w)
            expect(o, G, what)
            ctx.ev(k, sig(G))
            if o["edit"] and G.numel():
                mutate(G, o["edit"])
                ctx.faults["served_grid_edited"] += 1
        elif op == "fault":
            kind, where, n = o["fault"]
            G = None
            if n <= 0:
                lt = LineTracer()
                dry = World()
                with lt:
                    sut(ctx, "dry run", lambda: ask(dry, o), dry)
                n = max(1, (seam_last[0].n if where == "op" else lt.n) + n)
            try:
                if where == "op":
                    G = sut(ctx, "request", lambda: ask(w, o), w, fault=(kind, n))
                else:
                    with LineTracer(ctx, fault=(kind, n)):
                        G = sut(ctx, "request", lambda: ask(w, o), w)
            except BaseException as e:
                if not is_sim(e):
                    raise
                key = (o["n"], o["param"].lower())
                if o["cache"] and key not in known and not (o["n"] <= 24 and key[1] != "euler"):
                    maybe.add(key)
                ctx.ops["broken_off"] += 1
            if G is not None:
                expect(o, G, what)
        elif op == "many":
            for n in o["sizes"]:
                c = dict(n=n, param=o["param"], steps=1, cache=True, seed=o["seed"] + n)
                G = sut(ctx, "request", lambda: ask(w, c), w)
                if (n, o["param"]) in known or (n, o["param"]) in maybe:
                    expect(c, G, f"{what} size {n}")
                else:
                    valid(G, n, o["param"], f"{what} size {n}")
                    known[n, o["param"]] = G.clone()
            ctx.ops["cached_sizes"] += len(o["sizes"])
            ctx.nontrivial = True
        elif op == "both":
            n = o["n"]
            q = sut(ctx, "request", lambda: w.so3.uniform_grid(n, "quat"), w)
            m = sut(ctx, "request", lambda: w.so3.uniform_grid(n, "matrix"), w)
            A, B = valid(q, n, "quat", what), valid(m, n, "matrix", what)
            d = poses.geo_rot(A, B).diagonal().max().item()
            if d > 5e-3:
                raise Violation("parameterisation", f"{what}: quaternion and matrix grids differ by {d:.3g} rad")
            ctx.nontrivial = True
        elif op == "o3":
            G = sut(ctx, "o3", lambda: w.o3.uniform_grid((o["n"], o["m"])), w)
            R = sut(ctx, "pristine", lambda: pristine.o3.uniform_grid((o["n"], o["m"])), pristine)
            if not same(G, R):
                raise Violation("incoherent", f"{what}: O(3) grid is not the one a pristine process serves")
            if o["edit"]:
                mutate(G, o["edit"])
                ctx.faults["served_grid_edited"] += 1
        elif op == "layer":
            lay = sut(ctx, "layer", lambda: w.gnn.GLiftingConvSE3(1, 1, 3, group_kernel_size=o["n"]), w)
            R = sut(ctx, "pristine", lambda: pristine.so3.uniform_grid(o["n"], "matrix"), pristine)
            if not same(own_grid(lay), R):
                raise Violation("incoherent", f"{what}: the layer's grid is not the precomputed one")
            if o["edit"]:
                with torch.no_grad():
                    for b in lay.buffers():
                        b.zero_()
                ctx.faults["layer_edited"] += 1
        elif op == "restart":
            # cached grids live in memory; precomputed ones come back
            w = World()
            known = {q: g for q, g in known.items() if q[0] <= 24 and q[1] != "euler"}
            maybe.clear()
            ctx.faults["restart"] += 1
        elif op == "threads":
            outs = [[None] * len(t["calls"]) for t in o["threads"]]

            def body(t, o=o, outs=outs, w=w):
                def go():
                    for j, c in enumerate(o["threads"][t]["calls"]):
                        outs[t][j] = w.so3.uniform_grid(c["n"], c["param"], steps=1, show_pbar=False, cache_grid=c["cache"])
                return go
            torch.manual_seed(k)
            sc = o["sched"] or dict(decisions=[])
            s = Sched(ctx, Rng("sched", sc.get("seed", 0)), tuple(sc.get("policy", ("rand", 0.1))), decisions=sc.get("decisions"))
            with w.activate():
                res = s.run([body(t) for t in range(len(outs))], {})
            for t, r in enumerate(res):
                if r[0] == "exc":
                    if isinstance(r[1], Exception) and from_repo(r[1]):
                        raise Violation("exception", f"{what} thread {t}: {brief(r[1])}")
                    raise r[1]
            allc = [(c, outs[t][j]) for t, th in enumerate(o["threads"]) for j, c in enumerate(th["calls"])]
            keys = {(c["n"], c["param"].lower()) for c, _ in allc}
            before = set(known)
            for key in sorted(keys):
                rs = [(c, G) for c, G in allc if (c["n"], c["param"].lower()) == key]
                cs = [G for c, G in rs if c["cache"]]
                for G in cs[1:]:
                    if not same(G, cs[0]):
                        raise Violation("split", f"{what}: concurrent caching requests for {key} got different grids")
                for c, G in rs:
                    if key in before or (key[0] <= 24 and key[1] != "euler") or c["cache"]:
                        expect(c, G, what + f" threads {key}")
                    else:
                        valid(G, key[0], key[1], what)
                        seen.add(key)
            ctx.ops["concurrent_requests"] += len(allc)
            ctx.ev(k, len(s.trace), sig(*[G for _, G in allc]))
    # a final pass over everything the history fixed
    for (n, p), G in sorted(known.items(), key=lambda q: q[0]):
        again = sut(ctx, "request", lambda: w.so3.uniform_grid(n, p, steps=1, show_pbar=False), w)
        if not same(again, G):
            raise Violation("incoherent", f"end: grid {(n, p)} is not the one served before")
