"""C14: gradients of randomised layers belong to the pose that was drawn."""
from __future__ import annotations

import torch
import torch.utils.checkpoint as ckpt

from .. import poses
from ..common import *  # noqa: F401,F403
from ..world import World

ID = "C14"
QUICK = 1500
THOROUGH = 14000
RULE = ("A run is a training history on one randomised layer (or two in a row): forward and backward passes over micro-batches in any order, delayed "
        "past other calls, recomputed under activation checkpointing, failed and repeated, with frozen parameters, gradient penalties and optimiser steps; every "
        "gradient is refined against a twin in another process with randomisation off at the poses that were returned, and the twin's own gradient "
        "is checked against exact differences of its features (they are linear in the input and in every weight). Non-trivial: one gradient was compared.")
STATES = "hash of (family, kind, operation sequence, failures)"
LISTS = ("ops",)


def gen(rng, tier):
    cfg = gen_cfg(rng, dtypes=("f64", "f64", "f32"))
    cfg["permute"] = rng.chance(0.9)
    ops = []
    for _ in range(rng.pick([1, 2, 3, 4])):
        if rng.chance(0.3):
            ops.append(dict(op="split", call=gen_call(rng, cfg, batch=rng.pick([2, 3, 4])), cut=rng.seed63(), via=rng.pick(["backward", "grad"]),
                            fault=gen_fault(rng), draws=draw_spec(rng, 0.1)))
        else:
            ops.append(dict(op="fb", call=gen_call(rng, cfg), via=rng.wpick([("backward", 4), ("grad", 2), ("ckpt", 2), ("twice", 1)]),
                            loss=rng.pick(["lin", "lin", "sq", "tanh"]), delay=rng.pick([0, 0, 1, 2]), fault=gen_fault(rng),
                            draws=draw_spec(rng, 0.15), fd=rng.chance(0.6), frozen=rng.wpick([([], 5), (["bias"], 1), (["weight"], 1), (["x"], 1), (["=weight"], 1), (["=weight_H"], 1), (["=weight_H", "bias", "x"], 1)])))
        if rng.chance(0.15):
            ops.append(dict(op="penalty", call=gen_call(rng, cfg), loss=rng.pick(["sq", "tanh", "lin"]), draws=draw_spec(rng, 0.1), fault=gen_fault(rng)))
        if rng.chance(0.3):
            ops.append(dict(op="other", call=gen_call(rng, cfg), seed=rng.seed63()))
        if rng.chance(0.3):
            ops.append(dict(op="step", seed=rng.seed63()))
    for o in ops:
        if "call" in o:
            o["call"]["nograd"] = False
    return dict(cfg=cfg, ops=ops, zero=rng.pick(["none", "zeros"]))


def gen_fault(rng):
    if rng.chance(0.7):
        return None
    return [[rng.pick(["alloc", "oom", "interrupt"]), rng.randrange(1, 150), rng.pick(["f", "b", "fb"])] for _ in range(rng.pick([1, 1, 2]))]


def loss_of(kind, y, c):
    if kind == "sq":
        return (c * y * y).sum() * 0.5
    if kind == "tanh":
        return (c * torch.tanh(y)).sum()
    return (c * y).sum()


class T:
    """The layer, its twin, and the gradients both should hold."""

    def __init__(self, ctx, plan):
        self.ctx, self.plan, self.cfg = ctx, plan, plan["cfg"]
        self.w, self.w2 = World(), World()
        self.lay, self.tw = build_pair(ctx, self.w, self.w2, self.cfg)
        self.names = [n for n, _ in self.lay.named_parameters()]
        self.dt = DT[self.cfg["dtype"]]
        self.acc = {n: torch.zeros_like(p) for n, p in self.lay.named_parameters()}
        self.touched = set()
        self.scale, self.scale_acc, self.floor = {}, {}, {}
        self.t = tol(self.cfg["dtype"], 1e-3, 5e-5)
        if plan["zero"] == "zeros":
            for n, p in self.lay.named_parameters():
                p.grad = torch.zeros_like(p)
                self.touched.add(n)

    def sync(self):
        copy_params(self.lay, self.tw)

    def twin_grads(self, x, rest, Ho, loss, c):
        z = x.detach().clone().requires_grad_(True)
        ps = [p for _, p in self.tw.named_parameters()]

        def go():
            y, _ = self.tw(z, *[a.clone() for a in rest], Ho.detach().clone())
            return torch.autograd.grad(loss_of(loss, y, c), [z, *ps], allow_unused=True)
        g = sut(self.ctx, "twin", go, self.w2)
        return [torch.zeros_like(p) if q is None else q for p, q in zip([z, *ps], g)]

    def check_grad(self, what, name, got, want):
        if got is None:
            if want.abs().max().item() > 1e-9:
                raise Violation("missing", f"{what}: no gradient for {name}")
            return
        n = name.split(" ")[0]
        sc = max(want.abs().max().item(), self.scale.get(n) or 0.0, self.floor.get(n) or 0.0)
        expect_close("gradient", f"{what}: gradient of {name}", got, want, self.t, sc or None)

    def terms(self, loss, y, c):
        """What is summed up for the bias may cancel."""
        if "bias" in self.names:
            g = (c * y if loss == "sq" else c).detach().norm().item()
            self.floor["bias"] = max(self.floor.get("bias", 0.0), 0.3 * g)

    def differences(self, what, x, rest, Ho, grads):
        """The twin's gradients against exact differences of its features."""
        cfg = self.cfg
        if cfg["dtype"] != "f64":
            return
        with torch.no_grad():
            def f():
                return self.tw(xx, *rest, Ho.detach().clone())[0]
            xx = x.detach().clone()
            y0 = sut(self.ctx, "twin", f, self.w2)
            c = tensor(cfg["size"] + 31, tuple(y0.shape), self.dt)
            with torch.enable_grad():
                want = self.twin_grads(x, rest, Ho, "lin", c)
            for i, name in enumerate(["x"] + self.names):
                p = None if i == 0 else dict(self.tw.named_parameters())[name]
                base = xx if i == 0 else p.detach().clone()
                for kind in ("all", "one"):
                    d = tensor(i + 7, tuple(base.shape), self.dt)
                    if kind == "one":
                        e = torch.zeros_like(d).flatten()
                        e[(cfg["size"] * 37 + i * 11 + x.numel()) % e.numel()] = 1.0
                        d = e.view_as(d)
                    if i == 0:
                        xx = base + d
                        y1 = sut(self.ctx, "twin", f, self.w2)
                        xx = base
                    else:
                        p.copy_(base + d)
                        y1 = sut(self.ctx, "twin", f, self.w2)
                        p.copy_(base)
                    got = (c * (y1 - y0)).sum().item()
                    exp = (want[i] * d).sum().item()
                    sc = want[i].norm().item() * d.norm().item() + 1e-3 * (c * y0).abs().sum().item()
                    if not abs(got - exp) <= 1e-7 * sc + 1e-12:
                        raise Violation("derivative", f"{what}: along a direction of {name} the loss changes by {got:.6g}, its gradient says {exp:.6g}")
            self.ctx.ops["differences"] += 1


def attempt(ctx, label, fn, world, faults, restore, phase="fb", draws=None):
    """Runs fn, first with each planned fault, restoring what a careful trainer restores."""
    for kind, k, ph in faults or []:
        st = torch.get_rng_state()
        try:
            out = sut(ctx, label + " failing", fn, world, fault=(kind, k), draws=draws)
            restore()
            torch.set_rng_state(st)
            ctx.probes["fault_not_reached"] += 1
        except BaseException as e:
            if not is_sim(e):
                raise
            restore()
            torch.set_rng_state(st)
    return sut(ctx, label, fn, world, draws=draws)


def grads_snapshot(lay):
    s = [None if p.grad is None else p.grad.clone() for p in lay.parameters()]

    def restore():
        for p, g in zip(lay.parameters(), s):
            p.grad = None if g is None else g.clone()
    return restore


def run(plan, ctx):
    cfg = plan["cfg"]
    torch.manual_seed(plan["seed"] & 0x7FFFFFFF)
    S = T(ctx, plan)
    lay = S.lay
    fam = cfg["fam"]
    ctx.state(f"{fam}{cfg['kind']}" + str([(o["op"], o.get("via"), o.get("delay"), o.get("frozen"), bool(o.get("fault"))) for o in plan["ops"]]))
    pending = []        # (due, finish)

    def total(what):
        for n, p in lay.named_parameters():
            if n not in S.touched:
                if p.grad is not None and p.grad.abs().max().item() > 0:
                    raise Violation("stray", f"{what}: {n} has a gradient nobody asked for")
                continue
            S.scale = {n: S.scale_acc.get(n)}
            S.check_grad(what, n + " (accumulated)", p.grad, S.acc[n])
    S.scale, S.scale_acc = {}, {}

    def add(names, want):
        for n, g in zip(S.names, want):
            if n in names:
                S.acc[n] = S.acc[n] + g
                S.touched.add(n)
                S.scale_acc[n] = max(S.scale_acc.get(n, 0.0), S.acc[n].abs().max().item(), g.abs().max().item())

    for k, o in enumerate(plan["ops"]):
        what = f"op {k} ({o['op']} {o.get('via', '')}) on {cfg['kind']}{fam}"
        for due, fin in [p for p in pending if p[0] <= k]:
            fin()
        pending = [p for p in pending if p[0] > k]
        if o["op"] == "fb":
            fin = fb(ctx, S, o, what, add)
            if fin is not None:
                if o["delay"]:
                    pending.append((k + o["delay"], fin))
                    ctx.ops["delayed"] += 1
                else:
                    fin()
        elif o["op"] == "penalty":
            penalty(ctx, S, o, what)
        elif o["op"] == "split":
            split(ctx, S, o, what, add)
        elif o["op"] == "other":
            args, H = call_args(lay, cfg, o["call"])
            lay.eval()
            with torch.no_grad():
                sut(ctx, "other", lambda: forward(lay, args, H), S.w)
                sut(ctx, "other", lambda: S.w.so3.uniform_grid(4, "matrix"), S.w)
            lay.train()
        elif o["op"] == "step":
            for _, fin in sorted(pending, key=lambda p: p[0]):
                fin()
            pending = []
            total(what)
            with torch.no_grad():
                for n, p in lay.named_parameters():
                    if p.grad is not None:
                        p -= 0.05 * p.grad / (1 + p.grad.norm())
            lay.zero_grad(set_to_none=plan["zero"] == "none")
            S.acc = {n: torch.zeros_like(p) for n, p in lay.named_parameters()}
            S.touched = set() if plan["zero"] == "none" else set(S.names) & S.touched
            S.scale_acc, S.floor = {}, {}
            S.sync()
        if not pending:
            total(what)
    for _, fin in sorted(pending, key=lambda p: -p[0]):
        fin()
    total("the end")


def usable(S, x, rest, req, Ho):
    Hin = req if S.cfg["kind"] == "lift" else rest[0]
    return nearest_margin_ok(S.tw, S.cfg, Hin, Ho.detach(), 1e-5)


def penalty(ctx, S, o, what):
    """A gradient penalty: the gradient for the input is differentiated once more."""
    lay, cfg = S.lay, S.cfg
    args, H = call_args(lay, cfg, o["call"])
    req = (default_out(lay, cfg, args) if H is None else H).clone()
    x, rest = args[0].detach().requires_grad_(True), args[1:]
    ps = [p for _, p in lay.named_parameters()]

    def second(y, z, qs, c):
        g, = torch.autograd.grad(loss_of(o["loss"], y, c), z, create_graph=True)
        P = (g * g).sum() * 0.5
        r = torch.autograd.grad(P, [z, *qs], allow_unused=True)
        return [torch.zeros_like(p) if q is None else q for p, q in zip([z, *qs], r)]

    def go():
        y, Ho = forward(lay, (x, *rest), H)
        return Ho, second(y, x, ps, tensor(o["call"]["xseed"] + 5, tuple(y.shape), S.dt))
    Ho, got = attempt(ctx, "penalty", go, S.w, o["fault"], grads_snapshot(lay), draws=o["draws"])
    single_translate(cfg["fam"], req, Ho, what)
    z = x.detach().clone().requires_grad_(True)

    def twin():
        y, _ = S.tw(z, *[a.clone() for a in rest], Ho.detach().clone())
        return second(y, z, [p for _, p in S.tw.named_parameters()], tensor(o["call"]["xseed"] + 5, tuple(y.shape), S.dt))
    want = sut(ctx, "twin", twin, S.w2)
    if not usable(S, x, rest, req, Ho):
        ctx.probes["nearest_tie"] += 1
        return
    S.scale = {}
    top = max(q.abs().max().item() for q in want)
    for n, g, q in zip(["the input", *S.names], got, want):
        expect_close("gradient", f"{what}: gradient of the gradient penalty for {n}", g, q, S.t, max(q.abs().max().item(), 0.02 * top) or None)
    ctx.ops["penalty"] += 1
    ctx.nontrivial = True


def fb(ctx, S, o, what, add):
    lay, cfg = S.lay, S.cfg
    c_ = o["call"]
    args, H = call_args(lay, cfg, c_)
    req = (default_out(lay, cfg, args) if H is None else H).clone()
    x, rest = args[0], args[1:]
    frozen = o["frozen"] if o["via"] != "ckpt" else []
    if "x" not in frozen:
        x = x.detach().requires_grad_(True)
    off = []
    for n, p in lay.named_parameters():
        if any(n.rsplit(".", 1)[-1] == f[1:] if f[0] == "=" else f in n for f in frozen):
            p.requires_grad_(False)
            off.append(p)
    names = {n for n, p in lay.named_parameters() if p.requires_grad}
    if not names and "x" in frozen:
        for p in off:
            p.requires_grad_(True)
        return None
    guard = ArgGuard(x, *rest, H)
    faults = o["fault"]
    (lay.train if c_["hist"] == "train" else lay.eval)()

    def fwd():
        if o["via"] == "ckpt":
            return ckpt.checkpoint(lambda z: forward(lay, (z, *rest), H), x, use_reentrant=False)
        return forward(lay, (x, *rest), H)
    # the draws of the simulator are not repeated when checkpointing recomputes
    draws = o["draws"] if o["via"] != "ckpt" else None
    y, Ho = attempt(ctx, "forward", fwd, S.w, [f for f in faults or [] if "f" in f[2]], grads_snapshot(lay), draws=draws)
    single_translate(cfg["fam"], req, Ho, what)
    if not torch.isfinite(y).all():
        raise Violation("features", f"{what}: features are not finite")
    c = tensor(c_["xseed"] + 5, tuple(y.shape), S.dt)
    S.terms(o["loss"], y, c)
    L = loss_of(o["loss"], y, c)
    for p in off:
        p.requires_grad_(True)
    want = S.twin_grads(x, rest, Ho, o["loss"], c)
    ok = usable(S, x, rest, req, Ho)
    S.scale = {}
    if o["fd"] and ok:
        S.differences(what, x, rest, Ho, want)
    Hc = Ho.detach().clone()

    def fin():
        ps = [p for n, p in lay.named_parameters() if n in names]
        leaves = ([] if "x" in frozen else [x]) + ps
        S.scale = {}
        again = o["via"] == "twice"
        restore_p = grads_snapshot(lay)
        xg = None if x.grad is None else x.grad.clone()

        def restore():
            restore_p()
            x.grad = None if xg is None else xg.clone()

        def bwd():
            if o["via"] == "grad":
                return torch.autograd.grad(L, leaves, allow_unused=True, retain_graph=True)
            if again:
                L.backward(retain_graph=True)
            L.backward(retain_graph=True)
        bf = [f for f in faults or [] if "b" in f[2]]
        if o["via"] == "ckpt":
            bf = []             # torch's recomputation cannot be retried
        g = attempt(ctx, "backward", bwd, S.w, bf, restore)
        guard.check("argument", what)
        if not same(Ho.detach(), Hc):
            raise Violation("poses", f"{what}: the returned poses changed before the backward pass")
        m = 2 if again else 1
        nm = [n for n in S.names if n in names]
        wp = {n: q for n, q in zip(S.names, want[1:])}
        if not ok:
            ctx.probes["nearest_tie"] += 1
            # keep the books with what came
        if o["via"] == "grad":
            got = list(g)
            if "x" not in frozen:
                gx = got.pop(0)
                if ok:
                    S.check_grad(what, "the input", gx, want[0])
            if ok:
                for n, q in zip(nm, got):
                    S.check_grad(what, n, q, wp[n])
        else:
            if "x" not in frozen and ok:
                S.check_grad(what, "the input", x.grad, want[0] * m)
            if ok:
                add(names, [q * m for q in want[1:]])
            else:
                restore_p()
        ctx.nontrivial |= ok
        ctx.ev(what, sig(y), sig(want[0]))
    return fin


def split(ctx, S, o, what, add):
    """The whole batch and its micro-batches at the same poses."""
    lay, cfg = S.lay, S.cfg
    c_ = o["call"]
    args, H = call_args(lay, cfg, c_)
    req = (default_out(lay, cfg, args) if H is None else H).clone()
    x, rest = args[0].detach(), args[1:]
    N = x.shape[0]
    r = Rng("split", o["cut"])
    order = list(range(N))
    r.shuffle(order)
    parts, i = [], 0
    while i < N:
        n = r.randrange(1, N - i + 1)
        parts.append(order[i:i + n])
        i += n
    st = torch.get_rng_state()
    y, Ho = sut(ctx, "forward", lambda: forward(lay, (x, *rest), H), S.w, draws=o["draws"])
    after = torch.get_rng_state()
    c = tensor(c_["xseed"] + 5, tuple(y.shape), S.dt)
    S.terms("lin", y, c)
    ps = list(lay.parameters())
    want = sut(ctx, "backward", lambda: torch.autograd.grad((c * y).sum(), ps, allow_unused=True), S.w)
    want = [torch.zeros_like(p) if q is None else q for p, q in zip(ps, want)]
    if not usable(S, x, rest, req, Ho):
        ctx.probes["nearest_tie"] += 1
        return
    twg = S.twin_grads(x, rest, Ho, "lin", c)
    S.scale = {}
    for n, a, b in zip(S.names, want, twg[1:]):
        S.check_grad(what + ": whole batch", n, a, b)
    # noise draws do not depend on the batch, so the same generator state is the same pose
    acc = [torch.zeros_like(p) for p in ps]
    done = grads_snapshot(lay)
    for part in parts:
        torch.set_rng_state(st)
        xp = x[part].clone().requires_grad_(True)
        cp = c[part]
        rest_p = grads_snapshot(lay)

        def go():
            yp, Hp = forward(lay, (xp, *rest), H)
            if o["via"] == "grad":
                return Hp, torch.autograd.grad((cp * yp).sum(), [xp, *ps], allow_unused=True)
            (cp * yp).sum().backward()
            return Hp, None

        def restore():
            rest_p()
            xp.grad = None
        Hp, g = attempt(ctx, "micro", go, S.w, o["fault"], restore, draws=o["draws"])
        if pose_err(cfg["fam"], Hp, Ho) > (1e-4 if cfg["dtype"] == "f32" else 1e-6):
            raise Violation("poses", f"{what}: the micro-batch {part} drew other poses than the whole batch from the same generator state")
        gx = g[0] if g is not None else xp.grad
        S.check_grad(what + f": micro-batch {part}", "the input", gx, twg[0][part])
        if g is not None:
            acc = [a + (0 if q is None else q) for a, q in zip(acc, g[1:])]
    if o["via"] == "grad":
        S.scale = {n: b.abs().max().item() + 1e-9 for n, b in zip(S.names, want)}
        for n, a, b in zip(S.names, acc, want):
            S.check_grad(what + f": micro-batches {parts}", n, a, b)
    else:
        add(set(S.names), twg[1:])
    torch.set_rng_state(after)
    ctx.nontrivial = True
    ctx.ev(what, str(parts), sig(*want))
