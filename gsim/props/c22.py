"""C22: the context a layer runs in leaves nothing behind."""
from __future__ import annotations

import contextlib
import copy
import io
import pickle
import threading

import torch
import torch.nn as nn
import torch.nn.utils.parametrize as parametrize
from torch.func import functional_call

from .. import poses
from ..common import *  # noqa: F401,F403
from ..seams import is_sim
from ..world import World, ambient
from . import c01

ID = "C22"
QUICK = 1600
THOROUGH = 14000
RULE = ("A run drives one to three layers in one process through calls in execution contexts drawn by the seed (gradients recorded, off, "
        "inference mode, anomaly detection, saved tensors moved away, parameters substituted, reparametrised or frozen, worker threads "
        "under another mode), with contexts a layer need not support in between (vectorised, forward-mode, autocast, other precisions and "
        "devices, construction inside them), looks at the layer, updates, restarts, and calls that fail midway; each judged call is "
        "refined against a twin in another process that only ever ran plain calls. Non-trivial: a call was compared after a call in "
        "another context.")
STATES = "hash of (family, kind, context, preceding context)"
LISTS = ("steps",)
STUBS = "the draws (boundary draws only); os.urandom, terminal. Contexts are torch's own, entered and left by the simulator"

JUDGED = ["grad", "nograd", "inference", "anomaly", "offload", "twice", "frozen", "functional", "functional", "functional_inference", "param", "thread", "thread_inference", "mixed"]
STRAY = ["vmapP", "vmapX", "pergrad", "jvp", "autocast", "autocast16", "half", "meta", "default64", "build_inference", "build_nograd",
         "build_meta", "build_default64", "build_autocast", "empty", "grids", "copy64", "jvpX", "nested", "infer64"]
LOOK = ["repr", "sd", "deepcopy", "pickle", "apply", "hook", "vector", "clip", "zero", "save", "cast", "modules"]


def gen(rng, tier):
    cfgs = []
    for i in range(rng.pick([1, 2, 2, 3])):
        if i and rng.chance(0.5):
            c = dict(cfgs[0])
        else:
            c = gen_cfg(rng)
        c["permute"] = rng.chance(0.6)
        cfgs.append(c)
    steps = []
    for _ in range(rng.pick([4, 6, 8, 10])):
        l = rng.randrange(len(cfgs))
        s = dict(what=rng.wpick([("call", 6), ("stray", 4), ("look", 2), ("update", 1.5), ("restart", 0.4), ("rebuild", 0.6)]), layer=l, seed=rng.seed63())
        s["call"] = gen_call(rng, cfgs[l])
        s["call"]["draws"] = draw_spec(rng, 0.1)
        prev = [p for p in steps if p["layer"] == l]
        if prev and rng.chance(0.45):
            # at the poses of an earlier call, perhaps with its input
            s["call"] = dict(rng.pick(prev)["call"])
            if rng.chance(0.5):
                s["call"]["xseed"] = rng.seed63()
        s["ctx"] = rng.pick({"call": JUDGED, "stray": STRAY, "look": LOOK, "update": ["inplace", "data", "load", "optim"], "restart": ["pickle"], "rebuild": ["rebuild"]}[s["what"]])
        if prev and s["what"] == "call" and rng.chance(0.4):
            s["ctx"] = rng.pick([p["ctx"] for p in prev if p["what"] == "call"] or [s["ctx"]])
        s["train"] = rng.chance(0.5)
        s["fault"] = [rng.pick(["alloc", "oom", "interrupt"]), rng.randrange(1, 70)] if s["what"] in ("call", "stray") and rng.chance(0.15) else None
        steps.append(s)
    last = dict(what="call", layer=rng.randrange(len(cfgs)), seed=rng.seed63(), ctx=rng.pick(["grad", "twice", "functional", "thread"]), fault=None, train=rng.chance(0.5))
    last["call"] = dict(rng.pick(steps)["call"], draws=None)
    l = [s for s in steps if s["call"].items() >= dict(last["call"], draws=s["call"]["draws"]).items()]
    if l:
        last["layer"] = l[0]["layer"]
    else:
        last["call"] = gen_call(rng, cfgs[last["layer"]])
        last["call"]["draws"] = None
    steps.append(last)
    return dict(cfgs=cfgs, steps=steps, early=rng.chance(0.5))


class Triple(nn.Module):
    def forward(self, w):
        return w * 1.5


@contextlib.contextmanager
def default64():
    torch.set_default_dtype(torch.float64)
    try:
        yield
    finally:
        torch.set_default_dtype(torch.float32)


def in_thread(fn, around=contextlib.nullcontext):
    """Runs fn in a thread of its own while this one waits under another mode."""
    out = []

    def go():
        try:
            out.append((True, fn()))
        except BaseException as e:  # noqa: BLE001
            out.append((False, e))

    with around():
        t = threading.Thread(target=go)
        t.start()
        t.join()
    ok, v = out[0]
    if not ok:
        raise v
    return v


def leaf(x):
    return x.detach().clone().requires_grad_(True)


class Sim:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.w, self.w2 = World(), World()
        self.lays, self.tws = [], []
        self.prev = "start"
        self.others = False
        self.drawn = set()
        for i, c in enumerate(plan["cfgs"]):
            self.tws.append(sut(ctx, "build twin", lambda: build(self.w2, c, permute=False), self.w2))
            self.init = [{k: v.clone() for k, v in t.named_buffers()} for t in self.tws]
            self.lays.append(None)
            # the others are built when they are first used
            if plan["early"] or not i:
                self.rebuild(-1, dict(layer=i))

    def lay(self, s):
        if self.lays[s["layer"]] is None:
            self.rebuild(-1, s)
        return self.lays[s["layer"]]

    def rebuild(self, i, s):
        ctx, cfg = self.ctx, self.plan["cfgs"][s["layer"]]
        what = f"{cfg['kind']}{cfg['fam']} built after {self.prev}"
        warm_builds(self.ctx, self.w, cfg)
        lay = self.lays[s["layer"]] = sut(ctx, "build", lambda: build(self.w, cfg), self.w)
        warm_up(self.ctx, self.w, lay, cfg)
        if cfg["dtype"] == "f64":
            # the twin's sampling widths come from a loaded grid of double precision too
            sut(ctx, "load", lambda: lay.load_state_dict(lay.state_dict()), self.w)
        bufs = dict(lay.named_buffers())
        for k, v in self.init[s["layer"]].items():
            b = bufs.get(k)
            if b is None or b.device != v.device or not same(b, v):
                raise Violation("build", f"{what}: buffer {k} is not the one of a fresh process")
        for k, p in lay.named_parameters():
            if p.is_inference() or p.device.type != "cpu" or p.dtype != DT[cfg["dtype"]]:
                raise Violation("build", f"{what}: parameter {k} of {p.dtype} on {p.device}, inference {p.is_inference()}")

    # ------------------------------------------------------------ judged calls

    def call(self, i, s):
        ctx, cfg = self.ctx, self.plan["cfgs"][s["layer"]]
        lay, tw = self.lay(s), self.tws[s["layer"]]
        how = s["ctx"]
        what = f"step {i}: {cfg['kind']}{cfg['fam']} called with {how} after {self.prev}"
        (lay.train if s["train"] else lay.eval)()
        tw.train(s["train"])
        args, H = call_args(lay, cfg, s["call"])
        req = default_out(lay, cfg, args) if H is None else H
        req = req.detach().clone()
        snap = snap_module(lay)
        names = [n for n, _ in lay.named_parameters()]
        flags = [p.requires_grad for p in lay.parameters()]
        guard = ArgGuard(*args, H)
        amb = ambient()
        if s["fault"]:
            try:
                self.under(how, lay, args, H, s, None, tuple(s["fault"]))
            except BaseException as e:
                if not is_sim(e):
                    raise
            self.prev = how + " (failed)"
            for p in lay.parameters():
                p.grad = None
        y, Ho, grads, params = self.under(how, lay, args, H, s, s["call"]["draws"], None)
        guard.check("argument", what)
        check_snap(lay, snap, "state", what)
        if [n for n, _ in lay.named_parameters()] != names or [p.requires_grad for p in lay.parameters()] != flags:
            raise Violation("state", f"{what}: the parameters, or whether they need gradients, changed")
        if ambient() != amb:
            raise Violation("settings", f"{what}: process-wide settings changed")
        wants = how not in ("nograd", "inference", "functional_inference")
        if y.requires_grad != wants:
            raise Violation("graph", f"{what}: features {'do not ' if wants else ''}require gradients")
        if y.is_inference() and "inference" not in how:
            raise Violation("graph", f"{what}: features are inference tensors")
        dt = DT[cfg["dtype"]]
        if y.dtype != dt or Ho.dtype != req.dtype:
            raise Violation("dtype", f"{what}: features of {y.dtype}, poses of {Ho.dtype}")
        Ho = Ho.detach().clone()
        r = single_translate(cfg["fam"], req, Ho, what)
        if cfg["permute"] and s["call"]["draws"] is None:
            key = tuple(round(v, 9) for v in r.flatten().tolist())
            if key in self.drawn:
                raise Violation("stale-draw", f"{what}: the group element of an earlier call was used again")
            self.drawn.add(key)
        elif not cfg["permute"] and not same(Ho, req):
            raise Violation("poses", f"{what}: randomisation is off but the poses are not the requested ones")
        # the same layer in a process that never left the plain context
        tw.load_state_dict({k: v.detach().clone() for k, v in lay.state_dict().items()})
        if params is not None:
            with torch.no_grad():
                for n, p in tw.named_parameters():
                    p.copy_(params[n].detach())
        targs = tuple(a.detach().clone() for a in args)
        targs = (targs[0].requires_grad_(True), *targs[1:])
        y2, H2 = sut(ctx, "twin", lambda: tw(*targs, Ho), self.w2)
        Hin = Ho if cfg["kind"] == "lift" else args[1]
        if not nearest_margin_ok(tw, cfg, Hin, Ho, 1e-5):
            ctx.probes["nearest_tie"] += 1
            return
        expect_close("features", what, y, y2, tol(cfg["dtype"], 1e-4, 1e-5))
        ctx.metrics["rel" + cfg["dtype"]] = max(ctx.metrics.get("rel" + cfg["dtype"], 0.0), reldiff(y, y2))
        if grads is not None:
            ps = dict(tw.named_parameters())
            g2 = torch.autograd.grad((y2 * self.cot(y2, s)).sum(), [targs[0], *ps.values()])
            g2 = dict(zip(["input", *ps], g2))
            for n, g in grads.items():
                if g is None:
                    raise Violation("gradients", f"{what}: no gradient for {n}")
                expect_close("gradients", what + f", gradient of {n}", g, g2[n], tol(cfg["dtype"], 1e-3, 1e-4))
        ctx.nontrivial |= self.others
        ctx.ev(i, how, sig(y), sig(Ho))
        ctx.probes["judged_" + how] += 1
        ctx.state(f"{cfg['fam']}{cfg['kind']}{how}<{self.prev}")

    def cot(self, y, s):
        return tensor(s["seed"], tuple(y.shape), y.dtype)

    def under(self, how, lay, args, H, s, draws, fault):
        """(features, poses, gradients or None, parameters the call was given or None)."""
        ctx, w = self.ctx, self.w
        fwd = lambda a: sut(ctx, "forward", lambda: forward(lay, a, H), w, draws=draws, fault=fault)

        def backward(y, ts, **kw):
            f = lambda: torch.autograd.grad((y * self.cot(y, s)).sum(), list(ts.values()), **kw)
            return dict(zip(ts, sut(ctx, "backward", f, w)))

        leaves = (leaf(args[0]), *args[1:])
        ts = dict(input=leaves[0], **dict(lay.named_parameters()))
        if how == "nograd":
            with torch.no_grad():
                return *fwd(args), None, None
        if how == "inference":
            with torch.inference_mode():
                return *fwd(args), None, None
        if how == "grad":
            y, Ho = fwd(leaves)
            return y, Ho, backward(y, ts), None
        if how == "mixed":
            # a frozen feature extractor and a loss in one program
            with torch.no_grad(), torch.enable_grad():
                y, Ho = fwd(leaves)
            with torch.inference_mode():
                sut(ctx, "forward", lambda: forward(lay, args, H), w)
            return y, Ho, backward(y, ts), None
        if how == "anomaly":
            with torch.autograd.set_detect_anomaly(True):
                y, Ho = fwd(leaves)
                return y, Ho, backward(y, ts), None
        if how == "offload":
            kept = []

            def pack(t):
                kept.append((t, t._version, t.detach().clone()))
                return len(kept) - 1

            with torch.autograd.graph.saved_tensors_hooks(pack, lambda k: kept[k][2]):
                y, Ho = fwd(leaves)
                return y, Ho, backward(y, ts), None
        if how == "twice":
            y, Ho = fwd(leaves)
            a = backward(y, ts, retain_graph=True)
            b = backward(y, ts)
            for n in a:
                expect_close("gradients", f"second pass backward through one call of {how}, {n}", a[n], b[n], 1e-6)
            return y, Ho, b, None
        if how == "frozen":
            off = {n for i, n in enumerate(ts) if n != "input" and (s["seed"] >> i) & 1}
            try:
                for n in off:
                    ts[n].requires_grad_(False)
                y, Ho = fwd(leaves)
                g = backward(y, {n: t for n, t in ts.items() if n not in off})
            finally:
                for n in off:
                    ts[n].requires_grad_(True)
            return y, Ho, g, None
        if how == "functional":
            new = {n: (p.detach() + 0.5 * tensor(s["seed"] + 3 * i, tuple(p.shape), p.dtype)).requires_grad_(True)
                   for i, (n, p) in enumerate(lay.named_parameters())}
            call = lambda: functional_call(lay, new, (*leaves, H) if H is not None else leaves)
            y, Ho = sut(ctx, "forward", call, w, draws=draws, fault=fault)
            return y, Ho, backward(y, dict(input=leaves[0], **new)), new
        if how == "functional_inference":
            # an ensemble: the layer with one set of parameters after another
            for j in (0, 1):
                new = {n: p.detach() + 0.5 * tensor(s["seed"] + 3 * i + j, tuple(p.shape), p.dtype) for i, (n, p) in enumerate(lay.named_parameters())}
                with torch.inference_mode():
                    y, Ho = sut(ctx, "forward", lambda: functional_call(lay, new, (*args, H) if H is not None else args), w, draws=draws, fault=fault)
            return y, Ho, None, new
        if how == "param":
            which = [n for n, p in lay.kernel._parameters.items() if p is not None]
            if not which:
                return self.under("grad", lay, args, H, s, draws, fault)
            n = which[s["seed"] % len(which)]
            order = list(lay.kernel._parameters)
            old = lay.kernel._parameters[n]
            new = {k: p.detach().clone() for k, p in lay.named_parameters()}
            new["kernel." + n] = new["kernel." + n] * 1.5
            parametrize.register_parametrization(lay.kernel, n, Triple())
            try:
                y, Ho = fwd(leaves)
                g = backward(y, dict(input=leaves[0]))
            finally:
                parametrize.remove_parametrizations(lay.kernel, n, leave_parametrized=False)
                # the same parameter, in its old place
                lay.kernel._parameters[n] = old
                for k in order:
                    lay.kernel._parameters[k] = lay.kernel._parameters.pop(k)
            return y, Ho, g, new
        if how in ("thread", "thread_inference"):
            def go():
                y, Ho = fwd(leaves)
                return y, Ho, backward(y, ts), None
            return in_thread(go, torch.no_grad if how == "thread" else torch.inference_mode)
        raise HarnessError(how)

    # ---------------------------------------------------------- other contexts

    def stray(self, i, s):
        """A context in which a layer may well raise; what it leaves behind is
        the question."""
        ctx, cfg, w = self.ctx, self.plan["cfgs"][s["layer"]], self.w
        building = s["ctx"].startswith("build_") or s["ctx"] == "grids"
        lay = self.lays[s["layer"]] if building else self.lay(s)
        if lay is None:
            # only lends its reference grid and parameters
            lay = self.tws[s["layer"]]
        what = f"step {i}: {cfg['kind']}{cfg['fam']} {s['ctx']}"
        (lay.train if s["train"] else lay.eval)()
        args, H = call_args(lay, cfg, s["call"])
        lays = [l for l in self.lays if l is not None]
        snaps = [snap_module(l) for l in lays]
        amb = ambient()
        fn = getattr(self, "s_" + s["ctx"])
        try:
            sut(ctx, "stray", lambda: fn(lay, cfg, args, H, s), w, fault=tuple(s["fault"]) if s["fault"] else None, allow=(Exception,))
            ctx.probes["stray_" + s["ctx"]] += 1
        except (Violation, HarnessError):
            raise
        except BaseException as e:
            if not is_sim(e) and not isinstance(e, Exception):
                raise
            ctx.probes["raised_" + s["ctx"]] += 1
        for l, sn in zip(lays, snaps):
            check_snap(l, sn, "state", what)
        if ambient() != amb:
            raise Violation("settings", f"{what}: process-wide settings changed")

    def s_vmapP(self, lay, cfg, args, H, s):
        P = {k: torch.stack([v.detach(), v.detach() * 2]) for k, v in lay.named_parameters()}
        a = (*args, H) if H is not None else args
        torch.func.vmap(lambda p: functional_call(lay, p, a)[0], randomness="same")(P)

    def s_vmapX(self, lay, cfg, args, H, s):
        torch.func.vmap(lambda z: forward(lay, (z[None], *args[1:]), H)[0][0], randomness="different" if s["seed"] & 1 else "same")(args[0])

    def s_pergrad(self, lay, cfg, args, H, s):
        P = {k: v.detach() for k, v in lay.named_parameters()}
        f = lambda p, z: functional_call(lay, p, (z[None], *args[1:]) if H is None else (z[None], *args[1:], H))[0].square().sum()
        torch.func.vmap(torch.func.grad(f), in_dims=(None, 0), randomness="same")(P, args[0])

    def s_jvp(self, lay, cfg, args, H, s):
        P = {k: v.detach() for k, v in lay.named_parameters()}
        torch.func.jvp(lambda p: functional_call(lay, p, args if H is None else (*args, H))[0], (P,), (P,))

    def s_jvpX(self, lay, cfg, args, H, s):
        torch.func.jvp(lambda z: forward(lay, (z, *args[1:]), H)[0], (args[0],), (args[0],))

    def s_nested(self, lay, cfg, args, H, s):
        with torch.inference_mode(), torch.autocast("cpu", torch.bfloat16):
            torch.func.vmap(lambda z: forward(lay, (z[None], *args[1:]), H)[0][0], randomness="same")(args[0])

    def s_autocast(self, lay, cfg, args, H, s, dt=torch.bfloat16):
        with torch.autocast("cpu", dt):
            y, _ = forward(lay, (args[0].clone().requires_grad_(True), *args[1:]), H)
            y.float().square().sum().backward()
        for p in lay.parameters():
            p.grad = None

    def s_autocast16(self, lay, cfg, args, H, s):
        with torch.inference_mode():
            self.s_autocast(lay, cfg, args, H, s, torch.float16)

    def cast(self, lay, args, H, dt):
        l2 = copy.deepcopy(lay).to(dt)
        args = tuple(a.to(dt) for a in args)
        H = None if H is None else H.to(dt)
        return forward(l2, args, H)

    def s_half(self, lay, cfg, args, H, s):
        self.cast(lay, args, H, torch.float16 if s["seed"] & 1 else torch.bfloat16)

    def s_copy64(self, lay, cfg, args, H, s):
        with torch.no_grad():
            self.cast(lay, args, H, torch.float64)

    def s_infer64(self, lay, cfg, args, H, s):
        with torch.inference_mode():
            self.cast(lay, args, H, torch.float64 if s["seed"] & 1 else torch.float32)

    def s_meta(self, lay, cfg, args, H, s):
        l2 = copy.deepcopy(lay).to("meta")
        forward(l2, tuple(a.to("meta") for a in args), None if H is None else H.to("meta"))

    def s_default64(self, lay, cfg, args, H, s):
        with default64():
            self.cast(lay, args, H, torch.float64)

    def s_empty(self, lay, cfg, args, H, s):
        forward(lay, (args[0][:0], *args[1:]), H)

    def s_build_inference(self, lay, cfg, args, H, s):
        with torch.inference_mode():
            l2 = build(self.w, cfg)
            forward(l2, args, H)

    def s_build_nograd(self, lay, cfg, args, H, s):
        with torch.no_grad():
            forward(build(self.w, cfg), args, H)

    def s_build_meta(self, lay, cfg, args, H, s):
        with torch.device("meta"):
            build(self.w, cfg)

    def s_build_default64(self, lay, cfg, args, H, s):
        with default64():
            forward(build(self.w, cfg), args, H)

    def s_build_autocast(self, lay, cfg, args, H, s):
        with torch.autocast("cpu", torch.bfloat16):
            forward(build(self.w, cfg), args, H)

    def s_grids(self, lay, cfg, args, H, s):
        cms = [torch.inference_mode, torch.no_grad, default64, lambda: torch.autocast("cpu", torch.bfloat16), lambda: torch.device("meta")]
        w, n = self.w, gk_total(cfg)
        with cms[s["seed"] % len(cms)]():
            k = gk_pair(cfg)[0] if cfg["fam"] in ("E2", "E3") else n
            for f in (lambda: w.so3.uniform_grid(min(k, 24), "matrix"), lambda: w.so3.random_matrix(2), lambda: w.so2.uniform_grid(k),
                      lambda: w.o2.uniform_grid(gk_pair(cfg)) if cfg["fam"] == "E2" else None,
                      lambda: w.o3.uniform_grid((min(k, 24), 2)) if cfg["fam"] == "E3" else None):
                f()

    # ------------------------------------------------------ looks and updates

    def look(self, i, s):
        ctx, cfg, w = self.ctx, self.plan["cfgs"][s["layer"]], self.w
        lay = self.lay(s)
        how = s["ctx"]
        what = f"step {i}: {cfg['kind']}{cfg['fam']} looked at ({how})"
        snap = snap_module(lay)
        mode = lay.training

        def go():
            if how == "repr":
                return repr(lay), str(lay.kernel), lay.extra_repr(), lay.kernel.extra_repr()
            if how == "sd":
                return [v.sum() for v in lay.state_dict().values()]
            if how == "deepcopy":
                l2 = copy.deepcopy(lay)
                with torch.no_grad():
                    for p in l2.parameters():
                        p.mul_(0)
                    for b in l2.buffers():
                        b.mul_(0)
            elif how == "pickle":
                pickle.dumps(lay)
            elif how == "apply":
                lay.apply(lambda m: None)
            elif how == "hook":
                h = [m.register_forward_hook(lambda *a: None) for m in lay.modules()]
                args, H = call_args(lay, cfg, s["call"])
                forward(lay, args, H)
                for k in h:
                    k.remove()
            elif how == "vector":
                v = torch.nn.utils.parameters_to_vector(lay.parameters())
                torch.nn.utils.vector_to_parameters(v.detach().clone(), lay.parameters())
            elif how == "clip":
                args, H = call_args(lay, cfg, s["call"])
                forward(lay, args, H)[0].square().sum().backward()
                torch.nn.utils.clip_grad_norm_(lay.parameters(), 0.1)
                lay.zero_grad()
            elif how == "zero":
                lay.zero_grad(set_to_none=False)
                lay.zero_grad()
            elif how == "save":
                torch.save(lay.state_dict(), io.BytesIO())
            elif how == "cast":
                # there and back: values of single precision survive
                if cfg["dtype"] == "f32":
                    lay.double()
                    args, H = call_args(lay, dict(cfg, dtype="f64"), s["call"])
                    forward(lay, args, H)
                    lay.float()
                else:
                    lay.to(torch.float64).cpu()
            elif how == "modules":
                return [dict(m.__dict__) for m in lay.modules()], list(lay.named_children()), list(lay.named_buffers())

        sut(ctx, "look", go, w)
        check_snap(lay, snap, "state", what)
        if lay.training != mode:
            raise Violation("state", f"{what}: mode changed")

    def update(self, i, s):
        lay = self.lay(s)
        if s["ctx"] != "optim":
            sut(self.ctx, "update", lambda: c01.update(lay, s["ctx"], s["seed"]), self.w)
            return
        opt = torch.optim.SGD(lay.parameters(), lr=0.05)
        for k, p in enumerate(lay.parameters()):
            p.grad = tensor(s["seed"] + k, tuple(p.shape), p.dtype)
        opt.step()
        opt.zero_grad()

    def restart(self, i, s):
        buf = io.BytesIO()
        old = self.w
        sut(self.ctx, "save", lambda: pickle.dump(self.lays, buf), old)
        self.w = World()
        self.lays = sut(self.ctx, "load", lambda: pickle.loads(buf.getvalue()), self.w)
        self.ctx.faults["restart"] += 1


def run(plan, ctx):
    sim = Sim(plan, ctx)
    ctx.h.update(b"c22")
    for i, s in enumerate(plan["steps"]):
        getattr(sim, s["what"])(i, s)
        name = s["ctx"] if s["what"] != "restart" else "restart"
        # the next call comes after something other than a plain call
        sim.others |= s["what"] in ("stray", "restart", "look") or name not in ("grad", "twice")
        sim.prev = name
