"""Programs over the whole library: data describing calls, and their runner."""
from __future__ import annotations

import math

import torch

from . import poses
from .common import *  # noqa: F401,F403
from .core import Rng, Skip


# ------------------------------------------------------------------ functions


def _mats(seed, n, how="rand"):
    r = Rng("fn", seed)
    if how == "lattice":
        L = poses.lattice("SE3")
        return torch.stack([r.pick(L) for _ in range(n)])
    if how == "ident":
        return torch.eye(3, dtype=torch.float64).repeat(n, 1, 1)
    M = poses.rand_mats("SE3", n, r)
    if how == "mixed" and n > 1:
        M[0] = torch.eye(3)
        M[-1] = poses.lattice("SE3")[r.randrange(24)]
    if how == "near":
        ax = poses.rand_mats("SE3", n, r)[:, 0]
        h = torch.tensor([1e-5 * (i + 1) for i in range(n)], dtype=torch.float64)
        q = torch.cat([torch.cos(h / 2)[:, None], torch.sin(h / 2)[:, None] * ax], 1)
        M = poses.quat_mat(q)
    return M


def _quats(seed, n, how="rand"):
    r = Rng("q", seed)
    if how == "ident":
        return torch.tensor([[1.0, 0, 0, 0]], dtype=torch.float64).repeat(n, 1)
    q = torch.tensor([[r.gauss(0, 1) for _ in range(4)] for _ in range(n)], dtype=torch.float64)
    if how in ("lattice", "mixed"):
        q[0] = torch.tensor([0.0, 1, 0, 0], dtype=torch.float64)
    return q / q.norm(dim=-1, keepdim=True)


def _fam(seed, fam, n, how="rand"):
    r = Rng("f", seed)
    if how in ("lattice", "mixed"):
        L = poses.lattice(fam)
        M = torch.stack([r.pick(L) for _ in range(n)])
    else:
        M = poses.rand_mats(fam, n, r)
    return poses.from_mat(fam, M, torch.float64)


def _grid(D, w=3):
    x = torch.linspace(-1, 1, w, dtype=torch.float64)
    g = torch.meshgrid(*[x] * D, indexing="ij")
    return torch.stack(g, -1)


def _sig(seed, n):
    return tensor(seed, (n, 3), torch.float64)


# name -> function of (seed, n, how) giving the arguments (float64, cast later)
FN = {
    "so2.angle_to_matrix": lambda s, n, h: (_fam(s, "SE2", n, h),),
    "so2.angle_to_euclid": lambda s, n, h: (_fam(s, "SE2", n, h),),
    "so2.inverse_angle": lambda s, n, h: (_fam(s, "SE2", n, h),),
    "so2.inverse_matrix": lambda s, n, h: (poses.to_mat("SE2", _fam(s, "SE2", n, h)),),
    "so2.left_apply_angle": lambda s, n, h: (_fam(s, "SE2", n, h), _fam(s + 1, "SE2", n, h)),
    "so2.left_apply_to_angle": lambda s, n, h: (_fam(s, "SE2", n, h), _fam(s + 1, "SE2", n + 1, h)),
    "so2.left_apply_angle_to_R2": lambda s, n, h: (_fam(s, "SE2", n, h), _grid(2)),
    "so2.left_apply_matrix_to_R2": lambda s, n, h: (poses.to_mat("SE2", _fam(s, "SE2", n, h)), _grid(2)),
    "so2.geodesic_distance": lambda s, n, h: (_fam(s, "SE2", n, h)[:, None], _fam(s + 1, "SE2", n, h)),
    "so2.nearest_neighbour_distance": lambda s, n, h: (_fam(s, "SE2", n + 1, h),),
    "so2.grid_sample": lambda s, n, h: (_fam(s, "SE2", n, h), _sig(s, 4), torch.arange(4, dtype=torch.float64)[:, None] * 1.5),
    "o2.inverse": lambda s, n, h: (_fam(s, "E2", n, h),),
    "o2.det": lambda s, n, h: (_fam(s, "E2", n, h),),
    "o2.left_apply_angle": lambda s, n, h: (_fam(s, "E2", n, h), _fam(s + 1, "E2", n, h)),
    "o2.left_apply_to_angle": lambda s, n, h: (_fam(s, "E2", n, h), _fam(s + 1, "E2", n + 1, h)),
    "o2.left_apply_to_R2": lambda s, n, h: (_fam(s, "E2", n, h), _grid(2)),
    "so3.matrix_x": lambda s, n, h: (_fam(s, "SE2", n, h)[:, 0],),
    "so3.matrix_y": lambda s, n, h: (_fam(s, "SE2", n, h)[:, 0],),
    "so3.matrix_z": lambda s, n, h: (_fam(s, "SE2", n, h)[:, 0],),
    "so3.quat_inverse": lambda s, n, h: (_quats(s, n, h),),
    "so3.matrix_inverse": lambda s, n, h: (_mats(s, n, h),),
    "so3.euler_to_quat": lambda s, n, h: (tensor(s, (n, 3), torch.float64),),
    "so3.euler_to_matrix": lambda s, n, h: (tensor(s, (n, 3), torch.float64),),
    "so3.matrix_to_quat": lambda s, n, h: (_mats(s, n, h),),
    "so3.matrix_to_euler": lambda s, n, h: (_mats(s, n, h),),
    "so3.quat_to_matrix": lambda s, n, h: (_quats(s, n, h),),
    "so3.quat_to_euler": lambda s, n, h: (_quats(s, n, h),),
    "so3.left_apply_to_R3": lambda s, n, h: (_mats(s, n, h), _grid(3)),
    "so3.left_apply_matrix": lambda s, n, h: (_mats(s, n, h), _mats(s + 1, n, h)),
    "so3.left_apply_to_matrix": lambda s, n, h: (_mats(s, n, h), _mats(s + 1, n + 1, h)),
    "so3.so3_log": lambda s, n, h: (_mats(s, n, h),),
    "so3.quaternion_log": lambda s, n, h: (_quats(s, n, h),),
    "so3.geodesic_distance": lambda s, n, h: (_quats(s, n, h)[:, None], _quats(s + 1, n, h)),
    "so3.nearest_neighbour_distance": lambda s, n, h: (_quats(s, n + 2, "rand"),),
    "so3.grid_sample": lambda s, n, h: (_quats(s, n, h), _sig(s, 4), _quats(5, 4)),
    "o3.left_apply_O3": lambda s, n, h: (_fam(s, "E3", n, h), _fam(s + 1, "E3", n, h)),
    "o3.left_apply_to_O3": lambda s, n, h: (_fam(s, "E3", n, h), _fam(s + 1, "E3", n + 1, h)),
    "o3.left_apply_to_R3": lambda s, n, h: (_fam(s, "E3", n, h), _grid(3)),
    "o3.det": lambda s, n, h: (_fam(s, "E3", n, h),),
    "o3.inverse": lambda s, n, h: (_fam(s, "E3", n, h),),
    "s2.spherical_to_euclid": lambda s, n, h: (tensor(s, (n, 2), torch.float64),),
    "s2.euclid_to_spherical": lambda s, n, h: (_mats(s, n, h)[:, 0],),
    "s2.geodesic_distance_s2": lambda s, n, h: (_mats(s, n, h)[:, 0], _mats(s + 1, n, h)[:, 0]),
    "s2.spherical_to_euler": lambda s, n, h: (tensor(s, (n, 2), torch.float64),),
    "o2.grid_sample": lambda s, n, h: (_fam(s, "E2", n, h), _sig(s, 5), _e2grid(3, 2), ("raw", (3, 2))),
    "o3.grid_sample": lambda s, n, h: (_fam(s, "E3", n, h), _sig(s, 5), _e3grid(3, 2), ("raw", (3, 2))),
}
# which arguments take any leading shape (all leading shapes alike)
LEAD = {**{n: (0,) for n in (
    "so3.matrix_x so3.matrix_y so3.matrix_z so3.quat_inverse so3.matrix_inverse so3.euler_to_quat so3.euler_to_matrix so3.matrix_to_quat "
    "so3.matrix_to_euler so3.quat_to_matrix so3.quat_to_euler so3.so3_log o3.det o3.inverse o2.inverse o2.det so2.angle_to_matrix "
    "so2.angle_to_euclid so2.inverse_angle so2.inverse_matrix s2.spherical_to_euclid s2.euclid_to_spherical").split()},
    **{n: (0, 1) for n in "so3.left_apply_matrix o3.left_apply_O3 o2.left_apply_angle so2.left_apply_angle s2.geodesic_distance_s2".split()}}


def reshaped(name, a, how, n):
    """The same elements with another leading shape, or as part of a larger
    tensor the caller keeps."""
    if how is None or name not in LEAD:
        return a
    out = list(a)
    for i in LEAD[name]:
        t = a[i]
        if how == "one":
            t = t[-1]
        elif how == "lead":
            t = t.reshape(1, n, 1, *t.shape[1:])
        else:
            big = torch.cat([t[:1], t, t[-1:]]).clone()
            t = big[1:-1]
        out[i] = t
    return out


NOARG = ["so3.identity", "so3.klein_group", "so3.tetrahedral", "so3.octahedral", "so3.icosahedral"]


def _e2grid(a, b):
    return torch.cat([torch.stack([torch.ones(a), torch.arange(a) * 2.0], 1),
                      torch.stack([-torch.ones(b), torch.arange(b) * 3.0], 1)]).double()


def _e3grid(a, b):
    M = poses.spread_mats("E3", a + b, Rng("e3"), 0.5, reflect=[False] * a + [True] * b)
    return poses.from_mat("E3", M, torch.float64)


# generators of elements: name -> argument maker
GEN = {
    "so2.uniform_grid": lambda n: (n,), "so2.random_grid": lambda n: (n,),
    "o2.uniform_grid": lambda n: ((n, max(1, n - 1)),), "o2.random_grid": lambda n: (n,),
    "so3.random_quat": lambda n: (n,), "so3.random_matrix": lambda n: (n,), "so3.random_euler": lambda n: (n,),
    "o3.random_grid": lambda n: (n,), "o3.uniform_grid": lambda n: ((n, max(1, n - 1)),),
    "s2.random_s2": lambda n: ((n,),),
}


# ------------------------------------------------------------------- programs


def gen_program(rng: Rng, n=None, permute=None, grids=True, layers=True, dtypes=("f32", "f64"), train=True):
    steps = []
    cfgs = []
    for _ in range(n or rng.pick([2, 3, 4, 6])):
        k = rng.wpick([("layer", 5 if layers else 0), ("fn", 4), ("gen", 2), ("grid", 2 if grids else 0),
                       ("side", 1.5), ("so3kernel", 1), ("repulse", 1 if grids else 0), ("const", 0.5), ("util", 0.7)])
        if k == "layer":
            if cfgs and rng.chance(0.4):
                i = rng.randrange(len(cfgs))
            else:
                cfg = gen_cfg(rng, dtypes=dtypes)
                cfg["permute"] = rng.chance(0.7) if permute is None else permute
                cfgs.append(cfg)
                i = len(cfgs) - 1
            c = gen_call(rng, cfgs[i])
            steps.append(dict(op="layer", i=i, call=c, grad=rng.chance(0.5), step=train and rng.chance(0.3)))
        elif k == "fn":
            steps.append(dict(op="fn", name=rng.pick(sorted(FN)), seed=rng.seed63(), n=rng.pick([1, 2, 3, 5]),
                              how=rng.wpick([("rand", 4), ("lattice", 2), ("mixed", 2), ("ident", 1), ("near", 1)]),
                              dtype=rng.pick(["f32", "f64"]), mode=rng.pick(["rbf", "nearest"]),
                              shape=rng.wpick([(None, 4), ("one", 2), ("lead", 1), ("view", 1)])))
        elif k == "gen":
            steps.append(dict(op="gen", name=rng.pick(sorted(GEN)), n=rng.pick([1, 2, 3, 6])))
        elif k == "grid":
            steps.append(dict(op="grid", n=rng.pick([1, 2, 4, 8, 24, 25, 26]), param=rng.pick(["quat", "matrix", "euler"]),
                              cache=rng.chance(0.3), steps=rng.pick([1, 2])))
        elif k == "side":
            steps.append(dict(op="side", kind=rng.pick(["relu", "gelu", "leaky", "wrap", "lnorm", "bnorm", "inorm", "avgsp", "maxsp",
                                                        "amaxsp", "aavgsp", "maxg", "maxglob", "avgg", "avgglob"]),
                              D=rng.pick([2, 3]), seed=rng.seed63(), q=rng.pick([1, 2]), train=rng.chance(0.5)))
        elif k == "so3kernel":
            steps.append(dict(op="so3kernel", gk=rng.pick([2, 4, 5]), groups=rng.pick([1, 2]), seed=rng.seed63(),
                              n=rng.pick([1, 2, 3]), m=rng.pick([1, 2, 4]), mode=rng.pick(["rbf", "rbf", "nearest"])))
        elif k == "repulse":
            steps.append(dict(op="repulse", seed=rng.seed63(), n=rng.pick([3, 5, 8]), steps=rng.pick([1, 3]),
                              in_place=rng.chance(0.3), space=rng.pick(["so3", "s2", "s2grid"]),
                              param=rng.pick(["spherical", "euclidean", "euler", "matrix", "quat"])))
        elif k == "const":
            steps.append(dict(op="const", name=rng.pick(NOARG)))
        else:
            steps.append(dict(op="util", name=rng.pick(["create_grid_R2", "create_grid_R3", "create_spherical_mask_R2",
                                                        "create_spherical_mask_R3"]), n=rng.pick([1, 2, 3, 5])))
    return dict(cfgs=cfgs, steps=steps)


def lookup(world, name):
    mod, fn = name.split(".")
    return getattr(getattr(world, mod), fn, None)


class Runner:
    """Executes a program in one world; yields (label, tensors) per step."""

    def __init__(self, ctx, world, prog, seam=None, on_args=None):
        self.ctx, self.w, self.prog = ctx, world, prog
        self.seam = seam or {}
        self.layers = {}
        self.on_args = on_args or (lambda *t: None)
        self.info = {}

    def sut(self, label, fn):
        return sut(self.ctx, label, fn, self.w, **self.seam)

    def layer(self, i):
        new = []
        if i not in self.layers:
            cfg = self.prog["cfgs"][i]
            G = custom_grid(cfg) if cfg["grid"] is not None else None
            if G is not None:
                self.on_args("grid", G)
            warm_builds(self.ctx, self.w, cfg)
            lay = self.sut("build " + cfg["kind"], lambda: build(self.w, cfg, grid=G))
            warm_up(self.ctx, self.w, lay, cfg)
            self.layers[i] = lay
            new = [(f"layer {i} initial {n}", t.detach().clone()) for n, t in
                   list(lay.named_parameters()) + list(lay.named_buffers())]
        return self.layers[i], new

    def step(self, k):
        s = self.prog["steps"][k]
        op = s["op"]
        out = []
        w = self.w
        if op == "layer":
            lay, new = self.layer(s["i"])
            out += new
            cfg = self.prog["cfgs"][s["i"]]
            args, H = call_args(lay, cfg, s["call"])
            (lay.train if s["call"]["hist"] == "train" else lay.eval)()
            ng = s["call"]["nograd"]
            if s["grad"] and not ng:
                args = (args[0].detach().clone().requires_grad_(True), *args[1:])
            self.on_args("call", *args, H)

            def go():
                with torch.set_grad_enabled(not ng):
                    y, Ho = forward(lay, args, H)
                    g = []
                    if s["grad"] and not ng:
                        g = list(torch.autograd.grad((y * y).sum() + y.sum(), [args[0], *lay.parameters()]))
                    return y, Ho, g
            self.info[k] = dict(lay=lay, cfg=cfg, args=args, H=H)
            y, Ho, g = self.sut("forward", go)
            out += [("features", y), ("poses", Ho)] + [(f"gradient {i}", t) for i, t in enumerate(g)]
            if s["step"] and g:
                with torch.no_grad():
                    for p, q in zip(lay.parameters(), g[1:]):
                        p.sub_(0.01 * q / (1 + q.norm()))
        elif op == "fn":
            f = lookup(w, s["name"])
            if f is None:
                return []
            a = []
            for t in FN[s["name"]](s["seed"], s["n"], s["how"]):
                a.append(t[1] if isinstance(t, tuple) else t.to(DT[s["dtype"]]))
            a = reshaped(s["name"], a, s.get("shape"), s["n"])
            self.on_args("fn " + s["name"], *[t for t in a if isinstance(t, torch.Tensor)])
            kw = dict(mode=s["mode"]) if s["name"].endswith("grid_sample") else {}
            r = self.sut("function " + s["name"], lambda: f(*a, **kw))
            out.append((s["name"], r))
        elif op == "gen":
            f = lookup(w, s["name"])
            if f is None:
                return []
            out.append((s["name"], self.sut("generator " + s["name"], lambda: f(*GEN[s["name"]](s["n"])))))
        elif op == "grid":
            out.append(("grid", self.sut("grid", lambda: w.so3.uniform_grid(
                s["n"], s["param"], steps=s["steps"], show_pbar=False, cache_grid=s["cache"]))))
        elif op == "side":
            from .props.c02 import simple_layer
            D = s["D"]
            size = (4,) * D
            x = tensor(s["seed"], (2, 2, 3, *size), torch.float32)
            H = make_poses(dict(seed=s["seed"], n=3, how="rand"), "SE2" if D == 2 else "SE3", torch.float32)
            m = self.sut("build side", lambda: simple_layer(w.gnn, dict(s, op=s["kind"]), D, 2, size).train(s["train"]))
            self.on_args("side " + s["kind"], x, H)
            r = self.sut("side", lambda: m(x, H))
            out += [(s["kind"], t) for t in (r if isinstance(r, tuple) else (r,))]
        elif op == "so3kernel":
            cls = getattr(w.kernels, "GSubgroupKernelSO3", None)
            if cls is None:
                return []
            m = self.sut("build kernel", lambda: cls(2, 2, s["gk"], groups=s["groups"], sampling_mode=s["mode"]))
            A = _mats(s["seed"], s["n"]).float()
            B = _mats(s["seed"] + 1, s["m"]).float()
            self.on_args("kernel", A, B)
            out += [("kernel " + n, t.detach()) for n, t in m.named_parameters()]
            out.append(("kernel weight", self.sut("kernel", lambda: m(A, B))))
        elif op == "repulse":
            if s["space"] == "s2grid":
                out.append(("s2 grid", self.sut("grid s2", lambda: w.s2.uniform_grid_s2(
                    s["n"], s["param"], steps=s["steps"], show_pbar=False))))
            else:
                if s["space"] == "so3":
                    g = tensor(s["seed"], (s["n"], 3), torch.float32)
                    kw = dict(metric_fn=w.so3.geodesic_distance, transform_fn=w.so3.euler_to_quat,
                              dist_normalization_constant=math.pi / 2, step_size=1.0)
                else:
                    g = tensor(s["seed"], (s["n"], 2), torch.float32)
                    kw = dict(metric_fn=w.s2.geodesic_distance_s2, transform_fn=w.s2.spherical_to_euclid,
                              dist_normalization_constant=math.pi, step_size=0.1)
                if not s["in_place"]:
                    self.on_args("repulse", g)
                out.append(("repulsed", self.sut("repulse", lambda: w.repulsion.repulse(
                    g, steps=s["steps"], show_pbar=False, in_place=s["in_place"], **kw))))
        elif op == "const":
            f = lookup(w, s["name"])
            if f is not None:
                out.append((s["name"], self.sut("constant", f)))
        elif op == "util":
            f = getattr(w.gF, s["name"], None)
            if f is not None:
                out.append((s["name"], self.sut("util", lambda: f(s["n"]))))
        return [(a, t) for a, t in out if isinstance(t, torch.Tensor)]


def run_program(ctx, world, prog, **kw):
    r = Runner(ctx, world, prog, **kw)
    outs = []
    for k in range(len(prog["steps"])):
        outs.append([(a, t.detach().clone()) for a, t in r.step(k)])
    return outs


def compare_outputs(kind, prog, A, B, what, exact=True):
    for k, (a, b) in enumerate(zip(A, B)):
        s = prog["steps"][k]
        lab = f"step {k} ({s['op']} {s.get('name', s.get('kind', ''))})"
        if len(a) != len(b):
            raise Violation(kind, f"{what}: {lab} returned another number of tensors")
        for (la, ta), (lb, tb) in zip(a, b):
            if exact and same(ta, tb):
                continue
            if ta.dtype != tb.dtype:
                raise Violation(kind, f"{what}: {lab} {la} has another type")
            f64 = ta.dtype == torch.float64
            expect_close(kind, f"{what}: {lab}: {la}", ta, tb, 1e-9 if f64 else 1e-5)
