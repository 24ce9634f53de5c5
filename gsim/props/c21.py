"""C21: custom groups get the group convolution their operations define."""
from __future__ import annotations

import math

import torch
import torch.nn.functional as F

from .. import poses
from ..common import *  # noqa: F401,F403
from ..seams import SimRuntimeError, is_sim
from ..world import World
from . import c01, c19

ID = "C21"
QUICK = 3400
THOROUGH = 25000
RULE = ("A run plays a user who plugs a group of their own (given by the documented operations, for instance rotations with scalings, "
        "triangular matrices, all of GL(2), turns about one axis) into the base kernels and layers, with kernel shapes, strides, paddings "
        "and dilations per axis, and drives one or two layers through calls, parameter updates, checkpoints, restarts in another simulated "
        "process and operations that raise. Features are compared with a model computed from the elements' matrices in double precision; "
        "the operations check that they are called as documented, and afterwards that nothing they returned was changed. Non-trivial: an "
        "element other than the identity was compared.")
STATES = "hash of (group, kind, sampling, shapes, padding, events)"
LISTS = ("calls",)
STUBS = "the group operations are the simulated user's; os.urandom, terminal. The oracle is the simulator's own model of the layer"

GROUPS = {"rot2": 2, "sim2": 2, "scale2": 2, "tri2": 2, "gl2": 2, "turn3": 3, "scale3": 3, "gl3": 3, "so3": 3}
KINDS = ["lift", "sep", "full", "sub"]


def gen(rng, tier):
    group = rng.pick(list(GROUPS))
    D = GROUPS[group]
    kind = "sub" if group == "so3" else rng.pick(KINDS)
    groups = rng.wpick([(1, 5), (2, 2), (3, 1)])
    ci, co = groups * rng.pick([1, 1, 2]), groups * rng.pick([1, 2])
    n = rng.pick([1, 2, 3, 4, 5]) if group != "so3" else rng.pick([2, 3, 4, 6, 8])
    tup = rng.chance(0.6)

    def per_axis(vals):
        v = [rng.pick(vals) for _ in range(D)]
        return v if tup else [v[0]] * D
    k = [1] * D if kind == "sub" else per_axis([1, 2, 3, 3, 4] if D == 2 else [1, 2, 3])
    st = per_axis([1, 1, 1, 2])
    di = per_axis([1, 1, 2])
    pad = rng.wpick([("int", 3), ("tuple", 3), ("same", 1), ("valid", 1)])
    if pad == "same":
        st = [1] * D
    pv = [rng.pick([0, 1, 2]) for _ in range(D)]
    padding = pv[0] if pad == "int" else (pv if pad == "tuple" else pad)
    eff = [d * (q - 1) + 1 for d, q in zip(di, k)]
    sides = [max(e, 3) + rng.pick([0, 1, 2]) for e in eff]
    cfg = dict(group=group, kind=kind, cin=ci, cout=co, groups=groups, n=n, k=k, stride=st, dilation=di, padding=padding, sides=sides,
               pmode=rng.wpick([("zeros", 4), ("circular", 1), ("replicate", 1), ("reflect", 1)]), bias=rng.chance(0.4),
               dtype=rng.pick(["f32", "f64", "f64"]), scalar=not tup and rng.chance(0.7), mask=rng.chance(0.4), det=rng.chance(0.75),
               sample=rng.pick(["soft", "soft", "rbf", "nearest"]), width=rng.pick([0.3, 0.5]), smode=rng.pick(["bilinear", "bilinear", "nearest"]),
               spad=rng.pick(["border", "zeros", "reflection"]), grid=rng.seed63(), wide=rng.chance(0.5), default=rng.chance(0.5))
    calls = []
    for _ in range(rng.pick([1, 2, 3, 4])):
        calls.append(dict(xseed=rng.seed63(), batch=rng.pick([1, 2, 3]), hin=rng.seed63(), nin=rng.pick([1, 2, 3, 5]), hout=rng.seed63(),
                          nout=rng.pick([1, 2, 3, 4]), own=rng.chance(0.2), lay=rng.pick(["plain", "plain", "strided", "perm", "offset"]),
                          event=rng.wpick([(None, 6), ("inplace", 1), ("load", 1), ("regrid", 1), ("restart", 1)]), eseed=rng.seed63(),
                          train=rng.chance(0.5), nograd=rng.chance(0.3), raises=rng.randrange(1, 8) if rng.chance(0.15) else None,
                          fault=[rng.pick(["alloc", "oom", "interrupt"]), rng.randrange(1, 80)] if rng.chance(0.15) else None))
    return dict(cfg=cfg, calls=calls, twice=rng.chance(0.3))


# ------------------------------------------------------------- the user's group


def mats(group, H):
    """The matrix of each element acting on space, in double precision."""
    H = H.detach().double()
    z, o = torch.zeros_like(H[..., 0].reshape(H.shape[0], -1)[:, 0]), None
    o = torch.ones_like(z)
    if group in ("rot2", "sim2"):
        a = H[:, 0]
        s = H[:, 1].exp() if group == "sim2" else o
        return torch.stack([s * a.cos(), -s * a.sin(), s * a.sin(), s * a.cos()], -1).reshape(-1, 2, 2)
    if group in ("scale2", "scale3"):
        D = GROUPS[group]
        return H[:, 0].exp()[:, None, None] * torch.eye(D, dtype=torch.float64)
    if group == "turn3":
        a = H[:, 0]
        return torch.stack([a.cos(), -a.sin(), z, a.sin(), a.cos(), z, z, z, o], -1).reshape(-1, 3, 3)
    return H.clone()


def elements(group, n, seed, dt):
    r = Rng("elements", seed)
    out = []
    for _ in range(n):
        a, s = r.random() * 2 * math.pi, r.random() - 0.5
        if r.chance(0.15):
            a, s = r.pick([0.0, math.pi / 2, math.pi]), 0.0
        if group in ("rot2", "turn3"):
            out.append([a])
        elif group == "sim2":
            out.append([a, s])
        elif group in ("scale2", "scale3"):
            out.append([s])
        elif group == "tri2":
            out.append([[math.exp(s), r.random() - 0.5], [0.0, math.exp(r.random() - 0.5)]])
        elif group == "gl2":
            c, q = math.cos(a), math.sin(a)
            m = torch.tensor([[c, -q], [q, c]], dtype=torch.float64) @ torch.tensor([[math.exp(s), r.random() - 0.5], [0.0, r.pick([1, -1]) * math.exp(r.random() - 0.5)]], dtype=torch.float64)
            out.append(m.tolist())
        elif group == "gl3":
            m = poses.rand_mats("E3", 1, r)[0] @ torch.diag(torch.tensor([math.exp(0.6 * (r.random() - 0.5)) for _ in range(3)], dtype=torch.float64))
            out.append(m.tolist())
        else:
            out.append(poses.rand_mats("SE3", 1, r)[0].tolist())
    return torch.tensor(out, dtype=torch.float64).to(dt)


def features_of(group, H):
    """Points in a vector space, one per element, for the user's sampling."""
    if group in ("rot2", "turn3"):
        return torch.cat([torch.cos(H), torch.sin(H)], -1)
    if group == "sim2":
        return torch.cat([torch.cos(H[..., :1]), torch.sin(H[..., :1]), H[..., 1:]], -1)
    if group in ("scale2", "scale3"):
        return 2 * H
    return H.flatten(-2)


def weights_of(cfg, h, g):
    """How much of each stored weight every relative element gets (double)."""
    P, Q = features_of(cfg["group"], h), features_of(cfg["group"], g)
    d = (P[:, None] - Q[None]).norm(dim=-1)
    if cfg["sample"] == "soft":
        return torch.softmax(-d * d / 0.5, -1), 1.0
    if cfg["sample"] == "nearest":
        return F.one_hot(d.argmin(-1), len(g)).to(d.dtype), 1.0
    f = lambda t: torch.exp(-(t ** 2) * (math.log(2) / cfg["width"] ** 2))
    m = f((Q[:, None] - Q[None]).norm(dim=-1))
    return f(d) @ torch.linalg.inv(m), float(torch.linalg.cond(m))


class UserError(SimRuntimeError):
    pass


class User:
    """The documented operations; every call is checked and remembered."""

    def __init__(self, cfg, world):
        self.cfg, self.w = cfg, world
        self.D = GROUPS[cfg["group"]]
        self.dims = tuple(elements(cfg["group"], 1, 1, torch.float32).shape[1:])
        self.calls, self.raise_at = 0, None
        self.kept = []

    def seen(self, name, ok, *ts):
        self.calls += 1
        if self.raise_at is not None and self.calls == self.raise_at:
            self.raise_at = None
            raise UserError("simulated: operation of the user raised")
        if not ok:
            raise Violation("protocol", f"{name} was called with shapes {[tuple(t.shape) for t in ts]}")

    def out(self, name, t):
        self.kept.append((name, t, t.detach().clone()))
        return t

    def check_kept(self, what):
        for name, t, c in self.kept:
            if not same(t.detach(), c):
                raise Violation("callback-result", f"{what}: what {name} had returned was modified")
        self.kept = []

    def is_H(self, H):
        return H.ndim == 1 + len(self.dims) and tuple(H.shape[1:]) == self.dims

    # the operations
    def det(self, H):
        self.seen("det_H", self.is_H(H), H)
        g = self.cfg["group"]
        if g in ("rot2", "turn3"):
            t = torch.ones_like(H)
        elif g == "sim2":
            t = torch.exp(2 * H[:, 1:])
        elif g in ("scale2", "scale3"):
            t = torch.exp(self.D * H)
        else:
            t = torch.linalg.det(H)[:, None]
        return self.out("det_H", t)

    def inverse(self, H):
        self.seen("inverse_H", self.is_H(H), H)
        return self.out("inverse_H", -H if len(self.dims) == 1 else torch.linalg.inv(H))

    def left_H(self, A, B):
        self.seen("left_apply_to_H", self.is_H(A) and self.is_H(B), A, B)
        if len(self.dims) == 1:
            t = A[:, None] + B[None]
            if self.cfg["group"] in ("rot2", "turn3"):
                t = t % (2 * math.pi)
        else:
            t = A[:, None] @ B[None]
        return self.out("left_apply_to_H", t.contiguous())

    def left_Rn(self, H, grid):
        self.seen("left_apply_to_Rn", self.is_H(H) and grid.shape[-1] == self.D, H, grid)
        M = self.mat(H)
        t = (M.reshape(-1, *[1] * (grid.ndim - 1), self.D, self.D) @ grid[..., None])[..., 0]
        return self.out("left_apply_to_Rn", t)

    def mat(self, H):
        return mats(self.cfg["group"], H).to(H.dtype)

    def sample_H(self, grid, signal, signal_grid, tag=None, width=None):
        ok = self.is_H(grid) and self.is_H(signal_grid) and signal.ndim == 2 and len(signal) == len(signal_grid)
        self.seen("sample_H", ok, grid, signal, signal_grid)
        if tag != "user":
            raise Violation("protocol", f"sample_H was not given its keyword arguments (tag={tag!r})")
        c = self.cfg
        if c["sample"] == "soft":
            return self.out("sample_H", weights_of(c, grid, signal_grid)[0].to(signal.dtype) @ signal)
        P, Q = features_of(c["group"], grid), features_of(c["group"], signal_grid)
        dist = lambda a, b: (a - b).norm(dim=-1)
        I = self.w.interpolation
        if c["sample"] == "nearest":
            return self.out("sample_H", I.interpolate_NN(P[None], Q[None], signal[None], dist_fn=dist)[0])
        return self.out("sample_H", I.interpolate_RBF(P[None], Q[None], signal[None], dist_fn=dist, width=width)[0])

    def sample_Rn(self, w, grid, **kw):
        ok = w.ndim == self.D + 2 and grid.ndim == self.D + 2 and len(w) == len(grid) and grid.shape[-1] == self.D
        self.seen("sample_Rn", ok, w, grid)
        return self.out("sample_Rn", self.w.gF.grid_sample(w, grid, align_corners=False, **kw))


def space(cfg):
    """The user's spatial grid: x is the last axis, as grid_sample has it."""
    ax = [torch.linspace(-1, 1, k, dtype=torch.float64) if k > 1 else torch.zeros(1, dtype=torch.float64) for k in cfg["k"]]
    m = torch.meshgrid(*ax, indexing="ij")
    return torch.stack(tuple(reversed(m)), -1)


def mask_of(cfg):
    if not cfg["mask"] or cfg["kind"] == "sub":
        return None
    X = space(cfg)
    return (X.norm(dim=-1) <= max(1.2, float(X.norm(dim=-1).min()) + 1e-6)).float()


def ref_grid(cfg, seed):
    """A reference grid with no two elements close (the user's responsibility)."""
    for s in range(200):
        H = elements(cfg["group"], cfg["n"], seed + s, torch.float64)
        if cfg["n"] == 1:
            return H
        f = features_of(cfg["group"], H) if cfg["group"] != "so3" else H.flatten(1)
        d = (f[:, None] - f[None]).norm(dim=-1) + 9 * torch.eye(len(H), dtype=torch.float64)
        if float(d.min()) > (0.35 if cfg["group"] != "so3" else 0.9):
            return H
    return None


def make(cfg, w, user):
    """Builds the layer as the tutorial does."""
    D = GROUPS[cfg["group"]]
    g0 = ref_grid(cfg, cfg["grid"])
    if g0 is None:
        raise Skip("no spread grid")
    g0 = g0.float()
    Ks, N = w.kernels, w.gnn
    k = tuple(cfg["k"])
    tup = lambda v: v if isinstance(v, (int, str)) else (v[0] if cfg["scalar"] else tuple(v))
    srn = dict(mode=cfg["smode"], padding_mode=cfg["spad"])
    sh = dict(tag="user", width=cfg["width"])
    X, mk = space(cfg).float(), mask_of(cfg)
    det = user.det if cfg["det"] else None
    if cfg["kind"] == "lift":
        kern = Ks.GLiftingKernel(cfg["cin"], cfg["cout"], k, (cfg["n"],), g0, X, groups=cfg["groups"], mask=mk, det_H=det, inverse_H=user.inverse,
                                 left_apply_to_Rn=user.left_Rn, sample_Rn=user.sample_Rn, sample_Rn_kwargs=srn)
        cls = getattr(N, f"GLiftingConv{D}d")
    elif cfg["group"] == "so3":
        kw = dict(groups=cfg["groups"], sampling_mode="nearest" if cfg["sample"] == "nearest" else "rbf")
        if not cfg["default"]:
            kw["grid_H"] = g0
        if cfg["wide"] and cfg["sample"] != "nearest":
            kw["sampling_width"] = cfg["width"]
        kern = Ks.GSubgroupKernelSO3(cfg["cin"], cfg["cout"], cfg["n"], **kw)
        cls = N.GConv3d
    elif cfg["kind"] == "sub":
        kern = Ks.GSubgroupKernel(cfg["cin"], cfg["cout"], k, (cfg["n"],), g0, groups=cfg["groups"], det_H=det, inverse_H=user.inverse,
                                  left_apply_to_H=user.left_H, sample_H=user.sample_H, sample_H_kwargs=sh)
        cls = getattr(N, f"GConv{D}d")
    else:
        kcls = Ks.GSeparableKernel if cfg["kind"] == "sep" else Ks.GKernel
        kern = kcls(cfg["cin"], cfg["cout"], k, (cfg["n"],), g0, X, groups=cfg["groups"], mask=mk, det_H=det, inverse_H=user.inverse,
                    left_apply_to_H=user.left_H, left_apply_to_Rn=user.left_Rn, sample_H=user.sample_H, sample_Rn=user.sample_Rn,
                    sample_H_kwargs=sh, sample_Rn_kwargs=srn)
        cls = getattr(N, ("GSeparableConv" if cfg["kind"] == "sep" else "GConv") + f"{D}d")
    pad = tuple(cfg["padding"]) if isinstance(cfg["padding"], list) else cfg["padding"]
    lay = cls(cfg["cin"], cfg["cout"], tup(cfg["k"]), cfg["n"], kern, cfg["groups"], tup(cfg["stride"]), pad, tup(cfg["dilation"]),
              cfg["pmode"], cfg["bias"])
    return lay.double() if cfg["dtype"] == "f64" else lay


# ----------------------------------------------------------------------- model


def conv(cfg, x, K, groups):
    D = GROUPS[cfg["group"]]
    p = cfg["padding"]
    pads = []
    for i in range(D):
        tot = cfg["dilation"][i] * (cfg["k"][i] - 1)
        pads.append((p, p) if isinstance(p, int) else (tot // 2, tot - tot // 2) if p == "same" else (0, 0) if p == "valid" else (p[i], p[i]))
    flat = [q for pr in reversed(pads) for q in pr]
    if any(flat):
        x = F.pad(x, flat, mode={"zeros": "constant"}.get(cfg["pmode"], cfg["pmode"]))
    f = F.conv2d if D == 2 else F.conv3d
    return f(x, K, None, tuple(cfg["stride"]), 0, tuple(cfg["dilation"]), groups)


def model(cfg, state, x, Hin, H, swap):
    D = GROUPS[cfg["group"]]
    st = {k: v.detach().double() for k, v in state.items() if v is not None and v.is_floating_point()}
    x = x.detach().double()
    gs = mats(cfg["group"], H)
    ci, co, ng = cfg["cin"] // cfg["groups"], cfg["cout"], cfg["groups"]
    k = tuple(cfg["k"])
    X = space(cfg)
    mk = mask_of(cfg)
    cond = 1.0
    outs = []

    def spatial(W, g):
        P = (torch.linalg.inv(g) @ X[..., None])[..., 0]
        out = F.grid_sample(W[None], P[None], mode=cfg["smode"], padding_mode=cfg["spad"], align_corners=False)[0]
        if mk is not None:
            out = out * mk.double()
        return out / torch.linalg.det(g).abs() if cfg["det"] else out
    if cfg["kind"] != "lift":
        V = st["kernel.weight_H"] if cfg["kind"] == "sep" else st["kernel.weight"]
        L, tail = V.shape[0], V.shape[3:]
        V = V.reshape(L, ci, co, *tail).transpose(1, 2) if swap else V
        n = len(Hin)
    for i, g in enumerate(gs):
        if cfg["kind"] == "lift":
            K = spatial(st["kernel.weight"].reshape(co * ci, *k), g).reshape(co, ci, *k)
            outs.append(conv(cfg, x, K, ng))
            continue
        if cfg["group"] == "so3":
            G = st["kernel.grid_H"]
            G = poses.quat_mat(G) if G.ndim == 2 else G
            G, off = c19.nearest_rotation(G)
            b, c = c19.basis(dict(fam="SE3", gmode="nearest" if cfg["sample"] == "nearest" else "rbf",
                                  width=cfg["width"] if cfg["wide"] and cfg["sample"] != "nearest" else 0.0), G, torch.linalg.inv(g) @ mats("so3", Hin), None)
            c += 100 * off * c
            if float(b.abs().max()) < 0.1:
                # far from all reference elements: the library's regularised distances
                # weigh more the steeper the bell is
                c += 500
        else:
            b, c = weights_of(cfg, relative(cfg, H[i:i + 1], Hin), st["kernel.grid_H"])
        cond = max(cond, c)
        Kh = torch.einsum("hl,loi...->oih...", b, V)
        if cfg["kind"] == "sep":
            # the subgroup part is pointwise: padding and strides are spatial
            z = torch.einsum("ngihx,goih->ngox", x.reshape(x.shape[0], ng, ci, n, -1), Kh.reshape(ng, co // ng, ci, n))
            z = z.reshape(x.shape[0], co, *x.shape[3:])
            S = spatial(st["kernel.weight"].reshape(co, *k), g).reshape(co, 1, *k)
            outs.append(conv(cfg, z, S, co))
            continue
        if cfg["kind"] == "sub":
            K = Kh.reshape(co, ci * n, *[1] * D)
        else:
            K = spatial(Kh.reshape(co * ci * n, *k), g).reshape(co, ci * n, *k)
        outs.append(conv(cfg, x.flatten(1, 2), K, ng))
    y = torch.stack(outs, 2)
    if "bias" in st:
        y = y + st["bias"].reshape(1, co, 1, *[1] * D)
    return y, cond


def relative(cfg, g, h):
    g, h = g.detach().double(), h.detach().double()
    if g.ndim == 2:
        t = h - g
        return t % (2 * math.pi) if cfg["group"] in ("rot2", "turn3") else t
    return torch.linalg.inv(g) @ h


def ties(cfg, state, Hin, H):
    """Whether some nearest choice is too close to call."""
    D = GROUPS[cfg["group"]]
    if cfg["smode"] == "nearest" and cfg["kind"] != "sub":
        X = space(cfg).reshape(-1, D)
        sz = torch.tensor(list(reversed(cfg["k"])), dtype=torch.float64)
        for g in mats(cfg["group"], H):
            pix = ((X @ torch.linalg.inv(g).T + 1) * sz - 1) / 2
            if bool(((pix - pix.floor() - 0.5).abs() < 1e-4).any()):
                return True
    if cfg["kind"] != "lift" and cfg["sample"] == "nearest" and cfg["n"] > 1:
        G = state["kernel.grid_H"].detach().double()
        for i in range(len(H)):
            if cfg["group"] == "so3":
                G3 = poses.quat_mat(G) if G.ndim == 2 else G
                d = poses.geo("SE3", torch.linalg.inv(mats("so3", H[i:i + 1])[0]) @ mats("so3", Hin), G3)
            else:
                d = (features_of(cfg["group"], relative(cfg, H[i:i + 1], Hin))[:, None] - features_of(cfg["group"], G)[None]).norm(dim=-1)
            s = d.sort(-1)[0]
            if bool(((s[:, 1] - s[:, 0]) < 2e-3).any()):
                return True
    return False


def run(plan, ctx):
    cfg = plan["cfg"]
    D = GROUPS[cfg["group"]]
    w = World()
    user = User(cfg, w)
    lay = sut(ctx, "build " + cfg["kind"], lambda: make(cfg, w, user), w)
    if plan["twice"]:
        # a second layer of the same kind, used in between
        c2 = dict(cfg, grid=cfg["grid"] ^ 5, width=0.4)
        u2 = User(c2, w)
        other = sut(ctx, "build other", lambda: make(c2, w, u2), w)
    dt = DT[cfg["dtype"]]
    low = cfg["dtype"] == "f32"
    swaps = [False] if cfg["kind"] == "lift" else [False, True]
    ctx.h.update(b"c21")
    for i, c in enumerate(plan["calls"]):
        what = f"call {i} of {cfg['kind']} over {cfg['group']}, kernel {cfg['k']}"
        e = c["event"]
        if e in ("inplace", "load"):
            c01.update(lay, e, c["eseed"])
        elif e == "regrid":
            g = ref_grid(cfg, c["eseed"])
            if g is not None and tuple(g.shape) == tuple(lay.kernel.grid_H.shape):
                sd = {k: v.detach().clone() for k, v in lay.state_dict().items()}
                sd["kernel.grid_H"] = g.to(dt)
                sut(ctx, "load", lambda: lay.load_state_dict(sd), w)
        elif e == "restart":
            sd = {k: v.detach().clone() for k, v in lay.state_dict().items()}
            w = World()
            user = User(cfg, w)
            lay = sut(ctx, "build " + cfg["kind"], lambda: make(cfg, w, user), w)
            sut(ctx, "load", lambda: lay.load_state_dict(sd), w)
            ctx.faults["crash"] += 1
        if e:
            ctx.probes["event_" + e] += 1
        (lay.train if c["train"] else lay.eval)()
        H = elements(cfg["group"], c["nout"], c["hout"], dt)
        Hin = None
        if cfg["kind"] == "lift":
            shape = (c["batch"], cfg["cin"], *cfg["sides"])
        else:
            G = lay.kernel.grid_H.detach().clone()
            Hin = G if c["own"] and (cfg["group"] != "so3" or G.ndim == 3) else elements(cfg["group"], c["nin"], c["hin"], dt)
            shape = (c["batch"], cfg["cin"], len(Hin), *cfg["sides"])
        x = layout(tensor(c["xseed"], shape, dt), c["lay"])
        args = (x, H) if Hin is None else (x, Hin, H)
        if plan["twice"]:
            a2 = tuple(a.clone() for a in args)
            sut(ctx, "forward other", lambda: other(*a2), w)
        if c["raises"] or c["fault"]:
            user.calls, user.raise_at = 0, c["raises"]
            try:
                sut(ctx, "forward", lambda: lay(*args), w, fault=tuple(c["fault"]) if c["fault"] else None)
            except BaseException as ex:
                if not is_sim(ex):
                    raise
                ctx.faults["callback" if isinstance(ex, UserError) else "call"] += 1
            user.raise_at = None
            user.kept = []
        with torch.set_grad_enabled(not c["nograd"]):
            out = sut(ctx, "forward", lambda: lay(*args), w)
        y, Ho = out
        user.check_kept(what)
        if not same(Ho.detach(), H):
            raise Violation("poses", f"{what}: returned other output elements than were asked for")
        st = {k: v for k, v in lay.state_dict().items()}
        if ties(cfg, st, Hin, H):
            ctx.probes["tie"] += 1
            continue
        best, keep = None, []
        for s in swaps:
            want, cond = model(cfg, st, x, Hin, H, s)
            if want.shape != y.shape:
                raise Violation("shape", f"{what}: features of shape {tuple(y.shape)}, the model's are {tuple(want.shape)}")
            if cond > 1e4:
                raise Skip("ill-conditioned interpolation")
            eps = 1e-3 + 2e-5 * cond if low else 1e-6 + 1e-7 * cond
            if cfg["group"] == "so3":
                eps = max(eps, 1e-3 + 2e-5 * cond)      # its distances are regularised by the library
            d = reldiff(y, want)
            ctx.metrics["rel" + cfg["dtype"]] = max(ctx.metrics.get("rel" + cfg["dtype"], 0.0), d / eps if d < eps else 0.0)
            best = d if best is None else min(d, best)
            if d <= eps:
                keep.append(s)
        if not keep:
            raise Violation("features", f"{what}: differs from the group convolution these operations define by {best:.3g} (relative; allowed {eps:.1g})")
        swaps = keep
        ctx.nontrivial |= (mats(cfg["group"], H) - torch.eye(D, dtype=torch.float64)).abs().max().item() > 1e-2
        ctx.ev(i, sig(y))
        ctx.state(f"{cfg['group']}{cfg['kind']}{cfg['sample']}{cfg['smode']}{cfg['pmode']}{cfg['k']}{cfg['padding']}{e}")
