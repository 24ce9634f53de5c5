"""C15: random poses are fresh and cover the group evenly."""
from __future__ import annotations

import math

import torch

from .. import poses
from ..common import *  # noqa: F401,F403
from ..seams import SimInterrupt  # noqa: F401
from ..world import World

ID = "C15"
QUICK = 48
THOROUGH = 900
RULE = ("A run is a long history (thousands) of draws by one or two layers under changing modes, batch sizes, poses, failures and other work, or of "
        "elements from a random element generator, from one seed; the drawn elements are tested for the uniform distribution on the group, for "
        "independence of one another, and for repeats, with bounds whose false alarm probability is below 1e-12 each "
        "(Dvoretzky-Kiefer-Wolfowitz and Hoeffding). Non-trivial: at least 500 elements were tested.")
STATES = "hash of (source, settings)"
LISTS = ()

GENS = ["so2.random_grid", "o2.random_grid", "so3.random_quat", "so3.random_matrix", "so3.random_euler", "o3.random_grid", "s2.random_s2"]
COMBOS = [(f, k) for k in ("lift", "sep", "full") for f in poses.FAM]

LOGP = math.log(2e12)


def gen(rng, tier):
    i = rng.index
    if i % 3 == 2:
        name = GENS[(i // 3) % len(GENS)]
        return dict(src="gen", name=name, size=(sz := rng.pick([1, 2, 3, 7, 16, 100, 100, 5000, 5000, 30000])),
                    total=(150000 if sz >= 5000 else 40000 if sz == 100 else rng.pick([4000, 12000])) * (1 if tier == "quick" else 3),
                    between=rng.pick([0, 1, 3]), f64=rng.chance(0.1), tuple=rng.chance(0.3), vseed=rng.seed63())
    fam, kind = COMBOS[(i - i // 3) % len(COMBOS)]
    cfg = gen_cfg(rng, custom=False, dtypes=("f32", "f32", "f64"), fams=(fam,), kinds=(kind,))
    cfg.update(cin=1, cout=1, groups=1, k=1, padding=0, stride=1, dilation=1, size=1, pmode="zeros", permute=True, mask=cfg["mask"])
    if cfg["fam"] in ("E2", "E3"):
        cfg["gk"] = [2, 2]
    else:
        cfg["gk"] = rng.pick([2, 3])
    slow = cfg["kind"] != "lift"
    n = 2600 if slow else 6000
    if cfg["fam"] == "E3" and slow:
        n = 2000
    if tier != "quick":
        n *= 3
    return dict(src="layer", cfg=cfg, n=n, two=rng.chance(0.4), modes=[rng.chance(0.5) for _ in range(rng.pick([1, 2, 3, 7]))],
                grads=[rng.chance(0.3) for _ in range(rng.pick([1, 2, 5]))], batches=[rng.pick([1, 2, 4]) for _ in range(rng.pick([1, 2, 3]))],
                hs=[rng.pick([None, 1, 2, 3]) for _ in range(rng.pick([1, 2, 3]))], fail=rng.pick([0, 0, 0.02]),
                other=rng.pick([None, None, "grid", "draw", "build"]), vseed=rng.seed63())


# ---------------------------------------------------------------- statistics


def ks(u):
    """Kolmogorov-Smirnov distance to the uniform distribution on [0, 1]."""
    u = u.double().sort()[0]
    n = u.numel()
    i = torch.arange(1, n + 1, dtype=torch.float64)
    return max((i / n - u).max().item(), (u - (i - 1) / n).max().item())


class Tests:
    def __init__(self, ctx, what):
        self.ctx, self.what, self.worst = ctx, what, 0.0

    def uniform(self, name, u, kind="distribution"):
        n = u.numel()
        if n < 300:
            return
        if not torch.isfinite(u).all():
            raise Violation("distribution", f"{self.what}: non-finite elements")
        d = ks(u)
        lim = math.sqrt(LOGP / (2 * n)) + 1e-4
        self.worst = max(self.worst, d / lim)
        self.ctx.ops["test"] += 1
        if d > lim:
            raise Violation(kind, f"{self.what}: {name} over {n} draws is not as for uniform, independent elements: distribution off by {d:.3f} (allowed {lim:.3f})")
        # a stretch of the range nothing ever falls in
        v = torch.cat([u.new_zeros(1).double(), u.double().clamp(0, 1).sort()[0], u.new_ones(1).double()])
        gap = (v[1:] - v[:-1]).max().item()
        lim = (math.log(n + 1) + LOGP) / n + 5e-4
        self.worst = max(self.worst, gap / lim)
        if gap > lim:
            raise Violation(kind, f"{self.what}: {name} leaves out a stretch of {gap:.4f} of its range over {n} draws (allowed {lim:.4f})")

    def coin(self, name, b, kind="components"):
        n = b.numel()
        if n < 100:
            return
        m = b.double().mean().item()
        lim = math.sqrt(LOGP / (2 * n))
        self.worst = max(self.worst, abs(m - 0.5) / lim)
        self.ctx.ops["test"] += 1
        if abs(m - 0.5) > lim:
            raise Violation(kind, f"{self.what}: {name} in {m:.3f} of {n} draws instead of half")


def cdf_angle(R):
    """Rotation angle of R in SO(3), through its distribution function."""
    t = ((R.diagonal(dim1=-2, dim2=-1).sum(-1) - 1) / 2).clamp(-1, 1).acos()
    return (t - t.sin()) / math.pi


def haar(T, name, R, g, kind="distribution"):
    """R: elements of SO(D), D from its shape."""
    D = R.shape[-1]
    if D == 2:
        a = torch.atan2(R[:, 1, 0], R[:, 0, 0]) / (2 * math.pi)
        for k in range(3):
            T.uniform(f"{name}: angle", (a + k * 0.29) % 1.0, kind)
        # finer structure: folds reveal missing or repeated angles
        for m in (2, 3, 4, 8):
            T.uniform(f"{name}: angle modulo 1/{m} turn", (a * m) % 1.0, kind)
        return
    E = torch.eye(3, dtype=R.dtype)
    for i in range(3):
        for j in range(3):
            T.uniform(f"{name}: matrix entry {i},{j}", (R[:, i, j] + 1) / 2, kind)
    for _ in range(4):
        u, v = torch.randn(3, generator=g, dtype=R.dtype), torch.randn(3, generator=g, dtype=R.dtype)
        u, v = u / u.norm(), v / v.norm()
        T.uniform(f"{name}: a projection", ((R @ v) @ u + 1) / 2, kind)
    T.uniform(f"{name}: rotation angle", cdf_angle(R), kind)
    for _ in range(3):
        q = torch.randn(4, generator=g, dtype=R.dtype)
        A = quat_mat(q / q.norm())
        T.uniform(f"{name}: rotation angle from a fixed rotation", cdf_angle(A @ R), kind)


def quat_mat(q):
    w, x, y, z = q.tolist()
    return torch.tensor([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                         [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                         [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]], dtype=torch.float64)


def test_elements(ctx, what, M, g, refl, subsets=()):
    """M: (n, D, D) orthogonal matrices in order of drawing."""
    T = Tests(ctx, what)
    D = M.shape[-1]
    n = M.shape[0]
    det = torch.linalg.det(M)
    Fl = torch.eye(D, dtype=M.dtype)
    if D == 2:
        Fl[1, 1] = -1
    else:
        Fl = -Fl

    def rot(X):
        d = torch.linalg.det(X)
        return torch.where((d < 0)[:, None, None], X @ Fl, X)
    if refl:
        T.coin("reflections", det < 0)
        for lag in (1, 2, 3):
            T.coin(f"a change of component {lag} draws later", det[lag:] * det[:-lag] < 0, "independence")
        haar(T, "rotations", M[det > 0], g)
        haar(T, "reflections", rot(M[det < 0]), g)
        R = rot(M)
        # component and rotation are independent
        for i in range(D):
            for j in range(D):
                T.coin(f"reflections with matrix entry {i},{j} of the rotation positive", det[R[:, i, j] > 0] < 0, "independence")
    elif (det < 0).any():
        raise Violation("components", f"{what}: a reflection was drawn")
    haar(T, "all", rot(M), g)
    for lag in (1, 2, 3, 7):
        A, B = M[:-lag], M[lag:]
        haar(T, f"elements relative to the {lag} before", rot(A.transpose(-1, -2) @ B), g, "independence")
        haar(T, f"elements relative (right) to the {lag} before", rot(B @ A.transpose(-1, -2)), g, "independence")
    for name, idx in subsets:
        if refl:
            T.coin(f"reflections in {name}", det[idx] < 0)
        haar(T, name, rot(M[idx]), g)
    # repeats
    key = (M.flatten(1) * (1 << 21)).round().to(torch.int64)
    uniq = torch.unique(key, dim=0).shape[0]
    # float32 angles have about 2^-23 resolution
    allowed = 12 + (n * n / 2) / (1 << 20) * 2 if D == 2 else 2
    if n - uniq > allowed:
        raise Violation("repeats", f"{what}: {n - uniq} of {n} elements repeat others")
    ctx.metrics["worst_fraction_of_bound"] = max(ctx.metrics.get("worst_fraction_of_bound", 0.0), round(T.worst, 4))
    return T


def run(plan, ctx):
    torch.manual_seed(plan["seed"] & 0x7FFFFFFF)
    g = torch.Generator().manual_seed(plan["vseed"] & 0x7FFFFFFFFFFF)
    w = World()
    if plan["src"] == "gen":
        return run_gen(plan, ctx, w, g)
    cfg = plan["cfg"]
    fam = cfg["fam"]
    dt = DT[cfg["dtype"]]
    D = poses.dim(fam)
    lays = [sut(ctx, "build", lambda: build(w, cfg), w) for _ in range(2 if plan["two"] else 1)]
    ctx.state(f"{fam}{cfg['kind']}{plan['two']}{plan['other']}{plan['modes']}{plan['batches']}{plan['hs']}")
    rng = Rng("c15", plan["vseed"])
    sets = {h: (own_grid(lays[0]) if h is None else make_poses(dict(seed=plan["vseed"] + h, n=h, how="rand"), fam, dt)) for h in set(plan["hs"])}
    xs = {}
    n = plan["n"]
    req, got, who, mode, bat, grad, fails = [], [], [], [], [], [], 0
    Hin = make_poses(dict(seed=plan["vseed"], n=2, how="rand"), fam, dt)

    def one(i):
        h = plan["hs"][i % len(plan["hs"])]
        b = plan["batches"][i % len(plan["batches"])]
        tr = plan["modes"][i % len(plan["modes"])]
        gr = plan["grads"][i % len(plan["grads"])]
        lay = lays[rng.randrange(len(lays))]
        if lay.training != tr:
            lay.train(tr)
        x = xs.get(b)
        if x is None:
            x = xs[b] = tensor(b, feat_shape(cfg, b, 2), dt)
        H = sets[h]
        arg = H if h is not None else None
        if cfg["kind"] == "lift":
            r = H
            args = (x,)
        else:
            args = (x, Hin)
            r = H if h is not None else default_out(lay, cfg, args)
        with torch.set_grad_enabled(gr):
            y, Ho = forward(lay, args, arg)
        return r, Ho.detach(), lays.index(lay), tr, b, gr

    def batch():
        nonlocal fails
        for i in range(n):
            r, Ho, k, tr, b, gr = one(i)
            if Ho.shape != r.shape:
                raise Violation("poses", f"draw {i}: poses of shape {tuple(Ho.shape)} for {tuple(r.shape)} requested")
            req.append(r[0])
            got.append(Ho[0])
            who.append(k)
            mode.append(tr)
            bat.append(b)
            grad.append(gr)
            if plan["other"] and i % 50 == 0:
                if plan["other"] == "grid":
                    w.so3.uniform_grid(24, "matrix")
                    w.so2.uniform_grid(8)
                elif plan["other"] == "draw":
                    torch.rand(3)
                    w.so3.random_quat(2)
                elif i % 500 == 0:
                    build(w, cfg)
    if plan["fail"]:
        # failing calls in between
        done = 0
        while done < n:
            m = min(n - done, 100)
            keep, n = n, m
            sut(ctx, "draws", batch, w)
            n = keep
            done += m
            try:
                sut(ctx, "failing", lambda: one(done), w, fault=("oom", rng.randrange(1, 60)))
            except BaseException as e:
                if not is_sim(e):
                    raise
    else:
        try:
            # thousands of calls: without the operation seam
            with w.activate():
                batch()
        except (Violation, KeyboardInterrupt):
            raise
        except Exception as e:
            raise Violation("exception", f"a call raised {brief(e)}")
        ctx.ops["draws"] += n
    A = poses.to_mat(fam, torch.stack(req))
    B = poses.to_mat(fam, torch.stack(got))
    M = B @ torch.linalg.inv(A)
    if not torch.isfinite(M).all():
        raise Violation("poses", "non-finite poses")
    what = f"{cfg['kind']}{fam}"
    refl = fam in ("E2", "E3")
    sub = []
    who, mode, bat, grad = (torch.tensor(v) for v in (who, mode, bat, grad))
    if plan["two"]:
        sub += [("the first layer's draws", (who == 0).nonzero().flatten()), ("the second layer's draws", (who == 1).nonzero().flatten())]
    for name, v in (("mode", mode), ("batch size", bat), ("gradient mode", grad)):
        vals = v.unique().tolist()
        if len(vals) > 1:
            sub += [(f"draws with {name} {k}", (v == k).nonzero().flatten()) for k in vals]
    sub.append(("the first draws", torch.arange(min(1000, len(M)))))
    test_elements(ctx, what, M, g, refl, sub)
    if plan["two"]:
        a, b = M[who == 0], M[who == 1]
        m = min(len(a), len(b))
        T = Tests(ctx, what)
        X = a[:m].transpose(-1, -2) @ b[:m]
        Y = X[torch.linalg.det(X) > 0]
        haar(T, "the two layers' draws relative to each other", Y, g, "independence")
        if refl:
            T.coin("layers on different components", torch.linalg.det(X) < 0, "independence")
    ctx.nontrivial = len(M) >= 500
    ctx.ev(what, sig(M))
    ctx.steps += len(M)


def run_gen(plan, ctx, w, g):
    name = plan["name"]
    mod, fn = name.split(".")
    f = getattr(getattr(w, mod), fn)
    ctx.state(f"{name}{plan['size']}{plan['tuple']}")
    size = plan["size"]
    k = max(1, min(plan["total"] // size, 3000 if name != "so2.random_grid" else 4000))
    arg = size
    if name == "s2.random_s2" or (plan["tuple"] and name not in ("so2.random_grid", "o2.random_grid")):
        arg = (size,)
    out = []
    prev = torch.get_default_dtype()

    def go():
        for i in range(k):
            out.append(f(arg))
            if plan["between"] and i % 7 == 0:
                torch.rand(plan["between"])
    try:
        if plan["f64"]:
            torch.set_default_dtype(torch.float64)
        with w.activate():
            go()
    except Exception as e:
        raise Violation("exception", f"{name} raised {brief(e)}")
    finally:
        torch.set_default_dtype(prev)
    X = torch.cat(out).double()
    if name == "s2.random_s2":
        # spherical: documented (r?, alpha, beta) or (beta, gamma): use the library-free reading of C10
        return sphere(ctx, name, X, g, w)
    if name == "so2.random_grid":
        M, refl = poses.to_mat("SE2", X), False
    elif name == "o2.random_grid":
        M, refl = poses.to_mat("E2", X), True
    elif name == "o3.random_grid":
        M, refl = poses.to_mat("E3", X), True
    elif name == "so3.random_matrix":
        M, refl = X, False
    elif name == "so3.random_quat":
        M, refl = quats(X), False
    else:
        M, refl = eulers(X), False
    sub = []
    if size > 1:
        first = torch.arange(0, len(M), size)
        sub = [("the first elements of the grids", first), ("the last elements of the grids", first + size - 1)]
    test_elements(ctx, name, M, g, refl, sub)
    ctx.nontrivial = len(M) >= 500
    ctx.ops["draws"] += len(M)
    ctx.steps += len(M)
    ctx.ev(name, sig(M))


def quats(q):
    q = q / q.norm(dim=-1, keepdim=True)
    w, x, y, z = q.unbind(-1)
    return torch.stack([1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
                        2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
                        2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], -1).view(*q.shape[:-1], 3, 3)


def eulers(e):
    """ZYZ: any consistent reading gives Haar measure exactly if the library's does."""
    a, b, c = e.unbind(-1)

    def rz(t):
        z, o = torch.zeros_like(t), torch.ones_like(t)
        return torch.stack([t.cos(), -t.sin(), z, t.sin(), t.cos(), z, z, z, o], -1).view(*t.shape, 3, 3)

    def ry(t):
        z, o = torch.zeros_like(t), torch.ones_like(t)
        return torch.stack([t.cos(), z, t.sin(), z, o, z, -t.sin(), z, t.cos()], -1).view(*t.shape, 3, 3)
    return rz(a) @ ry(b) @ rz(c)


def sphere(ctx, name, X, g, w):
    try:
        with w.activate():
            P = w.s2.spherical_to_euclid(X)
    except Exception as e:
        raise Violation("exception", f"spherical_to_euclid raised {brief(e)}")
    T = Tests(ctx, name)
    if not bool(((P.norm(dim=-1) - 1).abs() < 1e-3).all()):
        raise Violation("distribution", f"{name}: points off the unit sphere")
    for i in range(3):
        T.uniform(f"coordinate {i}", (P[:, i] + 1) / 2)
    for _ in range(6):
        u = torch.randn(3, generator=g, dtype=torch.float64)
        u /= u.norm()
        T.uniform("a projection", (P @ u + 1) / 2)
    for i, j in ((0, 1), (1, 2), (2, 0)):
        T.uniform(f"longitude in the plane {i},{j}", torch.atan2(P[:, i], P[:, j]) / (2 * math.pi) % 1.0)
    for lag in (1, 2, 3):
        T.uniform(f"distance from the point {lag} before", ((P[lag:] * P[:-lag]).sum(-1) + 1) / 2, "independence")
    n = len(P)
    uniq = torch.unique((P * (1 << 21)).round().to(torch.int64), dim=0).shape[0]
    if n - uniq > 4:
        raise Violation("repeats", f"{name}: {n - uniq} of {n} points repeat others")
    ctx.nontrivial = n >= 500
    ctx.ops["draws"] += n
    ctx.ev(name, sig(P))
    ctx.metrics["worst_fraction_of_bound"] = round(T.worst, 4)
