"""C20: chains of group operations agree with the elements they stand for."""
from __future__ import annotations

import math

import torch

from .. import poses
from ..common import *  # noqa: F401,F403
from ..seams import is_sim
from ..world import World

ID = "C20"
QUICK = 4000
THOROUGH = 40000
RULE = ("A run is a program over registers holding group elements: it draws elements (ordinary and boundary draws of the generator), "
        "takes named groups and grids, multiplies, inverts, converts between parameterisations, acts on vectors, measures distances "
        "and determinants, takes logarithms, in any order, shape, layout and precision, some operations failing and being repeated. "
        "Every register is compared after every operation with the product of matrices it stands for, kept by the simulator in double "
        "precision. Non-trivial: a chain of at least two operations on a drawn element was compared.")
STATES = "hash of (operation, parameterisation, shape, depth)"
LISTS = ("ops",)
STUBS = "the draws (boundary draws only); os.urandom, terminal. The oracle is the simulator's own matrix arithmetic"

DRAWS = ["so2.angle", "o2.vec", "so3.quat", "so3.matrix", "so3.euler", "o3.vec", "so2.grid", "o2.grid", "so3.grid", "o3.grid",
         "so3.group", "so3.cyclic", "so3.axis", "so3.given", "so3.given", "o3.given", "o2.given", "so2.given", "s2.random"]
STEPS = ["product", "pairwise", "inverse", "convert", "act", "det", "distance", "nearest", "log"]


def gen(rng, tier):
    ops = []
    fam = rng.pick(["so2", "o2", "so3", "so3", "so3", "o3", "s2"])
    for i in range(rng.pick([2, 4, 6, 8, 12])):
        if i == 0 or rng.chance(0.25):
            f = fam if rng.chance(0.8) else rng.pick(["so2", "o2", "so3", "o3"])
            op = rng.pick([d for d in DRAWS if d.startswith(f + ".")])
            d = dict(op=op, seed=rng.seed63(), n=rng.wpick([(1, 10), (2, 5), (3, 5), (4, 5), (9, 1), (21, 1)]), draws=draw_spec(rng, 0.35), f64=rng.chance(0.3),
                     name=rng.pick(["identity", "klein_group", "tetrahedral", "octahedral", "icosahedral"]), axis=rng.pick(["x", "y", "z"]),
                     param=rng.pick(["quat", "matrix", "euler"]), m=rng.pick([1, 2, 4]))
        else:
            d = dict(op=rng.pick(STEPS), a=rng.randrange(100), b=rng.randrange(100), to=rng.randrange(10), seed=rng.seed63(),
                     lay=rng.pick([None, None, "perm", "strided", "expand"]), lead=rng.chance(0.2), one=rng.chance(0.2),
                     fault=[rng.pick(["alloc", "oom", "interrupt"]), rng.randrange(1, 12)] if rng.chance(0.07) else None)
        ops.append(d)
    return dict(ops=ops)


def to_mat(fam, rep, t):
    t = t.detach().double()
    if fam == "so2":
        return poses.to_mat("SE2", t) if rep == "angle" else t.reshape(-1, 2, 2)
    if fam == "o2":
        return poses.to_mat("E2", t.reshape(-1, 2))
    if fam == "o3":
        return poses.to_mat("E3", t.reshape(-1, 10))
    if rep == "quat":
        return poses.quat_mat(t.reshape(-1, 4))
    if rep == "euler":
        return poses.euler_mat(t.reshape(-1, 3))
    return t.reshape(-1, 3, 3)


def nd(fam, rep):
    """Trailing dimensions of one element."""
    return 2 if rep == "matrix" else 1


class Reg:
    def __init__(self, fam, rep, t, M=None, err=0.0, depth=0):
        self.fam, self.rep, self.t = fam, rep, t
        self.M = to_mat(fam, rep, t) if M is None else M
        self.err = err
        self.depth = depth
        self.single = t.dtype == torch.float32

    def flat(self):
        return self.t.reshape(-1, *self.t.shape[self.t.dim() - nd(self.fam, self.rep):])

    @property
    def n(self):
        return self.M.shape[0]


def relay(t, how, lead):
    """The same elements in another layout or with another leading shape."""
    if how == "perm" and t.dim() >= 2:
        t = t.transpose(0, -1).contiguous().transpose(0, -1)
    elif how == "strided":
        t = torch.cat([t, t + 1], -1)[..., :t.shape[-1]]
    elif how == "expand":
        t = t.clone()[None].expand(1, *t.shape)[0]
    return t


def check(ctx, what, reg):
    M = to_mat(reg.fam, reg.rep, reg.t)
    if M.shape != reg.M.shape:
        raise Violation("shape", f"{what}: {tuple(reg.t.shape)} instead of {reg.n} elements")
    if not bool(torch.isfinite(reg.t).all()):
        raise Violation("finite", f"{what}: non-finite result")
    d = float((M - reg.M).abs().max()) if reg.n else 0.0
    ctx.metrics["err"] = max(ctx.metrics.get("err", 0.0), d / reg.err)
    if not d <= reg.err:
        raise Violation("element", f"{what}: off by {d:.3g} from the element it stands for (allowed {reg.err:.2g})")


def rows(t, n):
    return t.reshape(n, -1) if t.numel() else t


def run(plan, ctx):
    w = World()
    lib = dict(so2=w.so2, o2=w.o2, so3=w.so3, o3=w.o3, s2=w.s2)
    regs = []
    for i, d in enumerate(plan["ops"]):
        if "a" in d and not regs:
            continue
        if "a" not in d:
            r = draw(ctx, w, lib, i, d)
            if r is not None:
                check(ctx, f"op {i} {d['op']}", r)
                regs.append(r)
                ctx.state(f"{d['op']}{r.rep}{r.n}")
                ctx.ev(i, d["op"], sig(r.t))
            continue
        a = regs[d["a"] % len(regs)]
        cand = [r for r in regs if (r.fam, r.rep) == (a.fam, a.rep) and r.t.dtype == a.t.dtype]
        b = cand[d["b"] % len(cand)]
        out = step(ctx, w, lib, i, d, a, b)
        if out is not None:
            check(ctx, f"op {i} {d['op']} of {a.fam} {a.rep}", out)
            if out.n <= 60 and out.err < 5e-2:
                regs.append(out)
            ctx.ev(i, d["op"], sig(out.t))
            ctx.nontrivial |= out.depth >= 2
        ctx.state(f"{d['op']}{a.fam}{a.rep}{d['to']}{a.n}{a.depth}")


def draw(ctx, w, lib, i, d):
    op, n = d["op"], d["n"]
    torch.manual_seed(d["seed"] & 0x7FFFFFFFFFFF)
    fam = op.split(".")[0]
    L = lib[fam]
    eps = 4e-6

    def get(f):
        return sut(ctx, op, f, w, draws=d["draws"])
    M = None
    if op == "so2.angle":
        rep, t = "angle", get(lambda: L.random_grid(n))
    elif op == "o2.vec":
        rep, t = "vec", get(lambda: L.random_grid(n))
    elif op in ("so3.quat", "so3.matrix", "so3.euler"):
        rep = op.split(".")[1]
        t = get(lambda: getattr(L, "random_" + rep)(n))
    elif op == "o3.vec":
        rep, t = "vec", get(lambda: L.random_grid(n))
    elif op == "so2.grid":
        rep, t = "angle", get(lambda: L.uniform_grid(n))
        M = poses.to_mat("SE2", torch.arange(n, dtype=torch.float64) * (2 * math.pi / n))
    elif op == "o2.grid":
        rep, t = "vec", get(lambda: L.uniform_grid((n, d["m"])))
        th = torch.cat([torch.arange(k, dtype=torch.float64) * (2 * math.pi / k) for k in (n, d["m"])])
        M = poses.to_mat("E2", torch.stack([torch.tensor([1.0] * n + [-1.0] * d["m"], dtype=torch.float64), th], -1))
    elif op == "so3.grid":
        rep = d["param"] if d["param"] != "euler" else "quat"
        t = get(lambda: L.uniform_grid(n, rep))
        eps = 5e-4
    elif op == "o3.grid":
        rep, t = "vec", get(lambda: L.uniform_grid((n, d["m"])))
        eps = 5e-4
    elif op == "so3.group":
        rep, t = "quat", get(lambda: getattr(L, d["name"])())
        subgroup(i, d["name"], t)
        if t.shape[0] > 12:
            k = d["seed"] % t.shape[0]
            t = t.roll(k, 0)[:6].clone()
    elif op == "so3.cyclic":
        rep, t = "quat", get(lambda: L.cyclic(n, d["axis"]))
        M = axis_mat(d["axis"], torch.arange(n, dtype=torch.float64) * (2 * math.pi / n))
    elif op == "so3.axis":
        r = Rng("axis", d["seed"])
        th = torch.tensor([r.pick([0.0, math.pi, math.pi / 2, -math.pi / 2, r.random() * 7 - 3.5, 1e-4, 3e-4, -2e-4]) for _ in range(n)], dtype=torch.float64)
        M = axis_mat(d["axis"], th)
        arg = th if d["f64"] else th.float()
        rep, t = "matrix", get(lambda: getattr(L, "matrix_" + d["axis"])(arg))
    elif op.endswith(".given"):
        rep, t = given(fam, d)
    else:
        points(ctx, w, lib, i, d)
        return None
    if d["f64"]:
        t = t.double()
    r = Reg(fam, rep, t, M, eps, 1)
    # the element must be one: orthogonal
    e = float((r.M.mT @ r.M - torch.eye(r.M.shape[-1], dtype=torch.float64)).abs().max())
    if not e < 5e-4:
        raise Violation("element", f"op {i} {op}: not a group element (off by {e:.3g})")
    if op in ("so3.grid", "o3.grid"):
        # shipped grids are rounded to four digits: take the nearest rotation
        U, _, V = torch.linalg.svd(r.M)
        r.M = U @ V
    return r


def flat(a, b):
    """The arccosine is flat at zero distance: elements rounded to four digits
    (shipped grids) may be off by the root of that."""
    e = a.err + b.err
    return 2 * math.sqrt(2 * e) if e > 1e-4 else 0.0


ORDER = dict(identity=1, klein_group=4, tetrahedral=12, octahedral=24, icosahedral=60)


def subgroup(i, name, t):
    """A named subgroup has its order, distinct elements, the identity, and
    the products of any two of its elements."""
    M = poses.quat_mat(t.detach().double())
    n = M.shape[0]
    if n != ORDER[name]:
        raise Violation("subgroup", f"op {i} so3.{name}: {n} elements instead of {ORDER[name]}")
    d = (M[:, None] - M).flatten(2).norm(dim=-1) + 9 * torch.eye(n, dtype=M.dtype)
    if n > 1 and float(d.min()) < 0.1:
        raise Violation("subgroup", f"op {i} so3.{name}: two elements are one")
    P = (M[:, None] @ M).reshape(-1, 9)
    e = float(torch.cdist(P, M.reshape(-1, 9)).min(-1)[0].max())
    e = max(e, float((M - torch.eye(3, dtype=M.dtype)).flatten(1).norm(dim=-1).min()))
    if not e < 1e-5:
        raise Violation("subgroup", f"op {i} so3.{name}: not closed under products, or without identity (off by {e:.3g})")


def given(fam, d):
    """Elements a caller brings along: half turns, nearly half turns, small
    rotations, lattice elements, about any axis."""
    r = Rng("given", d["seed"])
    n = d["n"]
    dt = torch.float64 if d["f64"] else torch.float32
    D = 2 if fam in ("so2", "o2") else 3
    ang = []
    for _ in range(n):
        ang.append(r.pick([math.pi, math.pi, math.pi - 1e-3, math.pi - 6e-3, math.pi - 0.03, 0.0, 1e-3, 1e-4, 2e-6, math.pi / 2,
                           2 * math.pi / 3, r.random() * 3]))
    if D == 2:
        t = torch.tensor(ang, dtype=torch.float64)
        t = torch.where(t % 1.0 < 0.5, t, 2 * math.pi - t)
        if fam == "so2":
            return "angle", t[:, None].to(dt)
        c = torch.tensor([r.pick([1.0, -1.0]) for _ in range(n)], dtype=torch.float64)
        return "vec", torch.stack([c, t], -1).to(dt)
    ax = []
    for _ in range(n):
        v = r.pick([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, -1], [0, 1, 1], [1, 1, 1], "plane", "near", "any", "any"])
        if v == "plane":
            p = r.random() * 7
            v = [math.cos(p), math.sin(p), 0.0]
        elif v == "near":
            v = [r.random() - 0.5, 1.0, 1e-3 * (r.random() - 0.5)]
        elif v == "any":
            v = [r.random() - 0.5 for _ in range(3)]
        ax.append(v)
    x = torch.tensor(ax, dtype=torch.float64)
    x = x / x.norm(dim=-1, keepdim=True)
    th = torch.tensor(ang, dtype=torch.float64)[:, None]
    half = torch.where(th == math.pi, torch.zeros_like(th), (th / 2).cos())      # half turns exactly
    q = torch.cat([half, (th / 2).sin() * x], -1)
    q = q * torch.tensor([r.pick([1.0, -1.0]) for _ in range(n)], dtype=torch.float64)[:, None]
    if fam == "so3" and d["param"] == "quat":
        return "quat", q.to(dt)
    M = poses.quat_mat(q)
    if fam == "so3":
        return "matrix", M.to(dt)
    c = torch.tensor([r.pick([1.0, -1.0]) for _ in range(n)], dtype=torch.float64)
    return "vec", torch.cat([c[:, None], M.flatten(1)], -1).to(dt)


def axis_mat(axis, th):
    c, s = th.cos(), th.sin()
    o, z = torch.ones_like(c), torch.zeros_like(c)
    R = dict(x=[o, z, z, z, c, -s, z, s, c], y=[c, z, s, z, o, z, -s, z, c], z=[c, -s, z, s, c, z, z, z, o])[axis]
    return torch.stack(R, -1).reshape(-1, 3, 3)


def points(ctx, w, lib, i, d):
    """Points on the sphere: coordinates, distances, frames."""
    s2, so3 = lib["s2"], lib["so3"]
    n = d["n"]
    sp = sut(ctx, "s2", lambda: s2.random_s2((n,)), w, draws=d["draws"])
    if d["f64"]:
        sp = sp.double()
    what = f"op {i} s2"
    b, g = sp.double().unbind(-1)
    want = torch.stack([b.sin() * g.cos(), b.sin() * g.sin(), b.cos()], -1)
    x = sut(ctx, "s2", lambda: s2.spherical_to_euclid(sp), w)
    near("point", what + " spherical_to_euclid", x, want, 2e-6)
    back = sut(ctx, "s2", lambda: s2.euclid_to_spherical(want.to(sp.dtype).clamp(-1, 1)), w)
    b2, g2 = back.double().unbind(-1)
    near("point", what + " euclid_to_spherical", torch.stack([b2.sin() * g2.cos(), b2.sin() * g2.sin(), b2.cos()], -1), want, 1e-3 if sp.dtype == torch.float32 else 1e-6)
    dist = sut(ctx, "s2", lambda: s2.geodesic_distance_s2(x[:, None], x[None]), w)
    near("distance", what + " geodesic_distance_s2", dist, torch.acos((want[:, None] * want[None]).sum(-1).clamp(-1, 1)), 2e-3)
    for name in ("spherical_to_euler", "spherical_to_euler_neg_gamma"):
        R = sut(ctx, "s2", lambda: so3.euler_to_matrix(getattr(s2, name)(sp)), w)
        near("point", what + " " + name, R[..., 2], want, 1e-5)
    ctx.ev(i, "s2", sig(sp))
    ctx.state(f"s2{n}{d['f64']}{d['draws']}")


def near(kind, what, got, want, tol):
    got = got.detach().double()
    if got.shape != want.shape:
        raise Violation("shape", f"{what}: shape {tuple(got.shape)} instead of {tuple(want.shape)}")
    if not got.numel():
        return
    d = float((got - want).abs().max())
    if not d <= tol:
        raise Violation(kind, f"{what}: off by {d:.3g} (allowed {tol:.2g})")


def step(ctx, w, lib, i, d, a, b):
    op = d["op"]
    fam, rep = a.fam, a.rep
    L = lib[fam]
    what = f"op {i} {op} of {fam} {rep}"
    u = 2e-6 if a.single else 2e-12
    if fam in ("so3", "o3") or a.err > 1e-9:
        u = max(u, 1e-7)
    A = relay(a.flat(), d["lay"], d["lead"])
    keepA, keepB = A.detach().clone(), b.flat().detach().clone()
    fullA, fullB = A, b.flat()
    if d.get("one") and a.n and b.n and op in ("product", "inverse", "convert", "det", "log") and not (op == "log" and rep != "matrix"):
        # one element, taken out of its register, on its own
        k, j = d["b"] % a.n, d["a"] % b.n
        a = Reg(fam, rep, A[k:k + 1], a.M[k:k + 1], a.err, a.depth)
        b = Reg(fam, rep, fullB[j:j + 1], b.M[j:j + 1], b.err, b.depth)
        ctx.probes["single_elements"] += 1
        return single(ctx, w, L, d, a, b, A[k], fullB[j], fullA, fullB, keepA, keepB, what + " of one element", u)

    def call(f):
        if d.get("fault"):
            try:
                sut(ctx, op, f, w, fault=tuple(d["fault"]))
            except BaseException as e:
                if not is_sim(e):
                    raise
        return sut(ctx, op, f, w)

    def kept():
        if not same(A, keepA) or not same(b.flat(), keepB):
            raise Violation("argument", f"{what}: an operand was modified")

    if op == "product":
        # b's elements cycled to the length of a
        idx = torch.arange(a.n) % max(b.n, 1)
        B = b.flat()[idx]
        MB = b.M[idx]
        f = {("so2", "angle"): "left_apply_angle", ("o2", "vec"): "left_apply_angle", ("so3", "matrix"): "left_apply_matrix",
             ("so3", "quat"): "left_apply_quat", ("o3", "vec"): "left_apply_O3"}.get((fam, rep))
        if f is None or not b.n or not a.n:
            return None
        if d["lead"]:
            t = call(lambda: getattr(L, f)(A[:, None].expand(a.n, 1, *A.shape[1:]), B[:, None]))[:, 0]
        else:
            t = call(lambda: getattr(L, f)(A, B))
        kept()
        out = Reg(fam, rep, t, a.M @ MB, 2 * (a.err + b.err) + u, max(a.depth, b.depth) + 1)
        wrapped(what, out)
        return out
    if op == "pairwise":
        f = {("so2", "angle"): "left_apply_to_angle", ("o2", "vec"): "left_apply_to_angle", ("so3", "matrix"): "left_apply_to_matrix",
             ("o3", "vec"): "left_apply_to_O3"}.get((fam, rep))
        if f is None or a.n * b.n > 60 or not a.n * b.n:
            return None
        if d["lay"] in ("strided", "perm"):
            A = A.contiguous()
        B = b.flat()
        t = call(lambda: getattr(L, f)(A, B))
        kept()
        if tuple(t.shape[:2]) != (a.n, b.n):
            raise Violation("shape", f"{what}: {tuple(t.shape)} for {a.n} x {b.n} pairs")
        M = (a.M[:, None] @ b.M[None]).reshape(-1, *a.M.shape[1:])
        out = Reg(fam, rep, t.flatten(0, 1), M, 2 * (a.err + b.err) + u, max(a.depth, b.depth) + 1)
        wrapped(what, out)
        return out
    if op == "inverse":
        f = {("so2", "angle"): "inverse_angle", ("so2", "matrix"): "inverse_matrix", ("o2", "vec"): "inverse", ("so3", "matrix"): "matrix_inverse",
             ("so3", "quat"): "quat_inverse", ("o3", "vec"): "inverse"}.get((fam, rep))
        if f is None:
            return None
        t = call(lambda: getattr(L, f)(A))
        kept()
        if t.data_ptr() == A.data_ptr():
            t = t.clone()
        return Reg(fam, rep, t, a.M.mT, 3 * a.err + u, a.depth + 1)
    if op == "convert":
        if fam == "so2" and rep == "angle":
            t = call(lambda: L.angle_to_matrix(A))
            v = call(lambda: L.angle_to_euclid(A))
            near("element", what, v, a.M[:, :, 0], a.err + u)
            return Reg(fam, "matrix", t, a.M, a.err + u, a.depth + 1)
        if fam != "so3":
            return None
        to = [r for r in ("quat", "matrix", "euler") if r != rep][d["to"] % 2]
        if to == "matrix" and a.err > 1e-4:
            return None
        if rep == "matrix" and d["lay"]:
            pass
        lead = A[:, None] if d["lead"] else A
        kw = dict(no_warn=True) if (rep, to) == ("matrix", "euler") else {}
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t = call(lambda: getattr(L, f"{rep}_to_{to}")(lead, **kw))
        kept()
        if d["lead"]:
            t = t[:, 0]
        e = a.err + 2 * u + (2e-6 if rep == "euler" or to == "euler" else 0.0)
        if to == "euler" and a.n:
            # angles are ill-conditioned near gimbal lock
            z = a.M[:, 2, 2].clamp(-1, 1)
            s = float(torch.sqrt(1 - z * z).min())
            noise = max(3e-7 if a.single else 1e-13, a.err)
            e += 5e-5 if s < 1e-6 and noise < 1e-5 else noise / max(s, 1e-5)
        return Reg(fam, to, t, a.M, 2 * e, a.depth + 1)
    if op == "act":
        D = 2 if fam in ("so2", "o2") else 3
        f = {("so2", "angle"): "left_apply_angle_to_R2", ("so2", "matrix"): "left_apply_matrix_to_R2", ("o2", "vec"): "left_apply_to_R2",
             ("so3", "matrix"): "left_apply_to_R3", ("o3", "vec"): "left_apply_to_R3"}.get((fam, rep))
        if f is None or not a.n:
            return None
        r = Rng("pts", d["seed"])
        shp = [r.pick([1, 2, 3]) for _ in range(D)]
        P = tensor(d["seed"], (*shp, D), a.t.dtype)
        t = call(lambda: getattr(L, f)(A, P))
        kept()
        want = (a.M.reshape(a.n, *[1] * D, D, D) @ P.double()[None, ..., None])[..., 0]
        near("action", what, t, want, (a.err + u) * 20)
        return None
    if op == "det":
        if fam not in ("o2", "o3") or not a.n:
            return None
        t = call(lambda: L.det(A))
        near("determinant", what, t, torch.det(a.M).round()[:, None], 1e-6)
        return None
    if op == "distance":
        ang = poses.geo({"so2": "SE2", "so3": "SE3"}.get(fam, "E3"), a.M, b.M) if fam in ("so2", "so3") else None
        if ang is None or not a.n * b.n:
            return None
        B = b.flat()
        if (fam, rep) == ("so2", "angle"):
            t = call(lambda: L.geodesic_distance(A[:, None], B[None]))
        elif (fam, rep) == ("so3", "quat"):
            t = call(lambda: L.geodesic_distance(A[:, None], B[None]))
            ang = ang / 2
        else:
            return None
        kept()
        near("distance", what, t, ang, 2e-3 + 10 * (a.err + b.err) + flat(a, b))
        return None
    if op == "nearest":
        if (fam, rep) not in (("so2", "angle"), ("so3", "quat"), ("so3", "matrix")) or a.n < 2:
            return None
        t = call(lambda: L.nearest_neighbour_distance(A))
        kept()
        ang = poses.geo("SE2" if fam == "so2" else "SE3", a.M, a.M) / (1 if fam == "so2" else 2)
        ang = ang + torch.diag(torch.full((a.n,), math.inf, dtype=torch.float64))
        near("distance", what, t, ang.min(-1)[0], 2e-3 + 10 * a.err + flat(a, a))
        return None
    if op == "log":
        if fam != "so3" or rep not in ("matrix", "quat") or not a.n:
            return None
        if rep == "quat":
            A = A.contiguous()
            t = call(lambda: L.quaternion_log(A))
            # exp of the logarithm is the quaternion again
            v = t[:, 1:].double()
            n = v.norm(dim=-1, keepdim=True)
            q = torch.cat([n.cos(), v / n.clamp_min(1e-300) * n.sin()], -1) * t[:, :1].double().exp()
            near("log", what, torch.where((n < 1e-12) & (A.double()[:, :1] < 0), -q, q), A.double(), 2e-3 if a.single else 1e-6 + 10 * a.err)
            return None
        tr = (a.M.diagonal(dim1=-2, dim2=-1).sum(-1) - 1) / 2
        skew = torch.stack([a.M[:, 2, 1] - a.M[:, 1, 2], a.M[:, 0, 2] - a.M[:, 2, 0], a.M[:, 1, 0] - a.M[:, 0, 1]], -1) / 2
        s = skew.norm(dim=-1)
        th = torch.atan2(s, tr)
        kw = dict(eps=0.0) if d["to"] % 3 == 0 and a.err < 1e-5 else {}
        t = call(lambda: L.so3_log(A, **kw))
        kept()
        want = skew * (th / s.clamp_min(1e-300)).clamp(max=1e9)[:, None]
        want[s < 1e-12] = 0
        # a half turn has two logarithms, and its axis is not in the skew part
        u0 = (3e-6 if a.single else 1e-7) + 10 * a.err
        for k in range(a.n):
            what_k = what + (" (eps 0)" if kw else "")
            if float(th[k]) < 2.0:
                near("log", what_k, t[k], want[k], u0)
            elif float(th[k]) < math.pi - 7e-3:
                near("log", what_k, t[k], want[k], u0 * (100 if float(th[k]) < 3.0 else 1 + math.pi / float(s[k]) ** 2))
            elif a.err < 1e-5:
                # its exponential is the rotation again
                v = t[k].double()
                nn = v.norm().clamp_min(1e-300)
                R = rodrigues(v / nn, nn)
                near("log", what_k + ", near a half turn", R, a.M[k], 3e-3)
        return None
    raise HarnessError(op)


PRODUCT = {("so2", "angle"): "left_apply_angle", ("o2", "vec"): "left_apply_angle", ("so3", "matrix"): "left_apply_matrix",
           ("o3", "vec"): "left_apply_O3"}
INVERSE = {("so2", "angle"): "inverse_angle", ("so2", "matrix"): "inverse_matrix", ("o2", "vec"): "inverse", ("so3", "matrix"): "matrix_inverse",
           ("so3", "quat"): "quat_inverse", ("o3", "vec"): "inverse"}


def single(ctx, w, L, d, a, b, A, B, fullA, fullB, keepA, keepB, what, u):
    """Operations on elements without a leading dimension."""
    op, fam, rep = d["op"], a.fam, a.rep
    err, M = a.err, a.M
    if op == "product":
        f, err, M = PRODUCT.get((fam, rep)), 2 * (a.err + b.err), a.M @ b.M
        args = (A, B)
    elif op == "inverse":
        f, err, M = INVERSE.get((fam, rep)), 3 * a.err, a.M.mT
        args = (A,)
    elif op == "det":
        f, args = ("det" if fam in ("o2", "o3") else None), (A,)
    elif op == "log":
        if fam != "so3" or a.err > 1e-5:
            return None
        f, args = "so3_log", (A,)
    else:
        f = {("so2", "angle"): "angle_to_matrix", ("so3", "quat"): "quat_to_matrix", ("so3", "matrix"): "matrix_to_quat",
             ("so3", "euler"): ("euler_to_matrix", "euler_to_quat")[d["to"] % 2]}.get((fam, rep))
        if f and f.endswith("matrix") and a.err > 1e-4:
            return None
        err += 2 * u + (2e-6 if rep == "euler" else 0.0)
        args = (A,)
    if f is None:
        return None
    t = sut(ctx, op, lambda: getattr(L, f)(*args), w)
    if not same(fullA, keepA) or not same(fullB, keepB):
        raise Violation("argument", f"{what}: {f} modified an operand, or the tensor it was taken from")
    if op == "det":
        near("determinant", what, t.reshape(1, -1), torch.det(a.M).round()[:, None], 1e-6)
        return None
    if op == "log":
        v = t.double()
        th = float(v.norm())
        near("log", what, rodrigues(v / max(th, 1e-300), torch.tensor(th, dtype=torch.float64)), a.M[0], 3e-3)
        return None
    to = {"angle_to_matrix": "matrix", "quat_to_matrix": "matrix", "euler_to_matrix": "matrix", "matrix_to_quat": "quat",
          "euler_to_quat": "quat"}.get(f, rep)
    want = nd(fam, to)
    if t.dim() != want:
        raise Violation("shape", f"{what}: {f} returned shape {tuple(t.shape)} for shape {tuple(A.shape)}")
    out = Reg(fam, to, t[None].clone(), M, (2 * err if op == "convert" else err) + u, max(a.depth, b.depth if op == "product" else 0) + 1)
    if op == "product":
        wrapped(what, out)
    return out


def rodrigues(x, th):
    K = torch.zeros(3, 3, dtype=torch.float64)
    K[2, 1], K[1, 2], K[0, 2], K[2, 0], K[1, 0], K[0, 1] = x[0], -x[0], x[1], -x[1], x[2], -x[2]
    return torch.eye(3, dtype=torch.float64) + torch.sin(th) * K + (1 - torch.cos(th)) * (K @ K)


def wrapped(what, r):
    if r.rep == "angle" or r.fam == "o2":
        th = r.t[..., -1]
        if th.numel() and (float(th.min()) < 0 or float(th.max()) > 2 * math.pi + 1e-5):
            raise Violation("range", f"{what}: angle {float(th.min()):.6g} .. {float(th.max()):.6g} outside [0, 2 pi)")
    if r.fam in ("o2", "o3"):
        c = r.t[..., 0]
        if not bool(((c == 1) | (c == -1)).all()):
            raise Violation("coefficient", f"{what}: reflection coefficients {c.tolist()}")
