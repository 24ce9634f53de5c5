"""C11: repulsion makes progress and touches nothing but its grid."""
from __future__ import annotations

import math

import torch

from .. import poses
from ..common import *  # noqa: F401,F403
from ..core import Rng
from ..seams import NRM_PATTERNS
from ..world import World

ID = "C11"
QUICK = 900
THOROUGH = 15000
RULE = ("A run repulses 1-4 starting grids (random, one close pair, clustered, duplicated, at the poles and gimbal points) on SO(3) or S2, in place "
        "or not, with ordinary or injected noise, sometimes interrupted by a fault and retried. Energy, its gradient and distances are computed by "
        "the simulator in double precision. Non-trivial: at least one descent was compared with its prediction, or a full run with its bound.")
STATES = "hash of (space, start, size, steps, in place, noise, fault)"
LISTS = ("ops",)
STUBS = "values of the noise draws (some replaced), clock and terminal"

# energy per point reached by full default runs from many starts (own measurement), allowed 1.12 times this
FULL = dict(so3={6: 1.56, 8: 1.755, 12: 1.955, 16: 2.08, 24: 2.24, 30: 2.37},
            s2={6: 3.405, 8: 4.075, 12: 4.9, 16: 5.55, 24: 6.43, 30: 6.94})
C = dict(so3=math.pi / 2, s2=math.pi)


def gen(rng, tier):
    ops = []
    for _ in range(rng.pick([1, 2, 3, 4])):
        space = rng.pick(["so3", "s2"])
        d = dict(space=space, seed=rng.seed63(), how=rng.wpick([("descent", 6), ("wild", 3), ("full", 0.25 if space == "so3" else 0.6), ("service", 0.12)]),
                 n=rng.pick([2, 3, 4, 6, 9, 14]), in_place=rng.chance(0.5), rs=rng.seed63() & 0x7FFFFFFF, pbar=rng.chance(0.3))
        if d["how"] == "descent":
            d["start"] = rng.wpick([("pair", 4), ("rand", 3), ("cluster", 2), ("tri", 1)])
            d["gap"] = rng.pick([0.1, 0.15, 0.2, 0.3])
            d["steps"] = rng.pick([1, 1, 2, 3])
            d["kick"] = rng.pick([0.02, 0.05, 0.1])
            d["noise"] = rng.wpick([(None, 2), (rng.pick(NRM_PATTERNS), 1), (f"mag{rng.randrange(1000)}", 1)])
        elif d["how"] == "wild":
            d["start"] = rng.pick(["dup", "alldup", "pole", "pair", "near", "cluster"])
            d["gap"] = rng.pick([0.0, 1e-6, 1e-4, 1e-3, 1e-2])
            d["steps"] = rng.pick([0, 1, 3, 10])
            d["kick"] = None
            d["noise"] = rng.wpick([(None, 2), (rng.pick(NRM_PATTERNS), 1), (f"mag{rng.randrange(1000)}", 1)])
        else:
            d["n"] = rng.pick([25, 26, 28, 30]) if d["how"] == "service" and space == "so3" else rng.pick(sorted(FULL[space]))
            d["start"], d["gap"], d["kick"], d["noise"] = "rand", 0.1, None, None
            d["steps"] = 200 if space == "so3" else 100
        d["fault"] = [rng.pick(["alloc", "oom", "interrupt"]), rng.randrange(1, 120)] if rng.chance(0.25) and d["how"] in ("descent", "wild") else None
        d["lay"] = rng.wpick([("plain", 5), ("strided", 1), ("perm", 1), ("offset", 1)])
        d["dtype"] = "f32"
        ops.append(d)
    return dict(ops=ops)


def start(d):
    """Coordinates (N, 3) Euler or (N, 2) spherical, float32."""
    r = Rng("rep", d["seed"])
    so3 = d["space"] == "so3"
    n = d["n"]

    def pt():
        if so3:
            M = poses.rand_mats("SE3", 1, r)[0]
            b = math.acos(max(-1.0, min(1.0, float(M[2, 2]))))
            return [r.random() * 2 * math.pi - math.pi, b, r.random() * 2 * math.pi - math.pi]
        return [math.acos(2 * r.random() - 1), r.random() * 2 * math.pi - math.pi]

    def near(p, gap):
        v = [r.gauss(0, 1) for _ in p]
        m = math.sqrt(sum(x * x for x in v))
        return [a + gap * x / m for a, x in zip(p, v)]

    how = d["start"]
    P = [pt() for _ in range(n)]
    if how in ("pair", "near"):
        P[-1] = near(P[0], d["gap"])
    elif how == "tri" and n > 2:
        P[-1], P[-2] = near(P[0], d["gap"]), near(P[0], d["gap"] * 1.3)
    elif how == "cluster":
        P = [P[0]] + [near(P[0], d["gap"] * (1 + r.random() * 3)) for _ in range(n - 1)]
    elif how == "dup":
        P[-1] = list(P[0])
    elif how == "alldup":
        P = [list(P[0]) for _ in P]
    elif how == "pole":
        k = 1 if so3 else 0
        for i, p in enumerate(P):
            p[k] = [0.0, math.pi, math.pi / 2][i % 3]
    return torch.tensor(P, dtype=torch.float32)


def dists(g, space):
    """(N, N-1) distances, and differentiable in g (float64)."""
    if space == "so3":
        R = poses.euler_mat(g)
        q = R.transpose(-1, -2)[:, None] @ R[None]
        # quaternion angle: half the rotation angle, through the chordal distance
        f = ((q - torch.eye(3, dtype=q.dtype)) ** 2).sum((-1, -2))
        n = g.shape[0]
        off = ~torch.eye(n, dtype=torch.bool)
        f = f[off].reshape(n, n - 1)
        return torch.asin((f / 8).clamp(1e-30, 1 - 1e-12).sqrt())
    x = torch.stack([g[:, 0].sin() * g[:, 1].cos(), g[:, 0].sin() * g[:, 1].sin(), g[:, 0].cos()], -1)
    n = g.shape[0]
    off = ~torch.eye(n, dtype=torch.bool)
    f = ((x[:, None] - x[None]) ** 2).sum(-1)[off].reshape(n, n - 1)
    return 2 * torch.asin((f / 4).clamp(1e-30, 1 - 1e-12).sqrt())


def energy(g, space):
    return ((dists(g, space) / C[space]) ** -2).mean()


def kwargs(w, d, lr):
    if d["space"] == "so3":
        return dict(metric_fn=w.so3.geodesic_distance, transform_fn=w.so3.euler_to_quat, dist_normalization_constant=C["so3"],
                    step_size=d["n"] ** (1 / 3) if lr is None else lr)
    return dict(metric_fn=w.s2.geodesic_distance_s2, transform_fn=w.s2.spherical_to_euclid, dist_normalization_constant=C["s2"],
                step_size=0.1 if lr is None else lr)


def run(plan, ctx):
    w = World()
    for k, d in enumerate(plan["ops"]):
        one(ctx, w, k, d)


def one(ctx, w, k, d):
    space = d["space"]
    ctx.state(f"{space}{d['how']}{d['start']}{d['n']}{d['steps']}{d['in_place']}{d['noise']}{d['fault']}")
    what = f"op {k}: repulsion of {d['n']} points on {space} ({d['how']}, {d['start']}, {d['steps']} steps, noise {d['noise']})"
    if d["how"] == "service":
        torch.manual_seed(d["rs"])
        if space == "so3":
            q = sut(ctx, "uniform_grid", lambda: w.so3.uniform_grid(d["n"], "matrix", show_pbar=d["pbar"]), w)
            a = poses.geo_rot(q.double(), q.double()) / 2
        else:
            x = sut(ctx, "uniform_grid_s2", lambda: w.s2.uniform_grid_s2(d["n"], show_pbar=d["pbar"]), w)
            a = torch.acos((x.double() @ x.double().T).clamp(-1, 1))
        if q_requires(q if space == "so3" else x):
            raise Violation("flag", f"{what}: the grid requires gradients")
        off = ~torch.eye(a.shape[0], dtype=torch.bool)
        e = ((a[off] / C[space]) ** -2).mean().item()
        bound(what, e, d["n"], space)
        ctx.nontrivial = True
        ctx.ev(k, "service", sig(a.float()))
        return
    g0 = start(d)
    lr = None
    G = g0.double().clone().requires_grad_(True)
    pred = None
    if d["how"] == "descent":
        D = dists(G, space)
        dm = D.min()
        E0 = ((D / C[space]) ** -2).mean()
        grad, = torch.autograd.grad(E0, G, retain_graph=True)
        gd, = torch.autograd.grad(dm, G)
        if float(dm) < 0.03 or float(D.max()) > (math.pi / 2 if space == "so3" else math.pi) - 0.02:
            # too close for single precision; or at the cut locus, where the distance has a kink
            if float(dm) < 0.03:
                return
        n = d["n"]
        lr = d["kick"] * float(dm) / (float(grad.norm(dim=-1).max()) + 1e-12)
        dd = -lr * float((gd * grad).sum())
        pred = dict(E0=float(E0), dE=lr * float((grad ** 2).sum()), d0=float(dm), dd=dd, gn=float(grad.norm()),
                    quad=hess_ok(G.detach(), grad, lr, space, d["steps"], dd if d["start"] == "pair" else -1.0))
    gin = layout(g0.clone(), d.get("lay"))
    torch.manual_seed(d["rs"])
    draws = dict(normal=d["noise"], uniform=None) if d["noise"] else None

    def go():
        return w.repulsion.repulse(gin, steps=d["steps"], show_pbar=d["pbar"], in_place=d["in_place"], **kwargs(w, d, lr))
    if d["fault"] is not None and not d["in_place"]:
        failed = False
        try:
            sut(ctx, "repulse", go, w, draws=draws, fault=tuple(d["fault"]))
        except BaseException as e:
            if not is_sim(e):
                raise
            failed = True
            ctx.probes["interrupted"] += 1
        if not same(gin, g0) or gin.requires_grad or gin.grad is not None:
            raise Violation("input", f"{what}: the input was changed by a {'failed ' if failed else ''}repulsion out of place")
        torch.manual_seed(d["rs"])
    out = sut(ctx, "repulse", go, w, draws=draws)
    if out.shape != g0.shape or out.dtype != g0.dtype:
        raise Violation("shape", f"{what}: returned {tuple(out.shape)} {out.dtype}")
    if q_requires(out) or q_requires(gin):
        raise Violation("flag", f"{what}: {'the result' if q_requires(out) else 'the input'} requires gradients afterwards")
    if d["in_place"]:
        if not same(gin.detach(), out):
            raise Violation("in-place", f"{what}: the input does not hold the result")
    else:
        if not same(gin, g0):
            raise Violation("input", f"{what}: the input was changed out of place")
        out2 = out.clone()
        gin.add_(1.0)
        if not same(out, out2):
            raise Violation("input", f"{what}: the result shares memory with the input")
    if not bool(torch.isfinite(out).all()):
        raise Violation("non-finite", f"{what}: returned non-finite points")
    if d["steps"] == 0 and not same(out, g0):
        raise Violation("progress", f"{what}: no steps, but the points moved")
    if d["steps"] > 0 and d["how"] != "wild" and same(out, g0):
        raise Violation("progress", f"{what}: nothing moved")
    # the other mode from the same generator state
    other = layout(g0.clone(), d.get("lay"))
    torch.manual_seed(d["rs"])
    o2 = sut(ctx, "repulse again", lambda: w.repulsion.repulse(other, steps=d["steps"], show_pbar=False, in_place=not d["in_place"], **kwargs(w, d, lr)),
             w, draws=draws)
    if d["how"] != "full" and not same(o2, out):
        if d["how"] == "descent":
            expect_close("in-place", f"{what}: in place and out of place from the same generator state", out, o2, 1e-4)
    if pred is not None and pred["quad"] and pred["gn"] > 0.3:
        E1 = float(energy(out.double(), space))
        if not E1 <= pred["E0"] - 0.3 * pred["dE"] + 1e-5 * pred["E0"]:
            raise Violation("progress", f"{what}: energy went from {pred['E0']:.6g} to {E1:.6g}; one step along the gradient lowers it by {pred['dE']:.3g}")
        if pred["dd"] > 0.004 * pred["d0"] and d["start"] == "pair":
            d1 = float(dists(out.double(), space).min())
            if not d1 >= pred["d0"] + 0.3 * pred["dd"]:
                raise Violation("progress", f"{what}: the closest points went from {pred['d0']:.5g} to {d1:.5g} apart")
            ctx.probes["pair_parted"] += 1
        ctx.probes["descent"] += 1
        ctx.nontrivial = True
    if d["how"] == "full":
        bound(what, float(energy(out.double(), space)), d["n"], space)
        ctx.probes["full"] += 1
        ctx.nontrivial = True
    ctx.ev(k, sig(out))


def hess_ok(g, grad, lr, space, steps, pdd):
    """Whether the steps stay where the first-order prediction holds: each of them, with exact gradients, keeps the energy well below the start,
    the closest pair parts as far as predicted, and no pair comes near the largest distance, where the energy has a kink and a step overshoots."""
    top = (math.pi / 2 if space == "so3" else math.pi) - 0.02
    E0 = float(energy(g, space))
    need = 0.6 * lr * float((grad ** 2).sum())
    d0 = float(dists(g, space).min())
    x = g.clone()
    for _ in range(steps):
        x.requires_grad_(True)
        v, = torch.autograd.grad(energy(x, space), x)
        step = lr * v
        x = (x - step).detach()
        D = dists(x, space)
        dd = float(D.min()) - d0
        if E0 - float(energy(x, space)) < need or dd < 0.6 * pdd or float(D.max()) + float(step.norm(dim=-1).max()) * 0.2 > top:
            return False
    return True


def bound(what, e, n, space):
    t = FULL[space]
    ks = sorted(t)
    lo = max([x for x in ks if x <= n])
    hi = min([x for x in ks if x >= n])
    ref = t[lo] if lo == hi else t[lo] + (t[hi] - t[lo]) * (n - lo) / (hi - lo)
    if not e <= 1.12 * ref:
        raise Violation("progress", f"{what}: energy {e:.4g} after the full run, where {ref:.4g} is usual")


def q_requires(t):
    return t.requires_grad
