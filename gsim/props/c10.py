"""C10: every group element handed out is a valid one, for every draw."""
from __future__ import annotations

import math

import torch

from .. import poses
from ..common import *  # noqa: F401,F403
from ..seams import NRM_PATTERNS, UNI_PATTERNS
from ..world import World

ID = "C10"
QUICK = 2200
THOROUGH = 30000
RULE = ("A run is 3-8 requests to the random and uniform element generators (all groups, sizes, shapes, parameterisations) and to layers "
        "(whose returned poses are elements), with ordinary draws or with boundary draws injected into torch's generator, and unwritten "
        "memory filled with garbage. Every element is checked with the simulator's own mathematics, and a quaternion drawn is converted "
        "through all parameterisations. Non-trivial: at least one element was drawn or a boundary draw was injected.")
STATES = "hash of (generator, shape, parameterisation, draw pattern)"
LISTS = ("ops",)
STUBS = "values produced by torch's generator (some replaced by boundary values), unwritten memory (chosen), clock and terminal"

SIZES = [1, 2, 3, 4, 5, 8, 12, 16, 24, 32, 60, 97]


def gen_draws(rng):
    if rng.chance(0.3):
        return None
    nrm = rng.wpick([(None, 1), (rng.pick(NRM_PATTERNS), 4), (f"mag{rng.randrange(10000)}", 5)])
    uni = rng.wpick([(None, 1), (rng.pick(UNI_PATTERNS), 4), (f"edge{rng.randrange(10000)}", 3)])
    return dict(uniform=uni, normal=nrm, every=rng.pick([1, 1, 1, 2]), off=rng.pick([0, 1]))


def gen(rng, tier):
    ops = []
    for _ in range(rng.pick([3, 5, 8])):
        op = rng.wpick([("so2.uniform_grid", 1), ("so2.random_grid", 2), ("o2.uniform_grid", 1), ("o2.random_grid", 3),
                        ("so3.random_quat", 3), ("so3.random_matrix", 3), ("so3.random_euler", 3), ("o3.random_grid", 3),
                        ("s2.random_s2", 3), ("so3.uniform_grid", 2), ("o3.uniform_grid", 1), ("s2.uniform_grid_s2", 1.5),
                        ("so3.group", 0.7), ("so3.cyclic", 0.7), ("layer", 2)])
        d = dict(op=op, draws=gen_draws(rng), poison=rng.pick([None, "nan", "huge", "noise"]), seed=rng.seed63() & 0x7FFFFFFF)
        n = rng.pick(SIZES)
        if op in ("so3.random_quat", "so3.random_matrix", "so3.random_euler", "o3.random_grid"):
            d["shape"] = rng.wpick([(n, 3), ([n], 1), ([2, rng.pick([1, 3, 5])], 1), ([1, 2, 4], 0.5)])
        elif op == "s2.random_s2":
            d["shape"] = rng.wpick([([n], 3), ([2, rng.pick([1, 3, 5])], 1), ([1, 2, 4], 0.5)])
        elif op in ("so2.uniform_grid", "so2.random_grid", "o2.random_grid"):
            d["shape"] = n
        elif op == "o2.uniform_grid":
            d["shape"] = [rng.pick([0, 1, 2, 5, 9]), rng.pick([1, 2, 5, 9])]
        elif op == "so3.uniform_grid":
            d["shape"] = rng.wpick([(n, 3), (rng.pick([25, 26, 27, 30]), 2)])
            d["param"] = rng.pick(["quat", "matrix", "euler", "Matrix", "QUAT"])
            d["steps"] = rng.pick([1, 2, 5])
        elif op == "o3.uniform_grid":
            d["shape"] = [rng.pick([1, 2, 4, 7, 24]), rng.pick([1, 2, 4, 7, 24])]
            d["mo"] = rng.chance(0.4)
        elif op == "s2.uniform_grid_s2":
            d["shape"] = rng.pick([2, 3, 5, 8, 13])
            d["param"] = rng.pick(["spherical", "euclidean", "quat", "matrix", "euler"])
            d["neg"] = rng.chance(0.3)
            d["steps"] = rng.pick([1, 2, 5])
        elif op == "so3.group":
            d["name"] = rng.pick(["identity", "klein_group", "tetrahedral", "octahedral", "icosahedral"])
        elif op == "so3.cyclic":
            d["shape"] = rng.pick([1, 2, 3, 4, 6, 9])
            d["axis"] = rng.pick(["x", "y", "z", "X"])
        else:
            cfg = gen_cfg(rng, uncached=rng.chance(0.05), custom=False)
            cfg["permute"] = True
            cfg["k"], cfg["size"], cfg["padding"], cfg["stride"], cfg["dilation"] = 1, 3, 0, 1, 1
            d["cfg"] = cfg
            c = gen_call(rng, cfg, batch=1)
            d["call"] = c
        ops.append(d)
    return dict(ops=ops)


def bad(what, why):
    raise Violation("invalid", f"{what}: {why}")


def want_shape(t, shape, what):
    if tuple(t.shape) != tuple(shape):
        raise Violation("shape", f"{what} has shape {tuple(t.shape)} instead of {tuple(shape)}")
    if t.is_floating_point() and not bool(torch.isfinite(t).all()):
        bad(what, f"non-finite elements {t[~torch.isfinite(t)][:3].tolist()}")
    if not t.is_floating_point():
        bad(what, f"elements of type {t.dtype}")


def chk_mat(t, what, tol=1e-5):
    M = t.double().reshape(-1, t.shape[-1], t.shape[-1])
    if M.shape[0] == 0:
        return M
    e = (M.mT @ M - torch.eye(M.shape[-1], dtype=torch.float64)).abs().max().item()
    if not e < tol:
        bad(what, f"not orthogonal (error {e:.3g})")
    if not bool((torch.det(M) > 0).all()):
        bad(what, "determinant -1")
    return M


def chk_quat(t, what, tol=1e-5):
    q = t.double().reshape(-1, 4)
    if q.shape[0]:
        e = (q.norm(dim=-1) - 1).abs().max().item()
        if not e < tol:
            bad(what, f"not a unit quaternion (error {e:.3g})")
    return poses.quat_mat(q)


def chk_euler(t, what):
    g = t.double().reshape(-1, 3)
    if g.numel() and g.abs().max() > 2 * math.pi + 1e-4:
        bad(what, f"Euler angle {g.abs().max().item():.6g}")
    return poses.euler_mat(g)


def chk_angle(t, what):
    # [0, 2 pi): the end of the range, in the precision of the angles, is out
    if t.numel() and not (t.min() >= 0 and t.max() < torch.tensor(2 * math.pi, dtype=t.dtype)):
        bad(what, f"angle outside [0, 2 pi): {t.min().item()} .. {t.max().item()}")


def chk_coeff(c, what):
    if not bool(((c == 1) | (c == -1)).all()):
        bad(what, f"reflection coefficient {c[(c != 1) & (c != -1)][:3].tolist()}")


def chk_o3(t, what, tol=1e-5):
    chk_coeff(t[..., 0], what)
    chk_mat(t[..., 1:].reshape(*t.shape[:-1], 3, 3), what, tol)


def tup(s):
    return tuple(s) if isinstance(s, list) else (s,)


def arg(s):
    return tuple(s) if isinstance(s, list) else s


def distinct(M, what, tol):
    if M.shape[0] < 2:
        return
    d = (M[:, None] - M[None]).abs().amax((-1, -2)) + 10 * torch.eye(M.shape[0], dtype=M.dtype)
    if not d.min() > tol:
        bad(what, "repeated elements")


def run(plan, ctx):
    w = World()
    for k, d in enumerate(plan["ops"]):
        one(plan, ctx, w, k, d)


def one(plan, ctx, w, k, d):
    op = d["op"]
    torch.manual_seed(d["seed"])
    seam = dict(draws=d["draws"], poison=d["poison"])
    what = f"{op}({d.get('shape', d.get('name', ''))}{', ' + d['param'] if 'param' in d else ''}) with draws {d['draws']}"
    before = sum(v for f, v in ctx.faults.items() if f.startswith("draw"))
    ctx.state(f"{op}{d.get('shape')}{d.get('param')}{d['draws']}")

    def get(fn):
        out = sut(ctx, "generate " + op, fn, w, **seam)
        if not isinstance(out, torch.Tensor):
            bad(what, f"returned {type(out).__name__}")
        return out

    s = d.get("shape")
    f = None if op in ("layer", "so3.group") else getattr(getattr(w, op.split(".")[0]), op.split(".")[1], None)
    if op == "so2.uniform_grid":
        t = get(lambda: f(s))
        want_shape(t, (s, 1), what)
        chk_angle(t, what)
        v = t.double().reshape(-1).sort()[0]
        gaps = torch.cat([v[1:] - v[:-1], v[:1] + 2 * math.pi - v[-1:]])
        if not (gaps - 2 * math.pi / s).abs().max() < 1e-4:
            bad(what, "angles not evenly spaced")
    elif op == "so2.random_grid":
        t = get(lambda: f(s))
        want_shape(t, (s, 1), what)
        chk_angle(t, what)
    elif op == "o2.uniform_grid":
        t = get(lambda: f(tuple(s)))
        want_shape(t, (sum(s), 2), what)
        chk_coeff(t[:, 0], what)
        chk_angle(t[:, 1], what)
        if int((t[:, 0] == 1).sum()) != s[0]:
            bad(what, f"{int((t[:, 0] == 1).sum())} rotations")
        for c, m in ((1, s[0]), (-1, s[1])):
            v = t[t[:, 0] == c][:, 1].double().sort()[0]
            if m:
                gaps = torch.cat([v[1:] - v[:-1], v[:1] + 2 * math.pi - v[-1:]])
                if not (gaps - 2 * math.pi / m).abs().max() < 1e-4:
                    bad(what, "angles not evenly spaced")
    elif op == "o2.random_grid":
        t = get(lambda: f(s))
        want_shape(t, (s, 2), what)
        chk_coeff(t[:, 0], what)
        chk_angle(t[:, 1], what)
    elif op == "so3.random_quat":
        t = get(lambda: f(arg(s)))
        want_shape(t, (*tup(s), 4), what)
        M = chk_quat(t, what)
        # through every parameterisation: the same rotation
        if t.reshape(-1, 4).shape[0]:
            for name in ("quat_to_matrix", "quat_to_euler"):
                g = getattr(w.so3, name, None)
                if g is None:
                    continue
                u = sut(ctx, "convert " + name, lambda: g(t), w, poison=d["poison"])
                want_shape(u, (*tup(s), 3, 3) if name == "quat_to_matrix" else (*tup(s), 3), f"{name} of {what}")
                N = chk_mat(u, f"{name} of {what}") if name == "quat_to_matrix" else chk_euler(u, f"{name} of {what}")
                e = (N - M).abs().max().item()
                if not e < 5e-3:
                    raise Violation("conversion", f"{name} of {what} is another rotation (error {e:.3g})")
            R = M.reshape(*tup(s), 3, 3).float()
            for name, n in (("matrix_to_quat", 4), ("matrix_to_euler", 3)):
                g = getattr(w.so3, name, None)
                if g is None:
                    continue
                u = sut(ctx, "convert " + name, lambda: g(R), w, poison=d["poison"])
                want_shape(u, (*tup(s), n), f"{name} of {what}")
                N = chk_quat(u, f"{name} of {what}", 1e-4) if n == 4 else chk_euler(u, f"{name} of {what}")
                e = (N - M).abs().max().item()
                if not e < 5e-3:
                    raise Violation("conversion", f"{name} of {what} is another rotation (error {e:.3g})")
    elif op == "so3.random_matrix":
        t = get(lambda: f(arg(s)))
        want_shape(t, (*tup(s), 3, 3), what)
        chk_mat(t, what)
    elif op == "so3.random_euler":
        t = get(lambda: f(arg(s)))
        want_shape(t, (*tup(s), 3), what)
        M = chk_euler(t, what)
        g = getattr(w.so3, "euler_to_quat", None)
        if g is not None:
            u = sut(ctx, "convert euler_to_quat", lambda: g(t), w, poison=d["poison"])
            want_shape(u, (*tup(s), 4), f"euler_to_quat of {what}")
            e = (chk_quat(u, f"euler_to_quat of {what}", 1e-4) - M).abs().max().item()
            if not e < 5e-3:
                raise Violation("conversion", f"euler_to_quat of {what} is another rotation (error {e:.3g})")
    elif op == "o3.random_grid":
        t = get(lambda: f(arg(s)))
        want_shape(t, (*tup(s), 10), what)
        chk_o3(t, what)
    elif op == "s2.random_s2":
        t = get(lambda: f(tuple(s)))
        want_shape(t, (*tup(s), 2), what)
        b = t[..., 0]
        if not bool(((b >= 0) & (b.double() <= math.pi + 1e-5)).all()):
            bad(what, "polar angle outside [0, pi]")
    elif op == "so3.uniform_grid":
        t = get(lambda: f(s, d["param"], steps=d["steps"], show_pbar=False))
        p = d["param"].lower()
        want_shape(t, (s, *dict(quat=(4,), matrix=(3, 3), euler=(3,))[p]), what)
        dict(quat=chk_quat, matrix=chk_mat, euler=lambda t, what, tol: chk_euler(t, what))[p](t, what, 2e-3)
    elif op == "o3.uniform_grid":
        t = get(lambda: f(tuple(s), matrix_only=d["mo"]))
        if d["mo"]:
            want_shape(t, (sum(s), 3, 3), what)
            chk_mat(t, what, 2e-3)
        else:
            want_shape(t, (sum(s), 10), what)
            chk_o3(t, what, 2e-3)
            if int((t[:, 0] == 1).sum()) != s[0]:
                bad(what, f"{int((t[:, 0] == 1).sum())} rotations")
    elif op == "s2.uniform_grid_s2":
        kw = dict(set_alpha_as_neg_gamma=True) if d["neg"] else {}
        t = get(lambda: f(s, d["param"], steps=d["steps"], show_pbar=False, **kw))
        p = d["param"]
        want_shape(t, (s, *dict(spherical=(2,), euclidean=(3,), quat=(4,), matrix=(3, 3), euler=(3,))[p]), what)
        if p == "quat":
            chk_quat(t, what, 1e-4)
        elif p == "matrix":
            chk_mat(t, what, 1e-4)
        elif p == "euclidean":
            e = (t.double().norm(dim=-1) - 1).abs().max().item()
            if not e < 1e-4:
                bad(what, f"not on the sphere (error {e:.3g})")
    elif op == "so3.group":
        f = getattr(w.so3, d["name"], None)
        if f is None:
            return
        n = dict(identity=1, klein_group=4, tetrahedral=12, octahedral=24, icosahedral=60)[d["name"]]
        t = get(f)
        want_shape(t, (n, 4), what)
        group_closed(chk_quat(t, what, 1e-4), what)
    elif op == "so3.cyclic":
        t = get(lambda: f(s, d["axis"]))
        want_shape(t, (s, 4), what)
        group_closed(chk_quat(t, what, 1e-4), what)
    else:
        cfg = d["cfg"]
        fam = cfg["fam"]
        lay = sut(ctx, "build " + cfg["kind"], lambda: build(w, cfg), w, poison=d["poison"])
        g = own_grid(lay)
        chk_fam(fam, g, f"reference grid of {cfg['kind']}{fam}", gk_total(cfg), 2e-3)
        args, H = call_args(lay, cfg, d["call"])
        with torch.set_grad_enabled(not d["call"]["nograd"]):
            y, Ho = sut(ctx, "forward", lambda: forward(lay, args, H), w, **seam)
        n = (default_out(lay, cfg, args) if H is None else H).shape[0]
        chk_fam(fam, Ho.detach(), f"poses returned by {cfg['kind']}{fam} with draws {d['draws']}", n, 4e-3)
        t = Ho
    hit = sum(v for f_, v in ctx.faults.items() if f_.startswith("draw")) > before
    if hit:
        ctx.probes["boundary:" + op] += 1
    ctx.nontrivial |= hit or "random" in op or op == "layer"
    ctx.ev(k, op, sig(t))


def group_closed(M, what):
    distinct(M, what, 1e-2)
    P = (M[:, None] @ M[None]).reshape(-1, 1, 3, 3)
    e = (P - M[None]).abs().amax((-1, -2)).min(-1)[0].max().item()
    if not e < 1e-3:
        bad(what, f"not closed under products (error {e:.3g})")


def chk_fam(fam, g, what, n, tol):
    want_shape(g, (n, *dict(SE2=(1,), E2=(2,), SE3=(3, 3), E3=(10,))[fam]), what)
    if fam == "SE2":
        return
    if fam == "E2":
        chk_coeff(g[:, 0], what)
    elif fam == "SE3":
        chk_mat(g, what, tol)
    else:
        chk_o3(g, what, tol)
