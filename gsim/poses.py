"""The simulator's own group mathematics (float64, matrices) and pose generators.

Independent of gconv's group functions: an element of any of the four groups is
represented by its D x D orthogonal matrix.
"""
from __future__ import annotations

import itertools
import math

import torch

FAM = ("SE2", "E2", "SE3", "E3")


def dim(fam):
    return 2 if fam in ("SE2", "E2") else 3


def to_mat(fam, H):
    H = H.detach().to(torch.float64)
    if fam == "SE2":
        t = H.reshape(-1)
        c, s = torch.cos(t), torch.sin(t)
        return torch.stack([torch.stack([c, -s], -1), torch.stack([s, c], -1)], -2)
    if fam == "E2":
        # (c, theta) is R(theta) diag(1, c)
        R = to_mat("SE2", H[:, 1])
        D = torch.diag_embed(torch.stack([torch.ones_like(H[:, 0]), H[:, 0]], -1))
        return R @ D
    if fam == "SE3":
        return H.reshape(-1, 3, 3)
    return H[:, 0].reshape(-1, 1, 1) * H[:, 1:].reshape(-1, 3, 3)


def from_mat(fam, M, dtype=torch.float32):
    M = M.to(torch.float64)
    if fam == "SE2":
        return torch.remainder(torch.atan2(M[:, 1, 0], M[:, 0, 0]), 2 * math.pi).reshape(-1, 1).to(dtype)
    if fam == "E2":
        c = torch.sign(torch.det(M))
        th = torch.remainder(torch.atan2(M[:, 1, 0], M[:, 0, 0]), 2 * math.pi)
        return torch.stack([c, th], -1).to(dtype)
    if fam == "SE3":
        return M.to(dtype)
    c = torch.sign(torch.det(M))
    return torch.cat([c[:, None], (M * c[:, None, None]).reshape(-1, 9)], -1).to(dtype)


def quat_mat(q):
    q = q / q.norm(dim=-1, keepdim=True)
    w, x, y, z = q.unbind(-1)
    return torch.stack([
        torch.stack([1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], -1),
        torch.stack([2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], -1),
        torch.stack([2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)], -1)], -2)


def euler_mat(g):
    """Intrinsic rotation of the library's ZYZ convention, R = Rz' ... (see so3.euler_to_matrix)."""
    a, b, c = g.to(torch.float64).unbind(-1)
    ca, sa, cb, sb, cc, sc = a.cos(), a.sin(), b.cos(), b.sin(), c.cos(), c.sin()
    return torch.stack([
        torch.stack([ca * cb * cc - sa * sc, -ca * sc - cc * cb * sa, cc * sb], -1),
        torch.stack([cc * sa + cb * ca * sc, cc * ca - cb * sa * sc, sc * sb], -1),
        torch.stack([-ca * sb, sb * sa, cb], -1)], -2)


def rand_mats(fam, n, rng, reflect=None):
    """n uniform elements as matrices, from the plan's Rng (not torch's)."""
    out = []
    for i in range(n):
        if dim(fam) == 2:
            t = rng.random() * 2 * math.pi
            m = torch.tensor([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]], dtype=torch.float64)
            ref = fam == "E2" and (rng.random() < 0.5 if reflect is None else reflect[i])
            if ref:
                m = m @ torch.diag(torch.tensor([1.0, -1.0], dtype=torch.float64))
        else:
            q = torch.tensor([rng.gauss(0, 1) for _ in range(4)], dtype=torch.float64)
            m = quat_mat(q)
            ref = fam == "E3" and (rng.random() < 0.5 if reflect is None else reflect[i])
            if ref:
                m = -m
        out.append(m)
    return torch.stack(out) if out else torch.zeros(0, dim(fam), dim(fam), dtype=torch.float64)


def geo(fam, A, B):
    """Pairwise geodesic angle between rotation parts; inf between components."""
    R = A.transpose(-1, -2)[:, None] @ B[None]
    d = torch.det(R)
    if dim(fam) == 2:
        ang = torch.atan2(R[..., 1, 0], R[..., 0, 0]).abs()
    else:
        Rs = R * d.sign()[..., None, None]
        tr = Rs.diagonal(dim1=-2, dim2=-1).sum(-1)
        ang = torch.acos(((tr - 1) / 2).clamp(-1, 1))
    return torch.where(d > 0, ang, torch.full_like(ang, float("inf")))


def geo_rot(A, B):
    """Pairwise rotation angle for rotation matrices (3D), robust near 0."""
    R = A.transpose(-1, -2)[:, None] @ B[None]
    f = (R - torch.eye(R.shape[-1], dtype=R.dtype)).flatten(-2).norm(dim=-1)
    s = f / math.sqrt(8.0) if R.shape[-1] == 3 else f / math.sqrt(8.0) * math.sqrt(2)
    return 2 * torch.asin(s.clamp(0, 1))


def spread_mats(fam, n, rng, min_angle, reflect=None, tries=400):
    """n elements pairwise at least min_angle apart (within a component)."""
    out = []
    t = 0
    while len(out) < n and t < tries:
        t += 1
        r = None if reflect is None else [reflect[len(out)]]
        m = rand_mats(fam, 1, rng, reflect=r)
        if out:
            d = geo(fam, torch.stack(out), m)
            if float(d.min()) < min_angle:
                continue
        out.append(m[0])
    if len(out) < n:
        return None
    return torch.stack(out)


def lattice(fam):
    """All lattice symmetries of the family, as signed permutation matrices."""
    D = dim(fam)
    out = []
    for p in itertools.permutations(range(D)):
        for s in itertools.product((1.0, -1.0), repeat=D):
            m = torch.zeros(D, D, dtype=torch.float64)
            for i in range(D):
                m[i, p[i]] = s[i]
            if fam.startswith("S") and torch.det(m) < 0:
                continue
            out.append(m)
    return out


def move(fam, g, x):
    """(g.x)(p) = x(g^-1 p) on the trailing D axes; coordinates are
    (row, column) in 2D and (last, middle, first axis) in 3D."""
    D = dim(fam)
    nd = x.dim()
    axes = [nd - 2, nd - 1] if D == 2 else [nd - 1, nd - 2, nd - 3]
    # coordinate i of the output equals g applied to the input coordinate:
    # p_out[i] = sum_j g[i, j] p_in[j]; signed permutation
    perm = list(range(nd))
    flips = []
    for i in range(D):
        j = int(g[i].abs().argmax())
        perm[axes[i]] = axes[j]
        if g[i, j] < 0:
            flips.append(axes[i])
    y = x.permute(perm)
    return y.flip(flips).contiguous() if flips else y.contiguous()
