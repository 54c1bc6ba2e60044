"""C07: exponential and logarithm maps of SO(3) and SE(3)."""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from scipy.linalg import expm
from scipy.spatial.transform import Rotation

from pytorch3d.transforms import (
    Transform3d, acos_linear_extrapolation, se3_exp_map, se3_log_map, so3_exp_map, so3_log_map,
    so3_relative_angle, so3_rotation_angle,
)
from pytorch3d.transforms.so3 import hat, hat_inv
from vlib.core import sub
from vlib.gen import SEED, close, d, equal, fl, ints, one_of, raises, rng
from checks.c06_rotations import ROT, rotvec

PROP = "C07"
RULE = ("Batches of 1-3 rotation vectors (axis and angle classes of C06: 0, tiny, random, pi/2, pi and next to pi) "
        "with random translations, float32 and float64; oracle: scipy's matrix exponential, and the two round trips. "
        "Non-trivial: a non-zero angle.")
DTS = one_of("f32", "f64")


def dt_of(case):
    return (torch.float32, 1e-5) if case["dt"] == "f32" else (torch.float64, 1e-9)


def skew(v):
    x, y, z = v
    return np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])


@sub(d(rots=st.lists(ROT, min_size=1, max_size=3), seed=SEED, dt=DTS, k=ints(0, 1)), quick=2000, thorough=50000)
def maps(case, cx):
    r = rng(case["seed"])
    dt, tol = dt_of(case)
    v = np.stack([rotvec(c) for c in case["rots"]])
    ang = np.linalg.norm(v, axis=1)
    cx.trivial(bool((ang == 0).all()))
    for c in case["rots"]:
        cx.label(c["angle"])
    if case["k"]:  # the exponential also takes angles above pi
        v = v * (1 + r.uniform(0, 1.5))
        ang = np.linalg.norm(v, axis=1)
    n = len(v)
    t = r.standard_normal((n, 3)) * 2
    V, T = torch.from_numpy(v).to(dt), torch.from_numpy(t).to(dt)
    want = np.stack([expm(skew(x)) for x in V.double().numpy()])
    R = so3_exp_map(V)
    close(R, torch.from_numpy(want), tol * 3, 0, "so3_exp_map")
    H = hat(V)
    close(H, torch.from_numpy(np.stack([skew(x) for x in V.double().numpy()])), 0, 0, "hat")
    equal(hat_inv(H), V, "hat_inv of hat")
    # SE(3): row-vector convention, exp of [[hat, 0], [u, 1]] transposed
    L = torch.cat([T, V], 1)
    G = se3_exp_map(L)
    ref = []
    for x, u in zip(V.double().numpy(), T.double().numpy()):
        A = np.zeros((4, 4))
        A[:3, :3] = skew(x)
        A[:3, 3] = u
        ref.append(expm(A).T)
    # eps clamps the squared angle at 1e-4, which moves the result by < 1e-5 |u| |v|
    lim = np.where(ang[:, None, None] < 0.011, 2e-5, 0)
    close(G, torch.from_numpy(np.stack(ref)), float(tol * 10 + lim.max() + (2e-4 if dt == torch.float32 and ang.min() < 0.3 else 0)), 0, "se3_exp_map")
    # logarithm: exp(log(.)) is the identity, log(exp(.)) too below pi
    Rr = torch.from_numpy(want).to(dt)
    back = so3_log_map(Rr)
    assert bool(torch.isfinite(back).all()), f"so3_log_map: {back}"
    assert float(back.norm(dim=1).max()) <= math.pi + 1e-4, "so3_log_map: angle above pi"
    close(so3_exp_map(back), want, 30 * tol, 0, "exp(log(R))")
    if (ang < math.pi - 1e-3).all():
        cond = 1 / (math.pi - ang.max())
        close(back, V, 20 * tol * max(1, cond), 0, "log(exp(v))")
        close(se3_log_map(G), L, 100 * tol * max(1, cond) + (3e-4 if dt == torch.float32 else 0), 0, "se3_log(se3_exp)")
    Lb = se3_log_map(G)
    close(se3_exp_map(Lb), G, 100 * tol + (5e-4 if dt == torch.float32 else 0), 0, "se3_exp(se3_log)")
    close(Transform3d(matrix=G).get_se3_log(), Lb, tol, 0, "Transform3d.get_se3_log")
    # rotation angles
    true = np.linalg.norm(Rotation.from_matrix(want).as_rotvec(), axis=1)
    cosv = np.cos(true)
    close(so3_rotation_angle(Rr, cos_angle=True), cosv, 10 * tol, 0, "cosine of the rotation angle")
    inner = np.abs(cosv) < 1 - 2e-4
    got = so3_rotation_angle(Rr).double().numpy()
    assert np.isfinite(got).all()
    if inner.any():
        close(got[inner], true[inner], tol * 10 / 1e-2, 0, "so3_rotation_angle")
    out = ~inner  # extrapolated: within a few hundredths of the truth
    if out.any():
        close(got[out], true[out], 0.025, 0, "so3_rotation_angle near 0 or pi")
    Q = torch.from_numpy(Rotation.from_rotvec(r.standard_normal((n, 3))).as_matrix()).to(dt)
    rel = so3_relative_angle(Rr, Q, cos_angle=True)
    relt = [(np.trace(a @ b.T) - 1) / 2 for a, b in zip(want, Q.double().numpy())]
    close(rel, torch.tensor(relt), 10 * tol, 0, "so3_relative_angle")
    close(so3_relative_angle(Q, Rr, cos_angle=True), rel, 10 * tol, 0, "relative angle is symmetric")
    # left and right invariance
    close(so3_relative_angle(Q @ Rr, Q @ Q, cos_angle=True), so3_relative_angle(Rr, Q, cos_angle=True), 20 * tol, 0, "invariance")


@sub(d(seed=SEED, rots=st.lists(ROT, min_size=1, max_size=3)), quick=500, thorough=10000)
def gradients(case, cx):
    """Finite gradients of all maps, also at the identity; equal to central differences away from pi."""
    r = rng(case["seed"])
    v = np.stack([rotvec(c) for c in case["rots"]])
    t = r.standard_normal((len(v), 3))
    cx.trivial(bool((v == 0).all()))
    L = torch.from_numpy(np.concatenate([t, v], 1)).requires_grad_(True)
    w = torch.from_numpy(r.standard_normal((len(v), 4, 4)))
    f = lambda x: (se3_exp_map(x) * w).sum()
    f(L).backward()
    assert bool(torch.isfinite(L.grad).all()), f"se3_exp_map gradient {L.grad}"
    dirn = torch.from_numpy(r.standard_normal(L.shape))
    h = 1e-6
    num = (f(L.detach() + h * dirn) - f(L.detach() - h * dirn)) / (2 * h)
    lim = 3e-3 if np.linalg.norm(v, axis=1).min() < 0.02 else 1e-5
    close((L.grad * dirn).sum(), num, lim * 10, lim, "gradient of se3_exp_map")
    R = so3_exp_map(torch.from_numpy(v)).detach().requires_grad_(True)
    a = so3_rotation_angle(R)
    a.sum().backward()
    assert bool(torch.isfinite(R.grad).all()), f"so3_rotation_angle gradient {R.grad}"


@sub(d(xs=st.lists(fl(-2, 2), min_size=1, max_size=6), lo=fl(-0.95, 0.5), hi=fl(-0.5, 0.95), near=fl(0, 1)), quick=600, thorough=20000)
def acos(case, cx):
    lo, hi = case["lo"], case["hi"]
    x = np.array(case["xs"] + [1.0, -1.0, 1 - 1e-5, -1 + 1e-5, lo, hi, lo + (hi - lo) * case["near"]])
    X = torch.from_numpy(x).requires_grad_(True)
    if lo > hi:
        return raises(lambda: acos_linear_extrapolation(X, (lo, hi)), ValueError, what="inverted bounds")
    for bounds in ((lo, hi), None):
        l, u = bounds or (-1 + 1e-4, 1 - 1e-4)
        y = acos_linear_extrapolation(X) if bounds is None else acos_linear_extrapolation(X, bounds)
        c = np.clip(x, l, u)
        want = np.arccos(c) - (x - c) / np.sqrt(1 - c * c)
        close(y, torch.from_numpy(want), 1e-9, 1e-9, "acos_linear_extrapolation")
        (g,) = torch.autograd.grad(y.sum(), X)
        close(g, torch.from_numpy(-1 / np.sqrt(1 - c * c)), 1e-8, 1e-8, "its derivative")
    raises(lambda: acos_linear_extrapolation(X, (-1.0, 0.5)), ValueError, what="bound at -1")
    raises(lambda: acos_linear_extrapolation(X, (-0.5, 1.0)), ValueError, what="bound at 1")


@sub(d(seed=SEED, bad=one_of("exp_shape", "log_shape", "trace", "col", "skew", "hat", "se3_dim", "so3_dim", "angle_shape")), quick=100, thorough=1000)
def rejected(case, cx):
    r = rng(case["seed"])
    X = lambda *s: torch.from_numpy(r.standard_normal(s)).float()
    G = torch.eye(4)[None].clone()
    G[0, 0, 3] = 0.5
    f = {"exp_shape": lambda: se3_exp_map(X(2, 5)), "log_shape": lambda: se3_log_map(X(2, 3, 4)), "trace": lambda: so3_rotation_angle(5 * torch.eye(3)[None]),
         "col": lambda: se3_log_map(G), "skew": lambda: hat_inv(torch.eye(3)[None]), "hat": lambda: hat(X(2, 4)),
         "se3_dim": lambda: se3_log_map(X(4, 4)), "so3_dim": lambda: so3_exp_map(X(2, 4)), "angle_shape": lambda: so3_log_map(X(2, 3, 2))}[case["bad"]]
    raises(f, ValueError, what=case["bad"])
