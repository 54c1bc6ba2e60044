"""Strategies producing plain data, and the realisation of that data as tensors."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

SEED = st.integers(0, 2**30)


def rng(*key):
    return np.random.default_rng([int(k) & 0xFFFFFFFF for k in key])


def ints(lo, hi):
    return st.integers(lo, hi)


def fl(lo, hi, q=1 / 64):
    """A float on a grid: short in JSON, shrinks well, exact in float32."""
    n_lo, n_hi = math.ceil(lo / q), math.floor(hi / q)
    return st.integers(n_lo, n_hi).map(lambda i: i * q)


def boolean():
    return st.booleans()


def one_of(*xs):
    return st.sampled_from(list(xs))


def d(**kw):
    return st.fixed_dictionaries(kw)


# ---- numbers for tensors -------------------------------------------------

MODES = ("normal", "normal", "uniform", "lattice", "half", "big", "small")


def values(r, shape, mode, dtype=np.float32):
    """Array of the given shape.  lattice/half give many exact ties."""
    if mode == "normal":
        x = r.standard_normal(shape)
    elif mode == "uniform":
        x = r.uniform(-1, 1, shape)
    elif mode == "lattice":
        x = r.integers(-2, 3, shape) * 1.0
    elif mode == "half":
        x = r.integers(-4, 5, shape) * 0.5
    elif mode == "big":
        x = r.standard_normal(shape) * 100.0
    elif mode == "small":
        x = r.standard_normal(shape) * 1e-2
    else:
        raise ValueError(mode)
    return x.astype(dtype)


def T(r, shape, mode="normal", dtype=torch.float32):
    t = torch.from_numpy(np.ascontiguousarray(values(r, shape, mode, np.float64))).to(dtype)
    return layout(r, t)


def layout(r, t):
    """The same tensor, one time in five with another layout in memory."""
    if t.ndim < 2 or r.random() > 0.2:
        return t
    if t.shape[-1] > 1 and r.random() < 0.4:  # a part of wider rows
        return torch.cat([t, t[..., :1]], -1)[..., :-1]
    return t.transpose(0, -1).contiguous().transpose(0, -1)


def rot(r, n=None, dtype=torch.float64):
    """Random rotation matrices (n,3,3), float64, via quaternions (own formula)."""
    k = 1 if n is None else n
    q = r.standard_normal((k, 4))
    q /= np.linalg.norm(q, axis=1, keepdims=True)
    R = quat_to_mat_np(q)
    R = torch.from_numpy(R).to(dtype)
    return R[0] if n is None else R


def quat_to_mat_np(q):
    w, x, y, z = np.moveaxis(np.asarray(q, dtype=np.float64), -1, 0)
    return np.stack(
        [
            np.stack([1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], -1),
            np.stack([2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], -1),
            np.stack([2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)], -1),
        ],
        -2,
    )


def faces_np(r, n_verts, n_faces, distinct=True):
    """Random triangles over n_verts (corner indices distinct unless told otherwise)."""
    if n_faces == 0 or n_verts == 0:
        return np.zeros((0, 3), dtype=np.int64)
    if distinct and n_verts >= 3:
        return np.stack([r.permutation(n_verts)[:3] for _ in range(n_faces)]).astype(np.int64)
    return r.integers(0, n_verts, (n_faces, 3)).astype(np.int64)


# ---- comparisons ----------------------------------------------------------


def f64(x):
    if isinstance(x, torch.Tensor):
        return x.detach().to(torch.float64).cpu()
    return torch.as_tensor(np.asarray(x), dtype=torch.float64)


def close(got, want, atol=1e-5, rtol=1e-5, what="", scale=None):
    """got ~ want elementwise; NaN/inf must agree."""
    got, want = f64(got), f64(want)
    assert tuple(got.shape) == tuple(want.shape), (
        f"{what}: shape {tuple(got.shape)} instead of {tuple(want.shape)}"
    )
    if got.numel() == 0:
        return
    tol = atol + rtol * (want.abs() if scale is None else torch.full_like(want, float(scale)))
    same = (got == want) | (torch.isnan(got) & torch.isnan(want))
    bad = ~same & ~((got - want).abs() <= tol)
    if bool(bad.any()):
        i = tuple(int(v) for v in bad.nonzero()[0])
        raise AssertionError(
            f"{what}: at {i} got {got[i].item()!r}, expected {want[i].item()!r}"
            f" ({int(bad.sum())} of {bad.numel()} differ)"
        )


def equal(got, want, what=""):
    if isinstance(want, (torch.Tensor, np.ndarray)) or isinstance(got, (torch.Tensor, np.ndarray)):
        got, want = torch.as_tensor(got), torch.as_tensor(want)
        assert tuple(got.shape) == tuple(want.shape), (
            f"{what}: shape {tuple(got.shape)} instead of {tuple(want.shape)}"
        )
        ok = (got == want)
        if got.is_floating_point() and want.is_floating_point():
            ok = ok | (torch.isnan(got) & torch.isnan(want))
        if got.numel() and not bool(ok.all()):
            i = tuple(int(v) for v in (~ok).nonzero()[0])
            raise AssertionError(f"{what}: at {i} got {got[i].item()!r}, expected {want[i].item()!r}")
    else:
        assert got == want, f"{what}: got {got!r}, expected {want!r}"


def raises(fn, *types, what=""):
    """fn must raise one of types (a clean rejection)."""
    try:
        out = fn()
    except types:
        return
    raise AssertionError(f"{what}: accepted, returned {str(out)[:200]}")
