"""C35: eigenvectors of symmetric 3x3 matrices, local frames and normals of point clouds."""
import numpy as np
import torch

from pytorch3d.common.workaround import symeig3x3
from pytorch3d.ops import estimate_pointcloud_local_coord_frames, estimate_pointcloud_normals
from pytorch3d.ops.utils import get_point_covariances
from pytorch3d.structures import Pointclouds
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng, rot

PROP = "C35"
RULE = ("Symmetric matrices: random, diagonal, of repeated, zero or negative eigenvalues, of scale 1e-6 to 1e3; 1-3 clouds of 6-20 points (surfaces, "
        "planes, blobs) of scale 1e-3 to 100, K of 3 to 8. Oracle: float64 eigenvalues, residuals and orthonormality, covariances of exhaustive "
        "neighbourhoods. Non-trivial: the matrix is not diagonal / several neighbourhoods.")
SCALE = one_of(1.0, 1.0, 1e-3, 1e-6, 0.05, 100.0, 1e3)




def rotation(r):
    return rot(r, 1)[0].double().numpy()


def unit(x):
    return x / np.linalg.norm(x, axis=-1, keepdims=True)


def symmetric(r, kind, n):
    Q = np.stack([rotation(r) if kind != "diag" else np.eye(3) for _ in range(n)])
    lam = r.standard_normal((n, 3))
    if kind == "twice":
        lam[:, 1] = lam[:, 0]
    elif kind == "thrice":
        lam[:] = lam[:, :1]
    elif kind == "rank1":
        lam[:, 1:] = 0
    elif kind == "rank2":
        lam[:, 2] = 0
    elif kind == "cov":
        lam = np.abs(lam) * np.array([1, 0.5, 0.01])
    elif kind == "near diag":
        lam = r.standard_normal((n, 3))
        A = np.stack([np.diag(x) for x in lam]) + 1e-3 * (lambda e: e + e.transpose(0, 2, 1))(r.standard_normal((n, 3, 3)))
        return A
    return Q.transpose(0, 2, 1) @ (lam[:, :, None] * Q)


def close_eig(vals, vecs, A, tol, what):
    """Eigenvalues ascending and near, eigenvectors orthonormal with small residuals; A is float64 (..., 3, 3)."""
    vals, vecs = vals.double().numpy(), vecs.double().numpy()
    s = np.abs(A).max((-1, -2))
    want = np.linalg.eigvalsh(A)
    bad = np.abs(vals - want).max(-1) > tol * s
    assert not bad.any(), f"{what}: eigenvalues {vals[bad][0]}, expected {want[bad][0]}"
    close(vecs.swapaxes(-1, -2) @ vecs, np.broadcast_to(np.eye(3), vecs.shape), 1e-4, what=f"{what}: orthonormal eigenvectors")
    res = np.abs(A @ vecs - vecs * want[..., None, :]).max((-1, -2))
    bad = res > tol * s
    assert not bad.any(), f"{what}: residual {res[bad][0]} of the eigenvectors {vecs[bad][0].tolist()} of {A[bad][0].tolist()}"


@sub(d(seed=SEED, kind=one_of("random", "diag", "twice", "thrice", "rank1", "rank2", "cov", "near diag"), scale=SCALE, n=one_of(1, 5), dtype=one_of("f32", "f32", "f64"), lead=boolean()), quick=500, thorough=60000)
def symeig(case, cx):
    r = rng(case["seed"])
    A = symmetric(r, case["kind"], case["n"]) * case["scale"]
    cx.label(case["kind"])
    cx.trivial(case["kind"] in ("diag", "thrice"))
    t = torch.from_numpy(A)
    t = t.float() if case["dtype"] == "f32" else t
    t = (t + t.transpose(1, 2)) / 2
    B = t.double().numpy()
    if case["lead"]:
        t = t[None, :, None]
        B = B[None, :, None]
    t.requires_grad_(True)
    vals, vecs = symeig3x3(t)
    assert vals.shape == B.shape[:-1] and vecs.shape == B.shape and vals.dtype == t.dtype and vecs.dtype == t.dtype
    close_eig(vals.detach(), vecs.detach(), B, 2e-3, case["kind"])
    only, none = symeig3x3(t, eigenvectors=False)
    equal(only.detach(), vals.detach(), "eigenvalues without eigenvectors")
    assert none is None
    # d lambda_k = v_k^T dA v_k
    w = torch.from_numpy(r.standard_normal(3)).to(t)
    g, = torch.autograd.grad((vals * w).sum(), t, retain_graph=True)
    assert torch.isfinite(g).all(), "gradient of the eigenvalues"
    gaps = np.diff(np.linalg.eigvalsh(B), axis=-1).min(-1) / np.abs(B).max((-1, -2))
    off = np.abs(B - B * np.eye(3)).max((-1, -2)) / np.abs(B).max((-1, -2))
    ok = (gaps > 0.1) & (off > 0.05)
    if ok.any():
        _, V = np.linalg.eigh(B)
        want = (V * w.double().numpy()) @ V.swapaxes(-1, -2)
        gs = (g + g.transpose(-1, -2)).double().numpy() / 2
        close(gs[ok], want[ok], 2e-2, what="gradient of the eigenvalues")
    g, = torch.autograd.grad((vecs * torch.from_numpy(r.standard_normal(tuple(vecs.shape))).to(t)).sum(), t)
    assert torch.isfinite(g).all(), "gradient of the eigenvectors"
    if case["n"] == 1:
        raises(lambda: symeig3x3(torch.zeros(2, 2)), ValueError, what="shape of the matrix")
        v0, e0 = symeig3x3(torch.zeros(2, 3, 3))
        assert torch.isfinite(v0).all() and v0.abs().max() < 1e-2 and torch.isfinite(e0).all(), "zero matrix"
        close(e0.double().transpose(1, 2) @ e0.double(), np.broadcast_to(np.eye(3), (2, 3, 3)), 1e-4, what="eigenvectors of the zero matrix")


def cloud(r, kind, n):
    x = r.standard_normal((n, 3))
    if kind == "plane":
        x[:, 2] = 0
        x = x @ rotation(r)
    elif kind == "sphere":
        x = unit(x)
    elif kind == "wave":
        x[:, 2] = 0.2 * np.sin(2 * x[:, 0])
        x = x @ rotation(r)
    return x


@sub(d(seed=SEED, N=ints(1, 3), kind=one_of("blob", "plane", "sphere", "wave"), K=ints(3, 8), scale=one_of(1.0, 0.1, 0.01, 1e-3, 10.0, 100.0), off=one_of(0.0, 0.0, 5.0), cls=one_of("tensor", "clouds", "clouds"),
       dis=boolean(), work=one_of(True, True, False)), quick=400, thorough=30000)
def frames(case, cx):
    r = rng(case["seed"])
    N, K, scale = case["N"], case["K"], case["scale"]
    same = case["cls"] == "tensor"
    P = int(r.integers(K + 1, 20))
    xs = [(cloud(r, case["kind"], P if same else int(r.integers(K + 1, 20))) + case["off"] * r.standard_normal(3)) * scale for _ in range(N)]
    ts = [torch.from_numpy(x).float() for x in xs]
    arg = torch.stack(ts) if same else Pointclouds(ts)
    cx.label(case["kind"])
    if r.random() < 0.05:
        k = min(len(x) for x in xs)
        raises(lambda: estimate_pointcloud_normals(arg, neighborhood_size=k), ValueError, what="neighborhood as large as the cloud")
    kw = dict(neighborhood_size=K, disambiguate_directions=case["dis"], use_symeig_workaround=case["work"])
    cur, frame = estimate_pointcloud_local_coord_frames(arg, **kw)
    nrm = estimate_pointcloud_normals(arg, **kw)
    M = max(len(x) for x in xs)
    assert cur.shape == (N, M, 3) and frame.shape == (N, M, 3, 3) and nrm.shape == (N, M, 3)
    assert torch.isfinite(frame).all() and torch.isfinite(cur).all(), "padding"
    padded = torch.zeros(N, M, 3)
    for i, t in enumerate(ts):
        padded[i, : len(t)] = t
    lens = torch.tensor([len(x) for x in xs])
    cov, nn = get_point_covariances(padded, lens, K)
    for i, t in enumerate(ts):
        x = t.double().numpy()
        x = x - x.mean(0)
        n = len(x)
        D = ((x[:, None] - x[None]) ** 2).sum(-1)
        order = np.argsort(D, axis=1, kind="stable")
        ds = np.take_along_axis(D, order, 1)
        # a clear K-th neighbour
        clear = (ds[:, K] - ds[:, K - 1]) > 1e-4 * ds[:, K] + (2e-6 * (np.abs(x).max() + np.abs(xs[i]).max())) * np.sqrt(ds[:, K])
        nb = x[order[:, :K]]
        m = nb.mean(1, keepdims=True)
        C = np.einsum("nka,nkb->nab", nb - m, nb - m) / K
        s = np.abs(C).max((1, 2))
        # coordinates in float32 around an offset
        err = 4e-3 + 4e-7 * np.abs(t.double().numpy()).max() / np.sqrt(s) * 10
        clear &= err < 0.05
        if not clear.any():
            continue
        b = (np.abs(cov[i, :n].double().numpy() - C).max((1, 2)) > err * s) & clear
        assert not b.any(), f"covariance {cov[i, :n][b][0]} of a neighbourhood, expected {C[b][0]}"
        vals, vecs = cur[i, :n].double().numpy(), frame[i, :n].double().numpy()
        want, V = np.linalg.eigh(C)
        b = (np.abs(vals - want).max(1) > err * s) & clear
        assert not b.any(), f"curvatures {vals[b][0]}, expected {want[b][0]}"
        close(vecs.transpose(0, 2, 1) @ vecs, np.broadcast_to(np.eye(3), vecs.shape), 1e-4, what="orthonormal frames")
        b = (np.abs(C @ vecs - vecs * want[:, None]).max((1, 2)) > 3 * err * s) & clear
        assert not b.any(), f"cloud {i}: frame {vecs[b][0].tolist()} is not the one of the principal directions {V[b][0].tolist()} (eigenvalues {want[b][0]})"
        equal(nrm[i, :n], frame[i, :n, :, 0], "normals are the first direction")
        if case["dis"]:
            # most neighbours on the positive side of the point, for normal and main direction
            for k in (0, 2):
                pr = ((nb - x[:, None]) * vecs[:, None, :, k]).sum(-1)
                sure = np.abs(pr[:, 1:]).min(1) > 1e-5 * (np.sqrt(s) + np.abs(t.double().numpy()).max())
                pos = (pr[:, 1:] > 0).sum(1)
                bad = (pos < K / 2) & (K - pos - 1 >= K / 2) & sure & clear
                # the opposite choice would have had enough
                assert not bad.any(), f"direction {k} points away from most neighbours: {pr[bad][0]}"
            close(vecs[:, :, 1], np.cross(vecs[:, :, 0], vecs[:, :, 2]), 1e-4, what="secondary direction")
    if not same:
        pc = Pointclouds(ts)
        if r.random() < 0.5:
            pc.points_packed()
        before = None if r.random() < 0.5 else pc.points_padded()
        pc.estimate_normals(K, case["dis"], assign_to_self=True)
        want = estimate_pointcloud_normals(pc, neighborhood_size=K, disambiguate_directions=case["dis"])
        for i, n in enumerate(lens.tolist()):
            equal(pc.normals_list()[i], want[i, :n], "normals_list after estimate_normals")
        equal(pc.normals_packed(), torch.cat([want[i, :n] for i, n in enumerate(lens.tolist())]), "normals_packed after estimate_normals")
        for i, n in enumerate(lens.tolist()):
            equal(pc.normals_padded()[i, :n], want[i, :n], "normals_padded after estimate_normals")
