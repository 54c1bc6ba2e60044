"""C28: mesh losses, Laplacians, face areas and normals against their definitions in float64."""
from itertools import combinations

import numpy as np
import torch

from pytorch3d.loss import mesh_edge_loss, mesh_laplacian_smoothing, mesh_normal_consistency
from pytorch3d.ops import cot_laplacian, laplacian, mesh_face_areas_normals, norm_laplacian
from pytorch3d.structures import Meshes
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng, rot

PROP = "C28"
RULE = ("Batches of 1-4 meshes of 3-9 vertices and 0-12 faces: random soups with edges shared by any number of faces, closed surfaces, strips; "
        "isolated vertices; scales 1e-1 to 10. Oracle: the documented sums over edges, pairs of faces and vertices in float64, and their "
        "derivatives. Non-trivial: more than one face.")


def quality(v, f):
    """Smallest sine of an angle of the faces (F,)."""
    e = [v[f[:, (i + 1) % 3]] - v[f[:, i]] for i in range(3)]
    n = np.linalg.norm(np.cross(e[0], e[1]), axis=1)
    le = np.stack([np.linalg.norm(x, axis=1) for x in e], 1)
    return n / np.sort(le, 1)[:, 1:].prod(1).clip(1e-30)


TETRA = np.array([[0, 1, 2], [0, 3, 1], [0, 2, 3], [1, 3, 2]])
OCTA = np.array([[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]])


def mesh(r, kind, size, max_v=9):
    """Vertices and faces which are no slivers."""
    if kind == "tetra":
        v, f = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1.0]]), TETRA
    elif kind == "octa":
        v, f = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1.0]]), OCTA
    elif kind == "strip":
        n = int(r.integers(3, max_v))
        v = np.stack([np.arange(n), np.arange(n) % 2, np.zeros(n)], 1).astype(float)
        f = np.stack([np.arange(n - 2), np.arange(1, n - 1), np.arange(2, n)], 1)
        f[1::2] = f[1::2, ::-1]
    elif kind == "empty":
        return np.zeros((0, 3)), np.zeros((0, 3), dtype=np.int64)
    else:
        n = int(r.integers(3, max_v + 1))
        v = r.standard_normal((n, 3)) * 1.5
        f = np.stack([r.permutation(n)[:3] for _ in range(int(r.integers(1, 13)))])
    v = ((v + r.standard_normal(v.shape) * 0.2) * size + r.standard_normal(3)).astype(np.float32).astype(np.float64)
    if kind == "soup" or r.random() < 0.3:
        p = r.permutation(len(v))
        f = p[f]
        f = np.stack([np.roll(t, k) for t, k in zip(f, r.integers(0, 3, len(f)))])
        if r.random() < 0.5:
            flip = r.random(len(f)) < 0.4
            f[flip] = f[flip, ::-1]
    if r.random() < 0.3 and len(v) < max_v:
        v = np.concatenate([v, v[:1] + size])
    return v, f[quality(v, f) > 0.05]


def edges_of(f):
    return np.unique(np.sort(np.concatenate([f[:, [0, 1]], f[:, [1, 2]], f[:, [2, 0]]]), 1), axis=0).reshape(-1, 2)


KINDS = one_of("soup", "soup", "tetra", "octa", "strip", "mixed", "mixed")


def batch(r, case):
    out = []
    for _ in range(case["N"]):
        k = case["kind"] if case["kind"] != "mixed" else str(r.choice(["soup", "tetra", "octa", "strip", "empty", "empty"]))
        out.append(mesh(r, k, case["size"]))
    return out


def build(data, padded=False):
    vs = [torch.from_numpy(v).float().requires_grad_() for v, _ in data]
    m = Meshes(verts=vs, faces=[torch.from_numpy(np.ascontiguousarray(f)).long().reshape(-1, 3) for _, f in data])
    if padded:
        m.verts_padded(), m.faces_padded()
    return m, vs


def compare(got, want, vs, vd, atol, what):
    got = got.reshape(())
    close(got, want, atol, 1e-4, what=what)
    ga = torch.autograd.grad(got, vs, allow_unused=True)
    gw = torch.autograd.grad(want, vd, allow_unused=True) if isinstance(want, torch.Tensor) and want.requires_grad else [None] * len(vd)
    for i, (a, b, v) in enumerate(zip(ga, gw, vd)):
        a = torch.zeros_like(v) if a is None else a
        b = torch.zeros_like(v) if b is None else b
        close(a, b, 2e-4 * (1 + float(b.abs().max() if b.numel() else 0)), 1e-3, what=f"gradient of {what}, mesh {i}")


@sub(d(seed=SEED, N=ints(1, 4), kind=KINDS, size=one_of(1.0, 0.2, 5.0), target=one_of(0.0, 1.0, 0.3)), quick=400, thorough=30000)
def edge(case, cx):
    r = rng(case["seed"])
    data = batch(r, case)
    m, vs = build(data)
    cx.trivial(sum(len(f) for _, f in data) < 2)
    vd = [v.detach().double().requires_grad_() for v in vs]
    want = 0.0
    for v, (_, f) in zip(vd, data):
        e = edges_of(f)
        if len(e):
            want = want + (((v[e[:, 0]] - v[e[:, 1]]).norm(dim=1) - case["target"]) ** 2).mean() / case["N"]
    got = mesh_edge_loss(m, target_length=case["target"]) if case["target"] else mesh_edge_loss(m)
    compare(got, want, vs, vd, 2e-5 * (1 + case["size"]) ** 2, "edge loss")


@sub(d(seed=SEED, N=ints(1, 4), kind=KINDS, size=one_of(1.0, 0.2, 5.0)), quick=500, thorough=30000)
def normals(case, cx):
    """Mean of 1 - cos over all pairs of faces with a common edge."""
    r = rng(case["seed"])
    data = batch(r, case)
    m, vs = build(data)
    vd = [v.detach().double().requires_grad_() for v in vs]
    want, total = 0.0, 0
    for v, (_, f) in zip(vd, data):
        by_edge = {}
        for i, t in enumerate(f):
            for k in range(3):
                a, b, c = int(t[k]), int(t[(k + 1) % 3]), int(t[(k + 2) % 3])
                by_edge.setdefault((min(a, b), max(a, b)), []).append(c)
        terms = []
        for (a, b), cs in by_edge.items():
            for c0, c1 in combinations(cs, 2):
                n0 = torch.linalg.cross(v[b] - v[a], v[c0] - v[a])
                n1 = -torch.linalg.cross(v[b] - v[a], v[c1] - v[a])
                terms.append(1 - (n0 @ n1) / n0.norm() / n1.norm())
        total += len(terms)
        if terms:
            want = want + torch.stack(terms).mean() / case["N"]
    cx.trivial(total < 2)
    cx.label("shared" if total else "no pairs")
    got = mesh_normal_consistency(m)
    compare(got, want, vs, vd, 2e-5, "normal consistency")


def ref_cot(v, f):
    """Cotangent weights (V, V) and the areas of faces around each vertex."""
    n = len(v)
    W, A = np.zeros((n, n)), np.zeros(n)
    for t in f:
        area = np.linalg.norm(np.cross(v[t[1]] - v[t[0]], v[t[2]] - v[t[0]])) / 2
        for k in range(3):
            a, b, c = t[k], t[(k + 1) % 3], t[(k + 2) % 3]
            cot = (v[b] - v[a]) @ (v[c] - v[a]) / (2 * area)
            W[b, c] += cot / 2
            W[c, b] += cot / 2
            A[a] += area
    return W, A


@sub(d(seed=SEED, N=ints(1, 4), kind=KINDS, size=one_of(1.0, 0.2, 5.0), method=one_of("uniform", "cot", "cotcurv"), bad=ints(0, 20)), quick=600, thorough=40000)
def smoothing(case, cx):
    r = rng(case["seed"])
    data = batch(r, case)
    method = case["method"]
    m, vs = build(data)
    cx.label(method)
    cx.trivial(sum(len(f) for _, f in data) < 2)
    if case["bad"] == 0 and not m.isempty():
        raises(lambda: mesh_laplacian_smoothing(m, method="cotangent"), ValueError, what="unknown method")
    vd = [v.detach().double().requires_grad_() for v in vs]
    want, scale, clear = 0.0, 1.0, True
    if not m.isempty():
        for v, (x, f) in zip(vd, data):
            n = len(x)
            if not n:
                continue
            if method == "uniform":
                L = np.zeros((n, n))
                for a, b in edges_of(f):
                    L[a, b] = L[b, a] = 1
                L = L / L.sum(1, keepdims=True).clip(1)
                # an isolated vertex has the documented row -1 on the diagonal
                L = L - np.eye(n)
            else:
                W, A = ref_cot(x, f)
                W = 2 * W
                s = W.sum(1)
                # weights without a positive sum are not normalised by the code (its tests require so)
                if method == "cot":
                    if (s < 0.05).any():
                        return cx.trivial()
                    L = W / s[:, None] - np.eye(n)
                    scale = max(scale, float(np.abs(L).max()))
                else:
                    L = (W - np.diag(s)) / (4 * np.where(A > 0, A, np.inf))[:, None]
                    scale = max(scale, float(np.abs(L).max()))
            d_ = (torch.from_numpy(L) @ v).norm(dim=1)
            if (d_ < 1e-3 * scale * case["size"]).any() and not (d_ == 0).all():
                clear = False  # the gradient of a vanishing norm is not compared
            want = want + d_.mean() / case["N"]
    got = mesh_laplacian_smoothing(m, method=method)
    if not clear:
        close(got.reshape(()), want, 1e-3 * (1 + float(want)), what=f"{method} smoothing")
    else:
        compare(got, want, vs, vd, 1e-4 * scale * (1 + case["size"]), f"{method} smoothing")


@sub(d(seed=SEED, kind=KINDS, size=one_of(1.0, 0.2, 5.0)), quick=300, thorough=20000)
def matrices(case, cx):
    """laplacian, cot_laplacian and norm_laplacian entry by entry; face areas and normals with their gradients."""
    r = rng(case["seed"])
    v, f = batch(r, dict(case, N=1))[0]
    cx.trivial(len(f) < 2)
    if not len(v):
        return
    n = len(v)
    V, Fc = torch.from_numpy(v).float(), torch.from_numpy(np.ascontiguousarray(f)).long().reshape(-1, 3)
    e = edges_of(f)
    E = torch.from_numpy(e).long()
    A = np.zeros((n, n))
    A[e[:, 0], e[:, 1]] = A[e[:, 1], e[:, 0]] = 1
    want = A / A.sum(1, keepdims=True).clip(1) - np.eye(n)
    close(laplacian(V, E).to_dense(), want, 1e-6, what="laplacian")
    W = np.zeros((n, n))
    ln = np.linalg.norm(v[e[:, 0]] - v[e[:, 1]], axis=1)
    W[e[:, 0], e[:, 1]] = W[e[:, 1], e[:, 0]] = 1 / ln
    close(norm_laplacian(V, E).to_dense(), W, 1e-5, 1e-4, what="norm_laplacian")
    C, ar = ref_cot(v, f)
    got, inv = cot_laplacian(V, Fc)
    close(got.to_dense(), 2 * C, 1e-2 * (1 + np.abs(C).max() * 0.05), 2e-3, what="cot_laplacian")
    close(inv[:, 0], np.where(ar > 0, 1 / np.where(ar > 0, ar, 1), 0), 1e-5, 5e-3, what="inverse areas")
    # areas and normals
    Vg = V.clone().requires_grad_()
    if r.random() < 0.3:
        Vg = V.double().requires_grad_()
    a, nrm = mesh_face_areas_normals(Vg, Fc)
    vd = V.double().requires_grad_()
    c = torch.cross(vd[Fc[:, 1]] - vd[Fc[:, 0]], vd[Fc[:, 2]] - vd[Fc[:, 0]], dim=1)
    l = c.norm(dim=1)
    close(a, l / 2, 1e-5 * case["size"] * (1 + case["size"]), 1e-4, what="areas")
    close(nrm, c / l[:, None], 1e-4 / min(1, case["size"]), what="normals")
    g1, g2 = r.standard_normal(len(f)), r.standard_normal((len(f), 3))
    if len(f):
        ga, = torch.autograd.grad((a * torch.from_numpy(g1).to(a)).sum() + (nrm * torch.from_numpy(g2).to(a)).sum(), Vg)
        gw, = torch.autograd.grad((l / 2 * torch.from_numpy(g1)).sum() + (c / l[:, None] * torch.from_numpy(g2)).sum(), vd)
        close(ga, gw, 1e-4 * (1 + float(gw.abs().max())) / min(1, case["size"]), what="gradient of areas and normals")
    raises(lambda: mesh_face_areas_normals(V[:, :2], Fc), ValueError, what="2D vertices")
    raises(lambda: mesh_face_areas_normals(V, Fc.int()), ValueError, what="int32 faces")
    raises(lambda: mesh_face_areas_normals(V, Fc[:, :2]), ValueError, what="edges for faces")
