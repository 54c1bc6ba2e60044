"""C32: graph convolutions, gather_scatter and vert_align."""
import numpy as np
import torch

from pytorch3d.ops import GraphConv, vert_align
from pytorch3d.ops.graph_conv import gather_scatter, gather_scatter_python
from pytorch3d.structures import Meshes, Pointclouds
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng

PROP = "C32"
RULE = ("Graphs of 0-9 vertices and 0-14 edges (loops, repeated edges, isolated vertices), directed or not, 1-4 features; feature maps of 1-6 pixels a "
        "side, 1-3 maps, meshes, clouds or tensors of different sizes with vertices inside and outside. Oracle: sums over edges, float64 "
        "interpolation, and their derivatives. Non-trivial: some edge / several vertices.")


@sub(d(seed=SEED, V=ints(0, 9), E=ints(0, 14), C=ints(1, 4), O=ints(1, 3), directed=boolean(), init=one_of("normal", "zero"), contiguous=boolean(), bad=ints(0, 15)), quick=500, thorough=40000)
def graph(case, cx):
    r = rng(case["seed"])
    V, E, C, O = (case[k] for k in "VECO")
    E = E if V else 0
    cx.trivial(E == 0)
    e = torch.from_numpy(r.integers(0, max(V, 1), (E, 2)))
    x = torch.from_numpy(r.standard_normal((V, C))).float()
    if not case["contiguous"]:
        e = e.t().contiguous().t()
        x = x.t().contiguous().t()
    A = np.zeros((V, V))
    for a, b in e.tolist():
        A[a, b] += 1
        if not case["directed"]:
            A[b, a] += 1
    w = torch.from_numpy(r.standard_normal((V, C))).float()
    for f in (gather_scatter, gather_scatter_python):
        xx = x.clone().requires_grad_(True)
        if not case["contiguous"]:
            xx = x.clone().t().contiguous().t().requires_grad_(True)
        out = f(xx, e, case["directed"])
        close(out, A @ x.double().numpy(), 1e-4, what="sums over neighbours")
        g, = torch.autograd.grad((out * w).sum(), xx)
        close(g, A.T @ w.double().numpy(), 1e-4, what="gradient of the sums")
        if case["bad"] == 0:
            raises(lambda: f(x[0] if V else x[None], e, case["directed"]), ValueError, what="dimensions of the input")
            raises(lambda: f(x, e.flatten(), case["directed"]), ValueError, what="dimensions of the edges")
            raises(lambda: f(x, torch.zeros(2, 3).long(), case["directed"]), ValueError, what="columns of the edges")
            raises(lambda: f(x.double(), e, case["directed"]), ValueError, what="type of the input")
            raises(lambda: f(x, e.int(), case["directed"]), ValueError, what="type of the edges")
    torch.manual_seed(case["seed"])
    conv = GraphConv(C, O, init=case["init"], directed=case["directed"])
    if case["bad"] == 1:
        raises(lambda: GraphConv(C, O, init="other"), ValueError, what="unknown init")
        assert f"{C} -> {O}" in repr(conv)
    ps = dict(conv.named_parameters())
    assert sorted(ps) == ["w0.bias", "w0.weight", "w1.bias", "w1.weight"]
    if case["init"] == "zero":
        assert not ps["w0.weight"].any() and not ps["w1.weight"].any(), "zero init"
    else:
        assert ps["w0.weight"].abs().max() < 0.1 and not ps["w0.bias"].any() and not ps["w1.bias"].any(), "normal init"
    with torch.no_grad():
        for p in ps.values():
            p.copy_(torch.from_numpy(r.standard_normal(tuple(p.shape))))
    xx = x.clone().requires_grad_(True)
    out = conv(xx, e)
    W = {k: p.detach().double().numpy() for k, p in ps.items()}
    X = x.double().numpy()
    h = X @ W["w1.weight"].T + W["w1.bias"]
    want = X @ W["w0.weight"].T + W["w0.bias"] + A @ h
    assert out.shape == (V, O)
    close(out, want, 1e-3, what="graph convolution")
    u = torch.from_numpy(r.standard_normal((V, O))).float()
    U = u.double().numpy()
    if V:
        gs = torch.autograd.grad((out * u).sum(), [xx, *ps.values()])
        wants = [U @ W["w0.weight"] + A.T @ U @ W["w1.weight"]]
        exp = {"w0.weight": U.T @ X, "w0.bias": U.sum(0), "w1.weight": (A.T @ U).T @ X, "w1.bias": (A.T @ U).sum(0)}
        for g, wnt, name in zip(gs, wants + [exp[k] for k in ps], ["vertices", *ps]):
            close(g, wnt, 1e-3 * (1 + np.abs(wnt).max()), what=f"gradient of {name}")
    else:
        g, = torch.autograd.grad(out.sum(), xx)
        assert g.shape == xx.shape


def source(u, size, align, padding):
    """Position in pixels of the normalised coordinates u."""
    x = (u + 1) / 2 * (size - 1) if align else ((u + 1) * size - 1) / 2
    if padding == "border":
        return np.clip(x, 0, size - 1)
    if padding == "reflection":
        lo, hi = (0, size - 1) if align else (-0.5, size - 0.5)
        if hi == lo:
            return np.zeros_like(x)
        t = np.abs(x - lo) % (2 * (hi - lo))
        x = lo + np.where(t > hi - lo, 2 * (hi - lo) - t, t)
        return np.clip(x, 0, size - 1)
    return x


def pixel(img, x, y):
    H, W = img.shape[1:]
    return img[:, y, x] if 0 <= x < W and 0 <= y < H else np.zeros(img.shape[0])


@sub(d(seed=SEED, N=ints(1, 3), maps=ints(1, 3), cls=one_of("meshes", "clouds", "tensor", "clouds"), packed=boolean(), interp=one_of("bilinear", "bilinear", "nearest", "default"),
       padding=one_of("zeros", "border", "reflection", "default"), align=one_of(True, False, "default"), size=one_of(0.9, 1.5, 3.0), single=boolean(), empty=boolean(), bad=ints(0, 15)), quick=500, thorough=40000)
def align(case, cx):
    r = rng(case["seed"])
    N, cls = case["N"], case["cls"]
    counts = [int(r.integers(0 if case["empty"] else 1, 6)) for _ in range(N)]
    if cls == "tensor":
        counts = [counts[0]] * N
    if not any(counts):
        counts[0] = 3
        if cls == "tensor":
            counts = [3] * N
    cx.trivial(sum(counts) < 2)
    pts = [case["size"] * r.uniform(-1, 1, (n, 3)) for n in counts]
    ts = [torch.from_numpy(p).float() for p in pts]
    feats = [r.standard_normal((N, int(r.integers(1, 4)), int(r.integers(1, 7)), int(r.integers(1, 7)))) for _ in range(case["maps"])]
    ft = [torch.from_numpy(f).float().requires_grad_(True) for f in feats]
    if cls == "tensor":
        arg = torch.stack(ts)
    elif cls == "clouds":
        arg = Pointclouds(ts)
    else:
        arg = Meshes(ts, [torch.zeros(0, 3).long() if n == 0 else torch.zeros(int(r.integers(1, 3)), 3).long() for n in counts])
    kw = {}
    if case["interp"] != "default":
        kw["interp_mode"] = case["interp"]
    if case["padding"] != "default":
        kw["padding_mode"] = case["padding"]
    if case["align"] != "default":
        kw["align_corners"] = case["align"]
    if case["packed"]:
        kw["return_packed"] = True
    single = case["single"] and len(ft) == 1
    if case["bad"] == 0:
        raises(lambda: vert_align(ft[0][0], arg), ValueError, what="dimensions of the features")
        raises(lambda: vert_align([torch.zeros(N + 1, 1, 2, 2)], arg), ValueError, what="batch size")
        raises(lambda: vert_align(ft, ts[0]), ValueError, what="dimensions of the vertices")
        raises(lambda: vert_align(ft, "verts"), ValueError, what="type of the vertices")
    out = vert_align(ft[0] if single else ft, arg, **kw)
    C = sum(f.shape[1] for f in feats)
    interp, padding, al = kw.get("interp_mode", "bilinear"), kw.get("padding_mode", "zeros"), kw.get("align_corners", True)
    cx.label(f"{cls} packed={case['packed']}")
    rows = []
    grads = [np.zeros_like(f) for f in feats]
    wts = [r.standard_normal((n, C)) for n in counts]
    for i in range(N):
        rows.append(np.zeros((counts[i], C)))
        for j, p in enumerate(ts[i].double().numpy()):
            c0 = 0
            for k, f in enumerate(feats):
                img = f[i].astype(np.float32).astype(np.float64)
                H, W = img.shape[1:]
                x, y = source(p[0], W, al, padding), source(p[1], H, al, padding)
                if interp == "nearest":
                    if min(abs(x - np.floor(x) - 0.5), abs(y - np.floor(y) - 0.5)) < 1e-3:
                        return cx.trivial()
                    taps = [(int(np.round(x)), int(np.round(y)), 1.0)]
                else:
                    x0, y0 = int(np.floor(x)), int(np.floor(y))
                    taps = [(x0 + a, y0 + b, (x - x0 if a else 1 - x + x0) * (y - y0 if b else 1 - y + y0)) for a in (0, 1) for b in (0, 1)]
                v = sum(w * pixel(img, a, b) for a, b, w in taps)
                rows[i][j, c0: c0 + len(img)] = v
                for a, b, w in taps:
                    if 0 <= a < W and 0 <= b < H:
                        grads[k][i, :, b, a] += w * wts[i][j, c0: c0 + len(img)]
                c0 += len(img)
    if case["packed"]:
        assert out.shape == (sum(counts), C), f"packed features {tuple(out.shape)} of {counts} vertices"
        close(out, np.concatenate(rows), 1e-4, what="packed features")
        loss = (out * torch.from_numpy(np.concatenate(wts)).float()).sum()
    else:
        assert out.shape == (N, max(counts), C), out.shape
        loss = 0
        for i in range(N):
            close(out[i, : counts[i]], rows[i], 1e-4, what=f"features of element {i}")
            loss = loss + (out[i, : counts[i]] * torch.from_numpy(wts[i]).float()).sum()
    for g, w in zip(torch.autograd.grad(loss, ft), grads):
        close(g, w, 1e-3, what="gradient of the features")
