"""C16: point rasterization and rendering equal an exhaustive per-pixel reference."""
import numpy as np
import torch

from pytorch3d.renderer import (AlphaCompositor, NormWeightedCompositor, PointsRasterizationSettings, PointsRasterizer,
                                PointsRenderer)
from pytorch3d.renderer.points.rasterize_points import rasterize_points, rasterize_points_python
from pytorch3d.structures import Pointclouds
from vlib import cams, ref2d
from vlib.core import sub
from vlib.gen import SEED, boolean, d, equal, ints, one_of, rng

PROP = "C16"
RULE = ("Batches of 1-3 clouds (0-20 points: on a lattice, at equal depth, off screen, behind the camera), one radius, a "
        "radius per point (tensor or lists) or a huge one, images of 1-12 pixels a side, 1-6 points per pixel. Oracle: every "
        "pixel against every point in float64. Non-trivial: some pixel is covered.")


def clouds(r, N, P, kind, zkind):
    out = []
    for n in range(N):
        k = int(r.integers(0, P + 1)) if N > 1 else P
        xy = r.integers(-4, 5, (k, 2)) * 0.25 if kind == "lattice" else r.uniform(-1.4, 1.4, (k, 2))
        if zkind == "flat":
            z = np.full((k, 1), 1.5)
        elif zkind == "layers":
            z = r.integers(0, 4, (k, 1)) * 1.0
        elif zkind == "behind":
            z = r.uniform(-1, 3, (k, 1))
        else:
            z = r.uniform(0.2, 5, (k, 1))
        out.append(np.concatenate([xy, z], 1).astype(np.float32))
    if sum(len(c) for c in out) == 0:
        out[0] = np.array([[0.1, -0.2, 1.0]], np.float32)
    return out


def radii(r, form, cl):
    P = max(len(c) for c in cl)
    if form == "float":
        v = float(r.choice([0.05, 0.2, 0.6, 3.0]))
        return v, [np.full(len(c), v) for c in cl]
    R = r.uniform(0.05, 0.8, (len(cl), P)).astype(np.float32)
    if form == "list":
        return R.tolist(), [R[i, :len(c)].astype(np.float64) for i, c in enumerate(cl)]
    return torch.from_numpy(R), [R[i, :len(c)].astype(np.float64) for i, c in enumerate(cl)]


def compare(idx, zbuf, dist, n, pts, rad, off, H, W, tol=1.0):
    """One image against every point.  Returns covered pixels."""
    K = idx.shape[-1]
    pix = ref2d.centres(H, W)
    P = len(pts)
    dd = ((pix[:, :, None] - pts[None, None, :, :2]) ** 2).sum(-1) if P else np.zeros((H, W, 0))
    z = pts[:, 2] if P else np.zeros(0)
    r2 = rad ** 2
    m = (2e-6 * (1 + np.abs(pts[:, :2]).max(-1) if P else 0) + 1e-6 * r2) * tol
    m = m + (1e-5 * np.sqrt(dd) * tol if tol > 1 else 0)
    zm = 1e-5 * tol if tol > 1 else 0.0
    sure = (dd < r2 - m) & (z > zm if tol > 1 else z >= 0)
    maybe = (dd < r2 + m) & (z >= -zm)
    hits = 0
    for y in range(H):
        for x in range(W):
            where = f"cloud {n} pixel ({y},{x})"
            ids = idx[n, y, x]
            k = int((ids >= 0).sum())
            assert (ids[k:] == -1).all() and (zbuf[n, y, x, k:] == -1).all() and (dist[n, y, x, k:] == -1).all(), f"{where}: empty slots"
            f = ids[:k] - off
            assert ((f >= 0) & (f < P)).all(), f"{where}: points {ids} of another cloud"
            assert len(set(f.tolist())) == k, f"{where}: point twice"
            zs = zbuf[n, y, x, :k]
            assert (np.diff(zs) >= 0).all(), f"{where}: depths {zs} are not sorted"
            hits += k > 0
            if k:
                assert maybe[y, x, f].all(), f"{where}: point {f[~maybe[y, x, f]]} does not cover it"
                assert np.abs(zs - z[f]).max() <= 1e-6 + 2e-5 * (tol > 1) * (1 + np.abs(z[f]).max()), f"{where}: depth {zs} instead of {z[f]}"
                e = np.abs(dist[n, y, x, :k] - dd[y, x, f])
                assert (e <= m[y, x, f] if m.ndim == 3 else e <= m[f]).all(), f"{where}: squared distance {dist[n, y, x, :k]} instead of {dd[y, x, f]}"
            last = zs[-1] if k == K else np.inf
            miss = np.setdiff1d(np.nonzero(sure[y, x])[0], f)
            for i in miss:
                assert k == K and z[i] >= last - zm, f"{where}: point {i} at depth {z[i]} is missing (kept {f} at {zs})"
    return hits


CASE = dict(seed=SEED, N=ints(1, 3), P=ints(0, 20), H=ints(1, 12), W=ints(1, 12), square=boolean(), K=ints(1, 6), rad=one_of("float", "tensor", "list"),
            kind=one_of("uniform", "lattice"), z=one_of("any", "flat", "layers", "behind"))


@sub(d(python=ints(0, 9), **CASE), quick=900, thorough=40000)
def naive(case, cx):
    r = rng(case["seed"])
    cl = clouds(r, case["N"], case["P"], case["kind"], case["z"])
    H, W = case["H"], case["H"] if case["square"] else case["W"]
    rad, rads = radii(r, case["rad"], cl)
    if case["N"] == 1 and case["rad"] != "float" and r.random() < 0.5:
        rad = rad[0]
    pc = Pointclouds([torch.from_numpy(c) for c in cl])
    f = rasterize_points
    py = case["python"] == 0 and H * W * sum(map(len, cl)) < 300
    if py:
        cx.label("python")
        f = rasterize_points_python
    size = H if H == W and r.random() < 0.5 else (H, W)
    out = f(pc, size, rad, case["K"])
    idx, zbuf, dist = (o.numpy() for o in out)
    assert idx.shape == zbuf.shape == dist.shape == (case["N"], H, W, case["K"]), "shapes"
    off = hits = 0
    for n, c in enumerate(cl):
        hits += compare(idx, zbuf, dist, n, c.astype(np.float64), rads[n], off, H, W)
        off += len(c)
    cx.trivial(hits == 0)
    cx.label("radius " + case["rad"])


@sub(d(**CASE), quick=300, thorough=10000)
def gradients(case, cx):
    r = rng(case["seed"])
    cl = clouds(r, case["N"], case["P"], case["kind"], case["z"])
    H, W = case["H"], case["H"] if case["square"] else case["W"]
    rad, _ = radii(r, case["rad"], cl)
    P = [torch.from_numpy(c).requires_grad_() for c in cl]
    idx, zbuf, dist = rasterize_points(Pointclouds(P), (H, W), rad, case["K"])
    gz, gd = (torch.from_numpy(r.standard_normal(zbuf.shape)).float() for _ in range(2))
    if r.random() < 0.3:
        gz = gz * 0
    cx.trivial(int((idx >= 0).sum()) == 0)
    got = torch.cat(torch.autograd.grad((gz * zbuf).sum() + (gd * dist).sum(), P)).double()
    pts = torch.from_numpy(np.concatenate(cl)).double()
    want, mag = torch.zeros_like(pts), torch.zeros_like(pts)
    pix = torch.from_numpy(ref2d.centres(H, W))[None, :, :, None].expand(*idx.shape, 2)
    m = idx >= 0
    i = idx[m].long()
    g = torch.cat([2 * (pts[i, :2] - pix[m]) * gd[m].double()[:, None], gz[m].double()[:, None]], 1)
    want.index_add_(0, i, g)
    mag.index_add_(0, i, g.abs())
    assert bool(((got - want).abs() <= 1e-4 * mag + 1e-5).all()), f"gradient {got.tolist()} instead of {want.tolist()}"


@sub(d(seed=SEED, typ=one_of(*cams.TYPES), N=ints(1, 3), P=ints(1, 15), H=ints(2, 10), W=ints(2, 10), K=ints(1, 5), one=boolean(), useK=boolean(),
       rad=one_of("float", "tensor"), comp=one_of("alpha", "norm"), C=ints(1, 5), bg=one_of("none", "list", "tensor", "scalar", "short"),
       where=boolean()), quick=500, thorough=15000)
def renderer(case, cx):
    r = rng(case["seed"])
    N, typ, K, C = case["N"], case["typ"], case["K"], case["C"]
    M = 1 if case["one"] else N
    cam, models, kw = cams.make(r, typ, M, case["useK"], False, "one" if typ.endswith("_s") else None)
    H, W = case["H"], case["W"]
    if typ.endswith("_s"):
        H, W = (int(v) for v in models[0].hw)
        if H * W > 300:
            cx.trivial()
            return
    models = models * N if M == 1 else models
    cl, view = [], []
    for n in range(N):
        P = int(r.integers(0, case["P"] + 1)) if N > 1 else case["P"]
        if n == 0:
            P = max(P, 1)
        # aim at the image: a random ndc and depth, back to the world through the float64 model
        V = np.concatenate([r.uniform(-1, 1, (P, 2)), r.uniform(0.5, 4, (P, 1))], 1)
        K4 = models[n].K
        p = r.uniform(-1.3, 1.3, (P, 2))
        if models[n].screen:
            h, w = models[n].hw
            p = p * (min(h, w) / 2.0) + 2 * models[n].pp() - np.array([w, h]) / 2.0
        A = np.linalg.inv(K4[:2, :2])
        V[:, :2] = ((p - K4[:2, 2]) @ A.T) * V[:, 2:] if K4[3, 2] else (p - K4[:2, 3]) @ A.T
        X = ((V - models[n].T) @ models[n].R.T).astype(np.float32)
        cl.append(X)
        view.append(models[n].view(X.astype(np.float64)))
    feats = [r.standard_normal((len(c), C)).astype(np.float32) for c in cl]
    rad, rads = radii(r, case["rad"], cl)
    if case["rad"] == "float":
        rad = float(r.choice([0.2, 0.5]))
        rads = [np.full(len(c), rad) for c in cl]
    pc = Pointclouds([torch.from_numpy(c) for c in cl], features=[torch.from_numpy(f) for f in feats])
    rs = PointsRasterizationSettings(image_size=(H, W), radius=rad, points_per_pixel=K)
    args = {}
    if case["where"]:
        ras = PointsRasterizer(cam, rs)
    else:
        ras = PointsRasterizer(raster_settings=rs)
        args = dict(cameras=cam)
    frag = ras(pc, **args)
    idx, zbuf, dist = (o.numpy() for o in frag)
    off = hits = 0
    for n in range(N):
        ndc = models[n].ndc(view[n]) if len(view[n]) else np.zeros((0, 3))
        pts = np.concatenate([ndc[:, :2], view[n][:, 2:]], 1)
        hits += compare(idx, zbuf, dist, n, pts, rads[n], off, H, W, tol=100.0)
        off += len(cl[n])
    cx.trivial(hits == 0)
    cx.label(typ)
    bgc = None
    if case["bg"] == "list":
        bgc = [float(v) for v in r.random(C)]
    elif case["bg"] == "tensor":
        bgc = torch.from_numpy(r.random(C)).float()
    elif case["bg"] == "scalar":
        bgc = torch.tensor(0.25)
    elif case["bg"] == "short" and C > 1:
        bgc = [float(v) for v in r.random(C - 1)]
    cls = AlphaCompositor if case["comp"] == "alpha" else NormWeightedCompositor
    if r.random() < 0.5:
        comp, extra = cls(bgc), {}
    else:
        comp, extra = cls(), dict(background_color=bgc)
    img = PointsRenderer(ras, comp)(pc, **args, **extra)
    assert img.shape == (N, H, W, C), f"image of shape {tuple(img.shape)}"
    F = np.concatenate(feats).astype(np.float64)
    R2 = np.concatenate(rads) ** 2
    back = None if bgc is None else np.asarray(bgc, dtype=np.float64)
    if back is not None and back.ndim == 0:
        back = np.full(C, float(back))
    if back is not None and len(back) == C - 1:
        back = np.append(back, 1.0)
    img = img.numpy()
    for n in range(N):
        for y in range(H):
            for x in range(W):
                ids = idx[n, y, x][idx[n, y, x] >= 0]
                if len(ids) == 0:
                    want, weak = np.zeros(C) if back is None else back, 0.0
                else:
                    w = 1 - dist[n, y, x, :len(ids)].astype(np.float64) / R2[ids]
                    if case["comp"] == "alpha":
                        T = np.cumprod(np.append(1.0, 1 - w))[:-1]
                        want, weak = ((T * w)[:, None] * F[ids]).sum(0), 0.0
                    else:
                        want = (w[:, None] * F[ids]).sum(0) / max(w.sum(), 1e-4)
                        weak = 3e-6 * len(ids) / max(w.sum(), 1e-4) * np.abs(F[ids]).max()
                assert np.abs(img[n, y, x] - want).max() < 2e-4 * (1 + np.abs(want).max()) + weak, f"cloud {n} pixel ({y},{x}): colour {img[n, y, x]} instead of {want}"
