"""C34: adding point clouds to volumes."""
import numpy as np
import torch

from pytorch3d.ops import add_pointclouds_to_volumes, add_points_features_to_volume_densities_features
from pytorch3d.structures import Pointclouds, Volumes
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, ints, one_of, raises, rng

PROP = "C34"
RULE = ("1-3 clouds of 0-7 points with 1-3 features, volumes of 1-5 voxels a side of different sizes in a batch, empty or not before; points inside, "
        "on the grid, at the border and outside; masks. Oracle: votes in float64 and their numerical derivatives. Non-trivial: two points vote.")


def votes(p, size, align, splat):
    """[(z, y, x, weight, dweight/dp)] of one point in local coordinates (float64)."""
    size = np.array(size[::-1])
    k = (size - 1) / 2 if align else size / 2
    u = (p + 1) / 2 * (size - 1) if align else (p + 1) / 2 * size - 0.5
    if not splat:
        q = np.round(u).astype(int)
        return [(*q[::-1], 1.0, np.zeros(3))] if ((q >= 0) & (q < size)).all() else []
    lo = np.floor(u).astype(int)
    f = u - lo
    out = []
    for c in range(8):
        b = np.array([c & 1, c >> 1 & 1, c >> 2 & 1])
        q = lo + b
        if ((q < 0) | (q >= size)).any():
            continue
        w = np.where(b, f, 1 - f)
        s = np.where(b, 1.0, -1.0) * k
        out.append((*q[::-1], w.prod(), np.array([s[0] * w[1] * w[2], s[1] * w[0] * w[2], s[2] * w[0] * w[1]])))
    return out


def points(r, n, size, spread, align):
    """Local coordinates, away from positions where the votes are discontinuous or have a kink."""
    size = np.array(size[::-1])
    out = []
    while len(out) < n:
        p = spread * r.uniform(-1, 1, 3)
        u = (p + 1) / 2 * (size - 1) if align else (p + 1) / 2 * size - 0.5
        h = u * 2 - np.round(u * 2)
        if (np.abs(h) < 0.02)[size > 1].any() or (not align and (np.abs(h) < 0.02).any()):
            continue
        out.append(p)
    return np.array(out).reshape(-1, 3)


def reference(pts, feats, dens, vol, sizes, mask, align, splat, rescale, minw):
    D, F = dens.copy(), vol.copy()
    for i in range(len(pts)):
        for p, f, m in zip(pts[i], feats[i], mask[i]):
            if not m:
                continue
            for z, y, x, w, _ in votes(p, sizes[i], align, splat):
                D[i, 0, z, y, x] += w
                F[i, :, z, y, x] += w * f
    if rescale:
        F = F / np.maximum(D, minw if splat else 1.0)
    return F, D


@sub(d(seed=SEED, N=ints(1, 3), P=ints(0, 7), C=ints(1, 3), D=ints(1, 5), H=ints(1, 5), W=ints(1, 5), mode=one_of("trilinear", "trilinear", "nearest"), align=one_of(True, False, "default"),
       rescale=one_of(True, False, "default"), mask=boolean(), sizes=boolean(), init=one_of("zero", "zero", "some", "none"), spread=one_of(0.9, 1.3, 2.5), python=one_of(False, False, False, True), minw=one_of("default", 0.3, 1e-2), bad=ints(0, 15)),
     quick=500, thorough=40000)
def tensors(case, cx):
    r = rng(case["seed"])
    N, P, C, shape = case["N"], case["P"], case["C"], (case["D"], case["H"], case["W"])
    splat = case["mode"] == "trilinear"
    align = True if case["align"] == "default" else case["align"]
    rescale = True if case["rescale"] == "default" else case["rescale"]
    minw = 1e-4 if case["minw"] == "default" else case["minw"]
    sizes = [tuple(int(r.integers(1, s + 1)) for s in shape) for _ in range(N)] if case["sizes"] else [shape] * N
    if case["sizes"]:
        sizes[int(r.integers(N))] = shape
    pts = np.stack([points(r, P, s, case["spread"], align) for s in sizes])
    pts = pts.astype(np.float32)
    feats = r.standard_normal((N, P, C)).astype(np.float32)
    mask = r.random((N, P)) < 0.7 if case["mask"] else np.ones((N, P), dtype=bool)
    cx.trivial(mask.sum() < 2)
    cx.label(f"{case['mode']} {'python' if case['python'] else 'C++'}")
    # votes of a voxel of total weight near zero are divided by the minimum
    dens = np.zeros((N, 1, *shape))
    vol = np.zeros((N, C, *shape))
    if case["init"] == "some":
        dens = r.integers(0, 3, dens.shape).astype(np.float64)
        vol = np.round(r.standard_normal(vol.shape), 2)
    t = lambda a: torch.from_numpy(np.ascontiguousarray(a)).float()
    tp, tf = t(pts).requires_grad_(True), t(feats).requires_grad_(True)
    td = t(dens).requires_grad_(True)
    tv = None if case["init"] == "none" else t(vol).requires_grad_(True)
    kw = {}
    for k, name in (("align", "align_corners"), ("rescale", "rescale_features"), ("minw", "min_weight")):
        if case[k] != "default":
            kw[name] = case[k]
    if case["mask"]:
        kw["mask"] = t(mask)
    if case["sizes"]:
        kw["grid_sizes"] = torch.tensor(sizes)
    if case["python"]:
        kw["_python"] = True
    # the operation writes into its volumes, which must be no leaves
    dd, vv = td * 1, None if tv is None else tv * 1
    if case["bad"] == 0:
        raises(lambda: add_points_features_to_volume_densities_features(tp, tf, dd, vv, mode="other", **kw), ValueError, what="unknown mode")
        raises(lambda: add_points_features_to_volume_densities_features(tp, tf, torch.zeros(N, 2, *shape), vv, **kw), ValueError, what="densities of two channels")
    if case["bad"] == 1 and vv is not None and not case["python"]:
        raises(lambda: add_points_features_to_volume_densities_features(tp, tf, dd, torch.zeros(N, C + 1, *shape), **kw), ValueError, what="channels of the features")
    F, Dn = add_points_features_to_volume_densities_features(tp, tf, dd, vv, mode=case["mode"], **kw)
    wF, wD = reference(pts.astype(np.float64), feats.astype(np.float64), dens, vol, sizes, mask, align, splat, rescale, minw)
    assert F.shape == wF.shape and Dn.shape == wD.shape, (F.shape, Dn.shape)
    close(Dn, wD, 2e-4, what="densities")
    # features of voxels of tiny weight are ill-conditioned, unless they are scaled by the minimum
    tiny = rescale & (wD < 0.02) & (wD > 0.5 * minw) if splat else np.zeros_like(wD, dtype=bool)
    ok = np.broadcast_to(~tiny, wF.shape)
    close(F.detach().double().numpy()[ok], wF[ok], 2e-3 * (1 + (1 / minw * 1e-4 if splat and rescale else 0)), what="features")
    # derivatives, by central differences of the reference
    a, b = r.standard_normal(wF.shape) * ok, r.standard_normal(wD.shape)
    args = [x for x in (tp if splat else None, tf, td, tv) if x is not None]
    gs = dict(zip(map(id, args), torch.autograd.grad((F * t(a)).sum() + (Dn * t(b)).sum(), args, allow_unused=True)))
    if rescale and splat and ((wD < 0.1) & (wD > 0)).any():
        return
    X = dict(p=pts.astype(np.float64), f=feats.astype(np.float64), d=dens, v=vol)

    def value(**q):
        q = {**X, **q}
        F, D = reference(q["p"], q["f"], q["d"], q["v"], sizes, mask, align, splat, rescale, minw)
        return (F * a).sum() + (D * b).sum()

    for name, x in (("p", tp), ("f", tf), ("d", td), ("v", tv)):
        if x is None or id(x) not in gs or not x.numel():
            continue
        g = gs[id(x)]
        g = np.zeros(tuple(x.shape)) if g is None else g.double().numpy()
        if name == "d" and rescale and (np.abs(wD - (minw if splat else 1)) < 1e-3).any():
            continue
        idx = [tuple(int(r.integers(s)) for s in x.shape) for _ in range(4)]
        for q in idx:
            e = np.zeros(tuple(x.shape))
            e[q] = 1e-5
            want = (value(**{name: X[name] + e}) - value(**{name: X[name] - e})) / 2e-5
            close(g[q], want, 2e-2 * (1 + abs(want)), what=f"derivative for {name}{q}")


@sub(d(seed=SEED, N=ints(1, 3), C=ints(1, 3), mode=one_of("trilinear", "trilinear", "nearest"), align=boolean(), python=one_of(False, False, True), vox=one_of(1.0, 0.5, 0.1), twice=boolean(), bad=ints(0, 15)), quick=400, thorough=30000)
def volumes(case, cx):
    """Point clouds in world coordinates added to volumes of different sizes and places; the initial volumes stay as they were."""
    r = rng(case["seed"])
    N, C, align, splat = case["N"], case["C"], case["align"], case["mode"] == "trilinear"
    sizes = [tuple(int(x) for x in r.integers(2, 5, 3)) for _ in range(N)]
    vox = case["vox"]
    tr = np.round(r.standard_normal((N, 3)), 2)
    V = Volumes(densities=[torch.zeros(1, *s) for s in sizes], features=[torch.zeros(C, *s) for s in sizes], voxel_size=vox, volume_translation=torch.from_numpy(-tr).float(), align_corners=align)
    counts = [int(r.integers(0, 6)) for _ in range(N)]
    local = [points(r, n, s, 1.2, align) for n, s in zip(counts, sizes)]
    feats = [r.standard_normal((n, C)) for n in counts]
    if not any(counts):
        local[0], feats[0], counts[0] = points(r, 2, sizes[0], 1.0, align), r.standard_normal((2, C)), 2
    cx.trivial(sum(counts) < 2)
    half = [np.array(s[::-1]) - 1 for s in sizes]
    world = [p * h * vox / 2 + t_ for p, h, t_ in zip(local, half, tr)]
    P = [torch.from_numpy(w).float().requires_grad_(True) for w in world]
    pc = Pointclouds(P, features=[torch.from_numpy(f).float() for f in feats])
    if case["bad"] == 0:
        raises(lambda: add_pointclouds_to_volumes(Pointclouds(P), V), ValueError, what="no features")
        raises(lambda: add_pointclouds_to_volumes(Pointclouds(P + P[:1], features=[torch.zeros(len(p), C) for p in P + P[:1]]), V), ValueError, what="batch size")
    d0, f0 = V.densities().clone(), V.features().clone()
    out = add_pointclouds_to_volumes(pc, V, mode=case["mode"], rescale_features=False, _python=case["python"])
    assert torch.equal(V.densities(), d0) and torch.equal(V.features(), f0), "the initial volumes were changed"
    k = 1
    if case["twice"]:
        out = add_pointclouds_to_volumes(pc, out, mode=case["mode"], rescale_features=False, _python=case["python"])
        k = 2
    assert len(out) == N
    for i in range(N):
        D, F = np.zeros(sizes[i]), np.zeros((C, *sizes[i]))
        for p, f in zip(local[i], feats[i]):
            for z, y, x, w, _ in votes(p, sizes[i], align, splat):
                D[z, y, x] += k * w
                F[:, z, y, x] += k * w * f
        close(out.densities_list()[i][0], D, 1e-3, what=f"densities of volume {i}")
        close(out.features_list()[i], F, 3e-3, what=f"features of volume {i}")
    if splat and not case["twice"]:
        g = torch.autograd.grad(out.densities().sum(), P, allow_unused=True)
        assert all(x is None or torch.isfinite(x).all() for x in g)
    cx.label("python" if case["python"] else "C++")
