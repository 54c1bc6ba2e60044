"""C26: nearest neighbours, ball queries and farthest point sampling against exhaustive search."""
import numpy as np
import torch

from pytorch3d.ops import ball_query, knn_gather, knn_points, sample_farthest_points
from pytorch3d.ops.sample_farthest_points import sample_farthest_points_naive
from pytorch3d.ops.utils import masked_gather, wmean
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng

PROP = "C26"
RULE = ("Batches of 1-4 padded clouds of 0-12 points in 1-6 dimensions, on a lattice (many ties) or random, with garbage in the "
        "padding; K below and above the number of points. Oracle: exhaustive float64 search and its derivatives. "
        "Non-trivial: some cloud has at least two points.")


def clouds(r, N, P, D, kind):
    if kind == "lattice":
        p = r.integers(-2, 3, (N, P, D)) * 0.5
    elif kind == "far":
        p = r.standard_normal((N, P, D)) + 50
    else:
        p = r.standard_normal((N, P, D))
    return p.astype(np.float32)


def tensors(r, p, lens, case):
    t = p.copy()
    for i, n in enumerate(lens):
        t[i, n:] = r.choice([0, 1e3, np.nan])
    t = torch.from_numpy(t)
    if case["noncontig"]:
        t = t.permute(2, 0, 1).contiguous().permute(1, 2, 0)
    return t


BASE = dict(seed=SEED, N=ints(1, 4), P1=ints(1, 9), P2=ints(1, 12), D=ints(1, 6), K=ints(1, 8), kind=one_of("random", "lattice", "far"),
            lens=boolean(), noncontig=boolean())


def setup(case):
    r = rng(case["seed"])
    N, P1, P2, D = case["N"], case["P1"], case["P2"], case["D"]
    p1, p2 = clouds(r, N, P1, D, case["kind"]), clouds(r, N, P2, D, case["kind"])
    if r.random() < 0.2:  # the same cloud
        k = min(P1, P2)
        p2[:, :k] = p1[:, :k]
    l1 = r.integers(0, P1 + 1, N) if case["lens"] else np.full(N, P1)
    l2 = r.integers(0, P2 + 1, N) if case["lens"] else np.full(N, P2)
    t1, t2 = tensors(r, p1, l1, case), tensors(r, p2, l2, case)
    kw = dict(lengths1=torch.from_numpy(l1), lengths2=torch.from_numpy(l2)) if case["lens"] else {}
    return r, p1, p2, l1, l2, t1, t2, kw


def dmat(a, b, norm):
    df = a[:, None].astype(np.float64) - b[None].astype(np.float64)
    return np.abs(df).sum(-1) if norm == 1 else (df * df).sum(-1)


def gradient(case, t1, t2, p1, p2, l1, dists, idx, used, norm, r, what):
    """used(n, i) -> number of valid slots."""
    g = torch.from_numpy(r.standard_normal(tuple(dists.shape))).float()
    if case["seed"] % 2:
        g = g.transpose(0, 1).contiguous().transpose(0, 1)
    g1, g2 = torch.autograd.grad((dists * g).sum(), [t1, t2])
    w1, w2 = np.zeros(p1.shape), np.zeros(p2.shape)
    kink1, kink2 = np.zeros(p1.shape, bool), np.zeros(p2.shape, bool)
    for n in range(len(p1)):
        for i in range(l1[n]):
            for k in range(used(n, i)):
                j = int(idx[n, i, k])
                df = p1[n, i].astype(np.float64) - p2[n, j]
                gg = float(g[n, i, k]) * (np.sign(df) if norm == 1 else 2 * df)
                w1[n, i] += gg
                w2[n, j] -= gg
                if norm == 1:
                    kink1[n, i] |= df == 0
                    kink2[n, j] |= df == 0
    s = 2e-5 * (1 + max(np.abs(w1).max(initial=0), np.abs(w2).max(initial=0)))
    assert np.isfinite(g1.numpy()).all() and np.isfinite(g2.numpy()).all(), f"{what}: gradient not finite"
    close(np.where(kink1, 0, g1.numpy()), np.where(kink1, 0, w1), s, what=f"{what}: gradient of the first cloud")
    close(np.where(kink2, 0, g2.numpy()), np.where(kink2, 0, w2), s, what=f"{what}: gradient of the second cloud")


@sub(d(norm=one_of(1, 2, 2), sorted=boolean(), **BASE), quick=600, thorough=40000)
def knn(case, cx):
    r, p1, p2, l1, l2, t1, t2, kw = setup(case)
    K, norm, N = case["K"], case["norm"], case["N"]
    cx.trivial(l2.max() < 2 or l1.max() == 0)
    cx.label("K larger" if K > l2.min() else "K smaller")
    t1.requires_grad_(), t2.requires_grad_()
    out = knn_points(t1, t2, norm=norm, K=K, return_nn=True, return_sorted=case["sorted"], version=int(r.integers(-1, 3)), **kw)
    assert out.dists.shape == out.idx.shape == (N, case["P1"], K) and out.knn.shape == (N, case["P1"], K, case["D"])
    dd, ii, nn = out.dists.detach().numpy(), out.idx.numpy(), out.knn.detach().numpy()
    for n in range(N):
        k = min(K, int(l2[n]))
        full = dmat(p1[n, : l1[n]], p2[n, : l2[n]], norm)
        tol = 2e-6 * (full + 1) * case["D"]
        for i in range(l1[n]):
            w = f"point {i} of cloud {n}"
            sel = ii[n, i, :k]
            assert len(set(sel.tolist())) == k and (sel < l2[n]).all() and (sel >= 0).all(), f"{w}: neighbours {sel} of {l2[n]} points"
            close(dd[n, i, :k], full[i, sel], 2e-6 * (1 + full[i].max(initial=0)) * case["D"], what=f"{w}: distances")
            assert (np.diff(dd[n, i, :k]) >= 0).all() if case["sorted"] else True, f"{w}: not sorted: {dd[n, i, :k]}"
            rest = np.setdiff1d(np.arange(l2[n]), sel)
            if len(rest):
                assert (full[i, rest] >= full[i, sel].max() - 2 * tol[i].max()).all(), f"{w}: {sel} are not the nearest of {full[i]}"
            equal(nn[n, i, :k], p2[n, sel], what=f"{w}: gathered points")
        assert (dd[n, l1[n]:] == 0).all() and (ii[n, l1[n]:] == 0).all(), "padding of points"
        assert (dd[n, :, k:] == 0).all() and (ii[n, :, k:] == 0).all() and (nn[n, :, k:] == 0).all(), "padding of neighbours"
    feats = torch.from_numpy(r.standard_normal((N, case["P2"], 3))).float()
    got = knn_gather(feats, out.idx, kw.get("lengths2")).numpy()
    for n in range(N):
        k = min(K, int(l2[n]))
        want = feats[n][out.idx[n]].numpy().copy()
        want[:, k:] = 0
        equal(got[n], want, what="knn_gather")
    gradient(case, t1, t2, p1, p2, l1, out.dists, ii, lambda n, i: min(K, int(l2[n])), norm, r, "knn")
    if case["seed"] % 7 == 0:
        raises(lambda: knn_points(t1, t2[..., :0], K=1), ValueError, what="dimensions")
        raises(lambda: knn_points(t1, torch.cat([t2, t2]), K=1), ValueError, what="batch")
        raises(lambda: knn_points(t1, t2, K=1, norm=3), ValueError, what="norm")


@sub(d(cube=boolean(), radius=one_of(0.1, 0.5, 0.7, 1.0, 2.0, 10.0), **BASE), quick=500, thorough=30000)
def ball(case, cx):
    r, p1, p2, l1, l2, t1, t2, kw = setup(case)
    K, N, R = case["K"], case["N"], case["radius"]
    t1.requires_grad_(), t2.requires_grad_()
    out = ball_query(t1, t2, K=K, radius=R, skip_points_outside_cube=case["cube"], **kw)
    dd, ii, nn = out.dists.detach().numpy(), out.idx.numpy(), out.knn.detach().numpy()
    assert dd.shape == ii.shape == (N, case["P1"], K) and nn.shape == (N, case["P1"], K, case["D"])
    hits = 0
    counts = {}
    for n in range(N):
        full = dmat(p1[n, : l1[n]], p2[n, : l2[n]], 2)
        for i in range(l1[n]):
            w = f"point {i} of cloud {n}"
            ids = ii[n, i]
            m = int((ids >= 0).sum())
            counts[n, i] = m
            hits += m
            assert (ids[:m] >= 0).all() and (ids[m:] == -1).all() and (dd[n, i, m:] == 0).all() and (nn[n, i, m:] == 0).all(), f"{w}: padding {ids}"
            sel = ids[:m]
            tol = 3e-6 * (1 + full[i]) * case["D"]
            sure, maybe = full[i] < R * R - tol, full[i] < R * R + tol
            assert (np.diff(sel) > 0).all() and (sel < l2[n]).all() and maybe[sel].all(), f"{w}: {sel} are not in the ball: {full[i]}"
            # the first K ones
            last = sel[-1] if m == K else l2[n]
            miss = [j for j in range(int(last)) if sure[j] and j not in sel]
            assert not miss, f"{w}: {miss} are missing in {sel} ({full[i]})"
            close(dd[n, i, :m], full[i, sel], tol.max(initial=0), what=f"{w}: distances")
            equal(nn[n, i, :m], p2[n, sel], what=f"{w}: gathered points")
        assert (ii[n, l1[n]:] == -1).all() and (dd[n, l1[n]:] == 0).all(), "padding of points"
    cx.trivial(hits == 0)
    gradient(case, t1, t2, p1, p2, l1, out.dists, ii, lambda n, i: counts[n, i], 2, r, "ball query")
    equal(masked_gather(t2.detach(), out.idx), out.knn.detach(), what="masked_gather")
    assert ball_query(t1, t2, K=K, radius=R, return_nn=False, **kw).knn is None


@sub(d(seed=SEED, N=ints(1, 4), P=ints(1, 14), D=ints(1, 5), kind=one_of("random", "lattice", "far"), lens=boolean(),
       kform=one_of("int", "list", "tensor", "tensor32"), kmax=ints(0, 16), rand=boolean(), naive=boolean(), dt=one_of("f32", "f64")), quick=500, thorough=30000)
def farthest(case, cx):
    r = rng(case["seed"])
    N, P, D = case["N"], case["P"], case["D"]
    p = clouds(r, N, P, D, case["kind"])
    lens = r.integers(0, P + 1, N) if case["lens"] else np.full(N, P)
    t = tensors(r, p, lens, dict(noncontig=case["seed"] % 2))
    if case["dt"] == "f64":
        t = t.double()
    ks = r.integers(0, case["kmax"] + 1, N) if case["kform"] != "int" else np.full(N, case["kmax"])
    K = {"int": case["kmax"], "list": ks.tolist(), "tensor": torch.from_numpy(ks), "tensor32": torch.from_numpy(ks).int()}[case["kform"]]
    fn = sample_farthest_points_naive if case["naive"] else sample_farthest_points
    torch.manual_seed(case["seed"])
    t.requires_grad_()
    pts, idx = fn(t, K=K, random_start_point=case["rand"], **(dict(lengths=torch.from_numpy(lens)) if case["lens"] else {}))
    mk = int(ks.max())
    assert idx.shape == (N, mk) and pts.shape == (N, mk, D), f"shape {idx.shape}"
    ii, pp = idx.numpy(), pts.detach().numpy()
    cx.trivial(mk < 2 or lens.max() < 2)
    for n in range(N):
        k = int(min(lens[n], ks[n]))
        w = f"cloud {n} of {lens[n]} points, K={ks[n]}"
        assert (ii[n, k:] == -1).all() and (pp[n, k:] == 0).all(), f"{w}: padding {ii[n]}"
        sel = ii[n, :k]
        assert ((sel >= 0) & (sel < lens[n])).all(), f"{w}: {sel}"
        equal(pp[n, :k], p[n, sel].astype(pp.dtype), what=f"{w}: points")
        if k == 0:
            continue
        assert case["rand"] or sel[0] == 0, f"{w}: starts with {sel[0]}"
        q = p[n, : lens[n]]
        full = dmat(q, q, 2)
        best = full[sel[0]].copy()
        for s in sel[1:]:
            assert best[s] >= best.max() - 1e-5 * (1 + best.max()) * D, f"{w}: point {s} at {best[s]} is not the farthest ({best.max()})"
            best = np.minimum(best, full[s])
        if best.max(initial=0) == 0 or len(np.unique(q, axis=0)) == len(q):
            pass
        if len(np.unique(q, axis=0)) == len(q) and case["kind"] != "far":
            assert len(set(sel.tolist())) == k, f"{w}: selected twice: {sel}"
    if mk and N > 0:
        g = torch.from_numpy(r.standard_normal(tuple(pts.shape))).to(pts.dtype)
        (gt,) = torch.autograd.grad((pts * g).sum(), [t])
        want = torch.zeros_like(t)
        for n in range(N):
            for k in range(mk):
                if ii[n, k] >= 0:
                    want[n, ii[n, k]] += g[n, k]
        close(gt, want, 1e-5, what="gradient of the sampled points")
    if case["seed"] % 7 == 0:
        raises(lambda: fn(t, lengths=torch.full((N,), P + 1), K=1), ValueError, what="length")
        raises(lambda: fn(t, lengths=torch.full((N + 1,), P), K=1), ValueError, what="batch of lengths")
        raises(lambda: fn(t, K=[1] * (N + 1)), ValueError, what="batch of K")


@sub(d(seed=SEED, pre=one_of("", "2", "32"), P=ints(1, 6), D=ints(1, 4), w=one_of("none", "full", "zeros", "bcast"), keep=boolean(),
       dim=one_of("default", "two")), quick=200, thorough=8000)
def weighted_mean(case, cx):
    r = rng(case["seed"])
    shape = tuple(int(c) for c in case["pre"])
    P, D = case["P"], case["D"]
    x = torch.from_numpy(r.standard_normal((*shape, P, D))).float()
    w = None
    if case["w"] == "full":
        w = torch.from_numpy(r.random((*shape, P))).float()
    elif case["w"] == "zeros":
        w = torch.from_numpy(r.random((*shape, P)) * (r.random((*shape, 1)) < 0.5)).float()
    elif case["w"] == "bcast" and shape:
        w = torch.from_numpy(r.random((*([1] * len(shape)), P))).float()
    dim = -2 if case["dim"] == "default" or not shape else (-2, -3)
    got = wmean(x, w, dim=dim, keepdim=case["keep"])
    X = x.double()
    W = torch.ones(*shape, P).double() if w is None else w.double().expand(*shape, P)
    den = W[..., None].sum(dim, keepdim=case["keep"])
    if w is not None and case["w"] == "bcast" and shape and dim != -2:
        # the documented formula does not repeat broadcast weights in the denominator
        den = w.double()[..., None].sum(dim, keepdim=case["keep"])
    want = (X * W[..., None]).sum(dim, keepdim=case["keep"]) / den.clamp(1e-9)
    close(got, want, 1e-5, what="weighted mean")
    if shape and P > 1:
        raises(lambda: wmean(x, torch.ones(*shape, P + 1)), ValueError, what="weights")
