"""C15: mesh rasterization equals an exhaustive per-pixel reference, with gradients of the same function."""
import numpy as np
import torch

from pytorch3d.renderer.mesh.rasterize_meshes import rasterize_meshes, rasterize_meshes_python
from pytorch3d.structures import Meshes
from vlib import ref2d
from vlib.core import sub
from vlib.gen import SEED, boolean, d, equal, ints, one_of, rng

PROP = "C15"
RULE = ("Batches of 1-3 meshes (0-10 faces, some sharing vertices, some degenerate, overlapping, partly off screen, behind "
        "the camera or at equal depth), images of 1-12 pixels a side, 1-6 faces per pixel, blur radii from 0 to 0.3, every "
        "combination of the flags. Oracle: every pixel against every face in float64. Non-trivial: some pixel is covered.")


def scene(r, N, F, kind, zkind):
    """N meshes in NDC: vertices (V,3) float32 and faces."""
    vs, fs = [], []
    for i in range(N):
        nf = int(r.integers(0, F + 1)) if N > 1 else F
        nv = max(3, int(r.integers(3, 3 * max(nf, 1) + 1)))
        if kind == "lattice":
            xy = r.integers(-3, 4, (nv, 2)) * 0.5
        elif kind == "small":
            xy = r.uniform(-1.2, 1.2, (1, 2)) + 0.3 * r.standard_normal((nv, 2))
        else:
            xy = r.uniform(-1.6, 1.6, (nv, 2))
        if zkind == "flat":
            z = np.full((nv, 1), 2.0)
        elif zkind == "layers":
            z = r.integers(1, 4, (nv, 1)) * 1.0
        elif zkind == "some_behind":
            z = np.where(r.random((nv, 1)) < 0.15, -1.0, r.uniform(0.3, 5, (nv, 1)))
        else:
            z = r.uniform(0.3, 5, (nv, 1))
        vs.append(np.concatenate([xy, z], 1).astype(np.float32))
        if r.random() < 0.8 and nv >= 3:
            f = np.stack([r.permutation(nv)[:3] for _ in range(nf)]) if nf else np.zeros((0, 3), int)
        else:
            f = r.integers(0, nv, (nf, 3))
        if zkind == "layers" and nf and r.random() < 0.5:
            # faces parallel to the image plane
            v, f2 = [], []
            for k, t in enumerate(f):
                p = vs[-1][t].copy()
                p[:, 2] = p[0, 2]
                v.append(p)
                f2.append([3 * k, 3 * k + 1, 3 * k + 2])
            vs[-1], f = np.concatenate(v), np.array(f2)
        fs.append(np.asarray(f, dtype=np.int64).reshape(-1, 3))
    return vs, fs


def check(out, vs, fs, H, W, K, blur, persp, clipb, cull, cx):
    N = len(vs)
    p2f, zbuf, bary, dist = [np.asarray(o.detach().numpy()) for o in out]
    assert p2f.shape == (N, H, W, K) and zbuf.shape == (N, H, W, K) and dist.shape == (N, H, W, K), "shapes"
    assert bary.shape == (N, H, W, K, 3), "shape of the barycentric coordinates"
    assert p2f.dtype == np.int64, "dtype of pix_to_face"
    off, hits = 0, 0
    for n in range(N):
        nf = len(fs[n])
        tri = vs[n][fs[n]].astype(np.float64) if nf else np.zeros((0, 3, 3))
        ref = ref2d.cover(tri, H, W, blur, persp, clipb, cull)
        hits += ref2d.compare(ref, p2f[n], zbuf[n], bary[n], dist[n], off, nf)
        off += nf
    return hits


CASE = dict(seed=SEED, N=ints(1, 3), F=ints(0, 10), H=ints(1, 12), W=ints(1, 12), square=boolean(), K=ints(1, 6),
            blur=one_of(0.0, 0.0, 0.001, 0.01, 0.05, 0.3), persp=boolean(), clipb=boolean(), cull=boolean(),
            kind=one_of("uniform", "lattice", "small"), z=one_of("any", "flat", "layers", "some_behind"))


def build(case):
    r = rng(case["seed"])
    vs, fs = scene(r, case["N"], case["F"], case["kind"], case["z"])
    H, W = case["H"], case["H"] if case["square"] else case["W"]
    m = Meshes([torch.from_numpy(v) for v in vs], [torch.from_numpy(f) for f in fs])
    if sum(len(f) for f in fs) == 0:
        # a batch without any face has no packed faces
        return r, vs, fs, H, W, None
    return r, vs, fs, H, W, m


@sub(d(threads=ints(1, 9), **CASE), quick=900, thorough=40000)
def naive(case, cx):
    r, vs, fs, H, W, m = build(case)
    cx.trivial(m is None)
    if m is None:
        return
    K, blur = case["K"], case["blur"]
    size = H if H == W and r.random() < 0.5 else (H, W)
    if r.random() < 0.2 and H != W:
        size = [H, W]
    nt = torch.get_num_threads()
    torch.set_num_threads(case["threads"])
    try:
        out = rasterize_meshes(m, size, blur, K, perspective_correct=case["persp"], clip_barycentric_coords=case["clipb"], cull_backfaces=case["cull"])
    finally:
        torch.set_num_threads(nt)
    hits = check(out, vs, fs, H, W, K, blur, case["persp"], case["clipb"], case["cull"], cx)
    cx.trivial(hits == 0)
    cx.label("blur" if blur else "no blur")
    cx.label("covered" if hits else "nothing covered")
    if r.random() < 0.2:
        # the number of threads does not matter at all
        out2 = rasterize_meshes(m, size, blur, K, perspective_correct=case["persp"], clip_barycentric_coords=case["clipb"], cull_backfaces=case["cull"])
        for a, b in zip(out, out2):
            equal(a, b, "result with another number of threads")


@sub(d(**dict(CASE, N=ints(1, 2), F=ints(1, 5), H=ints(1, 4), W=ints(1, 4), K=ints(1, 3))), quick=60, thorough=2000)
def python_version(case, cx):
    r, vs, fs, H, W, m = build(case)
    cx.trivial(m is None)
    if m is None:
        return
    out = rasterize_meshes_python(m, (H, W), case["blur"], case["K"], case["persp"], case["clipb"], case["cull"], cull_to_frustum=False)
    hits = check(out, vs, fs, H, W, case["K"], case["blur"], case["persp"], case["clipb"], case["cull"], cx)
    cx.trivial(hits == 0)


@sub(d(**dict(CASE, F=ints(1, 8), H=ints(1, 8), W=ints(1, 8), K=ints(1, 4))), quick=400, thorough=15000)
def gradients(case, cx):
    r, vs, fs, H, W, m0 = build(case)
    cx.trivial(m0 is None)
    if m0 is None:
        return
    K, blur, persp, clipb = case["K"], case["blur"], case["persp"], case["clipb"]
    if case["z"] == "flat":
        cx.label("flat")
    V = [torch.from_numpy(v).requires_grad_() for v in vs]
    m = Meshes(V, [torch.from_numpy(f) for f in fs])
    p2f, zbuf, bary, dist = rasterize_meshes(m, (H, W), blur, K, perspective_correct=persp, clip_barycentric_coords=clipb, cull_backfaces=case["cull"])
    packed64 = torch.cat([torch.from_numpy(v).double() for v in vs])
    gz, gd = (torch.from_numpy(r.standard_normal(zbuf.shape)).float() for _ in range(2))
    gb = torch.from_numpy(r.standard_normal(bary.shape)).float()
    # some upstream gradients belong to slots without a face: they must not matter
    noise = torch.from_numpy(r.standard_normal(zbuf.shape)).float() * (p2f < 0)
    keep = [r.random() < 0.7 for _ in range(3)]
    for k, g in zip(keep, (gz, gb, gd)):
        g *= float(k)
    want, mag, n = ref2d.grads(packed64, m.faces_packed(), p2f, gz, gb, gd, persp, clipb)
    cx.trivial(n == 0)
    loss = ((gz + noise) * zbuf).sum() + ((gb + noise[..., None]) * bary).sum() + ((gd + noise) * dist).sum()
    got = torch.cat(torch.autograd.grad(loss, V)).double()
    err = (got - want).abs()
    bad = err > 1e-3 * mag + 2e-5 * (1 + mag.max())
    if bool(bad.any()):
        raise AssertionError(f"gradient {got.tolist()} instead of {want.tolist()} (scale {mag.max().item()})")
