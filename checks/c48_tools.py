"""C48: Implicitron geometry tools: RGB-D point clouds and their rendering, DBIR, camera trajectories, alignment, circles, depth cleanup."""
import math
import warnings

import numpy as np
import torch

from pytorch3d.implicitron.models.model_dbir import ModelDBIR
from pytorch3d.implicitron.models.renderer.base import ImplicitronRayBundle
from pytorch3d.implicitron.tools.camera_utils import apply_camera_alignment, get_min_max_depth_bounds, jitter_extrinsics, volumetric_camera_overlaps
from pytorch3d.implicitron.tools.circle_fitting import fit_circle_in_2d, fit_circle_in_3d, get_rotation_to_best_fit_xy
from pytorch3d.implicitron.tools.config import expand_args_fields
from pytorch3d.implicitron.tools.depth_cleanup import cleanup_eval_depth
from pytorch3d.implicitron.tools.eval_video_trajectory import generate_eval_video_cameras
from pytorch3d.implicitron.tools.point_cloud_utils import get_rgbd_point_cloud, render_point_cloud_pytorch3d
from pytorch3d.implicitron.tools.rasterize_mc import rasterize_mc_samples, rasterize_sparse_ray_bundle
from pytorch3d.implicitron.tools.utils import get_inlier_indicators
from pytorch3d.renderer import PerspectiveCameras
from pytorch3d.structures import Pointclouds
from vlib import cams
from vlib.core import sub
from vlib.gen import SEED, T, boolean, close, d, equal, f64, fl, ints, one_of, raises, rng, rot

PROP = "C48"
RULE = ("random cameras of four types, images of unequal sides, masks, clouds seen from in front and behind, trajectories about random rigs, circles in random planes. Oracle: float64 projection, brute-force compositing of "
        "discs, closed formulas for the curves. Non-trivial: more than one camera or a non-square image (clouds), more than 3 points (circles), a rotated frame (alignment, trajectories).")

expand_args_fields(ModelDBIR)
TYP = one_of("fovp", "persp", "fovo", "ortho")


def pixels(H, W):
    """NDC of the pixel centres, (H, W, 2)."""
    s = min(H, W) / 2.0
    y, x = np.meshgrid((H - 1) / 2.0 - np.arange(H), (W - 1) / 2.0 - np.arange(W), indexing="ij")
    return np.stack([x, y], -1) / s


def draw(ndc, z, feats, H, W, radius, K, bg):
    """Discs composited front to back: (C, H, W) image, depth, mask, and the pixels free of ties."""
    pix = pixels(H, W).reshape(-1, 2)
    C = feats.shape[1]
    img, dep, msk, ok = np.zeros((H * W, C)), np.zeros(H * W), np.zeros(H * W), np.ones(H * W, bool)
    for p in range(H * W):
        d2 = ((ndc - pix[p]) ** 2).sum(-1)
        near = np.nonzero((d2 < radius**2 * 1.001 + 1e-7) & (z > -1e-4))[0]
        if len(near) == 0:
            img[p] = bg
            continue
        i = near[np.argsort(z[near], kind="stable")]
        edge = abs(d2[i] - radius**2) < 2e-3 * radius**2 + 1e-7
        if len(i) > 1 and np.diff(z[i]).min() < 1e-4 or (edge.any() and (len(i) > K or edge.all())) or (abs(z[i]) < 1e-3).any():
            ok[p] = False
            continue
        i = i[d2[i] < radius**2][:K]
        a = 1 - d2[i] / radius**2
        t = np.concatenate([[1.0], np.cumprod(1 - a)[:-1]])
        img[p] = (a * t) @ feats[i]
        dep[p] = (a * t * z[i]).sum()
        msk[p] = 1 - np.prod(1 - a)
    return img.T.reshape(C, H, W), dep.reshape(H, W), msk.reshape(H, W), ok.reshape(H, W)


# ---- RGB-D clouds -------------------------------------------------------------


@sub(d(seed=SEED, typ=TYP, N=ints(1, 3), H=ints(1, 6), W=ints(1, 6), ih=ints(1, 6), iw=ints(1, 6), C=ints(1, 4), euclid=boolean(), mask=boolean(), thr=one_of(0.2, 0.5), same=boolean()), quick=200, thorough=20000)
def rgbd(case, cx):
    """A valid pixel becomes the point at its depth on its ray, with its colour."""
    r = rng(case["seed"])
    N, H, W, C = case["N"], case["H"], case["W"], case["C"]
    ih, iw = (H, W) if case["same"] else (case["ih"], case["iw"])
    euclid = case["euclid"] and case["typ"] in ("fovp", "persp")
    cam, models, _ = cams.make(r, case["typ"], N)
    img = torch.from_numpy(r.random((N, C, ih, iw))).float()
    dep = torch.from_numpy(r.uniform(0.5, 6, (N, 1, H, W)) * (r.random((N, 1, H, W)) < 0.8)).float()
    if r.random() < 0.3:
        dep.reshape(-1)[0] = -1.0
    mask = torch.from_numpy(r.choice([0.0, 0.3, 0.6, 1.0], (N, 1, H, W))).float() if case["mask"] else None
    d0 = dep.clone()
    keep = dep[:, 0] > 0
    if mask is not None:
        keep &= mask[:, 0] > case["thr"]
    cx.trivial(N == 1 and H == W)
    if not keep.any():
        return
    pc = get_rgbd_point_cloud(cam, img, dep, mask, case["thr"], euclidean=euclid)
    equal(dep, d0, what="depth map")
    assert len(pc) == 1 and pc.num_points_per_cloud().tolist() == [int(keep.sum())], ("points", pc.num_points_per_cloud(), int(keep.sum()))
    P, F = f64(pc.points_packed()).numpy(), f64(pc.features_packed()).numpy()
    colours = torch.nn.functional.interpolate(f64(img), size=(H, W), mode="bilinear", align_corners=False).numpy()
    pix = pixels(H, W)
    k = 0
    for b, i, j in np.argwhere(keep.numpy()):
        m, x = models[b], P[k]
        v = m.view(x)
        want = float(dep[b, 0, i, j])
        got = np.linalg.norm(v) if euclid else v[2]
        assert abs(got - want) < 1e-3 * (1 + want), "depth %g of pixel (%d, %d) became %g" % (want, i, j, got)
        e = np.abs(m.ndc(v)[:2] - pix[i, j]).max()
        assert e < 1e-3 * (1 + np.abs(pix[i, j]).max()) * (1 + 1 / max(abs(v[2]), 0.05)), "pixel (%d, %d) of view %d: projection off by %g" % (i, j, b, e)
        assert np.abs(F[k] - colours[b, :, i, j]).max() < 1e-4, "colour of pixel (%d, %d)" % (i, j)
        k += 1


@sub(d(seed=SEED, typ=TYP, P=ints(0, 60), H=ints(1, 16), W=ints(1, 16), C=ints(1, 4), K=ints(1, 6), radius=one_of(0.05, 0.2, 0.5), bg=boolean(), behind=boolean(), bins=one_of(None, 0)), quick=150, thorough=10000)
def cloud_render(case, cx):
    """Rendering of a cloud against brute-force compositing of its discs."""
    r = rng(case["seed"])
    H, W, C, P, K = case["H"], case["W"], case["C"], case["P"], case["K"]
    cam, models, _ = cams.make(r, case["typ"], 1)
    m = models[0]
    V = cams.view_points(r, P, 1.0, 5.0)
    if case["behind"] and P:
        V[r.random(P) < 0.2] *= -1
    X = (V - m.T) @ m.R.T
    feats = r.random((P, C))
    R0, T0 = cam.R.clone(), cam.T.clone()
    if P == 0:
        return
    pc = Pointclouds(points=torch.from_numpy(X).float()[None], features=torch.from_numpy(feats).float()[None])
    bg = [float(x) for x in r.random(C).round(2)] if case["bg"] else None
    img, msk, dep = render_point_cloud_pytorch3d(cam, pc, (H, W), point_radius=case["radius"], topk=K, bg_color=bg, bin_size=case["bins"])
    equal(cam.R, R0, what="rotation of the camera")
    equal(cam.T, T0, what="translation of the camera")
    assert tuple(img.shape) == (1, C, H, W) and tuple(msk.shape) == (1, 1, H, W) and tuple(dep.shape) == (1, 1, H, W), "shapes"
    Vf = m.view(f64(pc.points_packed()).numpy())
    wi, wd, wm, ok = draw(m.ndc(Vf)[:, :2], Vf[:, 2], feats, H, W, case["radius"], K, np.array(bg if bg else [0.0] * C))
    cx.trivial(H == W or not (wm > 0).any())
    for got, want, what in ((img[0], wi, "image"), (dep[0, 0], wd, "depth"), (msk[0, 0], wm, "mask")):
        e = np.abs(f64(got).numpy() - want) * ok
        assert e.max() < 5e-3 / case["radius"] * 0.2 + 1e-3, "%s off by %g" % (what, e.max())


@sub(d(seed=SEED, typ=one_of("fovp", "persp"), N=ints(2, 4), H=ints(2, 12), W=ints(2, 12), own=boolean(), cap=one_of(-1, -1, 5, 1000)), quick=50, thorough=4000)
def dbir(case, cx):
    """Known frames are lifted to a cloud and drawn in each of the other frames, in order."""
    r = rng(case["seed"])
    N, H, W = case["N"], case["H"], case["W"]
    if case["own"]:  # the unseen frames share the cameras of known frames
        base, bm, _ = cams.make(r, case["typ"], N)
        idx = [int(i) for i in r.integers(0, N, N)]
        cam, models = base[idx], [bm[i] for i in idx]
    else:
        cam, models, _ = cams.make(r, case["typ"], N)
    known = r.random(N) < 0.5
    known[int(r.integers(0, N))] = True
    t = int(r.integers(0, N))
    if known.all():
        known[t] = False
    if not known.any():
        return
    types = [str(r.choice(["train", "test"])) + ("_known" if k else "_unseen") for k in known]
    img = torch.from_numpy(r.random((N, 3, H, W))).float()
    dep = torch.from_numpy(r.uniform(1.0, 5, (N, 1, H, W)) * (r.random((N, 1, H, W)) < 0.9)).float()
    fg = torch.from_numpy(r.choice([0.0, 0.4, 0.6, 1.0], (N, 1, H, W), p=[0.1, 0.1, 0.4, 0.4])).float()
    m = ModelDBIR(render_image_width=W, render_image_height=H, bg_color=tuple(float(x) for x in r.random(3).round(2)), max_points=case["cap"])
    kw = dict(camera=cam, image_rgb=img, fg_probability=fg, mask_crop=None, depth_map=dep, sequence_name=["s"] * N, frame_type=types)
    for k in ("image_rgb", "fg_probability", "depth_map"):
        raises(lambda: m(**{**kw, k: None}), ValueError, what="DBIR without " + k)
    valid = (dep[:, 0] > 0) & (fg[:, 0] > 0.5) & torch.from_numpy(known)[:, None, None]
    n = int(valid.sum())
    if n == 0:
        return
    out = m(**kw)
    pc = out["point_cloud"]
    X, F = f64(pc.points_packed()).numpy(), f64(pc.features_packed()).numpy()
    full = n if case["cap"] <= 0 else min(n, case["cap"])
    assert len(X) == full, ("points", len(X), full)
    cx.trivial(H == W)
    # every point is the lifted pixel of its colour
    pix = pixels(H, W)
    where = np.argwhere(valid.numpy())
    src = img.permute(0, 2, 3, 1).numpy().astype(np.float64)[tuple(where.T)]
    used = set()
    for x, f in zip(X, F):
        i = int(np.abs(src - f).sum(1).argmin())
        assert np.abs(src[i] - f).max() < 1e-5 and i not in used, "point of no pixel, or of one already lifted"
        used.add(i)
        b, y, q = where[i]
        v = models[b].view(x)
        assert abs(v[2] - float(dep[b, 0, y, q])) < 1e-3 * (1 + v[2]) and np.abs(models[b].ndc(v)[:2] - pix[y, q]).max() < 2e-3 * (1 + np.abs(pix[y, q]).max()), "point of a pixel"
    rend = out["implicitron_render"]
    targets = [i for i in range(N) if not known[i]]
    assert tuple(rend.image_render.shape) == (len(targets), 3, H, W), "one image for every unseen frame"
    for k, t in enumerate(targets):
        V = models[t].view(X)
        zc = np.where(V[:, 2] >= 0, 1, -1) * np.maximum(np.abs(V[:, 2]), 1e-2)
        if (np.abs(V[:, 2]) < 0.05).any():
            continue
        V[:, 2] = zc
        wi, wd, wm, ok = draw(models[t].ndc(V)[:, :2], V[:, 2], F, H, W, 1e-2, 10, np.array(m.bg_color))
        for got, want, tol in ((rend.image_render[k], np.clip(wi, 0, 1), 0.03), (rend.depth_render[k, 0], wd, 0.2), (rend.mask_render[k, 0], (wm > 1e-4).astype(float), 0.0)):
            soft = ok & ((wm == 0) | (wm > 0.02))
            e = np.abs(f64(got).numpy() - want) * soft
            assert e.max() <= tol, "render of frame %d off by %g" % (t, e.max())


@sub(d(seed=SEED, B=ints(1, 3), P=ints(1, 30), H=ints(1, 12), W=ints(1, 12), C=ints(1, 3), masks=boolean(), mode=one_of("flat", "distinct")), quick=100, thorough=8000)
def samples(case, cx):
    """Sparse samples splatted on an image: constant features come out with their coverage, lone samples where they were taken."""
    r = rng(case["seed"])
    B, P, H, W, C = case["B"], case["P"], case["H"], case["W"], case["C"]
    cx.trivial(B == 1 or H == W)
    pix = pixels(H, W)
    masks = torch.from_numpy((r.random((B, P, 1)) < 0.7)).float() if case["masks"] else None
    if case["mode"] == "flat":  # at most topk samples, all alike
        P = min(P, 5)
        radius = float(r.choice([0.1, 0.3, 0.6]))
        xy = r.uniform(-1, 1, (B, P, 2)) * np.array([max(W / H, 1), max(H / W, 1)])
        f = r.random((B, 1, C)) * np.ones((B, P, 1))
        masks = None
    else:  # samples at distinct pixel centres, discs smaller than pixels
        P = min(P, H * W)
        radius = 1.5 / min(H, W)
        cells = [r.permutation(H * W)[:P] for _ in range(B)]
        xy = np.stack([pix.reshape(-1, 2)[c] for c in cells])
        f = r.random((B, P, C))
        masks = None if masks is None else masks[:, :P]
    got, gm = rasterize_mc_samples(torch.from_numpy(xy).float(), torch.from_numpy(f).float(), (H, W), radius=radius, masks=masks)
    assert tuple(got.shape) == (B, C, H, W) and tuple(gm.shape) == (B, 1, H, W), "shapes"
    for b in range(B):
        if case["mode"] == "flat":
            d2 = ((xy[b][:, None, None] - pix[None]) ** 2).sum(-1)
            a = np.where(d2 < radius**2, 1 - d2 / radius**2, 0)
            cov = 1 - np.prod(1 - a, 0)
            wi, wm = f[b, 0][:, None, None] * cov, cov * cov
        else:
            wi, wm = np.zeros((C, H, W)), np.zeros((H, W))
            keep = np.ones(P) if masks is None else masks[b, :, 0].numpy()
            for k in range(P):
                y, x = divmod(int(cells[b][k]), W)
                wi[:, y, x] = f[b, k]
                wm[y, x] = keep[k]
        e = np.abs(f64(got[b]).numpy() - wi).max()
        assert e < 2e-3, "samples off by %g" % e
        e = np.abs(f64(gm[b, 0]).numpy() - wm).max()
        assert e < 2e-3, "mask off by %g" % e


# ---- depth cleanup -------------------------------------------------------------


@sub(d(seed=SEED, typ=TYP, N=ints(1, 3), H=ints(1, 8), W=ints(1, 8), P=ints(1, 30), sigma=one_of(0.01, 0.05, 0.1)), quick=150, thorough=10000)
def cleanup(case, cx):
    """Exactly the pixels whose depth a point of the cloud confirms are kept."""
    r = rng(case["seed"])
    N, H, W = case["N"], case["H"], case["W"]
    cam, models, _ = cams.make(r, case["typ"], N)
    dep = r.uniform(1.0, 5.0, (N, 1, H, W)).astype(np.float32)
    mask = (r.random((N, 1, H, W)) < 0.8).astype(np.float32)
    mask.reshape(N, -1)[:, 0] = 1
    thr = np.zeros(N)
    for b in range(N):
        w, z = mask[b].ravel().astype(float), dep[b].ravel().astype(float)
        mu = (w * z).sum() / w.sum()
        thr[b] = math.sqrt(max((w * (z - mu) ** 2).sum() / w.sum(), 1e-4)) * case["sigma"]
    clouds = []
    pix = pixels(H, W)
    half = 0.4 * 2 / min(H, W)
    for b in range(N):
        m, pts = models[b], []
        for _ in range(int(r.integers(1, case["P"] + 1))):
            i, j = int(r.integers(0, H)), int(r.integers(0, W))
            z = float(dep[b, 0, i, j]) + r.choice([0.0, 0.5, -0.5, 3.0, -3.0, 20.0]) * thr[b]
            if r.random() < 0.1:  # outside of the image
                q = np.array([5.0, 5.0])
            else:
                q = pix[i, j] + r.uniform(-half, half, 2)
            # invert the projection
            K = m.K
            A = K[:2, :2] / (z if "ortho" not in m.typ and m.typ != "fovo" else 1.0)
            off = K[:2, 2] if "ortho" not in m.typ and m.typ != "fovo" else K[:2, 3]
            xy = np.linalg.solve(A, q - off)
            v = np.array([xy[0], xy[1], z])
            assert np.abs(m.ndc(v)[:2] - q).max() < 1e-6
            pts.append((v - m.T) @ m.R.T)
        clouds.append(torch.tensor(np.array(pts)).float())
    pc = Pointclouds(points=clouds)
    got = cleanup_eval_depth(pc, cam, torch.tensor(dep), torch.tensor(mask), sigma=case["sigma"])
    assert tuple(got.shape) == (N, 1, H, W)
    cx.trivial(N == 1 and H == W)
    for b in range(N):
        sure, maybe = np.zeros((H, W), bool), np.zeros((H, W), bool)
        V = models[b].view(f64(clouds[b]).numpy())
        q = models[b].ndc(V)[:, :2]
        s = min(H, W) / 2.0
        for p in range(len(V)):
            y, x = (H - 1) / 2.0 - q[p, 1] * s, (W - 1) / 2.0 - q[p, 0] * s
            i, j = int(np.rint(y)), int(np.rint(x))
            if not (0 <= i < H and 0 <= j < W):
                continue
            df = abs(float(dep[b, 0, i, j]) - V[p, 2])
            sure[i, j] |= df < thr[b] - 1e-3
            maybe[i, j] |= df < thr[b] + 1e-3
        g = got[b, 0].numpy()
        assert set(np.unique(g)) <= {0.0, 1.0}, "mask values"
        assert (g[sure] == 1).all(), "confirmed depth dropped"
        assert (g[~maybe] == 0).all(), "unconfirmed depth kept"


# ---- cameras -------------------------------------------------------------


@sub(d(seed=SEED, N=ints(1, 4), ang=one_of(0.0, 0.5, 3.0), jit=boolean()), quick=150, thorough=20000)
def alignment(case, cx):
    """Aligned cameras see the aligned and scaled scene as before; jitter is one similarity for all cameras."""
    r = rng(case["seed"])
    N = case["N"]
    R, Tr = rot(r, N), T(r, (N, 3)) * 2
    cx.trivial(N == 1)
    X = r.standard_normal((5, 3))
    C0 = -np.einsum("ni,nji->nj", f64(Tr).numpy(), f64(R).numpy())
    if case["jit"]:
        torch.manual_seed(case["seed"] % 2**31)
        R1, T1 = jitter_extrinsics(R.float(), Tr.float(), max_angle=case["ang"], translation_std=1.0, scale_std=0.5)
        R1n, T1n, Rn = f64(R1).numpy(), f64(T1).numpy(), f64(R).numpy()
        Q = R1n[0] @ Rn[0].T
        assert np.abs(Q @ Q.T - np.eye(3)).max() < 1e-4 and np.linalg.det(Q) > 0, "rotation"
        a = math.acos(np.clip((np.trace(Q) - 1) / 2, -1, 1))
        assert a <= case["ang"] + 5e-3, ("angle of the jitter", a)
        for i in range(N):
            assert np.abs(R1n[i] @ Rn[i].T - Q).max() < 1e-3, "one rotation for all cameras"
        C1 = -np.einsum("ni,nji->nj", T1n, R1n)
        D0, D1 = np.linalg.norm(C0[:, None] - C0[None], axis=-1), np.linalg.norm(C1[:, None] - C1[None], axis=-1)
        if N > 1:
            s = D1[0, 1] / D0[0, 1]
            assert s > 0 and np.abs(D1 - s * D0).max() < 1e-3 * (1 + s) * (1 + D0.max()), "one scale for all cameras"
            # X -> s * (X - ...) rotated: centres move by one similarity
            want = C0 - C0[0]
            assert np.abs((C1 - C1[0]) - s * want @ Q.T).max() < 2e-3 * (1 + s) * (1 + D0.max()), "similarity of the centres"
        torch.manual_seed(case["seed"] % 2**31)
        again = jitter_extrinsics(R.float(), Tr.float(), max_angle=case["ang"], translation_std=1.0, scale_std=0.5)
        equal(again[0], R1, what="seeded jitter")
        raises(lambda: jitter_extrinsics(R.float(), Tr.float(), max_angle=-1.0), AssertionError, what="negative angle")
        return
    A, t = f64(rot(r, N)).numpy(), r.standard_normal((N, 3))
    s = r.uniform(0.3, 3, N)
    M = np.tile(np.eye(4), (N, 1, 1))
    M[:, :3, :3], M[:, 3, :3] = A, t
    R1, T1 = apply_camera_alignment(R.float(), Tr.float(), torch.from_numpy(M).float(), torch.from_numpy(s).float())
    for i in range(N):
        v0 = X @ f64(R[i]).numpy() + f64(Tr[i]).numpy()
        Y = s[i] * (X @ A[i] + t[i])
        v1 = Y @ f64(R1[i]).numpy() + f64(T1[i]).numpy()
        assert np.abs(v1 - s[i] * v0).max() < 1e-4 * (1 + np.abs(v1).max()), "aligned camera %d sees another scene" % i


@sub(d(seed=SEED, typ=TYP, N=ints(1, 4), ext=one_of(0.5, 2.0, 8.0)), quick=100, thorough=10000)
def bounds(case, cx):
    """Depth bounds: distance of the scene centre, plus and minus the extent, always positive."""
    r = rng(case["seed"])
    N = case["N"]
    cam, models, _ = cams.make(r, case["typ"], N)
    cx.trivial(N == 1)
    c = r.uniform(-3, 3, 3)
    if r.random() < 0.2:
        c = -models[0].T @ models[0].R.T
    lo, hi = get_min_max_depth_bounds(cam, torch.from_numpy(c).float(), case["ext"])
    for i, m in enumerate(models):
        D = max(math.sqrt(max(((-m.T @ m.R.T - c) ** 2).sum(), 1e-3)), case["ext"] + 1e-3)
        assert abs(float(lo[i]) - (D - case["ext"])) < 1e-4 * (1 + D) and abs(float(hi[i]) - (D + case["ext"])) < 1e-4 * (1 + D), "bounds of camera %d" % i
        assert float(lo[i]) > 0 and float(hi[i]) > float(lo[i])


@sub(d(seed=SEED, typ=one_of("fovp", "persp"), N=ints(1, 4), res=ints(2, 5), ext=one_of(1.0, 4.0), ang=boolean()), quick=60, thorough=4000)
def overlaps(case, cx):
    """Frustum overlaps against a sum over voxels."""
    r = rng(case["seed"])
    N, n = case["N"], case["res"]
    cam, models, _ = cams.make(r, case["typ"], N)
    c = tuple(float(x) for x in r.uniform(-2, 2, 3))
    got = f64(volumetric_camera_overlaps(cam, scene_extent=case["ext"], scene_center=c, resol=n, weigh_by_ray_angle=case["ang"])).numpy()
    cx.trivial(N == 1)
    a = (np.arange(n) / (n - 1) * 2 - 1) * case["ext"] * (n - 1) / n if n > 1 else np.zeros(1)
    G = np.stack(np.meshgrid(a, a, a, indexing="ij"), -1).reshape(-1, 3) + np.array(c)
    rays, inside = [], []
    for m in models:
        V = m.view(G)
        q = m.ndc(V)
        if (np.abs(V[:, 2]) < 0.05).any() or (np.abs(np.abs(q[:, :2]) - 1) < 1e-4).any():
            return
        ins = (np.abs(q[:, :2]) <= 1).all(-1) & (q[:, 2] > 0)
        if (np.abs(q[:, 2]) < 1e-4).any():
            return
        u = G - (-m.T @ m.R.T)
        rays.append(u / np.linalg.norm(u, axis=-1, keepdims=True) * ins[:, None])
        inside.append(ins.astype(float))
    rays, inside = np.array(rays), np.array(inside)
    inter = n**3 + np.einsum("ivc,jvc->ij", rays, rays) if case["ang"] else inside @ inside.T
    mass = np.diag(inter)
    want = inter / np.maximum(mass[:, None] + mass[None] - inter, 0.1)
    assert np.abs(got - want).max() < 1e-3, "overlap off by %g" % np.abs(got - want).max()


@sub(d(seed=SEED, N=ints(1, 12), D=ints(1, 3), dim=ints(0, 1), rate=one_of(0.0, 0.1, 0.3, 0.5, 0.9)), quick=100, thorough=10000)
def inliers(case, cx):
    """Indicators of the entries extreme in no coordinate."""
    r = rng(case["seed"])
    x = r.permutation(np.arange(case["N"] * case["D"]).astype(float)).reshape(case["N"], case["D"])
    k = int(min(case["rate"], 1.0) * case["N"] / 2)
    cx.trivial(k == 0)
    t = torch.from_numpy(x if case["dim"] == 0 else x.T.copy()).float()
    got = get_inlier_indicators(t, dim=case["dim"], outlier_rate=case["rate"])
    rank = x.argsort(0).argsort(0)
    want = ((rank >= k) & (rank < case["N"] - k)).all(1)
    assert got.dtype == torch.bool and (got.numpy() == want).all(), ("inliers", got, want)


def knot(kind, t, zs=0.5):
    if kind == "figure_eight":
        return np.stack([np.cos(t), np.sin(2 * t) / 2, np.sin(t) * zs], -1)
    if kind == "trefoil_knot":
        return np.stack([np.sin(t) + 2 * np.sin(2 * t), np.cos(t) - 2 * np.cos(2 * t), -np.sin(3 * t) * zs], -1)
    return np.stack([(2 + np.cos(2 * t)) * np.cos(3 * t), (2 + np.cos(2 * t)) * np.sin(3 * t), np.sin(4 * t) * zs], -1)


@sub(d(seed=SEED, kind=one_of("figure_eight", "trefoil_knot", "figure_eight_knot", "circular_lsq_fit", "circular_lsq_fit"), N=ints(3, 9), n=ints(2, 12), scale=one_of(0.2, 1.0, 1.5), time=boolean(), focal=boolean(), infer=boolean(), offset=boolean(),
       local=boolean(), outliers=one_of(0.0, 0.0, 0.5)), quick=150, thorough=10000)
def trajectory(case, cx):
    """Cameras on the documented curve about the training rig, all looking at the scene centre, upright."""
    r = rng(case["seed"])
    N, n, circ = case["N"], case["n"], case["kind"] == "circular_lsq_fit"
    Q = f64(rot(r, 1)[0]).numpy()
    mid = r.uniform(-1, 1, 3)
    rho = r.uniform(2, 4)
    if circ:  # centres on a circle, in order
        th = np.sort(r.uniform(0, 2 * math.pi * 0.9, N)) * r.choice([-1, 1])
        if np.abs(np.diff(th)).min() < 0.05:
            return
        C = mid + rho * (np.cos(th)[:, None] * Q[0] + np.sin(th)[:, None] * Q[1])
    else:
        C = mid + r.standard_normal((N, 3)) @ np.diag([3.0, 2.0, 0.4]) @ Q
    Rs = f64(rot(r, N)).numpy()
    Ts = -np.einsum("ni,nij->nj", C, Rs)
    fl_, pp = r.uniform(1, 2, (N, 2)), r.uniform(-0.3, 0.3, (N, 2))
    f32 = lambda a: torch.from_numpy(np.asarray(a)).float()
    cam = PerspectiveCameras(R=f32(Rs), T=f32(Ts), focal_length=f32(fl_), principal_point=f32(pp))
    centre = mid + r.uniform(-0.5, 0.5, 3) + np.array([0.0, 0.0, 0.0])
    up = r.standard_normal(3)
    up /= np.linalg.norm(up)
    kw = dict(n_eval_cams=n, trajectory_type=case["kind"], trajectory_scale=case["scale"], scene_center=tuple(float(x) for x in centre), up=tuple(float(x) for x in up), infer_up_as_plane_normal=case["infer"])
    t = np.sort(r.uniform(0, 8, n)) if case["time"] else (np.linspace(0, 2 * math.pi, n) if circ else np.linspace(0, 2 * math.pi, n + 1)[:n])
    if case["time"]:
        kw["time"] = f32(t)
    if case["focal"]:
        kw["focal_length"], kw["principal_point"] = f32(r.uniform(1, 2, (n, 2))), f32(r.uniform(-1, 1, (n, 2)))
    off = r.uniform(-1, 1, 3) if case["offset"] else np.zeros(3)
    if case["offset"]:
        kw["traj_offset"] = tuple(float(x) for x in off)
    loc = np.zeros(3)
    if case["local"]:
        loc = r.uniform(-1, 1, 3) if not circ else np.array([0, 0, r.uniform(-1, 1)])
        kw["traj_offset_canonical"] = tuple(float(x) for x in loc)
    keep = np.ones(N, bool)
    if case["outliers"]:
        kw["remove_outliers_rate"] = case["outliers"]
        k = int(case["outliers"] * N / 2)
        rank = C.argsort(0).argsort(0)
        keep = ((rank >= k) & (rank < N - k)).all(1)
        if k == 0:
            keep[:] = True
        if keep.sum() < 3:
            return
    cx.label(case["kind"])
    Ck, Rk, Tk = C[keep], Rs[keep], Ts[keep]
    # the plane of the rig
    w, e = np.linalg.eigh(np.cov(Ck.T))
    if not circ and w[1] - w[0] < 0.3 * w[1] or circ and w[1] < 0.1:
        return
    normal = Q[2] if circ else e[:, 0]
    if abs(normal @ up) < 0.05:
        return
    normal = normal * np.sign(normal @ up)
    if circ:
        u = (Ck[0] - mid) / rho
        path = np.stack([(Ck - mid) @ Q[0], (Ck - mid) @ Q[1]], -1)
        x, y = (path[1:] - path[0]).T
        area = (y[1:] * x[:-1] - x[1:] * y[:-1]).sum() / 2
        if abs(area) < 0.1:
            return
        v = np.cross(Q[2] * np.sign(area), u)
        P = mid + rho * (np.cos(t)[:, None] * u + np.sin(t)[:, None] * v) + loc[2] * normal
        mu = P.mean(0)
        P = (P - mu) * case["scale"] + mu
    else:
        dist = ((Ck - Ck.mean(0)) ** 2).sum(1)
        i = int(dist.argmin())
        if len(dist) > 1 and np.sort(dist)[1] - dist[i] < 1e-3:
            return
        P = knot(case["kind"], t)
        P[:, 2] -= P[:, 2].max()
        P = P * Ck.std(0, ddof=1).mean() * case["scale"] + loc
        P = (P - Tk[i]) @ Rk[i].T
    P = P + off
    want_up = normal if case["infer"] else up
    z = (centre - P) / np.linalg.norm(centre - P, axis=-1, keepdims=True)
    if (np.linalg.norm(centre - P, axis=-1) < 0.3).any() or (np.linalg.norm(np.cross(z, want_up), axis=-1) < 0.1).any():
        return
    got = generate_eval_video_cameras(cam, **kw)
    assert got.R.shape[0] == n, "number of cameras"
    G = f64(got.get_camera_center()).numpy()
    tol = 5e-3 if circ else 2e-3
    assert np.abs(G - P).max() < tol * (1 + np.abs(P).max()), "centres off the curve by %g" % np.abs(G - P).max()
    v = centre @ f64(got.R).numpy() + f64(got.T).numpy()
    assert np.abs(v[:, :2]).max() < 1e-3 * (1 + np.abs(v).max()) and (v[:, 2] > 0).all(), "the scene centre is not straight ahead"
    uv = np.einsum("i,nij->nj", want_up, f64(got.R).numpy())
    assert np.abs(uv[:, 0]).max() < 0.05 and (uv[:, 1] > 0).all(), "the cameras are not upright"
    wf, wp = (f64(kw["focal_length"]).numpy(), f64(kw["principal_point"]).numpy()) if case["focal"] else (fl_[keep].mean(0), pp[keep].mean(0))
    assert np.abs(f64(got.focal_length).numpy() - wf).max() < 1e-4 and np.abs(f64(got.principal_point).numpy() - wp).max() < 1e-4, "intrinsics"
    if case["kind"] != "circular_lsq_fit" and n > 1:
        raises(lambda: generate_eval_video_cameras(cam, **{**kw, "time": torch.zeros(n + 1)}), AssertionError, what="times for other cameras")
    raises(lambda: generate_eval_video_cameras(cam, **{**kw, "trajectory_type": "spiral"}), ValueError, what="unknown trajectory")


# ---- circles -------------------------------------------------------------


@sub(d(seed=SEED, B=ints(0, 4), B2=ints(0, 3), N=ints(3, 8), flat=one_of(0.0, 0.05), give=one_of("none", "keep", "point", "zero")), quick=150, thorough=10000)
def best_plane(case, cx):
    """Rotation of points to their best-fit plane, for every batch shape."""
    r = rng(case["seed"])
    bs = tuple(b for b in (case["B2"], case["B"]) if b)
    n = int(np.prod(bs))
    Q = f64(rot(r, max(n, 1))).numpy()
    x = np.stack([(r.standard_normal((case["N"], 3)) * [2.0, 1.0, case["flat"]]) @ q for q in Q])
    c = r.uniform(-2, 2, (max(n, 1), 1, 3))
    if case["give"] in ("point", "zero"):
        c = np.tile(c[:1] if case["give"] == "point" else 0 * c[:1], (len(x), 1, 1))
    x = x - x.mean(1, keepdims=True) + c
    X = torch.from_numpy(x.reshape(*bs, case["N"], 3))
    C = {"none": None, "keep": torch.from_numpy(c.reshape(*bs, 1, 3)), "point": torch.from_numpy(c[0, 0]), "zero": 0.0}[case["give"]]
    cx.trivial(n < 2)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        R = get_rotation_to_best_fit_xy(X, C)
    assert tuple(R.shape) == (*bs, 3, 3), "shape"
    R = R.numpy().reshape(-1, 3, 3)
    for k in range(len(x)):
        assert np.abs(R[k].T @ R[k] - np.eye(3)).max() < 1e-6 and np.linalg.det(R[k]) > 0, "not a rotation (element %d)" % k
        y = (x[k] - c[k]) @ R[k]
        s = np.linalg.svd(x[k] - c[k], compute_uv=False)
        assert abs((y[:, 2] ** 2).sum() - s[2] ** 2) < 1e-6 * (1 + s[0] ** 2), "plane of element %d is not the best" % k


@sub(d(seed=SEED, N=ints(3, 9), n=ints(0, 8), angles=boolean(), noise=one_of(0.0, 0.0, 0.05), three=boolean(), off=boolean(), cw=boolean()), quick=200, thorough=20000)
def circles(case, cx):
    """Circles through points: centre, radius, generated points from the first point on in the sense of the path."""
    r = rng(case["seed"])
    N = case["N"]
    th = np.sort(r.uniform(0, 6.0, N)) * (-1 if case["cw"] else 1) + r.uniform(0, 6)
    if np.abs(np.diff(th)).min() < 0.1:
        return
    rho, c = r.uniform(0.5, 3), r.uniform(-2, 2, 2)
    p = c + (rho + case["noise"] * r.standard_normal((N, 1))) * np.stack([np.cos(th), np.sin(th)], -1)
    cx.trivial(N == 3)
    kw = {}
    if case["n"]:
        kw["n_points"] = case["n"]
        t = np.linspace(0, 2 * math.pi, case["n"])
    else:
        t = np.zeros(0)
    if case["angles"]:
        t = r.uniform(-7, 7, int(r.integers(1, 5)))
        kw["angles"] = torch.from_numpy(t)
        kw.pop("n_points", None)
    # algebraic least squares
    A = np.concatenate([p, np.ones((N, 1))], 1)
    if np.linalg.svd(A, compute_uv=False)[-1] < 0.05:
        return
    sol = np.linalg.lstsq(A, (p**2).sum(1), rcond=None)[0]
    wc = sol[:2] / 2
    wr = math.sqrt(sol[2] + (wc**2).sum())
    x, y = (p[1:] - p[0]).T
    area = (y[1:] * x[:-1] - x[1:] * y[:-1]).sum() / 2
    if abs(area) < 1e-3:
        return
    raises(lambda: fit_circle_in_2d(torch.from_numpy(p[:2])), ValueError, what="two points")
    g = fit_circle_in_2d(torch.from_numpy(p), **kw)
    close(g.center, torch.from_numpy(wc), 1e-6, what="centre")
    assert abs(float(g.radius) - wr) < 1e-6, "radius"
    if case["noise"] == 0:
        assert np.abs(wc - c).max() < 1e-5 and abs(wr - rho) < 1e-5
    a0 = math.atan2(*(p[0] - wc)[::-1])
    a = a0 + (t if area > 0 else -t)
    want = wc + wr * np.stack([np.cos(a), np.sin(a)], -1)
    assert tuple(g.generated_points.shape) == (len(t), 2)
    close(g.generated_points, torch.from_numpy(want), 1e-6, what="points of the circle")
    if not case["three"]:
        return
    Q, o = f64(rot(r, 1)[0]).numpy(), r.uniform(-3, 3, 3)
    lift = lambda q: q @ Q[:2] + o
    X = lift(p)
    up = r.standard_normal(3)
    h = r.uniform(-1, 1)
    if case["off"] and abs(up @ Q[2]) > 0.1:
        kw["offset"], kw["up"] = torch.tensor([0.0, 0.0, h]).double(), torch.from_numpy(up)
        if len(t):
            raises(lambda: fit_circle_in_3d(torch.from_numpy(X), **{**kw, "up": None}), ValueError, what="offset without up")
    w = np.linalg.svd(p - p.mean(0), compute_uv=False)
    if w[1] < 0.1:
        return
    G = fit_circle_in_3d(torch.from_numpy(X), **kw)
    close(G.center, torch.from_numpy(lift(wc)), 1e-5, what="centre in space")
    assert abs(float(G.radius) - wr) < 1e-5, "radius in space"
    nn = G.normal.numpy()
    assert abs(np.linalg.norm(nn) - 1) < 1e-6 and abs(abs(nn @ Q[2]) - 1) < 1e-5, "normal"
    W3 = lift(want)
    if "offset" in kw:
        W3 = W3 + h * Q[2] * np.sign(up @ Q[2])
    assert tuple(G.generated_points.shape) == (len(t), 3)
    close(G.generated_points, torch.from_numpy(W3), 1e-5, what="points of the circle in space")
