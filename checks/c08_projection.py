"""C08: projecting by the documented equations, and unprojecting as its inverse."""
import numpy as np
import torch
from hypothesis import strategies as st

from pytorch3d.renderer.fisheyecameras import FishEyeCameras
from vlib import cams
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, fl, ints, one_of, raises, rng, rot

PROP = "C08"
RULE = ("Batches of 1-3 cameras of each model with random intrinsics (per camera or broadcast, scalars, lists, tensors, "
        "or an explicit matrix with skew), extrinsics and image sizes; points in front of the camera at depth 1-10. "
        "Oracle: the documented equations in float64. Non-trivial: at least one point.")


@sub(d(seed=SEED, typ=one_of(*cams.TYPES), N=ints(1, 3), useK=boolean(), bc=boolean(), P=ints(0, 5), flat=boolean(),
       size=one_of("one", "each"), over=boolean(), RT=boolean()), quick=1500, thorough=50000)
def round_trip(case, cx):
    r = rng(case["seed"])
    N, P, typ = case["N"], case["P"], case["typ"]
    bc = case["bc"] and (case["RT"] or N == 1)
    cam, models, kw = cams.make(r, typ, N, case["useK"], bc, case["size"], RT=case["RT"] or bc)
    cx.trivial(P == 0)
    cx.label(typ)
    assert len(cam) == N, "number of cameras"
    over = {}
    if case["over"]:
        # the same camera given by overriding arguments of a camera with other parameters
        cam2, models2, kw2 = cams.make(r, typ, N, case["useK"], False, case["size"])
        over = {k: v for k, v in kw2.items() if torch.is_tensor(v) and k != "image_size"}
        if kw2.get("degrees", 0) != kw.get("degrees", 0):
            over["degrees"] = kw2["degrees"]
        names = {"fovp": ["znear", "zfar", "aspect_ratio", "fov"], "fovo": ["znear", "zfar", "max_x", "min_x", "max_y", "min_y", "scale_xyz"]}.get(typ, ["focal_length", "principal_point"])
        ok = all(torch.is_tensor(kw2.get(k)) and not (k == "focal_length" and kw2[k].ndim == 2 and kw2[k].shape[1] == 1) for k in names)
        if case["useK"] or ok:
            for i, m in enumerate(models2):
                m.hw = models[i].hw
            models = models2
            cx.label("override")
        else:
            over = {}
    V = np.stack([cams.view_points(r, P) for _ in range(N)]) if P else np.zeros((N, 0, 3))
    X = np.stack([(V[i] - m.T) @ m.R.T for i, m in enumerate(models)])
    flat = case["flat"] and N == 1
    Xt = torch.from_numpy(X).float()
    if flat:
        Xt = Xt[0]
    elif case["flat"]:
        # one set of points for all cameras
        V = np.stack([m.view(X[0]) for m in models])
        if (np.abs(V[..., 2]) < 0.3).any():
            V = None
        else:
            X = np.stack([X[0]] * N)
            Xt = Xt[0]
    if V is None:
        cx.trivial()
        return
    shaped = lambda a: a[0] if flat else a
    want = np.stack([m.proj(V[i]) for i, m in enumerate(models)])
    ndc = np.stack([m.ndc(V[i]) for i, m in enumerate(models)])
    scr = np.stack([m.screen_xy(V[i]) for i, m in enumerate(models)])
    tol = dict(atol=2e-4, rtol=2e-4)
    big = dict(atol=2e-3, rtol=2e-4)
    got = cam.transform_points(Xt, **over)
    close(got, shaped(want), what="transform_points", **(big if typ.endswith("_s") else tol))
    g_ndc = cam.transform_points_ndc(Xt, **over)
    close(g_ndc, shaped(ndc), what="transform_points_ndc", **tol)
    hw = torch.tensor([m.hw for m in models])
    skw = dict(over) if typ.endswith("_s") or (typ in ("persp", "ortho") and r.random() < 0.5) else dict(over, image_size=hw)
    close(cam.transform_points_screen(Xt, **skw), shaped(scr), what="transform_points_screen", **big)
    noflip = np.stack([m.screen_xy(V[i], False) for i, m in enumerate(models)])
    close(cam.transform_points_screen(Xt, with_xyflip=False, **skw), shaped(noflip), what="transform_points_screen without flip", **big)
    view = cam.get_world_to_view_transform(**{k: v for k, v in over.items() if k in "RT"}).transform_points(Xt)
    close(view, shaped(V), what="world to view", atol=1e-4, rtol=1e-5)
    if P == 0:
        return
    # and back
    Xb = torch.from_numpy(shaped(X)).float()
    depth = torch.from_numpy(shaped(V[..., 2:])).float()
    cond = 1 + max(np.abs(np.linalg.inv(m.K[:, [0, 1, 2, 3]])).max() for m in models)
    rt = dict(atol=5e-4 * cond, rtol=1e-3)
    for world in (True, False):
        ref = Xb if world else torch.from_numpy(shaped(V)).float()
        xyd = torch.cat([got[..., :2], depth], -1)
        keep = xyd.clone()
        close(cam.unproject_points(xyd, world_coordinates=world, **over), ref, what=f"unproject world={world}", **rt)
        equal(xyd, keep, "unproject changed its input")
        if typ.startswith("fov"):
            close(cam.unproject_points(got, world_coordinates=world, scaled_depth_input=True, **over), ref, what="unproject scaled depth", **rt)
        else:
            xyn = torch.cat([g_ndc[..., :2], depth], -1)
            close(cam.unproject_points(xyn, world_coordinates=world, from_ndc=True, **over), ref, what=f"unproject from ndc world={world}", **rt)


@sub(d(seed=SEED, N=ints(1, 3), P=ints(1, 4), M=ints(1, 3), dims=ints(0, 2), radial=one_of(True, True, True, False), tang=boolean(), prism=boolean(),
       centre=boolean(), neg=boolean(), world=boolean()), quick=400, thorough=8000)
def fisheye(case, cx):
    r = rng(case["seed"])
    N, P, M = case["N"], case["P"], case["M"]
    f, c = r.uniform(0.5, 300, (N, 1)), r.uniform(-100, 200, (N, 2))
    k, p, s = r.uniform(-1, 1, (N, 6)) * 0.02, r.uniform(-1, 1, (N, 2)) * 0.01, r.uniform(-1, 1, (N, 4)) * 0.01
    t = lambda a: torch.from_numpy(np.asarray(a)).float()
    R, T = rot(r, N).float(), t(r.uniform(-2, 2, (N, 3)))
    world = case["world"] and N == 1
    cam = FishEyeCameras(focal_length=t(f), principal_point=t(c), radial_params=t(k), tangential_params=t(p), thin_prism_params=t(s),
                         R=R, T=T, world_coordinates=world, use_radial=case["radial"], use_tangential=case["tang"], use_thin_prism=case["prism"])
    cx.label("radial" if case["radial"] else "no radial")

    def model(i, V):
        ab = V[..., :2] / V[..., 2:]
        rr = np.linalg.norm(ab, axis=-1, keepdims=True)
        th = np.arctan(rr)
        poly = 1 + sum(k[i, j] * th ** (2 * j + 2) for j in range(6))
        xr = ab * poly * np.where(rr < 1e-12, 1, th / np.maximum(rr, 1e-12))
        rd2 = (xr**2).sum(-1, keepdims=True)
        uv = xr if case["radial"] else ab
        x, y = xr[..., :1], xr[..., 1:]
        if case["tang"]:
            uv = uv + np.concatenate([(2 * x * x + rd2) * p[i, 0] + 2 * x * y * p[i, 1], (2 * y * y + rd2) * p[i, 1] + 2 * x * y * p[i, 0]], -1)
        if case["prism"]:
            uv = uv + np.concatenate([s[i, 0] * rd2 + s[i, 1] * rd2**2, s[i, 2] * rd2 + s[i, 3] * rd2**2], -1)
        return np.concatenate([f[i] * uv + c[i], np.ones_like(rr)], -1)

    shape = [(P,), (1, P), (M, P) if N == 1 else (1, P)][case["dims"]]
    V = cams.view_points(r, int(np.prod(shape))).reshape(*shape, 3)
    if case["centre"]:
        V.reshape(-1, 3)[0, :2] = 0
    if case["neg"]:
        V.reshape(-1, 3)[-1] *= -1
    X = (V - T[0].double().numpy()) @ R[0].double().numpy().T if world else V
    if case["centre"] and world:
        cx.trivial()
        return
    got = cam.transform_points(t(X))
    if N == 1:
        want = model(0, V)
    else:
        want = np.stack([model(i, V.reshape(-1, 3)) for i in range(N)])
    close(got, want, what="fisheye transform_points", atol=3e-4, rtol=3e-4, scale=max(1.0, np.abs(want).max()))
    ray = V / V[..., 2:]
    for i in range(N):
        one = FishEyeCameras(focal_length=t(f)[i:i + 1], principal_point=t(c)[i:i + 1], radial_params=t(k)[i:i + 1], tangential_params=t(p)[i:i + 1],
                             thin_prism_params=t(s)[i:i + 1], use_radial=case["radial"], use_tangential=case["tang"], use_thin_prism=case["prism"])
        back = one.unproject_points(t(model(i, V)))
        try:
            close(back, ray, what="fisheye unproject", atol=3e-3, rtol=3e-3)
        except AssertionError:
            if case["radial"]:
                raise
            cx.known.append("fisheye-no-radial")
    if N > 1:
        b = cam.unproject_points(t(model(0, V)))
        equal(tuple(b.shape), (N, int(np.prod(shape)), 3), "fisheye unproject of a batch")
        if case["radial"]:
            close(b[0].reshape(*shape, 3), ray, what="fisheye unproject in a batch", atol=3e-3, rtol=3e-3)
    raises(lambda: FishEyeCameras(radial_params=t(k), focal_length=t(f)).transform_points(torch.ones(2, 2, 3, 3)), ValueError, what="4-d points")


@sub(d(seed=SEED, typ=one_of(*cams.TYPES)), quick=100)
def rejected(case, cx):
    r = rng(case["seed"])
    typ = case["typ"]
    cam, _, kw = cams.make(r, typ, 2, True)
    X = torch.ones(2, 3, 3)
    raises(lambda: cam.transform_points(X, K=torch.ones(2, 3, 3)), ValueError, what="3x3 K")
    raises(lambda: cam.transform_points(X, K=torch.ones(3, 4, 4)), ValueError, what="K for another batch size")
    raises(lambda: cam.transform_points(X, R=torch.ones(3, 3, 3)), ValueError, what="R and T of different batch")
    raises(lambda: cam.transform_points(X, T=torch.ones(2, 4)), ValueError, what="T of shape (2, 4)")
    raises(lambda: cam.transform_points(X, R=torch.ones(2, 3, 4), T=torch.ones(2, 3)), ValueError, what="R of shape (3, 4)")
    cam, _, kw = cams.make(r, typ, 2)
    raises(lambda: cam.transform_points_screen(X), ValueError, what="screen without image size")
    if typ in ("persp", "ortho", "persp_s"):
        raises(lambda: cams.CLS[typ](image_size=((0, 5),)), ValueError, what="image size 0")
        raises(lambda: cams.CLS[typ](focal_length=torch.ones(2, 2), principal_point=torch.ones(3, 2)), ValueError, what="mixed batch sizes")
