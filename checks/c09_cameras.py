"""C09: camera placement, batches of cameras, and the NDC / image correspondence."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from pytorch3d import renderer as PR
from pytorch3d.renderer.camera_utils import camera_to_eye_at_up, join_cameras_as_batch, rotate_on_spot
from pytorch3d.renderer.cameras import (
    camera_position_from_spherical_angles, get_ndc_to_screen_transform, get_screen_to_ndc_transform,
    get_world_to_view_transform, look_at_rotation, look_at_view_transform)
from pytorch3d.renderer.fisheyecameras import FishEyeCameras
from pytorch3d.renderer.utils import ndc_grid_sample, ndc_to_grid_sample_coords
from vlib import cams
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, fl, ints, one_of, raises, rng, rot

PROP = "C09"
RULE = ("Histories of indexing, joining and cloning over batches of up to 4 cameras of every model; random camera positions, "
        "targets and up vectors (scalar, tensor and broadcast forms); images of 1-9 by 1-9 pixels. Oracle: per-camera float64 "
        "models. Non-trivial: some operation on more than one camera, or a non-default placement.")
t32 = lambda a: torch.from_numpy(np.asarray(a)).float()


def check_cam(cam, models, r, what):
    N = len(models)
    equal(len(cam), N, f"{what}: len")
    V = np.stack([cams.view_points(r, 2) for _ in models])
    X = np.stack([(V[i] - m.T) @ m.R.T for i, m in enumerate(models)])
    close(cam.transform_points(t32(X)), np.stack([m.proj(V[i]) for i, m in enumerate(models)]), atol=3e-3, rtol=3e-4, what=f"{what}: transform_points")
    if models[0].hw is not None and "fov" not in models[0].typ:
        close(cam.get_image_size().reshape(-1, 2).expand(N, 2), torch.tensor([m.hw for m in models]).float(), what=f"{what}: image size")
        close(cam.transform_points_screen(t32(X)), np.stack([m.screen_xy(V[i]) for i, m in enumerate(models)]), atol=3e-3, rtol=3e-4, what=f"{what}: screen")
    C = np.stack([-m.T @ m.R.T for m in models])
    close(cam.get_camera_center(), C, atol=1e-4, rtol=1e-4, what=f"{what}: camera center")
    equal(cam.in_ndc(), not models[0].screen, f"{what}: in_ndc")
    equal(cam.is_perspective(), models[0].typ in ("fovp", "persp", "persp_s"), f"{what}: is_perspective")
    if not models[0].typ.startswith("fov"):
        close(cam.get_principal_point(), np.stack([m.pp() for m in models]), atol=1e-4, what=f"{what}: principal point")


OP = st.one_of(
    d(op=st.just("index"), kind=one_of("int", "list", "long", "bool", "neg"), k=SEED),
    d(op=st.just("join"), k=SEED),
    d(op=st.just("clone"), k=SEED),
    d(op=st.just("set"), k=SEED),
    d(op=st.just("to"), k=SEED),
)


@sub(d(seed=SEED, typ=one_of(*cams.TYPES), N=ints(1, 3), useK=boolean(), bc=boolean(), size=one_of("one", "each", None),
       ops=st.lists(OP, max_size=6)), quick=1000, thorough=30000)
def history(case, cx):
    r = rng(case["seed"])
    typ = case["typ"]
    cam, models, _ = cams.make(r, typ, case["N"], case["useK"], case["bc"], case["size"])
    cx.trivial(not case["ops"] or case["N"] == 1)
    check_cam(cam, models, r, "start")
    old = []
    for o in case["ops"]:
        q = rng(o["k"])
        N = len(models)
        cx.label(o["op"])
        old.append((cam, models))
        if o["op"] == "index":
            k = o["kind"]
            if k == "int":
                ix = [int(q.integers(0, N))]
                idx = ix[0]
            elif k == "neg":
                ix = [int(q.integers(-N, 0))]
                idx = ix[0]
            elif k == "bool":
                m = q.random(N) < 0.6
                m[q.integers(0, N)] = True
                idx, ix = torch.from_numpy(m), list(np.nonzero(m)[0])
            else:
                ix = [int(v) for v in q.integers(0, N, q.integers(1, 4))]
                idx = ix if k == "list" else torch.tensor(ix)
            cam, models = cam[idx], [models[i] for i in ix]
        elif o["op"] == "join":
            other, om, _ = cams.make(q, typ, int(q.integers(1, 3)), case["useK"], bool(q.integers(0, 2)), case["size"])
            if typ == "fovp" and other.degrees != cam.degrees:
                raises(lambda: join_cameras_as_batch([cam, other]), ValueError, what="join of different degrees")
                if not case["useK"]:
                    continue
                continue
            if len(models) + len(om) > 8:
                continue
            parts = [(cam, models), (other, om)]
            if q.random() < 0.5:
                parts.reverse()
            cam = join_cameras_as_batch([p[0] for p in parts])
            models = sum((p[1] for p in parts), [])
        elif o["op"] == "clone":
            cam = cam.clone()
            cam2 = cam.clone()
            cam2.R = cam2.R.clone()
            with torch.no_grad():
                cam2.R.zero_()
                cam2.T = cam2.T.contiguous().add_(1.0)
            equal(type(cam), type(cam2), "clone type")
        elif o["op"] == "set":
            # extrinsics given to a projection stay on the camera
            cam = cam.clone()
            R = rot(q, N).float()
            T = t32(q.uniform(-1, 1, (N, 3)))
            cam.get_full_projection_transform(R=R, T=T)
            new = [cams.Model(m.typ, R[i].double().numpy(), T[i].double().numpy(), m.K, m.hw, m.par) for i, m in enumerate(models)]
            models = new
        elif o["op"] == "to":
            cam = cam.to("cpu")
        check_cam(cam, models, r, o["op"])
    for c, m in old:
        check_cam(c, m, r, "after later operations")


@sub(d(seed=SEED, N=ints(1, 3), spherical=boolean(), bc=boolean(), deg=boolean(), special=boolean(), fish=boolean()), quick=1200, thorough=30000)
def look_at(case, cx):
    r = rng(case["seed"])
    N = case["N"]
    tri = lambda lo, hi: r.uniform(lo, hi, (1 if case["bc"] and r.random() < 0.5 else N, 3)).astype(np.float32)
    at, up = tri(-2, 2), tri(-1, 1)
    if r.random() < 0.3:
        at = np.zeros((1, 3), np.float32)
    if r.random() < 0.3:
        up = np.array([[0, 1, 0]], np.float32)
    deg = case["deg"]
    unit = 180 / math.pi if deg else 1.0
    if case["spherical"]:
        def par(lo, hi):
            a = r.uniform(lo, hi, 1 if case["bc"] and r.random() < 0.5 else N).astype(np.float32)
            return a
        dist, elev, azim = par(0.5, 5), par(-1.5, 1.5) * np.float32(unit), par(-4, 4) * np.float32(unit)
        if case["special"]:
            azim[:] = np.float32(r.choice([0, 90, 180, 270]) * (1 if deg else math.pi / 180))
        e, a = elev.astype(np.float64) / unit, azim.astype(np.float64) / unit
        n = max(len(at), len(up), len(dist), len(elev), len(azim))
        dd = np.broadcast_to(dist, n).astype(np.float64)
        e, a = np.broadcast_to(e, n), np.broadcast_to(a, n)
        pos = np.stack([dd * np.cos(e) * np.sin(a), dd * np.sin(e), dd * np.cos(e) * np.cos(a)], 1)
        eye = pos + at
        form = lambda v: float(v[0]) if len(v) == 1 and r.random() < 0.7 else torch.from_numpy(v)
        args = dict(dist=form(dist), elev=form(elev), azim=form(azim), degrees=deg)
        got = camera_position_from_spherical_angles(args["dist"], args["elev"], args["azim"], degrees=deg)
        m = max(len(dist), len(elev), len(azim))
        close(got, pos[:m], atol=1e-5, rtol=1e-5, what="camera_position_from_spherical_angles")
    else:
        eye32 = tri(-5, 5)
        n = max(len(at), len(up), len(eye32))
        eye = np.broadcast_to(eye32.astype(np.float64), (n, 3))
        args = dict(eye=torch.from_numpy(eye32) if r.random() < 0.5 else eye32.tolist())
    A, U = (np.broadcast_to(v.astype(np.float64), (n, 3)) for v in (at, up))
    z = A - eye
    z = z / np.linalg.norm(z, axis=1, keepdims=True)
    x = np.cross(U, z)
    xn = np.linalg.norm(x, axis=1, keepdims=True) / np.linalg.norm(U, axis=1, keepdims=True)
    if (xn < 1e-2).any() or (np.linalg.norm(A - eye, axis=1) < 1e-2).any() or np.linalg.norm(U, axis=1).min() < 1e-2:
        cx.trivial()  # looking along up: the roll is not defined
        return
    x = x / np.linalg.norm(x, axis=1, keepdims=True)
    R = np.stack([x, np.cross(z, x), z], 2)
    T = -np.einsum("ni,nij->nj", eye, R)
    form = lambda v: torch.from_numpy(v) if r.random() < 0.7 else v.tolist()
    gR, gT = look_at_view_transform(at=form(at), up=form(up), **args)
    tol = 1e-5 + 2e-6 / xn.min()
    close(gR, R, atol=tol, what="look_at R")
    close(gT, T, atol=20 * tol, what="look_at T")
    close(look_at_rotation(t32(eye), t32(A), t32(U)), R, atol=tol, what="look_at_rotation")
    # eye, at, up of the transform give the same transform
    w2v = get_world_to_view_transform(R=gR, T=gT)
    e2, a2, u2 = camera_to_eye_at_up(w2v)
    close(e2, eye, atol=50 * tol, what="eye")
    R2, T2 = look_at_view_transform(eye=e2, at=a2, up=u2)
    close(R2, R, atol=50 * tol, what="R again")
    close(T2, T, atol=200 * tol, what="T again")
    close(w2v.transform_points(t32(eye)[:, None]), np.zeros((n, 1, 3)), atol=50 * tol, what="eye in view space")
    # rotating on the spot
    Q = rot(r, n if r.random() < 0.5 else 1).float()
    q = Q if r.random() < 0.6 or len(Q) > 1 else Q[0]
    sR, sT = (gR[0], gT[0]) if n == 1 and r.random() < 0.5 else (gR, gT)
    nR, nT = rotate_on_spot(sR, sT, q)
    close(nR, R @ Q.double().numpy().transpose(0, 2, 1), atol=10 * tol, what="rotate_on_spot R")
    close(np.einsum("nj,nij->ni", -nT.double().numpy(), nR.double().numpy()), eye, atol=100 * tol, what="rotate_on_spot position")
    for bad in ((torch.ones(2, 4, 3), gT, q), (gR, torch.ones(1, 4), q), (gR, gT, torch.ones(3, 2))):
        raises(lambda: rotate_on_spot(*bad), ValueError, what="rotate_on_spot with bad shapes")


@sub(d(seed=SEED, H=ints(1, 9), W=ints(1, 9), N=ints(1, 3), C=ints(1, 3), mode=one_of("bilinear", "nearest"), align=boolean()), quick=500, thorough=10000)
def images(case, cx):
    r = rng(case["seed"])
    H, W, N = case["H"], case["W"], case["N"]
    cx.label("square" if H == W else "tall" if H > W else "wide")
    s = min(H, W) / 2.0
    ys, xs = np.meshgrid(np.arange(H) + 0.5, np.arange(W) + 0.5, indexing="ij")
    ndc = np.stack([(W / 2 - xs) / s, (H / 2 - ys) / s], -1)  # NDC of each pixel centre: +x left, +y up
    img = t32(r.standard_normal((N, case["C"], H, W)))
    grid = t32(np.broadcast_to(ndc, (N, H, W, 2)))
    keep = grid.clone()
    got = ndc_grid_sample(img, grid, align_corners=False, mode=case["mode"])
    close(got, img, atol=1e-4, what="ndc_grid_sample at pixel centres")
    equal(grid, keep, "ndc_grid_sample changed its input")
    # any points: the value of torch's own sampler at the equivalent position
    pts = r.uniform(-1.5, 1.5, (N, 4, 2))
    g = -pts * s / np.array([W / 2, H / 2])
    # keep away from the jumps of nearest
    ref = torch.nn.functional.grid_sample(img, t32(g)[:, :, None], align_corners=case["align"], mode="bilinear")[..., 0]
    close(ndc_grid_sample(img, t32(pts), align_corners=case["align"], mode="bilinear"), ref, atol=1e-4, what="ndc_grid_sample")
    close(ndc_to_grid_sample_coords(t32(pts), (H, W)), g, atol=1e-5, what="ndc_to_grid_sample_coords")
    # NDC to screen and back
    sizes = r.integers(1, 50, (N if r.random() < 0.5 else 1, 2))
    cam = PR.PerspectiveCameras(R=rot(r, N).float(), T=torch.zeros(N, 3))
    P = t32(r.uniform(-2, 2, (N, 5, 3)))
    flip = bool(r.integers(0, 2))
    size = torch.from_numpy(sizes).float() if r.random() < 0.5 else sizes.tolist()
    sc = get_ndc_to_screen_transform(cam, with_xyflip=flip, image_size=size).transform_points(P)
    hw = np.broadcast_to(sizes, (N, 2)).astype(np.float64)
    sgn = -1 if flip else 1
    want = P.double().numpy().copy()
    want[..., :2] = sgn * (want[..., :2] * hw.min(1)[:, None, None] / 2 - hw[:, None, ::-1] / 2)
    close(sc, want, atol=1e-3, what="ndc to screen")
    close(get_screen_to_ndc_transform(cam, with_xyflip=flip, image_size=size).transform_points(sc), P, atol=1e-3, what="screen to ndc")
    raises(lambda: ndc_grid_sample(img, grid[:, :, :, :1]), ValueError, what="grid of 1-d points")
    raises(lambda: ndc_grid_sample(torch.cat([img, img]), grid), ValueError, what="batch mismatch")
    raises(lambda: ndc_to_grid_sample_coords(grid, (0, 3)), ValueError, what="empty image")


@sub(d(seed=SEED, typ=one_of(*cams.TYPES), N=ints(1, 3)), quick=200)
def rejected(case, cx):
    r = rng(case["seed"])
    N, typ = case["N"], case["typ"]
    cam, models, _ = cams.make(r, typ, N)
    raises(lambda: cam[N], IndexError, what="index out of range")
    raises(lambda: cam[[0, N]], IndexError, what="list out of range")
    raises(lambda: cam[torch.tensor([N + 1])], IndexError, what="tensor out of range")
    raises(lambda: cam[0.5], ValueError, what="float index")
    raises(lambda: cam[[True] * N], ValueError, what="list of bools")
    raises(lambda: cam[torch.ones(N + 1, dtype=torch.bool)], ValueError, what="bool of another length")
    raises(lambda: cam[slice(0, 1)], ValueError, what="slice")
    other, _, _ = cams.make(r, {"fovp": "fovo", "fovo": "persp"}.get(typ, "fovp"), 1)
    raises(lambda: join_cameras_as_batch([cam, other]), ValueError, what="join of different types")
    raises(lambda: join_cameras_as_batch([cam] * int(r.integers(1, 4)) + [other]), ValueError, what="join of several with one of another type")
    raises(lambda: join_cameras_as_batch([cam, cam, None]), ValueError, what="join with something else than a camera")
    if typ == "fovp":
        a, b = PR.FoVPerspectiveCameras(fov=60.0, degrees=True), PR.FoVPerspectiveCameras(fov=1.0, degrees=False)
        for x, y in ((a, b), (b, a)):
            raises(lambda: join_cameras_as_batch([x, x, y]), ValueError, what="join of degrees and radians")
    if typ in ("persp", "ortho"):
        o2, _, _ = cams.make(r, typ + "_s", 1)
        raises(lambda: join_cameras_as_batch([cam, o2]), ValueError, what="join of ndc and screen")
    o3, _, _ = cams.make(r, typ, 1, True)
    raises(lambda: join_cameras_as_batch([cam, o3]), ValueError, what="join with and without K")


@sub(d(seed=SEED, N=ints(1, 3), ops=st.lists(ints(0, 2), min_size=1, max_size=3), rad=boolean(), tan=boolean(), prism=boolean()), quick=200, thorough=4000)
def fisheye_batches(case, cx):
    r = rng(case["seed"])

    def make(n):
        kw = dict(focal_length=t32(r.uniform(0.5, 2, (n, 1))), principal_point=t32(r.uniform(-1, 1, (n, 2))), radial_params=t32(r.uniform(-1, 1, (n, 6)) * 0.02),
                  tangential_params=t32(r.uniform(-1, 1, (n, 2)) * 0.01), thin_prism_params=t32(r.uniform(-1, 1, (n, 4)) * 0.01), R=rot(r, n).float(), T=t32(r.uniform(-1, 1, (n, 3))),
                  image_size=t32(r.integers(2, 9, (n, 2))))
        flags = dict(use_radial=case["rad"], use_tangential=case["tan"], use_thin_prism=case["prism"])
        return FishEyeCameras(**kw, **flags), [FishEyeCameras(**{k: v[i:i + 1] for k, v in kw.items()}, **flags) for i in range(n)]

    cam, ones = make(case["N"])
    for o in case["ops"]:
        if o == 0:
            ix = [int(v) for v in r.integers(0, len(ones), r.integers(1, 4))]
            cam, ones = cam[ix], [ones[i] for i in ix]
        elif o == 1:
            c2, o2 = make(1)
            cam, ones = join_cameras_as_batch([cam, c2]), ones + o2
        else:
            cam = cam.clone()
        X = t32(cams.view_points(r, 3))
        got = cam.transform_points(X).reshape(-1, 3, 3)
        want = torch.stack([c.transform_points(X) for c in ones])
        close(got, want, atol=1e-5, rtol=1e-5, what="fisheye batch")
        close(cam.get_camera_center(), torch.cat([c.get_camera_center() for c in ones]), atol=1e-5, what="fisheye centers")
        close(cam.get_image_size(), torch.cat([c.get_image_size() for c in ones]), what="fisheye image size")
