"""C10: conversions from and to OpenCV cameras, and to Pulsar's camera vectors, describe the same camera."""
import numpy as np
import torch

from pytorch3d.renderer import PerspectiveCameras
from pytorch3d.transforms import rotation_6d_to_matrix
from pytorch3d.utils import cameras_from_opencv_projection, opencv_from_cameras_projection, pulsar_from_cameras_projection, pulsar_from_opencv_projection
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng, rot

PROP = "C10"
RULE = ("Batches of 1-3 OpenCV cameras (random R, t, focal lengths, principal points, image sizes per camera) and 1-5 points "
        "in front of them. Oracle: the pinhole equation in float64. All cases are non-trivial.")
t32 = lambda a: torch.from_numpy(np.ascontiguousarray(a)).float()


@sub(d(seed=SEED, N=ints(1, 3), P=ints(1, 5), dt=one_of("f32", "f64"), isz=one_of("int", "float")), quick=800, thorough=20000)
def opencv(case, cx):
    r = rng(case["seed"])
    N, P = case["N"], case["P"]
    dt = torch.float32
    R, t = rot(r, N).numpy(), r.uniform(-2, 2, (N, 3))
    hw = r.integers(2, 700, (N, 2))
    f = r.uniform(0.3, 3, (N, 2)) * hw.min(1, keepdims=True)
    c = hw[:, ::-1] * r.uniform(0.2, 0.8, (N, 2))
    K = np.zeros((N, 3, 3))
    K[:, 0, 0], K[:, 1, 1], K[:, 2, 2] = f[:, 0], f[:, 1], 1
    K[:, :2, 2] = c
    V = np.concatenate([r.uniform(-1, 1, (N, P, 2)), np.ones((N, P, 1))], -1) * r.uniform(1, 9, (N, P, 1))
    X = np.einsum("nij,npi->npj", R, V - t[:, None])  # R^T (V - t)
    uv = V[..., :2] / V[..., 2:] * f[:, None] + c[:, None]
    size = torch.from_numpy(hw) if case["isz"] == "int" else t32(hw)
    args = [t32(R), t32(t), t32(K), size]
    keep = [a.clone() for a in args]
    cam = cameras_from_opencv_projection(*args)
    tol = 1e-4 * hw.max()
    assert isinstance(cam, PerspectiveCameras) and cam.in_ndc() and len(cam) == N
    got = cam.transform_points_screen(t32(X), image_size=size)
    close(got[..., :2], uv, atol=tol, rtol=1e-4, what="pixel position")
    close(cam.transform_points_screen(t32(X))[..., :2], uv, atol=tol, rtol=1e-4, what="pixel position at the camera's image size")
    close(cam.get_world_to_view_transform().transform_points(t32(X))[..., 2], V[..., 2], atol=1e-3, what="depth")
    R2, t2, K2 = opencv_from_cameras_projection(cam, size)
    close(R2, R, atol=1e-5, what="R back")
    close(t2, t, atol=1e-5, what="t back")
    close(K2, K, atol=1e-5 * hw.max(), rtol=1e-5, what="K back")
    # the other way round, from an NDC camera of one or two focal lengths
    fl = r.uniform(0.5, 3, (N, 2))
    pp = r.uniform(-0.5, 0.5, (N, 2))
    cam = PerspectiveCameras(R=rot(r, N).float(), T=t32(r.uniform(-2, 2, (N, 3))), focal_length=t32(fl), principal_point=t32(pp))
    R3, t3, K3 = opencv_from_cameras_projection(cam, size)
    Rn, tn, Kn = (v.double().numpy() for v in (R3, t3, K3))
    W = np.einsum("nij,npi->npj", Rn, V - tn[:, None])
    px = V[..., :2] / V[..., 2:] * np.stack([Kn[:, 0, 0], Kn[:, 1, 1]], -1)[:, None] + Kn[:, None, :2, 2]
    close(cam.transform_points_screen(t32(W), image_size=size)[..., :2], px, atol=tol, rtol=1e-4, what="opencv camera of a pytorch3d camera")
    close(K3[:, 2], np.tile([0, 0, 1.0], (N, 1)), what="last row of K")
    back = cameras_from_opencv_projection(R3, t3, K3, size)
    close(back.R, cam.R, atol=1e-5, what="R of the round trip")
    close(back.T, cam.T, atol=1e-5, what="T of the round trip")
    close(back.focal_length, fl, atol=1e-4, what="focal length of the round trip")
    close(back.principal_point, pp, atol=1e-4, what="principal point of the round trip")
    for a, b in zip(args, keep):
        equal(a, b, "an input was changed")


@sub(d(seed=SEED, N=ints(1, 3), t3=boolean(), znear=one_of(0.1, 0.5, 2.0), sq=boolean()), quick=400, thorough=8000)
def pulsar(case, cx):
    r = rng(case["seed"])
    N = case["N"]
    R, t = rot(r, N).numpy(), r.uniform(-2, 2, (N, 3))
    hw = np.tile(r.integers(2, 700, (1, 2)), (N, 1))
    f = r.uniform(0.3, 3, (N, 1)) * hw.min(1, keepdims=True) * np.ones((1, 2))
    if not case["sq"]:
        f = f * r.uniform(0.9, 1.1, (N, 2))
    c = hw[:, ::-1] * r.uniform(0.2, 0.8, (N, 2))
    K = np.zeros((N, 3, 3))
    K[:, 0, 0], K[:, 1, 1], K[:, 2, 2] = f[:, 0], f[:, 1], 1
    K[:, :2, 2] = c
    size = torch.from_numpy(hw)

    def check(p, what, zn):
        equal(tuple(p.shape), (N, 13), what + " shape")
        p = p.double().numpy()
        close(p[:, :3], -np.einsum("nij,ni->nj", R, t), atol=1e-4, what=what + " position")
        close(rotation_6d_to_matrix(torch.from_numpy(p[:, 3:9])), R.transpose(0, 2, 1), atol=1e-5, what=what + " rotation")
        close(p[:, 9], np.full(N, zn - 1e-5), atol=1e-6, what=what + " focal length")
        close(p[:, 9] / p[:, 10] * hw[:, 1], f.mean(1), rtol=1e-4, atol=1e-4, what=what + " focal length in pixels")
        close(p[:, 11], hw[:, 1] / 2 - c[:, 0], atol=1e-5 * hw.max(), what=what + " principal point x")
        close(p[:, 12], c[:, 1] - hw[:, 0] / 2, atol=1e-5 * hw.max(), what=what + " principal point y")

    tv = t32(t)[:, :, None] if case["t3"] else t32(t)
    check(pulsar_from_opencv_projection(t32(R), tv, t32(K), size, znear=case["znear"]), "pulsar from opencv", case["znear"])
    cam = cameras_from_opencv_projection(t32(R), t32(t), t32(K), size)
    check(pulsar_from_cameras_projection(cam, size), "pulsar from cameras", 0.1)
    A = (AssertionError, ValueError)
    raises(lambda: pulsar_from_opencv_projection(t32(R)[0], t32(t), t32(K), size), *A, what="unbatched R")
    raises(lambda: pulsar_from_opencv_projection(t32(R), t32(t), t32(K)[:, :2], size), *A, what="2x3 camera matrix")
    raises(lambda: pulsar_from_opencv_projection(torch.cat([t32(R)] * 2), t32(t), t32(K), size), *A, what="batch mismatch")
    raises(lambda: pulsar_from_opencv_projection(t32(R), t32(t), t32(K), size * 0), *A, what="empty image")
    if N > 1:
        s2 = size.clone()
        s2[-1, int(r.integers(0, 2))] += 1
        raises(lambda: pulsar_from_opencv_projection(t32(R), t32(t), t32(K), s2), *A, what="images of different sizes")
