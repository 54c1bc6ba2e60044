"""Cameras of every type with a float64 model of each element."""
import math

import numpy as np
import torch

from pytorch3d import renderer as PR
from pytorch3d.renderer.fisheyecameras import FishEyeCameras

from . import gen

TYPES = ("fovp", "fovo", "persp", "ortho", "persp_s", "ortho_s")
CLS = {"fovp": PR.FoVPerspectiveCameras, "fovo": PR.FoVOrthographicCameras, "persp": PR.PerspectiveCameras,
       "ortho": PR.OrthographicCameras, "persp_s": PR.PerspectiveCameras, "ortho_s": PR.OrthographicCameras}


class Model:
    """One camera: R, T (row vectors), 4x4 K (column vectors), image size (h, w) and whether it is in NDC."""

    def __init__(self, typ, R, T, K, hw, par):
        self.typ, self.R, self.T, self.K, self.hw, self.par = typ, R, T, K, hw, par
        self.screen = typ.endswith("_s")

    def view(self, X):
        return X @ self.R + self.T

    def proj(self, V):
        """View to camera space (NDC or screen)."""
        h = np.concatenate([V, np.ones((*V.shape[:-1], 1))], -1) @ self.K.T
        return h[..., :3] / h[..., 3:]

    def pp(self):
        return self.K[:2, 3] if "ortho" in self.typ else self.K[:2, 2]

    def ndc(self, V):
        p = self.proj(V).copy()
        if self.screen:
            h, w = self.hw
            c = np.array([w, h]) / 2.0
            p[..., :2] = (p[..., :2] - 2 * self.pp() + c) / (min(h, w) / 2.0)
        return p

    def screen_xy(self, V, flip=True):
        p = self.ndc(V).copy()
        h, w = self.hw
        p[..., :2] *= min(h, w) / 2.0
        p[..., :2] -= np.array([w, h]) / 2.0
        if flip:
            p[..., :2] *= -1
        return p


def make(r, typ, N, useK=False, bc=False, image_size=None, RT=True):
    """A batch of N cameras.  bc: parameters given once for the batch where the class broadcasts them.
    image_size: None | "one" | "each".  Returns (camera, [Model])."""
    f32 = lambda a: torch.from_numpy(np.asarray(a, dtype=np.float32).copy())
    R = gen.rot(r, N).numpy().astype(np.float32)
    if r.random() < 0.2:
        R[:] = np.eye(3)
    T = r.uniform(-2, 2, (N, 3)).astype(np.float32)
    kw = {}
    if RT:
        kw.update(R=f32(R), T=f32(T))
    else:
        assert N == 1 or not bc
        R, T = np.tile(np.eye(3, dtype=np.float32), (N, 1, 1)), np.zeros((N, 3), np.float32)
    hw = None
    if image_size is not None:
        hw = r.integers(2, 90, (N if image_size == "each" else 1, 2))
        if image_size == "one" and r.random() < 0.3:
            hw[:, 1] = hw[:, 0]
    m = N if not bc else 1

    def par(lo, hi, *shape):
        return r.uniform(lo, hi, (m, *shape)).astype(np.float32)

    Ks, pars = np.zeros((N, 4, 4)), {}
    ex = lambda a: np.broadcast_to(a, (N, *a.shape[1:])).astype(np.float64)

    def give(name, a):
        pars[name] = ex(a)
        form = r.integers(0, 3)
        if bc and a.ndim == 1:
            kw[name] = [float(a[0]), f32(a), torch.tensor(float(a[0]))][form]
        else:
            kw[name] = f32(a) if form else a.tolist()

    if typ == "fovp":
        give("znear", par(0.1, 1))
        give("zfar", par(5, 50))
        give("aspect_ratio", par(0.4, 2.5))
        kw["degrees"] = bool(r.random() < 0.6)
        fov = par(10, 120)
        give("fov", fov if kw["degrees"] else (fov * np.float32(math.pi / 180)).astype(np.float32))
        ang = pars["fov"] * (math.pi / 180 if kw["degrees"] else 1)
        t = np.tan(ang / 2)
        n, f = pars["znear"], pars["zfar"]
        Ks[:, 0, 0], Ks[:, 1, 1] = 1 / (t * pars["aspect_ratio"]), 1 / t
        Ks[:, 2, 2], Ks[:, 2, 3], Ks[:, 3, 2] = f / (f - n), -f * n / (f - n), 1
    elif typ == "fovo":
        give("znear", par(0.1, 1))
        give("zfar", par(5, 50))
        give("max_x", par(0.5, 3)), give("min_x", par(-3, -0.5))
        give("max_y", par(0.5, 3)), give("min_y", par(-3, 0.2))
        give("scale_xyz", par(0.5, 2, 3))
        p = pars
        Ks[:, 0, 0] = 2 / (p["max_x"] - p["min_x"]) * p["scale_xyz"][:, 0]
        Ks[:, 1, 1] = 2 / (p["max_y"] - p["min_y"]) * p["scale_xyz"][:, 1]
        Ks[:, 0, 3] = -(p["max_x"] + p["min_x"]) / (p["max_x"] - p["min_x"])
        Ks[:, 1, 3] = -(p["max_y"] + p["min_y"]) / (p["max_y"] - p["min_y"])
        Ks[:, 2, 2] = p["scale_xyz"][:, 2] / (p["zfar"] - p["znear"])
        Ks[:, 2, 3] = -p["znear"] / (p["zfar"] - p["znear"])
        Ks[:, 3, 3] = 1
    else:
        s = 40.0 if typ.endswith("_s") else 1.0
        if r.random() < 0.5:
            give("focal_length", par(0.5 * s, 2 * s, 2))
            fl = pars["focal_length"]
        else:
            a = par(0.5 * s, 2 * s)
            if not bc and r.random() < 0.5:
                a = a[:, None]
                give("focal_length", a)
                fl = np.repeat(pars["focal_length"], 2, 1)
            else:
                give("focal_length", a)
                fl = np.stack([pars["focal_length"]] * 2, 1)
        give("principal_point", par(-0.5, 0.5, 2) if s == 1 else par(0, 60, 2))
        pp = pars["principal_point"]
        Ks[:, 0, 0], Ks[:, 1, 1] = fl.T
        if typ.startswith("ortho"):
            Ks[:, :2, 3] = pp
            Ks[:, 2, 2] = Ks[:, 3, 3] = 1
        else:
            Ks[:, :2, 2] = pp
            Ks[:, 2, 3] = Ks[:, 3, 2] = 1
        kw["in_ndc"] = not typ.endswith("_s")
        if hw is not None:
            kw["image_size"] = f32(hw) if r.random() < 0.7 else hw.tolist()
    if useK:
        # a calibration matrix of its own, with skew; the scalar parameters are then ignored
        noise = r.uniform(0.8, 1.25, (N, 4, 4))
        if typ in ("fovp", "fovo"):
            Ks = Ks * noise
            Ks[:, 3, :] = np.round(Ks[:, 3, :])
        else:
            Ks[:, :2] = (Ks * noise)[:, :2]
        Ks[:, 0, 1] = r.uniform(-0.3, 0.3, N) * Ks[:, 0, 0]
        Ks = Ks.astype(np.float32).astype(np.float64)
        kw["K"] = f32(Ks)
    cam = CLS[typ](**kw)
    ehw = None if hw is None else np.broadcast_to(hw, (N, 2))
    models = [Model(typ, R[i].astype(np.float64), T[i].astype(np.float64), Ks[i],
                    None if hw is None else tuple(int(v) for v in ehw[i]), {k: v[i] for k, v in pars.items()})
              for i in range(N)]
    return cam, models, kw


def view_points(r, P, lo=1.0, hi=10.0):
    """Points in view space in front of the camera."""
    z = r.uniform(lo, hi, (P, 1))
    xy = r.uniform(-1, 1, (P, 2)) * z
    return np.concatenate([xy, z], 1)
