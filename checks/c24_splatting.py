"""C24: splatting blends each pixel with its neighbours by layers as documented, with the derivatives."""
import numpy as np
import torch

from pytorch3d.renderer import (BlendParams, FoVOrthographicCameras, FoVPerspectiveCameras, MeshRasterizer, MeshRenderer, RasterizationSettings,
                                SplatterPhongShader)
from pytorch3d.renderer.mesh.shading import phong_shading
from pytorch3d.renderer.splatter_blend import SplatterBlender
from pytorch3d.structures import Meshes
from checks.c21_shading import Light, Mat
from pytorch3d.renderer import TexturesVertex
from vlib import cams
from vlib.core import sub
from vlib.gen import SEED, boolean, d, ints, one_of, rng

PROP = "C24"
RULE = ("Images of 1-3 cameras up to 7x7 pixels with up to 3 layers: random colours, layers and positions within their pixels, or "
        "meshes rasterized and shaded. Oracle: the three-layer splatting of every pixel onto its 3x3 neighbours written as sums in "
        "float64, and its derivatives. Non-trivial: two neighbouring pixels have a surface.")


def reference(colors, pos, depth, mask, sigma, bg):
    """colors (N,H,W,K,3), pos (N,H,W,K,2) in pixels (x right, y down), depth (N,H,W,K), mask where nothing is."""
    N, H, W, K = depth.shape
    z = torch.where(mask, torch.ones_like(depth), depth).detach()
    off = [(dy, dx) for dy in (-1, 0, 1) for dx in (-1, 0, 1)]
    norm = 1.05 / sum(np.exp(-(dy * dy + dx * dx) / (2 * sigma**2)) for dy, dx in off)
    a = (~mask).to(colors)
    rgba = torch.cat([colors, torch.ones_like(colors[..., :1])], -1)
    groups = [[None] * 3 for _ in range(2)]
    acc = torch.zeros(N, H, W, 3, 5, dtype=colors.dtype)
    for dy, dx in off:
        # p = q + (dy, dx) for every q of the block (y0:y1, x0:x1)
        y0, y1, x0, x1 = max(0, -dy), H - max(0, dy), max(0, -dx), W - max(0, dx)
        if y0 >= y1 or x0 >= x1:
            continue
        q = (slice(None), slice(y0, y1), slice(x0, x1))
        p = (slice(None), slice(y0 + dy, y1 + dy), slice(x0 + dx, x1 + dx))
        zq, zp = z[q], z[p]
        a1, i1 = (zp - zq[..., :1]).abs().min(-1)
        a2, i2 = (zq - zp[..., :1]).abs().min(-1)
        layer = torch.where(a2 < a1, -i2, i1)[..., None]
        yy, xx = torch.meshgrid(torch.arange(y0, y1), torch.arange(x0, x1), indexing="ij")
        centre = torch.stack([xx, yy], -1).to(colors) + 0.5
        dist = ((centre[None, :, :, None] - pos[p]) ** 2).sum(-1)
        w = norm * torch.exp(-dist / (2 * sigma**2)) * a[p]
        k = torch.arange(K)
        full = torch.zeros_like(acc)
        vals = torch.cat([w[..., None] * rgba[p], w[..., None]], -1)
        part = torch.stack([(vals * sel[..., None]).sum(-2) for sel in ((k < layer), (k == layer), (k > layer))], -2)
        full[q] = part
        acc = acc + full
    out = torch.cat([bg.to(colors), torch.zeros(1).to(colors)]).expand(N, H, W, 4)
    for g in (2, 1, 0):
        c = acc[..., g, :4] / acc[..., g, 4:].clamp(min=1.0)
        out = c + (1 - c[..., 3:]) * out
    return out


def background(r, form):
    v = r.random(3).astype(np.float32)
    bg = {"list": [float(x) for x in v], "tuple": tuple(float(x) for x in v), "tensor": torch.from_numpy(v), "array": v}[form]
    return bg, torch.from_numpy(v)


def pixels(models, X, H, W):
    """X (N, ..., 3) double torch -> pixel positions (N, ..., 2) by the models' matrices."""
    out = []
    for m, x in zip(models, X):
        V = x @ torch.from_numpy(np.asarray(m.R, np.float64)) + torch.from_numpy(np.asarray(m.T, np.float64))
        h = torch.cat([V, torch.ones_like(V[..., :1])], -1) @ torch.from_numpy(m.K).T
        p = h[..., :2] / h[..., 3:]
        s = min(H, W) / 2
        out.append(torch.stack([W / 2 - s * p[..., 0], H / 2 - s * p[..., 1]], -1))
    return torch.stack(out)


def compare(got, want, leaves, names, r, tol=1e-3, gtol=2e-3):
    assert got.shape == want.shape, f"image of shape {tuple(got.shape)}"
    e = float((got.double() - want).abs().max())
    assert e <= tol, f"image differs by {e:.3g}"
    g = torch.from_numpy(r.standard_normal(got.shape))
    a = torch.autograd.grad((got * g.float()).sum(), leaves, allow_unused=True, retain_graph=True)
    b = torch.autograd.grad((want * g).sum(), leaves, allow_unused=True, retain_graph=True)
    for n, x, y, l in zip(names, a, b, leaves):
        x = torch.zeros_like(l) if x is None else x
        y = torch.zeros_like(l) if y is None else y
        lim = gtol * (1 + float(y.abs().max()))
        assert bool(torch.isfinite(x).all()), f"gradient of {n} is not finite"
        e = float((x.double() - y.double()).abs().max())
        assert e <= lim, f"gradient of {n} differs by {e:.3g} (largest is {float(y.abs().max()):.3g})"


@sub(d(seed=SEED, N=ints(1, 3), H=ints(1, 7), W=ints(1, 7), K=ints(1, 3), typ=one_of("fovp", "fovp", "fovo", "persp"), sigma=one_of("0.5", "0.2", "1.0"),
       bg=one_of("list", "tuple", "tensor"), off=boolean(), steps=ints(1, 2)), quick=150, thorough=6000)
def blender(case, cx):
    """The blender for any colours, layers and positions inside the pixels."""
    r = rng(case["seed"])
    N, H, W, K = case["N"], case["H"], case["W"], case["K"]
    cam, models = cams.make(r, case["typ"], N, bc=bool(r.random() < 0.3))[:2]
    bl = SplatterBlender((N, H, W, K), "cpu")
    n_layers = r.integers(0, K + 1, (N, H, W, 1))
    mask = torch.from_numpy(np.arange(K) >= n_layers)
    has = ~mask[..., 0]
    cx.trivial(not bool((has[:, 1:] & has[:, :-1]).any() or (has[:, :, 1:] & has[:, :, :-1]).any()))
    sigma = float(case["sigma"])
    for _ in range(case["steps"]):
        # points whose projection is the pixel centre, or elsewhere in the pixel
        lo = r.uniform(1.0, 4.0)
        depth = np.sort(r.uniform(lo, lo + r.choice([0.1, 2.0]), (N, H, W, K)), -1)
        yy, xx = np.meshgrid(np.arange(H), np.arange(W), indexing="ij")
        px = np.stack([xx, yy], -1)[None, :, :, None] + 0.5 + (r.uniform(-0.4, 0.4, (N, H, W, K, 2)) if case["off"] else np.zeros((N, 1, 1, K, 2)))
        s = min(H, W) / 2
        X = np.zeros((N, H, W, K, 3))
        for n, m in enumerate(models):
            ndc = np.stack([(W / 2 - px[n][..., 0]) / s, (H / 2 - px[n][..., 1]) / s], -1)
            V = np.zeros((H, W, K, 3))
            V[..., 2] = depth[n]
            if "o" == case["typ"][-1] and case["typ"] == "fovo":
                V[..., :2] = (ndc - m.K[:2, 3]) / np.diag(m.K)[:2]
            else:
                V[..., :2] = (ndc - m.K[:2, 2]) / np.diag(m.K)[:2] * depth[n][..., None]
            X[n] = (V - m.T) @ np.linalg.inv(m.R)
        X[mask.numpy()] = r.choice([0.0, 1.0])
        colors = torch.from_numpy(r.random((N, H, W, K, 3))).float()
        xyz = torch.from_numpy(X).float()
        bgv, bgt = background(r, case["bg"])
        leaves = [colors.requires_grad_(), xyz.requires_grad_()]
        keep = [v.detach().clone() for v in (colors, xyz, mask)]
        got = bl(colors, xyz, cam, mask, BlendParams(sigma=sigma, background_color=bgv))
        for v, k, n in zip((colors, xyz, mask), keep, ("colours", "positions", "mask")):
            assert bool((v == k).all()), f"the blender changed the {n}"
        z = cam.transform_points_screen(xyz.detach().reshape(N, -1, 3), image_size=(H, W), with_xyflip=False).reshape(xyz.shape)[..., 2]
        safe = torch.where(mask[..., None], xyz.detach().double() * 0 + 1, xyz.double())
        want = reference(colors.double(), pixels(models, safe, H, W), z.double(), mask, sigma, bgt.double())
        compare(got, want, leaves, ["colours", "positions"], r)


@sub(d(seed=SEED, N=ints(1, 3), K=ints(1, 3), kind=one_of("point", "directional", "ambient"), where=one_of("init", "call"), steps=ints(1, 3), grow=boolean(),
       origin=boolean(), to=boolean()), quick=60, thorough=2000)
def shader(case, cx):
    """Rasterize, shade and splat; the same shader for images of several sizes."""
    r = rng(case["seed"])
    sh, ok = None, False
    for step in range(case["steps"]):
        if step == 0 or case["grow"]:
            N, H, W, K = int(r.integers(1, case["N"] + 1)), int(r.integers(2, 8)), int(r.integers(2, 8)), int(r.integers(1, case["K"] + 1))
        if case["origin"]:
            cam = FoVPerspectiveCameras(fov=[float(v) for v in r.uniform(30, 100, N)], znear=0.5, zfar=20.0, R=torch.eye(3).expand(N, 3, 3).clone(), T=torch.zeros(N, 3, requires_grad=True))
            models = None
        else:
            cam, models = cams.make(r, "fovp", N)[:2]
        if models is None:
            models = []
            for n in range(N):
                K4 = np.zeros((4, 4))
                t = np.tan(float(cam.fov[n]) * np.pi / 360)
                K4[0, 0] = K4[1, 1] = 1 / t
                K4[2, 2], K4[2, 3], K4[3, 2] = 20 / 19.5, -10 / 19.5, 1
                models.append(cams.Model("fovp", np.eye(3), np.zeros(3), K4, None, {}))
        vs, fs, cs = [], [], []
        for n in range(N):
            V, F = int(r.integers(3, 8)), int(r.integers(1, 6))
            view = np.concatenate([r.uniform(-1.5, 1.5, (V, 2)), r.uniform(1.5, 4, (V, 1))], 1)
            view[:, :2] *= view[:, 2:] / np.diag(models[n].K)[:2]
            vs.append(torch.from_numpy((view - models[n].T) @ np.linalg.inv(models[n].R)).float().requires_grad_())
            fs.append(torch.from_numpy(np.stack([r.permutation(V)[:3] for _ in range(F)])))
            cs.append(torch.from_numpy(r.random((V, 3))).float().requires_grad_())
        light, mat = Light(r, case["kind"], N).make(), Mat(r, 1).make()
        bgv, bgt = background(r, "tuple")
        bp = BlendParams(sigma=0.5, background_color=bgv)
        kw = dict(cameras=cam, lights=light, materials=mat, blend_params=bp)
        if sh is None:
            sh = SplatterPhongShader(**(kw if case["where"] == "init" else {}))
            if case["to"]:
                sh.to("cpu")
        call = kw if (case["where"] == "call" or step) else {}
        # normals of their own: those of slivers have noisy derivatives
        mesh = Meshes(vs, fs, TexturesVertex(cs), verts_normals=[torch.from_numpy(r.standard_normal((len(v), 3))).float() for v in vs])
        ras = MeshRasterizer(raster_settings=RasterizationSettings(image_size=(H, W), faces_per_pixel=K, perspective_correct=True))
        frag = ras(mesh, cameras=cam)
        if case["to"] and r.random() < 0.5:
            sh = sh.to("cpu")
        got = sh(frag, mesh, **call)
        fd = frag.detach()
        mask = frag.pix_to_face < 0
        has = ~mask[..., 0]
        ok = ok or bool((has[:, 1:] & has[:, :-1]).any() or (has[:, :, 1:] & has[:, :, :-1]).any())
        colors = phong_shading(mesh, fd, light, cam, mat, mesh.sample_textures(frag))
        fv = mesh.verts_packed()[mesh.faces_packed()].double()
        xyz = (fd.bary_coords.double()[..., None] * fv[frag.pix_to_face.clamp(min=0)]).sum(-2)
        safe = torch.where(mask[..., None], torch.ones_like(xyz), xyz)
        x32 = (fd.bary_coords[..., None] * mesh.verts_packed().detach()[mesh.faces_packed()][frag.pix_to_face.clamp(min=0)]).sum(-2)
        z = cam.transform_points_screen(x32.reshape(N, -1, 3), image_size=(H, W), with_xyflip=False).reshape(x32.shape)[..., 2]
        pos = pixels(models, safe, H, W)
        want = reference(colors.double(), pos, z.double(), mask, 0.5, bgt.double())
        if case["origin"]:
            # background pixels (whose position is the camera itself) leave the derivative of the pose alone
            gT = torch.autograd.grad(got.sum(), cam.T, retain_graph=True, allow_unused=True)[0]
            assert gT is None or bool(torch.isfinite(gT).all()), f"the gradient of the camera position is {gT.tolist()}"
        compare(got, want, [*vs, *cs], [*(f"vertices {i}" for i in range(N)), *(f"colours {i}" for i in range(N))], r, tol=2e-3, gtol=2e-2)
    cx.trivial(not ok)
