"""C17: what a camera sees through the mesh rasterizer equals ray casting in view space, whatever crosses the near plane."""
import numpy as np
import torch

from pytorch3d.renderer import MeshRasterizer, RasterizationSettings
from pytorch3d.renderer.fisheyecameras import FishEyeCameras
from pytorch3d.renderer.mesh.rasterize_meshes import rasterize_meshes
from pytorch3d.renderer.mesh.rasterizer import Fragments
from pytorch3d.structures import Meshes
from vlib import cams, ref2d
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng

PROP = "C17"
RULE = ("Batches of 1-3 random meshes (0-8 faces in front of, behind and across the near plane and the image border) seen "
        "by 1-3 cameras of every model with random pose, image size, clipping distance, culling and blur. Oracle: "
        "ray-triangle intersection in float64. Non-trivial: some pixel sees a face.")


def rays(model, H, W):
    """Origins and directions in view space, (H, W, 3); the parameter along the ray is the depth."""
    p = ref2d.centres(H, W)
    K = model.K
    if model.screen:
        h, w = model.hw
        c = np.array([w, h]) / 2.0
        # ndc = (proj - 2 pp + c) / s
        p = p * (min(h, w) / 2.0) + 2 * model.pp() - c
    A = np.linalg.inv(K[:2, :2])
    if K[3, 2]:
        d_ = (p - K[:2, 2]) @ A.T
        o = np.broadcast_to(np.zeros(3), (H, W, 3))
        return o, np.concatenate([d_, np.ones((H, W, 1))], -1)
    o = (p - K[:2, 3]) @ A.T
    return np.concatenate([o, np.zeros((H, W, 1))], -1), np.broadcast_to(np.array([0, 0, 1.0]), (H, W, 3))


def clipped(tri, zc):
    """Polygon of the part of the triangle with depth >= zc."""
    out = []
    for i in range(3):
        a, b = tri[i], tri[(i + 1) % 3]
        if a[2] >= zc:
            out.append(a)
        if (a[2] >= zc) != (b[2] >= zc):
            t = (a[2] - zc) / (a[2] - b[2])
            out.append(a + t * (b - a))
    return out


def cast(model, tri, H, W, zclip, cull, persp):
    """(H, W, F) arrays: sure, maybe, depth, bary, tolerances, ndc edge distance of faces which are not clipped."""
    F = len(tri)
    o, dr = rays(model, H, W)
    z = tri[:, :, 2]
    res = {k: np.zeros((H, W, F)) for k in ("z", "tz", "tw", "dist", "td")}
    res["sure"], res["maybe"] = np.zeros((H, W, F), bool), np.zeros((H, W, F), bool)
    res["bary"] = np.zeros((H, W, F, 3))
    res["whole"] = np.zeros(F, bool)
    res["dropped"] = np.zeros(F, bool)
    pix = ref2d.centres(H, W)
    for f in range(F):
        t = tri[f]
        zmin = z[f].min()
        unsure = False
        if zclip is None:
            if zmin < 1e-9:
                res["dropped"][f] = True
                continue
            unsure = zmin < 1e-2
            poly = [v for v in t]
            res["whole"][f] = True
        else:
            unsure = bool((np.abs(z[f] - zclip) < 1e-3 * max(1.0, zclip)).any())
            poly = clipped(t, zclip)
            res["whole"][f] = zmin >= zclip
            if len(poly) < 3 and not unsure:
                res["dropped"][f] = True
                continue
        n = np.cross(t[1] - t[0], t[2] - t[0])
        den = (dr * n).sum(-1)
        with np.errstate(all="ignore"):
            s = ((t[0] - o) * n).sum(-1) / den
            X = o + s[..., None] * dr
            nn = (n * n).sum()
            w = np.stack([(np.cross(t[2] - t[1], X - t[1]) * n).sum(-1), (np.cross(t[0] - t[2], X - t[2]) * n).sum(-1),
                          (np.cross(t[1] - t[0], X - t[0]) * n).sum(-1)], -1) / nn
        q = model.ndc(np.array(poly))[:, :2] if len(poly) >= 3 else np.zeros((0, 2))
        if len(q) < 3:
            res["maybe"][..., f] = True
            continue
        # conditioning in the image; both ways to split a quadrilateral
        parts = [(q[0], q[1], q[2])] if len(q) == 3 else [(q[0], q[1], q[2]), (q[0], q[2], q[3]), (q[1], q[2], q[3]), (q[1], q[3], q[0])]
        areas = [abs(ref2d.cross2(b - a, c - a)) for a, b, c in parts]
        L = max(np.abs(q).max(), np.abs(pix).max())
        zr = max(v[2] for v in poly) / max(min(v[2] for v in poly), 1e-6) if persp else 1.0
        if nn < 1e-10 or min(areas) < 1e-3:
            res["maybe"][..., f] = True
            continue
        tb = (6e-6 * L * L + 1e-6) / min(areas)
        tw = min(tb * zr * 4 + 2e-5, 1.0)
        inq = np.zeros((H, W), bool)
        clear = np.ones((H, W), bool)
        near = np.zeros((H, W), bool)
        for a, b, c in parts:
            wq = ref2d.bary2(pix, a, b, c)
            inq |= (wq > 0).all(-1)
            clear &= (np.abs(wq) > 2 * tb).all(-1) | (wq < -2 * tb).any(-1)
            near |= (wq > -2 * tb).all(-1)
        # the two views of coverage (ray in view space, pixel in the image) agree
        ok = np.isfinite(s)
        front = (w > 0).all(-1) & (s > (zclip or 0)) & ok
        chk = clear & (np.abs(w).max(-1) < 50) & (tw < 0.01)
        if not unsure:
            assert (front == inq)[chk & ok].all(), "oracle: ray casting disagrees with the projected polygon"
        nc = -np.sign(den)  # +1: front facing
        vis = np.ones((H, W), bool)
        if cull:
            vis = nc > 0
        res["sure"][..., f] = front & inq & clear & vis & (not unsure) & (tw < 0.02)
        res["maybe"][..., f] = (near | unsure | (tw >= 0.02)) & (vis | (min(areas) < 1e-2) | (np.abs(den) < 1e-4 * np.sqrt(nn)))
        res["z"][..., f], res["bary"][..., f, :] = s, w
        res["tw"][..., f] = tw
        res["tz"][..., f] = tw * np.abs(z[f]).max() * 2 + 1e-4
        if res["whole"][f]:
            dd = ref2d.tri2(pix, *(v for v in q))
            res["dist"][..., f] = dd
            res["td"][..., f] = 3e-5 * np.sqrt(dd) * max(1, L) + 1e-5
    return res


def triangles(r, F, model, persp, kind):
    """View-space triangles aimed at the image."""
    out = []
    for _ in range(F):
        k = r.integers(0, 6)
        near = 0.4
        if k == 0:  # across the near plane
            z = np.array([r.uniform(-2, 0.3), r.uniform(0.5, 4), r.uniform(-2, 4)])
            c = r.uniform(-1, 1, 2)
            t = np.concatenate([c + r.uniform(-2, 2, (3, 2)), r.permutation(z)[:, None]], 1)
        elif k == 1:  # large ground-like triangle passing under and behind the camera
            s = r.uniform(2, 6)
            y = -r.uniform(0.2, 1)
            t = np.array([[s, y, -s], [-s, y, -s], [0, y, s * 2]]) + r.uniform(-0.3, 0.3, (3, 3))
            if r.random() < 0.5:
                t = np.array([[s, y, s], [-s, y, s], [0, y, -s]]) + r.uniform(-0.3, 0.3, (3, 3))
            t = t[r.permutation(3)]
            if r.random() < 0.5:
                t = t[:, [1, 0, 2]]
        elif k == 2:  # behind
            t = np.concatenate([r.uniform(-2, 2, (3, 2)), -r.uniform(0.1, 3, (3, 1))], 1)
        else:
            z = r.uniform(0.5, 5, (3, 1))
            xy = r.uniform(-1, 1, (1, 2)) + r.uniform(-1.2, 1.2, (3, 2))
            t = np.concatenate([xy * (z if persp else 1), z], 1)
            if k == 5:
                t[:, 2] = z[0]
        out.append(t)
    return np.array(out).reshape(-1, 3, 3)


@sub(d(seed=SEED, typ=one_of(*cams.TYPES), N=ints(1, 3), F=ints(0, 8), H=ints(2, 14), W=ints(2, 14), K=ints(1, 5), useK=boolean(),
       zclip=one_of("default", "default", "small", "big"), cullf=boolean(), cull=boolean(), blur=one_of(0.0, 0.0, 0.0, 0.01), one=boolean(),
       share=boolean(), settings=boolean()), quick=500, thorough=20000)
def rasterizer(case, cx):
    r = rng(case["seed"])
    N, typ = case["N"], case["typ"]
    persp = typ in ("fovp", "persp", "persp_s")
    C = 1 if case["one"] else N
    cam, models, kw = cams.make(r, typ, C, case["useK"], False, None if not typ.endswith("_s") else "one")
    H, W = case["H"], case["W"]
    if typ.endswith("_s"):
        hw = models[0].hw
        H, W = int(hw[0]), int(hw[1])
        if H * W > 400:
            # small screens only
            cx.trivial()
            return
    if C == 1:
        models = models * N
    cx.label(typ)
    vs, fs, tris = [], [], []
    for n in range(N):
        nf = int(r.integers(0, case["F"] + 1)) if N > 1 else case["F"]
        t = triangles(r, nf, models[n], persp, None)
        if typ.endswith("_s") or case["useK"] or True:
            # spread the triangles around the axis through the middle of the image
            o, dr = rays(models[n], H, W)
            mid_o, mid_d = o.mean((0, 1)), dr.mean((0, 1))
            e = np.abs(dr - mid_d).max() if persp else np.abs(o - mid_o).max()
            e = max(e, 0.05)
            t = t.copy()
            t[..., :2] *= e
            t[..., :2] += mid_o[:2] + (mid_d[:2] * t[..., 2:])
        tri_w = (t.reshape(-1, 3) - models[n].T) @ models[n].R.T
        v = tri_w.astype(np.float32)
        f = np.arange(3 * nf).reshape(-1, 3)
        if nf == 0:
            v = np.zeros((1, 3), np.float32)
        vs.append(torch.from_numpy(v))
        fs.append(torch.from_numpy(f))
        # what float32 leaves of them
        tris.append((v.astype(np.float64) @ models[n].R + models[n].T).reshape(-1, 3, 3) if nf else np.zeros((0, 3, 3)))
    total = sum(len(t) for t in tris)
    cx.trivial(total == 0)
    if total == 0:
        return
    mesh = Meshes(vs, fs)
    zset = {"default": None, "small": 0.1, "big": 0.8}[case["zclip"]]
    zclip = zset
    if zclip is None and persp and typ == "fovp":
        zclip = float(np.float32(min(float(m.par["znear"]) for m in models))) / 2
    blur = case["blur"]
    K = case["K"] if not blur else 2 * total + 2
    rs = RasterizationSettings(image_size=(H, W), blur_radius=blur, faces_per_pixel=K, z_clip_value=zset,
                               cull_to_frustum=case["cullf"], cull_backfaces=case["cull"])
    if case["settings"]:
        frag = MeshRasterizer(cam, rs)(mesh)
    else:
        frag = MeshRasterizer()(mesh, cameras=cam, raster_settings=rs)
    p2f, zbuf, bary, dist = (x.numpy() for x in (frag.pix_to_face, frag.zbuf, frag.bary_coords, frag.dists))
    assert p2f.shape == (N, H, W, K), "shape"
    off = seen = 0
    for n in range(N):
        nf = len(tris[n])
        ref = cast(models[n], tris[n], H, W, zclip, case["cull"], persp)
        if ref["dropped"].any():
            cx.label("behind")
        if zclip is not None and nf and (~ref["whole"] & ~ref["dropped"]).any():
            cx.label("clipped")
        if zclip is None and not persp and ref["dropped"].any():
            pass
        for y in range(H):
            for x in range(W):
                ids = p2f[n, y, x]
                k = int((ids >= 0).sum())
                assert (ids[k:] == -1).all(), "empty slots are last"
                f = ids[:k] - off
                assert ((f >= 0) & (f < nf)).all(), f"pixel ({y},{x}): faces {ids} of another mesh ({off}..{off + nf - 1})"
                assert len(set(f.tolist())) == k, f"pixel ({y},{x}): face twice: {ids}"
                zs = zbuf[n, y, x, :k]
                assert (np.diff(zs) >= 0).all(), "depths not sorted"
                seen += k > 0
                for j, i in enumerate(f.tolist()):
                    where = f"mesh {n} pixel ({y},{x}) face {i}"
                    assert not ref["dropped"][i], f"{where}: is behind the camera"
                    if not ref["maybe"][y, x, i]:
                        assert blur > 0 and dist[n, y, x, j] > 0, f"{where}: the ray does not meet it"
                    if ref["sure"][y, x, i]:
                        e = abs(zs[j] - ref["z"][y, x, i])
                        assert e <= ref["tz"][y, x, i], f"{where}: depth {zs[j]} instead of {ref['z'][y, x, i]}"
                        e = np.abs(bary[n, y, x, j] - ref["bary"][y, x, i]).max()
                        assert e <= ref["tw"][y, x, i], f"{where}: barycentric {bary[n, y, x, j]} instead of {ref['bary'][y, x, i]}"
                        if ref["dist"][y, x, i] > 0 or not ref["whole"][i]:
                            assert dist[n, y, x, j] <= 0, f"{where}: inside but distance {dist[n, y, x, j]}"
                        if ref["whole"][i]:
                            e = abs(-dist[n, y, x, j] - ref["dist"][y, x, i])
                            assert e <= ref["td"][y, x, i], f"{where}: distance {dist[n, y, x, j]} instead of {-ref['dist'][y, x, i]}"
                last = zs[-1] if k == K else np.inf
                for i in np.nonzero(ref["sure"][y, x])[0].tolist():
                    if i not in f.tolist():
                        assert k == K and ref["z"][y, x, i] > last - ref["tz"][y, x, i], \
                            f"mesh {n} pixel ({y},{x}): face {i} at depth {ref['z'][y, x, i]} is missing (kept {f.tolist()} at {zs})"
        off += nf
    cx.trivial(seen == 0)


@sub(d(seed=SEED, F=ints(1, 5), S=ints(2, 8), persp=boolean()), quick=250, thorough=8000)
def clip_gradients(case, cx):
    """With clipped faces, depth and barycentric coordinates have the gradient of the ray intersection."""
    r = rng(case["seed"])
    S, persp = case["S"], case["persp"]
    K = np.diag([1.0, 1, 1, 1]) if not persp else np.array([[1.0, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]])
    model = cams.Model("persp" if persp else "ortho", np.eye(3), np.zeros(3), K, (S, S), {})
    t = triangles(r, case["F"], model, persp, None)
    t[np.abs(t[..., 2]) < 0.15, 2] = 0.15
    v32 = torch.from_numpy(t.reshape(-1, 3).astype(np.float32)).requires_grad_()
    tri = v32.detach().double().numpy().reshape(-1, 3, 3)
    zclip = 0.4
    F = len(tri)
    ndc = torch.cat([v32[:, :2] / v32[:, 2:], v32[:, 2:]], 1) if persp else v32
    m = Meshes([ndc], [torch.arange(3 * F).reshape(-1, 3)])
    p2f, zbuf, bary, dist = rasterize_meshes(m, S, 0.0, 2 * F, perspective_correct=persp, z_clip_value=zclip)
    ref = cast(model, tri, S, S, zclip, False, persp)
    # float64 rays
    leaf = torch.from_numpy(tri).requires_grad_()
    o, dr = (torch.from_numpy(np.ascontiguousarray(a)) for a in rays(model, S, S))
    idx = np.argwhere(p2f[0].numpy() >= 0)
    loss64, loss = 0, 0
    n_ok = 0
    scale = torch.zeros(F)
    for y, x, k in idx:
        f = int(p2f[0, y, x, k])
        if not ref["sure"][y, x, f] or ref["tw"][y, x, f] > 2e-3:
            continue
        a, b, c = leaf[f]
        n = torch.linalg.cross(b - a, c - a)
        den = (dr[y, x] * n).sum()
        if abs(float(den)) < 0.1 * float(n.norm()) or float(n.norm()) < 0.2:
            continue
        s = ((a - o[y, x]) * n).sum() / den
        X = o[y, x] + s * dr[y, x]
        nn = (n * n).sum()
        w = torch.stack([(torch.linalg.cross(c - b, X - b) * n).sum(), (torch.linalg.cross(a - c, X - c) * n).sum(), (torch.linalg.cross(b - a, X - a) * n).sum()]) / nn
        g = torch.from_numpy(r.standard_normal(4)).float()
        loss64 = loss64 + g[0].double() * s + (g[1:].double() * w).sum()
        loss = loss + g[0] * zbuf[0, y, x, k] + (g[1:] * bary[0, y, x, k]).sum()
        n_ok += 1
        scale[f] += 1
        if not ref["whole"][f]:
            cx.label("clipped")
    cx.trivial(n_ok == 0)
    if n_ok == 0:
        return
    w = torch.autograd.grad(loss64, leaf)[0]
    g = torch.autograd.grad(loss, v32)[0].double().reshape(F, 3, 3)
    # conditioning grows with the depth ratio
    for f in range(F):
        sc = max(1.0, float(w[f].abs().max())) * (1 + float(scale[f])) ** 0.5
        e = float((g[f] - w[f]).abs().max())
        assert e <= 1e-2 * sc, f"face {f}: gradient {g[f].tolist()} instead of {w[f].tolist()}"


@sub(d(seed=SEED, N=ints(2, 4), which=ints(0, 3), cullf=boolean(), zc=boolean()), quick=150, thorough=4000)
def empty_meshes(case, cx):
    """Meshes without faces, anywhere in the batch, do not disturb the others."""
    r = rng(case["seed"])
    N = case["N"]
    vs, fs = [], []
    for n in range(N):
        nf = 0 if n == case["which"] % N or r.random() < 0.3 else int(r.integers(1, 4))
        t = triangles(r, nf, None, True, None).astype(np.float32)
        t[..., 2] = np.where(np.abs(t[..., 2]) < 0.1, 0.1, t[..., 2])
        t[..., :2] /= t[..., 2:]
        vs.append(torch.from_numpy(t.reshape(-1, 3)) if nf else torch.zeros(1, 3))
        fs.append(torch.arange(3 * nf).reshape(-1, 3))
    total = sum(len(f) for f in fs)
    cx.trivial(total == 0)
    if total == 0:
        return
    kw = dict(image_size=(5, 7), faces_per_pixel=3, perspective_correct=True, z_clip_value=0.3 if case["zc"] else None, cull_to_frustum=case["cullf"])
    out = rasterize_meshes(Meshes(vs, fs), **kw)
    off = 0
    for n in range(N):
        if len(fs[n]) == 0:
            assert bool((out[0][n] == -1).all()), f"mesh {n} has no faces but is drawn"
            continue
        one = rasterize_meshes(Meshes(vs[n:n + 1], fs[n:n + 1]), **kw)
        p = torch.where(one[0] >= 0, one[0] + off, one[0])
        equal(out[0][n], p[0], f"pix_to_face of mesh {n} alone")
        for k in range(1, 4):
            equal(out[k][n], one[k][0], f"output {k} of mesh {n} alone")
        off += len(fs[n])


@sub(d(seed=SEED, typ=one_of("fovp", "fovo", "persp", "ortho", "fisheye"), N=ints(1, 3), one=boolean(), where=one_of("init", "call", "both"), blur=one_of(0.0, 0.05), K=ints(1, 3),
       persp=one_of(None, True, False), clip=one_of(None, None, True, False), z=one_of(None, 0.7), cull=boolean(), frustum=boolean(), size=one_of("int", "tuple")), quick=200, thorough=8000)
def settings(case, cx):
    """MeshRasterizer is rasterize_meshes of the projected mesh with the documented options."""
    r = rng(case["seed"])
    N, typ = case["N"], case["typ"]
    C = 1 if case["one"] else N

    def camera(C):
        if typ != "fisheye":
            return cams.make(r, typ, C)[0]
        R, T = torch.from_numpy(np.stack([np.eye(3)] * C)).float(), torch.from_numpy(r.uniform(-0.3, 0.3, (C, 3))).float()
        return FishEyeCameras(focal_length=torch.full((C, 1), 1.2), principal_point=torch.zeros(C, 2), R=R, T=T, use_radial=True, use_tangential=False, use_thin_prism=False,
                              radial_params=torch.full((C, 6), 0.01), world_coordinates=True, image_size=torch.tensor([[8, 8]] * C))

    if typ == "fisheye" and C > 1:
        C = 1
    cam, other = camera(C), camera(C)
    size = int(r.integers(2, 10)) if case["size"] == "int" else tuple(int(v) for v in r.integers(2, 10, 2))
    opt = dict(image_size=size, blur_radius=case["blur"], faces_per_pixel=case["K"], cull_backfaces=case["cull"], cull_to_frustum=case["frustum"])
    rs = RasterizationSettings(perspective_correct=case["persp"], clip_barycentric_coords=case["clip"], z_clip_value=case["z"], **opt)
    vs, fs = [], []
    for n in range(N):
        F = int(r.integers(1, 5))
        V = r.uniform(-1, 1, (3 * F, 3)) + [0, 0, 2.5]
        V[:, :2] *= V[:, 2:] * 0.6
        V[r.random(3 * F) < 0.1, 2] *= -1
        R, T = cam.R[min(n, C - 1)].double().numpy(), cam.T[min(n, C - 1)].double().numpy()
        vs.append(torch.from_numpy((V - T) @ np.linalg.inv(R)).float())
        fs.append(torch.arange(3 * F).reshape(-1, 3))
    mesh = Meshes(vs, fs)
    raises(lambda: MeshRasterizer(raster_settings=rs)(mesh), ValueError, what="no cameras")
    if C == 1 and N > 1 and typ != "fisheye":
        raises(lambda: MeshRasterizer(cams.make(r, typ, N + 1)[0], rs)(mesh), ValueError, what="a wrong number of cameras")
    if case["where"] == "init":
        ras, kw = MeshRasterizer(cam, rs), {}
    elif case["where"] == "call":
        ras, kw = MeshRasterizer(), dict(cameras=cam, raster_settings=rs)
    else:
        ras, kw = MeshRasterizer(other, RasterizationSettings(image_size=3, blur_radius=0.3, cull_backfaces=not case["cull"])), dict(cameras=cam, raster_settings=rs)
    frag = ras(mesh, **kw)
    proj = ras.transform(mesh, **kw)
    view = [x for x in cam.get_world_to_view_transform().transform_points(mesh.verts_padded())]
    ndc = cam.transform_points_ndc(mesh.verts_padded()) if typ != "fisheye" else cam.transform_points(mesh.verts_padded())
    for n, v in enumerate(proj.verts_list()):
        k = len(v)
        close(v[:, 2], view[n][:k, 2], atol=1e-5, rtol=1e-5, what="depth of the projected vertices")
        close(v[:, :2], ndc[n][:k, :2], atol=1e-4, rtol=1e-3, what="projected vertices")
    persp = cam.is_perspective() if case["persp"] is None else case["persp"]
    zn = cam.get_znear()
    zn = float(zn.min()) if torch.is_tensor(zn) else zn
    z = case["z"] if case["z"] is not None else (zn / 2 if persp and zn is not None else None)
    clip = case["blur"] > 0 if case["clip"] is None else case["clip"]
    want = rasterize_meshes(proj, perspective_correct=persp, clip_barycentric_coords=clip, z_clip_value=z, **opt)
    cx.trivial(not bool((want[0] >= 0).any()))
    cx.label(typ)
    for a, b, n in zip((frag.pix_to_face, frag.zbuf, frag.bary_coords, frag.dists), want, ("faces", "depths", "barycentric coordinates", "distances")):
        equal(a, b, f"{n} are not those of rasterize_meshes with these options")
    # a detached copy, also without distances
    g = Fragments(frag.pix_to_face, frag.zbuf.clone().requires_grad_(), frag.bary_coords.clone().requires_grad_(), None if r.random() < 0.5 else frag.dists.clone().requires_grad_())
    dt = g.detach()
    for a, b in zip((dt.pix_to_face, dt.zbuf, dt.bary_coords, dt.dists), (g.pix_to_face, g.zbuf, g.bary_coords, g.dists)):
        assert (a is None) == (b is None), "detach drops or adds distances"
        if a is not None:
            equal(a, b.detach(), "detach changed the values")
            assert not a.requires_grad, "detach keeps the graph"
