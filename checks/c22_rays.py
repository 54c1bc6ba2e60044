"""C22: ray samplers, ray marchers and the volume and implicit renderers."""
import itertools

import numpy as np
import torch

from pytorch3d.renderer import (AbsorptionOnlyRaymarcher, EmissionAbsorptionRaymarcher, GridRaysampler, HeterogeneousRayBundle, ImplicitRenderer,
                                MonteCarloRaysampler, MultinomialRaysampler, NDCGridRaysampler, NDCMultinomialRaysampler, RayBundle, VolumeRenderer,
                                VolumeSampler, ray_bundle_to_ray_points)
from pytorch3d.structures import Volumes
from vlib import cams, ref2d
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng, rot

T = lambda a: torch.from_numpy(np.asarray(a)).float()

PROP = "C22"
RULE = ("Ray samplers (grid, NDC grid, random pixels, masks, random total, Monte Carlo) with 1-4 cameras of every type; ray "
        "marchers on up to 12 points per ray; volumes of up to 4 grids of different sizes sampled along random rays. Oracle: "
        "float64 cameras, sums and trilinear interpolation per point. Non-trivial: more than one ray / some point inside a grid.")


def check_rays(models, org, dirs, lens, xys, unit, what):
    """Rays (R, ..) of the cameras `models` (one per ray) project to xys with depth = length."""
    org, dirs, lens, xys = (np.asarray(a.detach(), dtype=np.float64) for a in (org, dirs, lens, xys))
    for i, m in enumerate(models):
        step = dirs[i]
        if unit:
            close(np.linalg.norm(step), 1.0, 1e-5, what=f"{what}: length of the direction")
            # depth per unit length along the ray
            dz = (step @ m.R)[2]
            step = step / dz
        else:
            close((step @ m.R)[2], 1.0, 2e-5 * (1 + np.abs(step).max()), what=f"{what}: depth of the direction")
        V = m.view(org[i][None] + np.array([[0.0], [1.0], [3.0]]) * step[None])
        close(V[:, 2], np.array([0.0, 1, 3]), 1e-4 * (1 + np.abs(V).max()), what=f"{what}: depth of the points of the ray")
        V = V[1:]
        p = m.ndc(V)[:, :2]
        tol = 3e-4 * (1 + np.abs(p).max()) * (1 + np.abs(m.K[:2]).max() / (min(m.hw) / 2 if m.screen else 1))
        close(p, np.broadcast_to(xys[i], (2, 2)), tol, what=f"{what}: projection of the ray of {m.typ}")


def ndc_grid(H, W):
    return ref2d.centres(H, W)


def camera(r, typ, N, bc):
    size = "each" if typ.endswith("_s") and N > 1 else ("one" if typ.endswith("_s") else None)
    return cams.make(r, typ, N, bc=bc and not typ.endswith("_s"), image_size=size)[:2]


CAM = dict(seed=SEED, typ=one_of(*cams.TYPES), N=ints(1, 4), bc=boolean(), H=ints(1, 6), W=ints(1, 6), P=ints(0, 5),
           unit=boolean())


def sampler(r, case, **kw):
    H, W = case["H"], case["W"]
    lo, hi = sorted(r.uniform(0.1, 5, 2).tolist())
    old = not (case["unit"] or any(kw.values())) and r.random() < 0.5
    kw = dict(n_pts_per_ray=case["P"], min_depth=lo, max_depth=hi, unit_directions=case["unit"], **kw)
    if old:
        kw = {k: kw[k] for k in ("n_pts_per_ray", "min_depth", "max_depth")}
    if r.random() < 0.6:
        if old:
            return NDCGridRaysampler(image_width=W, image_height=H, **kw), ndc_grid(H, W), lo, hi
        return NDCMultinomialRaysampler(image_width=W, image_height=H, **kw), ndc_grid(H, W), lo, hi
    x0, x1, y0, y1 = r.uniform(-1.5, 1.5, 4).tolist()
    s = (GridRaysampler if old else MultinomialRaysampler)(min_x=x0, max_x=x1, min_y=y0, max_y=y1, image_width=W, image_height=H, **kw)
    g = np.stack(np.meshgrid(np.linspace(x0, x1, W), np.linspace(y0, y1, H), indexing="xy"), -1)
    return s, g, lo, hi


def check_lengths(lens, lo, hi, P, strat, what):
    if P == 0:
        return
    lens = np.asarray(lens, dtype=np.float64).reshape(-1, P)
    c = np.linspace(lo, hi, P)
    if not strat:
        close(lens, np.broadcast_to(c, lens.shape), 1e-5 * (1 + abs(hi)), what=what + ": depths")
        return
    m = (c[1:] + c[:-1]) / 2
    a, b = np.concatenate([c[:1], m]), np.concatenate([m, c[-1:]])
    e = 1e-5 * (1 + abs(hi))
    assert (lens >= a - e).all() and (lens <= b + e).all(), f"{what}: stratified depths {lens} outside their strata {a} {b}"
    if lens.size >= 8 and P > 1 and hi - lo > 0.1:
        assert np.abs(lens - lens[:1]).max() > 0 or len(lens) == 1, f"{what}: all rays have the same stratified depths"


@sub(d(strat=boolean(), call=boolean(), **CAM), quick=250, thorough=12000)
def grid(case, cx):
    r = rng(case["seed"])
    torch.manual_seed(case["seed"])
    N, H, W, P = case["N"], case["H"], case["W"], case["P"]
    cam, models = camera(r, case["typ"], N, case["bc"])
    cx.label(case["typ"])
    s, g, lo, hi = sampler(r, case, stratified_sampling=case["strat"] != case["call"])
    kw = {}
    if case["call"]:
        lo, hi = sorted(r.uniform(0.1, 5, 2).tolist())
        P = int(r.integers(0, 4))
        kw = dict(min_depth=lo, max_depth=hi, n_pts_per_ray=P, stratified_sampling=case["strat"])
    b = s(cam, **kw)
    assert isinstance(b, RayBundle)
    assert b.origins.shape == b.directions.shape == (N, H, W, 3) and b.lengths.shape == (N, H, W, P) and b.xys.shape == (N, H, W, 2)
    close(b.xys, np.broadcast_to(g, (N, H, W, 2)), 1e-5, what="grid of image coordinates")
    check_lengths(b.lengths, lo, hi, P, case["strat"], "grid")
    f = lambda t: t.reshape(N * H * W, -1)
    check_rays([models[i] for i in range(N) for _ in range(H * W)], f(b.origins), f(b.directions), b.lengths.reshape(N * H * W, P),
               f(b.xys), case["unit"], "grid")
    if P:
        pts = ray_bundle_to_ray_points(b)
        want = b.origins.double()[..., None, :] + b.lengths.double()[..., None] * b.directions.double()[..., None, :]
        close(pts, want, 1e-4, what="ray_bundle_to_ray_points")


@sub(d(mode=one_of("rays", "rays_call", "mask", "mask_rays", "total", "total_call", "total_mask", "mc", "mc_total"),
       n=ints(1, 12), strat=boolean(), mtype=one_of("float", "double"), **CAM), quick=350, thorough=20000)
def random(case, cx):
    r = rng(case["seed"])
    torch.manual_seed(case["seed"])
    N, H, W, P, n, mode = case["N"], case["H"], case["W"], case["P"], case["n"], case["mode"]
    cam, models = camera(r, case["typ"], N, case["bc"])
    cx.label(mode)
    mask = None
    if "mask" in mode:
        mask = r.random((N, H, W)) < r.choice([0.2, 0.6, 0.95])
        for i in range(N):
            if not mask[i].any():
                mask[i, r.integers(H), r.integers(W)] = True
    what = mode
    if mode.startswith("mc"):
        lo, hi = sorted(r.uniform(0.1, 5, 2).tolist())
        x0, x1 = sorted(r.uniform(-1.5, 1.5, 2).tolist())
        y0, y1 = sorted(r.uniform(-1.5, 1.5, 2).tolist())
        s = MonteCarloRaysampler(x0, x1, y0, y1, None if mode == "mc_total" else n, P, lo, hi,
                                 n_rays_total=n if mode == "mc_total" else None, unit_directions=case["unit"],
                                 stratified_sampling=case["strat"])
        b = s(cam)
        total = mode == "mc_total"
    else:
        init, call = {}, {}
        tot = mode.startswith("total")
        if mode != "mask":
            key = "n_rays_total" if tot else "n_rays_per_image"
            (call if mode.endswith("call") or (mode == "total_mask" and r.random() < 0.5) else init)[key] = n
            if call and r.random() < 0.5:
                init[key] = n + 3  # overridden by the call
        s, g, lo, hi = sampler(r, case, stratified_sampling=case["strat"], **init)
        if mask is not None:
            m = torch.from_numpy(mask)
            call["mask"] = {"float": m.float(), "double": m.double()}[case["mtype"]]
        b = s(cam, **call)
        total = tot
        if mode in ("rays", "rays_call") and r.random() < 0.3:
            raises(lambda: s(cam, n_rays_total=3, n_rays_per_image=2), ValueError, what="both numbers of rays")
    if total:
        assert isinstance(b, HeterogeneousRayBundle)
        assert b.origins.shape == b.directions.shape == (n, 1, 3) if mode.startswith("mc") else b.origins.shape == (n, 1, 1, 3), f"{what}: {b.origins.shape}"
        ids, cnt = b.camera_ids.tolist(), b.camera_counts.tolist()
        assert sum(cnt) == n and ids == sorted(set(ids)) and all(0 <= i < N for i in ids) and min(cnt) > 0, f"{what}: cameras {ids} x {cnt}"
        which = [i for i, c in zip(ids, cnt) for _ in range(c)]
        R = n
    else:
        assert isinstance(b, RayBundle)
        k = n
        if mode == "mask":
            k = int(mask.sum((1, 2)).min())
        shape = (N, k) if mode == "mc" else (N, k, 1)
        assert b.origins.shape[:-1] == shape, f"{what}: shape {b.origins.shape} instead of {shape}"
        which = [i for i in range(N) for _ in range(k)]
        R = N * k
    cx.trivial(R < 2)
    org, dirs, xys = b.origins.reshape(R, 3), b.directions.reshape(R, 3), b.xys.reshape(R, 2)
    assert b.lengths.shape[-1] == P
    lens = b.lengths.reshape(R, P)
    check_lengths(lens, lo, hi, P, case["strat"], what)
    check_rays([models[i] for i in which], org, dirs, lens, xys, case["unit"], what)
    xy = xys.numpy().astype(np.float64)
    if mode.startswith("mc"):
        e = 1e-5
        assert (xy >= [x0 - e, y0 - e]).all() and (xy <= [x1 + e, y1 + e]).all(), "Monte Carlo rays outside the rectangle"
        return
    # every ray is that of a pixel, inside the mask; without repetition where there are enough pixels
    dist = np.abs(xy[:, None] - g.reshape(1, -1, 2)).max(-1)
    if len(np.unique(np.round(g.reshape(-1, 2), 4), axis=0)) < H * W:
        return
    pix = dist.argmin(1)
    assert (dist.min(1) < 1e-5).all(), f"{what}: rays of no pixel"
    which = np.array(which)
    for i in range(N):
        p = pix[which == i]
        ok = np.nonzero(mask[i].reshape(-1))[0] if mask is not None else np.arange(H * W)
        assert np.isin(p, ok).all(), f"{what}: camera {i}: pixels {p} outside of the mask {ok}"
        if len(p) <= len(ok) and not (total and len(ok) < max(np.bincount(which))):
            assert len(set(p.tolist())) == len(p), f"{what}: camera {i}: pixel sampled twice although {len(ok)} are available: {p}"


@sub(d(seed=SEED, pre=one_of("2", "11", "31", "0", "231"), P=ints(1, 12), C=ints(0, 4), thick=ints(1, 5), eps=one_of(None, 1e-10, 1e-3),
       kind=one_of("uniform", "binary", "sparse")), quick=300, thorough=15000)
def raymarching(case, cx):
    r = rng(case["seed"])
    shape = tuple(int(c) for c in case["pre"])
    P, C, th = case["P"], case["C"], case["thick"]
    a = r.random((*shape, P))
    if case["kind"] != "uniform":
        a = np.where(r.random(a.shape) < 0.5, 0.0, 1.0 if case["kind"] == "binary" else a)
    a = torch.from_numpy(a).float()
    f = torch.from_numpy(r.standard_normal((*shape, P, C))).float()
    cx.trivial(a.numel() == 0)
    if a.numel() == 0:
        return
    a.requires_grad_(), f.requires_grad_()
    eps = case["eps"]
    got = EmissionAbsorptionRaymarcher(surface_thickness=th)(a[..., None], f, **({} if eps is None else {"eps": eps}), ray_bundle=None)
    A, Fe = a.detach().double().requires_grad_(), f.detach().double().requires_grad_()
    e = 1e-10 if eps is None else eps
    cols = []
    for i in range(P):
        w = A[..., i]
        for j in range(0, i + 1 - th):
            w = w * (1 + e - A[..., j])
        cols.append(w)
    w = torch.stack(cols, -1)
    op = 1 - torch.stack([1 - A[..., i] for i in range(P)]).prod(0)
    want = torch.cat([(w[..., None] * Fe).sum(-2), op[..., None]], -1)
    close(got, want, 1e-5 * P, what="emission absorption")
    got2 = AbsorptionOnlyRaymarcher()(rays_densities=a[..., None], rays_features=f)
    close(got2, op[..., None], 1e-5 * P, what="absorption only")
    g = torch.from_numpy(r.standard_normal(tuple(got.shape)))
    ga, gf = torch.autograd.grad((got * g.float()).sum() + 2 * got2.sum(), [a, f], allow_unused=True)
    wa, wf = torch.autograd.grad((want * g).sum() + 2 * op.sum(), [A, Fe], allow_unused=True)
    close(ga, wa, 2e-5 * P * (1 + float(wa.abs().max())), what="gradient of the densities")
    if C:
        close(gf, wf, 1e-5 * P, what="gradient of the features")


def trilinear(vol, x, align, mode, pad):
    """vol (C, D, H, W), local coordinates x (3) in [-1, 1]; returns (C,) or None near a discontinuity."""
    size = np.array(vol.shape[:0:-1])  # W, H, D
    i = (x + 1) / 2 * (size - 1) if align else ((x + 1) * size - 1) / 2
    out = np.zeros(vol.shape[0])
    if pad == "border":
        i = np.clip(i, 0, size - 1)
    if mode == "nearest":
        if (np.abs(i - np.floor(i) - 0.5) < 1e-3).any():
            return None
        j = np.round(i).astype(int)
        if ((j < 0) | (j >= size)).any():
            return out
        return vol[:, j[2], j[1], j[0]]
    f = np.floor(i).astype(int)
    for o in itertools.product((0, 1), repeat=3):
        j = f + np.array(o)
        wt = np.prod(np.where(np.array(o) == 1, i - f, 1 - (i - f)))
        if ((j >= 0) & (j < size)).all():
            out += wt * vol[:, j[2], j[1], j[0]]
    return out


@sub(d(seed=SEED, N=ints(1, 4), hetero=boolean(), C=ints(1, 3), Dd=ints(1, 2), feats=boolean(), align=boolean(),
       mode=one_of("bilinear", "bilinear", "nearest"), pad=one_of("zeros", "zeros", "border"), S=one_of("2", "31", "23"), P=ints(1, 5),
       rotate=boolean(), listin=boolean()), quick=250, thorough=12000)
def volumes(case, cx):
    r = rng(case["seed"])
    N, C, Dd = case["N"], case["C"], case["Dd"]
    sizes = [tuple(int(v) for v in r.integers(2, 6, 3))] * N
    if case["hetero"]:
        sizes = [tuple(int(v) for v in r.integers(2, 6, 3)) for _ in range(N)]
    hetero = len(set(sizes)) > 1
    cx.label("sizes differ" if hetero else "one size")
    dens = [torch.from_numpy(r.random((Dd, *s))).float() for s in sizes]
    fe = [torch.from_numpy(r.standard_normal((C, *s))).float() for s in sizes]
    dens = [t.requires_grad_() for t in dens]
    as_list = hetero or case["listin"]
    D_ = dens if as_list else torch.stack(dens)
    F_ = (fe if as_list else torch.stack(fe)) if case["feats"] else None
    vox = torch.from_numpy(r.uniform(0.3, 1.5, (N, 3))).float()
    tr = torch.from_numpy(r.uniform(-1, 1, (N, 3))).float()
    vol = Volumes(densities=D_, features=F_, voxel_size=vox, volume_translation=tr, align_corners=case["align"])
    S = tuple(int(c) for c in case["S"])
    P = case["P"]
    org = tr.numpy()[:, None] * -1 + r.uniform(-2, 2, (N, int(np.prod(S)), 3))
    dirs = r.standard_normal((N, int(np.prod(S)), 3))
    lens = r.uniform(0, 1.5, (N, int(np.prod(S)), P))
    t = lambda a, k: torch.from_numpy(a).float().reshape(N, *S, k)
    bundle = RayBundle(t(org, 3), t(dirs, 3), t(lens, P), torch.zeros(N, *S, 2))
    vs = VolumeSampler(vol, sample_mode=case["mode"], padding_mode=case["pad"])
    gd, gf = vs(bundle)
    assert gd.shape == (N, *S, P, Dd) and gf.shape == (N, *S, P, C if case["feats"] else 0)
    gd_, gf_ = gd.detach().reshape(N, -1, Dd).numpy(), gf.detach().reshape(N, int(np.prod(S)) * P, gf.shape[-1]).numpy()
    pts = (bundle.origins.double()[..., None, :] + bundle.lengths.double()[..., None] * bundle.directions.double()[..., None, :]).reshape(N, -1, 3).numpy()
    inside = 0
    for n in range(N):
        size = np.array(sizes[n][::-1])
        loc = (pts[n] + tr[n].double().numpy()) / (0.5 * vox[n].double().numpy() * (size - 1))
        inside += int((np.abs(loc) < 1).all(-1).sum())
        for q in range(loc.shape[0]):
            wd = trilinear(dens[n].detach().double().numpy(), loc[q], case["align"], case["mode"], case["pad"])
            if wd is None:
                continue
            close(gd_[n, q], wd, 5e-5, what=f"density of volume {n} at {loc[q]}")
            if case["feats"]:
                wf = trilinear(fe[n].double().numpy(), loc[q], case["align"], case["mode"], case["pad"])
                close(gf_[n, q], wf, 2e-4, what=f"feature of volume {n} at {loc[q]}")
    cx.trivial(inside == 0)
    # each density only gets the gradient of its own volume
    g = torch.autograd.grad(gd[0].sum(), dens, allow_unused=True) if as_list else None
    if g is not None:
        for n in range(1, N):
            assert g[n] is None or (g[n] == 0).all(), "gradient of another volume"
    if r.random() < 0.2:
        raises(lambda: vs(RayBundle(*(x[:0] for x in bundle))), ValueError, what="another batch size")


@sub(d(seed=SEED, typ=one_of(*cams.TYPES), N=ints(1, 3), marcher=one_of("ea", "ao"), P=ints(1, 5), total=boolean()), quick=120, thorough=6000)
def renderers(case, cx):
    """The renderers are the composition of sampler, volumetric function and marcher."""
    r = rng(case["seed"])
    N, P = case["N"], case["P"]
    cam, models = camera(r, case["typ"], N, False)
    total = case["total"]
    s = NDCMultinomialRaysampler(image_width=3, image_height=2, n_pts_per_ray=P, min_depth=0.5, max_depth=3.0,
                                 n_rays_total=7 if total else None)
    m = EmissionAbsorptionRaymarcher() if case["marcher"] == "ea" else AbsorptionOnlyRaymarcher()
    seen = {}

    def fn(ray_bundle, cameras, extra=None, **kw):
        seen["extra"], seen["cam"] = extra, cameras
        p = ray_bundle_to_ray_points(ray_bundle)
        return torch.sigmoid(p.sum(-1, keepdim=True)), torch.cat([p.sin(), p[..., :1]], -1)

    torch.manual_seed(case["seed"])
    img, b = ImplicitRenderer(raysampler=s, raymarcher=m)(cameras=cam, volumetric_function=fn, extra=42)
    torch.manual_seed(case["seed"])
    b2 = s(cam)
    for k in ("origins", "directions", "lengths", "xys"):
        equal(getattr(b, k), getattr(b2, k), what=f"ray bundle {k}")
    assert seen["extra"] == 42 and seen["cam"] is cam, "arguments are passed to the function"
    p = b2.origins.double()[..., None, :] + b2.lengths.double()[..., None] * b2.directions.double()[..., None, :]
    a = torch.sigmoid(p.sum(-1))
    tol = 3e-4 * P * (1 + float(p.abs().max()))
    op = 1 - (1 - a).prod(-1, keepdim=True)
    if case["marcher"] == "ea":
        tr = torch.cat([torch.ones_like(a[..., :1]), torch.cumprod(1 - a, -1)[..., :-1]], -1)
        want = torch.cat([((a * tr)[..., None] * torch.cat([p.sin(), p[..., :1]], -1)).sum(-2), op], -1)
    else:
        want = op
    close(img, want, tol, what="implicit renderer")
    raises(lambda: ImplicitRenderer(raysampler=s, raymarcher=3), ValueError, what="marcher not callable")
    raises(lambda: ImplicitRenderer(raysampler=s, raymarcher=m)(cameras=cam, volumetric_function=None), ValueError, what="function not callable")
    if total:
        return
    sizes = [tuple(int(v) for v in r.integers(2, 5, 3)) for _ in range(N)]
    vol = Volumes(densities=[T(r.random((1, *q))) for q in sizes], features=[T(r.random((3, *q))) for q in sizes],
                  voxel_size=1.5, volume_translation=T(r.uniform(-1, 1, (N, 3))))
    mode = ["bilinear", "nearest"][int(r.integers(2))]
    img, b = VolumeRenderer(raysampler=s, raymarcher=m, sample_mode=mode)(cameras=cam, volumes=vol)
    den, fe = VolumeSampler(vol, sample_mode=mode)(b2)
    cx.trivial(not bool((den > 0).any()))
    a = den.double()[..., 0]
    op = 1 - (1 - a).prod(-1, keepdim=True)
    if case["marcher"] == "ea":
        tr = torch.cat([torch.ones_like(a[..., :1]), torch.cumprod(1 - a, -1)[..., :-1]], -1)
        want = torch.cat([((a * tr)[..., None] * fe.double()).sum(-2), op], -1)
    else:
        want = op
    close(img, want, 1e-4, what="volume renderer")
