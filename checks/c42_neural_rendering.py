"""C42: implicitron ray samplers, ray marchers, multi-pass and SDF renderers, camera tools."""
import math

import numpy as np
import torch

from pytorch3d.implicitron.models.renderer.base import (EvaluationMode, ImplicitFunctionWrapper, ImplicitronRayBundle, approximate_conical_frustum_as_gaussians,
                                                        compute_3d_diagonal_covariance_gaussian, conical_frustum_to_gaussian)
from pytorch3d.implicitron.models.renderer.lstm_renderer import LSTMRenderer
from pytorch3d.implicitron.models.renderer.multipass_ea import MultiPassEmissionAbsorptionRenderer
from pytorch3d.implicitron.models.renderer.ray_point_refiner import RayPointRefiner, apply_blurpool_on_weights
from pytorch3d.implicitron.models.renderer.ray_sampler import AdaptiveRaySampler, NearFarRaySampler, compute_radii
from pytorch3d.implicitron.models.renderer.ray_tracing import RayTracing
from pytorch3d.implicitron.models.renderer.raymarcher import CumsumRaymarcher, EmissionAbsorptionRaymarcher
from pytorch3d.implicitron.models.renderer.sdf_renderer import SignedDistanceFunctionRenderer
from pytorch3d.implicitron.tools import camera_utils
from pytorch3d.implicitron.tools.config import expand_args_fields
from pytorch3d.renderer import PerspectiveCameras
from pytorch3d.renderer.implicit.sample_pdf import sample_pdf_python
from pytorch3d.renderer.implicit.utils import ray_bundle_to_ray_points
from vlib import cams, ref2d
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, f64, ints, one_of, raises, rng, rot

for c in (LSTMRenderer, MultiPassEmissionAbsorptionRenderer, RayPointRefiner, AdaptiveRaySampler, NearFarRaySampler, RayTracing, CumsumRaymarcher,
          EmissionAbsorptionRaymarcher, SignedDistanceFunctionRenderer):
    expand_args_fields(c)

T = lambda a: torch.from_numpy(np.ascontiguousarray(a)).float()
TRAIN, EVAL = EvaluationMode.TRAINING, EvaluationMode.EVALUATION

PROP = "C42"
RULE = ("Ray bundles of up to 3 cameras and 5x5 rays with 1-12 points; analytic fields (Gaussian blobs, unions of spheres); random "
        "settings of the samplers, marchers and refiners. Oracle: exact integrals over conical frustums, float64 sums, quantiles of "
        "the weights, analytic ray-sphere intersections. Non-trivial: several rays or points, at least one hit for the SDF.")


def bundle(r, shape, P, bins=False, dtype=np.float32):
    o = r.standard_normal((*shape, 3)).astype(dtype)
    dr = r.standard_normal((*shape, 3)).astype(dtype)
    z = np.cumsum(r.uniform(0.02, 1, (*shape, P + 1 if bins else P)), -1).astype(dtype)
    xy = r.uniform(-1, 1, (*shape, 2)).astype(dtype)
    t = torch.from_numpy
    rad = t(r.uniform(0.01, 0.6, (*shape, 1)).astype(dtype))
    return ImplicitronRayBundle(t(o), t(dr), None if bins else t(z), t(xy), bins=t(z) if bins else None, pixel_radii_2d=rad if bins else None)


@sub(d(seed=SEED, shape=one_of((1,), (3,), (2, 3), (2, 2, 2)), P=ints(1, 6), narrow=boolean(), zero=boolean()), quick=300, thorough=20000)
def cones(case, cx):
    """Gaussians of conical frustums have the exact moments of the frustum."""
    r = rng(case["seed"])
    b = bundle(r, case["shape"], case["P"], bins=True, dtype=np.float64)
    if case["narrow"]:
        b.bins = b.bins[..., :1] * 5 + torch.arange(case["P"] + 1, dtype=torch.float64) * 1e-3
    elif case["zero"]:
        b.bins = b.bins - b.bins[..., :1]
    a, c = b.bins[..., :-1].numpy(), b.bins[..., 1:].numpy()
    # the moments of t for a density proportional to t^2, by Gauss-Legendre quadrature (exact for the polynomials at hand)
    x, w = np.polynomial.legendre.leggauss(6)
    t = (a + c)[..., None] / 2 + (c - a)[..., None] / 2 * x
    m = [(w * t ** (2 + k)).sum(-1) for k in range(3)]
    mean = m[1] / m[0]
    var = (w * t**2 * (t - mean[..., None]) ** 2).sum(-1) / m[0]
    rvar = b.pixel_radii_2d.numpy() ** 2 / 4 * m[2] / m[0]
    got = approximate_conical_frustum_as_gaussians(b.bins, b.pixel_radii_2d)
    for g, want, what in zip(got, (mean, var, rvar), ("mean", "variance along the ray", "variance across the ray")):
        close(g, want, 1e-12 if what != "variance along the ray" else 1e-13, 1e-6, what="frustum " + what)
    means, cov = conical_frustum_to_gaussian(b)
    o, dr = b.origins.numpy()[..., None, :], b.directions.numpy()[..., None, :]
    close(means, o + dr * mean[..., None], 1e-9, what="means of the Gaussians")
    u = dr / np.linalg.norm(dr, axis=-1, keepdims=True)
    want = var[..., None] * dr**2 + rvar[..., None] * (1 - u**2)
    close(cov, want, 1e-9, 1e-6, what="diagonal covariances")
    close(compute_3d_diagonal_covariance_gaussian(b.directions, torch.from_numpy(var), torch.from_numpy(rvar)), want, 1e-9, 1e-9, what="covariance")
    b.pixel_radii_2d = None
    raises(lambda: conical_frustum_to_gaussian(b), ValueError, what="frustums without radii")


@sub(d(seed=SEED, shape=one_of((1,), (3,), (2, 3), (2, 2, 2)), P=ints(1, 6), bins=boolean(), dbl=boolean()), quick=150, thorough=5000)
def ray_bundles(case, cx):
    r = rng(case["seed"])
    b = bundle(r, case["shape"], case["P"], case["bins"], np.float64 if case["dbl"] else np.float32)
    new = torch.rand_like(b.lengths)
    if case["bins"]:
        close(b.lengths, (f64(b.bins[..., 1:]) + f64(b.bins[..., :-1])) / 2, 1e-6, what="lengths from bins")
        raises(lambda: setattr(b, "lengths", new), ValueError, what="lengths of a bundle of bins")
        raises(lambda: ImplicitronRayBundle(b.origins, b.directions, None, b.xys, bins=b.bins[..., :1]), ValueError, what="a single bin edge")
    else:
        old = b.lengths.clone()
        b.lengths = new
        equal(b.lengths, new, "lengths set")
        b.lengths = old
    raises(lambda: ImplicitronRayBundle(b.origins, b.directions, None, b.xys), ValueError, what="neither bins nor lengths")
    pts = ray_bundle_to_ray_points(b)
    close(pts, f64(b.origins)[..., None, :] + f64(b.lengths)[..., None] * f64(b.directions)[..., None, :], 1e-5, what="ray points")
    keep = {k: f64(getattr(b, k)) for k in ("origins", "directions", "xys", "lengths")}
    b.float_()
    for k, v in keep.items():
        assert getattr(b, k).dtype == torch.float32, f"{k} after float_"
        close(getattr(b, k), v, 1e-5, what=k + " after float_")
    assert (b.bins is not None) == case["bins"] and (b.pixel_radii_2d is not None) == case["bins"]
    # packed bundles
    assert not b.is_packed()
    raises(b.get_padded_xys, ValueError, what="padding of an unpacked bundle")
    counts = r.integers(1, 5, int(r.integers(1, 4)))
    n = int(counts.sum())
    q = bundle(r, (n, 1), 2)
    p = ImplicitronRayBundle(q.origins, q.directions, q.lengths, q.xys, camera_ids=torch.arange(len(counts)), camera_counts=torch.from_numpy(counts))
    assert p.is_packed()
    xys, first, num = p.get_padded_xys()
    equal(first, np.concatenate([[0], np.cumsum(counts)[:-1]]), "first ray of each camera")
    equal(num, n, "number of rays")
    for i, (s, c) in enumerate(zip(first.tolist(), counts.tolist())):
        equal(xys[i, :c], q.xys[s:s + c], "padded image coordinates")
        assert (xys[i, c:] == 0).all() and xys.shape[:2] == (len(counts), counts.max())


@sub(d(seed=SEED, typ=one_of("fovp", "persp", "persp_s"), N=ints(1, 3), H=ints(2, 5), W=ints(2, 5), P=ints(1, 5), P2=ints(1, 5), n=ints(1, 6), adaptive=boolean(),
       train=boolean(), mode=one_of("mask_sample", "full_grid", "total"), cone=boolean(), strat=boolean(), mask=one_of(None, "same", "big"),
       evmask=boolean()), quick=250, thorough=10000)
def samplers(case, cx):
    from checks.c22_rays import check_lengths, check_rays
    r = rng(case["seed"])
    torch.manual_seed(case["seed"])
    N, H, W = case["N"], case["H"], case["W"]
    scr = case["typ"].endswith("_s")
    cam, models = cams.make(r, case["typ"], N, image_size=("each" if N > 1 else "one") if scr else None)[:2]
    cx.label(case["mode"], "adaptive" if case["adaptive"] else "near-far")
    ev = TRAIN if case["train"] else EVAL
    total = case["mode"] == "total"
    kw = dict(image_width=W, image_height=H, n_pts_per_ray_training=case["P"], n_pts_per_ray_evaluation=case["P2"],
              sampling_mode_training="full_grid" if total else case["mode"],
              sampling_mode_evaluation="mask_sample" if case["evmask"] else "full_grid",
              n_rays_per_image_sampled_from_mask=None if total else case["n"], n_rays_total_training=case["n"] if total else None,
              stratified_point_sampling_training=case["strat"], stratified_point_sampling_evaluation=not case["strat"],
              cast_ray_bundle_as_cone=case["cone"])
    lo, hi = sorted(r.uniform(0.1, 5, 2).tolist())
    if case["adaptive"]:
        ext = float(r.uniform(0.2, 4))
        cen = r.uniform(-1, 1, 3)
        s = AdaptiveRaySampler(scene_extent=ext, scene_center=tuple(cen.tolist()), **kw)
        dist = np.array([np.linalg.norm(-m.R @ m.T - cen) for m in models])
        if (np.abs(dist - ext) < 5e-3).any():
            return cx.trivial(True)
        bounds = [(q - ext, q + ext) if q > ext + 1e-3 else (1e-3, 2 * ext + 1e-3) for q in dist]
    else:
        s = NearFarRaySampler(min_depth=lo, max_depth=hi, **kw)
        bounds = [(lo, hi)] * N
    raises(lambda: NearFarRaySampler(**{**kw, "n_rays_per_image_sampled_from_mask": 3, "n_rays_total_training": 3}), ValueError, what="two ray counts")
    raises(lambda: NearFarRaySampler(**{**kw, "sampling_mode_training": "grid"}), ValueError, what="unknown sampling mode")
    mask = None
    f = 1
    if case["mask"]:
        f = 2 if case["mask"] == "big" else 1
        small = r.random((N, H, W)) < 0.5
        for i in range(N):
            if not small[i].any():
                small[i, r.integers(H), r.integers(W)] = True
        mask = T(small.repeat(f, 1).repeat(f, 2))[:, None]
    sampled = (kw["sampling_mode_training"] if case["train"] else kw["sampling_mode_evaluation"]) == "mask_sample"
    if case["cone"] and total and case["train"]:
        raises(lambda: s(cam, ev, mask), TypeError, what="cones of packed rays")
        return
    P = (case["P"] if case["train"] else case["P2"])
    b = s(cam, ev, mask)
    z = b.bins if case["cone"] else b.lengths
    assert (b.bins is not None) == case["cone"]
    nz = P + bool(case["cone"])
    equal(z.shape[-1], nz, "points per ray")
    strat = case["strat"] if case["train"] else not case["strat"]
    g = ref2d.centres(H, W)
    near = lambda xy: np.abs(g - xy).max(-1).argmin()
    if total and case["train"]:
        equal(int(b.camera_counts.sum()), case["n"], "number of rays")
        ids = np.repeat(b.camera_ids.numpy(), b.camera_counts.numpy())
        assert b.origins.shape[0] == case["n"] and len(set(b.camera_ids.tolist())) == len(b.camera_ids)
    else:
        assert b.camera_ids is None and b.camera_counts is None
        R = int(np.prod(b.origins.shape[1:-1]))
        ids = np.repeat(np.arange(N), R)
        if sampled and kw["n_rays_per_image_sampled_from_mask"] is not None:
            equal(tuple(b.origins.shape[:2]), (N, case["n"]), "sampled rays")
        elif not sampled:
            equal(tuple(b.origins.shape[:3]), (N, H, W), "full grid")
            close(b.xys, np.broadcast_to(g, (N, H, W, 2)), 1e-5, what="grid")
    F = len(ids)
    xys = b.xys.reshape(F, 2)
    zz = z.reshape(F, nz)
    for i in range(N):
        try:
            check_lengths(zz[ids == i], *bounds[i], nz, strat, "depth bounds")
        except AssertionError:
            # known finding: the bounds of the first camera are used for the whole batch
            if not case["adaptive"] or i == 0:
                raise
            check_lengths(zz[ids == i], *bounds[0], nz, strat, "depth bounds")
            cx.known.append("adaptive-first-camera")
    check_rays([models[i] for i in ids], b.origins.reshape(F, 3), b.directions.reshape(F, 3), z.reshape(F, -1), xys, True, "rays")
    for i, xy in zip(ids, xys.numpy()):
        k = near(xy)
        close(xy, g.reshape(-1, 2)[k], 1e-5, what="rays through pixel centres")
        if mask is not None and sampled:
            assert small[i].reshape(-1)[k], f"ray outside the mask: {xy}"
    if case["cone"]:
        hx = 2.0 / min(H, W)
        want = np.array([(hx / abs(m.K[0, 0]) + hx / abs(m.K[1, 1])) * (min(m.hw) / 2 if scr else 1) / 12**0.5 for m in models])
        close(b.pixel_radii_2d.reshape(-1), want[ids], 1e-5, 2e-3, what="radii of the cones")
        equal(tuple(b.pixel_radii_2d.shape), (*b.origins.shape[:-1], 1), "shape of the radii")
        ph, pw = r.uniform(0.01, 0.3, 2).tolist()
        want = np.array([(pw / abs(m.K[0, 0]) + ph / abs(m.K[1, 1])) * (min(m.hw) / 2 if scr else 1) / 12**0.5 for m in models])
        close(compute_radii(cam, b.xys, (ph, pw)).reshape(-1), want[ids], 1e-5, 3e-3, what="radii")


def march(dens, feats, z, kind, deltas=None, th=1, bg=(0.0,), rep=False, opacity=None, relu=True, blend=False):
    """Float64 reference of the accumulative ray marchers: densities (.., P), features (.., P, C)."""
    if deltas is None:
        last = (z[..., -1:] - z[..., -2:-1]) if rep else np.full_like(z[..., :1], opacity)
        deltas = np.concatenate([np.diff(z, axis=-1), last], -1)
    if relu:
        dens = np.maximum(dens, 0)
    m = deltas * dens
    cap = (lambda x: 1 - np.exp(-x)) if kind == "ea" else (lambda x: np.minimum(x, 1))
    P = z.shape[-1]
    w = np.zeros_like(m)
    for i in range(P):
        before = m[..., : max(i - th + 1, 0)].sum(-1)
        free = 1 - cap(before) if i - th + 1 > 0 else np.ones_like(before)
        c = cap(m[..., i])
        w[..., i] = c * free if kind == "ea" else np.minimum(c, free)
    op = cap(m.sum(-1))[..., None]
    out = (w[..., None] * feats).sum(-2)
    out = (op if blend else 1) * out + (1 - op) * np.asarray(bg)
    return out, (w * z).sum(-1)[..., None], op, w


@sub(d(seed=SEED, shape=one_of((1,), (3,), (2, 3), (2, 2, 2)), P=ints(1, 9), C=ints(1, 4), kind=one_of("ea", "cumsum"), th=ints(1, 4), bg=one_of(0, 1, 2), rep=boolean(),
       op=one_of(None, 0.0, 2.0, 1e10), relu=boolean(), blend=boolean(), deltas=boolean(), noise=boolean()), quick=500, thorough=40000)
def marchers(case, cx):
    r = rng(case["seed"])
    S, P, C = case["shape"], case["P"], case["C"]
    rep = case["rep"] and P > 1
    bg = [(0.0,), (float(r.random()),), tuple(r.random(C).tolist())][case["bg"]]
    kw = dict(surface_thickness=case["th"], bg_color=bg, replicate_last_interval=rep, density_relu=case["relu"], blend_output=case["blend"])
    if case["op"] is not None:
        kw["background_opacity"] = case["op"]
    op = case["op"] if case["op"] is not None else (1e10 if case["kind"] == "ea" else 0.0)
    cx.label(case["kind"])
    dens = r.standard_normal((*S, P)) * r.choice([0.1, 1, 4])
    if not case["relu"]:
        dens = np.abs(dens)
    dens[r.random(dens.shape) < 0.15] = 0
    dens, feats = dens.astype(np.float32), r.standard_normal((*S, P, C)).astype(np.float32)
    z = np.cumsum(r.uniform(0.05, 0.6, (*S, P)), -1).astype(np.float32)
    dl = r.uniform(0, 1, (*S, P)).astype(np.float32) if case["deltas"] else None
    m = (EmissionAbsorptionRaymarcher if case["kind"] == "ea" else CumsumRaymarcher)(**kw)
    args = lambda dt: [torch.from_numpy(x).to(dt).contiguous() if x.shape[-1:] == (1,) and case["noise"] else torch.from_numpy(x).to(dt) for x in (dens[..., None], feats, z)]
    call = lambda dt, **k: m(*args(dt)[:2], {"x": 1}, ray_lengths=args(dt)[2], ray_deltas=None if dl is None else torch.from_numpy(dl).to(dt), **k)
    out = call(torch.float32)
    want = march(*(x.astype(np.float64) for x in (dens, feats, z)), case["kind"], None if dl is None else dl.astype(np.float64), case["th"], bg, rep, op, case["relu"],
                 case["blend"])
    for k, w, t in zip(("features", "depths", "masks", "weights"), want, (3e-5, 3e-5, 1e-5, 1e-5)):
        close(getattr(out, k), w, t * P, what=f"{k} of {case['kind']}")
    assert out.aux == {"x": 1}
    if case["noise"]:
        torch.manual_seed(case["seed"])
        a = call(torch.float32, density_noise_std=0.7)
        torch.manual_seed(case["seed"])
        n = dens + torch.randn(*S, P).numpy() * 0.7
        w = march(n.astype(np.float64), feats.astype(np.float64), z.astype(np.float64), case["kind"], None if dl is None else dl.astype(np.float64), case["th"], bg,
                  rep, op, case["relu"], case["blend"])
        if case["relu"]:
            close(a.weights, w[3], 1e-4, what="weights with density noise")
    if C > 1:
        raises(lambda: (EmissionAbsorptionRaymarcher if case["kind"] == "ea" else CumsumRaymarcher)(bg_color=(0.0,) * (C + 1))(*args(torch.float32)[:2], {}, ray_lengths=args(torch.float32)[2]),
               ValueError, what="background of a wrong number of channels")


def blur(w):
    """Blurpool of mip-NeRF: mean of the maxima over the two neighbouring pairs."""
    p = np.concatenate([w[..., :1], w, w[..., -1:]], -1)
    m = np.maximum(p[..., :-1], p[..., 1:])
    return (m[..., :-1] + m[..., 1:]) / 2


def refine(z, w, n, bins, add, eps, blurpool):
    """Depths after a deterministic refinement (float64)."""
    if blurpool:
        w = blur(w)
    if bins:
        edges, n = z, n + 1
    else:
        edges, w = (z[..., 1:] + z[..., :-1]) / 2, w[..., 1:-1]
    f = lambda x: torch.from_numpy(np.ascontiguousarray(x.reshape(-1, x.shape[-1])))
    s = sample_pdf_python(f(edges), f(w), n, det=True, eps=eps).numpy().reshape(*z.shape[:-1], n)
    return np.sort(np.concatenate([z, s], -1) if add else s, -1)


@sub(d(seed=SEED, shape=one_of((1,), (3,), (2, 3), (2, 2, 2)), P=ints(3, 9), n=ints(1, 7), bins=boolean(), add=boolean(), random=boolean(), blur=boolean(),
       w=one_of("uniform", "peak", "random")), quick=300, thorough=20000)
def refiners(case, cx):
    r = rng(case["seed"])
    torch.manual_seed(case["seed"])
    S, P, n = case["shape"], case["P"], case["n"]
    b = bundle(r, S, P, case["bins"])
    w = r.uniform(0.2, 1, (*S, P))
    if case["w"] == "peak":
        w = 0.02 + np.eye(P)[r.integers(0, P, S)]
    elif case["w"] == "uniform":
        w[:] = 0.3
    z = (b.bins if case["bins"] else b.lengths).clone()
    close(apply_blurpool_on_weights(T(w)), blur(w), 1e-6, what="blurpool")
    ref = RayPointRefiner(n_pts_per_ray=n, random_sampling=case["random"], add_input_samples=case["add"], blurpool_weights=case["blur"])
    out = ref(b, T(w))
    equal(b.bins if case["bins"] else b.lengths, z, "the input bundle")
    g = out.bins if case["bins"] else out.lengths
    want = refine(f64(z).numpy(), w, n, case["bins"], case["add"], 1e-5, case["blur"])
    equal(tuple(g.shape), want.shape, "refined points")
    assert (out.bins is not None) == case["bins"]
    assert (g[..., 1:] >= g[..., :-1]).all(), "refined points are not sorted"
    assert out.origins is b.origins and out.directions is b.directions and out.xys is b.xys
    if not case["random"]:
        close(g, want, 3e-4 * max(1, float(z.max())), what="refined depths")
    else:
        k = g.numpy().reshape(-1, g.shape[-1])
        zz = z.numpy().reshape(-1, z.shape[-1])
        ed = zz if case["bins"] else (zz[:, 1:] + zz[:, :-1]) / 2
        for a, b_, e in zip(k, zz, ed):
            if case["add"]:
                a = a.tolist()
                for v in b_.tolist():
                    assert v in a, "an input sample is missing"
                    a.remove(v)
            assert np.all(np.asarray(a) >= e[0] - 1e-5) and np.all(np.asarray(a) <= e[-1] + 1e-5), "random samples outside the range of the weights"


class Blobs(torch.nn.Module):
    """Density and colour given by Gaussian blobs."""

    def __init__(self, c, s, a, col):
        super().__init__()
        self.c, self.s, self.a, self.col = (torch.nn.Parameter(torch.as_tensor(x)) for x in (c, s, a, col))
        self.calls = []

    def on_bind_args(self):
        pass

    def forward(self, ray_bundle=None, scale=1.0, **kw):
        self.calls.append(ray_bundle.lengths.shape[-1])
        p = ray_bundle_to_ray_points(ray_bundle)
        c, s, a, col = (x.to(p) for x in (self.c, self.s, self.a, self.col))
        k = torch.exp(-((p[..., None, :] - c) ** 2).sum(-1) / s) * a
        return k.sum(-1, keepdim=True) * scale, torch.sin(k @ col), {"aux": 1}


def field_np(f, o, dr, z, scale=1.0):
    p = o[..., None, :] + z[..., None] * dr[..., None, :]
    c, s, a, col = (x.detach().double().numpy() for x in (f.c, f.s, f.a, f.col))
    k = np.exp(-((p[..., None, :] - c) ** 2).sum(-1) / s) * a
    return k.sum(-1) * scale, np.sin(k @ col)


def blobs(r):
    K = int(r.integers(1, 4))
    return Blobs(r.standard_normal((K, 3)), r.uniform(0.5, 4, K), r.uniform(0.3, 2, K), r.standard_normal((K, 3)))


@sub(d(seed=SEED, shape=one_of((1, 1), (2, 3), (2, 2, 2)), P=ints(3, 9), passes=ints(1, 3), n=ints(1, 6), bins=boolean(), add=boolean(), blur=boolean(), keep=boolean(),
       kind=one_of("ea", "cumsum"), mode=one_of(TRAIN.value, EVAL.value), bind=boolean(), bg=boolean()), quick=200, thorough=12000)
def multipass(case, cx):
    """Rendering in several passes equals the passes done by hand; every pass refines with the weights of the one before."""
    r = rng(case["seed"])
    torch.manual_seed(case["seed"])
    cx.label(f"passes{case['passes']}")
    b = bundle(r, case["shape"], case["P"], case["bins"])
    fs = [blobs(r) for _ in range(case["passes"])]
    wrap = [ImplicitFunctionWrapper(f) for f in fs]
    scale = 1.0
    if case["bind"]:
        scale = float(r.uniform(0.5, 2))
        for w in wrap:
            w.bind_args(scale=scale)
    bg = tuple(r.random(3).tolist()) if case["bg"] else (0.0,)
    # without bins, a pass is refined from at least three points
    n1 = case["n"] if case["add"] or case["bins"] else max(case["n"], 3)
    n2 = n1 + 1
    train = case["mode"] == TRAIN.value
    name = "EmissionAbsorptionRaymarcher" if case["kind"] == "ea" else "CumsumRaymarcher"
    R = MultiPassEmissionAbsorptionRenderer(raymarcher_class_type=name, **{f"raymarcher_{name}_args": {"bg_color": bg}}, n_pts_per_ray_fine_training=n1,
                                            n_pts_per_ray_fine_evaluation=n2, stratified_sampling_coarse_training=False, append_coarse_samples_to_fine=case["add"],
                                            return_weights=case["keep"], blurpool_weights=case["blur"], density_noise_std_train=0.0)
    raises(lambda: R(b, []), ValueError, what="no implicit function")
    assert not R.requires_object_mask()
    out = R(b, wrap, EvaluationMode(case["mode"]))
    z = f64(b.bins if case["bins"] else b.lengths).numpy()
    o, dr = f64(b.origins).numpy(), f64(b.directions).numpy()
    stages = []
    n = n1 if train else n2
    tol = 2e-4
    for k, f in enumerate(fs):
        mid = (z[..., 1:] + z[..., :-1]) / 2 if case["bins"] else z
        dens, feats = field_np(f, o, dr, mid, scale)
        res = march(dens, feats, mid, case["kind"], np.diff(z, axis=-1) if case["bins"] else None, bg=bg, opacity=1e10 if case["kind"] == "ea" else 0.0)
        stages.append((res, mid.shape[-1]))
        if k + 1 < len(fs):
            if mid.shape[-1] < 3 or res[3][..., slice(None) if case["bins"] else slice(1, -1)].min() < 2e-3:
                # quantiles within (almost) empty bins are ill-conditioned: only compare this pass
                cx.trivial(len(stages) < 2)
                break
            z = refine(z, res[3], n, case["bins"], case["add"], 1e-5, case["blur"])
    chain = []
    while out is not None:
        chain.append(out)
        out = out.prev_stage
    equal(len(chain), case["passes"], "number of stages")
    for k, (g, (res, P)) in enumerate(zip(chain[::-1], stages)):
        equal(fs[k].calls, [P], "points evaluated in a pass")
        for key, w, t in zip(("features", "depths", "masks", "weights"), res, (1, 10, 1, 1)):
            if key == "weights" and not case["keep"]:
                assert g.weights is None
                continue
            close(getattr(g, key), w, tol * t * (1 + 10 * k), 1e-4 * (1 + 10 * k), what=f"{key} of pass {k}")
    for w in wrap:
        w.unbind_args()
        assert w.bound_args == {}


class Spheres(torch.nn.Module):
    """Signed distance (exact outside) to a union of spheres, and features."""

    def __init__(self, c, rad, col):
        super().__init__()
        self.c, self.col = torch.as_tensor(c).float(), torch.as_tensor(col).float()
        self.rad = torch.nn.Parameter(torch.as_tensor(rad).float())

    def on_bind_args(self):
        pass

    def forward(self, rays_points_world=None, **kw):
        p = rays_points_world
        s = ((p[..., None, :] - self.c).norm(dim=-1) - self.rad).min(-1, keepdim=True).values
        return torch.cat([s, torch.sin(p @ self.col)], -1)


def sphere_hits(o, dr, c, rad):
    """First hit of each ray (R,) with the union of spheres, its margin and the smallest distance to the surface."""
    oc = o[:, None] - c[None]
    bq = (oc * dr[:, None]).sum(-1)
    near2 = (oc**2).sum(-1) - bq**2  # squared distance of the line from the centre
    half2 = rad**2 - near2
    hit = (half2 > 0) & (bq < 0)
    t = np.where(hit, -bq - np.sqrt(np.maximum(half2, 0)), np.inf)
    t0 = np.where(bq < 0, np.sqrt(np.maximum(near2, 0)), np.linalg.norm(oc, axis=-1))
    return t.min(1), np.sqrt(np.maximum(half2, 0)) * hit, (t0 - rad).min(1), t.argmin(1)


def sdf_scene(r, R, inside, N=1):
    K = int(r.integers(1, 4))
    B = float(r.uniform(0.8, 3))
    rad = r.uniform(0.15, 0.4, K) * B
    c = r.standard_normal((K, 3))
    c *= (r.random(K) * (B * 0.95 - rad) / np.linalg.norm(c, axis=1))[:, None]
    o = np.empty((N, R, 3))
    for i in range(N):
        while True:
            p = r.standard_normal(3)
            p *= B * (r.uniform(0.2, 0.9) if inside else r.uniform(1.2, 3)) / np.linalg.norm(p)
            if (np.linalg.norm(p - c, axis=1) > rad + 0.05).all():
                break
        o[i] = p
    tgt = c[r.integers(0, K, (N, R))] + r.standard_normal((N, R, 3)) * rad.max() * 0.6
    dr = tgt - o
    away = r.random((N, R)) < 0.15
    dr[away] = r.standard_normal((int(away.sum()), 3))
    dr /= np.linalg.norm(dr, axis=-1, keepdims=True)
    return B, c.astype(np.float32), rad.astype(np.float32), o.astype(np.float32), dr.astype(np.float32)


@sub(d(seed=SEED, N=ints(1, 3), R=ints(1, 8), inside=boolean(), train=boolean(), iters=one_of(0, 1, 10, 40), steps=one_of(100, 150), lie=boolean()), quick=250, thorough=12000)
def tracing(case, cx):
    """Sphere tracing finds the first surface along every ray."""
    r = rng(case["seed"])
    torch.manual_seed(case["seed"])
    B, c, rad, o, dr = sdf_scene(r, case["R"], case["inside"], case["N"])
    f = Spheres(c, rad, r.standard_normal((3, 2)))
    tr = RayTracing(object_bounding_sphere=B, sphere_tracing_iters=case["iters"], n_steps=case["steps"])
    tr.train(case["train"])
    n = case["N"] * case["R"]
    o64, d64 = o.reshape(n, 3).astype(np.float64), dr.reshape(n, 3).astype(np.float64)
    t, half, clear, _ = sphere_hits(o64, d64, c.astype(np.float64), rad.astype(np.float64))
    m = half.max(1) > 0
    if case["lie"]:
        m = r.random(n) < 0.5
    with torch.no_grad():
        pts, net, dist = tr(lambda p: f(rays_points_world=p)[:, 0], torch.from_numpy(o), torch.from_numpy(m).reshape(case["N"], case["R"]), torch.from_numpy(dr))
    assert pts.shape == (n, 3) and net.shape == (n,) and dist.shape == (n,)
    hits = 0
    for i in range(n):
        # a clear hit: the first sphere hit is crossed along a chord that the uniform steps cannot miss, not behind another grazed sphere
        k = np.argmin(np.where(half[i] > 0, 0, 1))
        graze = ((half[i] > 0) & (half[i] < 0.07 * B)).any() or (0 < clear[i] < 0.02)
        if graze:
            continue
        on_ray = o64[i] + float(dist[i]) * d64[i]
        if np.isfinite(t[i]):
            hits += 1
            assert bool(net[i]), f"missed surface at {t[i]} along ray {i}"
            if case["train"] and not m[i]:
                continue
            close(dist[i], t[i], 2e-3 * B, what="distance to the surface")
            close(pts[i], o64[i] + t[i] * d64[i], 2e-3 * B, what="surface point")
        else:
            assert not bool(net[i]), f"surface reported along ray {i} that stays {clear[i]} away from it"
            line = np.linalg.norm(o64[i] - (o64[i] @ d64[i]) * d64[i])
            if case["train"] and line < B * 0.999:
                # the point of the ray inside the bounding sphere with (roughly) the smallest distance
                h = math.sqrt(B * B - line * line)
                a, e = max(-(o64[i] @ d64[i]) - h, 0), max(-(o64[i] @ d64[i]) + h, 0)
                s = np.linspace(a, e, 400)
                sd = (np.linalg.norm((o64[i] + s[:, None] * d64[i])[:, None] - c, axis=-1) - rad).min(1)
                g = (np.linalg.norm(on_ray - c, axis=-1) - rad).min()
                assert a - 1e-4 <= float(dist[i]) <= e + 1e-4, "point outside the bounding sphere"
                assert g <= sd.min() + 0.22 * (e - a) + 1e-4, "not the point of smallest distance"
            elif case["train"] and line > B * 1.001:
                close(dist[i], -(o64[i] @ d64[i]), 1e-4 * B, what="rays missing the bounding sphere end closest to its centre")
        if np.isfinite(t[i]) or case["train"]:
            close(pts[i], on_ray, 1e-4 * B * (1 + abs(float(dist[i]))), what="points lie on their rays")
    cx.trivial(hits == 0)


@sub(d(seed=SEED, shape=one_of((4,), (2, 3), (1, 5)), inside=boolean(), train=boolean(), C=ints(1, 4), mode=one_of("idr", "no_view_dir", "no_normal"), bg=boolean()), quick=120, thorough=6000)
def sdf(case, cx):
    """The SDF renderer shades the analytic surface points with the analytic normals."""
    r = rng(case["seed"])
    torch.manual_seed(case["seed"])
    S, C = case["shape"], case["C"]
    n = int(np.prod(S))
    B, c, rad, o, dr = sdf_scene(r, n, case["inside"])
    f = Spheres(c, rad, r.standard_normal((3, C)))
    bg = tuple(r.random(C).tolist()) if case["bg"] else (0.3,)
    d_in = {"idr": 9, "no_view_dir": 6, "no_normal": 6}[case["mode"]]
    alpha = float(r.uniform(5, 60))
    R = SignedDistanceFunctionRenderer(render_features_dimensions=C, object_bounding_sphere=B, bg_color=bg, soft_mask_alpha=alpha,
                                       ray_normal_coloring_network_args={"d_in": d_in, "d_out": C, "dims": [8], "mode": case["mode"]},
                                       ray_tracer_args={"sphere_tracing_iters": 30})
    assert R.requires_object_mask()
    t_ = torch.from_numpy
    b = ImplicitronRayBundle(t_(o).reshape(1, *S, 3), t_(dr).reshape(1, *S, 3), torch.ones(1, *S, 1), torch.zeros(1, *S, 2))
    o64, d64 = o.reshape(n, 3).astype(np.float64), dr.reshape(n, 3).astype(np.float64)
    t, half, clear, who = sphere_hits(o64, d64, c.astype(np.float64), rad.astype(np.float64))
    if (((half > 0) & (half < 0.07 * B)).any() or ((clear > 0) & (clear < 0.02)).any()):
        return cx.trivial(True)
    hit = np.isfinite(t)
    m = hit.copy()
    if case["train"]:
        R.train()
        m &= r.random(n) < 0.7
    else:
        R.eval()
        m = r.random(n) < 0.5
    mask = torch.from_numpy(m).float().reshape(1, *S, 1)
    raises(lambda: R(b, [ImplicitFunctionWrapper(f)]), ValueError, what="no object mask")
    raises(lambda: R(b, [ImplicitFunctionWrapper(f)] * 2, object_mask=mask), ValueError, what="two functions")
    out = R(b, [ImplicitFunctionWrapper(f)], TRAIN if case["train"] else EVAL, object_mask=mask)
    surf = hit & m if case["train"] else hit
    cx.trivial(not surf.any())
    flat = lambda x: x.detach().reshape(n, -1).double().numpy()
    for k, s in (("features", C), ("normals", 3), ("masks", 1), ("points", 3), ("depths", 1)):
        equal(tuple(getattr(out, k).shape), (1, *S, s), "shape of " + k)
    P = o64 + np.where(hit, t, 0)[:, None] * d64
    N = P - c[who]
    N /= np.linalg.norm(N, axis=1, keepdims=True)
    F, Nn, M, Pt, D = (flat(getattr(out, k)) for k in ("features", "normals", "masks", "points", "depths"))
    close(D[surf, 0], t[surf], 3e-3 * B, what="depths")
    close(Pt[surf], P[surf], 3e-3 * B, what="points")
    close(Nn[surf], N[surf], 3e-2, what="normals")
    close(M[surf, 0], np.ones(surf.sum()), 1e-6, what="mask of the surface")
    if not surf.any():
        close(F, np.broadcast_to(np.asarray(bg), (n, C)), 1e-5, what="background")
        return
    x = [f64(np.asarray(v)).float() for v in (Pt[surf], d64[surf], Nn[surf])]
    x = [x[i] for i in {"idr": (0, 1, 2), "no_view_dir": (0, 2), "no_normal": (0, 1)}[case["mode"]]] + [torch.sin(f64(Pt[surf]).float() @ f.col)]
    h = torch.cat(x, -1)
    L = R._rgb_network.linear_layers
    with torch.no_grad():
        want = torch.tanh(L[1](torch.relu(L[0](h))))
    close(F[surf], want, 2e-4, what="colours of the surface")
    if (~surf).any():
        close(F[~surf], np.broadcast_to(np.asarray(bg), (int((~surf).sum()), C)), 1e-6, what="background")
        q = o64 + D * d64
        sd = (np.linalg.norm(q[:, None] - c, axis=-1) - rad).min(1)
        close(M[~surf, 0], 1 / (1 + np.exp(np.clip(alpha * sd, -50, 50)))[~surf], 2e-3, what="soft mask")
        close(Nn[~surf], np.zeros((int((~surf).sum()), 3)), 0, what="no normals")
    if case["train"]:
        # implicit differentiation: d t / d radius = -1 / (direction . normal)
        i = int(np.nonzero(surf)[0][0])
        g, = torch.autograd.grad((out.points.reshape(n, 3)[i] * t_(dr.reshape(n, 3)[i])).sum(), f.rad, retain_graph=True)
        cosn = float(d64[i] @ N[i])
        if abs(cosn) > 0.2:
            want = np.zeros(len(rad))
            want[who[i]] = 1 / cosn
            close(g, want, 2e-2, 3e-2, what="derivative of the surface point with respect to the radius")
        gt = out.aux["grad_theta"]
        close(gt.norm(dim=-1), np.ones(gt.shape[0]), 1e-3, what="gradients of the distance for the eikonal loss")
        equal(gt.shape[0], n // 2 + n, "number of eikonal points")


@sub(d(seed=SEED, shape=one_of((1, 1), (2, 3), (2, 2, 2)), steps=ints(1, 6), h=ints(1, 5), C=ints(1, 4), bg=boolean()), quick=80, thorough=3000)
def lstm(case, cx):
    r = rng(case["seed"])
    torch.manual_seed(case["seed"])
    C, K = case["C"], case["steps"]
    init = float(r.uniform(1, 20))
    bg = r.random(3).tolist() if case["bg"] else None
    L = LSTMRenderer(num_raymarch_steps=K, init_depth=init, init_depth_noise_std=0.0, hidden_size=case["h"], n_feature_channels=C, bg_color=bg)
    b = bundle(r, case["shape"], 1)
    A = torch.from_numpy(r.standard_normal((3, C))).float()
    seen = []

    class F(torch.nn.Module):
        def forward(self, ray_bundle=None, raymarch_features=None):
            if raymarch_features is None:
                p = ray_bundle_to_ray_points(ray_bundle)
                seen.append(ray_bundle.lengths.clone())
                return torch.tanh(p @ A), None
            return raymarch_features.sum(-1, keepdim=True), torch.cos(raymarch_features.mean(-1, keepdim=True) * torch.tensor([1.0, 2, 3]))

    with torch.no_grad():
        out = L(b, [F()])
        # by hand
        z, st = b.lengths.clone(), None
        for k in range(K):
            p = b.origins[..., None, :] + z[..., None] * b.directions[..., None, :]
            close(seen[k], z, 1e-4, what="march")
            st = L._lstm(torch.tanh(p @ A).reshape(-1, C), st)
            z = z + L._out_layer(st[0]).reshape(z.shape)
            if k == 0:
                assert ((L._out_layer(st[0]) - init / K).abs() < 0.1).all(), "the first steps are not about init_depth / num_raymarch_steps"
        p = b.origins[..., None, :] + z[..., None] * b.directions[..., None, :]
        ft = torch.tanh(p @ A)
        mask = torch.sigmoid(ft.sum(-1, keepdim=True))
        col = torch.cos(ft.mean(-1, keepdim=True) * torch.tensor([1.0, 2, 3]))
        if bg:
            col = mask * col + (1 - mask) * torch.tensor(bg)
    equal(len(seen), K + 1, "evaluations")
    close(out.depths, z * b.directions.norm(dim=-1, keepdim=True), 1e-3, 1e-4, what="depths")
    close(out.masks, mask[..., 0, :], 1e-3, what="masks")
    close(out.features, col[..., 0, :], 1e-3, what="features")
    two = bundle(r, case["shape"], 2)
    raises(lambda: L(two, [F()]), ValueError, what="two points per ray")
    raises(lambda: L(b, [F(), F()]), ValueError, what="two functions")


@sub(d(seed=SEED, N=ints(1, 4), max_angle=one_of(0.0, 0.2, 1.0, 3.0), ts=one_of(0.0, 0.5), ss=one_of(0.0, 0.3), resol=ints(2, 6), angle=boolean()), quick=200, thorough=8000)
def camera_tools(case, cx):
    r = rng(case["seed"])
    torch.manual_seed(case["seed"])
    N = case["N"]
    R, t = rot(r, N), torch.from_numpy(r.standard_normal((N, 3)))
    # alignment: points moved by x -> s (x R + T) are seen at s times their view coordinates
    A = torch.eye(4, dtype=torch.float64).repeat(N, 1, 1)
    A[:, :3, :3] = rot(r, N)
    A[:, 3, :3] = torch.from_numpy(r.standard_normal((N, 3)))
    s = torch.from_numpy(r.uniform(0.3, 3, N))
    X = torch.from_numpy(r.standard_normal((N, 5, 3)))
    Ra, Ta = camera_utils.apply_camera_alignment(R, t, A, s)
    moved = s[:, None, None] * (X @ A[:, :3, :3] + A[:, 3:, :3])
    close(moved @ Ra + Ta[:, None], s[:, None, None] * (X @ R + t[:, None]), 1e-9, what="aligned cameras")
    # jitter: one similarity for all cameras
    Rf, tf = R.float(), t.float()
    Rj, Tj = camera_utils.jitter_extrinsics(Rf, tf, case["max_angle"], case["ts"], case["ss"])
    G = R @ Rj.double().transpose(1, 2)  # rotation applied to the scene
    close(G, G[:1].expand(N, 3, 3), 1e-5, what="the same rotation for all cameras")
    close(G[0] @ G[0].T, np.eye(3), 1e-5, what="rotation")
    ang = math.acos(max(-1, min(1, (float(torch.trace(G[0])) - 1) / 2)))
    assert ang <= case["max_angle"] + 3e-3, f"rotated by {ang}, more than max_angle={case['max_angle']}"
    C0 = -(R @ t[..., None])[..., 0]
    C1 = -(Rj.double() @ Tj.double()[..., None])[..., 0]
    if N > 1:
        d0, d1 = (C0[1:] - C0[:1]).norm(dim=-1), (C1[1:] - C1[:1]).norm(dim=-1)
        q = d1 / d0
        close(q, q[:1].expand(N - 1), 1e-4, 1e-4, what="the same scale for all cameras")
        if case["ss"] == 0:
            close(q, torch.ones(N - 1), 1e-4, what="no scaling")
        if case["ts"] == 0:
            close(C1, q[:1] * (C0 @ G[0]), 1e-4, 1e-4, what="no translation")
    # depth bounds
    cam = PerspectiveCameras(R=Rf, T=tf, focal_length=T(r.uniform(0.3, 2, (N, 2))), principal_point=T(r.uniform(-0.3, 0.3, (N, 2))))
    cen, ext = r.standard_normal(3), float(r.uniform(0.2, 3))
    lo, hi = camera_utils.get_min_max_depth_bounds(cam, T(cen), ext)
    dist = np.maximum(np.linalg.norm(C0.numpy() - cen, axis=1), ext + 1e-3)
    close(lo, dist - ext, 1e-4, what="near bounds")
    close(hi, dist + ext, 1e-4, what="far bounds")
    # overlaps of the viewing frustums
    n = case["resol"]
    iou = camera_utils.volumetric_camera_overlaps(cam, ext, tuple(cen.tolist()), n, case["angle"])
    equal(tuple(iou.shape), (N, N), "overlaps")
    ax = (np.linspace(-1, 1, n) * (n - 1) / n) * ext
    z, y, x = np.meshgrid(ax, ax, ax, indexing="ij")
    g = np.stack([x, y, z], -1).reshape(-1, 3) + cen
    inside, rays = [], []
    f, pp = f64(cam.focal_length).numpy(), f64(cam.principal_point).numpy()
    for i in range(N):
        V = g @ R[i].numpy() + t[i].numpy()
        den = np.where(np.abs(V[:, 2:]) < 1e-2, np.where(V[:, 2:] >= 0, 1e-2, -1e-2), V[:, 2:])
        p = f[i] * V[:, :2] / den + pp[i]
        if (np.abs(np.abs(p) - 1).min() < 1e-4) or np.abs(V[:, 2]).min() < 1.5e-2:
            return cx.trivial(True)
        ins = (np.abs(p) <= 1).all(1) & (V[:, 2] > 0)
        u = g - C0[i].numpy()
        inside.append(ins.astype(float))
        rays.append(u / np.linalg.norm(u, axis=1, keepdims=True) * ins[:, None])
    for i in range(N):
        for j in range(N):
            if case["angle"]:
                a, b_, c = (len(g) + (rays[p] * rays[q]).sum() for p, q in ((i, j), (i, i), (j, j)))
            else:
                a, b_, c = (inside[p] @ inside[q] for p, q in ((i, j), (i, i), (j, j)))
            close(iou[i, j], a / max(b_ + c - a, 0.1), 1e-3, what="overlap of two cameras")
