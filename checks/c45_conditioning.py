"""C45: view pooling (sampling and aggregation), implicit functions conditioned on views and codes, global encoders, colouring network."""
import copy
import math

import numpy as np
import torch

from pytorch3d.implicitron.models.global_encoder.autodecoder import Autodecoder
from pytorch3d.implicitron.models.global_encoder.global_encoder import HarmonicTimeEncoder, SequenceAutodecoder
from pytorch3d.implicitron.models.implicit_function.idr_feature_field import IdrFeatureField
from pytorch3d.implicitron.models.implicit_function.neural_radiance_field import NeRFormerImplicitFunction, NeuralRadianceFieldImplicitFunction
from pytorch3d.implicitron.models.implicit_function.scene_representation_networks import SRNHyperNetImplicitFunction, SRNImplicitFunction
from pytorch3d.implicitron.models.renderer.base import conical_frustum_to_gaussian, ImplicitFunctionWrapper, ImplicitronRayBundle
from pytorch3d.implicitron.models.renderer.rgb_net import RayNormalColoringNetwork
from pytorch3d.implicitron.models.view_pooler.feature_aggregator import (AngleWeightedIdentityFeatureAggregator, AngleWeightedReductionFeatureAggregator,
                                                                         IdentityFeatureAggregator, ReductionFeatureAggregator, ReductionFunction)
from pytorch3d.implicitron.models.view_pooler.view_pooler import ViewPooler
from pytorch3d.implicitron.models.view_pooler.view_sampler import ViewSampler
from pytorch3d.implicitron.tools.config import expand_args_fields
from pytorch3d.renderer import PerspectiveCameras
from checks.c43_voxel_grids import attention, harmonic, lin, mlp
from vlib import cams
from vlib.core import sub
from vlib.gen import SEED, T, boolean, close, d, equal, f64, ints, one_of, raises, rng, rot

PROP = "C45"
RULE = ("up to 4 source views with their own cameras, images of unequal sides, several sequences and feature types, all aggregators and settings; small networks with every option. Oracle: float64 projection, "
        "explicit bilinear weights, weighted moments and networks written out in NumPy. Non-trivial: more than one view (pooling), more than one point (functions), more than one key (codes).")

AGG = dict(id=IdentityFeatureAggregator, red=ReductionFeatureAggregator, ang=AngleWeightedReductionFeatureAggregator, angid=AngleWeightedIdentityFeatureAggregator)
for c in (Autodecoder, HarmonicTimeEncoder, SequenceAutodecoder, IdrFeatureField, NeRFormerImplicitFunction, NeuralRadianceFieldImplicitFunction, SRNHyperNetImplicitFunction, SRNImplicitFunction, ViewPooler,
          ViewSampler, *AGG.values()):
    expand_args_fields(c)

TYP = one_of("fovp", "persp", "fovo", "ortho")


# ---- view sampling -------------------------------------------------------------


def grid_pixels(ndc, H, W):
    """Index coordinates (x, y) in an HxW image of NDC points (+x left, +y up, short side spans [-1, 1])."""
    s = min(H, W) / 2.0
    return (W - 1) / 2.0 - ndc[..., 0] * s, (H - 1) / 2.0 - ndc[..., 1] * s


def sample(img, ndc, mode):
    """img (C, H, W), ndc (P, 2) -> (P, C), and a mask of the points too near to a tie."""
    C, H, W = img.shape
    x, y = grid_pixels(ndc, H, W)
    out = np.zeros((len(ndc), C))
    ok = np.ones(len(ndc), bool)
    for p in range(len(ndc)):
        if not (abs(x[p]) < 1e5 and abs(y[p]) < 1e5):
            continue
        if mode == "nearest":
            ok[p] = min(abs(x[p] - np.floor(x[p]) - 0.5), abs(y[p] - np.floor(y[p]) - 0.5)) > 1e-3
            terms = [(int(np.rint(x[p])), int(np.rint(y[p])), 1.0)]
        else:
            x0, y0 = int(np.floor(x[p])), int(np.floor(y[p]))
            fx, fy = x[p] - x0, y[p] - y0
            terms = [(x0 + i, y0 + j, (fx if i else 1 - fx) * (fy if j else 1 - fy)) for i in (0, 1) for j in (0, 1)]
        for i, j, w in terms:
            if 0 <= i < W and 0 <= j < H:
                out[p] += w * img[:, j, i]
    return out, ok


def scene(case, r, aim=True):
    """Cameras, points and images.  Most points project into the images."""
    C, B, P = case["C"], min(case["B"], case["C"]), case["P"]
    cam, models = cams.make(r, case["typ"], C)[:2]
    pts = np.zeros((B, P, 3))
    for b in range(B):
        for p in range(P):
            m = models[b if r.random() < 0.5 else r.integers(0, C)]
            while True:
                v = cams.view_points(r, 1)[0] * (1 if r.random() < 0.9 else -1)
                x = (v - m.T) @ m.R.T
                if min(abs(q.view(x)[2]) for q in models) > 0.2:
                    break
            pts[b, p] = x
    kinds = ["a", "b", "c"][: case["F"]]
    feats = {k: T(r, (C, int(r.integers(1, 4)), int(r.integers(1, 6)), int(r.integers(1, 6)))) for k in kinds}
    masks = torch.from_numpy((r.random((C, 1, int(r.integers(1, 6)), int(r.integers(1, 6)))) < 0.7).astype(np.float32))
    names = ["s%d" % i for i in r.integers(0, 2, C)]
    form = r.integers(0, 3)
    ids = [names, [int(n[1]) for n in names], torch.tensor([int(n[1]) for n in names])][form]
    return cam, models, torch.from_numpy(pts).float(), feats, masks, names, ids


@sub(d(seed=SEED, typ=TYP, C=ints(1, 4), B=ints(1, 3), P=ints(1, 5), F=ints(1, 3), masked=boolean(), mode=one_of("bilinear", "bilinear", "nearest"), behind=boolean()), quick=300, thorough=20000)
def sampler(case, cx):
    """Every point sees, in every camera of its own sequence, the feature at its projection."""
    r = rng(case["seed"])
    cam, models, pts, feats, masks, names, ids = scene(case, r)
    B, C = pts.shape[0], case["C"]
    cx.trivial(C == 1 or B == 1)
    s = ViewSampler(masked_sampling=case["masked"], sampling_mode=case["mode"])
    x0, f0 = pts.clone(), {k: f.clone() for k, f in feats.items()}
    give = masks if case["masked"] or r.random() < 0.5 else None
    if case["masked"]:
        raises(lambda: s(pts=pts, seq_id_pts=ids[:B], camera=cam, seq_id_camera=ids, feats=feats, masks=None), ValueError, what="masked sampling without masks")
    pts.requires_grad_(True)
    sf, sm = s(pts=pts, seq_id_pts=ids[:B], camera=cam, seq_id_camera=ids, feats=feats, masks=give)
    assert set(sf) == set(feats), "feature types"
    same = np.array([[float(names[b] == names[c]) for c in range(C)] for b in range(B)])
    every = {**sf, None: sm}
    for k, got in every.items():
        img = f64(feats[k] if k is not None else masks if case["masked"] else torch.ones(C, 1, 1, 1)).numpy()
        assert tuple(got.shape) == (B, C, case["P"], img.shape[1]), ("shape of samples", got.shape)
        for b in range(B):
            for c in range(C):
                g = f64(got[b, c].detach()).numpy()
                if not same[b, c]:
                    assert (g == 0).all(), "features of another sequence"
                    continue
                if k is None and not case["masked"]:
                    assert (g == 1).all(), "mask of unmasked sampling"
                    continue
                m = models[c]
                ndc = m.ndc(m.view(f64(pts[b].detach()).numpy()))[:, :2]
                want, ok = sample(img[c], ndc, case["mode"])
                far = np.abs(ndc).max(-1) > 50  # float32 positions far outside
                tol = 2e-4 * (1 + np.abs(ndc).max(-1)) * np.abs(img).max() * max(img.shape[2:])
                bad = (np.abs(g - want).max(-1) > tol) & ok & ~far
                assert not bad.any(), "point %d, view %d, feature %s: %s, expected %s" % (b, c, k, g[bad][0], want[bad][0])
    equal(pts.detach(), x0, what="points")
    for k in feats:
        equal(feats[k], f0[k], what="features")
    # finite gradients, also for points at the centre of a camera
    x = torch.cat([pts.detach(), cam.get_camera_center()[:B, None].detach()], 1).requires_grad_(True)
    sf, sm = s(pts=x, seq_id_pts=ids[:B], camera=cam, seq_id_camera=ids, feats=feats, masks=give)
    (sum(f.sum() for f in sf.values()) + 0 * x.sum()).backward()
    assert torch.isfinite(x.grad).all(), "gradients of the points"


# ---- aggregation ---------------------------------------------------------------


def weights_of(case, mask, pts, models, angle):
    """(B, C, P) aggregation weights."""
    B, C, P = mask.shape
    w = mask.copy()
    for b in range(B):
        for c in range(C):
            if angle:
                u, v = (pts[b] - (-models[i].T @ models[i].R.T) for i in (b, c))
                cos = (u * v).sum(-1) / np.linalg.norm(u, axis=-1) / np.linalg.norm(v, axis=-1)
                w[b, c] *= (cos * 0.5 + 0.5 + case["minw"]) ** case["gamma"]
            if case["excl"] and b == c:
                w[b, c] = 0
    return w


def reduce(x, w, fns):
    """x (C, P, F), w (C, P) -> (P, sum) and a mask of comparable points."""
    tot = w.sum(0)[:, None]
    mu = (x * w[..., None]).sum(0) / np.maximum(tot, 1e-2)
    std = np.sqrt(np.maximum(((x - mu) ** 2 * w[..., None]).sum(0) / np.maximum(tot, 1e-2), 1e-4))
    out = []
    if "avg" in fns:
        out.append(mu)
    if "std" in fns:
        out.append(std)
    if "std_avg" in fns:
        out.append(std.mean(-1, keepdims=True))
    if "max" in fns:
        out.append(np.where(w[..., None] > 0.5, x, -np.inf).max(0))
    top = w.max(0)
    res = np.concatenate(out, -1)
    res[top < 1e-4] = 0
    return res, (top == 0) | (tot[:, 0] > 2e-2)


def make_aggregator(case):
    k = dict(exclude_target_view=case["excl"], exclude_target_view_mask_features=case["exclf"], concatenate_output=case["cat"])
    if case["agg"] in ("red", "ang"):
        k["reduction_functions"] = tuple(ReductionFunction(f) for f in case["fns"])
    if case["agg"].startswith("ang"):
        k.update(weight_by_ray_angle_gamma=case["gamma"], min_ray_angle_weight=case["minw"])
    return AGG[case["agg"]](**k)


def aggregate(case, feats, mask, pts, models):
    """{k: (B, C, P, F)} float64 -> what the aggregator gives, per feature type, with a mask (B, P)."""
    B, C, P = mask.shape
    ok = np.ones((B, P), bool)
    feats = {k: f.copy() for k, f in feats.items()}
    if case["exclf"]:
        for f in feats.values():
            for b in range(B):
                f[b, b] = 0
    if case["agg"] == "id":
        return feats, ok
    w = weights_of(case, mask, pts, models, case["agg"].startswith("ang"))
    if case["agg"] == "angid":
        return {k: f * w[..., None] for k, f in feats.items()}, ok
    out = {}
    for k, f in feats.items():
        parts = [reduce(f[b], w[b], case["fns"]) for b in range(B)]
        out[k] = np.stack([p[0] for p in parts])[:, None]
        ok &= np.stack([p[1] for p in parts])
    return out, ok


FNS = one_of(["avg"], ["std"], ["max"], ["std_avg"], ["avg", "std"], ["avg", "std", "std_avg", "max"], ["avg", "max"], ["std", "std_avg"])
AGGS = dict(agg=one_of("id", "red", "red", "ang", "ang", "angid"), fns=FNS, excl=boolean(), exclf=boolean(), cat=boolean(), gamma=one_of(1.0, 1.0, 0.5, 2.0, 0.0), minw=one_of(0.1, 0.1, 0.3, 1.0))


def settle(case):
    """MAX with fractional weights has no documented value: all weights are then 1."""
    return {**case, "gamma": 0.0} if case["agg"] == "ang" and "max" in case["fns"] else case


def check_aggregate(case, agg, got, want, ok, what):
    """Compare with the reference, concatenated or not."""
    assert isinstance(got, dict) != case["cat"], "concatenate_output"
    if case["cat"]:
        got, want = {None: got}, {None: np.concatenate(list(want.values()), -1)}
    assert set(got) == set(want), "feature types"
    for k in want:
        assert tuple(got[k].shape) == want[k].shape, (what, "shape", tuple(got[k].shape), want[k].shape)
        m = np.broadcast_to(ok[:, None, :, None], want[k].shape)
        close(torch.where(torch.from_numpy(m.copy()), f64(got[k].detach()), torch.zeros(())), np.where(m, want[k], 0), atol=2e-3, rtol=1e-3, what=what)


@sub(d(seed=SEED, typ=TYP, C=ints(1, 4), B=ints(1, 3), P=ints(1, 5), F=ints(1, 3), frac=boolean(), neg=boolean(), **AGGS), quick=400, thorough=30000)
def aggregators(case, cx):
    """The weighted moments and maxima of the features of the valid views."""
    case = settle(case)
    r = rng(case["seed"], 1)
    cam, models, pts, _, _, _, _ = scene(case, r)
    B, C, P = pts.shape[0], case["C"], case["P"]
    cx.trivial(C == 1)
    cx.label(case["agg"])
    mask = (r.random((B, C, P)) < 0.7).astype(np.float32)
    if case["frac"] and "max" not in case["fns"]:
        mask *= r.uniform(0.2, 1, mask.shape).astype(np.float32)
    feats = {k: T(r, (B, C, P, int(r.integers(1, 4)))) for k in "abc"[: case["F"]]}
    if case["neg"]:
        feats = {k: f - 4 for k, f in feats.items()}
    agg = make_aggregator(case)
    m = torch.from_numpy(mask)[..., None]
    f0, m0 = {k: f.clone() for k, f in feats.items()}, m.clone()
    got = agg(feats, m, camera=cam, pts=pts)
    want, ok = aggregate(case, {k: f64(f).numpy() for k, f in feats.items()}, mask.astype(np.float64), f64(pts).numpy(), models)
    check_aggregate(case, agg, got, want, ok, case["agg"])
    for k in feats:
        equal(feats[k], f0[k], what="sampled features")
    equal(m, m0, what="sampled masks")
    # the documented dimensions
    dims = sum(v.shape[-1] for v in want.values())
    assert agg.get_aggregated_feature_dim(feats) == dims, ("aggregated dimension from the features", agg.get_aggregated_feature_dim(feats), dims)
    if "std_avg" not in case["fns"] or case["F"] == 1:
        total = sum(f.shape[-1] for f in feats.values())
        assert agg.get_aggregated_feature_dim(total) == dims, ("aggregated dimension from the number of features", agg.get_aggregated_feature_dim(total), dims)
    assert agg.has_aggregation() == (case["agg"] in ("red", "ang")), "has_aggregation"
    if case["agg"].startswith("ang"):
        raises(lambda: agg(feats, m, camera=None, pts=pts), ValueError, what="no camera")
        raises(lambda: agg(feats, m, camera=cam, pts=None), ValueError, what="no points")
    # what is masked has no influence
    if case["agg"] in ("red", "ang"):
        other = {k: f + 100 * (m == 0) for k, f in feats.items()}
        again = agg(other, m, camera=cam, pts=pts)
        a, b = (torch.cat(list(x.values()), -1) if isinstance(x, dict) else x for x in (got, again))
        close(b, a, atol=2e-3, rtol=1e-3, what="masked features")


@sub(d(seed=SEED, typ=TYP, C=ints(1, 4), B=ints(1, 3), P=ints(1, 5), F=ints(1, 2), masked=boolean(), **AGGS), quick=200, thorough=10000)
def pooler(case, cx):
    """Pooling is sampling followed by aggregation, with the configured parts."""
    case = settle(case)
    r = rng(case["seed"], 2)
    cam, models, pts, feats, masks, names, ids = scene(case, r)
    B, C = pts.shape[0], case["C"]
    cx.trivial(C == 1)
    name = AGG[case["agg"]].__name__
    ref = make_aggregator(case)
    keys = ["exclude_target_view", "exclude_target_view_mask_features", "concatenate_output"] + [k for k in ("reduction_functions", "weight_by_ray_angle_gamma", "min_ray_angle_weight") if hasattr(ref, k)]
    args = {k: getattr(ref, k) for k in keys}
    p = ViewPooler(feature_aggregator_class_type=name, view_sampler_args=dict(masked_sampling=case["masked"]), **{"feature_aggregator_%s_args" % name: args})
    got = p(pts=pts, seq_id_pts=ids[:B], camera=cam, seq_id_camera=ids, feats=feats, masks=masks)
    sf, sm = ViewSampler(masked_sampling=case["masked"])(pts=pts, seq_id_pts=ids[:B], camera=cam, seq_id_camera=ids, feats=feats, masks=masks)
    if "max" in case["fns"] and case["agg"] in ("red", "ang") and case["masked"]:
        return
    want, ok = aggregate(case, {k: f64(f).numpy() for k, f in sf.items()}, f64(sm)[..., 0].numpy(), f64(pts).numpy(), models)
    w = weights_of(case, f64(sm)[..., 0].numpy(), f64(pts).numpy(), models, case["agg"].startswith("ang"))
    if case["agg"] in ("red", "ang"):  # weights near the threshold of an active view
        ok &= ~((w.max(1) > 1e-5) & (w.max(1) < 1e-3))
    check_aggregate(case, p, got, want, ok, name)
    dims = sum(v.shape[-1] for v in want.values())
    assert p.get_aggregated_feature_dim(sf) == dims, "dimension of pooled features"
    assert p.has_aggregation() == (case["agg"] in ("red", "ang")), "has_aggregation"


# ---- radiance fields -------------------------------------------------------------


def cameras(r, B):
    R, t = rot(r, B).float(), T(r, (B, 3))
    return PerspectiveCameras(R=R, T=t), f64(R).numpy(), f64(t).numpy()


def make_rays(r, B, shape, P, bins=False):
    o, dr = T(r, (B, *shape, 3)), T(r, (B, *shape, 3))
    l = torch.from_numpy(np.sort(r.uniform(0.2, 2, (B, *shape, P + bins)), -1)).float()
    kw = dict(bins=l, lengths=None, pixel_radii_2d=torch.from_numpy(r.uniform(0.01, 0.1, (B, *shape, 1))).float()) if bins else dict(lengths=l)
    b = ImplicitronRayBundle(origins=o, directions=dr, xys=None, **kw)
    pts = f64(o)[..., None, :] + f64(b.lengths)[..., None] * f64(dr)[..., None, :]
    return b, pts.numpy()


def pool_fn(n_src, dim, flat_ok=True):
    """A stand-in for view pooling: (B, N, 3) -> (B, n_src, N, dim), each value a function of its own point, batch element and source."""
    a = torch.arange(1, n_src + 1).float()[None, :, None, None] * 0.3
    w = torch.arange(1, 3 * dim + 1).reshape(3, dim).float() * 0.2

    def f(x):
        assert x.ndim == 3
        s = torch.arange(x.shape[0]).to(x)[:, None, None, None]
        return torch.sin(x[:, None] @ w.to(x) + a.to(x) + 0.5 * s)
    return f


def spread(net, r):
    for q in net.parameters():
        if q.ndim == 1:
            q.data += 0.3 * torch.from_numpy(r.normal(size=tuple(q.shape))).to(q)


def transformer(net, x, layers, skips):
    """TransformerWithInputSkips on (n_src, P, dim) of one ray."""
    y, s = lin(net.first, x), 0
    for i in range(layers):
        if i in skips:
            y = y + lin(net.skip_linear[s], x)
            s += 1
        y = np.stack([attention(net.layers_pool[i], y[:, j]) for j in range(y.shape[1])], 1)
        y = np.stack([attention(net.layers_ray[i], y[j]) for j in range(y.shape[0])], 0)
    w = np.exp(y[..., :1] - y[..., :1].max(0))
    return lin(net.last, (y * w / w.sum(0)).sum(0))


SHAPES = one_of((1,), (3,), (2, 3), (3, 2), (2, 2), (3, 1), (2, 1, 2))


@sub(d(seed=SEED, B=ints(1, 3), shape=SHAPES, P=ints(1, 4), former=boolean(), nh=ints(0, 3), nd=ints(0, 2), code=ints(0, 3), pool=ints(0, 3), src=ints(1, 3), xyz=boolean(), incam=boolean(), ipe=boolean(), layers=ints(1, 3),
       skips=one_of((), (1,), (2,)), cdim=ints(1, 4)), quick=250, thorough=12000)
def nerf(case, cx):
    """Densities and colours of every ray point: from its own position, direction, pooled features and code."""
    r = rng(case["seed"], 3)
    torch.manual_seed(case["seed"] % 1000)
    B, P, shape = case["B"], case["P"], tuple(case["shape"])
    n = int(np.prod(shape))
    latent = case["code"] + case["pool"]
    xyz = case["xyz"] or latent == 0
    cx.trivial(B * n * P == 1)
    kw = dict(n_harmonic_functions_xyz=case["nh"], n_harmonic_functions_dir=case["nd"], n_hidden_neurons_dir=5, latent_dim=latent, input_xyz=xyz, xyz_ray_dir_in_camera_coords=case["incam"], color_dim=case["cdim"],
              use_integrated_positional_encoding=case["ipe"])
    former = case["former"]
    cx.label("former" if former else "mlp", "camera" if case["incam"] else "world")
    if former:
        fun = NeRFormerImplicitFunction(n_hidden_neurons_xyz=32, n_layers_xyz=case["layers"], append_xyz=tuple(case["skips"]), **kw)
    else:
        fun = NeuralRadianceFieldImplicitFunction(n_hidden_neurons_xyz=6, n_layers_xyz=case["layers"], append_xyz=tuple(case["skips"]), **kw)
    assert fun.allows_multiple_passes() and fun.requires_pooling_without_aggregation() == former
    spread(fun, r)
    rays, pts = make_rays(r, B, shape, P, bins=case["ipe"])
    cam, R, t = cameras(r, B)
    code = T(r, (B, case["code"])) if case["code"] else None
    src = case["src"] if former and case["pool"] else 1
    pool = pool_fn(src, case["pool"]) if case["pool"] else None
    with torch.no_grad():
        dens, cols, aux = fun(ray_bundle=rays, fun_viewpool=pool, camera=cam if case["incam"] or r.random() < 0.5 else None, global_code=code)
    assert tuple(dens.shape) == (B, *shape, P, 1) and tuple(cols.shape) == (B, *shape, P, case["cdim"]), ("shapes", dens.shape, cols.shape)
    cov = None
    if case["ipe"]:
        mean, cov = conical_frustum_to_gaussian(rays)
        pts, cov = f64(mean).numpy(), f64(cov).numpy()
    dirs = f64(rays.directions).numpy()
    world = pts
    if case["incam"]:
        pts = np.stack([pts[b] @ R[b] + t[b] for b in range(B)])
        dirs = np.stack([dirs[b] @ R[b] for b in range(B)])
    parts = []
    if xyz:
        e = harmonic(pts, case["nh"], False)
        if cov is not None:
            f = 4.0 ** np.arange(case["nh"])
            e = e * np.tile(np.exp(-0.5 * (cov[..., None] * f).reshape(*cov.shape[:-1], -1)), 2)
        parts.append(np.concatenate([e, pts], -1))
    parts = [np.repeat(q[:, None], src, 1) for q in parts]  # B, src, *shape, P, dim
    if pool is not None:
        v = f64(pool(torch.from_numpy(world.reshape(B, -1, 3)))).numpy()
        parts.append(v.reshape(B, src, *shape, P, -1))
    if code is not None:
        parts.append(np.broadcast_to(f64(code).numpy().reshape(B, *[1] * (len(shape) + 2), -1), (B, src, *shape, P, case["code"])))
    x = np.concatenate(parts, -1)
    net = fun.xyz_encoder
    if former:
        x = x.reshape(B, src, n, P, -1)
        feat = np.stack([np.stack([transformer(net, x[b, :, i], case["layers"], case["skips"]) for i in range(n)]) for b in range(B)]).reshape(B, *shape, P, -1)
    else:
        feat = mlp(net, x[:, 0], None, case["layers"], case["skips"], False, "RELU")
    tol = dict(atol=2e-3, rtol=2e-3) if former else dict(atol=5e-4, rtol=5e-4)
    close(dens, lin(fun.density_layer, feat), what="densities", **tol)
    u = dirs / np.linalg.norm(dirs, axis=-1, keepdims=True)
    u = np.broadcast_to(harmonic(u, case["nd"], True)[..., None, :], (B, *shape, P, 3 * (2 * case["nd"] + 1)))
    y = np.maximum(lin(fun.color_layer[0], np.concatenate([lin(fun.intermediate_linear, feat), u], -1)), 0)
    close(cols, 1 / (1 + np.exp(-lin(fun.color_layer[2], y))), what="colours", **tol)
    if case["incam"]:
        raises(lambda: fun(ray_bundle=rays, fun_viewpool=pool, camera=None, global_code=code), ValueError, what="camera coordinates without a camera")
    if case["ipe"]:
        raises(lambda: fun(ray_bundle=make_rays(r, B, shape, P)[0], fun_viewpool=pool, camera=cam, global_code=code), ValueError, what="integrated encoding without bins")
    raises(lambda: NeuralRadianceFieldImplicitFunction(input_xyz=False, latent_dim=0), ValueError, what="no input at all")


# ---- scene representation networks -------------------------------------------------


def norm_relu(x, ln):
    y = (x - x.mean(-1, keepdims=True)) / np.sqrt(x.var(-1, keepdims=True) + ln.eps)
    if ln.elementwise_affine:
        y = y * f64(ln.weight).numpy() + f64(ln.bias).numpy()
    return np.maximum(y, 0)


def fc_block(net, x):
    for l in net.net:
        x = lin(l, x) if isinstance(l, torch.nn.Linear) else norm_relu(lin(l.net[0], x), l.net[1])
    return x


@sub(d(seed=SEED, B=ints(1, 3), shape=SHAPES, P=ints(1, 3), hyper=boolean(), nh=ints(0, 3), nd=ints(0, 3), code=ints(1, 3), usecode=boolean(), pool=ints(0, 3), layers=ints(0, 2), hid=ints(3, 6), out=ints(3, 6), incam=boolean(),
       dircam=boolean()), quick=250, thorough=12000)
def srn(case, cx):
    """Scene representation networks, their pixel generator and hypernetwork, ray by ray."""
    r = rng(case["seed"], 4)
    torch.manual_seed(case["seed"] % 1000)
    B, P, shape = case["B"], case["P"], tuple(case["shape"])
    n = int(np.prod(shape))
    cx.trivial(B * n * P == 1)
    hyper, pool_dim = case["hyper"], case["pool"]
    cx.label("hyper" if hyper else "plain")
    usecode = case["usecode"] or hyper
    march = dict(n_harmonic_functions=case["nh"], n_hidden_units=case["hid"], n_layers=case["layers"], out_features=case["out"], xyz_in_camera_coords=case["incam"])
    pix = dict(n_harmonic_functions=case["nd"], n_hidden_units=5, n_hidden_units_color=4, n_layers=1, in_features=case["out"], out_features=3, ray_dir_in_camera_coords=case["dircam"])
    if hyper:
        fun = SRNHyperNetImplicitFunction(latent_dim_hypernet=case["code"], latent_dim=pool_dim, hypernet_args=dict(n_hidden_units_hypernet=4, n_layers_hypernet=1, **march), pixel_generator_args=pix)
    else:
        fun = SRNImplicitFunction(latent_dim=pool_dim + (case["code"] if usecode else 0), raymarch_function_args=march, pixel_generator_args=pix)
    spread(fun, r)
    rays, pts = make_rays(r, B, shape, P)
    cam, R, t = cameras(r, B)
    pool = pool_fn(1, pool_dim) if pool_dim else None
    wrap = ImplicitFunctionWrapper(fun)

    def reference(code):
        x = np.stack([pts[b] @ R[b] + t[b] for b in range(B)]) if case["incam"] else pts
        parts = [harmonic(x, case["nh"], True)]
        if pool is not None:
            parts.append(f64(pool(torch.from_numpy(pts.reshape(B, -1, 3)))).numpy().reshape(B, *shape, P, -1))
        if usecode and not hyper:
            parts.append(np.broadcast_to(code.reshape(B, *[1] * (len(shape) + 1), -1), (B, *shape, P, case["code"])))
        x = np.concatenate(parts, -1)
        if not hyper:
            return fc_block(fun.raymarch_function._net, x)
        out = []
        for b in range(B):
            y = x[b]
            for l in fun.hypernet._hypernet.layers:
                hl = l.hyper_linear
                w = fc_block(hl.hypo_params, code[b])
                y = y @ w[: hl.in_ch * hl.out_ch].reshape(hl.out_ch, hl.in_ch).T + w[hl.in_ch * hl.out_ch:]
                y = norm_relu(y, l.norm_nl[0])
            out.append(y)
        return np.stack(out)

    # two scenes in turn: the generated network follows the code of the bound scene
    for k in range(2):
        code = T(r, (B, case["code"])) if usecode else None
        wrap.bind_args(fun_viewpool=pool, camera=cam, global_code=code)
        with torch.no_grad():
            for _ in range(2):
                feats, second = wrap(ray_bundle=rays)
                assert second is None
                want = reference(None if code is None else f64(code).numpy())
                assert tuple(feats.shape) == want.shape, ("shape of features", tuple(feats.shape), want.shape)
                close(feats, want, atol=5e-3, rtol=2e-3, what="features of the ray points")
            f = T(r, (B, *shape, P, case["out"]))
            dens, cols = wrap(ray_bundle=rays, raymarch_features=f)
        y = fc_block(fun.pixel_generator._net, f64(f).numpy())
        close(dens, lin(fun.pixel_generator._density_layer, y), atol=2e-3, rtol=2e-3, what="densities")
        dirs = f64(rays.directions).numpy()
        if case["dircam"]:
            dirs = np.stack([dirs[b] @ R[b] for b in range(B)])
        u = harmonic(dirs / np.linalg.norm(dirs, axis=-1, keepdims=True), case["nd"], True)
        u = np.broadcast_to(u[..., None, :], (*y.shape[:-1], u.shape[-1]))
        cl = fun.pixel_generator._color_layer
        z = lin(cl[0], np.concatenate([y, u], -1))
        s = z.std(-1)
        m = torch.from_numpy(s > 1e-2)[..., None]
        close(torch.where(m, f64(cols), torch.zeros(())), torch.where(m, torch.from_numpy(lin(cl[3], norm_relu(z, cl[1]))), torch.zeros(())), atol=5e-3, rtol=5e-3, what="colours")
        wrap.unbind_args()
    if hyper:
        raises(lambda: wrap(ray_bundle=rays, camera=cam, fun_viewpool=pool), ValueError, what="hypernetwork without a code")
    if case["incam"]:
        fun.on_bind_args()
        raises(lambda: wrap(ray_bundle=rays, fun_viewpool=pool, global_code=T(r, (B, case["code"])) if usecode else None), ValueError, what="camera coordinates without a camera")


# ---- signed distance field ---------------------------------------------------------------


@sub(d(seed=SEED, n=ints(1, 6), dims=one_of((8,), (8, 8), (8, 6, 8), (8, 8, 8, 8)), skip=one_of((), (1,), (2,), (1, 2)), nh=ints(0, 2), code=ints(0, 2), fv=ints(0, 3), wn=boolean(), geo=boolean(), bundle=boolean()), quick=250, thorough=12000)
def idr(case, cx):
    """The signed distance field network, and its initialisation as a sphere."""
    r = rng(case["seed"], 5)
    torch.manual_seed(case["seed"] % 1000)
    dims = tuple(case["dims"])
    cx.trivial(case["n"] == 1)
    skip = tuple(s for s in case["skip"] if s < len(dims) + 1 and s >= 1)
    width = 3 * (2 * case["nh"] + 1) + case["code"]
    big = tuple(q + width for q in dims)
    fun = IdrFeatureField(dims=big, skip_in=skip, n_harmonic_functions_xyz=case["nh"], encoding_dim=case["code"], feature_vector_size=case["fv"], weight_norm=case["wn"], geometric_init=case["geo"])
    x = T(r, (case["n"], 3))
    code = T(r, (1, case["code"])) if case["code"] else None

    def reference():
        e = harmonic(f64(x).numpy(), case["nh"], True)
        if code is not None:
            e = np.concatenate([e, np.broadcast_to(f64(code).numpy(), (case["n"], case["code"]))], -1)
        y = e
        for i, l in enumerate(fun.linear_layers):
            if i in skip:
                y = np.concatenate([y, e], -1) / math.sqrt(2)
            y = lin(l, y)
            if i < len(dims):
                y = np.logaddexp(0, 100 * y) / 100
        return y

    with torch.no_grad():
        got = fun(rays_points_world=x, global_code=code)
        assert torch.isfinite(got).all(), "the initial field is not finite"
        close(got, reference(), atol=1e-3, rtol=1e-3, what="initial field")
        spread(fun, r)
        got = fun(rays_points_world=x, global_code=code)
        close(got, reference(), atol=1e-3, rtol=1e-3, what="field")
        assert got.shape[1] == 1 + case["fv"], "output dimension"
        e = fun(rays_points_world=x[:0], global_code=code)
        assert tuple(e.shape) == (0, 1 + case["fv"]), "no points"
        if case["bundle"] and code is None:
            rays, pts = make_rays(r, 2, (2,), 2)
            y = fun(ray_bundle=rays)
            for b in range(2):
                close(y[b].reshape(4, -1), fun(rays_points_world=torch.from_numpy(pts[b].reshape(4, 3)).float()), atol=1e-4, rtol=1e-4, what="points of a ray bundle")
            raises(lambda: fun(ray_bundle=rays, rays_points_world=x), ValueError, what="rays and points")
            raises(lambda: fun(), ValueError, what="neither rays nor points")


@sub(d(seed=SEED, layers=ints(2, 5), skip=one_of((), (2,), (3,), (1,)), nh=ints(0, 3), wn=boolean(), bias=one_of(0.5, 1.0, 0.7), code=one_of(0, 0, 4)), quick=12, thorough=300)
def sphere_init(case, cx):
    """The geometric initialisation is roughly the signed distance of a sphere around the origin."""
    r = rng(case["seed"], 6)
    torch.manual_seed(case["seed"] % 100000)
    skip = tuple(s for s in case["skip"] if s < case["layers"])  # not the last layer
    cx.label("skip" if skip else "plain")
    fun = IdrFeatureField(dims=(256,) * case["layers"], skip_in=skip, n_harmonic_functions_xyz=case["nh"], weight_norm=case["wn"], bias=case["bias"], encoding_dim=case["code"])
    u = r.normal(size=(64, 3))
    u /= np.linalg.norm(u, axis=-1, keepdims=True)
    code = torch.zeros(1, case["code"]) if case["code"] else None
    with torch.no_grad():
        inside, outside = (fun(rays_points_world=torch.from_numpy(u * case["bias"] * s).float(), global_code=code)[:, 0] for s in (0.4, 2.5))
    assert (inside < 0).all() and (outside > 0).all(), ("initial field inside and outside of its sphere", inside.max().item(), outside.min().item())


# ---- codes ---------------------------------------------------------------------------------


@sub(d(seed=SEED, n=ints(1, 6), dim=ints(1, 4), steps=ints(1, 8), ignore=boolean(), scale=one_of(1.0, 0.5, 0.0, 3.0)), quick=150, thorough=6000)
def codes(case, cx):
    """Histories of keys: each key keeps its own code, also through saving and loading."""
    r = rng(case["seed"], 7)
    n, dim, ign = case["n"], case["dim"], case["ignore"]
    torch.manual_seed(case["seed"] % 1000)
    make = lambda: SequenceAutodecoder(autodecoder_args=dict(encoding_dim=dim, n_instances=n, init_scale=case["scale"], ignore_input=ign))
    enc = make()
    torch.manual_seed(case["seed"] % 1000)
    unit = SequenceAutodecoder(autodecoder_args=dict(encoding_dim=dim, n_instances=n))
    pool = torch.nn.Embedding(n, dim)
    close(enc.autodecoder._autodecoder_codes.weight, f64(unit.autodecoder._autodecoder_codes.weight) * case["scale"], what="scale of the initial codes")
    enc.autodecoder._autodecoder_codes.weight.data = f64(pool.weight.data).float() + 10 * torch.arange(n)[:, None]
    assert enc.get_encoding_dim() == dim
    close(enc.calculate_squared_encoding_norm(), (f64(enc.autodecoder._autodecoder_codes.weight) ** 2).mean(), what="squared norm of the codes")
    names = ["k%d" % i for i in range(n + 2)]
    known, seen = {}, 0
    for _ in range(case["steps"]):
        what = r.integers(0, 4)
        table = enc.autodecoder._autodecoder_codes.weight.detach().clone()
        if what == 0:  # save, load into a fresh encoder of a bigger module
            new = make()
            holder, other = torch.nn.ModuleDict({"enc": enc}), torch.nn.ModuleDict({"enc": new})
            state = copy.deepcopy(holder.state_dict())
            missing, unexpected = other.load_state_dict(state)
            assert not missing and not unexpected, (missing, unexpected)
            assert state.keys() == holder.state_dict().keys(), "the loaded state was changed"
            enc = new
            equal(enc.autodecoder._autodecoder_codes.weight.detach(), table, what="loaded codes")
            continue
        if what == 1:
            idx = torch.from_numpy(r.integers(0, n, int(r.integers(1, 4))))
            got = enc(sequence_name=idx, frame_timestamp=None)
            assert tuple(got.shape) == (len(idx), dim), ("codes of indices", tuple(got.shape))
            if not ign:
                equal(got.detach(), table[idx], what="codes of indices")
            continue
        ask = [names[i] for i in r.integers(0, len(names), int(r.integers(1, 5)))]
        keys = ["one"] * len(ask) if ign else ask
        for k in keys:
            if k not in known and len(known) < n:
                known[k] = None
        if any(k not in known for k in keys):
            raises(lambda: enc(sequence_name=ask), ValueError, what="more keys than codes")
            continue
        got = enc(sequence_name=ask).detach()
        assert tuple(got.shape) == (len(ask), dim), ("shape of the codes", tuple(got.shape), len(ask))
        for k, g in zip(keys, got):
            row = (table == g).all(-1).nonzero().flatten().tolist()
            assert len(row) == 1, "not one of the codes"
            if known[k] is None:
                assert row[0] not in known.values(), "the code of another key"
                known[k] = row[0]
            assert known[k] == row[0], "the code of a key has changed"
            seen += 1
    cx.trivial(seen < 2 or len(known) < 2)
    raises(lambda: enc(sequence_name=None, frame_timestamp=torch.zeros(1, 1)), ValueError, what="no sequence name")
    raises(lambda: Autodecoder(n_instances=0), ValueError, what="no instances")


@sub(d(seed=SEED, n=ints(1, 5), nh=ints(0, 4), app=boolean(), div=one_of(1.0, 2.0, 10.0)), quick=60, thorough=2000)
def time_codes(case, cx):
    r = rng(case["seed"], 8)
    cx.trivial(case["n"] == 1)
    if case["nh"] == 0 and not case["app"]:
        return cx.trivial(True)
    e = HarmonicTimeEncoder(n_harmonic_functions=case["nh"], append_input=case["app"], time_divisor=case["div"])
    x = torch.from_numpy(r.uniform(0, 20, (case["n"], 1))).float()
    got = e(frame_timestamp=x)
    want = harmonic(f64(x).numpy() / case["div"], case["nh"], case["app"])
    assert e.get_encoding_dim() == want.shape[-1] == got.shape[-1], "dimension of time codes"
    close(got, want, atol=1e-4, rtol=1e-4, what="time codes")
    assert e.calculate_squared_encoding_norm() is None
    raises(lambda: e(sequence_name=["a"]), ValueError, what="no timestamp")
    equal(e(frame_timestamp=x[:, 0]), got, what="codes of a batch of timestamps")
    raises(lambda: e(frame_timestamp=torch.zeros(2, 3)), ValueError, what="several timestamps per frame")


# ---- colouring -------------------------------------------------------------------------------


@sub(d(seed=SEED, n=ints(1, 6), mode=one_of("idr", "no_view_dir", "no_normal"), fv=ints(1, 3), nd=ints(0, 2), pool=ints(0, 2), out=ints(1, 4), dims=one_of((), (5,), (5, 4)), wn=boolean(), mask=boolean(), none=boolean()), quick=150, thorough=6000)
def coloring(case, cx):
    """Colours of surface points from position, view direction, normal and features."""
    r = rng(case["seed"], 9)
    torch.manual_seed(case["seed"] % 1000)
    n, mode = case["n"], case["mode"]
    cx.trivial(n == 1)
    nd = 0 if mode == "no_view_dir" else case["nd"]
    net = RayNormalColoringNetwork(feature_vector_size=case["fv"], mode=mode, d_in=9 if mode == "idr" else 6, d_out=case["out"], dims=tuple(case["dims"]), weight_norm=case["wn"], n_harmonic_functions_dir=nd,
                                   pooled_feature_dim=case["pool"])
    spread(net, r)
    mask = torch.from_numpy(r.random((1, n)) < 0.6)
    if case["none"]:
        mask[:] = False
    hit = mask[0] if case["mask"] else torch.ones(n, dtype=torch.bool)
    k = int(hit.sum())
    pts, nrm, fv = T(r, (k, 3)), T(r, (k, 3)), T(r, (k, case["fv"]))
    dirs = T(r, (1, n, 3)) if case["mask"] else T(r, (n, 3))
    rays = ImplicitronRayBundle(origins=torch.zeros_like(dirs), directions=dirs, lengths=torch.ones(*dirs.shape[:-1], 1), xys=None)
    pool = (lambda q: torch.sin(q @ torch.arange(1, 3 * case["pool"] + 1).reshape(3, -1).to(q))) if case["pool"] else None
    lead = (lambda q: q[None]) if case["mask"] else (lambda q: q)
    if case["mask"] and case["pool"]:
        return cx.trivial(True)
    with torch.no_grad():
        got = net(lead(fv), lead(pts), lead(nrm), rays, masks=mask if case["mask"] else None, pooling_fn=pool)
    if case["mask"] and k == 0:
        assert (got == 0).all(), "colours of no points"
        return cx.trivial(True)
    v = f64(dirs).numpy().reshape(n, 3)[hit.numpy()]
    v = harmonic(v, nd, True)
    p, m, f = (f64(q).numpy() for q in (pts, nrm, fv))
    parts = {"idr": [p, v, m, f], "no_view_dir": [p, m, f], "no_normal": [p, v, f]}[mode]
    if pool is not None:
        parts.append(f64(pool(torch.from_numpy(p))).numpy())
    y = np.concatenate(parts, -1)
    for i, l in enumerate(net.linear_layers):
        y = lin(l, y)
        if i < len(case["dims"]):
            y = np.maximum(y, 0)
    close(got.reshape(k, -1), np.tanh(y), atol=1e-3, rtol=1e-3, what="colours")
    bad = RayNormalColoringNetwork(mode="other")
    raises(lambda: bad(fv, pts, nrm, rays), ValueError, what="unknown mode")
