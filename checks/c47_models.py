"""C47: whole Implicitron models: chunked rendering, targets, losses, conditioning, GenericModel against OverfitModel, checkpoints."""
import contextlib
import dataclasses
import io
import logging
import os
import tempfile
import warnings
from typing import Any, Dict, Optional

import numpy as np
import torch

from omegaconf import OmegaConf
from pytorch3d.implicitron.models.feature_extractor.resnet_feature_extractor import ResNetFeatureExtractor
from pytorch3d.implicitron.models.generic_model import GenericModel
from pytorch3d.implicitron.models.overfit_model import OverfitModel
from pytorch3d.implicitron.models.renderer.base import EvaluationMode, ImplicitronRayBundle, RendererOutput
from pytorch3d.implicitron.models.utils import apply_chunked, chunk_generator, preprocess_input, weighted_sum_losses
from pytorch3d.implicitron.tools import model_io
from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args
from pytorch3d.implicitron.tools.stats import Stats
from pytorch3d.implicitron.tools.utils import cat_dataclass
from pytorch3d.renderer import PerspectiveCameras, ray_bundle_to_ray_points
from vlib import cams
from vlib.core import sub
from vlib.gen import SEED, T, boolean, close, d, equal, f64, fl, ints, one_of, raises, rng, rot

PROP = "C47"
RULE = ("random model configurations (every implicit function, renderer, encoder and aggregator) with small networks, up to 4 views of up to 3 sequences, images of unequal sides. Oracle: the same model without chunks, on each "
        "target alone, with views permuted or sequences renamed, OverfitModel against GenericModel with the same weights, and explicit formulas. Non-trivial: several chunks, views, targets or checkpoints.")

logging.getLogger("pytorch3d").setLevel(logging.ERROR)
for c in (GenericModel, OverfitModel, ResNetFeatureExtractor):
    expand_args_fields(c)


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


# ---- utilities -------------------------------------------------------------


@dataclasses.dataclass
class Inner:
    a: Optional[torch.Tensor] = None
    b: Optional[Dict[str, Any]] = None


@dataclasses.dataclass
class Outer:
    x: torch.Tensor
    y: Optional[torch.Tensor] = None
    inner: Optional[Inner] = None


@sub(d(seed=SEED, n=ints(1, 4), dim=ints(0, 1), y=boolean(), inner=boolean(), none=boolean()), quick=100, thorough=10000)
def cat(case, cx):
    """cat_dataclass concatenates every tensor, nested or in a dictionary, in order."""
    r = rng(case["seed"])
    cx.trivial(case["n"] == 1)
    w = [int(k) for k in r.integers(1, 4, case["n"])]

    def t(k):
        return T(r, (k, 2) if case["dim"] == 0 else (2, k))

    parts = [Outer(t(k), t(k) if case["y"] else None, Inner(t(k), {"p": t(k), "q": None if case["none"] else t(k)}) if case["inner"] else None) for k in w]
    got = cat_dataclass(parts, lambda b: torch.cat(b, dim=case["dim"]))

    def check(f, what):
        vs = [f(p) for p in parts]
        if vs[0] is None:
            assert f(got) is None, what
        else:
            equal(f(got), torch.cat(vs, dim=case["dim"]), what=what)

    assert type(got) is Outer
    check(lambda o: o.x, "x")
    check(lambda o: o.y, "y")
    if case["inner"]:
        assert type(got.inner) is Inner
        check(lambda o: o.inner.a, "inner.a")
        check(lambda o: o.inner.b["p"], "inner.b.p")
        check(lambda o: o.inner.b["q"], "inner.b.q")
        assert set(got.inner.b) == {"p", "q"}
    else:
        assert got.inner is None


@sub(d(seed=SEED, B=ints(1, 3), H=ints(1, 6), W=ints(1, 6), P=ints(0, 4), flat=boolean(), k=ints(1, 30), bins=boolean(), radii=boolean(), extra=ints(0, 2), prev=boolean()), quick=300, thorough=40000)
def chunks(case, cx):
    """Chunked evaluation hands each ray over once, in order, with its own inputs, and puts the results back."""
    r = rng(case["seed"])
    B, H, W, P = case["B"], case["H"], case["W"], case["P"]
    sp = (H * W,) if case["flat"] else (H, W)
    n = H * W
    size = case["k"] * max(P, 1)
    b = ImplicitronRayBundle(origins=T(r, (B, *sp, 3)), directions=T(r, (B, *sp, 3)), lengths=T(r, (B, *sp, P)), xys=T(r, (B, *sp, 2)), camera_ids=None, camera_counts=None,
                             bins=T(r, (B, *sp, P + 1)) if case["bins"] and P > 0 else None, pixel_radii_2d=T(r, (B, *sp, 1)) if case["radii"] else None)
    extra = {"e%d" % i: T(r, (B, i + 1, *sp)) for i in range(case["extra"])}
    if case["flat"]:
        extra = {k: v[..., None] for k, v in extra.items()}
    if P > 1 and r.random() < 0.2:
        raises(lambda: list(chunk_generator(size + 1, b, extra, 10**9)), ValueError, what="chunk not divisible by the points per ray")
    seen = []

    def f(bundle, arg, kw=None, **e):
        assert arg == "arg" and kw == "kw" and set(e) == set(extra), "arguments"
        m = bundle.origins.shape[1]
        assert m * max(P, 1) <= max(size, max(P, 1)), ("chunk of %d rays of %d points, limit %d" % (m, P, size))
        assert m > 0
        seen.append(m)
        feats = [bundle.origins, bundle.directions, bundle.lengths, bundle.xys]
        if b.bins is not None:
            feats.append(bundle.bins)
        else:
            assert bundle.bins is None
        if b.pixel_radii_2d is not None:
            feats.append(bundle.pixel_radii_2d)
        else:
            assert bundle.pixel_radii_2d is None
        feats += [e[k].permute(0, 2, 1) for k in sorted(e)]
        o = RendererOutput(features=torch.cat(feats, -1), depths=bundle.xys[..., :1], masks=bundle.xys[..., 1:])
        if case["prev"]:
            o.prev_stage = RendererOutput(features=bundle.origins * 2, depths=bundle.xys[..., 1:], masks=bundle.xys[..., :1])
            o.aux = {"n": bundle.directions, "none": None}
        return o

    if P == 0:
        size = case["k"]
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        got = apply_chunked(f, chunk_generator(size, b, extra, int(r.integers(1, 20)), "arg", kw="kw"), lambda batch: torch.cat(batch, dim=1).reshape(B, *sp, -1))
    cx.trivial(len(seen) == 1)
    assert sum(seen) == n, "rays"
    want = [b.origins, b.directions, b.lengths, b.xys] + ([b.bins] if b.bins is not None else []) + ([b.pixel_radii_2d] if b.pixel_radii_2d is not None else [])
    want += [extra[k].movedim(1, -1).reshape(B, *sp, -1) for k in sorted(extra)]
    equal(got.features, torch.cat(want, -1), what="features of the rays")
    equal(got.depths, b.xys[..., :1], what="depths")
    equal(got.masks, b.xys[..., 1:], what="masks")
    if case["prev"]:
        equal(got.prev_stage.features, b.origins * 2, what="previous stage")
        equal(got.aux["n"], b.directions, what="aux")
        assert got.aux["none"] is None and got.normals is None
    else:
        assert got.prev_stage is None


@sub(d(seed=SEED, B=ints(1, 3), H=ints(1, 4), W=ints(1, 4), thr=one_of(0.0, 0.3, 0.5, 1.0), mi=boolean(), md=boolean(), img=boolean(), fg=boolean(), dep=boolean()), quick=200, thorough=20000)
def inputs(case, cx):
    """Masks thresholded, backgrounds painted, depths masked; originals untouched."""
    r = rng(case["seed"])
    B, H, W, thr = case["B"], case["H"], case["W"], case["thr"]
    img = torch.from_numpy(r.random((B, 3, H, W))).float() if case["img"] else None
    fg = torch.from_numpy(r.choice([0.0, 0.29, 0.3, 0.31, 0.5, 0.6, 1.0], (B, 1, H, W))).float() if case["fg"] else None
    dep = torch.from_numpy(r.random((B, 1, H, W))).float() if case["dep"] else None
    bg = tuple(float(x) for x in r.random(3))
    if case["img"]:
        raises(lambda: quiet(preprocess_input, img[0], fg, dep, False, False, 0.5, bg), ValueError, what="unbatched image")
    md = case["md"]
    if md and thr == 0.0 and case["fg"] and case["dep"]:
        raises(lambda: quiet(preprocess_input, img, fg, dep, case["mi"], True, thr, bg), AssertionError, what="unthresholded masks for depths")
        md = False
    keep = [None if t is None else t.clone() for t in (img, fg, dep)]
    gi, gf, gd = quiet(preprocess_input, img, fg, dep, case["mi"], md, thr, bg)
    for a, b in zip(keep, (img, fg, dep)):
        if a is not None:
            equal(b, a, what="inputs")
    cx.trivial(not case["fg"])
    m = None
    if fg is None:
        assert gf is None
    else:
        m = f64(fg) if thr == 0 else (fg >= thr).double()
        equal(f64(gf), m, what="mask")
    if img is None:
        assert gi is None
    elif m is None or not case["mi"]:
        equal(gi, img, what="image")
    else:
        close(gi, f64(img) * m + (1 - m) * torch.tensor(bg, dtype=torch.float64).view(1, 3, 1, 1), 1e-5, what="masked image")
    if dep is None:
        assert gd is None
    else:
        close(gd, f64(dep) * m if md and m is not None else f64(dep), 1e-6, what="depth")


@sub(d(seed=SEED, n=ints(0, 5)), quick=100, thorough=5000)
def losses(case, cx):
    """The objective is the weighted sum of the available losses."""
    r = rng(case["seed"])
    names = ["l%d" % i for i in range(6)]
    preds = {k: T(r, ()).requires_grad_(True) for k in names if r.random() < 0.6}
    if preds and r.random() < 0.3:
        k = sorted(preds)[int(r.integers(0, len(preds)))]
        preds[k] = torch.tensor(float("nan"), requires_grad=True)  # weight 0: must not poison the sum
        weights = {k: 0.0}
    else:
        weights = {}
    for k in r.permutation(names)[: case["n"]]:
        weights.setdefault(str(k), float(r.choice([0.0, 1.0, -0.5, 2.25])))
    used = {k: w for k, w in weights.items() if k in preds and w != 0}
    preds["image"] = "not a tensor"
    used = {k: w for k, w in used.items() if not torch.isnan(preds[k])}
    weights = {k: w for k, w in weights.items() if k in used or k not in preds or w == 0}
    cx.trivial(len(used) < 2)
    got = quiet(weighted_sum_losses, preds, weights)
    if not used:
        assert got is None, "objective without losses"
        return
    want = sum(float(preds[k].detach()) * w for k, w in used.items())
    assert abs(float(got) - want) < 1e-4, ("objective", float(got), want)
    got.backward()
    for k, v in preds.items():
        if k != "image":
            g = 0.0 if v.grad is None else float(v.grad)
            assert abs(g - used.get(k, 0.0)) < 1e-6, "gradient of " + k


# ---- models -------------------------------------------------------------

SMALL_MLP = dict(n_harmonic_functions_xyz=2, n_harmonic_functions_dir=1, n_hidden_neurons_xyz=8, n_hidden_neurons_dir=6, n_layers_xyz=3, append_xyz=[1])


def config(case, r, kind, cls=GenericModel):
    """A small random configuration of the given kind of implicit function."""
    P = case["P"]
    a = dict(render_image_height=case["H"], render_image_width=case["W"], chunk_size_grid=-1, mask_images=bool(r.random() < 0.7), mask_depths=bool(r.random() < 0.7),
             mask_threshold=float(r.choice([0.3, 0.5])), bg_color=[float(x) for x in r.random(3).round(2)])
    near = r.random() < 0.4
    rs = dict(n_pts_per_ray_training=P, n_pts_per_ray_evaluation=P, n_rays_per_image_sampled_from_mask=int(r.integers(1, 6)), stratified_point_sampling_training=False)
    if near and kind != "IdrFeatureField":
        a["raysampler_class_type"] = "NearFarRaySampler"
        a["raysampler_NearFarRaySampler_args"] = dict(rs, min_depth=1.0, max_depth=6.0)
    else:
        a["raysampler_AdaptiveRaySampler_args"] = dict(rs, scene_extent=3.0 if kind != "IdrFeatureField" else 2.0)
    a["implicit_function_class_type"] = kind
    f = "implicit_function_%s_args" % kind
    ea = dict(n_pts_per_ray_fine_training=P, n_pts_per_ray_fine_evaluation=P, stratified_sampling_coarse_training=False,
              raymarcher_EmissionAbsorptionRaymarcher_args=dict(bg_color=[round(float(r.random()), 2)], replicate_last_interval=bool(r.random() < 0.3), background_opacity=float(r.choice([1e10, 1.0]))))
    cond = "none"
    if kind in ("NeuralRadianceFieldImplicitFunction", "NeRFormerImplicitFunction"):
        a[f] = dict(SMALL_MLP)
        if kind == "NeRFormerImplicitFunction":
            a[f]["n_hidden_neurons_xyz"] = 16
            a[f]["n_layers_xyz"] = 2
        a["renderer_MultiPassEmissionAbsorptionRenderer_args"] = ea
        cond = "view" if kind == "NeRFormerImplicitFunction" else case["cond"]
        a["num_passes"] = case["passes"]
    elif kind == "VoxelGridImplicitFunction":
        grid = dict(voxel_grid_class_type="FullResolutionVoxelGrid", extents=[4.0, 4.0, 4.0], voxel_grid_FullResolutionVoxelGrid_args=dict(n_features=2, resolution_changes={0: [3, 4, 5]}))
        dec = dict(n_layers=1, output_dim=1, hidden_dim=4, input_skips=[])
        emb = dict(n_harmonic_functions=1)
        a[f] = dict(voxel_grid_density_args=grid, voxel_grid_color_args=grid, decoder_density_MLPDecoder_args=dict(network_args=dec), decoder_color_MLPDecoder_args=dict(network_args=dict(dec, output_dim=3)),
                    harmonic_embedder_xyz_density_args=emb, harmonic_embedder_xyz_color_args=emb, harmonic_embedder_dir_color_args=emb)
        a["renderer_MultiPassEmissionAbsorptionRenderer_args"] = ea
    elif kind == "IdrFeatureField":
        a["renderer_class_type"] = "SignedDistanceFunctionRenderer"
        a[f] = dict(dims=[8, 8], n_harmonic_functions_xyz=1, bias=0.6, skip_in=[])
        a["renderer_SignedDistanceFunctionRenderer_args"] = dict(ray_normal_coloring_network_args=dict(dims=[6]), bg_color=[0.3], ray_tracer_args=dict(n_steps=16))
        cond = case["cond"] if case["cond"] == "code" else "none"
    else:
        a["renderer_class_type"] = "LSTMRenderer"
        rs.update(n_pts_per_ray_training=1, n_pts_per_ray_evaluation=1)
        for k in a:
            if k.startswith("raysampler_") and isinstance(a[k], dict):
                a[k].update(rs)
        small = dict(n_harmonic_functions=1, n_hidden_units=6, n_layers=1)
        pix = dict(n_harmonic_functions=1, n_hidden_units=6, n_hidden_units_color=4, n_layers=1, in_features=6)
        if kind == "SRNImplicitFunction":
            a[f] = dict(raymarch_function_args=dict(small, out_features=6), pixel_generator_args=pix)
            cond = case["cond"]
        else:
            a[f] = dict(hypernet_args=dict(small, out_features=6, n_hidden_units_hypernet=5, n_layers_hypernet=1), pixel_generator_args=pix)
            cond = "both" if case["cond"] in ("view", "both") else "code"
        a["renderer_LSTMRenderer_args"] = dict(num_raymarch_steps=2, hidden_size=4, n_feature_channels=6, init_depth=3.0, init_depth_noise_std=0.0)
    if cls is OverfitModel and cond in ("view", "both"):
        cond = "none" if cond == "view" else "code"
    if cond != "none" and "n_layers_xyz" in a[f] and r.random() < 0.2:
        a[f]["input_xyz"] = False
    if cond in ("code", "both"):
        if kind != "SRNHyperNetImplicitFunction" and r.random() < 0.3 and case.get("time", True):
            a["global_encoder_class_type"] = "HarmonicTimeEncoder"
            a["global_encoder_HarmonicTimeEncoder_args"] = dict(n_harmonic_functions=2)
        else:
            a["global_encoder_class_type"] = "SequenceAutodecoder"
            a["global_encoder_SequenceAutodecoder_args"] = dict(autodecoder_args=dict(encoding_dim=4, n_instances=4))
    if cond in ("view", "both"):
        a["view_pooler_enabled"] = True
        a["image_feature_extractor_class_type"] = "ResNetFeatureExtractor"
        a["image_feature_extractor_ResNetFeatureExtractor_args"] = dict(pretrained=False, stages=[], image_rescale=float(r.choice([1.0, 0.5, 2.0])), add_masks=True, add_images=True, normalize_image=False)
        agg = r.choice(["AngleWeightedIdentityFeatureAggregator", "IdentityFeatureAggregator"] if kind == "NeRFormerImplicitFunction" else ["AngleWeightedReductionFeatureAggregator", "ReductionFeatureAggregator"])
        a["view_pooler_args"] = {"feature_aggregator_class_type": str(agg), "feature_aggregator_%s_args" % agg: dict(exclude_target_view=bool(r.random() < 0.7)),
                                 "view_sampler_args": dict(masked_sampling=bool(r.random() < 0.5), sampling_mode=str(r.choice(["bilinear", "nearest"])))}
    a["loss_weights"] = {"loss_rgb_mse": float(r.choice([1.0, 0.5, 3.0])), "loss_mask_bce": float(r.choice([0.0, 0.2])), "loss_rgb_huber": 0.7, "loss_prev_stage_rgb_mse": 1.0, "loss_eikonal": 0.1, "loss_depth_abs": 0.3}
    return a, cond


def make(cls, a):
    return cls(**OmegaConf.merge(get_default_args(cls), OmegaConf.create(a)))


def shake(m, r, scale=0.4):
    """Weights of every tensor made random (some are initialised to zero)."""
    with torch.no_grad():
        for p in m.parameters():
            p.add_(T(r, tuple(p.shape)) * scale)


def views(r, N, H, W, cams_=None):
    """N cameras about the origin, looking roughly at it, with images of their own."""
    Rs, Ts = [], []
    for _ in range(N):
        c = r.standard_normal(3)
        c = c / np.linalg.norm(c) * 3.6  # equal distances: known finding adaptive-first-camera
        at = r.uniform(-0.3, 0.3, 3)
        z = (at - c) / np.linalg.norm(at - c)
        x = np.cross(r.standard_normal(3), z)
        x /= np.linalg.norm(x)
        y = np.cross(z, x)
        R = np.stack([x, y, z], -1)
        Rs.append(R)
        Ts.append(-c @ R)
    f = r.uniform(1.5, 3.0, (N, 1)) * np.ones((1, 2))
    cam = PerspectiveCameras(R=torch.from_numpy(np.stack(Rs)).float(), T=torch.from_numpy(np.stack(Ts)).float(), focal_length=torch.from_numpy(f).float(),
                             principal_point=torch.from_numpy(r.uniform(-0.2, 0.2, (N, 2))).float())
    fr = dict(image_rgb=torch.from_numpy(r.random((N, 3, H, W))).float(), fg_probability=torch.from_numpy((r.random((N, 1, H, W)) < 0.7) * r.uniform(0.6, 1.0, (N, 1, H, W)) + 0.05).float(),
              depth_map=torch.from_numpy(r.uniform(0.5, 5.0, (N, 1, H, W))).float(), mask_crop=torch.ones(N, 1, H, W))
    names = [str(x) for x in r.choice(["a", "b", "c"], N, p=[0.6, 0.3, 0.1])]
    return cam, dict(fr, sequence_name=names, frame_timestamp=torch.from_numpy(r.random(N)).float())


def pick(cam, fr, idx):
    idx = [int(i) for i in idx]
    out = {k: ([v[i] for i in idx] if isinstance(v, list) else v[idx]) for k, v in fr.items() if v is not None}
    return cam[idx], out


def run(m, cam, fr, mode=EvaluationMode.EVALUATION):
    with contextlib.redirect_stderr(io.StringIO()):
        return quiet(m, camera=cam, evaluation_mode=mode, **fr)


def same(a, b, tol, what, keys=("images_render", "depths_render", "masks_render"), share=1.0):
    """Renders agree.  `share` < 1 tolerates a share of pixels on branches (surface search)."""
    for k in keys:
        x, y = f64(a[k].detach()), f64(b[k].detach())
        assert x.shape == y.shape, (what, k, tuple(x.shape), tuple(y.shape))
        bad = ((x - y).abs() > tol * (1 + y.abs())) | (x.isfinite() != y.isfinite())
        assert float(bad.double().mean()) <= 1 - share, "%s: %s differs by %g" % (what, k, float((x - y).abs().max()))


KINDS = one_of("NeuralRadianceFieldImplicitFunction", "NeuralRadianceFieldImplicitFunction", "NeuralRadianceFieldImplicitFunction", "NeRFormerImplicitFunction", "SRNImplicitFunction", "SRNHyperNetImplicitFunction",
               "VoxelGridImplicitFunction", "IdrFeatureField")
CFG = dict(seed=SEED, kind=KINDS, cond=one_of("none", "view", "view", "code", "both"), N=ints(1, 4), H=ints(2, 6), W=ints(2, 6), P=ints(3, 5), passes=ints(1, 2))


@sub(d(**CFG, k=ints(1, 9), targets=ints(0, 4)), quick=100, thorough=6000)
def generic(case, cx):
    """GenericModel: chunk size, other targets, order and names of views do not change a render; losses against the inputs."""
    r = rng(case["seed"])
    kind, N, H, W = case["kind"], case["N"], case["H"], case["W"]
    a, cond = config(case, r, kind)
    a["n_train_target_views"] = case["targets"]
    a["sampling_mode_training"] = "full_grid"
    if "renderer_LSTMRenderer_args" in a or kind in ("IdrFeatureField", "SRNHyperNetImplicitFunction", "SRNImplicitFunction"):
        a.pop("num_passes", None)
    torch.manual_seed(case["seed"] % 2**31)
    cx.label(kind.replace("ImplicitFunction", "") + "/" + cond)
    cam, fr = views(r, N, H, W)
    whole = r.random() < 0.6
    if not whole:
        fr["mask_crop"] = torch.from_numpy((r.random((N, 1, H, W)) < 0.7)).float()
    if cond in ("none", "code") and kind != "IdrFeatureField" and r.random() < 0.3:
        fr = {k: (v if k in ("sequence_name", "frame_timestamp") else None) for k, v in fr.items()}
        fr["image_rgb"] = None
    if kind == "NeRFormerImplicitFunction" and N < 2:
        N = 2
        cam, fr = views(r, N, H, W)
    m = quiet(make, GenericModel, a)
    shake(m, r, 0.15 if kind != "IdrFeatureField" else 0.02)
    m.eval()
    cx.trivial(N == 1 and H * W < 4)
    tol, share = (1e-3, 1.0) if kind != "IdrFeatureField" else (1e-2, 0.8)
    with torch.set_grad_enabled(kind == "IdrFeatureField"):
        base = run(m, cam, fr)
        assert tuple(base["images_render"].shape) == (1, 3, H, W) and tuple(base["depths_render"].shape) == (1, 1, H, W) and tuple(base["masks_render"].shape) == (1, 1, H, W), "shape of the render"
        for k in ("image", "depth", "mask"):
            x, y = getattr(base["implicitron_render"], k + "_render"), base[k + "s_render"]
            equal(x, y, what=k)
        again = run(m, cam, fr)
        same(again, base, 1e-6, "second evaluation")
        P = m.raysampler.n_pts_per_ray_evaluation
        m.chunk_size_grid = case["k"] * P
        same(run(m, cam, fr), base, tol, "chunks of %d points" % m.chunk_size_grid, share=share)
        m.chunk_size_grid = -1
        # the first view alone is the target
        img = fr.get("image_rgb")
        if img is not None:
            other = dict(fr)
            for k in ("image_rgb", "depth_map", "fg_probability"):
                other[k] = fr[k].clone()
                if k == "fg_probability" and kind == "IdrFeatureField":
                    continue
                other[k][0] = torch.rand_like(other[k][0])
            agg = a.get("view_pooler_args")
            if agg is None or agg["feature_aggregator_%s_args" % agg["feature_aggregator_class_type"]]["exclude_target_view"] and N > 1 and fr["sequence_name"].count(fr["sequence_name"][0]) > 1:
                same(run(m, cam, other), base, tol, "images of the target changed")
        # views of other sequences are not used
        idx = [i for i in range(N) if i == 0 or cond in ("view", "both") and fr["sequence_name"][i] == fr["sequence_name"][0]]
        if kind != "NeRFormerImplicitFunction":  # attends to every view, masked or not
            c2, f2 = pick(cam, fr, idx)
            f2.setdefault("image_rgb", None)
            same(run(m, c2, f2), base, tol, "only the views of the sequence", share=share)
        # order of the sources
        idx = [0] + [int(i) + 1 for i in r.permutation(N - 1)]
        c2, f2 = pick(cam, fr, idx)
        f2.setdefault("image_rgb", None)
        same(run(m, c2, f2), base, 2 * tol, "sources permuted", share=share)
        # names of the sequences
        if a.get("global_encoder_class_type") != "SequenceAutodecoder":
            ren = {"a": "zz", "b": "a", "c": "q"}
            same(run(m, cam, dict(fr, sequence_name=[ren[s] for s in fr["sequence_name"]])), base, tol, "sequences renamed", share=share)
        # targets in training
        n = N if case["targets"] <= 0 else min(N, case["targets"])
        if kind == "IdrFeatureField":
            tr = None
        else:
            tr = run(m, cam, fr, EvaluationMode.TRAINING)
            assert tuple(tr["images_render"].shape) == (n, 3, H, W), ("targets", tuple(tr["images_render"].shape), n)
            for i in range(n):
                c2, f2 = pick(cam, fr, [i] + [j for j in range(N) if j != i])
                f2.setdefault("image_rgb", None)
                one = run(m, c2, f2)
                same({k: tr[k][i : i + 1] for k in ("images_render", "depths_render", "masks_render")}, one, 2 * tol, "target %d" % i)
        # losses
        for p, nt in ((base, 1), (tr, n)):
            if p is None:
                continue
            w = {k: v for k, v in a["loss_weights"].items() if k in p and v != 0}
            if w:
                want = sum(float(p[k].detach()) * v for k, v in w.items())
                assert abs(float(p["objective"].detach()) - want) <= 1e-4 * (1 + abs(want)), "objective"
            else:
                assert "objective" not in p
            if fr.get("image_rgb") is not None and not whole:
                pass
            elif fr.get("image_rgb") is not None:
                fg = (f64(fr["fg_probability"][:nt]) >= a["mask_threshold"]).double()
                im = f64(fr["image_rgb"][:nt])
                if a["mask_images"]:
                    im = im * fg + (1 - fg) * torch.tensor(a["bg_color"], dtype=torch.float64).view(1, 3, 1, 1)
                want = float(((f64(p["images_render"].detach()) - im) ** 2).mean())
                assert abs(float(p["loss_rgb_mse"].detach()) - want) <= 1e-3 * (1 + want), ("loss_rgb_mse", float(p["loss_rgb_mse"].detach()), want)
                if "loss_depth_abs" in p:
                    dm = f64(fr["depth_map"][:nt]) * (fg if a["mask_depths"] else 1)
                    ok = (dm > 0).double()
                    pd = f64(p["depths_render"].detach())
                    pd = pd * ((ok * pd * dm).sum((1, 2, 3)) / (ok * pd * pd).sum((1, 2, 3)).clamp(1e-4))[:, None, None, None]
                    want = float(((pd - dm).abs() * ok).sum((1, 2, 3)).div(ok.sum((1, 2, 3)).clamp(1e-4)).mean())
                    tiny = float((ok * f64(p["depths_render"].detach()) ** 2).mean((1, 2, 3)).min()) < 1e-2  # the divisor is clamped
                    assert tiny or abs(float(p["loss_depth_abs"].detach()) - want) <= 1e-3 * (1 + want), ("loss_depth_abs", float(p["loss_depth_abs"].detach()), want)
            else:
                assert "loss_rgb_mse" not in p
    # weights
    b = quiet(make, GenericModel, a)
    b.load_state_dict(m.state_dict())
    b.eval()
    if kind == "IdrFeatureField":
        same(run(b, cam, fr), base, tol, "state restored", share=share)
    else:
        with torch.no_grad():
            same(run(b, cam, fr), base, 1e-5, "state restored")


@sub(d(**CFG, k=ints(1, 9), share=boolean(), coarse=boolean()), quick=80, thorough=5000)
def overfit(case, cx):
    """OverfitModel renders every view; with the same weights it equals GenericModel, view by view."""
    r = rng(case["seed"])
    kind, N, H, W = case["kind"], case["N"], case["H"], case["W"]
    if kind in ("NeRFormerImplicitFunction", "SRNHyperNetImplicitFunction"):
        kind = "NeuralRadianceFieldImplicitFunction"
    if kind == "IdrFeatureField":
        N, case = 1, dict(case, cond="none")  # the signed distance renderer takes one view at a time, and no bound codes
    a, cond = config(case, r, kind, OverfitModel)
    for k in list(a):
        if k.startswith(("view_pooler", "image_feature")):
            del a[k]
    passes = a.pop("num_passes", 1) if kind == "NeuralRadianceFieldImplicitFunction" else 1
    a.pop("num_passes", None)
    cx.label(kind.replace("ImplicitFunction", "") + "/" + cond)
    g = dict(a)
    if passes == 2:
        if case["share"]:
            a["share_implicit_function_across_passes"] = True
        else:
            a["coarse_implicit_function_class_type"] = kind
            a["coarse_implicit_function_%s_args" % kind] = a["implicit_function_%s_args" % kind]
        g["num_passes"] = 2
    cx.trivial(N == 1)
    torch.manual_seed(case["seed"] % 2**31)
    o = quiet(make, OverfitModel, a)
    shake(o, r, 0.15 if kind != "IdrFeatureField" else 0.02)
    m = quiet(make, GenericModel, g)
    fns = [x._fn for x in m._implicit_functions]
    src = [o.implicit_function] if passes == 1 else [o.implicit_function if case["share"] else o.coarse_implicit_function, o.implicit_function]
    if passes == 2 and case["share"]:
        assert o.coarse_implicit_function is o.implicit_function, "shared implicit function"
    for x, y in zip(fns, src):
        x.load_state_dict(y.state_dict())
    if m.global_encoder is not None:
        m.global_encoder.load_state_dict(o.global_encoder.state_dict())
    m.renderer.load_state_dict(o.renderer.state_dict())
    o.eval(), m.eval()
    cam, fr = views(r, N, H, W)
    tol, share = (1e-3, 1.0) if kind != "IdrFeatureField" else (1e-2, 0.8)
    with torch.set_grad_enabled(kind == "IdrFeatureField"):
        base = run(o, cam, fr)
        assert tuple(base["images_render"].shape) == (N, 3, H, W)
        o.chunk_size_grid = case["k"] * o.raysampler.n_pts_per_ray_evaluation
        same(run(o, cam, fr), base, tol, "chunks", share=share)
        o.chunk_size_grid = -1
        for i in range(N):
            c2, f2 = pick(cam, fr, [i])
            one = run(m, c2, f2)
            same({k: base[k][i : i + 1] for k in ("images_render", "depths_render", "masks_render")}, one, tol, "view %d against GenericModel" % i, share=share)
        if kind == "IdrFeatureField":
            return
        w = {k: v for k, v in a["loss_weights"].items() if k in base and v != 0}
        want = sum(float(base[k].detach()) * v for k, v in w.items())
        assert abs(float(base["objective"].detach()) - want) <= 1e-4 * (1 + abs(want)), "objective"
    b = quiet(make, OverfitModel, a)
    b.load_state_dict(o.state_dict())
    b.eval()
    with torch.no_grad():
        same(run(b, cam, fr), base, 1e-5, "state restored")


# ---- features -------------------------------------------------------------


@sub(d(seed=SEED, stages=one_of([], [1], [2], [1, 3], [4], [1, 2, 3, 4]), name=one_of("resnet18", "resnet18", "resnet50"), proj=one_of(-1, 4, 64, 100), l2=boolean(), masks=boolean(), images=boolean(), pool=boolean(), norm=boolean(),
       first=boolean(), scale=one_of(1.0, 0.5, 2.0), mult=one_of(1.0, 0.5), B=ints(1, 2), H=ints(33, 70), W=ints(33, 70)), quick=12, thorough=300)
def extractor(case, cx):
    """Stage features: dimension, projection, normalisation, pooling, rescaling; images and masks passed on."""
    r = rng(case["seed"])
    if not (case["stages"] or case["masks"] or case["images"]):
        return
    torch.manual_seed(case["seed"] % 2**31)
    e = quiet(ResNetFeatureExtractor, name=case["name"], pretrained=False, stages=tuple(case["stages"]), normalize_image=case["norm"], image_rescale=case["scale"], first_max_pool=case["first"], proj_dim=case["proj"],
              l2_norm=case["l2"], add_masks=case["masks"], add_images=case["images"], global_average_pool=case["pool"], feature_rescale=case["mult"])
    e.eval()
    cx.trivial(not case["stages"])
    B, H, W = case["B"], case["H"], case["W"]
    img = torch.from_numpy(r.random((B, 3, H, W))).float()
    mask = torch.from_numpy(r.random((B, 1, H, W))).float()
    with torch.no_grad():
        out = e(img, mask)
    dims = {"resnet18": (64, 128, 256, 512), "resnet50": (256, 512, 1024, 2048)}[case["name"]]
    want = {}
    x = torch.nn.functional.interpolate(img, scale_factor=case["scale"], mode="bilinear") if case["scale"] != 1.0 else img
    with torch.no_grad():
        f = x
        if case["norm"]:
            f = (x - torch.tensor([0.485, 0.456, 0.406]).view(1, 3, 1, 1)) / torch.tensor([0.229, 0.224, 0.225]).view(1, 3, 1, 1)
        if case["stages"]:
            sd = e.state_dict()
            f = torch.nn.functional.conv2d(f, sd["stem.0.weight"], stride=2, padding=3)
            f = torch.nn.functional.batch_norm(f, sd["stem.1.running_mean"], sd["stem.1.running_var"], sd["stem.1.weight"], sd["stem.1.bias"]).relu()
            if case["first"]:
                f = torch.nn.functional.max_pool2d(f, 3, 2, 1)
            for s in range(1, max(case["stages"]) + 1):
                f = e.layers[s - 1](f)
                if s not in case["stages"]:
                    continue
                g = f
                if 0 < case["proj"] < dims[s - 1]:
                    g = torch.einsum("bchw,oc->bohw", f, sd["proj_layers.%d.weight" % (s - 1)][:, :, 0, 0]) + sd["proj_layers.%d.bias" % (s - 1)][:, None, None]
                if case["pool"]:
                    g = g.mean(dim=(2, 3), keepdim=True)
                if case["l2"]:
                    g = g / g.norm(dim=1, keepdim=True).clamp(1e-12) / len(case["stages"]) ** 0.5
                want["res_layer_%d" % s] = g
    if case["masks"]:
        want["mask"] = mask
    if case["images"]:
        want["image"] = x
    assert set(out) == set(want), ("features", sorted(out))
    for k, v in want.items():
        v = f64(v) * case["mult"]
        got = f64(out[k])
        if case["pool"] and k.startswith("res"):
            assert got.numel() == v.numel(), ("pooled feature", tuple(got.shape))
            assert got.dim() == 4, ("pooled features are maps", tuple(got.shape))
        close(got, v, 1e-3, 1e-3, what=k)
    assert e.get_feat_dims() == sum(v.shape[1] for v in want.values()), "declared dimension"


# ---- checkpoints -------------------------------------------------------------


class Net(torch.nn.Module):
    def __init__(self, v):
        super().__init__()
        self.w = torch.nn.Parameter(torch.full((2,), float(v)))


@sub(d(seed=SEED, ops=one_of(3, 6, 10, 15), brackets=boolean()), quick=60, thorough=6000)
def checkpoints(case, cx):
    """Histories of saving, loading, purging and finding checkpoints against a dictionary."""
    r = rng(case["seed"])
    with tempfile.TemporaryDirectory() as tmp:
        exp = os.path.join(tmp, "exp[1]" if case["brackets"] else "exp.v1")
        os.mkdir(exp)
        # decoys which are no checkpoints
        for n in ("model_epoch_1.pth", "model_epoch_abcdefgh.pth", "other.pth"):
            open(os.path.join(exp, n), "w").close()
        have = {}
        cx.trivial(case["ops"] < 4)
        for _ in range(case["ops"]):
            op = r.choice(["save", "save", "purge", "load", "find", "drop"])
            e = int(r.choice([0, 1, 2, 3, 10, 100, 99999999]))
            fl = model_io.get_checkpoint(exp, e)
            assert model_io.parse_epoch_from_model_path(fl) == e, "epoch of the path"
            if op == "save":
                v = float(r.random())
                net = Net(v)
                opt = torch.optim.SGD(net.parameters(), lr=v + 0.5) if r.random() < 0.6 else None
                st = Stats(["loss"])
                for _ in range(int(r.integers(1, 3))):
                    st.new_epoch()
                    st.update({"loss": torch.tensor(v)})
                before = sorted(os.listdir(tmp))
                getattr(model_io, str(r.choice(["save_model", "safe_save_model"])))(net, st, fl, optimizer=opt)
                assert sorted(os.listdir(tmp)) == before
                old = have.get(e, (None, None, None))
                have[e] = (net.w.detach().clone(), opt.param_groups[0]["lr"] if opt is not None else old[1], st.epoch)
            elif op == "purge":
                model_io.purge_epoch(exp, e)
                have.pop(e, None)
            elif op == "drop" and e in have:  # weights lost, statistics kept
                w, lr, ep = have[e]
                if w is not None:
                    os.remove(fl)
                    have[e] = (None, lr, ep)
            elif op == "load" and e in have and have[e][0] is not None:
                sd, st, opt = model_io.load_model(fl, None)
                equal(sd["w"], have[e][0].clone(), what="weights")
                assert st.epoch == have[e][2], "epoch of the statistics"
                if have[e][1] is None:
                    assert opt is None, "optimiser of nothing"
                else:
                    assert opt["param_groups"][0]["lr"] == have[e][1], "optimiser"
            full = sorted(x for x in have if have[x][0] is not None)
            last = model_io.find_last_checkpoint(exp)
            assert last == (model_io.get_checkpoint(exp, full[-1]) if full else None), ("last checkpoint", last, full)
            every = model_io.find_last_checkpoint(exp, all_checkpoints=True)
            assert every == ([model_io.get_checkpoint(exp, x) for x in full] if full else None), ("checkpoints", every, full)
            anyp = model_io.find_last_checkpoint(exp, any_path=True)
            best = full or sorted(have)
            assert anyp == (model_io.get_checkpoint(exp, best[-1]) if best else None), ("last checkpoint of any kind", anyp, best)
            files = {f for f in os.listdir(exp)} - {"model_epoch_1.pth", "model_epoch_abcdefgh.pth", "other.pth"}
            want = set()
            for x, (w, lr, ep) in have.items():
                stem = "model_epoch_%08d" % x
                want |= ({stem + ".pth"} if w is not None else set()) | ({stem + "_opt.pth"} if lr is not None else set()) | {stem + "_stats.jgz"}
            assert files == want, ("files", files ^ want)
