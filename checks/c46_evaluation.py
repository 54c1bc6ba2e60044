"""C46: view metrics, evaluation of rendered views, summaries of evaluations, training statistics."""
import copy
import json
import math
import os
import sys
import tempfile
import warnings

import numpy as np
import torch

from pytorch3d.implicitron.dataset.frame_data import FrameData
from pytorch3d.implicitron.evaluation import evaluate_new_view_synthesis as nvs
from pytorch3d.implicitron.evaluation.evaluator import ImplicitronEvaluator
from pytorch3d.implicitron.models.base_model import ImplicitronRender
from pytorch3d.implicitron.models.metrics import RegularizationMetrics, ViewMetrics
from pytorch3d.implicitron.models.renderer.base import EvaluationMode, ImplicitronRayBundle, RendererOutput
from pytorch3d.implicitron.tools import metric_utils as mu
from pytorch3d.implicitron.tools.config import expand_args_fields
from pytorch3d.implicitron.tools.image_utils import mask_background
from pytorch3d.implicitron.tools.stats import AverageMeter, Stats
from pytorch3d.renderer import PerspectiveCameras
from checks.c45_conditioning import sample
from vlib.core import sub
from vlib.gen import SEED, T, boolean, close, d, equal, f64, ints, one_of, raises, rng

PROP = "C46"
RULE = ("batches of 1 to 3 images of unequal sides, any number of rays, depths with holes, soft and hard masks, missing inputs, packed bundles; histories of up to 40 statistics. Oracle: the definitions written out in float64 "
        "NumPy. Non-trivial: more than one pixel or ray (metrics), more than one batch or epoch (summaries, statistics).")

for c in (ViewMetrics, RegularizationMetrics, ImplicitronEvaluator):
    expand_args_fields(c)


# ---- definitions ---------------------------------------------------------------


def np64(t):
    return None if t is None else f64(t.detach() if torch.is_tensor(t) else t).numpy()


def psnr(mse):
    return -10 * np.log10(max(mse, 1e-10))


def mse(x, y, m=None):
    e = (x - y) ** 2
    if m is None:
        return e.mean()
    m = np.broadcast_to(m, e.shape)
    return (e * m).sum() / max(m.sum(), 1e-5)


def bce(p, g, m=None, equal_w=True, eps=0.01, lerp=None):
    p = np.clip(p, eps, 1 - eps) if eps > 0 else p
    m = np.ones_like(g) if m is None else m
    w = m
    if equal_w:
        fg = (g > 0.5) * m
        bg = (1 - fg) * m
        w = fg / max(fg.sum(), 1) + bg / max(bg.sum(), 1)
        w = w * w.size / max(w.sum(), 1)
    if lerp is not None:
        log = lambda x: np.where(x >= lerp, np.log(np.maximum(x, lerp)), math.log(lerp) + (x - lerp) / lerp)
        return -((log(1 - p) * (1 - g) + log(p) * g) * w).sum() / max(w.sum(), 1e-4)
    lp, lq = (np.maximum(np.log(np.maximum(x, 1e-300)), -100) for x in (p, 1 - p))
    return (-(g * lp + (1 - g) * lq) * w).mean()


def iou(p, g, m=None):
    if m is not None:
        p, g = p * m, g * m
    ax = tuple(range(1, p.ndim))
    return ((p * g).sum(ax) / ((p + g - p * g).sum(ax) + 1e-4)).mean()


def depth_error(p, g, crop=1, m=None, best=True, thr=0.5):
    """Squared and absolute errors per image."""
    c = (slice(None), slice(None)) + (slice(crop, -crop),) * 2 if crop > 0 else ()
    p, g = p[c], g[c]
    if m is not None:
        g = g * (m[c] > thr)
    ok = (g > 0).astype(float)
    mass = np.maximum(ok.sum((1, 2, 3)), 1e-4)
    if best:
        k = np.ones(len(p))
        for i in range(len(p)):
            n = p[i].size
            if n:
                k[i] = (p[i] * g[i] * ok[i]).sum() / n / max((p[i] ** 2 * ok[i]).sum() / n, 1e-4)
        p = p * k[:, None, None, None]
    return (ok * (g - p) ** 2).sum((1, 2, 3)) / mass, (ok * np.abs(g - p)).sum((1, 2, 3)) / mass


def rgb_l1(p, g, m):
    return (np.abs(p - g) * m).sum((1, 2, 3)) / np.maximum(m.sum((1, 2, 3)), 1)


def huber(sq, s=0.03):
    return (np.sqrt(1 + sq / s ** 2 + 1e-4) - 1) * s


# ---- metric functions -------------------------------------------------------------


@sub(d(seed=SEED, N=ints(1, 3), H=ints(1, 9), W=ints(1, 9), C=ints(1, 3), crop=ints(0, 3), mask=one_of("none", "hard", "soft", "empty"), best=boolean(), equal_w=boolean(), lerp=one_of(None, 0.05, 0.2), eps=one_of(0.0, 0.01), depth=one_of("any", "scaled", "holes")),
     quick=400, thorough=30000)
def functions(case, cx):
    r = rng(case["seed"])
    N, H, W, C = (case[k] for k in "NHWC")
    cx.trivial(N * H * W == 1)
    x, y = (torch.from_numpy(r.random((N, C, H, W))).float() for _ in range(2))
    m = {"none": None, "hard": (r.random((N, 1, H, W)) < 0.6) * 1.0, "soft": r.random((N, 1, H, W)), "empty": np.zeros((N, 1, H, W))}[case["mask"]]
    mt = None if m is None else torch.from_numpy(m).float()
    m = np64(mt)
    X, Y = np64(x), np64(y)
    close(mu.calc_mse(x, y, mask=mt), mse(X, Y, m), what="mse")
    close(mu.calc_psnr(x, y, mask=mt), psnr(mse(X, Y, m)), atol=1e-3, what="psnr")
    close(mu.rgb_l1(x, y, mask=mt), rgb_l1(X, Y, np.ones((N, 1, H, W)) if m is None else m), what="rgb_l1")
    p, g = x[:, :1], (y[:, :1] > 0.5).float() if r.random() < 0.7 else y[:, :1]
    if r.random() < 0.5:
        p = p.clone()
        p[torch.from_numpy(r.random(p.shape) < 0.3)] = 0.0
        p[torch.from_numpy(r.random(p.shape) < 0.2)] = 1.0
    P, G = np64(p), np64(g)
    close(mu.iou(p, g, mask=mt), iou(P, G, m), what="iou")
    close(mu.neg_iou_loss(p, g, mask=mt), 1 - iou(P, G, m), what="neg_iou_loss")
    eps, lerp = case["eps"], case["lerp"]
    p.requires_grad_(True)
    got = mu.calc_bce(p, g, equal_w=case["equal_w"], pred_eps=eps, mask=mt, lerp_bound=lerp)
    want = bce(P, G, m, case["equal_w"], eps, lerp)
    close(got, want, atol=1e-4, rtol=1e-4, what="bce")
    if lerp is not None or eps > 0:
        grad = torch.autograd.grad(got, p)[0]
        assert torch.isfinite(grad).all(), "gradient of bce"
    # the same from logits
    q = p.detach().clamp(1e-6, 1 - 1e-6)
    close(mu.calc_bce(torch.logit(f64(q)), f64(g), equal_w=case["equal_w"], pred_eps=eps, mask=None if mt is None else f64(mt), lerp_bound=lerp, pred_logits=True), bce(np64(q), G, m, case["equal_w"], eps, lerp), atol=1e-4, rtol=1e-4, what="bce of logits")
    # Huber, safe square root, prior of binary masks
    sq = (x - y) ** 2
    sq.requires_grad_(True)
    h = mu.huber(sq, scaling=0.03)
    close(h, huber(np64(sq)), atol=1e-4, what="huber")
    assert torch.isfinite(torch.autograd.grad(h.sum(), sq)[0]).all()
    s = torch.from_numpy(r.normal(size=5)).float()
    s[0] = 0
    s.requires_grad_(True)
    v = mu.safe_sqrt(s, 1e-4)
    close(v, np.sqrt(np.maximum(np64(s), 0) + 1e-4), what="safe_sqrt")
    assert torch.isfinite(torch.autograd.grad(v.sum(), s)[0]).all(), "gradient of safe_sqrt"
    b = mu.beta_prior(p.detach())
    assert b >= -1e-5, "the prior is smallest for binary masks"
    close(mu.beta_prior((p.detach() > 0.5).float()), 0.0, atol=1e-5, what="prior of a binary mask")
    raises(lambda: mu.beta_prior(p, cap=0.0), ValueError, what="uncapped prior")
    # depth
    gt = torch.from_numpy(r.uniform(0.5, 4, (N, 1, H, W))).float()
    if case["depth"] != "any":
        gt[torch.from_numpy(r.random(gt.shape) < 0.3)] = 0
    pred = torch.from_numpy(r.uniform(0.5, 4, (N, 1, H, W))).float()
    if case["depth"] == "scaled":
        pred = gt * torch.from_numpy(r.uniform(0.5, 2, (N, 1, 1, 1))).float()
    p0, g0 = pred.clone(), gt.clone()
    crop = case["crop"]
    e2, e1 = mu.eval_depth(pred, gt, crop=crop, mask=mt, get_best_scale=case["best"])
    equal(pred, p0), equal(gt, g0)
    w2, w1 = depth_error(np64(pred), np64(gt), crop, m, case["best"])
    close(e2, w2, atol=1e-3, rtol=1e-3, what="squared depth error")
    close(e1, w1, atol=1e-3, rtol=1e-3, what="absolute depth error")
    if case["best"]:
        few = np.array([(np64(gt)[i][(slice(None),) + ((slice(crop, -crop),) * 2 if crop else ())] > 0).sum() for i in range(N)])
        if case["depth"] == "scaled":
            assert (e1 < 1e-3).all(), "depth up to scale"
        big = mu.eval_depth(pred * 3, gt, crop=crop, mask=mt, get_best_scale=True)[1]
        ok = few > 0
        close(big[torch.from_numpy(ok)], e1[torch.from_numpy(ok)], atol=2e-2 if (few < 3).any() else 1e-3, rtol=1e-3, what="scale of the prediction")
        for k in (0.7, 1.0, 1.4):
            assert (mu.eval_depth(pred * k, gt, crop=crop, mask=mt, get_best_scale=False)[0] >= e2 - 1e-3 - 1e-3 * e2).all(), "another scale is better"


@sub(d(seed=SEED, N=ints(1, 3), H=ints(1, 5), W=ints(1, 5), last=boolean(), kind=one_of("white", "black", "float", "list", "tensor"), soft=boolean()), quick=150, thorough=5000)
def backgrounds(case, cx):
    r = rng(case["seed"], 1)
    N, H, W = (case[k] for k in "NHW")
    cx.trivial(N * H * W == 1)
    dim = 3 if case["last"] else 1
    shape = (N, H, W, 3) if case["last"] else (N, 3, H, W)
    x = torch.from_numpy(r.random(shape)).float()
    m = torch.from_numpy(r.random(shape[:dim] + (1,) + shape[dim + 1:])).float()
    if not case["soft"]:
        m = m > 0.5
    col = r.random(3)
    arg, col = {"white": ("white", np.ones(3)), "black": ("black", np.zeros(3)), "float": (0.3, np.full(3, 0.3)), "list": (col.tolist(), col), "tensor": (torch.from_numpy(col).float(), col)}[case["kind"]]
    got = mask_background(x, m, dim_color=dim, bg_color=arg)
    v = [1, 1, 1, 1]
    v[dim] = 3
    M = np64(m)
    close(got, M * np64(x) + (1 - M) * col.reshape(v), what="masked image")
    raises(lambda: mask_background(x, m, dim_color=dim, bg_color="blue"), ValueError, what="unknown colour")


# ---- view metrics --------------------------------------------------------------------


@sub(d(seed=SEED, N=ints(1, 3), shape=one_of((1,), (4,), (2, 3), (1, 5)), H=ints(1, 5), W=ints(1, 5), has=ints(0, 63), packed=boolean(), prev=ints(0, 2), prefix=one_of("loss_", "", "m.", None), hard=boolean()), quick=300, thorough=15000)
def views(case, cx):
    """All metrics of ViewMetrics on whole and packed bundles of rays."""
    r = rng(case["seed"], 2)
    N, shape = case["N"], tuple(case["shape"])
    has = [bool(case["has"] >> i & 1) for i in range(6)]
    packed = case["packed"]
    cx.label("packed" if packed else "grid")
    if packed:
        ids = np.sort(r.permutation(N)[: r.integers(1, N + 1)])
        counts = r.integers(1, 5, len(ids))
        rays, lead = int(counts.sum()), (int(counts.sum()), 1)
        owner = np.repeat(ids, counts)
    else:
        rays, lead = N * int(np.prod(shape)), (N, *shape)
        owner = np.repeat(np.arange(N), int(np.prod(shape)))
    cx.trivial(rays == 1)
    size = lambda: (int(r.integers(1, 6)), int(r.integers(1, 6)))
    rgb = torch.from_numpy(r.random((N, 3, *size()))).float() if has[0] else None
    depth = torch.from_numpy(r.uniform(0.5, 3, (N, 1, *size())) * (r.random((N, 1, 1, 1)) < 0.9)).float() if has[1] else None
    fg = torch.from_numpy(r.random((N, 1, *size()))).float() if has[2] else None
    if fg is not None and case["hard"]:
        fg = (fg > 0.5).float()
    crop = (torch.from_numpy(r.random((N, 1, *size()))) < 0.7).float() if has[3] else None
    out = lambda c, f: torch.from_numpy(f((*lead, c))).float()

    def stage(k):
        return RendererOutput(features=out(3, r.random), depths=out(1, lambda s: r.uniform(-0.5, 3, s)) if has[4] else None, masks=out(1, r.random) if has[5] else None,
                              prev_stage=stage(k - 1) if k > 0 else None, aux=dict(grad_theta=T(r, (2, 3, 3)), density_grid=torch.from_numpy(r.random((2, 3, 4, 2, 1))).float()) if k == 0 else {})

    res = stage(case["prev"])
    xys = torch.from_numpy(r.uniform(-1.2, 1.2, (*lead, 2))).float()
    bundle = ImplicitronRayBundle(origins=torch.zeros(*lead, 3), directions=torch.zeros(*lead, 3), lengths=torch.ones(*lead, 1), xys=xys,
                                  **(dict(camera_ids=torch.from_numpy(ids), camera_counts=torch.from_numpy(counts)) if packed else {}))
    P = np64(xys).reshape(-1, 2)

    def pick(img, mode):
        """Values of the images at the rays, (rays, C), and whether nearest sampling is clear."""
        if img is None:
            return None, np.ones(rays, bool)
        vals = [sample(np64(img)[owner[i]], P[i: i + 1], mode) for i in range(rays)]
        return np.concatenate([v[0] for v in vals]), np.array([v[1][0] for v in vals])

    (RGB, _), (D, k1), (FG, k2), (CR, k3) = pick(rgb, "bilinear"), pick(depth, "nearest"), pick(fg, "nearest"), pick(crop, "nearest")
    if not (k1.all() and k2.all() and k3.all()):
        return cx.trivial(True)
    CR = np.ones((rays, 1)) if CR is None else CR
    if FG is not None and (np.abs(FG * CR - 0.5) < 1e-4).any():
        return cx.trivial(True)
    B = rays if packed else N  # images of the metrics which are taken per image
    per = lambda a: a.reshape(B, -1, a.shape[-1]).transpose(0, 2, 1)[..., None]

    def reference(s, prefix):
        want = {}
        f, m, z = (None if t is None else np64(t).reshape(rays, -1) for t in (s.features, s.masks, s.depths))
        if RGB is not None:
            sq = ((f - RGB) ** 2).mean(1, keepdims=True)
            mass = max(CR.sum(), 1)
            want.update(rgb_huber=(huber(sq) * CR).sum() / mass, rgb_l1=(np.abs(f - RGB).mean(1, keepdims=True) * CR).sum() / mass, rgb_mse=(sq * CR).sum() / mass, rgb_psnr=psnr(mse(f, RGB, CR)))
            if FG is not None:
                k = CR * FG
                want.update(rgb_psnr_fg=psnr(mse(f, RGB, k)), rgb_mse_fg=(sq * k).sum() / max(k.sum(), 1))
        if m is not None:
            want["mask_beta_prior"] = (np.log(m + 0.1) + np.log(1.1 - m)).mean() - math.log(0.1) - math.log(1.1)
            if FG is not None:
                want["mask_neg_iou"] = 1 - iou(per(m), per(FG), per(CR))
                want["mask_bce"] = bce(m, FG, CR)
        if z is not None:
            if D is not None:
                want["depth_abs"] = depth_error(per(z), per(D), 0, per(CR))[1].mean()
                if FG is not None:
                    want["depth_abs_fg"] = depth_error(per(z), per(D), 0, per(FG * CR))[1].mean()
            want["depth_neg_penalty"] = (np.minimum(z, 0) ** 2).mean()
        if "grad_theta" in s.aux:
            want["eikonal"] = ((np.linalg.norm(np64(s.aux["grad_theta"]), axis=-1) - 1) ** 2).mean()
            g = np.log(np64(s.aux["density_grid"])[..., 0] + 1e-5)
            a = g[:, :-1, :-1, :-1]
            want["density_tv"] = np.sqrt((g[:, 1:, :-1, :-1] - a) ** 2 + (g[:, :-1, 1:, :-1] - a) ** 2 + (g[:, :-1, :-1, 1:] - a) ** 2 + 1e-5).mean()
        want = {(prefix or "") + k: v for k, v in want.items()}
        if s.prev_stage is not None:
            want.update(reference(s.prev_stage, (prefix or "") + "prev_stage_"))
        return want

    got = ViewMetrics()(raymarched=res, ray_bundle=bundle, image_rgb=rgb, depth_map=depth, fg_probability=fg, mask_crop=crop, keys_prefix=case["prefix"])
    want = reference(res, case["prefix"])
    assert set(got) == set(want), ("metrics", sorted(set(got) ^ set(want)))
    for k in want:
        assert got[k].ndim == 0, "metrics are scalars"
        close(got[k], want[k], atol=2e-3, rtol=2e-3, what=k)
    if rgb is not None:
        res.features = torch.cat([res.features, res.features], -1)
        raises(lambda: ViewMetrics()(raymarched=res, ray_bundle=bundle, image_rgb=rgb), ValueError, what="number of channels")


# ---- evaluation of views ------------------------------------------------------------------


def frame(r, N, H, W, types, has, batch=True):
    """A batch of frames, the first of which is the target."""
    depth = torch.from_numpy(r.uniform(0.5, 4, (N, 1, H, W)) * (r.random((N, 1, H, W)) < 0.9)).float() if has["depth"] else None
    return FrameData(frame_number=torch.arange(N), sequence_name=["s"] * N, sequence_category=["c"] * N, frame_timestamp=None, image_size_hw=torch.tensor([[H, W]] * N),
                     image_rgb=torch.from_numpy(r.random((N, 3, H, W))).float(), fg_probability=torch.from_numpy(r.random((N, 1, H, W))).float() if has["fg"] else None,
                     mask_crop=(torch.from_numpy(r.random((N, 1, H, W))) < 0.8).float() if has["crop"] else None, depth_map=depth,
                     depth_mask=(torch.from_numpy(r.random((N, 1, H, W))) < 0.8).float() if has["dmask"] else None, camera=PerspectiveCameras(R=torch.eye(3)[None].repeat(N, 1, 1)), frame_type=list(types))


def reference_eval(fr, ren, bg, thr):
    """eval_batch in NumPy, for renders in the resolution of the image."""
    img = np64(fr.image_rgb)[:1]
    fg = (np64(fr.fg_probability)[:1] >= np.float32(thr)) * 1.0 if fr.fg_probability is not None else np.ones_like(img[:, :1])
    crop = np64(fr.mask_crop)[:1] if fr.mask_crop is not None else np.ones_like(fg)
    col = np.asarray(bg, dtype=float).reshape(1, 3, 1, 1)
    masked = fg * img + (1 - fg) * col
    im = np.clip(np64(ren.image_render)[:1], 0, 1)
    out = {"iou": iou(np64(ren.mask_render)[:1], fg, crop), "psnr_masked": psnr(mse(im, masked, crop * crop)), "rgb_l1_masked": rgb_l1(im, masked, crop * crop).item(), "psnr_fg": psnr(mse(im, masked, crop * fg)),
           "rgb_l1_fg": rgb_l1(im, masked, crop * fg).item(), "psnr_full_image": psnr(mse(im, img, crop)), "rgb_l1_full_image": rgb_l1(im, img, crop).item()}
    if fr.depth_map is not None:
        g = np64(fr.depth_map)[:1] * (np64(fr.depth_mask)[:1] if fr.depth_mask is not None else 1)
        out["depth_abs_fg"] = depth_error(np64(ren.depth_render)[:1], g, 5, crop * fg)[1].mean()
    return out


BG = {"black": (0, 0, 0), "white": (1, 1, 1), "grey": (0.25, 0.25, 0.25)}
KIND = dict(fg=boolean(), crop=boolean(), depth=boolean(), dmask=boolean())


@sub(d(seed=SEED, N=ints(1, 4), H=ints(11, 16), W=ints(11, 16), bg=one_of("black", "white", "grey"), thr=one_of(0.5, 0.2), up=one_of(1, 1, 2), types=one_of("train_unseen", "test_unseen", "train_known"), mixed=boolean(), **KIND), quick=150, thorough=6000)
def batches(case, cx):
    """eval_batch compares the target frame only, inside the crop, at the resolution of the image."""
    r = rng(case["seed"], 3)
    warnings.simplefilter("ignore")
    N, H, W = (case[k] for k in "NHW")
    other = "test_known" if case["types"].startswith("test") else "train_known"
    fr = frame(r, N, H, W, [case["types"]] + [other] * (N - 1), case)
    up = case["up"]
    h, w = H * up, W * up
    ren = ImplicitronRender(image_render=torch.from_numpy(r.uniform(-0.2, 1.2, (N, 3, H, W))).float(), mask_render=torch.from_numpy(r.random((N, 1, H, W))).float(), depth_render=torch.from_numpy(r.uniform(0.5, 4, (N, 1, H, W))).float())
    want = reference_eval(fr, ren, BG[case["bg"]], case["thr"])
    if up == 2:  # smaller frames; renders of twice the size are constant in blocks
        ren = ImplicitronRender(**{k: getattr(ren, k).repeat_interleave(2, 2).repeat_interleave(2, 3) for k in ("image_render", "mask_render", "depth_render")})
    keep = copy.deepcopy((fr, ren))
    got = nvs.eval_batch(fr, ren, bg_color=0.25 if case["bg"] == "grey" else case["bg"], mask_thr=case["thr"])
    meta = got.pop("meta")
    assert meta == {"batch_size": N, "frame_type": case["types"]}, meta
    assert set(got) == set(want), ("metrics", sorted(set(got) ^ set(want)))
    for k in want:
        assert isinstance(got[k], float)
        close(got[k], want[k], atol=2e-3, rtol=2e-3, what=k)
    for k in ("image_rgb", "fg_probability", "mask_crop", "depth_map", "depth_mask"):
        if getattr(fr, k) is not None:
            equal(getattr(fr, k), getattr(keep[0], k), what="input " + k)
    for k in ("image_render", "mask_render", "depth_render"):
        equal(getattr(ren, k), getattr(keep[1], k), what="render")
    # what belongs to other frames, or lies outside of the crop, does not matter
    if N > 1:
        fr.image_rgb[1:] = 0.7
        ren.image_render[1:] = 0.1
    if fr.mask_crop is not None:
        out = fr.mask_crop[:1] == 0
        fr.image_rgb[:1] = torch.where(out, torch.tensor(0.123), fr.image_rgb[:1])
        if fr.depth_map is not None:
            fr.depth_map[:1] = torch.where(out, torch.tensor(9.0), fr.depth_map[:1])
    again = nvs.eval_batch(fr, ren, bg_color=0.25 if case["bg"] == "grey" else case["bg"], mask_thr=case["thr"])
    for k in want:
        close(again[k], got[k], atol=1e-4, what=k + " with other frames")
    if case["mixed"] and N > 2:
        fr.frame_type = ["test_unseen", "test_known", "train_known"] + ["test_known"] * (N - 3)
        raises(lambda: nvs.eval_batch(fr, ren), ValueError, what="mixed conditioning")
    for k in ("image_rgb", "camera", "frame_type"):
        g = copy.deepcopy(fr)
        setattr(g, k, None)
        raises(lambda: nvs.eval_batch(g, ren), ValueError, what="no " + k)
    g = copy.deepcopy(ren)
    g.depth_render = None
    raises(lambda: nvs.eval_batch(fr, g), ValueError, what="no depth_render")
    cx.trivial(False)


def results(r, n, multi, nan=0.0):
    """A list of per-batch results."""
    keys = ["psnr", "iou", "depth"]
    return [dict({k: float("nan") if r.random() < nan else float(r.normal()) for k in keys},
                 meta=dict(batch_size=int(r.choice([2, 3, 4, 6, 8, 10])) if multi else 1, frame_type=["train_unseen", "test_unseen"][r.integers(0, 2)])) for _ in range(n)]


def mean(xs):
    return float(np.mean(xs)) if len(xs) else float("nan")


def same(got, want, what):
    assert set(got) == set(want), (what, sorted(set(got) ^ set(want)))
    for k in want:
        a, b = got[k], want[k]
        assert (np.isnan(a) and np.isnan(b)) or abs(a - b) < 1e-6, (what, k, a, b)


@sub(d(seed=SEED, n=ints(1, 12), multi=boolean(), tasks=ints(1, 3)), quick=150, thorough=5000)
def summaries(case, cx):
    r = rng(case["seed"], 4)
    warnings.simplefilter("ignore")
    cx.trivial(case["n"] == 1)
    tasks = []
    for _ in range(case["tasks"]):
        res = results(r, case["n"], case["multi"])
        keep = copy.deepcopy(res)
        flat, aux = nvs.summarize_nvs_eval_results(res, case["multi"])
        assert res == keep, "results were changed"
        want = {}
        for name in ("train", "test") if case["multi"] else ("test",):
            mine = [q for q in res if not case["multi"] or q["meta"]["frame_type"].startswith(name)]
            bins = {"diff=all": mine}
            if case["multi"]:
                bins.update({"n_src=%d" % k: [q for q in mine if q["meta"]["batch_size"] == k + 1] for k in (1, 3, 5, 7, 9)})
            for b, qs in bins.items():
                for k in ("psnr", "iou", "depth"):
                    want["%s|subset=%s|%s" % (k, name, b)] = mean([q[k] for q in qs])
        same(flat, want, "summary")
        again = {}
        for q in aux["results"]:
            for k, v in q["metrics"].items():
                again["%s|subset=%s|%s" % (k, q["subset"], q["subsubset"])] = v
        same(again, want, "structured summary")
        tasks.append(aux["results"])
    agg = nvs.aggregate_nvs_results(tasks)
    assert len(agg) == len(tasks[0])
    for q in agg:
        for k, v in q["metrics"].items():
            vals = [p["metrics"][k] for t in tasks for p in t if (p["subset"], p["subsubset"]) == (q["subset"], q["subsubset"])]
            vals = [x for x in vals if not np.isnan(x)]
            a = mean(vals)
            assert (np.isnan(a) and np.isnan(v)) or abs(a - v) < 1e-6, ("aggregate", k, a, v)
    idx = torch.from_numpy(np.flatnonzero(r.random(len(res)) < 0.5))
    same(nvs.average_per_batch_results(res, idx), {k: mean([res[i][k] for i in idx.tolist()]) for k in ("psnr", "iou", "depth")}, "average of a subset")


class Copycat(torch.nn.Module):
    """A model which remembers what it was given and renders a function of it."""

    def __init__(self):
        super().__init__()
        self.seen = []

    def forward(self, *, image_rgb, evaluation_mode, fg_probability=None, depth_map=None, mask_crop=None, **kw):
        assert not self.training and evaluation_mode == EvaluationMode.EVALUATION
        self.seen.append([None if t is None else t.clone() for t in (image_rgb, fg_probability, depth_map, mask_crop)])
        n = len(self.seen)
        return dict(implicitron_render=ImplicitronRender(image_render=image_rgb[:1] * 0 + 0.1 * n, mask_render=image_rgb[:1, :1] * 0 + 0.5, depth_render=image_rgb[:1, :1] * 0 + 1.0))


@sub(d(seed=SEED, n=ints(1, 4), N=ints(1, 3), multi=boolean(), dump=boolean(), epoch=one_of(None, 0, 3), **KIND), quick=40, thorough=1000)
def evaluators(case, cx):
    """The evaluator hides the target from the model, and reports the averages of all batches."""
    r = rng(case["seed"], 5)
    warnings.simplefilter("ignore")
    cx.trivial(case["n"] == 1)
    frames = [frame(r, case["N"], 12, 13, ["test_unseen"] + ["test_known"] * (case["N"] - 1), case) for _ in range(case["n"])]
    keep = copy.deepcopy(frames)
    model = Copycat()
    old = sys.modules.get("lpips", 0)
    sys.modules["lpips"] = None  # its weights cannot be downloaded here
    out, err, sys.stdout = sys.stdout, sys.stderr, open(os.devnull, "w")
    sys.stderr = sys.stdout
    try:
        with tempfile.TemporaryDirectory() as tmp:
            got = ImplicitronEvaluator(is_multisequence=case["multi"]).run(model, frames, torch.device("cpu"), dump_to_json=case["dump"], exp_dir=tmp, epoch=case["epoch"])
            dumped = json.load(open(os.path.join(tmp, "results_test.json"))) if case["dump"] else None
    finally:
        sys.stdout.close()
        sys.stdout, sys.stderr = out, err
        del sys.modules["lpips"]
        if old != 0:
            sys.modules["lpips"] = old
    assert len(model.seen) == case["n"]
    want = []
    for i, (fr, k, s) in enumerate(zip(frames, keep, model.seen)):
        for name, t in zip(("image_rgb", "fg_probability", "depth_map", "mask_crop"), s):
            a = getattr(k, name)
            assert (a is None) == (t is None), name
            if a is not None:
                equal(getattr(fr, name), a, what="frame " + name)
                assert (t[0] == 0).all(), "the target's %s was visible" % name
                equal(t[1:], a[1:], what="source " + name)
        ren = ImplicitronRender(image_render=torch.full((1, 3, 12, 13), 0.1 * (i + 1)), mask_render=torch.full((1, 1, 12, 13), 0.5), depth_render=torch.ones(1, 1, 12, 13))
        want.append(reference_eval(k, ren, (0, 0, 0), 0.5))
    sel = {(q["subset"], q["subsubset"]): q["metrics"] for q in got}
    q = sel[("test", "diff=all")]
    assert set(q) == set(want[0])
    for k in q:
        close(q[k], np.mean([w[k] for w in want]), atol=2e-3, rtol=2e-3, what=k)
    if dumped is not None:
        assert len(dumped) == len(got)
        for a, b in zip(dumped, got):
            assert a.get("eval_epoch") == case["epoch"] and a["subset"] == b["subset"]
            for k in b["metrics"]:
                x, y = a["metrics"][k], b["metrics"][k]
                assert x == y or (np.isnan(x) and np.isnan(y))


# ---- statistics --------------------------------------------------------------------------


@sub(d(seed=SEED, steps=ints(1, 40), plot=boolean()), quick=150, thorough=6000)
def statistics(case, cx):
    """Histories of updates, epochs, saves and loads: every average is that of the values given in its epoch."""
    r = rng(case["seed"], 6)
    names = ["objective", "loss_a", "loss_prev_stage_b", "sec/it"]
    st = Stats(list(names), do_plot=False)
    epoch, model, it = -1, {}, {}
    for _ in range(case["steps"]):
        what = r.integers(0, 10)
        if what == 0:
            st.new_epoch()
            epoch += 1
            it = {k: -1 for k in it}
        elif what == 1:
            with tempfile.TemporaryDirectory() as tmp:
                f = os.path.join(tmp, "s" + (".jgz" if r.random() < 0.5 else ""))
                st.save(f)
                assert os.listdir(tmp) == ["s.jgz"], os.listdir(tmp)
                new = Stats.load(f)
            assert type(new) is Stats and new.epoch == st.epoch and new.log_vars == st.log_vars
            st = new
        elif what == 2 and r.random() < 0.3:
            new = "extra%d" % r.integers(0, 3)
            st.add_log_vars([new])
            if new not in names:
                names.append(new)
            assert st.log_vars == names, ("log variables", st.log_vars, names)
        else:
            if epoch == -1:
                epoch = 0
            sset = ["train", "val"][int(r.random() < 0.3)]
            preds = {}
            for k in names + ["ignored"]:
                if k == "sec/it" or r.random() < 0.2:
                    continue
                v = float(np.round(r.normal(), 3))
                kind = r.integers(0, 3)
                preds[k] = v if kind == 0 else torch.tensor(v) if kind == 1 else torch.full((2,), v / 2)
                if k in names:
                    model.setdefault((sset, k), {}).setdefault(epoch, []).append(v)
            freeze = r.random() < 0.2
            it[sset] = it.get(sset, -1) + (not freeze)
            st.update(preds, stat_set=sset, freeze_iter=bool(freeze))
    assert st.epoch == epoch
    cx.trivial(epoch < 1 or len(model) < 2)
    for (sset, k), per in model.items():
        m = st.stats[sset][k]
        got = m.get_epoch_averages()
        want = [mean(per.get(e, [])) for e in range(max(per) + 1)]
        assert len(got) == len(want) == m.get_epoch()
        for a, b in zip(got, want):
            assert (np.isnan(a) and np.isnan(b)) or abs(a - b) < 1e-5, ("average of an epoch", k, a, b)
        close(m.get_all_values(), np.concatenate([per.get(e, []) for e in range(max(per) + 1)]), what="all values")
        now = per.get(epoch, [])
        assert m.count == len(now)
        if now:
            assert abs(m.avg - mean(now)) < 1e-5 and abs(m.val - now[-1]) < 1e-6, "average of the current epoch"
            assert abs(st.get_epoch_averages()[sset][k] - mean(now)) < 1e-5
    for sset, n in it.items():
        assert st.it[sset] == n, ("iterations", sset, st.it[sset], n)
        s = st.get_status_string(stat_set=sset, max_it=7)
        assert "epoch %3d" % epoch in s and "/ 7" in s and "[%s]" % sset in s
        for (q, k), per in model.items():
            if q == sset and per.get(epoch):
                v = "%s: %1.3f" % (k.replace("loss_", "").replace("prev_stage_", "ps_"), st.stats[q][k].avg)
                assert v in s, (v, s)
    # synchronising drops foreign variables and fills missing epochs
    keep = [n for n in names if r.random() < 0.7] + ["new"]
    before = {(q, k): st.stats[q][k].get_epoch_averages() for q in st.stats for k in st.stats[q]}
    st.synchronize_logged_vars(list(keep), default_val=-1.0)
    assert st.log_vars == keep
    for q in st.stats:
        assert set(st.stats[q]) <= set(keep), "foreign variables"
        if epoch >= 0:
            assert "new" in st.stats[q] and st.stats[q]["new"].get_epoch_averages() == [-1.0] * (epoch + 1)
        for k in st.stats[q]:
            old = before.get((q, k))
            if old and len(old) == epoch + 1:
                new = st.stats[q][k].get_epoch_averages()
                assert all(a == b or (np.isnan(a) and np.isnan(b)) for a, b in zip(new, old)), "complete statistics were changed"
    if case["plot"] and r.random() < 0.3 and epoch >= 0 and st.stats:
        with tempfile.TemporaryDirectory() as tmp:
            f = os.path.join(tmp, "plot.png")
            import pytorch3d.implicitron.tools.stats as S
            old, S.get_visdom_connection = S.get_visdom_connection, lambda **k: None
            try:
                st.plot_stats(plot_file=f)
            finally:
                S.get_visdom_connection = old
            assert os.path.getsize(f) > 100
    m = AverageMeter()
    m.update(2.0, epoch=0), m.update(4.0, epoch=2)
    n = AverageMeter.from_json_str(json.dumps(m.__dict__))
    assert n.get_epoch_averages()[::2] == [2.0, 4.0] and n.avg == 3.0


class Model:
    def __init__(self, enc):
        self.sequence_autodecoder = enc


@sub(d(seed=SEED, n=ints(1, 3), prefix=one_of("loss_", "", None)), quick=10, thorough=50)
def regularizers(case, cx):
    from pytorch3d.implicitron.models.global_encoder.autodecoder import Autodecoder
    expand_args_fields(Autodecoder)
    cx.trivial(case["n"] == 1)
    enc = Autodecoder(encoding_dim=2, n_instances=case["n"])
    got = RegularizationMetrics()(Model(enc), keys_prefix=case["prefix"])
    assert list(got) == [(case["prefix"] or "") + "autodecoder_norm"]
    close(got[list(got)[0]], (np64(enc._autodecoder_codes.weight) ** 2).mean(), what="norm of the codes")
    assert RegularizationMetrics()(Model(None)) == {} and RegularizationMetrics()(object()) == {}
