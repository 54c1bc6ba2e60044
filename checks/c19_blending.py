"""C19: blending per-pixel face colours equals the documented formulas, with exact gradients, and stays finite."""
import numpy as np
import torch

from pytorch3d.renderer import BlendParams, hard_rgb_blend, sigmoid_alpha_blend, softmax_rgb_blend
from pytorch3d.renderer.mesh.rasterizer import Fragments
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, rng

PROP = "C19"
RULE = ("1-3 images of 1-4 pixels a side with 1-5 faces per pixel (none to all slots used), depths inside, outside and at the "
        "ends of [znear, zfar], distances on both scales of sigma, every kind of background and per-image znear and zfar. "
        "Oracle: the formulas in float64 and their derivatives. Non-trivial: some pixel has a face.")


def inputs(case):
    r = rng(case["seed"])
    N, K, H, W = (case[k] for k in "NKHW")
    k = r.integers(0, K + 1, (N, H, W, 1))
    if case["fill"] == "all":
        k = np.full_like(k, K)
    m = np.arange(K) < k
    p2f = np.where(m, r.integers(0, 50, m.shape), -1)
    sigma = float(case["sigma"])
    dist = r.standard_normal(m.shape) * sigma * {"near": 1.5, "wide": 30.0, "far": 1e4}[case["spread"]]
    dist = np.where(m, dist, -1.0)
    z = np.sort(r.uniform(1.0, 10.0, m.shape), -1)
    if case["depth"] == "equal":
        z = np.full(m.shape, 3.0)
    elif case["depth"] == "outside":
        z = np.sort(r.uniform(0.1, 300.0, m.shape), -1)
    z = np.where(m, z, -1.0)
    col = r.random((*m.shape, 3))
    bary = np.where(m[..., None], r.random((*m.shape, 3)), -1.0)
    t = lambda a: torch.from_numpy(np.ascontiguousarray(a)).float()
    return r, torch.from_numpy(p2f), t(z), t(bary), t(dist), t(col)


BG = one_of("default", "tuple", "list", "tensor")
CASE = dict(seed=SEED, N=ints(1, 3), K=ints(1, 5), H=ints(1, 4), W=ints(1, 4), fill=one_of("any", "any", "all"), sigma=one_of("1e-4", "0.01", "1.0"),
            spread=one_of("near", "near", "wide", "far"), depth=one_of("any", "equal", "outside"), bg=BG)


def params(r, case, gamma=1e-4):
    b = {"default": None, "tuple": tuple(r.random(3).tolist()), "list": r.random(3).tolist(), "tensor": torch.from_numpy(r.random(3)).float()}[case["bg"]]
    kw = {} if b is None else dict(background_color=b)
    bp = BlendParams(sigma=float(case["sigma"]), gamma=gamma, **kw)
    return bp, torch.as_tensor((1.0, 1.0, 1.0) if b is None else b).double()


@sub(d(**CASE), quick=300, thorough=10000)
def hard(case, cx):
    r, p2f, z, bary, dist, col = inputs(case)
    bp, bg = params(r, case)
    col.requires_grad_()
    out = hard_rgb_blend(col, Fragments(p2f, z, bary, dist), bp)
    has = p2f[..., 0] >= 0
    cx.trivial(not bool(has.any()))
    cx.label("background" if not bool(has.all()) else "full")
    want = torch.where(has[..., None], col.detach()[..., 0, :].double(), bg)
    want = torch.cat([want, has[..., None].double()], -1)
    close(out.detach(), want, what="hard blend", atol=1e-6)
    g = torch.from_numpy(r.standard_normal(out.shape)).float()
    got = torch.autograd.grad((out * g).sum(), col)[0]
    w = torch.zeros_like(got)
    w[..., 0, :] = g[..., :3] * has[..., None]
    equal(got, w, "gradient of the colours")


@sub(d(**CASE), quick=500, thorough=20000)
def sigmoid(case, cx):
    r, p2f, z, bary, dist, col = inputs(case)
    bp, bg = params(r, case)
    cx.trivial(not bool((p2f >= 0).any()))
    col.requires_grad_(), dist.requires_grad_()
    out = sigmoid_alpha_blend(col, Fragments(p2f, z, bary, dist), bp)
    s = float(np.float32(bp.sigma))
    d64 = dist.detach().double().requires_grad_()
    p = torch.sigmoid(-d64 / s) * (p2f >= 0)
    alpha = 1 - torch.prod(1 - p, -1)
    want = torch.cat([col.detach()[..., 0, :].double(), alpha.detach()[..., None]], -1)
    close(out.detach(), want, what="sigmoid blend", atol=2e-5)
    g = torch.from_numpy(r.standard_normal(out.shape)).float()
    gc, gd = torch.autograd.grad((out * g).sum(), (col, dist))
    w = torch.zeros_like(gc)
    w[..., 0, :] = g[..., :3]
    equal(gc, w, "gradient of the colours")
    wd = torch.autograd.grad((alpha * g[..., 3].double()).sum(), d64)[0]
    # the opacity is stored in float32: 1 - alpha is known to about 1e-7
    close(gd, wd, what="gradient of the distances", atol=3e-6 / s, rtol=1e-3)


@sub(d(gamma=one_of("1e-4", "0.01", "0.5"), planes=one_of("default", "float", "tensor"), **CASE), quick=800, thorough=30000)
def softmax(case, cx):
    r, p2f, z, bary, dist, col = inputs(case)
    N = case["N"]
    bp, bg = params(r, case, float(case["gamma"]))
    cx.trivial(not bool((p2f >= 0).any()))
    cx.label("depth " + case["depth"])
    kw, zn, zf = {}, 1.0, 100.0
    if case["planes"] == "float":
        zn, zf = 0.5, float(r.uniform(5, 50))
        kw = dict(znear=zn, zfar=zf)
    elif case["planes"] == "tensor":
        zn, zf = torch.from_numpy(r.uniform(0.1, 1, N)).float(), torch.from_numpy(r.uniform(5, 50, N)).float()
        kw = dict(znear=zn, zfar=zf)
        zn, zf = zn.double()[:, None, None, None], zf.double()[:, None, None, None]
    for t in (col, dist, z):
        t.requires_grad_()
    out = softmax_rgb_blend(col, Fragments(p2f, z, bary, dist), bp, **kw)
    c64, d64, z64 = (t.detach().double().requires_grad_() for t in (col, dist, z))
    m = p2f >= 0
    p = torch.sigmoid(-d64 / bp.sigma) * m
    alpha = 1 - torch.prod(1 - p, -1)
    # weights: probability times exp(normalised inverse depth / gamma), against a background of weight exp(eps / gamma)
    zi = (zf - z64) / (zf - zn) * m
    mx = zi.max(-1, keepdim=True).values.clamp(min=1e-10)
    w = p * torch.exp((zi - mx) / bp.gamma)
    # the background never weighs less than 1e-10 relative to the best face
    delta = torch.exp((1e-10 - mx) / bp.gamma).clamp(min=1e-10)
    rgb = ((w[..., None] * c64).sum(-2) + delta * bg) / (w.sum(-1, keepdim=True) + delta)
    want = torch.cat([rgb, alpha[..., None]], -1)
    assert bool(torch.isfinite(out).all()), f"not finite: {out.tolist()}"
    # rounding of the exponents: depth 1e-7 relative, divided by gamma
    e = 1e-5 + 2e-6 * (1 + float(zi.detach().abs().max())) / bp.gamma
    tot = (w.sum(-1, keepdim=True) + delta).detach()
    frag = tot < 1e-6  # decided by rounding of very small weights
    err = (out.detach() - want.detach()).abs()
    # the small relative errors of the weights
    relw = 3 * e * torch.ones_like(err)
    relw[..., 3] = 3e-5
    bad = err > relw + 1e-5
    assert not bool((bad & ~frag).any()), f"softmax blend {out.tolist()} instead of {want.tolist()}"
    g = torch.from_numpy(r.standard_normal(out.shape)).float() * (~frag)
    got = torch.autograd.grad((out * g).sum(), (col, dist, z))
    ref = torch.autograd.grad((want * g.double()).sum(), (c64, d64, z64))
    for name, a, b, sc in zip(("colours", "distances", "depths"), got, ref, (1.0, 1 / bp.sigma, 1 / bp.gamma)):
        assert bool(torch.isfinite(a).all()), f"gradient of the {name} is not finite"
        dd = (a - b).abs().max().item() if a.numel() else 0.0
        lim = (3 * e + 3e-5) * sc * 4 + 1e-3 * float(b.abs().max()) + 1e-5
        assert dd <= lim, f"gradient of the {name}: {a.tolist()} instead of {b.tolist()}"
