"""C18: compositing of points equals the documented sums, with exact gradients."""
import numpy as np
import torch

from pytorch3d.renderer.compositing import alpha_composite, norm_weighted_sum, weighted_sum
from pytorch3d.renderer.points.compositor import AlphaCompositor, NormWeightedCompositor
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, ints, one_of, raises, rng

PROP = "C18"
RULE = ("1-3 images of 1-5 pixels a side with 1-6 slots per pixel, any pattern of empty slots and repeated points, 1-5 features, "
        "weights in [0, 1] including exact 0 and 1, contiguous or not. Oracle: the sums in float64 and their derivatives. "
        "Non-trivial: some slot is used.")


def inputs(case):
    r = rng(case["seed"])
    N, K, H, W, C, P = (case[k] for k in "NKHWCP")
    idx = r.integers(-1, P, (N, K, H, W))
    if case["holes"] == "tail":
        k = r.integers(0, K + 1, (N, H, W))
        idx = np.where(np.arange(K)[None, :, None, None] < k[:, None], r.integers(0, P, (N, K, H, W)), -1)
    elif case["holes"] == "none":
        idx = r.integers(0, P, (N, K, H, W))
    a = r.random((N, K, H, W))
    if case["ends"] == "mixed":
        a = np.where(r.random(a.shape) < 0.3, r.integers(0, 2, a.shape), a)
    elif case["ends"] == "tiny":
        a = a * 1e-5
    f = r.standard_normal((C, P))
    t = lambda v, dt=torch.float32: torch.from_numpy(np.ascontiguousarray(v)).to(dt)
    idx, a, f = t(idx, torch.int64), t(a), t(f)
    if case["strided"]:
        idx = idx.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2)
        a = a.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2)
        f = f.T.contiguous().T
    return r, idx, a, f


def ref(kind, idx, a, f):
    N, K, H, W = idx.shape
    m = (idx >= 0).to(a.dtype)
    F = f[:, idx.clamp(min=0)]  # C,N,K,H,W
    if kind == "alpha":
        out = 0
        T = torch.ones(N, H, W, dtype=a.dtype)
        for k in range(K):
            ak = a[:, k] * m[:, k]
            out = out + T * ak * F[:, :, k]
            T = T * (1 - ak)
        return out.transpose(0, 1)
    s = ((a * m) * F).sum(2)
    if kind == "norm":
        s = s / (a * m).sum(1).clamp(min=float(np.float32(1e-4)))
    return s.transpose(0, 1)


FN = {"alpha": alpha_composite, "norm": norm_weighted_sum, "sum": weighted_sum}
CASE = dict(seed=SEED, kind=one_of(*FN), N=ints(1, 3), K=ints(1, 6), H=ints(1, 5), W=ints(1, 5), C=ints(1, 5), P=ints(1, 6),
            holes=one_of("any", "tail", "none"), ends=one_of("inner", "mixed", "mixed", "tiny"), strided=boolean())


@sub(d(**CASE), quick=800, thorough=30000)
def composite(case, cx):
    r, idx, a, f = inputs(case)
    cx.trivial(int((idx >= 0).sum()) == 0)
    cx.label(case["kind"])
    a0, f0, i0 = a.clone(), f.clone(), idx.clone()
    a.requires_grad_(), f.requires_grad_()
    out = FN[case["kind"]](idx, a, f)
    a64, f64_ = a.detach().double().requires_grad_(), f.detach().double().requires_grad_()
    want = ref(case["kind"], idx, a64, f64_)
    close(out.detach(), want.detach(), what="composited image", atol=1e-5, rtol=1e-5)
    g = torch.from_numpy(r.standard_normal(out.shape)).float()
    if case["strided"]:
        g = g.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2)
    ga, gf = torch.autograd.grad((out * g).sum(), (a, f))
    wa, wf = torch.autograd.grad((want * g.double()).sum(), (a64, f64_))
    s = (a64.detach() * (idx >= 0)).sum(1, keepdim=True)
    near = ((s - 1e-4).abs() < 1e-7) & (case["kind"] == "norm")
    tol = 2e-3 if case["kind"] == "norm" and case["ends"] == "tiny" else 3e-4
    scale = 1 + wa.abs().amax(1, keepdim=True)
    assert bool((((ga - wa).abs() <= tol * scale) | near).all()), f"gradient of the weights {ga.tolist()} instead of {wa.tolist()}"
    close(gf, wf, what="gradient of the features", atol=1e-4 * (1 + float(wf.abs().max())), rtol=1e-4)
    assert torch.equal(a.detach(), a0) and torch.equal(f.detach(), f0) and torch.equal(idx, i0), "an input was modified"


@sub(d(bg=one_of("none", "list", "tuple", "tensor", "scalar", "short", "wrong", "matrix"), call=boolean(), **CASE), quick=300, thorough=10000)
def compositors(case, cx):
    if case["kind"] == "sum":
        case = dict(case, kind="norm")
    r, idx, a, f = inputs(case)
    C = case["C"]
    cx.label(case["bg"])
    empty = (idx[:, 0] < 0)
    cx.trivial(not bool(empty.any()))
    b = {"none": None, "list": r.random(C).tolist(), "tuple": tuple(r.random(C).tolist()), "tensor": torch.from_numpy(r.random(C)),
         "scalar": torch.tensor(0.5), "short": r.random(max(C - 1, 1)).tolist(), "wrong": r.random(C + 1).tolist(), "matrix": torch.zeros(1, C)}[case["bg"]]
    cls = AlphaCompositor if case["kind"] == "alpha" else NormWeightedCompositor
    fn = (lambda: cls()(idx, a, f, background_color=b)) if case["call"] else (lambda: cls(background_color=b)(idx, a, f))
    if case["bg"] in ("wrong", "matrix"):
        raises(fn, ValueError, what="a background of the wrong shape")
        return
    out = fn()
    want = ref(case["kind"], idx, a.double(), f.double())
    if b is not None:
        bt = torch.as_tensor(b).double().reshape(-1)
        if case["bg"] == "scalar":
            bt = bt.expand(C)
        if len(bt) == C - 1:
            bt = torch.cat([bt, torch.ones(1, dtype=torch.float64)])
        # a pixel is background when its first slot is empty
        want = torch.where(empty[:, None], bt[None, :, None, None], want)
    close(out, want, what="image over the background", atol=1e-5, rtol=1e-5)
