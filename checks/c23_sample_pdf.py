"""C23: sampling from a histogram is the inverse of its cumulative distribution."""
import numpy as np
import torch

from pytorch3d.renderer.implicit.sample_pdf import sample_pdf, sample_pdf_python
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng

PROP = "C23"
RULE = ("Histograms of 1-12 bins of increasing (or repeated) edges with random, zero, tiny and huge weights, batches of 0-11 rows "
        "of up to 3 batch dimensions, also not contiguous, with 1-9 threads. Oracle: float64 inverse of the cumulative weights at "
        "the quantiles. Non-trivial: at least two bins of different weight.")


def hist(r, case):
    B, n = case["B"], case["n"]
    w = r.random((B, n))
    k = case["w"]
    if k == "zeros":
        w = w * (r.random((B, n)) < 0.5)
    elif k == "none":
        w = w * (r.random((B, 1)) < 0.5)
    elif k == "wild":
        w = 10.0 ** r.uniform(-7, 3, (B, n))
    elif k == "equal":
        w = np.ones((B, n))
    step = r.random((B, n)) * (r.random((B, n)) < (0.7 if case["rep"] else 2))
    b = r.uniform(-2, 2, (B, 1)) + np.concatenate([np.zeros((B, 1)), np.cumsum(step + (0 if case["rep"] else 1e-2), 1)], 1)
    if case["desc"]:
        b = b[:, ::-1]
    return torch.from_numpy(np.ascontiguousarray(b)).float(), torch.from_numpy(w).float()


def shape(x, case):
    B = x.shape[0]
    form = case["form"]
    if form == "batch2" and B % 2 == 0:
        x = x.reshape(2, B // 2, -1) if B else x.reshape(2, 0, x.shape[-1])
    if form == "flat" and B == 1:
        x = x[0]
    if form == "strided":
        x = torch.stack([x, torch.full_like(x, 7.0)], -1)[..., 0]
    return x


def bounds(bins, w, u, eps):
    """Lowest and highest admissible sample for the quantile u (float64), given float32 accumulation of n weights."""
    n = len(w)
    tot = w.sum() + 0.0
    tol = (n + 3) * 1.2e-7 * (tot + eps)
    cum = np.concatenate([[0], np.cumsum(w)])
    out = []
    for q in (u * tot - tol, u * (tot + eps) + tol):
        out.append(q)
    lo_q, hi_q = out
    e = max(eps, 0)

    def inv(q, side):
        # position of the cumulative weight q; bins of weight <= eps may be jumped over at either edge
        i = int(np.clip(np.searchsorted(cum[1:-1], q, side="left" if side < 0 else "right"), 0, n - 1))
        if w[i] <= 4 * e + tol:
            # value anywhere in this bin and its equally light neighbours
            a = b = i
            return (min if side < 0 else max)(bins[a], bins[b + 1]) if bins[0] <= bins[-1] else (max if side < 0 else min)(bins[a], bins[b + 1])
        t = np.clip((q - cum[i]) / w[i], 0, 1)
        return bins[i] + t * (bins[i + 1] - bins[i])

    a, b = inv(lo_q, -1), inv(hi_q, 1)
    return min(a, b), max(a, b)


def check(samples, bins, w, us, eps, what):
    for k, u in enumerate(us):
        lo, hi = bounds(bins, w, float(u), eps)
        tol = 2e-6 * (np.abs(bins).max() + 1)
        assert lo - tol <= samples[k] <= hi + tol, f"{what}: quantile {u} gives {samples[k]} instead of {lo}..{hi} (bins {bins}, weights {w})"


H = dict(seed=SEED, B=ints(0, 11), n=ints(1, 12), w=one_of("uniform", "zeros", "none", "wild", "equal"), rep=boolean(), desc=boolean(),
         form=one_of("plain", "batch2", "flat", "strided"), S=ints(1, 9), eps=one_of(None, 1e-5, 1e-3), threads=ints(1, 9), det=boolean())


@sub(d(**H), quick=700, thorough=40000)
def kernel(case, cx):
    r = rng(case["seed"])
    bins, w = hist(r, case)
    cx.label(case["w"])
    b, ww = shape(bins, case), shape(w, case)
    kw = {} if case["eps"] is None else {"eps": case["eps"]}
    eps = case["eps"] or 1e-5
    cx.trivial(case["B"] == 0 or case["n"] == 1)
    nt = torch.get_num_threads()
    torch.set_num_threads(case["threads"])
    try:
        b0, w0 = b.clone(), ww.clone()
        torch.manual_seed(case["seed"])
        out = sample_pdf(b, ww, case["S"], det=case["det"], **kw)
    finally:
        torch.set_num_threads(nt)
    equal(b, b0, "bins are not changed"), equal(ww, w0, "weights are not changed")
    assert out.shape == (*b.shape[:-1], case["S"]) and out.dtype == torch.float32
    rows = out.reshape(case["B"], case["S"]).double().numpy()
    if case["det"]:
        us = np.broadcast_to(np.linspace(0, 1, case["S"]), rows.shape)
    else:
        torch.manual_seed(case["seed"])
        us = torch.rand(out.shape).reshape(rows.shape).numpy()
    B_, W_ = bins.double().numpy(), w.double().numpy()
    for i in range(len(rows)):
        check(rows[i], B_[i], W_[i], us[i], eps, f"row {i} of {len(rows)}")
    # a zero-weight row is only required to stay within the range
    if case["seed"] % 5 == 0 and case["B"] > 0:
        neg = ww.clone().contiguous()
        neg.view(-1)[0] = -1.0
        raises(lambda: sample_pdf(b, neg, case["S"], **kw), ValueError, what="negative weights")
        raises(lambda: sample_pdf(b[..., 1:], ww, case["S"]), ValueError, what="shapes")
        raises(lambda: sample_pdf(b, ww.clone().requires_grad_(), case["S"]), NotImplementedError, what="gradients")


@sub(d(**H), quick=300, thorough=15000)
def python_version(case, cx):
    r = rng(case["seed"])
    bins, w = hist(r, case)
    b, ww = shape(bins, case), shape(w, case)
    eps = case["eps"] or 1e-5
    kw = {} if case["eps"] is None else {"eps": case["eps"]}
    cx.trivial(case["B"] == 0 or case["n"] == 1)
    torch.manual_seed(case["seed"])
    b, ww = b.contiguous(), ww.contiguous()
    out = sample_pdf_python(b, ww, case["S"], det=case["det"], **kw)
    assert out.shape == (*b.shape[:-1], case["S"])
    rows = out.reshape(case["B"], case["S"]).double().numpy()
    if case["det"]:
        us = np.broadcast_to(np.linspace(0, 1, case["S"]), rows.shape)
    else:
        torch.manual_seed(case["seed"])
        us = torch.rand(out.shape).reshape(rows.shape).numpy()
    B_, W_ = bins.double().numpy(), w.double().numpy()
    for i in range(len(rows)):
        # the weights are padded by eps; a bin of probability below eps is not interpolated
        w_ = W_[i] + eps
        cum = np.concatenate([[0], np.cumsum(w_ / w_.sum())])
        for u, got in zip(us[i], rows[i]):
            tol = (len(w_) + 3) * 3e-7
            a = int(np.clip(np.searchsorted(cum[1:-1], u - tol, side="left"), 0, len(w_) - 1))
            z = int(np.clip(np.searchsorted(cum[1:-1], u + tol, side="right"), 0, len(w_) - 1))
            vals = []
            for j in range(a, z + 1):
                p = cum[j + 1] - cum[j]
                if p < eps + tol:
                    vals += [B_[i][j], B_[i][j + 1]]
                else:
                    for q in (u - tol, u + tol):
                        vals.append(B_[i][j] + np.clip((q - cum[j]) / p, 0, 1) * (B_[i][j + 1] - B_[i][j]))
            e = 2e-6 * (np.abs(B_[i]).max() + 1)
            assert min(vals) - e <= got <= max(vals) + e, f"python row {i}: quantile {u} gives {got} instead of {min(vals)}..{max(vals)} (bins {B_[i]}, weights {W_[i]})"


@sub(d(seed=SEED, n=ints(2, 8), S=ints(200, 400)), quick=60, thorough=3000)
def distribution(case, cx):
    """Random samples follow the histogram, and rows are independent."""
    r = rng(case["seed"])
    n, S = case["n"], case["S"]
    w = torch.from_numpy(r.random((3, n)) ** 2).float()
    bins = torch.from_numpy(np.sort(r.uniform(-1, 1, (3, n + 1)), 1)).float()
    torch.manual_seed(case["seed"])
    for fn in (sample_pdf, sample_pdf_python):
        out = fn(bins, w, S)
        assert (out[0] != out[1]).any()
        for i in range(3):
            p = (w[i] / w[i].sum()).numpy()
            x = np.sort(out[i].numpy())
            cdf = np.interp(x, bins[i].numpy(), np.concatenate([[0], np.cumsum(p)]))
            ks = np.abs(cdf - (np.arange(S) + 0.5) / S).max() * np.sqrt(S)
            assert ks < 3.2, f"{fn.__name__}: samples do not follow the histogram (KS {ks}, weights {p})"
