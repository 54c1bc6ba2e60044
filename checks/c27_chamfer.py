"""C27: chamfer distance against a float64 exhaustive reference."""
import numpy as np
import torch
from torch.nn import functional as F

from pytorch3d.loss import chamfer_distance
from pytorch3d.structures import Pointclouds
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, ints, one_of, raises, rng

PROP = "C27"
RULE = ("Batches of 1-4 pairs of clouds of 1-9 points (tensors with lengths and garbage padding, or Pointclouds), with and without "
        "normals and weights (also zero), every reduction, norm, direction. Oracle: exhaustive float64 sums and their derivatives. "
        "Non-trivial: more than one point somewhere and a positive weight.")


def single(x, y, nx, ny, norm, abs_cos):
    """Per point losses of clouds (P, D), (Q, D)."""
    df = x[:, None] - y[None]
    m = df.abs().sum(-1) if norm == 1 else (df * df).sum(-1)
    if len(y) == 0:
        dist, j = x.new_zeros(len(x)), None
    elif len(x) == 0:
        dist, j = x.new_zeros(0), torch.zeros(0, dtype=torch.long)
    else:
        j = m.detach().argmin(1)
        dist = m.gather(1, j[:, None])[:, 0]
    nl = None
    if nx is not None:
        near = ny[j] if j is not None else torch.zeros_like(nx)
        c = F.cosine_similarity(nx, near, dim=1, eps=1e-6)
        nl = 1 - (c.abs() if abs_cos else c)
    return dist, nl


CASE = dict(seed=SEED, N=ints(1, 4), P=ints(1, 9), Q=ints(1, 9), D=one_of(3, 3, 3, 1, 2, 5), lens=boolean(), cls=one_of("tensor", "tensor", "clouds", "mixed"),
            normals=boolean(), weights=one_of("none", "none", "some", "zero", "unit"), br=one_of("mean", "sum", None), pr=one_of("mean", "sum", "max", None),
            norm=one_of(1, 2), single=boolean(), abs=boolean(), empty=boolean())


@sub(d(**CASE), quick=900, thorough=50000)
def loss(case, cx):
    r = rng(case["seed"])
    N, P, Q, br, pr, norm = case["N"], case["P"], case["Q"], case["br"], case["pr"], case["norm"]
    D = 3 if case["cls"] != "tensor" else case["D"]
    normals = case["normals"] and pr != "max"
    lo = 0 if case["empty"] and not normals else 1
    lx = r.integers(lo, P + 1, N) if case["lens"] else np.full(N, P)
    ly = r.integers(lo, Q + 1, N) if case["lens"] else np.full(N, Q)
    f = lambda *s: torch.from_numpy(r.standard_normal(s)).float()
    X, Y, NX, NY = f(N, P, D), f(N, Q, D), f(N, P, D), f(N, Q, D)
    w = {"none": None, "some": torch.from_numpy(r.random(N)).float(), "zero": torch.zeros(N), "unit": torch.from_numpy((r.random(N) < 0.6) * 1.0).float()}[case["weights"]]
    cx.label(case["cls"]), cx.label(f"{br}/{pr}")
    cx.trivial(max(lx.max(), ly.max()) < 2 or (w is not None and not w.any()))
    kw = {}

    def make(t, nt, lens, name, clouds):
        """Argument and leaves of the padded data."""
        pad = float(r.choice([0, 1e3]))
        if clouds:
            pts = [t[i, :n].clone().requires_grad_() for i, n in enumerate(lens)]
            ns = [nt[i, :n].clone().requires_grad_() for i, n in enumerate(lens)] if normals else None
            return Pointclouds(points=pts, normals=ns), pts, ns
        t, nt = t.clone(), nt.clone()
        for i, n in enumerate(lens):
            t[i, n:], nt[i, n:] = pad, pad
        if case["seed"] % 2:
            t = t.permute(2, 0, 1).contiguous().permute(1, 2, 0)
        t.requires_grad_(), nt.requires_grad_()
        if case["lens"]:
            kw[name + "_lengths"] = torch.from_numpy(lens)
        if normals:
            kw[name + "_normals"] = nt
        return t, t, nt

    cc = {"tensor": (0, 0), "clouds": (1, 1), "mixed": (int(r.integers(2)),) * 2}[case["cls"]]
    if case["cls"] == "mixed":
        cc = (cc[0], 1 - cc[0])
    ax, px, nx_ = make(X, NX, lx, "x", cc[0])
    ay, py, ny_ = make(Y, NY, ly, "y", cc[1])
    if cc[0] and lx.max() < P or cc[1] and ly.max() < Q:
        P, Q = (int(lx.max()) if cc[0] else P), (int(ly.max()) if cc[1] else Q)
    if P == 0 or Q == 0:
        return
    args = dict(weights=w, batch_reduction=br, point_reduction=pr, norm=norm, single_directional=case["single"], abs_cosine=case["abs"], **kw)
    if pr is None and br is not None:
        raises(lambda: chamfer_distance(ax, ay, **args), ValueError, what="batch without point reduction")
        br = args["batch_reduction"] = None
    got, gotn = chamfer_distance(ax, ay, **args)
    # reference
    rx = [X[i, :n].double().requires_grad_() for i, n in enumerate(lx)]
    ry = [Y[i, :n].double().requires_grad_() for i, n in enumerate(ly)]
    rnx = [NX[i, :n].double().requires_grad_() for i, n in enumerate(lx)]
    rny = [NY[i, :n].double().requires_grad_() for i, n in enumerate(ly)]
    W = torch.ones(N).double() if w is None else w.double()

    def direction(a, b, na, nb, size):
        out, outn = [], []
        for i in range(N):
            dist, nl = single(a[i], b[i], na[i] if normals else None, nb[i] if normals else None, norm, case["abs"])
            for v, o in ((dist, out), (nl, outn)):
                if v is None:
                    continue
                v = v * W[i]
                if pr is None:
                    v = torch.cat([v, v.new_zeros(size - len(v))])
                elif pr == "max":
                    v = v.max() if len(v) else v.sum()
                else:
                    v = v.sum() / (max(len(v), 1) if pr == "mean" else 1)
                o.append(v)
        return torch.stack(out), torch.stack(outn) if normals else None

    fx, fnx = direction(rx, ry, rnx, rny, P)
    if case["single"]:
        want, wantn = [fx], [fnx]
    else:
        fy, fny = direction(ry, rx, rny, rnx, Q)
        if pr is None:
            want, wantn = [fx, fy], [fnx, fny]
        elif pr == "max":
            want, wantn = [torch.maximum(fx, fy)], [None]
        else:
            want, wantn = [fx + fy], [fnx + fny if normals else None]
    if br is not None:
        div = 1.0
        if br == "mean":
            div = N if w is None else (W.sum() if W.sum() > 0 else 1.0)
        want = [v.sum() / div for v in want]
        wantn = [None if v is None else v.sum() / div for v in wantn]
    two = pr is None and not case["single"]
    if normals:
        got_, gotn_ = (list(got), list(gotn)) if two else ([got], [gotn])
    else:
        assert gotn is None, f"normal loss {gotn} without normals"
        got_, gotn_ = list(got) if two else [got], [None] * (2 if two else 1)
    tot, totw = 0, 0
    for a, b, what in list(zip(got_, want, ["loss", "backward loss"])) + list(zip(gotn_, wantn, ["normal loss", "backward normal loss"])):
        if b is None:
            continue
        close(a, b, 3e-6 * (1 + float(b.detach().abs().max())) * D, what=what)
        g = torch.from_numpy(r.standard_normal(tuple(b.shape)))
        tot, totw = tot + (a * g.float()).sum(), totw + (b * g).sum()

    def flat(t, lens):
        if isinstance(t, list):
            return t
        return [t]

    leaves = [(px, rx, lx, "x"), (py, ry, ly, "y")] + ([(nx_, rnx, lx, "normals of x"), (ny_, rny, ly, "normals of y")] if normals else [])
    ga = torch.autograd.grad(tot, [t for p, *_ in leaves for t in flat(p, None)], allow_unused=True)
    gw = torch.autograd.grad(totw, [t for _, q, *_ in leaves for t in q], allow_unused=True) if totw.requires_grad else [None] * (N * len(leaves))
    ga, gw = list(ga), list(gw)
    for p, q, lens, what in leaves:
        a = [ga.pop(0) for _ in flat(p, None)]
        if not isinstance(p, list):
            a = [None] * N if a[0] is None else list(a[0])
        for i in range(N):
            wv = gw.pop(0)
            wv = torch.zeros_like(q[i]) if wv is None else wv
            av = torch.zeros_like(q[i]) if a[i] is None else a[i]
            # the gradient of a cosine grows as the normal gets short
            small = float(1 / q[i].detach().norm(dim=-1).min()) if "normals" in what and lens[i] else 1.0
            close(av[: lens[i]], wv, 1e-4 * max(1.0, small) * (1 + float(wv.abs().max() if wv.numel() else 0)), what=f"gradient of {what}")
            assert not av[lens[i]:].any(), f"gradient of the padding of {what}: {av[lens[i]:]}"


@sub(d(seed=SEED, N=ints(1, 3)), quick=40, thorough=400)
def invalid(case, cx):
    r = rng(case["seed"])
    N = case["N"]
    f = lambda *s: torch.from_numpy(r.standard_normal(s)).float()
    x, y = f(N, 4, 3), f(N, 5, 3)
    for a, kw in [((x, y), dict(batch_reduction="max")), ((x, y), dict(point_reduction="x")), ((x, y), dict(norm=3)),
                  ((x, y[..., :2]), {}), ((x, torch.cat([y, y])), {}), ((x[0], y), {}), ((x, y), dict(x_lengths=torch.tensor([5] * N))),
                  ((x, y), dict(weights=torch.ones(N + 1))), ((x, y), dict(weights=-torch.ones(N))), ((x, y), dict(x_normals=x, y_normals=y, point_reduction="max")),
                  ((3, y), {}), ((x, y), dict(x_lengths=torch.ones(N + 1).long()))]:
        raises(lambda: chamfer_distance(*a, **kw), ValueError, what=str(kw))
