"""C30: alignment of points and cameras, iterative closest point and perspective-n-points."""
import warnings

import numpy as np
import torch

from pytorch3d.ops import corresponding_cameras_alignment, corresponding_points_alignment, efficient_pnp, iterative_closest_point
from pytorch3d.ops.points_alignment import SimilarityTransform
from pytorch3d.renderer import FoVPerspectiveCameras, OrthographicCameras, PerspectiveCameras
from pytorch3d.structures import Pointclouds
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng, rot

warnings.simplefilter("ignore")
PROP = "C30"
RULE = ("1-4 pairs of clouds of 2-12 points in 2-4 dimensions, exact or noisy images of each other, also mirrored, of different sizes (Pointclouds), with "
        "weights; 1-6 cameras; 6-14 points seen by a camera. Oracle: value of the documented least squares objective at an independent float64 "
        "optimum. Non-trivial: more points than dimensions / cameras than one.")


def rotation(r, dim, mirror=False):
    q, _ = np.linalg.qr(r.standard_normal((dim, dim)))
    if (np.linalg.det(q) < 0) != mirror:
        q[:, 0] *= -1
    return q


def objective(x, y, w, R, T, s):
    return float((w * ((s * x @ R + T - y) ** 2).sum(1)).sum())


def umeyama(x, y, w, scale, mirror):
    """Optimal (R, T, s) of sum w |s x R + T - y|^2."""
    W = max(w.sum(), 1e-300)
    mx, my = (w[:, None] * x).sum(0) / W, (w[:, None] * y).sum(0) / W
    xc, yc = x - mx, y - my
    U, S, Vt = np.linalg.svd((w[:, None] * xc).T @ yc)
    E = np.ones(len(S))
    if not mirror and np.linalg.det(U @ Vt) < 0:
        E[-1] = -1
    R = (U * E) @ Vt
    den = (w[:, None] * xc * xc).sum()
    s = (E * S).sum() / den if scale and den > 1e-12 * W else 1.0
    return R, my - s * mx @ R, s


def orthonormal(R, mirror, tol, what):
    close(np.asarray(R) @ np.asarray(R).T, np.eye(len(R)), tol, what=f"{what}: orthonormal")
    det = np.linalg.det(np.asarray(R, dtype=np.float64))
    assert mirror or det > 0, f"{what}: reflection"


@sub(d(seed=SEED, N=ints(1, 4), P=ints(2, 12), dim=one_of(3, 3, 2, 4), cls=one_of("tensor", "tensor", "clouds"), weights=one_of("none", "some", "zeros", "list", "unit"),
       scale=boolean(), mirror=boolean(), noise=one_of(0.0, 0.05, 1.0), dtype=one_of("f32", "f64"), flip=boolean()), quick=600, thorough=40000)
def corresponding(case, cx):
    r = rng(case["seed"])
    N, P, dim = case["N"], case["P"], 3 if case["cls"] == "clouds" else case["dim"]
    dt = torch.float32 if case["dtype"] == "f32" or case["cls"] == "clouds" else torch.float64
    tol = 1e-4 if dt == torch.float32 else 1e-9
    n = r.integers(2, P + 1, N) if case["cls"] == "clouds" else np.full(N, P)
    cx.trivial(P <= dim)
    xs, ys, ws = [], [], []
    for i in range(N):
        x = r.standard_normal((n[i], dim)) + r.standard_normal(dim)
        y = r.uniform(0.5, 2) * x @ rotation(r, dim, case["flip"]) + r.standard_normal(dim) + case["noise"] * r.standard_normal(x.shape)
        w = np.ones(n[i])
        if case["weights"] in ("some", "list", "zeros", "unit"):
            w = r.random(n[i]) + 0.05
            if case["weights"] == "zeros" or case["weights"] == "unit":
                z = r.random(n[i]) < 0.4
                w = np.ones(n[i]) if case["weights"] == "unit" else w
                w[z] = 0
                y[z] = 10 * r.standard_normal((int(z.sum()), dim))
            w[0] = max(w[0], 0.5)
            w = w.astype(np.float32).astype(np.float64)
        xs.append(x), ys.append(y), ws.append(w)
    conv = lambda a: torch.from_numpy(a).to(dt)
    kw = {}
    if case["cls"] == "clouds":
        X, Y = Pointclouds(points=[conv(x) for x in xs]), Pointclouds(points=[conv(y) for y in ys])
        if case["weights"] != "none":
            if case["weights"] == "list":
                kw["weights"] = [conv(w) for w in ws]
            else:
                kw["weights"] = torch.from_numpy(np.stack([np.concatenate([w, np.full(max(n) - len(w), 7.0)]) for w in ws])).to(dt)
    else:
        X, Y = conv(np.stack(xs)), conv(np.stack(ys))
        if case["weights"] != "none":
            kw["weights"] = [conv(w) for w in ws] if case["weights"] == "list" else conv(np.stack(ws))
    keep = [a.clone() for a in (X, Y)]
    R, T, s = corresponding_points_alignment(X, Y, estimate_scale=case["scale"], allow_reflection=case["mirror"], **kw)
    assert R.shape == (N, dim, dim) and T.shape == (N, dim) and s.shape == (N,), (R.shape, T.shape, s.shape)
    for a, b in zip((X, Y), keep):
        if isinstance(a, torch.Tensor):
            equal(a, b, "points after the call")
    for i in range(N):
        x, y, w = (a[i] for a in (xs, ys, ws))
        orthonormal(R[i].double().numpy(), case["mirror"], tol, "R")
        if not case["scale"]:
            assert float(s[i]) == 1, f"scale {s[i]}"
        best = objective(x, y, w, *umeyama(x, y, w, case["scale"], case["mirror"]))
        got = objective(x, y, w, R[i].double().numpy(), T[i].double().numpy(), float(s[i]))
        size = (w[:, None] * (x ** 2 + y ** 2 * (w > 0)[:, None])).sum() + w.sum()
        assert abs(got - best) <= tol * 0.1 * size + 1e-3 * tol * best, f"element {i}: sum of squares {got}, least possible {best} (size {size})"


@sub(d(seed=SEED), quick=30, thorough=300)
def invalid(case, cx):
    r = rng(case["seed"])
    f = lambda *s: torch.from_numpy(r.standard_normal(s)).float()
    X, Y = f(2, 5, 3), f(2, 5, 3)
    bad = [(X, f(2, 4, 3), {}), (X, f(3, 5, 3), {}), (X, f(2, 5, 2), {}), (X, Y, dict(weights=torch.ones(2, 4))), (X, Y, dict(weights=[torch.ones(5), torch.ones(4)])),
           (Pointclouds(points=[X[0], X[1]]), Pointclouds(points=[Y[0], Y[1, :4]]), {})]
    for a, b, kw in bad:
        raises(lambda: corresponding_points_alignment(a, b, **kw), ValueError, what="corresponding points")
    raises(lambda: iterative_closest_point(X, f(3, 5, 3)), ValueError, what="ICP on different batches")
    raises(lambda: iterative_closest_point(X, f(2, 5, 2)), ValueError, what="ICP on different dimensions")
    raises(lambda: iterative_closest_point(X, Y, init_transform=SimilarityTransform(torch.eye(3), torch.zeros(3), torch.ones(1))), ValueError, what="init of the wrong shape")
    cs = PerspectiveCameras(R=torch.eye(3)[None].repeat(3, 1, 1), T=f(3, 3))
    raises(lambda: corresponding_cameras_alignment(cs, PerspectiveCameras(T=f(2, 3))), ValueError, what="different numbers of cameras")
    raises(lambda: corresponding_cameras_alignment(cs, cs, mode="center"), ValueError, what="unknown mode")


@sub(d(seed=SEED, N=ints(1, 3), P=ints(4, 12), Q=ints(4, 12), dim=one_of(3, 3, 2), cls=one_of("tensor", "clouds", "clouds", "same sizes", "mixed"), scale=boolean(), mirror=boolean(),
       init=boolean(), near=boolean(), iters=one_of(1, 2, 3, 5, 20, 60), thr=one_of(1e-6, 1e-2, 0.3)), quick=300, thorough=15000)
def icp(case, cx):
    r = rng(case["seed"])
    N, P, Q, cls = case["N"], case["P"], case["Q"], case["cls"]
    dim = case["dim"] if cls == "tensor" else 3
    cx.label(cls)
    if cls == "same sizes":
        n = r.integers(4, P + 1, N)
        m = n
    else:
        n = r.integers(4, P + 1, N) if cls == "clouds" else np.full(N, P)
        m = r.integers(4, Q + 1, N) if cls in ("clouds", "mixed") else np.full(N, Q)
    xs, ys = [], []
    for i in range(N):
        y = r.standard_normal((m[i], dim)) * 2
        if case["near"]:
            # X is a slightly moved part of Y
            x = y[r.permutation(m[i])[: n[i]]]
            x = np.concatenate([x, x[:1].repeat(n[i] - len(x), 0) + 0.3 * r.standard_normal((n[i] - len(x), dim))])
            x = x + 0.02 * r.standard_normal(dim)
        else:
            x = r.standard_normal((n[i], dim))
        xs.append(x.astype(np.float32).astype(np.float64)), ys.append(y.astype(np.float32).astype(np.float64))
    t = lambda a: torch.from_numpy(a).float()
    X = Pointclouds(points=[t(x) for x in xs]) if cls in ("clouds", "same sizes") else t(np.stack(xs))
    Y = Pointclouds(points=[t(y) for y in ys]) if cls in ("clouds", "same sizes", "mixed") else t(np.stack(ys))
    kw = {}
    now = [(np.eye(dim), np.zeros(dim), 1.0)] * N
    if case["init"]:
        init = [(rotation(r, dim), 0.3 * r.standard_normal(dim), r.uniform(0.7, 1.4)) for _ in range(N)]
        kw["init_transform"] = SimilarityTransform(*[t(np.stack([np.asarray(q[k]) for q in init])) for k in range(3)])
        now = [tuple(np.asarray(kw["init_transform"][k][i].double()) for k in range(3)) for i in range(N)]
    if not (case["thr"] == 1e-6 and r.random() < 0.5):
        kw["relative_rmse_thr"] = case["thr"]
    for k, v in dict(estimate_scale=case["scale"], allow_reflection=case["mirror"]).items():
        if v or r.random() < 0.5:
            kw[k] = v
    sol = iterative_closest_point(X, Y, max_iterations=case["iters"], **kw)
    assert 1 <= len(sol.t_history) <= case["iters"], f"{len(sol.t_history)} transforms in history of at most {case['iters']} iterations"
    for k in range(3):
        equal(sol.RTs[k], sol.t_history[-1][k], "last transform of the history")
    Xt = sol.Xt
    if cls in ("clouds", "same sizes"):
        assert isinstance(Xt, Pointclouds)
        got = [p.double().numpy() for p in Xt.points_list()]
    else:
        got = list(Xt.double().numpy())
    prev, clear, done = None, True, False
    for k, (R, T, s) in enumerate(sol.t_history):
        rm = np.zeros(N)
        for i in range(N):
            x, y = xs[i], ys[i]
            Rk, Tk, sk = R[i].double().numpy(), T[i].double().numpy(), float(s[i])
            xt = now[i][2] * x @ now[i][0] + now[i][1]
            D = ((xt[:, None] - y[None]) ** 2).sum(-1)
            o = np.sort(D, 1)
            if (o[:, 1] - o[:, 0] < 1e-4 * (1 + o[:, 0])).any():
                clear = False
                break
            near = y[D.argmin(1)]
            w = np.ones(len(x))
            orthonormal(Rk, case["mirror"], 1e-4, "R")
            best = objective(x, near, w, *umeyama(x, near, w, case["scale"], case["mirror"]))
            val = objective(x, near, w, Rk, Tk, sk)
            assert abs(val - best) < 1e-4 * (1 + (near ** 2).sum()), f"iteration {k}, element {i}: sum of squares {val}, least possible {best}"
            rm[i] = np.sqrt(val / len(x))
            now[i] = (Rk, Tk, sk)
        if not clear:
            break
        if prev is not None:
            ok = rm <= 1e-6
            rel = np.where(ok, 0, (prev - rm) / np.maximum(prev, 1e-30))
            # convergence is decided by the relative decrease (uncertain within the accuracy of float32)
            unsure = (np.abs(rel - case["thr"]) < 1e-4 + 1e-5 / np.maximum(rm, 1e-30)).any()
            if not unsure:
                should = (rel <= case["thr"]).all()
                assert should == (sol.converged and k == len(sol.t_history) - 1), f"iteration {k} of {len(sol.t_history)}: relative decrease {rel}, converged {sol.converged}"
        prev = rm
    if clear:
        close(sol.rmse.double(), prev, 2e-3 * (1 + prev.max()) if prev.min() < 1e-2 else 1e-4 * (1 + prev.max()), what="rmse")
        if sol.converged:
            assert len(sol.t_history) > 1
        else:
            assert len(sol.t_history) == case["iters"], "stopped without converging"
    for i in range(N):
        R, T, s = (np.asarray(q[i].double()) for q in sol.RTs)
        close(got[i], s * xs[i] @ R + T, 1e-4, what="transformed points")
    cx.trivial(len(sol.t_history) < 2)


@sub(d(seed=SEED, P=ints(4, 10), dim=one_of(2, 3), N=ints(1, 3)), quick=40, thorough=1000)
def icp_same(case, cx):
    """A cloud aligned with itself stays there and converges."""
    r = rng(case["seed"])
    X = torch.from_numpy(r.integers(-3, 4, (case["N"], case["P"], case["dim"]))).float() * 4
    X = X + torch.from_numpy(r.standard_normal((case["N"], 1, case["dim"]))).float()
    sol = iterative_closest_point(X, X.clone())
    close(sol.Xt, X, 1e-4, what="aligned with itself")
    assert sol.converged or float(sol.rmse.max()) > 1e-7, f"not converged at rmse {sol.rmse}"


@sub(d(seed=SEED, N=ints(1, 6), mode=one_of("centers", "extrinsics"), scale=boolean(), noise=one_of(0.0, 0.1, 3.0), typ=one_of("fov", "persp", "ortho")), quick=300, thorough=20000)
def cameras(case, cx):
    r = rng(case["seed"])
    N, mode, noise = case["N"], case["mode"], case["noise"]
    typ = {"fov": FoVPerspectiveCameras, "persp": PerspectiveCameras, "ortho": OrthographicCameras}[case["typ"]]
    cx.trivial(N < 2)
    R = np.stack([rotation(r, 3) for _ in range(N)])
    t = r.standard_normal((N, 3))
    RA, TA, sA = rotation(r, 3), r.standard_normal(3), r.uniform(0.5, 2) if case["scale"] else 1.0
    R2 = RA @ R
    t2 = TA @ R + sA * t
    if noise:
        if noise > 1:
            R2 = np.stack([rotation(r, 3) for _ in range(N)])
        else:
            R2 = np.stack([x @ np.linalg.qr(np.eye(3) + 0.1 * r.standard_normal((3, 3)))[0] for x in R2])
            R2 = np.stack([x * np.sign(np.linalg.det(x)) for x in R2])
        t2 = t2 + min(noise, 1) * r.standard_normal((N, 3))
    f = lambda a: torch.from_numpy(a).float()
    src, tgt = typ(R=f(R), T=f(t)), typ(R=f(R2), T=f(t2))
    out = corresponding_cameras_alignment(src, tgt, estimate_scale=case["scale"], mode=mode)
    assert type(out) is typ and out.R.shape == (N, 3, 3) and out.T.shape == (N, 3), (type(out), out.R.shape, out.T.shape)
    equal(src.R, f(R), "source cameras"), equal(src.T, f(t), "source cameras"), equal(tgt.R, f(R2), "target cameras")
    Ro, To = out.R.double().numpy(), out.T.double().numpy()
    # one global rotation, translation and scale
    A = Ro @ R.transpose(0, 2, 1)
    close(A, np.broadcast_to(A[:1], A.shape), 2e-5, what="rotations of all cameras")
    orthonormal(A[0], False, 2e-5, "rotation between the sets")
    if not noise and (N > 3 or mode == "extrinsics" and (N > 1 or not case["scale"])):
        close(Ro, R2, 2e-4, what="aligned rotations"), close(To, t2, 1e-3 * (1 + np.abs(t2).max()), what="aligned translations")
    if mode == "extrinsics":
        U, S, Vt = np.linalg.svd(np.einsum("nij,nkj->ik", R2, R))
        best = S.sum() - (2 * S[-1] if np.linalg.det(U @ Vt) < 0 else 0)
        got = float((A[0] * np.einsum("nij,nkj->ik", R2, R)).sum())
        assert abs(best - got) < 1e-4 * N, f"rotation correlation {got}, best possible {best}"
        a, b = np.einsum("nij,nj->ni", R, t), np.einsum("nij,nj->ni", R, t2)
        s = 1.0
        if case["scale"] and N > 1:
            s = ((a - a.mean(0)) * (b - b.mean(0))).sum() / ((a - a.mean(0)) ** 2).sum()
        T = b.mean(0) - s * a.mean(0)
        close(To, T @ R + s * t, 2e-3 * (1 + abs(s)), what="aligned translations in the least squares sense")
    else:
        c = lambda R_, t_: -np.einsum("nij,nj->ni", R_, t_)
        x, y = c(R, t), c(R2, t2)
        w = np.ones(N)
        best = objective(x, y, w, *umeyama(x, y, w, case["scale"] and N > 1, False))
        got = ((c(Ro, To) - y) ** 2).sum() if abs(sA) else 0
        # the centres move by the inverse similarity: X = (X' R_A + T_A) / s_A
        if N > 1:
            assert abs(got - best) < 1e-3 * (1 + best), f"centres: {got}, least possible {best}"


@sub(d(seed=SEED, N=ints(1, 3), P=ints(6, 14), weights=one_of("none", "none", "some", "zeros"), noise=one_of(0.0, 0.0, 0.01), skip=boolean()), quick=200, thorough=15000)
def pnp(case, cx):
    r = rng(case["seed"])
    N, P = case["N"], case["P"]
    x = r.standard_normal((N, P, 3))
    R = np.stack([rotation(r, 3) for _ in range(N)])
    T = r.standard_normal((N, 3)) * 0.5 + [0, 0, r.uniform(4, 8)]
    c = x @ R + T[:, None]
    y = c[..., :2] / c[..., 2:] + case["noise"] * r.standard_normal((N, P, 2))
    if (c[..., 2] < 0.5).any():
        return cx.trivial()
    w = None
    if case["weights"] != "none":
        w = r.random((N, P)) + 0.2
        if case["weights"] == "zeros":
            for i in range(N):
                z = r.permutation(P)[: max(0, P - 6)]
                w[i, z] = 0
                y[i, z] = r.standard_normal((len(z), 2))
    f = lambda a: None if a is None else torch.from_numpy(a)
    sol = efficient_pnp(f(x), f(y), f(w), skip_quadratic_eq=case["skip"])
    assert sol.R.shape == (N, 3, 3) and sol.T.shape == (N, 3) and sol.x_cam.shape == (N, P, 3) and sol.err_2d.shape == sol.err_3d.shape == (N,)
    W = np.ones((N, P)) if w is None else w
    W = W / W.sum(1, keepdims=True)
    for i in range(N):
        orthonormal(sol.R[i].numpy(), False, 1e-8, "R")
        z = x[i] @ sol.R[i].numpy() + sol.T[i].numpy()
        e2 = (W[i] * np.linalg.norm(z[:, :2] / np.maximum(z[:, 2:], 1e-9) - y[i], axis=1)).sum()
        close(float(sol.err_2d[i]), e2, 1e-8 + 1e-8 * e2, what="reprojection error")
        e3 = (W[i] * ((z - sol.x_cam[i].numpy()) ** 2).sum(1)).sum()
        close(float(sol.err_3d[i]), e3, 1e-8 + 1e-8 * e3, what="algebraic error")
    if case["noise"] == 0:
        close(sol.R, R, 1e-3, what="rotation of exact data"), close(sol.T, T, 1e-2, what="translation of exact data")
        close(sol.x_cam * f((W > 0) * 1.0)[..., None], c * (W > 0)[..., None], 1e-2, what="points in camera coordinates")
    else:
        s2 = efficient_pnp(f(x), f(y), f(w), skip_quadratic_eq=True)
        assert (sol.err_2d <= s2.err_2d + 1e-9).all(), "the best candidate is chosen"
