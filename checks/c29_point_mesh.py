"""C29: distances between points, edges and triangles against float64 closest points."""
import numpy as np
import torch

from pytorch3d import _C
from pytorch3d.loss import point_mesh_edge_distance, point_mesh_face_distance
from pytorch3d.loss.point_mesh_distance import edge_point_distance, face_point_distance, point_edge_distance, point_face_distance
from pytorch3d.structures import Meshes, Pointclouds
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng, rot

PROP = "C29"
RULE = ("Batches of 1-4 elements of 0-6 points and 0-6 triangles or segments, of sizes 1, 0.1 and 0.02, also below the minimal area, points "
        "near, far, and on them. Oracle: float64 closest points and their derivatives. Non-trivial: some element with several candidates.")


def seg(p, a, b):
    """Closest points (..., 3) on segments."""
    ab = b - a
    t = (((p - a) * ab).sum(-1) / (ab * ab).sum(-1).clamp(min=1e-300)).clamp(0, 1)
    return a + t[..., None] * ab


def tri(p, v, min_area):
    """Squared distances of p (P, 1, 3) to triangles v (1, T, 3, 3) with the candidates (P, T, 4) of which it is the minimum."""
    v0, v1, v2 = v.unbind(-2)
    n = torch.cross(v1 - v0, v2 - v0, dim=-1)
    nn = (n * n).sum(-1)
    area = nn.sqrt() / 2
    ok = (area >= min_area) & (nn > 1e-16)
    n_ = n / nn.sqrt().clamp(min=1e-30)[..., None]
    t = ((v0 - p) * n_).sum(-1)
    q = p + t[..., None] * n_
    inside = ok.expand(t.shape).clone()
    for a, b in [(v0, v1), (v1, v2), (v2, v0)]:
        inside &= (torch.cross(b - a, q - a, dim=-1) * n_).sum(-1) >= 0
    pts = [seg(p, v0, v1), seg(p, v0, v2), seg(p, v1, v2)]
    c = torch.stack([((p - x) ** 2).sum(-1) for x in pts], -1)
    dist = torch.where(inside, t * t, c.min(-1).values)
    j = c.detach().argmin(-1)
    q_edge = torch.stack(pts, -2).gather(-2, j[..., None, None].expand(j.shape + (1, 3)))[..., 0, :]
    closest = torch.where(inside[..., None], q, q_edge)
    # within a triangle that counts as its edges, the second edge may be equally near
    far = (torch.stack(pts, -2) - closest[..., None, :]).norm(dim=-1)
    rival = torch.where((far > 1e-3) & ~inside[..., None], c, torch.full_like(c, np.inf)).min(-1).values
    return dist, closest.detach(), rival.detach(), area


def hull(p, h, min_area):
    """Squared distances (P, T), closest points, rivals, sine-like quality of the triangles."""
    if h.shape[1] == 2:
        q = seg(p[:, None], h[None, :, 0], h[None, :, 1])
        return ((p[:, None] - q) ** 2).sum(-1), q.detach(), torch.full(q.shape[:2], np.inf).double(), None
    return tri(p[:, None], h[None], min_area)


def shapes(r, n, H, size):
    v = r.standard_normal((n, H, 3)) * size + r.standard_normal((n, 1, 3))
    return v


def points_near(r, n, h, size):
    """Points around the shapes: near, on, or far from them."""
    out = r.standard_normal((n, 3))
    for i in range(n):
        if len(h) and r.random() < 0.7:
            w = r.standard_normal(h.shape[1]) if r.random() < 0.4 else r.random(h.shape[1])
            w = np.abs(w) if r.random() < 0.5 else w
            w /= w.sum() if abs(w.sum()) > 0.3 else 1.0
            out[i] = w @ h[r.integers(len(h))] + r.standard_normal(3) * size * r.choice([0, 0.1, 1, 10])
    return out


def usable(h, min_area):
    """Triangles are neither slivers nor of an area at the threshold."""
    if h.shape[1] == 2:
        return np.linalg.norm(h[:, 0] - h[:, 1], axis=-1) > 2e-3
    e = np.linalg.norm(h - np.roll(h, 1, 1), axis=-1).max(1)
    a = np.linalg.norm(np.cross(h[:, 1] - h[:, 0], h[:, 2] - h[:, 0]), axis=-1) / 2
    return (a / e ** 2 > 0.02) & (np.abs(a - min_area) > 1e-3 * min_area) & (e > 2e-3)


def make(r, n, H, size, min_area):
    """n usable shapes."""
    out = np.zeros((0, H, 3))
    while len(out) < n:
        h = shapes(r, 2 * n, H, size).astype(np.float32).astype(np.float64)
        out = np.concatenate([out, h[usable(h, min_area)]])
    return out[:n]


CASE = dict(seed=SEED, N=ints(1, 4), H=one_of(2, 3, 3), size=one_of(1.0, 0.1, 0.02), area=one_of("default", 0.0, 1e-8, 1e-6, 1e-3, 0.3))


def area_of(case):
    return 5e-3 if case["area"] == "default" else case["area"]


def tol_of(p, h):
    """Error of a squared distance: float32 coordinates of size L, distance D."""
    L = max([1.0] + [float(np.abs(x).max()) for x in (p, h) if x.size])
    return 3e-6 * L * L


@sub(d(**CASE, rev=boolean(), empty=boolean()), quick=700, thorough=40000)
def distances(case, cx):
    r = rng(case["seed"])
    N, H, size, rev = case["N"], case["H"], case["size"], case["rev"]
    ma = area_of(case)
    np_, nh = r.integers(0, 7, N), r.integers(0, 7, N)
    for i in range(N):
        # the nearest of nothing is not defined
        if rev and nh[i] and not np_[i]:
            np_[i] = 1
        if not rev and np_[i] and not nh[i]:
            nh[i] = 1
        if not case["empty"]:
            np_[i], nh[i] = max(1, np_[i]), max(1, nh[i])
    hs, ps = [], []
    for i in range(N):
        h = make(r, nh[i], H, size, ma)
        hs.append(h), ps.append(points_near(r, np_[i], h, size).astype(np.float32).astype(np.float64))
    cx.label("reverse" if rev else "forward"), cx.label(f"H{H}")
    cx.trivial(max(nh if not rev else np_) < 2)
    p = torch.from_numpy(np.concatenate(ps)).float().requires_grad_()
    h = torch.from_numpy(np.concatenate(hs)).float().requires_grad_()
    p0 = torch.from_numpy(np.concatenate([[0], np.cumsum(np_)[:-1]])).long()
    h0 = torch.from_numpy(np.concatenate([[0], np.cumsum(nh)[:-1]])).long()
    n_max = int((nh if rev else np_).max())
    fn = {(2, False): point_edge_distance, (2, True): edge_point_distance, (3, False): point_face_distance, (3, True): face_point_distance}[H, rev]
    raw = {(2, False): _C.point_edge_dist_forward, (2, True): _C.edge_point_dist_forward, (3, False): _C.point_face_dist_forward, (3, True): _C.face_point_dist_forward}[H, rev]
    extra = () if H == 2 or case["area"] == "default" else (ma,)
    got = fn(p, p0, h, h0, n_max, *extra)
    dist_, idx = raw(p.detach(), p0, h.detach(), h0, n_max, *((ma,) if H == 3 else ()))
    equal(got.detach(), dist_, "distances of the function")
    assert idx.dtype == torch.int64
    pd, hd = p.detach().double().requires_grad_(), h.detach().double().requires_grad_()
    want, clear = [], []
    for i in range(N):
        a, b = slice(p0[i], p0[i] + np_[i]), slice(h0[i], h0[i] + nh[i])
        D, q, rival, _ = hull(pd[a], hd[b], ma)
        if rev:
            D, q, rival = D.T, (pd.detach()[a][:, None] - q).transpose(0, 1), rival.T
        if not D.numel():
            continue
        tol = tol_of(ps[i], hs[i])
        j = idx[(h0[i] if rev else p0[i]): (h0[i] if rev else p0[i]) + len(D)] - (p0[i] if rev else h0[i])
        assert ((0 <= j) & (j < D.shape[1])).all(), f"index {j.tolist()} outside of batch element {i}"
        m = D.min(1).values
        at = D.gather(1, j[:, None])[:, 0]
        close(at.detach(), m.detach(), tol, 1e-4, what="distance of the reported index")
        want.append(m)
        # ambiguous: another candidate is as near at another point
        amb = rival.min(1).values < m.detach() + 10 * tol + 1e-3 * m.detach()
        k = D.detach().argmin(1)
        other = D.detach().clone()
        other[torch.arange(len(D)), k] = np.inf
        amb |= other.min(1).values < m.detach() + 10 * tol + 1e-3 * m.detach()
        clear.append(~amb)
    if not want:
        return
    want, clear = torch.cat(want), torch.cat(clear)
    tol = max(tol_of(a, b) for a, b in zip(ps, hs))
    L = (tol / 3e-6) ** 0.5
    close(got, want, tol, 1e-4, what="squared distance")
    g = torch.from_numpy(r.standard_normal(len(want)) * clear.numpy())
    ga = torch.autograd.grad((got * g.float()).sum(), [p, h])
    gw = torch.autograd.grad((want * g).sum(), [pd, hd])
    for a, b, what in zip(ga, gw, ["points", "shapes"]):
        assert torch.isfinite(a).all(), f"gradient of {what}: {a}"
        # the foot of a point far from a small triangle is only known relative to its distance
        far = 1.0 if a is ga[0] else (1 + float(want.detach().max()) ** 0.5) / size
        close(a, b, 5e-5 * (1 + float(b.abs().max())) * far * L, 2e-3, what=f"gradient of {what}")


@sub(d(**CASE, P=ints(0, 5), T=ints(0, 5)), quick=400, thorough=20000)
def arrays(case, cx):
    """All distances between points and triangles or segments."""
    r = rng(case["seed"])
    H, size, ma = case["H"], case["size"], area_of(case)
    h = make(r, case["T"], H, size, ma)
    pts = points_near(r, case["P"], h, size).astype(np.float32).astype(np.float64)
    cx.trivial(case["P"] * case["T"] < 2)
    p, v = torch.from_numpy(pts).float(), torch.from_numpy(h).float()
    args = (ma,) if H == 3 else ()
    fwd, bwd = (_C.point_edge_array_dist_forward, _C.point_edge_array_dist_backward) if H == 2 else (_C.point_face_array_dist_forward, _C.point_face_array_dist_backward)
    pd, vd = p.double().requires_grad_(), v.double().requires_grad_()
    D, _, rival, _ = hull(pd, vd, ma)
    tol = tol_of(pts, h)
    L = (tol / 3e-6) ** 0.5
    got = fwd(p, v, *args)
    close(got, D, tol, 1e-4, what="squared distances")
    clear = rival > D.detach() + 10 * tol + 1e-3 * D.detach()
    g = torch.from_numpy(r.standard_normal(tuple(D.shape))) * clear
    ga = bwd(p, v, g.float(), *args)
    gw = torch.autograd.grad((D * g).sum(), [pd, vd], allow_unused=True)
    for a, b, q, what in zip(ga, gw, [p, v], ["points", "shapes"]):
        b = torch.zeros_like(q).double() if b is None else b
        far = 1.0 if q is p else (1 + float(D.detach().max() if D.numel() else 0) ** 0.5) / size
        close(a, b, 5e-5 * (1 + float(b.abs().max() if b.numel() else 0)) * far * L, 2e-3, what=f"gradient of {what}")


@sub(d(seed=SEED, N=ints(1, 4), size=one_of(1.0, 0.1), area=one_of("default", 0.0, 1e-4, 0.3), edge=boolean(), empty=boolean(), bad=ints(0, 15)), quick=400, thorough=20000)
def losses(case, cx):
    """Point-mesh losses of batches are means over points and faces (edges) of each element."""
    r = rng(case["seed"])
    N, size, ma = case["N"], case["size"], area_of(case)
    verts, faces, clouds = [], [], []
    for i in range(N):
        if case["empty"] and r.random() < 0.3:
            verts.append(np.zeros((0, 3))), faces.append(np.zeros((0, 3), dtype=np.int64)), clouds.append(np.zeros((0, 3)))
            continue
        V = int(r.integers(3, 7))
        v = (r.standard_normal((V, 3)) * size).astype(np.float32).astype(np.float64)
        f = np.stack([r.permutation(V)[:3] for _ in range(int(r.integers(1, 6)))])
        f = f[usable(v[f], ma)]
        if not len(f):
            return cx.trivial()
        verts.append(v), faces.append(f)
        clouds.append(points_near(r, int(r.integers(1, 6)), v[f], size).astype(np.float32).astype(np.float64))
    if not any(len(f) for f in faces):
        return cx.trivial()
    cx.trivial(N < 2)
    vs = [torch.from_numpy(v).float().requires_grad_() for v in verts]
    ps = [torch.from_numpy(c).float().requires_grad_() for c in clouds]
    mesh = Meshes(verts=vs, faces=[torch.from_numpy(f) for f in faces])
    pcl = Pointclouds(points=ps)
    if case["bad"] == 0:
        for fn in (point_mesh_edge_distance, point_mesh_face_distance):
            raises(lambda: fn(mesh, Pointclouds(points=ps + [torch.zeros(2, 3)])), ValueError, what="batches of different sizes")
    if case["edge"]:
        got = point_mesh_edge_distance(mesh, pcl)
    else:
        got = point_mesh_face_distance(mesh, pcl) if case["area"] == "default" else point_mesh_face_distance(mesh, pcl, min_triangle_area=ma)
    vd = [v.detach().double().requires_grad_() for v in vs]
    pd = [p.detach().double().requires_grad_() for p in ps]
    want, clear = 0, True
    for v, f, p in zip(vd, faces, pd):
        if not len(f):
            continue
        if case["edge"]:
            e = np.unique(np.sort(np.concatenate([f[:, [0, 1]], f[:, [1, 2]], f[:, [2, 0]]]), 1), axis=0)
            h = v[torch.from_numpy(e)]
        else:
            h = v[torch.from_numpy(f)]
        D, q, rival, _ = hull(p, h, ma)
        want = want + (D.min(1).values.mean() + D.min(0).values.mean()) / N
        for M, R, feet in [(D.detach(), rival, q), (D.detach().T, rival.T, (p.detach()[:, None] - p.detach()[:, None] + p.detach()[:, None]).expand(q.shape).transpose(0, 1))]:
            k = M.argmin(1)
            m = M.min(1, keepdim=True).values
            best = feet[torch.arange(len(M)), k][:, None]
            near = torch.minimum(R, torch.where((feet - best).norm(dim=-1) > 1e-6, M, torch.full_like(M, np.inf))) < m + 1e-4 * size * size + 1e-3 * m
            clear &= not bool(near.any())
    close(got, want, 1e-5 * (1 + float(want)), what="loss")
    if not clear:
        return
    ga = torch.autograd.grad(got, vs + ps)
    gw = torch.autograd.grad(want, vd + pd, allow_unused=True)
    for i, (a, b) in enumerate(zip(ga, gw)):
        b = torch.zeros_like(a).double() if b is None else b
        if a.numel():
            close(a, b, 3e-5 * (1 + float(b.abs().max())) * (1 + float(want)) / size, 1e-3, what="gradient of vertices" if i < N else "gradient of points")
