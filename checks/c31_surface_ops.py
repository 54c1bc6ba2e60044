"""C31: subdivision, smoothing and sampling of meshes."""
import numpy as np
import torch

from checks.c28_mesh_losses import edges_of, mesh, quality
from pytorch3d.ops import SubdivideMeshes, sample_points_from_meshes, taubin_smoothing
from pytorch3d.renderer import TexturesAtlas, TexturesUV, TexturesVertex
from pytorch3d.structures import Meshes
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng

PROP = "C31"
RULE = ("Batches of 1-4 meshes of 0-12 faces (soups, closed surfaces, strips, empty ones, isolated vertices); 1-3 rounds of subdivision; up to 400 "
        "samples per mesh. Oracle: geometry in float64: midpoints and children of each face, Taubin's iteration, membership of samples in the "
        "face of their texture, chi-square tests. Non-trivial: more than one face.")
KIND = one_of("soup", "soup", "tetra", "octa", "strip", "mixed", "mixed", "mixed")


def batch(r, case):
    out = []
    for _ in range(case["N"]):
        k = case["kind"] if case["kind"] != "mixed" else str(r.choice(["soup", "tetra", "octa", "strip", "empty"]))
        v, f = mesh(r, k, 1.0)
        out.append((v, f))
    if not any(len(f) for _, f in out):
        out[0] = mesh(r, "tetra", 1.0)
    return out


def build(data, grad=False, **kw):
    vs = [torch.from_numpy(v).float().requires_grad_(grad) for v, _ in data]
    return Meshes(verts=vs, faces=[torch.from_numpy(np.ascontiguousarray(f)).long().reshape(-1, 3) for _, f in data], **kw), vs


def children(tri):
    """The four children (4, 3, D) of a triangle, each in a canonical rotation."""
    a, b, c = tri
    ab, bc, ca = (a + b) / 2, (b + c) / 2, (c + a) / 2
    return [np.stack(t) for t in [(a, ab, ca), (b, bc, ab), (c, ca, bc), (ab, bc, ca)]]


def canonical(tris):
    """Multiset of oriented triangles as sorted rounded rows."""
    out = []
    for t in tris:
        t = np.round(np.asarray(t, dtype=np.float64), 4) + 0.0
        k = min(range(3), key=lambda i: tuple(t[i]))
        out.append(np.roll(t, -k, 0).ravel())
    return np.array(sorted(out, key=lambda x: tuple(x))) if out else np.zeros((0, 1))


@sub(d(seed=SEED, N=ints(1, 4), kind=KIND, rounds=ints(1, 2), feats=ints(0, 3), same=boolean(), packed=boolean()), quick=400, thorough=20000)
def subdivide(case, cx):
    r = rng(case["seed"])
    data = batch(r, case)
    C = case["feats"]
    if case["same"]:
        # same topology for all: the precomputed version
        k = int(np.argmax([len(f) for _, f in data]))
        v, f = data[k]
        data = [((v + 0.3 * r.standard_normal(v.shape)).astype(np.float32).astype(np.float64), f) for _ in data]
    cx.trivial(sum(len(f) for _, f in data) < 2)
    cx.label("same" if case["same"] else "different")
    m, leaves = build(data, True)
    fe = [np.round(r.standard_normal((len(v), C)), 3) for v, _ in data]
    feats = torch.from_numpy(np.concatenate(fe)).float()
    for k in range(case["rounds"]):
        sd = SubdivideMeshes(m[int(r.integers(len(data)))]) if case["same"] else SubdivideMeshes()
        if C:
            if case["same"] and not case["packed"]:
                feats = feats.reshape(len(data), -1, C)
            m, feats = sd(m, feats)
            if case["same"]:
                assert feats.shape == (len(data), len(m.verts_list()[0]), C), feats.shape
                feats = feats.reshape(-1, C)
            assert feats.shape == (m.verts_packed().shape[0], C), f"features {tuple(feats.shape)} of {m.verts_packed().shape[0]} vertices"
        else:
            m = sd(m)
    assert len(m) == len(data)
    first = 0
    g_out, want = 0, 0
    for i, (v, f) in enumerate(data):
        nv, nf = m.verts_list()[i], m.faces_list()[i]
        allv = np.concatenate([v, fe[i]], 1)
        tris, pts = [allv[t] for t in f], v
        cur_f, cur_v = f, allv
        for _ in range(case["rounds"]):
            e = edges_of(cur_f)
            want_count = len(cur_v) + len(e)
            key = {tuple(x): len(cur_v) + j for j, x in enumerate(e)}
            cur_v = np.concatenate([cur_v, (cur_v[e[:, 0]] + cur_v[e[:, 1]]) / 2])
            q = lambda a, b: key[min(a, b), max(a, b)]
            cur_f = np.array([t for a, b, c in cur_f for t in [(a, q(a, b), q(c, a)), (b, q(b, c), q(a, b)), (c, q(c, a), q(b, c)), (q(a, b), q(b, c), q(c, a))]], dtype=np.int64).reshape(-1, 3)
            tris = [c for t in tris for c in children(t)]
        assert nv.shape == (want_count, 3), f"mesh {i}: {len(nv)} vertices, expected {want_count}"
        close(nv[: len(v)], v, 1e-6, what="original vertices")
        got = nv.detach().double().numpy()
        # the multiset of new vertices, without duplicates per edge
        srt = lambda a: a[np.lexsort(np.round(a, 4).T[::-1])]
        close(srt(got), srt(cur_v[:, :3]), 2e-4, what=f"vertices of mesh {i}")
        assert len(nf) == 4 ** case["rounds"] * len(f), f"mesh {i}: {len(nf)} faces"
        if len(f):
            assert 0 <= int(nf.min()) and int(nf.max()) < len(nv), "face index out of range"
        if C:
            got = np.concatenate([got, feats[first: first + len(nv)].double().numpy()], 1)
        first += len(nv)
        a, b = canonical([got[t] for t in nf.numpy()]), canonical(tris)
        if np.abs(a - b).max(initial=0) > 2e-4:
            # rounding may order nearly equal rows differently
            for x in a:
                assert np.abs(b - x).max(1).min() < 1e-3 or min(np.abs(b - np.roll(x.reshape(3, -1), s, 0).ravel()).max(1).min() for s in range(3)) < 1e-3, f"unexpected face of mesh {i}: {x}"
        w = r.standard_normal(3)
        g_out = g_out + ((nv @ torch.from_numpy(w).float()) ** 2).sum()
        x = torch.from_numpy(cur_v[:, :3])
        # gradient: every vertex depends linearly on the original ones
        J = np.eye(len(v))
        cf = f
        for _ in range(case["rounds"]):
            e = edges_of(cf)
            key = {tuple(y): len(J) + j for j, y in enumerate(e)}
            cf = np.array([t for a_, b_, c_ in cf for t in [(a_, key[min(a_, b_), max(a_, b_)], key[min(a_, c_), max(a_, c_)]), (b_, key[min(b_, c_), max(b_, c_)], key[min(a_, b_), max(a_, b_)]),
                           (c_, key[min(a_, c_), max(a_, c_)], key[min(b_, c_), max(b_, c_)]), (key[min(a_, b_), max(a_, b_)], key[min(b_, c_), max(b_, c_)], key[min(a_, c_), max(a_, c_)])]], dtype=np.int64).reshape(-1, 3)
            J = np.concatenate([J, (J[e[:, 0]] + J[e[:, 1]]) / 2])
        leaves[i].expected = 2 * J.T @ (J @ v @ w)[:, None] * w[None]
    ga = torch.autograd.grad(g_out, leaves, allow_unused=True)
    for a, l in zip(ga, leaves):
        if l.numel():
            close(a, l.expected, 1e-3 * (1 + np.abs(l.expected).max()), what="gradient of vertices")


@sub(d(seed=SEED, N=ints(1, 3), kind=KIND, iters=ints(0, 4), lambd=one_of("default", 0.3, 0.0, 1.0), mu=one_of("default", -0.6, 0.2)), quick=300, thorough=20000)
def taubin(case, cx):
    r = rng(case["seed"])
    data = batch(r, case)
    cx.trivial(sum(len(f) for _, f in data) < 2 or not case["iters"])
    m, leaves = build(data, True)
    kw = {k: case[k] for k in ("lambd", "mu") if case[k] != "default"}
    out = taubin_smoothing(m, num_iter=case["iters"], **kw)
    lambd, mu = kw.get("lambd", 0.53), kw.get("mu", -0.53)
    assert len(out) == len(m)
    for i, (v, f) in enumerate(data):
        equal(out.faces_list()[i], m.faces_list()[i], "faces")
        e = edges_of(f)
        x = v.copy()
        for k in range(2 * case["iters"]):
            W = np.zeros((len(v), len(v)))
            ln = np.linalg.norm(x[e[:, 0]] - x[e[:, 1]], axis=1)
            if (ln < 0.05).any():
                return cx.trivial()
            W[e[:, 0], e[:, 1]] = W[e[:, 1], e[:, 0]] = 1 / ln
            s = W.sum(1, keepdims=True)
            mean = np.where(s > 0, W @ x / np.where(s > 0, s, 1), x)
            t = mu if k % 2 else lambd
            x = (1 - t) * x + t * mean
            if np.abs(x).max(initial=0) > 50:
                return cx.trivial()
        close(out.verts_list()[i], x, 1e-3 * (1 + np.abs(x).max(initial=0)), what=f"smoothed vertices of mesh {i}")
        equal(m.verts_list()[i].detach(), torch.from_numpy(v).float(), "vertices of the argument")
    g, = torch.autograd.grad(out.verts_packed().sum(), [leaves[0]], allow_unused=True)
    assert g is None or torch.isfinite(g).all(), "gradient"


@sub(d(seed=SEED, N=ints(1, 4), kind=KIND, S=one_of(1, 7, 60), normals=boolean(), tex=one_of("none", "vertex", "uv", "atlas", "vertex"), bad=ints(0, 15)), quick=400, thorough=20000)
def samples(case, cx):
    """Samples lie on their own mesh, with the normal and the texture of the face they lie on."""
    r = rng(case["seed"])
    data = [(v, f) if len(f) else (np.zeros((0, 3)), f[:0]) for v, f in batch(r, case)]
    S, tex = case["S"], case["tex"]
    cx.label(tex)
    cx.trivial(sum(len(f) for _, f in data) < 2)
    kw = {}
    # the texture encodes the position and the face: (mesh, x, y, z)
    if tex == "vertex":
        kw["textures"] = TexturesVertex([torch.from_numpy(np.concatenate([v, np.full((len(v), 1), i + 1.0)], 1)).float() for i, (v, f) in enumerate(data)])
    elif tex == "atlas":
        kw["textures"] = TexturesAtlas([torch.from_numpy(np.stack([np.arange(len(f)) + 1.0, np.full(len(f), i + 1.0)], 1)).float().reshape(-1, 1, 1, 2) for i, (v, f) in enumerate(data)])
    elif tex == "uv":
        uv = [r.random((max(1, 3 * len(f)), 2)) for _, f in data]
        maps = []
        for i in range(len(data)):
            g = np.linspace(0, 1, 5)
            maps.append(np.stack([np.broadcast_to(g[None], (5, 5)), np.broadcast_to(1 - g[:, None], (5, 5)), np.full((5, 5), i + 1.0)], -1))
        kw["textures"] = TexturesUV(maps=[torch.from_numpy(q).float() for q in maps], faces_uvs=[torch.arange(3 * len(f)).reshape(-1, 3) for _, f in data], verts_uvs=[torch.from_numpy(u).float() for u in uv])
    m, leaves = build(data, True, **kw)
    if case["bad"] == 0:
        raises(lambda: sample_points_from_meshes(Meshes(verts=[torch.zeros(0, 3)], faces=[torch.zeros(0, 3).long()]), 5), ValueError, what="no faces")
        bad = Meshes(verts=[torch.tensor([[0, 0, 0], [0, 1, 0], [1, 0, np.nan]])], faces=[torch.tensor([[0, 1, 2]])])
        raises(lambda: sample_points_from_meshes(bad, 5), ValueError, what="nan vertices")
        if tex == "none":
            raises(lambda: sample_points_from_meshes(m, 5, return_textures=True), ValueError, what="no textures")
    torch.manual_seed(case["seed"])
    out = sample_points_from_meshes(m, S, return_normals=case["normals"], return_textures=tex != "none")
    out = list(out) if isinstance(out, tuple) else [out]
    assert len(out) == 1 + case["normals"] + (tex != "none"), f"{len(out)} results"
    p = out[0]
    nrm = out[1] if case["normals"] else None
    tx = out[-1] if tex != "none" else None
    assert p.shape == (len(data), S, 3), p.shape
    grads = []
    for i, (v, f) in enumerate(data):
        q = p[i].detach().double().numpy()
        if not len(f):
            for o in out:
                assert not o[i].any(), f"samples of an empty mesh: {o[i]}"
            continue
        t = v[f]
        n = np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])
        A2 = np.linalg.norm(n, axis=1)
        n = n / A2[:, None]
        # barycentric coordinates of each sample in each face
        rel = q[:, None] - t[None, :, 0]
        off = np.abs((rel * n).sum(-1))
        b1 = (np.cross(rel, (t[:, 2] - t[:, 0])[None]) * n).sum(-1) / A2
        b2 = (np.cross((t[:, 1] - t[:, 0])[None], rel) * n).sum(-1) / A2
        bary = np.stack([1 - b1 - b2, b1, b2], -1)
        on = (off < 1e-4) & (bary > -1e-3).all(-1)
        assert on.any(1).all(), f"a sample is not on mesh {i}: {q[~on.any(1)][0]}"
        if nrm is not None:
            ok = on & (np.abs(n[None] - nrm[i].detach().double().numpy()[:, None]).max(-1) < 1e-3)
            assert ok.any(1).all(), f"normal {nrm[i][~ok.any(1)][0]} of no face at the sample of mesh {i}"
            on = ok
        if tx is not None:
            c = tx[i].double().detach().numpy()
            close(c[:, -1], np.full(S, i + 1.0), 1e-3, what="mesh of the texture")
            if tex == "vertex":
                close(c[:, :3], q, 1e-4, what="features at the sample")
            elif tex == "atlas":
                face = np.round(c[:, 0]).astype(int) - 1
                assert on[np.arange(S), face].all(), "colour of another face"
            else:
                u = np.einsum("sfk,fkd->sfd", bary, uv[i].reshape(-1, 3, 2)[: len(f)])
                ok = on & (np.abs(u - c[:, None, :2]).max(-1) < 1e-2)
                assert ok.any(1).all(), f"texture coordinates {c[~ok.any(1)][0]} of no face at the sample of mesh {i}"
    g = torch.autograd.grad(p.sum(), leaves, allow_unused=True)
    for i, (a, (v, f)) in enumerate(zip(g, data)):
        if len(f):
            close(a.double().sum(0), np.full(3, float(S)), 1e-3 * S, what="gradient: moving a mesh moves its samples")


@sub(d(seed=SEED, N=ints(1, 3), kind=one_of("soup", "octa", "strip", "mixed")), quick=24, thorough=400)
def distribution(case, cx):
    """Faces are chosen in proportion to their areas, points uniformly in them."""
    r = rng(case["seed"])
    data = [(v, f) if len(f) else (np.zeros((0, 3)), f[:0]) for v, f in batch(r, case)]
    m, _ = build(data, textures=TexturesAtlas([torch.arange(len(f)).float().reshape(-1, 1, 1, 1) for _, f in data]))
    torch.manual_seed(case["seed"])
    S = 4000
    p, tx = sample_points_from_meshes(m, S, return_textures=True)
    cx.trivial(max(len(f) for _, f in data) < 2)
    for i, (v, f) in enumerate(data):
        if not len(f):
            continue
        t = v[f]
        A = np.linalg.norm(np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]), axis=1)
        face = tx[i, :, 0].numpy().astype(int)
        n = np.bincount(face, minlength=len(f))
        e = S * A / A.sum()
        z = (n - e) / np.sqrt(e * (1 - A / A.sum()) + 1e-9 + (e < 1))
        assert np.abs(z).max() < 6.5, f"mesh {i}: faces drawn {n.tolist()}, expected {e.round(1).tolist()}"
        # in each of the four subtriangles a quarter of the points
        q = p[i].double().numpy()
        tt = t[face]
        nn = np.cross(tt[:, 1] - tt[:, 0], tt[:, 2] - tt[:, 0])
        d2 = (nn * nn).sum(-1)
        b1 = (np.cross(q - tt[:, 0], tt[:, 2] - tt[:, 0]) * nn).sum(-1) / d2
        b2 = (np.cross(tt[:, 1] - tt[:, 0], q - tt[:, 0]) * nn).sum(-1) / d2
        b = np.stack([1 - b1 - b2, b1, b2], -1)
        cls = np.where(b.max(-1) > 0.5, b.argmax(-1), 3)
        k = np.bincount(cls, minlength=4)
        z = (k - S / 4) / np.sqrt(S * 3 / 16)
        assert np.abs(z).max() < 6.5, f"mesh {i}: {k.tolist()} points in the corners and the middle of their faces"
        for j in range(3):
            assert abs(b[:, j].mean() - 1 / 3) < 6.5 * np.sqrt(1 / 18 / S), f"mean of barycentric coordinate {j}: {b[:, j].mean()}"
