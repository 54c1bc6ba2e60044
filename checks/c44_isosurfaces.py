"""C44: cubify and marching cubes."""
from collections import Counter

import numpy as np
import torch

from pytorch3d.ops import cubify
from pytorch3d.ops.marching_cubes import marching_cubes, marching_cubes_naive
from pytorch3d.renderer import TexturesAtlas
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng

PROP = "C44"
RULE = ("1-3 volumes of 1-7 voxels a side: random, smooth, sparse, nearly full, empty, with small integers so that many values equal the isolevel; "
        "one row of 5.6 million cells. Oracle: winding number of the surface at each grid point; grid edges crossed; the set of squares between "
        "occupied and free voxels. Non-trivial: the surface is not empty.")


def volume(r, kind, shape):
    if kind == "ints":
        return r.integers(-2, 3, shape).astype(np.float64)
    if kind == "halves":
        return r.integers(-9, 10, shape) / 4.0
    if kind == "sparse":
        return np.where(r.random(shape) < 0.1, 3.0, -1.0) * (1 + r.integers(0, 4, shape))
    if kind == "full":
        return np.where(r.random(shape) < 0.9, 3.0, -1.0)
    if kind == "smooth":
        g = np.stack(np.meshgrid(*[np.arange(s) for s in shape], indexing="ij"), -1)
        c = r.random(3) * np.array(shape)
        return np.round(1.5 + r.random() * 2 - np.linalg.norm(g - c, axis=-1), 2)
    return np.full(shape, float(r.choice([-1.0, 0.0, 1.0])))


def winding(p, tri):
    """Winding number (P,) of oriented triangles (T, 3, 3) around points."""
    a, b, c = (tri[None, :, i] - p[:, None] for i in range(3))
    la, lb, lc = (np.linalg.norm(x, axis=-1) for x in (a, b, c))
    num = (a * np.cross(b, c)).sum(-1)
    den = la * lb * lc + (a * b).sum(-1) * lc + (b * c).sum(-1) * la + (c * a).sum(-1) * lb
    return 2 * np.arctan2(num, den).sum(1) / (4 * np.pi)


def tri_counter(tri):
    out = []
    for t in np.round(tri, 3) + 0.0:
        k = min(range(3), key=lambda i: tuple(t[i]))
        out.append(tuple(np.roll(t, -k, 0).ravel()))
    return Counter(out)


KINDS = one_of("ints", "ints", "halves", "sparse", "full", "smooth", "constant")


@sub(d(seed=SEED, N=ints(1, 3), kind=KINDS, D=ints(1, 7), H=ints(1, 7), W=ints(1, 7), iso=one_of(0.0, 0.0, 0.125, 1.0, "none", -1.5), local=boolean(), naive=boolean()), quick=350, thorough=30000)
def marching(case, cx):
    r = rng(case["seed"])
    shape = (case["D"], case["H"], case["W"])
    vols = [volume(r, case["kind"], shape) for _ in range(case["N"])]
    iso = None if case["iso"] == "none" else case["iso"]
    cx.label(case["kind"])
    t = torch.from_numpy(np.stack(vols)).float()
    f = marching_cubes_naive if case["naive"] else marching_cubes
    with torch.no_grad():
        verts, faces = f(t, iso, return_local_coords=case["local"])
        # the same volumes padded with values outside: their surface is closed
        pv, pf = marching_cubes(torch.nn.functional.pad(t, [1] * 6, value=-100.0), None if iso is None else iso, return_local_coords=False) if iso is not None else (None, None)
    assert len(verts) == len(faces) == case["N"]
    size = np.array(shape[::-1], dtype=np.float64)
    trivial = True
    for i, vol in enumerate(vols):
        vol = vol.astype(np.float32)
        level = iso if iso is not None else float((vol.max() + vol.min()) / np.float32(2))
        vol = vol.astype(np.float64)
        tri = np.zeros((0, 3, 3))
        if len(verts[i]):
            trivial = False
            v = verts[i].double().numpy()
            if case["local"]:
                assert np.abs(v).max() < 1 + 1e-5, "local coordinates"
                v = (v + 1) * (size - 1) / 2
            check_verts(v, faces[i].numpy(), vol, level)
            tri = v[faces[i].numpy()]
        else:
            assert not len(faces[i])
        if iso is None:
            pad = np.pad(vol, 1, constant_values=-100.0)
            w, g = marching_cubes(torch.from_numpy(pad)[None].float(), float(level), return_local_coords=False)
            w, g = w[0], g[0]
        else:
            w, g = pv[i], pf[i]
        ptri = w.double().numpy()[g.numpy()] - 1 if len(w) else np.zeros((0, 3, 3))
        inside = (ptri.mean(1) > 0).all(1) & (ptri.mean(1) < size - 1).all(1)
        # triangles in the planes of the boundary of the volume belong to the cell inside or the one outside
        edge = ((ptri == 0).all(1) | (ptri == size - 1).all(1)).any(1)
        sure = tri_counter(ptri[inside & ~edge])
        eg = ((tri == 0).all(1) | (tri == size - 1).all(1)).any(1) if len(tri) else np.zeros(0, dtype=bool)
        have = tri_counter(tri[~eg])
        if have != sure:
            bad = list(((have - sure) + (sure - have)).items())
            # rounding to three digits may separate equal triangles
            a, b = np.array(list((have - sure).elements())), np.array(list((sure - have).elements()))
            assert a.shape == b.shape and all(np.abs(b - x).max(1).min() < 5e-3 for x in a), f"volume {i}: triangles {bad[:4]} differ from those of the padded volume"
        if len(ptri):
            z, y, x = np.nonzero(np.abs(vol - level) > 1e-4)
            p = np.stack([x, y, z], -1).astype(np.float64)
            wn = winding(p, ptri)
            # normals point towards higher values
            bad = np.abs(wn - np.where(vol[z, y, x] > level, -1.0, 0.0)) > 1e-3
            assert not bad.any(), f"volume {i}: winding number {wn[bad][0]} of the surface around the point {p[bad][0]} of value {vol[z, y, x][bad][0]}, level {level}"
        else:
            assert not (vol > level + 1e-4).any(), "no surface"
    cx.trivial(trivial)


def check_verts(v, f, vol, level):
    """Every vertex is the crossing of a grid edge; every crossed grid edge has one; all are used."""
    assert f.min() >= 0 and f.max() < len(v) and len(np.unique(f)) == len(v), "faces and vertices"
    base = np.floor(v + 1e-4)
    frac = v - base
    assert ((np.abs(frac) < 2e-4).sum(1) >= 2).all(), "a vertex lies on no grid edge"
    ax = np.abs(frac).argmax(1)
    lo = base.astype(int)
    hi = lo.copy()
    on = np.abs(frac).max(1) > 2e-4
    hi[np.arange(len(v)), ax] += on
    a = vol[lo[:, 2], lo[:, 1], lo[:, 0]]
    b = vol[hi[:, 2], hi[:, 1], hi[:, 0]]
    val = a + (b - a) * np.where(on, frac.max(1), 0)
    close(val, np.full(len(v), level), 1e-3 * (1 + np.abs(vol).max()), what="interpolated value at the vertices")
    # strictly crossed edges of the grid which belong to some cell
    if min(vol.shape) > 1:
        edges = np.stack([lo, hi], 1)[on].reshape(-1, 6)
        got = Counter(map(tuple, edges.tolist()))
        want, sure = Counter(), Counter()
        for k in range(3):
            A, B = np.take(vol, range(vol.shape[k] - 1), k), np.take(vol, range(1, vol.shape[k]), k)
            idx = np.argwhere((A - level) * (B - level) < -1e-12)
            for q in idx:
                e = q.copy()
                e[k] += 1
                key = tuple(q[::-1].tolist() + e[::-1].tolist())
                want[key] += 1
                # vertices close to a grid point may be merged with it
                where = (level - vol[tuple(q)]) / (vol[tuple(e)] - vol[tuple(q)])
                sure[key] += 1e-3 < where < 1 - 1e-3
        assert not got - want and not sure - got, f"crossed grid edges: vertices on {list((got - want).items())[:3]} unexpected, missing {list((sure - got).items())[:3]}"


@sub(d(seed=SEED), quick=1, thorough=4, shards=1, timeout=300)
def large(case, cx):
    """Far cells of a large volume have a closed surface with one vertex per crossed edge."""
    r = rng(case["seed"])
    W = int(r.integers(2800000, 2900000))
    vol = np.full((3, 3, W), -1.0, dtype=np.float32)
    small = np.round(r.uniform(-1, 1, (3, 3, 12)), 2) + 0.001
    vol[:, :, -12:] = small
    v, f = marching_cubes(torch.from_numpy(vol)[None], 0.0, return_local_coords=False)
    a = np.full((3, 3, 14), -1.0, dtype=np.float32)
    a[:, :, -12:] = small
    v2, f2 = marching_cubes(torch.from_numpy(a)[None], 0.0, return_local_coords=False)
    assert len(v[0]) == len(v2[0]), f"{len(v[0])} vertices of the far cells, {len(v2[0])} of the same cells near the origin"
    equal(f[0], f2[0], "faces")
    close(v[0][:, 0] - (W - 14), v2[0][:, 0], 0.51, what="positions")


@sub(d(seed=SEED, N=ints(1, 3), kind=KINDS, D=ints(1, 5), H=ints(1, 5), W=ints(1, 5)), quick=100, thorough=4000)
def agree(case, cx):
    """The C++ and Python versions agree triangle by triangle."""
    r = rng(case["seed"])
    t = torch.from_numpy(np.stack([volume(r, case["kind"], (case["D"], case["H"], case["W"])) for _ in range(case["N"])])).float()
    iso = [0.0, None, 0.3][int(r.integers(3))]
    local = bool(r.integers(2))
    a, b = marching_cubes(t, iso, local), marching_cubes_naive(t, iso, local)
    n = 0
    for i in range(case["N"]):
        assert len(a[0][i]) == len(b[0][i]) and len(a[1][i]) == len(b[1][i]), f"{len(a[0][i])} and {len(b[0][i])} vertices, {len(a[1][i])} and {len(b[1][i])} faces"
        if len(a[0][i]):
            n += 1
            equal(a[1][i], b[1][i], "faces")
            close(a[0][i], b[0][i], 1e-4, what="vertices")
    cx.trivial(not n)


def square(axis, sign, q):
    """Corners (as a frozenset) and outward normal of the square of voxel q (x, y, z)."""
    c = []
    for i in (0, 1):
        for j in (0, 1):
            p = list(q)
            p[axis] += 1 if sign > 0 else 0
            o = [k for k in range(3) if k != axis]
            p[o[0]] += i
            p[o[1]] += j
            c.append(tuple(int(u) for u in p))
    return frozenset(c), (axis, sign)


@sub(d(seed=SEED, N=ints(0, 3), p=one_of(0.5, 0.1, 0.9, 1.0, 0.0, 0.3), D=ints(1, 5), H=ints(1, 5), W=ints(1, 5), align=one_of("topleft", "corner", "center"), feats=ints(0, 3),
       thresh=one_of(0.5, 0.0, -1.0, 0.2)), quick=300, thorough=20000)
def cubes(case, cx):
    r = rng(case["seed"])
    N, D, H, W, th = case["N"], case["D"], case["H"], case["W"], case["thresh"]
    align = case["align"]
    if align != "corner" and min(D, H, W) < 2:
        return cx.trivial()
    occ = r.random((N, D, H, W)) < case["p"]
    if N > 1 and r.random() < 0.3:
        occ[int(r.integers(N))] = False
    vox = torch.from_numpy(np.where(occ, th + 0.01 + r.random(occ.shape), th - 0.01 - r.random(occ.shape))).float()
    K = case["feats"]
    feats = torch.from_numpy(r.standard_normal((N, K, D, H, W))).float() if K else None
    with torch.no_grad():
        m = cubify(vox, th, feats=feats, align=align)
    assert len(m) == N
    cx.trivial(not occ.any())
    cx.label(align)
    if r.random() < 0.05:
        raises(lambda: cubify(vox, th, align="middle"), ValueError, what="unknown align")
    textured = feats is not None and align == "center" and occ.any()
    if textured:
        assert isinstance(m.textures, TexturesAtlas), "textures"
    size = np.array([W, H, D], dtype=np.float64)
    for i in range(N):
        want = {}
        for z, y, x in np.argwhere(occ[i]):
            for axis in range(3):
                for sign in (-1, 1):
                    q = [x, y, z]
                    q[axis] += sign
                    out = not (0 <= q[axis] < size[axis])
                    if out or not occ[i][q[2], q[1], q[0]]:
                        s, n = square(axis, sign, (x, y, z))
                        want[s, n] = (z, y, x)
        v, f = m.verts_list()[i].double().numpy().reshape(-1, 3), m.faces_list()[i].numpy().reshape(-1, 3)
        assert len(f) == 2 * len(want), f"mesh {i} has {len(f)} faces, expected {2 * len(want)}"
        if not len(f):
            assert not len(v), "vertices of an empty mesh"
            continue
        # back to the grid of corners
        if align == "corner":
            g = (v + 1) / 2 * size
        elif align == "topleft":
            g = (v + 1) / 2 * (size - 1)
        else:
            g = (v + 1) / 2 * (size - 1) + 0.5
        close(g, np.round(g), 1e-4, what=f"vertices on the {align} grid")
        g = np.round(g).astype(int)
        assert len(np.unique(g, axis=0)) == len(g), "duplicate vertices"
        assert len(np.unique(f)) == len(g) and f.min() >= 0 and f.max() < len(g), "unused vertices"
        got = {}
        for k, t in enumerate(f):
            c = g[t]
            n = np.cross(c[1] - c[0], c[2] - c[0])
            assert np.abs(n).sum() == 1, f"face {c.tolist()} is no half of a square"
            axis = int(np.abs(n).argmax())
            sign = int(n[axis])
            lo = c.min(0)
            q = lo.copy()
            q[axis] -= 1 if sign > 0 else 0
            key = square(axis, sign, tuple(q))
            assert key in want, f"mesh {i}: unexpected face {c.tolist()} (x, y, z) with normal {n.tolist()}"
            got.setdefault(key, []).append(frozenset(map(tuple, c.tolist())))
            if textured:
                z, y, x = want[key]
                close(m.textures.atlas_list()[i][k].reshape(-1), feats[i, :, z, y, x], 1e-6, what="colour of a face")
        for key in want:
            assert len(got.get(key, [])) == 2 and got[key][0] | got[key][1] == key[0], f"mesh {i}: square {sorted(key[0])} has the halves {got.get(key)}"
