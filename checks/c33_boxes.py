"""C33: intersection volume and IoU of 3D boxes."""
import numpy as np
import torch

from pytorch3d.ops import box3d_overlap
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng, rot

PROP = "C33"
RULE = ("1-4 by 1-4 boxes: cuboids, parallelepipeds and frusta of sides 0.03 to 8, in general position, turned by small angles, shifted along their axes (common "
        "planes), nested, touching, identical, apart. Oracle: volume of the intersection of the half-spaces in float64. Non-trivial: they overlap.")


def rotation(r):
    return rot(r, 1)[0].double().numpy()


UNIT = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1.0]]) - 0.5
PLANES = [[0, 1, 2, 3], [3, 2, 6, 7], [0, 1, 5, 4], [0, 3, 7, 4], [1, 2, 6, 5], [4, 5, 6, 7]]


def planes(box):
    """(6, 4): unit outward normals and offsets, n.x <= c inside."""
    ctr = box.mean(0)
    out = []
    for p in PLANES:
        q = box[p]
        n = np.cross(q[2] - q[0], q[3] - q[1])
        n /= np.linalg.norm(n)
        c = n @ q.mean(0)
        if n @ ctr > c:
            n, c = -n, -c
        out.append([*n, c])
    return np.array(out)


def volume(hs):
    """Volume of the intersection of half-spaces by the divergence theorem."""
    size = 1e3
    vol = 0.0
    ref = None
    for i, h in enumerate(hs):
        n, c = h[:3], h[3]
        a = np.eye(3)[np.abs(n).argmin()]
        u = np.cross(n, a)
        u /= np.linalg.norm(u)
        v = np.cross(n, u)
        poly = np.array([c * n + size * (s * u + t * v) for s, t in [(1, 1), (-1, 1), (-1, -1), (1, -1)]])
        for j, g in enumerate(hs):
            if i == j:
                continue
            if g[:3] @ n > 1 - 1e-14 and abs(g[3] - c) < 1e-9:
                if j < i:
                    poly = poly[:0]
                continue
            dist = poly @ g[:3] - g[3] if len(poly) else np.zeros(0)
            out = []
            for k in range(len(poly)):
                a0, b0 = poly[k], poly[(k + 1) % len(poly)]
                da, db = dist[k], dist[(k + 1) % len(poly)]
                if da <= 0:
                    out.append(a0)
                if (da < 0 < db) or (db < 0 < da):
                    out.append(a0 + da / (da - db) * (b0 - a0))
            poly = np.array(out).reshape(-1, 3)
        if len(poly) < 3:
            continue
        if ref is None:
            ref = poly.mean(0)
        area = np.linalg.norm(sum(np.cross(poly[k] - poly[0], poly[k + 1] - poly[0]) for k in range(1, len(poly) - 1))) / 2
        vol += area * (c - n @ ref) / 3
    return vol


def shape(r, kind, size):
    s = size * r.uniform(0.5, 2, 3)
    b = UNIT * s
    if kind == "frustum":
        # one face scaled about its centre stays planar with the sides
        b = b.copy()
        f = r.uniform(0.5, 1.5)
        b[4:, :2] *= f
    elif kind == "skew":
        b = b @ (np.eye(3) + 0.3 * r.standard_normal((3, 3)))
    return b


def pair(r, rel, kind, size):
    if rel == "nested":
        size = max(size, 0.3)
    a = shape(r, kind, size)
    if rel == "general":
        b = shape(r, kind, size) @ rotation(r) + size * r.standard_normal(3) * 0.5
    elif rel == "tilt":
        ang = float(r.choice([0.002, 0.01, 0.02, 0.03, 0.05]))
        ax = np.eye(3)[int(r.integers(3))] if r.random() < 0.5 else r.standard_normal(3)
        ax = ax / np.linalg.norm(ax)
        K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
        R = np.eye(3) + np.sin(ang) * K + (1 - np.cos(ang)) * K @ K
        b = a @ R + (0 if r.random() < 0.5 else 0.3 * size * r.standard_normal(3))
    elif rel == "same":
        b = a.copy()
    elif rel == "aligned":
        # axis aligned before the common rotation: some faces in common planes
        s = size * np.round(r.uniform(0.5, 2, 3) * 4) / 4
        a = UNIT * s
        t = size * np.round(r.integers(-4, 5, 3) / 4 * 4) / 4 * (r.random(3) < 0.6)
        b = UNIT * np.where(r.random(3) < 0.6, s, size * np.round(r.uniform(0.5, 2, 3) * 4) / 4) + t
    elif rel == "nested":
        b = a * 0.4 + 0.05 * size * r.standard_normal(3)
        if r.random() < 0.5:
            a, b = b, a
    elif rel == "touch":
        s = size * r.uniform(0.5, 2, 3)
        a = UNIT * s
        b = UNIT * s
        k = int(r.integers(3))
        b = b + np.eye(3)[k] * s[k]
    else:
        b = shape(r, kind, size) + 8 * size * np.eye(3)[int(r.integers(3))]
    R, t = (rotation(r), size * r.standard_normal(3)) if r.random() < 0.7 else (np.eye(3), np.zeros(3))
    return a @ R + t, b @ R + t


@sub(d(seed=SEED, N=ints(1, 3), M=ints(1, 3), rel=one_of("general", "general", "tilt", "same", "aligned", "aligned", "nested", "touch", "apart"), kind=one_of("cuboid", "cuboid", "frustum", "skew"),
       size=one_of(1.0, 1.0, 0.3, 0.05, 4.0), bad=ints(0, 30)), quick=500, thorough=40000)
def overlap(case, cx):
    r = rng(case["seed"])
    N, M, size = case["N"], case["M"], case["size"]
    cx.label(case["rel"])
    a, b = pair(r, case["rel"], case["kind"], size)
    A = [a] + [shape(r, case["kind"], size) @ rotation(r) + 0.5 * size * r.standard_normal(3) for _ in range(N - 1)]
    B = [b] + [shape(r, case["kind"], size) @ rotation(r) + 0.5 * size * r.standard_normal(3) for _ in range(M - 1)]
    if r.random() < 0.5:
        A, B = B, A
    # documented: faces of area below 1e-4 are refused
    areas = [np.linalg.norm(np.cross(x[p[k]] - x[p[0]], x[p[k + 1]] - x[p[0]])) / 2 for x in A + B for p in PLANES for k in (1, 2)]
    if min(areas) < 1.2e-4:
        cx.trivial()
        return
    t1, t2 = (torch.from_numpy(np.stack(x)).float() for x in (A, B))
    vol, iou = box3d_overlap(t1, t2)
    assert vol.shape == iou.shape == (len(A), len(B))
    some = False
    for i in range(len(A)):
        for j in range(len(B)):
            x, y = t1[i].double().numpy(), t2[j].double().numpy()
            p, q = planes(x), planes(y)
            v1, v2 = volume(p), volume(q)
            want = volume(np.concatenate([p, q]))
            some |= want > 1e-6 * size ** 3
            # faces closer than 1e-4 of their size may count as common
            tol = 1e-3 * min(v1, v2)
            assert abs(float(vol[i, j]) - want) < tol, f"{case['rel']}: volume {float(vol[i, j])} of the intersection, expected {want} (boxes of {v1} and {v2})"
            wi = want / (v1 + v2 - want)
            assert abs(float(iou[i, j]) - wi) < 2e-3, f"{case['rel']}: IoU {float(iou[i, j])}, expected {wi}"
    cx.trivial(not some)
    # exchanging the arguments, and the order of the boxes
    vt, it = box3d_overlap(t2, t1)
    tol = 6e-3 * size ** 3 * 8
    close(vt.t(), vol, tol, what="volumes of exchanged arguments")
    va, _ = box3d_overlap(t1.flip(0), t2)
    close(va.flip(0), vol, 1e-5 * size ** 3, what="volumes of boxes in another order")
    if case["bad"] == 0:
        raises(lambda: box3d_overlap(t1[:, :7], t2), ValueError, what="shape of the boxes")
        c = t1.clone()
        c[0, 0] += 0.3 * size * torch.tensor([1.0, 0.7, 0.4])
        n = planes(t1[0].double().numpy())
        flat = t1.clone()
        flat[0, 4:] = flat[0, :4]
        raises(lambda: box3d_overlap(flat, t2), ValueError, what="boxes without volume")
        twist = t2.clone()
        twist[0, 4] += (t2[0, 4] - t2[0, 0]) * 0.5
        raises(lambda: box3d_overlap(t1, twist), ValueError, what="faces which are not planar")
    if case["bad"] == 1:
        g = t1.clone().requires_grad_(True)
        raises(lambda: box3d_overlap(g, t2)[0].sum().backward(), ValueError, what="gradients")
