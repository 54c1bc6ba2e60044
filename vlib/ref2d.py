"""Float64 reference for triangles in NDC: coverage, depth, barycentric coordinates, edge distances, gradients."""
import numpy as np
import torch


def centres(H, W):
    """NDC of the pixel centres: +x left, +y up, the shorter side spans [-1, 1].  (H, W, 2)"""
    m = min(H, W)
    x = (W - 1 - 2 * np.arange(W)) / m
    y = (H - 1 - 2 * np.arange(H)) / m
    return np.stack(np.broadcast_arrays(x[None, :], y[:, None]), -1).astype(np.float64)


def cross2(a, b):
    return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]


def bary2(p, a, b, c):
    """Barycentric coordinates (..., 3) of p; area-signed; nan for a degenerate triangle."""
    area = cross2(b - a, c - a)
    with np.errstate(all="ignore"):
        w0 = cross2(b - p, c - p) / area
        w1 = cross2(c - p, a - p) / area
        w2 = cross2(a - p, b - p) / area
    return np.stack([w0, w1, w2], -1)


def seg2(p, a, b):
    """Squared distance of p to segment ab."""
    ab = b - a
    l2 = (ab * ab).sum(-1)
    with np.errstate(all="ignore"):
        t = np.clip(((p - a) * ab).sum(-1) / l2, 0, 1)
    t = np.where(l2 > 0, t, 0)
    q = a + t[..., None] * ab
    return ((p - q) ** 2).sum(-1)


def tri2(p, a, b, c):
    return np.minimum(np.minimum(seg2(p, a, b), seg2(p, b, c)), seg2(p, c, a))


def cover(tri, H, W, blur, persp, clipb, cull, pts=None):
    """Reference values of every face at every pixel.

    tri: (F, 3, 3) x, y in NDC and depth.  Returns a dict of (H, W, F, ..) arrays: sure (must count), maybe (may count),
    z, bary, dist and their tolerances; vals: whether the values are well enough conditioned to compare.
    """
    p = centres(H, W)[:, :, None, :] if pts is None else pts
    F = len(tri)
    a, b, c = (tri[None, None, :, i, :2] for i in range(3))
    z = tri[:, :, 2]
    area = cross2(tri[:, 1, :2] - tri[:, 0, :2], tri[:, 2, :2] - tri[:, 0, :2]) if F else np.zeros(0)
    A = np.abs(area)
    w = bary2(p, a, b, c)
    L = np.maximum(np.abs(tri[:, :, :2]).max((1, 2)), np.abs(p).max()) if F else np.zeros(0)
    with np.errstate(all="ignore"):
        tb = (2e-6 * L * L + 2e-8) / A
    # relative errors of the area multiply the values far outside the face
    tb = tb * (np.maximum(1, np.nan_to_num(np.abs(w).max(-1), nan=1, posinf=1)) if F else 1)
    tb = np.broadcast_to(tb, w.shape[:3]).copy()
    bad_den = np.zeros(w.shape[:3], bool)
    wl = w
    if persp:
        top = np.stack([w[..., 0] * z[:, 1] * z[:, 2], w[..., 1] * z[:, 0] * z[:, 2], w[..., 2] * z[:, 0] * z[:, 1]], -1)
        den = top.sum(-1)
        mx = np.stack([z[:, 1] * z[:, 2], z[:, 0] * z[:, 2], z[:, 0] * z[:, 1]], -1)
        with np.errstate(all="ignore"):
            bad_den = ~(den > np.maximum(0.02 * np.abs(top).max(-1), 1e-4)) if F else bad_den
            w = top / den[..., None]
            tb = tb * np.abs(mx).max(-1) / np.abs(den) * (1 + np.abs(w).max(-1)) * 4
    inside_yes = (wl > tb[..., None]).all(-1) & (w > tb[..., None]).all(-1)
    inside_no = (wl < -tb[..., None]).any(-1)
    dist = tri2(p, a, b, c) if F else np.zeros(w.shape[:3])
    td = 1e-5 * np.sqrt(dist) + 2e-6
    wc = w
    tw = tb.copy()
    if clipb:
        wc = np.maximum(w, 0)
        with np.errstate(all="ignore"):
            wc = wc / np.maximum(wc.sum(-1, keepdims=True), 1e-5)
        tw = tb * 4
    with np.errstate(all="ignore"):
        pz = (wc * z).sum(-1)
        tz = tw * np.abs(z).sum(-1) + 1e-5
    # which faces count at all
    deg = A < 1e-12
    tiny = (A < 1e-5) & ~deg
    skip = deg | (z.min(1) < 1e-9 if F else deg)
    if cull:
        skip = skip | (area > 1e-5)
    unsure_face = tiny | ((z.min(1) < 1e-6) & (z.min(1) > 1e-9) if F else tiny)
    near = inside_yes | (dist < blur - td * (1 if blur else 0)) if blur else inside_yes
    far = inside_no & (dist > blur + td)
    if not blur:
        far = inside_no
    weird = bad_den | ~np.isfinite(pz) | (tw > 0.02) | (np.abs(pz) < tz * 2)
    front = pz > 0
    # a weird value may be in front or behind; otherwise only the ones in front count
    sure = near & front & ~weird & ~skip & ~unsure_face
    maybe = ~far & (front | weird) & ~skip
    # clamped perspective denominators: anything goes, but only within the blur
    vals = ~weird & ~unsure_face & maybe
    sign = np.where(inside_yes, -1, np.where(inside_no, 1, 0))
    return dict(sure=sure, maybe=maybe, vals=vals, z=pz, tz=tz, bary=wc, tw=tw, dist=dist, td=td, sign=sign, weird=weird)


def compare(ref, p2f, zbuf, bary, dist, off, nf, bary_ok=None):
    """Compare one image (H, W, K) with the reference; returns the number of covered pixels."""
    H, W, K = p2f.shape
    hits = 0
    for y in range(H):
        for x in range(W):
            ids = p2f[y, x]
            n = int((ids >= 0).sum())
            where = f"pixel ({y},{x})"
            assert (ids[n:] == -1).all() and (ids[:n] >= 0).all(), f"{where}: empty slots are not last: {ids}"
            assert (zbuf[y, x, n:] == -1).all() and (dist[y, x, n:] == -1).all() and (bary[y, x, n:] == -1).all(), f"{where}: values in empty slots"
            f = ids[:n] - off
            assert ((f >= 0) & (f < nf)).all(), f"{where}: faces {ids} of another mesh (this one has {off}..{off + nf - 1})"
            assert len(set(f.tolist())) == n, f"{where}: face twice: {ids}"
            zs = zbuf[y, x, :n]
            assert (np.diff(zs) >= 0).all(), f"{where}: depths are not sorted: {zs}"
            hits += n > 0
            for k, i in enumerate(f.tolist()):
                assert ref["maybe"][y, x, i], f"{where}: face {i} does not cover it"
                if not ref["vals"][y, x, i]:
                    continue
                tz, tw, td = ref["tz"][y, x, i], ref["tw"][y, x, i], ref["td"][y, x, i]
                assert abs(zs[k] - ref["z"][y, x, i]) <= tz, f"{where} face {i}: depth {zs[k]} instead of {ref['z'][y, x, i]}"
                e = np.abs(bary[y, x, k] - ref["bary"][y, x, i]).max()
                assert e <= tw + 1e-5, f"{where} face {i}: barycentric {bary[y, x, k]} instead of {ref['bary'][y, x, i]}"
                s, dd = ref["sign"][y, x, i], ref["dist"][y, x, i]
                got = float(dist[y, x, k])
                assert abs(abs(got) - dd) <= td, f"{where} face {i}: distance {got} instead of {dd}"
                if s and dd > td:
                    assert (got < 0) == (s < 0), f"{where} face {i}: distance {got} has the wrong sign"
            last = zs[-1] if n == K else np.inf
            got = set(f.tolist())
            for i in np.nonzero(ref["sure"][y, x])[0].tolist():
                if i not in got:
                    assert n == K and ref["z"][y, x, i] > last - ref["tz"][y, x, i] - 1e-5, \
                        f"{where}: face {i} at depth {ref['z'][y, x, i]} is missing (kept {f.tolist()} at {zs})"
    return hits


# ---- differentiable version ---------------------------------------------


def _tri_parts(fv, p):
    a, b, c = fv[:, 0, :2], fv[:, 1, :2], fv[:, 2, :2]
    cr = lambda u, v: u[:, 0] * v[:, 1] - u[:, 1] * v[:, 0]
    area = cr(b - a, c - a)
    w = torch.stack([cr(b - p, c - p) / area, cr(c - p, a - p) / area, cr(a - p, b - p) / area], -1)
    ts = []

    def seg(u, v):
        uv = v - u
        t = ((p - u) * uv).sum(-1) / (uv * uv).sum(-1)
        ts.append(t.detach())
        t = t.clamp(0, 1)
        return ((p - u - t[:, None] * uv) ** 2).sum(-1)

    segs = torch.stack([seg(a, b), seg(b, c), seg(c, a)], -1)
    return area, w, segs, torch.stack(ts, -1)


def torch_values(fv, p2f, persp, clipb):
    """For the pixel-face pairs of p2f >= 0: the leaf tensor t (n,3,3) of face copies, zbuf, bary, signed dists in float64,
    and where they are safely differentiable."""
    N, H, W, K = p2f.shape
    pts = torch.from_numpy(centres(H, W))[None, :, :, None].expand(N, H, W, K, 2)
    m = p2f >= 0
    t = fv[p2f[m]].detach().clone().requires_grad_()
    p = pts[m]
    z = t[:, :, 2]
    area, w, segs, raw = _tri_parts(t, p)
    w0 = w
    good = (area.abs() > 5e-3) & (z.min(1).values > 0.05)
    if persp:
        top = torch.stack([w[:, 0] * z[:, 1] * z[:, 2], w[:, 1] * z[:, 0] * z[:, 2], w[:, 2] * z[:, 0] * z[:, 1]], -1)
        den = top.sum(-1)
        good = good & (den > 0.05 * top.abs().max(-1).values)
        w = top / den.clamp(min=1e-8)[:, None]
    inside = (w0 > 0).all(-1)
    good = good & (w0.abs() > 1e-3).all(-1) & (w.abs().max(-1).values < 30)
    if clipb:
        w = w.clamp(min=0)
        w = w / w.sum(-1, keepdim=True)
    pz = (w * z).sum(-1)
    # the nearest edge must be clear, or the nearest point must be a vertex, strictly for both of its edges
    o = segs.detach().argsort(-1)
    s = segs.detach().gather(1, o)
    clamped = ((raw < -1e-3) | (raw > 1 + 1e-3)).gather(1, o)
    vertex = clamped[:, 0] & clamped[:, 1] & ((s[:, 2] - s[:, 1]) > 1e-4)
    smooth = (raw.gather(1, o)[:, 0].abs() > 1e-3) & ((raw.gather(1, o)[:, 0] - 1).abs() > 1e-3)
    good = good & (vertex | ((s[:, 1] - s[:, 0] > 1e-4) & smooth))
    dist = segs.gather(1, o[:, :1])[:, 0]
    dist = torch.where(inside, -dist, dist)
    return t, pz, w, dist, good


def grads(packed, faces, p2f, gz, gb, gd, persp, clipb):
    """Float64 gradient of sum(gz zbuf + gb bary + gd dists) with respect to the packed vertices, the sum of the absolute
    contributions, after zeroing in place the upstream gradients where the functions are not safely differentiable."""
    m = p2f >= 0
    t, z, b, dd, good = torch_values(packed[faces], p2f, persp, clipb)
    for g in (gz, gb, gd):
        g[~m] = 0
        sel = g[m]
        sel[~good] = 0
        g[m] = sel
    out = torch.zeros_like(packed)
    mag = torch.zeros_like(packed)
    for val, g in ((z, gz), (b, gb), (dd, gd)):
        if not bool(m.any()):
            continue
        gt = torch.autograd.grad((val * g[m].double()).sum(), t, retain_graph=True)[0].nan_to_num(0.0, 0.0, 0.0)
        for k in range(3):
            ix = faces[p2f[m]][:, k]
            out.index_add_(0, ix, gt[:, k])
            mag.index_add_(0, ix, gt[:, k].abs().amax(-1, keepdim=True).expand(-1, 3).contiguous())
    return out, mag, int(good.sum())
