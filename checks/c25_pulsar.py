"""C25: Pulsar renders spheres by its documented blending, with its derivatives, as seen by the given cameras."""
import numpy as np
import torch

from pytorch3d.renderer import (FoVOrthographicCameras, FoVPerspectiveCameras, OrthographicCameras, PerspectiveCameras,
                                PointsRasterizationSettings, PointsRasterizer, PulsarPointsRenderer)
from pytorch3d.renderer.points.pulsar import Renderer
from pytorch3d.structures import Pointclouds
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, fl, ints, one_of, quat_to_mat_np, rng

PROP = "C25"
RULE = ("Scenes of 1-140 spheres (large, small, below a pixel, beside the camera) in images up to 14x14 pixels, by perspective and "
        "orthographic cameras of both handednesses with shifted principal points, and by PyTorch3D cameras. Oracle: every pixel's ray "
        "against every sphere in float64, blended by the weighted softmax, and its derivatives. Non-trivial: a pixel sees a sphere.")

D = torch.float64
EPS_EXP = 0.07  # the CPU code documents an approximation of exp (fastermath.h)


def t32(a):
    return torch.tensor(np.asarray(a), dtype=torch.float32)


class Scene:
    """Spheres and a camera, exact in float32."""

    def __init__(self, case):
        r = rng(case["seed"], 25)
        self.r, self.W, self.H = r, case["W"], case["H"]
        self.ortho, self.rh = case["ortho"], case["rh"]
        n = self.n = case["n"]
        f32 = lambda a: np.asarray(a, dtype=np.float32).astype(np.float64)
        self.f = 0.0 if self.ortho else float(f32(r.uniform(0.4, 1.5)))
        half = r.uniform(0.2, 0.7)  # tangent of half the horizontal angle
        self.sw = float(f32(r.uniform(2, 6) if self.ortho else 2 * half * self.f))
        self.off = r.integers(-3, 4, 2) if case["shift"] else np.zeros(2, dtype=int)
        q = r.standard_normal(4)
        self.R = quat_to_mat_np(q / np.linalg.norm(q)) if case["turn"] else np.eye(3)
        if not case["turn"] and r.random() < 0.5:
            self.R = np.eye(3)[r.permutation(3)] * r.choice([-1, 1], (3, 1))
            self.R *= np.linalg.det(self.R)
        self.eye = f32(r.uniform(-1, 1, 3))
        self.x, self.y, self.z = self.R[:, 0], -self.R[:, 1], self.R[:, 2] * (-1 if self.rh else 1)
        self.px = self.sw / self.W
        depth = r.uniform(2.5, 9, n)
        size = r.uniform(0.05, 1.0, n)
        if case["size"] == "tiny":
            size = r.uniform(0.001, 0.1, n)
        elif case["size"] == "mixed":
            size *= np.where(r.random(n) < 0.5, 0.05, 1)
        elif case["size"] == "large":
            size = r.uniform(0.4, 1.5, n)
        reach = self.sw / 2 if self.ortho else half * depth
        c = np.stack([(r.uniform(-1.2, 1.2, n) + 2 * self.off[0] / self.W * -1) * reach,
                      (r.uniform(-1.2, 1.2, n) * self.H / self.W + 2 * self.off[1] / self.W * -1) * reach, depth], -1)
        if case["size"] == "beside" and not self.ortho:
            a = r.uniform(0.9, 1.35, n)
            side = r.uniform(0, 2 * np.pi, n)
            if r.random() < 0.7:
                side = np.round(side / (np.pi / 2)) * np.pi / 2
            dist = r.uniform(3, 6, n)
            c = dist[:, None] * np.stack([np.sin(a) * np.cos(side), np.sin(a) * np.sin(side), np.cos(a)], -1)
            size = dist * r.uniform(0.3, 0.7, n)
        elif case["size"] == "seen":  # within the image
            c[:, :2] = (c[:, :2] + 2 * self.off / self.W * np.reshape(reach, (-1, 1))) * 0.4 - 2 * self.off / self.W * np.reshape(reach, (-1, 1))
            size = r.uniform(0.5, 0.9, n) * reach * min(1, self.H / self.W)
        if case["axis"]:
            c[0, :2] = 0.0
        self.pos = f32(self.eye + c[:, :1] * self.x + c[:, 1:2] * self.y + c[:, 2:] * self.z)
        if case["axis"] and not case["turn"]:
            self.pos[0] = f32(self.eye + np.round(4 * c[0, 2]) / 4 * self.z)
        self.rad = f32(size)
        self.C = case["ch"]
        self.col = f32(r.uniform(0, 1, (n, self.C)))
        self.opy = np.ones(n) if case["opaque"] else f32(r.uniform(0.05, 1, n))
        self.bg = np.ones(self.C) if case["bg"] == "none" else f32(r.uniform(0, 1, self.C))
        self.bgd = float(f32(r.choice([0.0, r.uniform(0, 0.5)]))) or 1e-6
        self.gamma = float(10 ** r.uniform(*case["gamma"]))
        self.zmin, self.zmax = (0.5 if self.ortho else self.f + 0.1), float(r.uniform(6, 14))
        self.case = case

    def params(self, six=None):
        six = self.case["six"] if six is None else six
        if six:
            rot = self.R[:2].reshape(-1)
        else:
            from scipy.spatial.transform import Rotation
            rot = Rotation.from_matrix(self.R).as_rotvec()
        p = [*self.eye, *rot, self.f, self.sw]
        return t32(p + [float(v) for v in self.off] if self.case["shift"] else p)

    def renderer(self, n=None, n_track=5):
        return Renderer(self.W, self.H, n or self.n, orthogonal_projection=self.ortho, right_handed_system=self.rh,
                        background_normalized_depth=self.bgd, n_channels=self.C, n_track=n_track)

    def kwargs(self, **kw):
        out = dict(gamma=self.gamma, max_depth=self.zmax, min_depth=self.zmin, percent_allowed_difference=0.0)
        if self.case["bg"] != "none":
            out["bg_col"] = t32(self.bg)
        if not self.case["opaque"]:
            out["opacity"] = t32(self.opy)
        return {**out, **kw}

    def vectors(self):
        centre = self.eye + self.f * self.z
        dx, dy = self.x * self.px, self.y * self.px
        return self.eye, centre - dx * (self.W - 1) / 2 - dy * (self.H - 1) / 2, dx, dy


def trace(pos, col, rad, opy, eye, p00, dx, dy, zdir, f, W, H, off, ortho, gamma, zmin, zmax, bg, bgd, shift=(0.0, 0.0)):
    """Every pixel against every sphere; the first eight arguments are (P or 1, n, ...) tensors.  shift: where the orthographic rays
    pass, in pixels from the centres."""
    jj, ii = torch.meshgrid(torch.arange(H), torch.arange(W), indexing="ij")
    ii, jj = ii.reshape(-1, 1).to(D), jj.reshape(-1, 1).to(D)
    u, v = (ii + off[0])[..., None], (jj + off[1])[..., None]
    px = dx.norm(dim=-1)
    c = pos - eye
    nrm = torch.linalg.cross(dy, dx)
    nrm = nrm / nrm.norm(dim=-1, keepdim=True)
    nrm = nrm * torch.sign((nrm * zdir).sum(-1, keepdim=True)).detach()
    if ortho:
        q = pos - (p00 + (u - shift[0]) * dx + (v - shift[1]) * dy)
        perp = q - (q * nrm).sum(-1, keepdim=True) * nrm
        o = (c * nrm).sum(-1)
        cw = d1 = (perp**2).sum(-1).clamp(min=1e-24).sqrt()
        close, proj = o - rad, (rad / px)
        q0 = pos - p00
        U, V = (q0 * dx).sum(-1) / px**2 - off[0], (q0 * dy).sum(-1) / px**2 - off[1]
        gap = torch.maximum((U - ii).abs(), (V - jj).abs())
        cen, amb = gap < 0.5, (gap - 0.5).abs() < 0.05
        miss = (gap < 0.55) & (cw > 0.99 * rad) & (proj > 0.99)  # by the shift, the pixel of the centre can miss the sphere
        # spheres are left out by where they are, not by where the (shifted) rays are
        out = torch.maximum(torch.maximum(-U, U - (W - 1)), torch.maximum(-V, V - (H - 1))) > proj - 0.05
    else:
        ray = p00 - eye + u * dx + v * dy
        ray = ray / ray.norm(dim=-1, keepdim=True)
        t = c.norm(dim=-1)
        cw = ((c - ray * t[..., None]) ** 2).sum(-1).clamp(min=1e-24).sqrt()
        o = (c * ray).sum(-1)
        d1 = ((c - ray * o[..., None]) ** 2).sum(-1).clamp(min=1e-24).sqrt()
        close, proj = t - rad, rad * f / t / px
        k = f / (c * nrm).sum(-1)
        U = ((c * dx).sum(-1) * k - ((p00 - eye) * dx).sum(-1)) / px**2 - off[0]
        V = ((c * dy).sum(-1) * k - ((p00 - eye) * dy).sum(-1)) / px**2 - off[1]
        gap, out, miss = torch.maximum((U - ii).abs(), (V - jj).abs()), torch.tensor(False), torch.tensor(False)
        thr = 0.75 * px * t / f
        cen = cw < thr
        # the hits of the centre are searched next to it only
        amb = ((cw - thr).abs() < 0.05 * thr) | (cen & (gap > 0.95))
    amb = amb | (cen & ((U < 0.05) | (U > W - 1.05) | (V < 0.05) | (V > H - 1.05)))
    amb = (amb & (proj < 1.001)) | (cen & (proj - 1).abs().lt(1e-3))
    amb = amb | ((cw - rad).abs() < 2e-4 * (1 + o.abs())) & (proj < 1.001)
    vis = (close >= zmin) & (close <= zmax) & ((c * nrm).sum(-1) > 0)
    unsure = ((close - zmin).abs() < 1e-3) | ((close - zmax).abs() < 1e-3)
    tiny = cen & (proj < 1)
    hit = ((cw <= rad) | cen) & vis
    amb = ((amb | miss | (out & (cw < rad * 1.01))) & vis) | (unsure & ((cw < rad * 1.01) | cen))
    clo = torch.where(tiny, 1.0, (1 - cw / rad).clamp(0, 1))
    p12 = (rad**2 - d1**2).clamp(min=1e-24).sqrt()
    dep = o - p12
    ex = (1 - (dep - zmin) / (zmax - zmin)) / gamma * opy
    ex = torch.where(hit, ex, -torch.inf)
    m = ex.max(-1).values.clamp(min=bgd / gamma).detach()
    w = torch.where(hit, clo * (torch.where(hit, ex, 0) - m[..., None]).exp() * opy, 0)
    wb = (bgd / gamma - m).exp()
    tot = w.sum(-1) + wb
    im = ((w[..., None] * col).sum(-2) + wb[:, None] * bg) / tot[:, None]
    err = 2e-5 * (1 + o.abs()) * (1 + 0 * d1)
    dtol = 1e-4 * (1 + o.abs()) + torch.minimum(err * d1 / p12, (2 * rad * err + err**2).sqrt())
    return dict(im=im, hit=hit, amb=amb, dep=dep, dtol=dtol, w=w, wb=wb, tot=tot, m=m, ex=ex, close=close.expand(hit.shape), cw=cw,
                edge=((cw - rad).abs() < 2e-4 * (1 + o.abs())) & vis, proj=proj.expand(hit.shape))


def exp_bound(o, col, bg, gamma, zrange):
    """How far the approximate exponential can move each pixel's colour (P, C)."""
    # the maximum is updated while the spheres are drawn from the closest one on
    order = torch.where(o["hit"], o["close"], torch.inf).argsort(-1)
    ex = torch.where(o["hit"], o["ex"], -torch.inf).gather(-1, order)
    run = torch.cummax(torch.cat([(torch.zeros(len(ex), 1, dtype=D) - 1e30), ex], -1), -1).values
    ups = (run[:, 1:] > run[:, :-1] - 1e-3).logical_and(torch.isfinite(ex)).sum(-1)
    eps = (1 + EPS_EXP) ** (1 + ups.clamp(max=8).to(D)) - 1
    dep = o["dtol"] / zrange / gamma
    rel = eps[:, None] + torch.where(o["hit"], dep.clamp(max=1), 0)
    dif = (col - o["im"][:, None]).abs()
    out = (o["w"][..., None] * rel[..., None] * dif).sum(1) + o["wb"][:, None] * eps[:, None] * (bg - o["im"]).abs()
    low = 1 - rel.max(-1).values.clamp(max=0.6)
    return out / o["tot"][:, None] / low[:, None]


def expected(s, shift=(0.0, 0.0), off=None):
    e, p00, dx, dy = (torch.tensor(a)[None, None] for a in s.vectors())
    return trace(torch.tensor(s.pos)[None], torch.tensor(s.col)[None], torch.tensor(s.rad)[None], torch.tensor(s.opy)[None], e, p00, dx, dy,
                 torch.tensor(s.z), s.f, s.W, s.H, s.off if off is None else off, s.ortho, s.gamma, s.zmin, s.zmax,
                 torch.tensor(s.bg), s.bgd, shift)


def clear(o):
    return ~(o["amb"] | o["edge"]).any(-1)  # at the silhouette the weight begins at zero


def off_by(s, o, im):
    """By how much the image is further from the reference than the exponential explains."""
    tol = 2e-4 + exp_bound(o, torch.tensor(s.col)[None], torch.tensor(s.bg), s.gamma, s.zmax - s.zmin)
    err = (im.reshape(o["im"].shape).to(D) - o["im"]).abs() - tol
    near = (torch.where(o["hit"], 1e-5 * 10 / torch.tensor(s.rad)[None], 0).max(-1).values)[:, None]
    return (err - near)[clear(o)]


SHIFT = []


def ortho_shift():
    """Where the orthographic rays pass: the repository's stored images have them half a pixel beside the centres of the pixels, which
    is accepted; so are rays through the centres."""
    if not SHIFT:
        ren = Renderer(9, 9, 1, orthogonal_projection=True, n_channels=1, n_track=1)
        im = ren(t32([[0, 0, 5]]), t32([[1.0]]), t32([2.3]), t32([0, 0, 0, 0, 0, 0, 0, 9.0]), 0.1, 9.0, bg_col=t32([0.0]))
        rows, cols = torch.nonzero(im[..., 0].sum(1))[:, 0], torch.nonzero(im[..., 0].sum(0))[:, 0]
        SHIFT.extend(0.5 * (float(x.min() + x.max()) / 2 != 4) for x in (cols, rows))
    return tuple(SHIFT)


def best(s, im):
    """The reference, which the image has to agree with."""
    assert torch.isfinite(im).all(), "the image is not finite"
    o = expected(s, ortho_shift() if s.ortho else (0.0, 0.0))
    e = off_by(s, o, im)
    assert not e.numel() or e.max() <= 0, f"the image differs by {float(e.max()):.4g} more than the approximate exponential explains"
    return o


CASE = dict(seed=SEED, W=ints(2, 14), H=ints(2, 14), ortho=boolean(), rh=boolean(), shift=boolean(), turn=boolean(), six=boolean(),
            size=one_of("any", "any", "tiny", "mixed", "large", "beside"), axis=one_of(False, False, True), ch=ints(1, 5), opaque=boolean(),
            bg=one_of("none", "given"))


@sub(d(n=ints(1, 8), gamma=one_of((-3.0, 0.0), (-1.0, 0.0), (-5.0, -2.0)), n_track=ints(1, 6), **CASE), quick=220, thorough=6000, shards=4)
def image(case, cx):
    s = Scene(case)
    nt = case["n_track"]
    ren = s.renderer(n=s.n + int(s.r.integers(0, 3)), n_track=nt)
    args = (t32(s.pos), t32(s.col), t32(s.rad), s.params())
    im, info = ren(*args, return_forward_info=True, **s.kwargs())
    assert im.shape == (s.H, s.W, s.C) and info.shape == (s.H, s.W, 3 + 2 * nt)
    o = best(s, im)
    ok = clear(o)
    cx.trivial(not bool(o["hit"].any()))
    cx.label(case["size"], "ortho" if s.ortho else "persp")
    ids = Renderer.sphere_ids_from_result_info_nograd(info)
    ids = ids.reshape(s.H * s.W, nt).long()
    info = info.reshape(-1, 3 + 2 * nt).to(D)
    depths = info[:, 4::2]
    depth_map = Renderer.depth_map_from_result_info_nograd(info.reshape(s.H, s.W, -1)).reshape(-1)
    hits, none = ren(*args, **s.kwargs(mode=1, return_forward_info=True))
    assert none is None
    hits = hits[..., 0].reshape(-1)
    for p in torch.nonzero(ok)[:, 0].tolist():
        h = torch.nonzero(o["hit"][p])[:, 0]
        assert int(hits[p]) == len(h), f"pixel {p}: {hits[p]} hits instead of {len(h)}"
        want, order = o["dep"][p][h].sort()
        tol = o["dtol"][p][h].max() if len(h) else 0
        k = min(nt, len(h))
        got = ids[p].tolist()
        assert all(g == -1 for g in got[k:]) and (depths[p][k:] == -1).all(), f"pixel {p}: sphere without a hit: {got}"
        assert len(set(got[:k])) == k and set(got[:k]) <= set(h.tolist()), f"pixel {p}: spheres {got} of {h.tolist()}"
        assert (depths[p][:k] - want[:k]).abs().le(tol).all(), f"pixel {p}: depths {depths[p][:k]} instead of {want[:k]}"
        assert (o["dep"][p][got[:k]] - depths[p][:k]).abs().le(2 * tol).all(), f"pixel {p}: depths of other spheres"
        assert float(depth_map[p]) == float(depths[p][0]), f"pixel {p}: depth map"
        m = o["m"][p]
        assert abs(float(info[p, 0] - m)) <= 1e-3 + 1e-4 * abs(m) + float(tol) / s.gamma / (s.zmax - s.zmin), f"pixel {p}: sm_m {info[p, 0]} instead of {m}"
        far = o["close"][p][h].max() if len(h) else -1.0
        assert abs(float(info[p, 2] - far)) <= 1e-4 * (1 + abs(float(far))), f"pixel {p}: closest possible hit {info[p, 2]} instead of {far}"


@sub(d(n=ints(1, 6), gamma=one_of((-2.0, 0.0)), B=ints(1, 3), **CASE), quick=120, thorough=3000, shards=2)
def relations(case, cx):
    """Batches, orders, capacities, omitted arguments and spheres that cannot matter."""
    s = Scene(case)
    r = s.r
    args = [t32(s.pos), t32(s.col), t32(s.rad), s.params()]
    kw = s.kwargs()
    ren = s.renderer(n=s.n + 4)
    first = ren(*args, **kw)
    im = first.clone()
    cx.trivial(s.n < 2 and case["B"] < 2)
    equal(ren(*args, **kw), im, "rendered again")
    equal(s.renderer(n=s.n)(*args, **kw), im, "another capacity")
    # the order of the spheres decides on the roundings of exp only
    tol = exp_bound(expected(s), torch.tensor(s.col)[None], torch.tensor(s.bg), s.gamma, s.zmax - s.zmin).reshape(im.shape).float() + 1e-4

    def near(a, b, what, tol=tol):
        e = ((a - b).abs() - 2 * tol).max()
        assert e <= 0, f"{what}: differs by {e:.4g} more than the roundings"

    k = torch.from_numpy(r.permutation(s.n))
    kk = dict(kw)
    if "opacity" in kk:
        kk["opacity"] = kk["opacity"][k]
    near(ren(args[0][k], args[1][k], args[2][k], args[3], **kk), im, "permuted spheres")
    equal(ren(*args, **{**kw, "bg_col": t32(s.bg), "opacity": t32(s.opy)}), im, "defaults given")
    equal(ren(*args, **{**kw, "max_n_hits": s.n + 1}), im, "max_n_hits")
    # a sphere behind the camera, before the near and behind the far depth, and one without opacity
    far = s.eye + s.z * (s.zmax + 3)
    back = s.eye - s.z * 4
    nearp = s.eye + s.z * (s.zmin + 0.2)
    extra = [(far, 0.5, 1.0), (back, 0.5, 1.0), (nearp, 0.4, 1.0), (s.pos[0], s.rad[0], 0.0)]
    pick = [extra[i] for i in r.permutation(4)[: int(r.integers(1, 5))]]
    a2 = [torch.cat([args[0], t32([e[0] for e in pick])]), torch.cat([args[1], torch.rand(len(pick), s.C)]),
          torch.cat([args[2], t32([e[1] for e in pick])]), args[3]]
    near(ren(*a2, **{**kw, "opacity": torch.cat([t32(s.opy), t32([e[2] for e in pick])])}), im, "spheres that cannot be seen")
    # a batch of cameras and spheres
    others = [Scene({**case, "seed": case["seed"] + 1 + i}) for i in range(case["B"] - 1)]
    for q in others:
        q.gamma, q.zmin, q.zmax, q.bg = s.gamma, s.zmin, s.zmax, s.bg
    if all(q.f < s.zmin - 0.05 for q in others):
        al = [s] + others
        kb = dict(kw)
        if "opacity" in kb:
            kb["opacity"] = torch.stack([t32(q.opy) for q in al])
        b = [torch.stack([t32(getattr(q, a)) for q in al]) for a in ("pos", "col", "rad")] + [torch.stack([q.params() for q in al])]
        leaf = [x.clone().requires_grad_(True) for x in b]
        if "opacity" in kb:
            leaf.append(kb["opacity"].clone().requires_grad_(True))
        got, info = ren(*leaf[:4], return_forward_info=True, **{**kb, **({"opacity": leaf[4]} if len(leaf) > 4 else {})})
        up = t32(r.standard_normal(got.shape))
        got_g = torch.autograd.grad((got * up).sum(), leaf)
        for i, q in enumerate(al):
            one = dict(kw)
            if "opacity" in one:
                one["opacity"] = t32(q.opy)
            want, winfo = ren(t32(q.pos), t32(q.col), t32(q.rad), q.params(), return_forward_info=True, **one)
            equal(got[i], want, f"element {i} of a batch")
            assert torch.equal(info[i].view(torch.int32), winfo.view(torch.int32)), f"information {i} of a batch"
            single = [x[i].detach().clone().requires_grad_(True) for x in leaf]
            want = ren(*single[:4], **{**one, **({"opacity": single[4]} if len(leaf) > 4 else {})})
            want_g = torch.autograd.grad((want * up[i]).sum(), single)
            for name, x, y in zip(("position", "colour", "radius", "camera", "opacity"), got_g, want_g):
                close(x[i], y, 1e-6, 1e-5, f"gradient of the {name} of element {i} of a batch")
    equal(first, im, "an image after further renderings")


@sub(d(n=ints(60, 500), gamma=one_of((-2.0, 0.0), (-3.0, -1.0)), pad=one_of(1e-5, 1e-4, 1e-3), **{**CASE, "W": ints(2, 5), "H": ints(2, 5),
     "size": one_of("large", "any")}), quick=60, thorough=1500, shards=2)
def many(case, cx):
    """More spheres than the buffer of a pixel holds; stopping early changes the colours by less than was allowed."""
    s = Scene(case)
    args = (t32(s.pos), t32(s.col), t32(s.rad), s.params())
    ren = s.renderer()
    im = ren(*args, **s.kwargs())
    o = best(s, im)
    n = o["hit"].sum(-1)
    cx.trivial(int(n.max()) < 3)
    cx.label(bool(n.max() > 64))
    p = case["pad"]
    early = ren(*args, **s.kwargs(percent_allowed_difference=p))
    tol = 2 * exp_bound(o, torch.tensor(s.col)[None], torch.tensor(s.bg), s.gamma, s.zmax - s.zmin) + 1e-4 + 1.5 * p * n[:, None]
    e = ((early - im).abs().reshape(-1, s.C) - tol)[clear(o)]
    assert not e.numel() or e.max() <= 0, f"stopping early: the colour differs by {float(e.max()):.4g} more than allowed"


@sub(d(n=ints(1, 4), gamma=one_of((-1.0, 0.0)), n_track=ints(1, 5), **{**CASE, "W": ints(4, 14), "H": ints(4, 14),
     "size": one_of("large", "any", "mixed")}), quick=160, thorough=4000, shards=4)
def gradients(case, cx):
    """The gradients of the spheres."""
    _gradients(case, cx)


@sub(d(n=ints(1, 1), gamma=one_of((-1.0, 0.0)), n_track=ints(1, 1), **{**CASE, "W": ints(6, 14), "H": ints(6, 14), "size": one_of("seen"),
     "six": one_of(True)}), quick=100, thorough=3000, shards=2)
def camera_gradients(case, cx):
    """The gradient of the camera which sees a sphere."""
    _gradients(case, cx)
    cx.trivial("camera direction" not in cx.labels)


def _gradients(case, cx):
    s = Scene(case)
    nt = case["n_track"]
    ren = s.renderer(n_track=nt)
    leaf = [t32(a).requires_grad_(True) for a in (s.pos, s.col, s.rad, s.opy)] + [s.params().requires_grad_(True)]
    im = ren(*leaf[:3], leaf[4], **s.kwargs(opacity=leaf[3]))
    up = torch.from_numpy(s.r.standard_normal((s.H * s.W, s.C)))
    got = torch.autograd.grad((im * up.reshape(im.shape).float()).sum(), leaf)
    for g, name in zip(got, ("position", "colour", "radius", "opacity", "camera")):
        assert torch.isfinite(g).all(), f"the gradient of the {name} is not finite: {g.tolist()}"
    best(s, im)
    shift = ortho_shift() if s.ortho else (0.0, 0.0)
    P, n = s.H * s.W, s.n
    e, p00, dx, dy = (torch.tensor(a).expand(P, n, 3).clone().requires_grad_(True) for a in s.vectors())
    sph = [torch.tensor(a).expand(P, *a.shape).clone().requires_grad_(True) for a in (s.pos, s.col, s.rad, s.opy)]
    o = trace(*sph, e, p00, dx, dy, torch.tensor(s.z), s.f, s.W, s.H, s.off, s.ortho, s.gamma, s.zmin, s.zmax, torch.tensor(s.bg), s.bgd, shift)
    # a hit more or less changes the averages, and the gradients of the other spheres of the pixel
    fuzzy = o["amb"] | o["edge"]
    sure_sphere = ~((fuzzy | o["hit"]) & fuzzy.any(-1, keepdim=True)).any(0)
    grads = torch.autograd.grad((o["im"] * up).sum(), sph + [e, p00, dx, dy])
    with torch.no_grad():
        dep = torch.where(o["hit"], o["dep"], torch.inf)
        rank = dep.argsort(-1).argsort(-1)
        tracked = o["hit"] & (rank < nt)
        srt = dep.sort(-1).values
        if nt < n:  # nearly the same depth at the last place
            gap = (srt[:, nt] - srt[:, nt - 1]).abs()
            bad = torch.isfinite(gap) & (gap < 1e-3)
            if bad.any():
                cx.trivial(True)
                return
        cnt = tracked.sum(0)
        near = ((o["cw"] / torch.tensor(s.rad)[None]) > 0.97) | (o["cw"] < 1e-3)  # where the derivative of the depth grows, or jumps
        grid = o["hit"].reshape(s.H, s.W, n)
        # spheres of less than three pixels get no gradients for their position and radius; the shift can take a pixel off
        span = torch.minimum(grid.any(0).sum(0), grid.any(1).sum(0)) - (3 if not s.ortho else 4)
        tests = 0
        for k, name in enumerate(("position", "colour", "radius", "opacity")):
            g = grads[k] * tracked.reshape(P, n, *[1] * (grads[k].ndim - 2))
            c = cnt.clamp(min=1).reshape(n, *[1] * (g.ndim - 2))
            want, size = g.sum(0) / c, g.abs().sum(0) / c
            if g.ndim == 3:
                size = size.max(-1, keepdim=True).values.expand_as(size)
            for i in range(n):
                if not sure_sphere[i] or (cnt[i] and name in ("position", "radius") and
                                          (span[i] < 0 or (o["proj"][:, i].min() < 2.1) or (near[:, i] & tracked[:, i]).any())):
                    continue
                tests += int(cnt[i] > 0)
                bad = (got[k][i].to(D) - want[i]).abs() - (0.4 * size[i] + 1e-4)
                assert bad.max() <= 0, (f"gradient of the {name} of sphere {i}: {got[k][i].tolist()} instead of {want[i].tolist()} "
                                        f"(average of {int(cnt[i])} pixels)")
        cx.trivial(tests == 0)
        # the camera: the gradients of the seen spheres are weighted by their area; one sphere alone gives their direction
        if n == 1 and sure_sphere[0] and span[0] >= 0 and o["proj"].min() > 2.1 and not (near & tracked).any():
            par = torch.cat([torch.tensor(s.eye), torch.tensor(s.R[:2].reshape(-1)), torch.tensor([s.f, s.sw])]).to(D)
            flow = [(g * tracked[..., None]).sum((0, 1)) for g in grads[4:]]
            cx.label("camera")
            # by central differences of the vectors of the camera
            def vec(p):
                a1, a2 = p[3:6], p[6:9]
                b1 = a1 / a1.norm()
                b2 = a2 - (b1 * a2).sum() * b1
                b2 = b2 / b2.norm()
                R = torch.stack([b1, b2, torch.linalg.cross(b1, b2)])
                x, y, z = R[:, 0], -R[:, 1], R[:, 2] * (-1 if s.rh else 1)
                px = p[10] / s.W
                return torch.cat([p[:3], p[:3] + (0 if s.ortho else p[9]) * z - x * px * (s.W - 1) / 2 - y * px * (s.H - 1) / 2, x * px, y * px])
            with torch.enable_grad():
                par.requires_grad_(True)
                want = torch.autograd.grad((vec(par) * torch.cat(flow)).sum(), par)[0]
            if case["six"]:
                g = got[4][:11].to(D)
                a, b = g, want
                if s.ortho:
                    a, b = torch.cat([g[:9], g[10:]]), torch.cat([want[:9], want[10:]])
                    assert g[9] == 0, "an orthographic camera has no focal length"
                cos = float((a * b).sum() / (a.norm() * b.norm() + 1e-30))
                size = float(sum((x * tracked[..., None]).abs().sum() for x in grads[4:]) + 1e-12)
                if b.norm() > 0.003 * size and size > 1e-4:
                    assert cos > 0.98, f"gradient of the camera {a.tolist()} in another direction than {b.tolist()} (cosine {cos:.3f})"
                    cx.label("camera direction")


def camera_batch(r, kind, N):
    """PyTorch3D cameras with, for each, the tangent (or width) per unit NDC and the principal point."""
    q = r.standard_normal((N, 4))
    R = torch.from_numpy(quat_to_mat_np(q / np.linalg.norm(q, axis=1, keepdims=True))).float()
    T = t32(r.uniform(-1, 1, (N, 3)))
    return R, T


@sub(d(seed=SEED, kind=one_of("fovp", "fovp_rad", "fovo", "persp", "ortho"), N=ints(1, 3), one=boolean(), size=one_of(4, 8, 16), n=ints(1, 6),
       times=ints(1, 2), override=boolean(), pp=boolean()), quick=120, thorough=3000, shards=4)
def cameras(case, cx):
    """PulsarPointsRenderer shows every cloud as its PyTorch3D camera does."""
    r = rng(case["seed"], 26)
    N, W, kind = case["N"], case["size"], case["kind"]
    one = case["one"]
    M = 1 if one else N
    R, T = camera_batch(r, kind, M)
    zn = t32(r.uniform(0.5, 1.2, N if kind in ("persp", "ortho") else M))
    zf = t32(r.uniform(8, 14, N if kind in ("persp", "ortho") else M))
    kw, scale, pp = {}, np.zeros(M), np.zeros((M, 2))
    if kind in ("fovp", "fovp_rad"):
        fov = t32(r.uniform(30, 70, M))
        scale = np.tan(np.radians(fov.double().numpy()) / 2)
        cam = FoVPerspectiveCameras(R=R, T=T, znear=zn, zfar=zf, fov=fov if kind == "fovp" else torch.deg2rad(fov), degrees=kind == "fovp")
    elif kind == "fovo":
        mx = t32(r.uniform(1, 3, M))
        scale = mx.double().numpy()
        cam = FoVOrthographicCameras(R=R, T=T, znear=zn, zfar=zf, max_x=mx, min_x=-mx, max_y=mx, min_y=-mx)
    else:
        fl_ = t32(r.uniform(1.5, 3, (M, 1)) if kind == "persp" else r.uniform(0.3, 0.8, (M, 1)))
        scale = 1 / fl_.double().numpy()[:, 0]
        if case["pp"]:
            pp = r.integers(-2, 3, (M, 2)) * 2.0 / W
        cam = (PerspectiveCameras if kind == "persp" else OrthographicCameras)(
            R=R, T=T, focal_length=fl_ if r.random() < 0.5 else fl_.expand(M, 2).clone(), principal_point=t32(pp))
        kw = dict(znear=zn, zfar=zf)
    ortho = kind in ("fovo", "ortho")
    n = case["n"]
    gamma = 10 ** r.uniform(-3, 0, N)
    pos, col, rad = [], [], r.uniform(0.1, 0.9, n).astype(np.float32)
    eff = [0] * N if one else list(range(N))
    for i in range(N):
        j = eff[i]
        depth = r.uniform(2.5, 6.5, n)
        k = 1.0 if ortho else depth
        v = np.stack([(r.uniform(-1, 1, n) - pp[j, 0] * (0 if ortho else 0)) * scale[j] * k, r.uniform(-1, 1, n) * scale[j] * k, depth], -1)
        Rj, Tj = R[j].double().numpy(), T[j].double().numpy()
        pos.append(t32((v - Tj) @ Rj.T))
        col.append(t32(r.uniform(0, 1, (n, 3))))
    bg = None if r.random() < 0.5 else t32(r.uniform(0, 1, 3))
    ras = PointsRasterizer(cameras=cam, raster_settings=PointsRasterizationSettings(image_size=W if r.random() < 0.5 else (W, W), radius=t32(rad)))
    ren = PulsarPointsRenderer(rasterizer=ras, n_channels=3, max_num_spheres=n + 3)
    call = dict(gamma=tuple(gamma.tolist()), radius_world=True, percent_allowed_difference=0.0, **kw)
    if bg is not None:
        call["bg_col"] = bg
    if case["override"]:
        # the extrinsics given with the call
        R2, T2 = cam.R.clone(), cam.T.clone()
        cam.R, cam.T = torch.eye(3)[None].repeat(M, 1, 1), torch.zeros(M, 3)
        if one and N > 1:
            R2, T2 = R2.expand(N, 3, 3), T2.expand(N, 3)
        call.update(R=R2, T=T2)
    before = {k: v.clone() for k, v in vars(cam).items() if torch.is_tensor(v)}
    for _ in range(case["times"]):
        im = ren(Pointclouds(points=pos, features=col), **call)
    for k, v in before.items():
        equal(getattr(cam, k), v, f"rendering changed {k} of the cameras")
    assert im.shape == (N, W, W, 3)
    seen = 0
    for i in range(N):
        j = eff[i]
        Rj, Tj = R[j].double().numpy(), T[j].double().numpy()
        s = Scene.__new__(Scene)
        s.W = s.H = W
        s.ortho, s.n, s.C = ortho, n, 3
        s.eye = -Tj @ Rj.T
        ax = Rj.T  # rows: the camera's axes in the world
        s.z = ax[2]
        s.f = 0.0 if ortho else 1.0
        s.px = 2 * scale[j] / W
        s.x, s.y = -ax[0], -ax[1]
        s.off = pp[j] * W / 2  # NDC points to the left and up
        s.pos, s.col, s.rad, s.opy = (a.double().numpy() for a in (pos[i], col[i], t32(rad), torch.ones(n)))
        zi = i if kind in ("persp", "ortho") else j
        s.gamma, s.zmin, s.zmax, s.bgd = gamma[i], float(zn[zi]), float(zf[zi]), 1e-6
        s.bg = np.zeros(3) if bg is None else bg.double().numpy()
        h = ortho_shift()
        o = expected(s, (h[0], -h[1]) if ortho else (0.0, 0.0))  # the rows are turned
        e = off_by(s, o, im[i])
        assert not e.numel() or e.max() <= 0, f"image {i} of {N}: differs by {float(e.max()):.4g} from the view of camera {j}"
        seen += int(o["hit"].any())
    cx.trivial(not seen)
    cx.label(kind)
