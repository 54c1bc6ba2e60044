"""C36: the NeRF project renders whole images by the NeRF equations, however they are cut into chunks."""
import contextlib
import io
import math
import os
import pickle
import shutil
import sys
import tempfile
import warnings

import numpy as np
import torch
from PIL import Image

import pytorch3d
from pytorch3d.renderer import PerspectiveCameras, RayBundle
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, quat_to_mat_np, rng

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(pytorch3d.__file__)), "projects", "nerf"))
from nerf import dataset as nd  # noqa: E402
from nerf.eval_video_utils import generate_eval_video_cameras  # noqa: E402
from nerf.implicit_function import NeuralRadianceField  # noqa: E402
from nerf.nerf_renderer import RadianceFieldRenderer  # noqa: E402
from nerf.raymarcher import EmissionAbsorptionNeRFRaymarcher  # noqa: E402
from nerf.raysampler import NeRFRaysampler, ProbabilisticRaysampler  # noqa: E402
from nerf.stats import Stats  # noqa: E402

PROP = "C36"
RULE = ("Random cameras, images of 1-9 pixels a side, chunks of every size, small random fields, datasets written to a temporary folder "
        "and histories of statistics. Oracle: the NeRF equations in float64, what was written, and the same image in one chunk. "
        "Non-trivial: more than one chunk, ray or value, as each part says.")


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def camera(r, n=1, spread=1.0):
    q = r.normal(size=(n, 4))
    R = np.stack([quat_to_mat_np(x / np.linalg.norm(x)) for x in q])
    return dict(R=R, T=r.normal(size=(n, 3)) * spread, focal_length=r.uniform(0.8, 3, (n, 2)), principal_point=r.uniform(-0.2, 0.2, (n, 2)))


def cameras(c):
    return PerspectiveCameras(**{k: torch.tensor(v, dtype=torch.float32) for k, v in c.items()})


def rays64(c, i, xy):
    """Origins and unit directions of the rays through NDC locations."""
    f, p = c["focal_length"][i], c["principal_point"][i]
    v = np.concatenate([(xy - p) / f, np.ones(xy.shape[:-1] + (1,))], -1)
    dirs = v @ c["R"][i].T
    org = -c["R"][i] @ c["T"][i]
    return np.broadcast_to(org, dirs.shape), dirs / np.linalg.norm(dirs, axis=-1, keepdims=True)


def grid_xy(h, w):
    """Pixel centres in NDC, row by row."""
    s = min(h, w)
    x = (w - 1 - 2 * np.arange(w)) / s
    y = (h - 1 - 2 * np.arange(h)) / s
    return np.stack(np.broadcast_arrays(x[None], y[:, None]), -1).reshape(-1, 2)


@sub(d(seed=SEED, h=ints(1, 9), w=ints(1, 9), n=ints(1, 6), chunk=ints(1, 90), rays=ints(1, 40), strat=boolean(), strat_test=boolean()),
     quick=120, thorough=4000)
def rays(case, cx):
    r = rng(case["seed"], 36)
    h, w, n, chunk = case["h"], case["w"], case["n"], case["chunk"]
    lo = r.uniform(0.1, 1)
    hi = lo + r.uniform(0.5, 3)
    s = NeRFRaysampler(n, lo, hi, case["rays"], w, h, stratified=case["strat"], stratified_test=case["strat_test"])
    c = camera(r, 3)
    cams = cameras(c)
    xy = grid_xy(h, w)
    z = np.linspace(lo, hi, n)
    mids = 0.5 * (z[1:] + z[:-1])
    up, down = np.concatenate([mids, z[-1:]]), np.concatenate([z[:1], mids])
    with quiet():
        s.eval()
        s.precache_rays([cams[0], cams[1]], ["a", "b"])
        try:
            s.precache_rays([cams[2]], ["b"])
            raise AssertionError("two cameras of the same name were cached")
        except ValueError:
            pass

    def check(b, idx, xys, what, strat):
        o, dr = rays64(c, idx, xys)
        close(b.xys, torch.tensor(xys), 1e-5, 1e-5, what + ": locations")
        close(b.origins, torch.tensor(o), 1e-4, 1e-4, what + ": origins")
        close(b.directions, torch.tensor(dr), 1e-4, 1e-4, what + ": directions")
        assert b.lengths.shape == (len(xys), n)
        if not strat:
            close(b.lengths, torch.tensor(z).expand(len(xys), n), 1e-5, 1e-5, what + ": depths")
        else:
            le = b.lengths.double().numpy()
            assert (le >= down - 1e-5).all() and (le <= up + 1e-5).all(), what + ": a depth is outside of its part of the ray"
            if n > 1 and len(xys) > 3:
                assert len(np.unique(le[:, 0])) > 1, what + ": all rays have the same depths"

    n_chunks = s.get_n_chunks(chunk, 1)
    assert n_chunks == -(-h * w // chunk), f"{n_chunks} chunks of {chunk} rays for {h} x {w}"
    cx.trivial(n_chunks < 2)
    s.eval()
    for key, idx in ((None, 0), (None, 2), ("a", 0), ("b", 1)):
        got = [s(cams[idx], chunksize=chunk, chunk_idx=k, camera_hash=key) for k in range(n_chunks)]
        assert all(len(g.lengths) == 1 and g.lengths.shape[1] <= chunk for g in got), "a chunk is too large"
        whole = RayBundle(*[torch.cat([g[k] for g in got], 1)[0] for k in range(4)])
        check(whole, idx, xy, f"the image in {n_chunks} chunks of camera {idx}", case["strat_test"])
    s.train()
    rows = {tuple(np.round(p, 4)): i for i, p in enumerate(xy)}
    for _ in range(2):
        g = s(cams[1], camera_hash="b", chunksize=chunk)
        k = min(case["rays"], h * w)
        assert g.xys.shape == (1, k, 2), f"{g.xys.shape} for {k} rays"
        pix = [min(range(len(xy)), key=lambda i: np.abs(xy[i] - p).max()) for p in g.xys[0].double().numpy()]
        assert len(set(pix)) == k, "a ray was taken twice"
        check(RayBundle(*[v[0] for v in g]), 1, xy[pix], "cached rays", case["strat"])
    g = s(cams)
    assert g.xys.shape == (3, case["rays"], 2) and (g.xys.abs() <= 1).all()
    for i in range(3):
        check(RayBundle(*[v[i] for v in g]), i, g.xys[i].double().numpy(), "random rays", case["strat"])
    assert case["rays"] < 3 or len(np.unique(g.xys.numpy())) > 2, "the random rays are the same"
    for bad in ("nobody",):
        try:
            s(cams[0], camera_hash=bad)
            raise AssertionError("rays of an unknown camera")
        except KeyError:
            pass


def icdf64(mids, w, u):
    """Locations where the piecewise constant density w over the bins reaches the mass u."""
    cum = np.concatenate([[0], np.cumsum(w)])
    out = []
    for x in u:
        m = x * (cum[-1] + 1e-5)
        i = min(max(np.searchsorted(cum, m, side="left") - 1, 0), len(w) - 1)
        t = 1 if m - cum[i] > w[i] else (max(m - cum[i], 0) / w[i] if w[i] > 1e-5 else 0)
        out.append(mids[i] + t * (mids[i + 1] - mids[i]))
    return np.array(out)


@sub(d(seed=SEED, n=ints(3, 10), m=ints(1, 12), rays=ints(1, 5), batch=ints(1, 3), add=boolean(), strat=boolean(), train=boolean(), sharp=boolean()),
     quick=120, thorough=4000)
def fine_rays(case, cx):
    r = rng(case["seed"], 37)
    n, m = case["n"], case["m"]
    sh = (case["batch"], case["rays"])
    z = np.sort(r.uniform(0.2, 3, sh + (n,)), -1) + 0.02 * np.arange(n)
    w = r.random(sh + (n,)) ** (8 if case["sharp"] else 1)
    o, dr = r.normal(size=sh + (3,)), r.normal(size=sh + (3,))
    t = lambda a: torch.tensor(a, dtype=torch.float32)
    zt, wt = t(z).requires_grad_(), t(w).requires_grad_()
    b = RayBundle(t(o), t(dr), zt, t(r.normal(size=sh + (2,))))
    s = ProbabilisticRaysampler(m, case["strat"], not case["strat"], add_input_samples=case["add"])
    s.train(case["train"])
    got = s(b, wt, something=1)
    for k in ("origins", "directions", "xys"):
        equal(getattr(got, k), getattr(b, k), k)
    le = got.lengths.detach().double().numpy()
    assert le.shape == sh + (m + n * case["add"],)
    assert (np.diff(le, axis=-1) >= 0).all(), "the depths are not sorted"
    det = case["strat"] != case["train"]
    cx.trivial(m < 2)
    cx.label("quantiles" if det else "random")
    assert not (got.lengths.requires_grad and not case["add"]), "the new depths have gradients"
    if case["add"]:
        g = torch.autograd.grad(got.lengths.sum(), [zt, wt], allow_unused=True)
        equal(g[0], torch.ones_like(zt), "gradients of the depths")
        assert g[1] is None or not g[1].any(), "gradients of the weights"
    for i in np.ndindex(*sh):
        mids = 0.5 * (z[i][1:] + z[i][:-1])
        new = le[i]
        if case["add"]:
            j = [int(np.abs(new - x).argmin()) for x in z[i]]
            assert np.abs(new[j] - z[i]).max() < 1e-5, "a depth of the first pass is missing"
            new = np.delete(new, sorted(set(j))) if len(set(j)) == n else None
        if new is None:
            continue
        if det:
            u = np.linspace(0, 1, m)
            want = icdf64(mids, w[i][1:-1], u)
            # near the ends of bins of little mass, roundings of the masses move far
            a, c = icdf64(mids, w[i][1:-1], np.clip(u - 3e-6, 0, 1)), icdf64(mids, w[i][1:-1], np.clip(u + 3e-6, 0, 1))
            got_s, lo, hi = np.sort(new), np.minimum(a, want) - 1e-4, np.maximum(c, want) + 1e-4
            if case["add"]:
                continue_ok = len(got_s) == m
                if not continue_ok:
                    continue
            assert ((got_s >= lo) & (got_s <= hi)).all(), f"quantiles {got_s} instead of {want}"
        else:
            assert (new >= mids[0] - 1e-5).all() and (new <= mids[-1] + 1e-5).all(), "a depth is outside of the weighted part"


def emb64(x, k):
    f = 2.0 ** np.arange(k)
    e = (x[..., None] * f).reshape(x.shape[:-1] + (-1,))
    return np.concatenate([np.sin(e), np.cos(e), x], -1)


class Field:
    """The field in float64 from the weights of the module."""

    def __init__(self, m, cfg):
        self.p = {k: v.detach().double().numpy() for k, v in m.state_dict().items()}
        self.c = cfg

    def lin(self, name, x):
        return x @ self.p[name + ".weight"].T + self.p[name + ".bias"]

    def __call__(self, o, dr, z):
        c = self.c
        pts = o[..., None, :] + dr[..., None, :] * z[..., None]
        e = emb64(pts, c["n_harmonic_functions_xyz"])
        y = e
        for i in range(c["n_layers_xyz"]):
            if i in c["append_xyz"] and i:
                y = np.concatenate([y, e], -1)
            y = np.maximum(self.lin(f"mlp_xyz.mlp.{i}.0", y), 0)
        raw = self.lin("density_layer", y)
        delta = np.concatenate([np.diff(z, axis=-1), np.full(z.shape[:-1] + (1,), 1e10)], -1)[..., None]
        dens = 1 - np.exp(-delta * np.maximum(raw, 0))
        dn = emb64(dr / np.linalg.norm(dr, axis=-1, keepdims=True), c["n_harmonic_functions_dir"])
        h = np.concatenate([self.lin("intermediate_linear", y), np.broadcast_to(dn[..., None, :], y.shape[:-1] + dn.shape[-1:])], -1)
        h = np.maximum(self.lin("color_layer.0", h), 0)
        col = 1 / (1 + np.exp(-self.lin("color_layer.2", h)))
        return dens, col, raw


def march64(dens, col, eps=1e-10):
    d_ = dens[..., 0]
    t = np.concatenate([np.ones_like(d_[..., :1]), np.cumprod(1 + eps - d_, -1)[..., :-1]], -1)
    w = d_ * t
    return (w[..., None] * col).sum(-2), w


def net(r):
    layers = int(r.integers(1, 5))
    return dict(n_harmonic_functions_xyz=int(r.integers(0, 4)), n_harmonic_functions_dir=int(r.integers(0, 4)), n_hidden_neurons_xyz=int(r.integers(2, 12)),
                n_hidden_neurons_dir=int(r.integers(2, 9)), n_layers_xyz=layers, append_xyz=tuple(int(i) for i in range(1, layers) if r.random() < 0.4))


def fuzzy(raw, z):
    """Raw densities so near to zero that the last, endless, interval depends on roundings."""
    return (np.abs(raw[..., -1, 0]) < 1e-5).any(-1)


@sub(d(seed=SEED, shape=one_of([3], [2, 3], [1, 2, 2]), n=ints(1, 6), noise=boolean()), quick=120, thorough=4000)
def fields(case, cx):
    r = rng(case["seed"], 38)
    cfg = net(r)
    torch.manual_seed(case["seed"] % 10007)
    f = NeuralRadianceField(**cfg)
    assert not f.density_layer.bias.any(), "the field begins with a density"
    with torch.no_grad():
        f.density_layer.bias += float(r.uniform(-0.5, 1))
    sh = tuple(case["shape"])
    o, dr = r.normal(size=sh + (3,)), r.normal(size=sh + (3,))
    z = np.sort(r.uniform(0.1, 1.5, sh + (case["n"],)), -1)
    t = lambda a: torch.tensor(a, dtype=torch.float32)
    b = RayBundle(t(o), t(dr), t(z), torch.zeros(sh + (2,)))
    dens, col = f(b)
    wd, wc, raw = Field(f, cfg)(*[x.double().numpy() for x in b[:3]])
    close(dens[..., :-1, :], torch.tensor(wd[..., :-1, :]), 2e-5, 2e-5, "densities")
    sure = np.abs(raw[..., -1, 0]) > 1e-5
    close(dens[..., -1, 0][torch.tensor(sure)], torch.tensor(wd[..., -1, 0][sure]), 2e-5, 2e-5, "the last density")
    close(col, torch.tensor(wc), 2e-5, 2e-5, "colours")
    cx.trivial(case["n"] < 2)
    # marching
    dens = torch.tensor(wd).float()
    feat, wts = EmissionAbsorptionNeRFRaymarcher()(dens, col)
    wf, ww = march64(dens.double().numpy(), col.detach().double().numpy())
    close(feat, torch.tensor(wf), 1e-5, 1e-5, "marched colours")
    close(wts, torch.tensor(ww), 1e-5, 1e-5, "weights")
    if case["noise"]:
        a, b_ = f(b, density_noise_std=10.0), f(b, density_noise_std=10.0)
        equal(a[1], col, "colours with noise on the densities")
        assert ((a[0] >= 0) & (a[0] <= 1)).all()
        assert a[0][..., :-1, :].numel() < 12 or not torch.equal(a[0], b_[0]), "no noise"


@sub(d(seed=SEED, h=ints(2, 6), w=ints(2, 6), square=one_of(True, True, False), n=ints(3, 7), m=ints(1, 6), chunk=ints(1, 40), cached=boolean(),
       noise=boolean()), quick=60, thorough=2000)
def images(case, cx):
    """Whole images, errors, and independence of the chunks."""
    r = rng(case["seed"], 39)
    h, w, n, m = case["h"], case["w"], case["n"], case["m"]
    if case["square"]:
        w = h
    cfg = net(r)
    lo, hi = 0.5, 2.5
    torch.manual_seed(case["seed"] % 10009)

    def model(chunk):
        return RadianceFieldRenderer((h, w), n, m, 5, lo, hi, stratified=True, stratified_test=False, chunk_size_test=chunk,
                                     density_noise_std=0.5 * case["noise"], **cfg)

    a = model(case["chunk"])
    with torch.no_grad():
        for k in ("coarse", "fine"):
            a._implicit_function[k].density_layer.bias += float(r.uniform(0, 1))
    c = camera(r)
    cam = cameras(c)
    image = torch.tensor(r.random((h, w, 3))).float()
    a.eval()
    with torch.no_grad(), quiet():
        if case["cached"]:
            a.precache_rays([cam], ["x"])
        key = "x" if case["cached"] else None
        out, met = a(key, cam, image)
        b = model(10**6)
        b.load_state_dict(a.state_dict())
        b.eval()
        out1, met1 = b(None, cam, image)
        bare, none = a(key, cam, None)
    assert none == {} and bare["rgb_gt"] is None
    cx.trivial(case["chunk"] >= h * w)
    for k in ("rgb_coarse", "rgb_fine"):
        assert out[k].shape == (1, h, w, 3)
        equal(bare[k], out[k], k + " without an image")
    xy = grid_xy(h, w)
    o, dr = rays64(c, 0, xy)
    z = np.broadcast_to(np.linspace(lo, hi, n), (h * w, n))
    fc, ff = (Field(a._implicit_function[k], cfg) for k in ("coarse", "fine"))
    wd, wc, raw = fc(o, dr, z)
    rgb, ww = march64(wd, wc)
    sure = ~(np.abs(raw[..., -1, 0]) < 1e-4)
    close(out["rgb_coarse"][0].view(-1, 3)[torch.tensor(sure)], torch.tensor(rgb[sure]), 2e-4, 2e-4, "coarse image")
    close(out["rgb_coarse"].view(-1, 3)[torch.tensor(sure)], out1["rgb_coarse"].view(-1, 3)[torch.tensor(sure)], 1e-4, 1e-4, "coarse image in chunks")
    mids = 0.5 * (z[:, 1:] + z[:, :-1])
    u = np.linspace(0, 1, m)
    zs, ok = [], sure.copy()
    for i in range(h * w):
        new = icdf64(mids[i], ww[i][1:-1], u)
        a_, c_ = (icdf64(mids[i], ww[i][1:-1], np.clip(u + s * 3e-5, 0, 1)) for s in (-1, 1))
        ok[i] &= np.abs(c_ - a_).max() < 5e-3
        zs.append(np.sort(np.concatenate([z[i], new])))
    wd, wc, raw = ff(o, dr, np.stack(zs))
    ok &= ~(np.abs(raw[..., -1, 0]) < 2e-2)
    rgb, _ = march64(wd, wc)
    if ok.any():
        close(out["rgb_fine"][0].view(-1, 3)[torch.tensor(ok)], torch.tensor(rgb[ok]), 2e-2, 2e-2, "fine image")
        cx.label("fine")
    # the images to compare with
    if case["square"]:
        close(out["rgb_gt"][0], image, 1e-4, 1e-4, "colours of the given image")
    elif (out["rgb_gt"][0] - image).abs().max() > 1e-3:
        # the known finding is exactly this: the longer side is taken for [-1, 1]
        wrong = torch.nn.functional.grid_sample(image.permute(2, 0, 1)[None], -torch.tensor(xy).float()[None, None], align_corners=False, padding_mode="border")
        close(out["rgb_gt"][0].view(-1, 3), wrong[0, :, 0].t(), 1e-4, 1e-4, "colours of the given oblong image")
        cx.known.append("nerf-oblong-images")
    for k in ("coarse", "fine"):
        mse = ((out["rgb_" + k].double() - out["rgb_gt"].double()) ** 2).mean()
        close(met["mse_" + k], mse, 1e-6, 1e-4, "mse")
        close(met["psnr_" + k], -10 * torch.log10(mse), 1e-3, 1e-4, "psnr")
    # training
    a.train()
    with quiet():
        out, met = a(key, cam, image)
        k = 5 if not case["cached"] else min(5, h * w)
    assert out["rgb_fine"].shape == (1, k, 3) and set(met) == {"mse_coarse", "psnr_coarse", "mse_fine", "psnr_fine"}
    close(met["mse_fine"], ((out["rgb_fine"] - out["rgb_gt"]) ** 2).mean(), 1e-6, 1e-5, "mse in training")
    if case["cached"] and case["square"]:
        have = image.reshape(-1, 3)
        dist = (out["rgb_gt"][0][:, None] - have[None]).abs().amax(-1).amin(-1)
        assert (dist < 1e-4).all(), "a colour is none of the image"


@sub(d(seed=SEED, n=ints(1, 6), scale=one_of(1, 1, 2, 0.5), alpha=boolean(), bad=boolean(), name=one_of("lego", "fern", "pt3logo")), quick=40, thorough=800)
def datasets(case, cx):
    r = rng(case["seed"], 40)
    n = case["n"]
    h, w = 2 * int(r.integers(1, 5)), 2 * int(r.integers(1, 5))
    c = camera(r, n)
    ims = r.integers(0, 256, (n, h, w, 4 if case["alpha"] else 3)).astype(np.uint8)
    perm = [int(i) for i in r.permutation(n)]
    cuts = np.sort(r.integers(0, n + 1, 2))
    split = [perm[: cuts[0]], perm[cuts[0]: cuts[1]], perm[cuts[1]:]]
    root = tempfile.mkdtemp(prefix="vf_nerf_")
    cx.trivial(n < 2)
    try:
        torch.save({"cameras": {k: torch.tensor(v, dtype=torch.float32) for k, v in c.items()}, "split": [torch.tensor(s, dtype=torch.int64) for s in split]},
                   os.path.join(root, case["name"] + ".pth"))
        Image.fromarray(ims.reshape(n * h, w, -1)).save(os.path.join(root, case["name"] + ".png"))
        s = case["scale"]
        size = (int(h * s), int(w * s))
        with quiet():
            sets = nd.get_nerf_datasets(case["name"], size, data_root=root, autodownload=case["bad"])
            if case["bad"]:
                for args in ((case["name"], (size[0] * 3, size[1])), ("elsewhere", size)):
                    try:
                        nd.get_nerf_datasets(*args, data_root=root, autodownload=False)
                    except ValueError:
                        continue
                    raise AssertionError(f"{args} was accepted")
    finally:
        shutil.rmtree(root)
    for got, want in zip(sets, split):
        assert [got[i]["camera_idx"] for i in range(len(got))] == want, "other images in a split"
        for i, k in enumerate(want):
            e = got[i]
            for key, v in c.items():
                equal(getattr(e["camera"], key), torch.tensor(v[k:k + 1], dtype=torch.float32), key)
            x = ims[k][..., :3] / 255.0
            if s == 1:
                close(e["image"], torch.tensor(x), 1e-6, 1e-6, "image")
            elif s == 0.5:
                close(e["image"], torch.tensor(x.reshape(h // 2, 2, w // 2, 2, 3).mean((1, 3))), 1e-5, 1e-5, "image of half the size")
            else:
                assert e["image"].shape == size + (3,)
                # bilinear: corners stay
                close(e["image"][0, 0], torch.tensor(x[0, 0]), 1e-5, 1e-5, "corner of the image")
                close(e["image"][-1, -1], torch.tensor(x[-1, -1]), 1e-5, 1e-5, "corner of the image")


@sub(d(seed=SEED, n=ints(3, 8), k=ints(2, 12), kind=one_of("figure_eight", "trefoil_knot", "figure_eight_knot", "circular"), planar=boolean()),
     quick=100, thorough=3000)
def trajectories(case, cx):
    r = rng(case["seed"], 41)
    n, k, kind = case["n"], case["k"], case["kind"]
    centre = r.normal(size=3)
    eyes = centre + r.normal(size=(n, 3)) * r.uniform(0.5, 2, 3) + r.normal(size=3) * 2
    c = camera(r, n)
    c["T"] = -np.einsum("nji,nj->ni", c["R"], eyes)
    cams = cameras(c)
    data = [{"camera": cams[i]} for i in range(n)]
    up = r.normal(size=3)
    up /= np.linalg.norm(up)
    scale = r.uniform(0.1, 1)
    arg = None if kind == "circular" and case["planar"] else tuple(float(x) for x in up)
    if arg is None:
        return  # look_at_view_transform needs a direction
    got = generate_eval_video_cameras(data, k, kind, float(scale), tuple(float(x) for x in centre), arg)
    assert len(got) == k and [g["camera_idx"] for g in got] == list(range(k)) and all(g["image"] is None for g in got)
    e64 = np.stack([-(g["camera"].R[0].double().numpy() @ g["camera"].T[0].double().numpy()) for g in got])
    mean = eyes.mean(0)
    for g in got:
        cam = g["camera"]
        close(cam.focal_length, torch.tensor(c["focal_length"].mean(0)[None]), 1e-5, 1e-5, "focal length")
        close(cam.principal_point, torch.tensor(c["principal_point"].mean(0)[None]), 1e-5, 1e-5, "principal point")
        v = cam.get_world_to_view_transform().transform_points(torch.tensor(centre).float()[None])[0].double().numpy()
        assert np.abs(v[:2]).max() < 1e-3 * (1 + v[2]) and v[2] > 0, f"the camera does not look at the centre of the scene, which is at {v}"
    if kind == "circular":
        rel = eyes - mean
        flat = rel - (rel @ up)[:, None] * up
        rad = np.linalg.norm(flat, axis=1).mean()
        g = e64 - mean
        sc = 1 + np.abs(eyes).max()
        ev = np.linalg.eigvalsh(flat.T @ flat / n)
        cx.trivial(ev[1] < 1e-3)
        if ev[1] < 1e-3:
            return
        assert np.abs(np.linalg.norm(g, axis=1) - rad).max() < 2e-3 * sc, f"distances {np.linalg.norm(g, axis=1)} instead of {rad}"
        assert np.abs(g @ up).max() < 2e-3 * sc, "the circle is not level"
        if k > 2:
            step = np.einsum("ni,ni->n", g[1:], g[:-1]) / rad**2
            assert np.abs(step - np.cos(2 * np.pi / (k - 1))).max() < 1e-2 * sc / rad, "the steps differ"
        return
    dist = ((eyes - mean) ** 2).sum(1)
    o = np.argsort(dist)
    cx.trivial(dist[o[1]] - dist[o[0]] < 1e-3)
    if dist[o[1]] - dist[o[0]] < 1e-3:
        return
    i = o[0]
    t = 2 * np.pi * np.arange(k) / k
    if kind == "figure_eight":
        p = np.stack([np.cos(t), np.sin(2 * t) / 2, np.sin(t) / 2], -1)
    elif kind == "trefoil_knot":
        p = np.stack([np.sin(t) + 2 * np.sin(2 * t), np.cos(t) - 2 * np.cos(2 * t), -np.sin(3 * t) / 2], -1)
    else:
        p = np.stack([(2 + np.cos(2 * t)) * np.cos(3 * t), (2 + np.cos(2 * t)) * np.sin(3 * t), np.sin(4 * t) / 2], -1)
    p[:, 2] -= p[:, 2].max()
    want = eyes[i] + scale * eyes.std(0, ddof=1).mean() * p @ c["R"][i].T
    assert np.abs(e64 - want).max() < 2e-3 * (1 + np.abs(want).max() + np.abs(eyes).max()), \
        f"the trajectory of {kind} is off by {np.abs(e64 - want).max():.3g}"


@sub(d(seed=SEED, steps=ints(1, 25)), quick=100, thorough=3000)
def statistics(case, cx):
    """Averages over histories of updates, epochs, resets and copies."""
    r = rng(case["seed"], 42)
    names = ["a", "b", "sec/it"]
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = Stats(list(names), epoch=-1)
        epoch, hist, now = -1, {}, {}
        for _ in range(case["steps"]):
            k = r.random()
            if k < 0.2:
                s.new_epoch()
                epoch, now = epoch + 1, {}
            elif k < 0.3:
                s = pickle.loads(pickle.dumps(s))
            elif k < 0.34:
                e = int(r.integers(-1, 3))
                s.hard_reset(epoch=e)
                epoch, hist, now = e, {}, {}
            else:
                which = "train" if r.random() < 0.6 else "val"
                vals = {n: float(np.float32(r.normal())) for n in ("a", "b") if r.random() < 0.8}
                if epoch == -1:
                    epoch, now = 0, {}
                s.update({n: (v if r.random() < 0.5 else torch.tensor(v)) for n, v in vals.items()}, stat_set=which)
                hist.setdefault(which, {})
                for n in ("a", "b"):
                    hist[which].setdefault(n, {})
                    if n in vals:
                        hist[which][n].setdefault(epoch, []).append(vals[n])
                        now.setdefault((which, n), []).append(vals[n])
        for which in hist:
            for n in ("a", "b"):
                m = s.stats[which][n]
                h = hist[which][n]
                got = m.get_epoch_averages()
                if not h:
                    assert got is None
                    continue
                assert len(got) == max(h) + 1, f"{len(got)} epochs of {sorted(h)}"
                for e, g in enumerate(got):
                    if e in h:
                        close(torch.tensor(g), torch.tensor(np.mean(h[e])), 1e-6, 1e-5, f"average of epoch {e}")
                    else:
                        assert math.isnan(g)
                v = now.get((which, n), [])
                assert m.count == len(v)
                if v:
                    close(torch.tensor(m.avg), torch.tensor(np.mean(v)), 1e-6, 1e-5, "running average")
                    close(torch.tensor(m.val), torch.tensor(v[-1]), 1e-6, 1e-6, "last value")
            s.print(stat_set=which)
    cx.trivial(sum(len(v) for w in hist.values() for h in w.values() for v in h.values()) < 3)
    buf = io.StringIO()
    for which in hist:
        with contextlib.redirect_stdout(buf):
            s.print(stat_set=which)
        for n in ("a", "b"):
            v = now.get((which, n), [])
            if v:
                assert f" {n}: {float(np.mean(v)):1.3f} |".replace("-0.000", "0.000") in buf.getvalue().replace("-0.000", "0.000") or \
                    abs(abs(float(np.mean(v)) * 1000 % 1) - 0.5) < 1e-2, "the printed average differs"
