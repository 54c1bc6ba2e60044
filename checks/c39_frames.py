"""C39: frames of the implicitron datasets: loading, cropping, resizing, collation."""
import itertools
import os
import tempfile
import warnings

import numpy as np
import torch
from PIL import Image

from pytorch3d.implicitron.dataset import types
from pytorch3d.implicitron.dataset.frame_data import FrameData, FrameDataBuilder
from pytorch3d.implicitron.dataset.utils import get_bbox_from_mask, is_known_frame, is_train_frame, resize_image
from pytorch3d.implicitron.tools.config import expand_args_fields
from pytorch3d.io import IO
from pytorch3d.renderer import PerspectiveCameras
from pytorch3d.structures import Pointclouds
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng, rot

PROP = "C39"
RULE = ("frames on disk (PNG images with and without alpha, masks, 16-bit depth of the size of the image, half or twice it, depth masks, PLY clouds) with random annotations and "
        "options; chains of up to 3 crops and resizes; batches. Oracle: the arrays that were written, cropped and resampled with NumPy, and the annotated pinhole camera in pixels. "
        "Non-trivial: the frame was cropped or resized.")

expand_args_fields(FrameDataBuilder)


# ---- reference ---------------------------------------------------------------

def bilinear(img, h, w):
    """align_corners=False, scales from the two sizes."""
    C, H, W = img.shape

    def axis(n_in, n_out):
        x = np.maximum((np.arange(n_out) + 0.5) * n_in / n_out - 0.5, 0)
        i = np.minimum(np.floor(x).astype(int), n_in - 1)
        return i, np.minimum(i + 1, n_in - 1), x - i
    y0, y1, fy = axis(H, h)
    x0, x1, fx = axis(W, w)
    fy, fx = fy[:, None], fx[None]
    g = lambda a, b: img[:, a][:, :, b]
    return (1 - fy) * ((1 - fx) * g(y0, x0) + fx * g(y0, x1)) + fy * ((1 - fx) * g(y1, x0) + fx * g(y1, x1))


def nearest(img, h, w):
    C, H, W = img.shape
    return img[:, np.arange(h) * H // h][:, :, np.arange(w) * W // w]


def fitted(H, W, h, w):
    """Sizes of the image resized to fit into h x w."""
    if h * W <= w * H:
        return h, min(w, max(1, int(W * h // H)))
    return min(h, max(1, int(H * w // W))), w


def resized(img, h, w, mode):
    hh, ww = fitted(*img.shape[1:], h, w)
    out = np.zeros((img.shape[0], h, w))
    out[:, :hh, :ww] = (bilinear if mode == "bilinear" else nearest)(img, hh, ww)
    mask = np.zeros((1, h, w))
    mask[:, :hh, :ww] = 1
    return out, mask


@sub(d(seed=SEED, H=ints(1, 60), W=ints(1, 60), h=ints(1, 40), w=ints(1, 40), C=one_of(1, 3), mode=one_of("bilinear", "nearest"), np_=boolean()), quick=300, thorough=40000)
def resizing(case, cx):
    r = rng(case["seed"])
    img = r.random((case["C"], case["H"], case["W"])).astype(np.float32)
    out, scale, mask = resize_image(img if case["np_"] else torch.from_numpy(img), case["h"], case["w"], case["mode"])
    want, wmask = resized(img.astype(float), case["h"], case["w"], case["mode"])
    cx.trivial(want.shape == img.shape)
    assert abs(scale - min(case["h"] / case["H"], case["w"] / case["W"])) < 1e-6, f"scale {scale}"
    equal(mask, wmask, f"mask of {img.shape} resized to {case['h']}x{case['w']}")
    if case["mode"] == "bilinear":
        close(out, want, 1e-4, what="bilinear resize")
    else:
        # positions at the border of two pixels may go either way
        hh, ww = (int(v) for v in wmask[0].sum((0, 1)[:1])[:1].tolist() + [wmask[0].sum(1)[0]])
        ok = None
        for e in (0, 1e-4, -1e-4):
            iy = np.clip(np.floor(np.arange(hh) * case["H"] / hh + e), 0, case["H"] - 1).astype(int)
            ix = np.clip(np.floor(np.arange(ww) * case["W"] / ww + e), 0, case["W"] - 1).astype(int)
            same = np.abs(np.asarray(out)[:, :hh, :ww] - img[:, iy][:, :, ix]) < 1e-6
            ok = same if ok is None else ok | same
        # rows and columns may round separately: compare those that do not
        assert ok.mean() > 0.8 and (np.asarray(out)[:, hh:] == 0).all() and (np.asarray(out)[:, :, ww:] == 0).all(), f"nearest resize: {1 - ok.mean():.2f} of the pixels differ"


# ---- frames on disk ----------------------------------------------------------

def write_depth(path, values):
    bits = values.astype(np.float16).view(np.uint16)
    Image.fromarray(bits).save(path)


class Scene:
    def __init__(self, r, case, root, i, cloud=None):
        self.root = root
        H, W = case["H"], case["W"]
        if case["dsize"] == "half":
            H, W = H + H % 2, W + W % 2
        self.H, self.W = H, W
        name = f"f{i}"
        os.makedirs(os.path.join(root, "images"), exist_ok=True)
        p = lambda *a: os.path.join(root, *a)
        self.alpha = case["alpha"]
        self.img = r.integers(0, 256, (H, W, 4 if case["alpha"] else 3)).astype(np.uint8)
        if case["mask"] == "soft":
            m = r.integers(0, 256, (H, W)) * (r.random((H, W)) < 0.5)
        else:
            m = np.zeros((H, W))
            y0, x0 = int(r.integers(0, H - 2)), int(r.integers(0, W - 2))
            m[y0:y0 + int(r.integers(2, H)), x0:x0 + int(r.integers(2, W))] = 255
            if case["mask"] == "faint":
                m = np.where(m > 0, r.integers(1, 120, (H, W)), 0)
        self.m = m.astype(np.uint8)
        if case["alpha"]:
            self.img[..., 3] = self.m
        Image.fromarray(self.img).save(p("images", name + ".png"))
        self.has_mask = case["mask"] != "none"
        if self.has_mask:
            Image.fromarray(self.m).save(p(name + "_mask.png"))
        s = {"same": 1, "half": 0.5, "twice": 2}[case["dsize"]]
        self.ratio = s
        self.dH, self.dW = int(H * s), int(W * s)
        self.d = r.uniform(0.5, 5, (self.dH, self.dW)).astype(np.float16)
        self.d[r.random(self.d.shape) < 0.2] = 0
        self.d[r.random(self.d.shape) < 0.05] = np.inf
        write_depth(p(name + "_depth.png"), self.d)
        self.dm = r.random(self.d.shape) < 0.7
        Image.fromarray((self.dm * 255).astype(np.uint8)).save(p(name + "_dmask.png"))
        self.adj = float(np.round(r.uniform(0.5, 2), 3))
        R = rot(r).numpy()
        t = r.standard_normal(3) + [0, 0, 4]
        self.f, self.pp = r.uniform(0.8, 3, 2), r.uniform(-0.4, 0.4, 2)
        self.R, self.t = R.astype(np.float32), t.astype(np.float32)
        self.format = case["format"]
        box = None
        if case["box"]:
            w, h = int(r.integers(2, W + 1)), int(r.integers(2, H + 1))
            x, y = int(r.integers(0, W - w + 1)), int(r.integers(0, H - h + 1))
            box = [x, y, w, h] if r.random() < 0.7 else [x + 0.25, y + 0.25, w, h]
            if r.random() < 0.2:
                box[0] -= 2
                box[2] += 4
        self.box = box
        T_ = types
        self.cloud = cloud
        self.ts = float(np.round(r.uniform(0, 9), 3))
        kw = {}
        if case["format"] != "default":
            kw["intrinsics_format"] = case["format"]
        self.ann = T_.FrameAnnotation(
            sequence_name="s", frame_number=i, frame_timestamp=self.ts, image=T_.ImageAnnotation(path=f"images/{name}.png", size=(H, W)),
            depth=T_.DepthAnnotation(f"{name}_depth.png", self.adj, f"{name}_dmask.png" if case["dmask"] else None) if case["depth"] else None,
            mask=T_.MaskAnnotation(f"{name}_mask.png", float(self.m.sum() / 255), None if box is None else tuple(box)) if self.has_mask else None,
            viewpoint=T_.ViewpointAnnotation(R=tuple(map(tuple, R.tolist())), T=tuple(t.tolist()), focal_length=tuple(self.f.tolist()), principal_point=tuple(self.pp.tolist()), **kw)
            if case["cam"] else None)

    def project(self, X):
        """Pixels of world points in the full image."""
        c = X @ self.R.astype(float) + self.t
        ndc = self.f * c[:, :2] / c[:, 2:] + self.pp
        half = np.array([self.W, self.H]) / 2
        s = half if self.format in ("default", "ndc_norm_image_bounds") else half.min()
        return half - ndc * s

    def points(self, r, n=5):
        c = np.concatenate([r.standard_normal((n, 2)), r.uniform(1, 5, (n, 1))], 1)
        return (c - self.t) @ self.R.astype(float).T


def ref_box(m, thr):
    k = thr
    while (m > k).sum() <= 1:
        k -= 0.05
    ys, xs = np.where(m > k)
    return [xs.min(), ys.min(), xs.max() + 1 - xs.min(), ys.max() + 1 - ys.min()]


CASE = dict(seed=SEED, H=one_of(4, 6, 9, 13, 16, 24, 31), W=one_of(4, 7, 8, 12, 17, 24, 30), alpha=boolean(), mask=one_of("soft", "hard", "hard", "faint", "none"), dsize=one_of("same", "same", "half", "twice"), depth=boolean(),
            dmask=boolean(), cam=one_of(True, True, True, False), format=one_of("default", "ndc_isotropic", "ndc_norm_image_bounds"), box=boolean(), crop=boolean(),
            ctx=one_of(0.0, 0.1, 0.3, 1.0), size=one_of(None, None, 1, 2, 3), thr=one_of(0.4, 0.1), cloud=boolean())


def builder(case, root, r, **kw):
    size = None if case["size"] is None else (int(r.integers(4, 40)), int(r.integers(4, 40)))
    o = dict(load_images=True, load_depths=True, load_depth_masks=True, load_masks=True, load_point_clouds=case["cloud"], box_crop=case["crop"], box_crop_context=case["ctx"],
             box_crop_mask_thr=case["thr"], image_height=size and size[0], image_width=size and size[1])
    o.update(kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return FrameDataBuilder(dataset_root=root, **o), size


class Model:
    """Full-precision copies of what a frame shows."""

    def __init__(self, s, b):
        self.s = s
        img = s.img.astype(float) / 255
        self.img = img[..., :3].transpose(2, 0, 1)
        m = None
        if s.has_mask and b.load_masks:
            m = s.m[None] / 255.0
        elif s.alpha and b.load_images:
            m = img[..., 3][None]
        self.mask = m
        if not b.load_images:
            self.img = None
        elif b.mask_images:
            self.img = self.img * m
        self.depth = self.dmask = None
        if s.ann.depth is not None and b.load_depths:
            dd = s.d.astype(np.float32) * s.adj
            dd[~np.isfinite(dd)] = 0
            self.depth = dd[None].astype(float)
            if b.mask_depths:
                self.depth = self.depth * m
            self.dmask = s.dm[None].astype(float) if s.ann.depth.mask_path is not None and b.load_depth_masks else (self.depth > 0).astype(float)
        self.off, self.scale = np.zeros(2), 1.0
        self.size = (s.H, s.W)
        self.depths = [(self.depth, self.dmask)]
        self.valid = None

    def crop(self, box, ctx, got):
        x, y, w, h = (float(v) for v in box)
        x, y, w, h = x - w * ctx / 2, y - h * ctx / 2, w * (1 + ctx), h * (1 + ctx)
        H, W = self.size
        want = np.array([np.clip(x, 0, W), np.clip(y, 0, H), np.clip(x + max(w, 2), 0, W), np.clip(y + max(h, 2), 0, H)])
        g = np.array([got[0], got[1], got[0] + got[2], got[1] + got[3]])
        assert (np.abs(g - want) < 1 + 1e-4).all() and (g == g.round()).all(), f"cropped to {g} instead of {want}"
        x0, y0, x1, y1 = (int(v) for v in g)
        c = lambda a: None if a is None else a[:, y0:y1, x0:x1]
        self.img, self.mask, self.valid = c(self.img), c(self.mask), c(self.valid)
        if self.depth is not None:
            out = []
            for a, m in self.depths:
                sy, sx = a.shape[1] / H, a.shape[2] / W
                for e in itertools.product((np.floor, np.ceil), repeat=4) if (sx, sy) != (1, 1) else [(np.floor,) * 4]:
                    u0, v0, u1, v1 = (int(k(q)) for k, q in zip(e, (x0 * sx, y0 * sy, x1 * sx, y1 * sy)))
                    if v1 > v0 and u1 > u0:
                        out.append((a[:, v0:v1, u0:u1], m[:, v0:v1, u0:u1]))
            self.depths = out
        self.off = self.off + np.array([x0, y0]) / self.scale
        self.size = (y1 - y0, x1 - x0)

    def resize(self, h, w):
        H, W = self.size
        if self.img is not None:
            self.img, valid = resized(self.img, h, w, "bilinear")
            self.valid = valid if self.valid is None else resized(self.valid, h, w, "nearest")[0]
        if self.mask is not None:
            self.mask = resized(self.mask, h, w, "nearest")[0]
        if self.depth is not None:
            self.depths = [tuple(resized(q, h, w, "nearest")[0] for q in p) for p in self.depths]
        self.scale = self.scale * min(h / H, w / W)
        self.size = (h, w)

    def check(self, f, r, what, resized_):
        equal(f.effective_image_size_hw, torch.tensor(self.size), what + ": effective size")
        equal(f.image_size_hw, torch.tensor([self.s.H, self.s.W]), what + ": size")
        for name, want in (("image_rgb", self.img), ("fg_probability", self.mask)):
            got = getattr(f, name)
            assert (got is None) == (want is None), f"{what}: {name} is {got}"
            if want is not None:
                assert tuple(got.shape) == want.shape, f"{what}: {name} of shape {tuple(got.shape)} instead of {want.shape}"
                if name == "image_rgb" or not resized_:
                    close(got, want, 1e-4, what=f"{what}: {name}")
                else:
                    off = np.abs(got.double().numpy() - want) > 1e-5
                    # nearest: whole rows or columns may round the other way
                    keep = ~(off.all(1, keepdims=True) | off.all(2, keepdims=True))
                    assert off.mean() < 0.4, f"{what}: {off.mean():.2f} of the {name} differ"
        if resized_ and self.img is not None:
            equal(f.mask_crop, self.valid, what + ": mask_crop")
        assert (f.depth_map is None) == (self.depth is None), f"{what}: depth map"
        if self.depth is not None:
            if not self.depths:
                return
            g, gm = f.depth_map.double().numpy(), f.depth_mask.double().numpy()
            best = min((np.mean(np.abs(a - g) > 1e-3 * (1 + np.abs(a))) + np.mean(b != gm) for a, b in self.depths if a.shape == g.shape), default=9)
            lim = 0.5 if resized_ else 1e-9
            assert best <= lim, f"{what}: depth map or mask of shape {g.shape} differs from the depth of the crop ({best:.2f}; shapes {sorted({a.shape for a, _ in self.depths})})"
        if f.camera is not None:
            X = self.s.points(r)
            want = (self.s.project(X) - self.off) * self.scale
            got = f.camera.transform_points_screen(torch.from_numpy(X).float()[None], image_size=torch.tensor([self.size]))[0, :, :2]
            close(got, want, 2e-3 * (1 + np.abs(want).max() / 20), 1e-4, what=f"{what}: pixels of world points")
            equal(f.camera.R[0], torch.from_numpy(self.s.R), what + ": R")
            close(f.camera.T[0], self.s.t, 1e-6, what=what + ": T")


def cloud_file(r, root, n):
    pts = r.standard_normal((n, 3)).astype(np.float32)
    IO().save_pointcloud(Pointclouds([torch.from_numpy(pts)]), os.path.join(root, "cloud.ply"))
    return pts


@sub(d(ops=one_of("", "", "c", "cc", "r", "cr", "rc", "crc"), mimg=boolean(), mdepth=boolean(), limg=one_of(True, True, True, False), lmask=one_of(True, True, True, False),
       ldepth=one_of(True, True, False), ldm=one_of(True, True, False), maxp=one_of(0, 0, 3, 100), blobs=one_of(True, True, True, False), **CASE), quick=350, thorough=20000)
def frames(case, cx):
    r = rng(case["seed"])
    torch.manual_seed(case["seed"])
    with tempfile.TemporaryDirectory() as root:
        s = Scene(r, case, root, 7)
        pts = cloud_file(r, root, 9) if case["cloud"] else None
        seq = types.SequenceAnnotation("s", "cat", None, types.PointCloudAnnotation("cloud.ply", 0.25, 9) if case["cloud"] else None, 0.75 if r.random() < 0.5 else None)
        will_mask = (s.has_mask and case["lmask"]) or (s.alpha and case["limg"])
        b, size = builder(case, root, r, mask_images=case["mimg"] and case["limg"] and will_mask, mask_depths=case["mdepth"] and will_mask and case["dsize"] == "same", max_points=case["maxp"],
                          load_images=case["limg"], load_masks=case["lmask"], load_depths=case["ldepth"], load_depth_masks=case["ldm"])
        m = Model(s, b)
        blobs = case["blobs"]
        if not blobs:
            m.img = m.mask = m.depth = None
        box = s.box if s.has_mask else None
        if box is None and m.mask is not None:
            box = ref_box(m.mask[0].astype(np.float32), np.float32(case["thr"]))
        if case["crop"]:
            if box is None:
                cx.trivial()
                raises(lambda: b.build(s.ann, seq, load_blobs=blobs), ValueError, what="cropping without a box")
                return
            if min(box[2:]) * (1 + case["ctx"]) <= 1:
                cx.trivial()
                raises(lambda: b.build(s.ann, seq, load_blobs=blobs), ValueError, what="cropping to nothing")
                return
            if case["dsize"] == "half" and m.depth is not None and min(box[2:]) < 4:
                cx.trivial()
                return
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f = b.build(s.ann, seq, load_blobs=blobs)
        assert type(f) is FrameData and f.sequence_name == "s" and f.sequence_category == "cat"
        assert int(f.frame_number) == 7 and abs(float(f.frame_timestamp) - s.ts) < 1e-5
        assert (f.camera is not None) == case["cam"]
        assert (f.camera_quality_score is None) == (seq.viewpoint_quality_score is None)
        if seq.viewpoint_quality_score is not None:
            assert float(f.camera_quality_score) == 0.75
        for name, p in (("image_path", s.ann.image.path), ("mask_path", s.ann.mask and s.ann.mask.path), ("depth_path", s.ann.depth and s.ann.depth.path),
                        ("sequence_point_cloud_path", seq.point_cloud and seq.point_cloud.path)):
            assert getattr(f, name) == (None if p is None else os.path.join(root, p)), f"{name}: {getattr(f, name)}"
        if case["cloud"]:
            assert float(f.point_cloud_quality_score) == 0.25
            if blobs:
                got = f.sequence_point_cloud.points_packed().numpy()
                n = min(case["maxp"], 9) if case["maxp"] else 9
                assert len(got) == n and len({tuple(q) for q in got.tolist()}) == n, f"{len(got)} points loaded"
                assert all((np.abs(pts - q).max(1) < 1e-5).any() for q in got), "points that are not in the file"
        if box is None:
            assert f.bbox_xywh is None
        else:
            close(f.bbox_xywh, box, 1e-5, what="bounding box")
        rs = False
        if case["crop"]:
            m.crop(box, case["ctx"], f.crop_bbox_xywh.tolist())
        else:
            assert f.crop_bbox_xywh is None
        if size:
            m.resize(*size)
            rs = True
        cx.trivial(not case["crop"] and not size and not case["ops"])
        m.check(f, r, "built", rs)
        if case["crop"] or size:
            raises(lambda: f.crop_by_metadata_bbox_(0.1), ValueError, what="cropping an already changed frame by its metadata")
        for k, op in enumerate(case["ops"]):
            H, W = m.size
            if op == "c":
                lo = 4 if case["dsize"] == "half" and m.depth is not None else 2
                if min(H, W) < lo:
                    return
                w, h = int(r.integers(lo, W + 1)), int(r.integers(lo, H + 1))
                bb = [int(r.integers(0, W - w + 1)), int(r.integers(0, H - h + 1)), w, h]
                c = float(r.choice([0, 0.2]))
                if case["dsize"] == "half" and m.off.any() | (case["crop"] or "c" in case["ops"][:k]):
                    # the halved corners of the first crop were rounded
                    m.depth = f.depth_map = f.depth_mask = None
                f.crop_by_given_bbox_(c, torch.tensor(bb, dtype=torch.long if r.random() < 0.5 else torch.float))
                m.crop(bb, c, f.crop_bbox_xywh.tolist())
                cx.label("crop after resize" if rs else "second crop" if k else "crop")
                if rs and m.depth is not None:
                    m.depth = None
                    f.depth_map = None
            else:
                h, w = (int(v) for v in r.integers(4, 40, 2))
                if r.random() < 0.3:
                    h = H * 2
                f.resize_frame_(torch.tensor([h, w]))
                m.resize(h, w)
                rs = True
            m.check(f, r, f"after {case['ops'][:k + 1]}", rs)
        # access as a mapping, device moves
        g = f.cpu()
        assert g._uncropped == f._uncropped and list(g) == list(f) and len(g) == len(list(f))
        for k in f:
            a, c = f[k], g[k]
            if torch.is_tensor(a):
                equal(a, c, k)
            else:
                assert type(a) is type(c), k
        assert f.image_rgb is None or dict(**f)["image_rgb"] is f.image_rgb


@sub(d(n=ints(1, 4), share=boolean(), drop=boolean(), **CASE), quick=120, thorough=6000)
def batches(case, cx):
    r = rng(case["seed"])
    case = dict(case, size=1, dsize="same", depth=True, cam=True, cloud=True)
    with tempfile.TemporaryDirectory() as root:
        if case["mask"] == "none":
            case = dict(case, crop=False)
        if case["crop"]:
            case = dict(case, box=True)
        scenes = [Scene(r, case, root, i) for i in range(case["n"])]
        for k in ("a", "b"):
            os.makedirs(os.path.join(root, k))
            cloud_file(r, os.path.join(root, k), 6 if k == "a" else 4)
        which = [k for k in r.integers(0, 2, case["n"])]
        seqs = [types.SequenceAnnotation("s%d" % k, "cat%d" % k, None, types.PointCloudAnnotation("ab"[k] + "/cloud.ply", 0.25 + k, 4), 0.5 * k) for k in (0, 1)]
        b, size = builder(case, root, r)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fs = [b.build(s.ann, seqs[k]) for s, k in zip(scenes, which)]
        if case["mask"] == "none" and any(f.fg_probability is None for f in fs) != all(f.fg_probability is None for f in fs):
            return
        types_ = [["train_known", "test_unseen", "unseen", "known"][int(v)] for v in r.integers(0, 4, case["n"])]
        for f, t in zip(fs, types_):
            f.frame_type = t
        if case["drop"]:
            fs[int(r.integers(len(fs)))].frame_timestamp = None
        B = FrameData.collate(fs)
    cx.trivial(case["n"] == 1)
    assert type(B) is FrameData
    for k in ("frame_number", "image_rgb", "mask_crop", "depth_map", "depth_mask", "fg_probability", "bbox_xywh", "crop_bbox_xywh", "image_size_hw", "effective_image_size_hw",
              "camera_quality_score", "point_cloud_quality_score", "frame_timestamp"):
        vs = [getattr(f, k) for f in fs]
        if any(v is None for v in vs):
            assert getattr(B, k) is None, f"{k} of a batch where one frame has none"
        else:
            equal(getattr(B, k), torch.stack(vs), "collated " + k)
    for k in ("sequence_name", "sequence_category", "image_path", "depth_path", "frame_type"):
        assert list(getattr(B, k)) == [getattr(f, k) for f in fs], f"collated {k}: {getattr(B, k)}"
    equal(is_known_frame(B.frame_type), torch.tensor([t.endswith("known") for t in types_]), "known frames")
    equal(is_train_frame(B.frame_type), torch.tensor([t.startswith("train") for t in types_]), "train frames")
    assert isinstance(B.camera, PerspectiveCameras) and len(B.camera) == len(fs)
    for k in ("R", "T", "focal_length", "principal_point"):
        equal(getattr(B.camera, k), torch.cat([getattr(f.camera, k) for f in fs]), "collated cameras: " + k)
    idx = [int(v) for v in B.sequence_point_cloud_idx]
    assert len(B.sequence_point_cloud) == len(set(which)), f"{len(B.sequence_point_cloud)} clouds of {len(set(which))} sequences"
    for i, f in enumerate(fs):
        equal(B.sequence_point_cloud.points_list()[idx[i]], f.sequence_point_cloud.points_list()[0], "cloud of the frame")


@sub(d(seed=SEED, H=ints(2, 12), W=ints(2, 12), kind=one_of("soft", "sparse", "hard", "zero"), thr=one_of(0.9, 0.4, 0.1, 0.0)), quick=150, thorough=8000)
def boxes(case, cx):
    r = rng(case["seed"])
    m = r.random((1, case["H"], case["W"]))
    if case["kind"] == "sparse":
        m = m * (r.random(m.shape) < 0.1)
    elif case["kind"] == "hard":
        m = (m < 0.2) * 1.0
    elif case["kind"] == "zero":
        m = m * 0
    m = m.astype(np.float32)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = get_bbox_from_mask(m.copy(), case["thr"])
    k = case["thr"]
    while (m[0] > k).sum() <= 1:
        k -= 0.05
    ys, xs = np.where(m[0] > k)
    want = (xs.min(), ys.min(), xs.max() + 1 - xs.min(), ys.max() + 1 - ys.min())
    cx.trivial(case["kind"] == "zero")
    assert tuple(got) == want, f"box {tuple(map(int, got))} instead of {tuple(map(int, want))}"
