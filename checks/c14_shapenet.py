"""C14: ShapeNet and R2N2 items are the stored models, seen as their metadata says."""
import contextlib
import io
import json
import os
import shutil
import tempfile
import warnings

import numpy as np
import torch
from PIL import Image

from pytorch3d.datasets import R2N2, BlenderCamera, ShapeNetCore, collate_batched_meshes, collate_batched_R2N2, render_cubified_voxels
from pytorch3d.datasets.r2n2 import utils as ru
from pytorch3d.ops import cubify
from pytorch3d.renderer import (FoVPerspectiveCameras, HardFlatShader, HardPhongShader, MeshRasterizer, MeshRenderer, PerspectiveCameras,
                                PointLights, RasterizationSettings, TexturesAtlas, TexturesVertex)
from pytorch3d.structures import Meshes
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, rng

PROP = "C14"
RULE = ("Directory trees of ShapeNetCore (both versions) and R2N2 with 1-4 categories of 0-4 models, some with missing files, unknown "
        "folders, textures and unequal views; binvox files of random run lengths. Oracle: what was written, the viewing equations in "
        "float64 and separate renderings. Non-trivial: more than one model (or a voxel on each side of a border).")

LABELS = {}


def labels(name):
    if name not in LABELS:
        import pytorch3d.datasets.r2n2 as a
        import pytorch3d.datasets.shapenet as b
        p = {"r": (a, "r2n2_synset_dict.json"), 1: (b, "shapenet_synset_dict_v1.json"), 2: (b, "shapenet_synset_dict_v2.json")}[name]
        with open(os.path.join(os.path.dirname(p[0].__file__), p[1])) as f:
            LABELS[name] = json.load(f)
    return LABELS[name]


class Tree:
    """A temporary directory."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vf_shapenet_")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir)

    def path(self, *parts):
        p = os.path.join(self.dir, *parts)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def write(self, data, *parts):
        with open(self.path(*parts), "wb" if isinstance(data, bytes) else "w") as f:
            f.write(data)


def write_model(t, r, at, name="model.obj", textured=True):
    """A small closed-ish mesh as an OBJ, some with materials; returns vertices, faces, the colours of the faces (or None)."""
    V, F = int(r.integers(4, 8)), int(r.integers(1, 6))
    v = np.round(r.uniform(-0.4, 0.4, (V, 3)), 4)
    f = np.stack([r.permutation(V)[:3] for _ in range(F)])
    col = None
    out = ""
    if textured and r.random() < 0.6:
        k = int(r.integers(1, 4))
        kd = np.round(r.uniform(0, 1, (k, 3)), 3)
        use = r.integers(0, k, F)
        use.sort()
        col = kd[use]
        t.write("".join(f"newmtl m{i}\nKd {a} {b} {c}\n" for i, (a, b, c) in enumerate(kd)), *at, *name.split("/")[:-1], "model.mtl")
        out += "mtllib model.mtl\n"
    out += "".join("v %.4f %.4f %.4f\n" % tuple(p) for p in v)
    # load_obj takes the coordinates of a texture atlas from the file
    for i, tri in enumerate(f):
        if col is not None and (i == 0 or use[i] != use[i - 1]):
            out += f"usemtl m{use[i]}\n"
        out += "f %d %d %d\n" % tuple(tri + 1)
    t.write(out, *at, *name.split("/"))
    return v.astype(np.float32), f, col


def check_item(item, v, f, col, res, load):
    equal(item["verts"], torch.tensor(v), "vertices")
    equal(item["faces"], torch.tensor(f), "faces")
    if not load:
        assert item["textures"] is None, "textures although none were asked for"
        return
    tex = item["textures"]
    assert tex.shape == (len(f), res, res, 3)
    want = np.ones((len(f), 3)) if col is None else col
    close(tex, torch.tensor(want)[:, None, None].expand(len(f), res, res, 3), 1e-6, 1e-6, "texture")


def quiet():
    w = warnings.catch_warnings()
    return w


class Rec:
    """Notes which items were asked for."""

    def __getitem__(self, i):
        self.seen.append(i[0] if isinstance(i, tuple) else i)
        return super().__getitem__(i)


class RecCore(Rec, ShapeNetCore):
    seen = None


SMALL = dict(raster_settings=RasterizationSettings(image_size=8, bin_size=0))


@sub(d(seed=SEED, version=one_of(1, 2), cats=ints(1, 4), load=boolean(), res=ints(1, 4), synsets=one_of("all", "all", "labels", "mixed", "some")),
     quick=60, thorough=1500, shards=2)
def shapenet(case, cx):
    r = rng(case["seed"], 14)
    ver, load, res = case["version"], case["load"], case["res"]
    lab = labels(ver)
    inv = {v: k for k, v in lab.items()}
    # several offsets can share a label
    unique = [k for k, v in lab.items() if inv[v] == k]
    name = "model.obj" if ver == 1 else "models/model_normalized.obj"
    with Tree() as t, contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        cats = [unique[i] for i in r.permutation(len(unique))[: case["cats"]]]
        want, missing = {}, set()
        for c in cats:
            want[c] = {}
            os.makedirs(t.path(c, "x")[:-2], exist_ok=True)
            for k in range(int(r.integers(0, 5))):
                mid = f"m{r.integers(10**6)}_{k}"
                if r.random() < 0.2:
                    t.write("nothing", c, mid, "other.txt")
                    missing.add(mid)
                else:
                    want[c][mid] = write_model(t, r, (c, mid), name)
        if r.random() < 0.5:
            write_model(t, r, ("99999999", "m"), name)  # not in the mapping
        t.write("hello", "readme.txt")
        given, kept = None, set(cats)
        if case["synsets"] != "all":
            pick = [c for c in cats if r.random() < 0.7] if case["synsets"] == "some" else list(cats)
            kept = set(pick)
            given = [lab[c] if case["synsets"] == "labels" or r.random() < 0.5 else c for c in pick]
            if r.random() < 0.4:
                given.append("no such category")
            if r.random() < 0.4:
                given.append(next(u for u in unique if u not in cats))
        ds = RecCore(t.dir, synsets=given, version=ver, load_textures=load, texture_resolution=res)
        ds.seen = []
        full = [(c, m) for c in kept for m in want[c]]
        assert len(ds) == len(full), f"{len(ds)} models instead of {len(full)}"
        assert sorted(zip(ds.synset_ids, ds.model_ids)) == sorted(full), "other models"
        assert ds.synset_inv == {lab[c]: c for c in kept}, f"categories {ds.synset_inv}"
        text = " ".join(str(w.message) for w in caught)
        if given:
            assert all((g in text) == True for g in given if g == "no such category"), "an unknown category passes silently"
        for c in kept:
            s, k = ds.synset_start_idxs[c], ds.synset_num_models[c]
            assert [ds.synset_ids[i] for i in range(s, s + k)] == [c] * len(want[c]), f"category {c} is at other indices"
        items = [ds[i] for i in range(len(ds))]
        for i, it in enumerate(items):
            c, m = it["synset_id"], it["model_id"]
            assert (c, m) == (ds.synset_ids[i], ds.model_ids[i]) and it["label"] == lab[c]
            check_item(it, *want[c][m], res, load)
        cx.trivial(len(items) < 2)
        cx.label("textures" if load else "plain", case["synsets"])
        if not items:
            return
        # collating
        pick = [int(i) for i in r.integers(0, len(items), int(r.integers(1, 4)))]
        got = collate_batched_meshes([items[i] for i in pick])
        assert got["model_id"] == [items[i]["model_id"] for i in pick] and got["label"] == [items[i]["label"] for i in pick]
        assert len(got["mesh"]) == len(pick)
        for j, i in enumerate(pick):
            equal(got["mesh"].verts_list()[j], items[i]["verts"], "vertices of the batch")
            equal(got["mesh"].faces_list()[j], items[i]["faces"], "faces of the batch")
            if load:
                equal(got["mesh"].textures.atlas_list()[j], items[i]["textures"], "textures of the batch")
        if not load:
            assert got["mesh"].textures is None
        bare = collate_batched_meshes([{"label": it["label"]} for it in items])
        assert bare == {"label": [it["label"] for it in items], "mesh": None} and collate_batched_meshes([]) is None
        # which models are rendered
        ds.seen.clear()
        mode = int(r.integers(0, 4))
        how = {}
        if mode == 0:
            how = dict(model_ids=[items[i]["model_id"] for i in pick])
        elif mode == 1:
            how = dict(idxs=pick)
        elif mode == 2:
            some = [c for c in kept if want[c]]
            cs = [some[int(i)] for i in r.integers(0, len(some), int(r.integers(1, 3)))]
            nums = [int(r.integers(1, 5)) for _ in cs] if r.random() < 0.6 else ([int(r.integers(1, 5))] if r.random() < 0.5 else None)
            how = dict(categories=[lab[c] if r.random() < 0.5 else c for c in cs], sample_nums=nums)
        else:
            nums = None if r.random() < 0.3 else [int(r.integers(1, 7))]
            how = dict(sample_nums=nums)
        torch.manual_seed(case["seed"] % 1000)
        lights = PointLights(location=[[0.0, 2.0, -2.0]])
        cams = FoVPerspectiveCameras(T=torch.tensor([[0.0, 0.0, 1.5]]))
        im = ds.render(**how, cameras=cams, lights=lights, shader_type=HardFlatShader, **SMALL)
        seen = list(ds.seen)
        assert im.shape == (len(seen), 8, 8, 4)
        ids = [(ds.synset_ids[i], ds.model_ids[i]) for i in seen]
        if mode < 2:
            assert seen == pick, f"models {seen} instead of {pick} were rendered"
        elif mode == 2:
            nums = nums or [1]
            nums = nums * len(cs) if len(nums) == 1 else nums
            o = 0
            for c, k in zip(cs, nums):
                part = ids[o:o + k]
                assert len(part) == k and all(p[0] == c for p in part), f"{part} for {k} of category {c}"
                assert k > len(want[c]) or len(set(part)) == k, "a model was sampled twice"
                o += k
            assert o == len(ids)
        else:
            k = (nums or [1])[0]
            assert len(ids) == k and (k > len(items) or len(set(ids)) == k), f"{ids} sampled for {k}"
        ren = MeshRenderer(MeshRasterizer(cams, SMALL["raster_settings"]), HardFlatShader(cameras=cams, lights=lights))
        for j, i in enumerate(seen):
            it = items[i]
            tex = TexturesAtlas([it["textures"]]) if load else TexturesVertex(torch.ones_like(it["verts"])[None])
            one = ren(Meshes([it["verts"]], [it["faces"]], tex))
            close(im[j], one[0], 1e-5, 1e-5, f"rendering of model {i}")
        for bad, err in ((dict(model_ids=["nobody"]), ValueError), (dict(categories=["nothing"]), ValueError), (dict(idxs=[len(items)]), IndexError),
                         (dict(idxs=[-1]), IndexError), (dict(categories=list(kept)[:1] * 3, sample_nums=[1, 1]), ValueError)):
            try:
                ds.render(**bad, **SMALL)
            except err:
                continue
            raise AssertionError(f"render accepted {bad}")


def rle(grid, r, order):
    """Runs of the voxels in the order of the format; some runs are split."""
    flat = grid.reshape(-1)
    out = bytearray()
    i = 0
    while i < len(flat):
        j = i
        lim = int(r.integers(1, 256)) if r.random() < 0.2 else 255
        while j < len(flat) and flat[j] == flat[i] and j - i < lim:
            j += 1
        out += bytes([int(flat[i]), j - i])
        i = j
    return bytes(out)


def binvox(grid, r):
    """grid[x, z, y], as in the files."""
    n = grid.shape[0]
    tr = r.uniform(-1, 1, 3)
    return (f"#binvox 1\ndim {n} {n} {n}\ntranslate {tr[0]:.4f} {tr[1]:.4f} {tr[2]:.4f}\nscale {r.uniform(.1, 2):.4f}\ndata\n".encode()
            + rle(grid.astype(np.uint8), r, None))


def grid_of(r, n, fill):
    g = r.random((n, n, n)) < fill
    if r.random() < 0.5:  # long runs
        g = np.zeros((n, n, n), dtype=bool)
        for _ in range(int(r.integers(1, 4))):
            a, b = np.sort(r.integers(0, n + 1, (2, 3)), axis=0)
            g[a[0]:b[0], a[1]:b[1], a[2]:b[2]] = True
    if r.random() < 0.2:
        g[...] = True
    return g


@sub(d(seed=SEED, n=ints(1, 14), fill=one_of(0.02, 0.2, 0.5, 0.9), bad=ints(0, 9), dtype=one_of("float32", "float64", "int64")),
     quick=120, thorough=3000)
def binvox_files(case, cx):
    r = rng(case["seed"], 15)
    g = grid_of(r, case["n"], case["fill"])
    data = binvox(g, r)
    dt = getattr(torch, case["dtype"])
    got = ru.read_binvox_coords(io.BytesIO(data), dtype=dt)
    x, z, y = np.nonzero(g)
    assert got.dtype == dt
    equal(got, torch.tensor(np.stack([x, y, z], -1)).to(dt).reshape(-1, 3), "voxels")
    cx.trivial(not g.any() or g.all())
    lines = data.split(b"\n", 5)
    k = case["bad"]
    if k < 5:
        bad = list(lines)
        bad[k] = [b"#binvox 2", b"dim 3 4 3", b"translate 1 2", b"scale", b"dota"][k]
    elif k < 8:
        bad = list(lines)
        bad[k - 4] = [b"dim 3 3", b"translate a b c", b"size 1"][k - 5]
    else:
        return
    try:
        ru.read_binvox_coords(io.BytesIO(b"\n".join(bad)))
    except ValueError:
        return
    raise AssertionError(f"the header {bad[:5]} was accepted")


def rt64(az, el, dist):
    """The view of the Blender camera, x to the right, y up and looking along -z."""
    a, e = np.radians(az), np.radians(el)
    c = dist * np.array([np.cos(a) * np.cos(e), np.sin(e), np.sin(a) * np.cos(e)])
    back = c / dist
    up = np.array([-np.cos(a) * np.sin(e), np.cos(e), -np.sin(a) * np.sin(e)])
    right = np.cross(up, back)
    R = np.stack([right, up, back])
    M = np.eye(4)
    M[:3, :3], M[:3, 3] = R, -R @ c
    return M


BLENDER = np.array([[2.1875, 0, 0, 0], [0, 2.1875, 0, 0], [0, 0, -1.002002, -0.2002002], [0, 0, -1.0, 0]])


def voxels64(coords, P, V):
    """Filled voxels, and those that roundings could fill or leave."""
    h = np.concatenate([coords, np.ones((len(coords), 1))], 1) @ P.T
    w = np.where(h[:, 3] < 0, -1, 1) * np.maximum(np.abs(h[:, 3]), 0.1)
    p = h[:, :3] / w[:, None]
    p[:, 2] = 2 * (p[:, 2] - 0.67) / (0.92 - 0.67) - 1
    p[:, 0] *= -1
    p = (p + 1) * (V - 1) / 2
    q = np.round(p)
    near = (np.abs(np.abs(p - np.floor(p)) - 0.5) < 2e-3).any(-1)
    ok = ((q >= 0) & (q < V)).all(-1)
    out = np.zeros((V, V, V), dtype=bool)
    fuzzy = np.zeros((V, V, V), dtype=bool)
    qi = q[ok & ~near].astype(int)
    out[qi[:, 2], qi[:, 1], qi[:, 0]] = True
    for s in np.stack(np.meshgrid([-1, 0, 1], [-1, 0, 1], [-1, 0, 1]), -1).reshape(-1, 3):
        f = q[near] + s
        f = f[((f >= 0) & (f < V)).all(-1)].astype(int)
        fuzzy[f[:, 2], f[:, 1], f[:, 0]] = True
    return out, fuzzy


@sub(d(seed=SEED, V=ints(2, 24), N=ints(1, 3)), quick=100, thorough=2500)
def projections(case, cx):
    """Extrinsic matrices, projected vertices, aligned boxes and voxels."""
    r = rng(case["seed"], 16)
    az, el, dist = r.uniform(-360, 360), r.uniform(-89, 89), r.uniform(0.3, 3)
    want = rt64(az, el, dist)
    RT = ru.compute_extrinsic_matrix(az, el, dist)
    close(RT, torch.tensor(want), 2e-6, 2e-6, "extrinsic matrix")
    pts = r.uniform(-0.5, 0.5, (int(r.integers(1, 300)), 3)).astype(np.float32)
    N = case["N"]
    P = (BLENDER[None] @ np.stack([rt64(r.uniform(-180, 180), r.uniform(-60, 60), r.uniform(0.2, 2)) for _ in range(N)])).astype(np.float32)
    b = r.uniform(-0.5, 0.5, (N, 7, 3)).astype(np.float32)
    h = np.concatenate([b, np.ones((N, 7, 1))], -1) @ P.astype(np.float64).transpose(0, 2, 1)
    w = np.where(h[..., 3:] < 0, -1, 1) * np.maximum(np.abs(h[..., 3:]), 0.1)
    before = torch.tensor(b)
    got = ru.project_verts(before, torch.tensor(P))
    equal(before, torch.tensor(b), "the vertices given")
    close(got, torch.tensor(h[..., :3] / w), 1e-4, 1e-4, "projected vertices")
    close(ru.project_verts(torch.tensor(b[0]), torch.tensor(P[0])), got[0], 1e-5, 1e-5, "one mesh")
    tgt = r.uniform(-1, 1, (5, 3)).astype(np.float32)
    src = torch.tensor(np.concatenate([pts, pts + 0.3]))
    al = ru.align_bbox(src, torch.tensor(tgt))
    s64 = src.double().numpy()
    wa = (s64 - s64.min(0)) / (s64.max(0) - s64.min(0)) * (tgt.max(0) - tgt.min(0)).astype(np.float64) + tgt.min(0)
    close(al, torch.tensor(wa), 2e-5, 2e-5, "aligned points")
    p32 = (BLENDER @ rt64(r.uniform(-180, 180), r.uniform(-40, 40), r.uniform(0.6, 1.6))).astype(np.float32)
    vox = ru.voxelize(torch.tensor(pts), torch.tensor(p32), case["V"])
    assert vox.dtype == torch.uint8 and vox.shape == (case["V"],) * 3
    out, fuzzy = voxels64(pts.astype(np.float64), p32.astype(np.float64), case["V"])
    cx.trivial(not out.any())
    g = vox.numpy() > 0
    assert ((g == out) | fuzzy).all(), f"{int(((g != out) & ~fuzzy).sum())} voxels differ"


class RecR2N2(Rec, R2N2):
    seen = None


@sub(d(seed=SEED, cats=ints(1, 3), all_views=boolean(), voxels=one_of(False, False, True), images=one_of(True, True, True, False), load=boolean(),
       res=ints(1, 3), rgba=boolean()), quick=50, thorough=1200, shards=2)
def r2n2(case, cx):
    r = rng(case["seed"], 17)
    lab = labels("r")
    res, load = case["res"], case["load"]
    with Tree() as t, contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cats = [list(lab)[i] for i in r.permutation(len(lab))[: case["cats"]]]
        splits = {s: {} for s in ("train", "val", "test")}
        want = {}
        size = int(r.integers(4, 9))
        os.makedirs(t.path("shapenet", "x")[:-2], exist_ok=True)
        os.makedirs(t.path("r2n2", "x")[:-2], exist_ok=True)
        same = r.random() < 0.5
        for c in cats + (["98765432"] if r.random() < 0.3 else []):
            for s in splits:
                splits[s][c] = {}
            for k in range(int(r.integers(2, 6))):
                mid = f"m{r.integers(10**6)}_{k}"
                split = str(r.choice(["train", "train", "train", "val", "test"]))
                nv = 3 if same else int(r.integers(1, 5))
                views = sorted(int(v) for v in r.permutation(6)[:nv])
                splits[split][c][mid] = views
                if r.random() < 0.15:
                    continue  # not among the meshes
                rec = dict(mesh=write_model(t, r, ("shapenet", c, mid)), views=views, split=split)
                rec["meta"] = np.round(np.stack([r.uniform(0, 360, 6), r.uniform(-20, 60, 6), np.zeros(6), r.uniform(0.5, 1, 6), np.full(6, 25.0)], -1), 4)
                rec["pics"] = r.integers(0, 256, (6, size, size, 4 if case["rgba"] else 3)).astype(np.uint8)
                if case["images"]:
                    t.write("\n".join(" ".join("%.4f" % x for x in row) for row in rec["meta"]) + "\n", "r2n2", "ShapeNetRendering", c, mid, "rendering",
                            "rendering_metadata.txt")
                    for i in range(6):
                        Image.fromarray(rec["pics"][i]).save(t.path("r2n2", "ShapeNetRendering", c, mid, "rendering", "%02d.png" % i))
                if case["voxels"]:
                    g = grid_of(r, 6, 0.4)
                    g[0, 0, 0] = g[-1, -1, -1] = True
                    rec["grid"] = g
                    t.write(binvox(g, r), "r2n2", "vox", c, mid, "model.binvox")
                want[c, mid] = rec
        t.write(json.dumps(splits), "splits.json")
        split = str(r.choice(["train", "train", "train", "val", "test"]))
        torch.manual_seed(case["seed"] % 997)
        ds = RecR2N2(split, t.path("shapenet", "x")[:-2], t.path("r2n2", "x")[:-2], t.path("splits.json"), return_all_views=case["all_views"],
                     return_voxels=case["voxels"] and case["images"], voxels_rel_path="vox", load_textures=load, texture_resolution=res)
        ds.seen = []
        full = [(c, m) for c in cats for m in splits[split][c] if (c, m) in want]
        assert sorted(zip(ds.synset_ids, ds.model_ids)) == sorted(full), "other models"
        present = {c for c in cats if os.path.isdir(os.path.join(t.dir, "shapenet", c))}
        assert ds.synset_inv == {lab[c]: c for c in present}, f"categories {ds.synset_inv}"
        for c in present:
            s, k = ds.synset_start_idxs[c], ds.synset_num_models[c]
            assert k == sum(f[0] == c for f in full) and ds.synset_ids[s:s + k] == [c] * k
        cx.trivial(len(full) < 2)
        cx.label("voxels" if case["voxels"] and case["images"] else "", "images" if case["images"] else "no images")
        items = []
        for i in range(len(ds)):
            rec = want[ds.synset_ids[i], ds.model_ids[i]]
            held = list(ds.views_per_model_list[i])
            assert held == rec["views"] if case["all_views"] else (len(held) == 1 and held[0] in rec["views"]), f"views {held} of {rec['views']}"
            choice = int(r.integers(0, 5))
            views, args = held, (i,)
            if choice == 1:
                views = [held[int(k)] for k in r.integers(0, len(held), int(r.integers(1, 4)))]
                args = (i, views)
            elif choice == 2:
                views = [held[-1]]
                args = (i, held[-1])
            elif choice == 3:
                args = (i, [held[0], 17])  # a view which was not loaded: all are returned
            item = ds[args] if len(args) > 1 else ds[i]
            assert item["synset_id"] == ds.synset_ids[i] and item["model_id"] == ds.model_ids[i] and item["label"] == lab[item["synset_id"]]
            check_item(item, *rec["mesh"], res, load)
            items.append(item)
            if not case["images"]:
                assert item["images"] is None and "R" not in item
                continue
            equal(item["images"], torch.tensor(rec["pics"][views][..., :3] / 255.0).float(), "images")
            K = torch.zeros(4, 4)
            K[0, 0] = K[1, 1] = 2.1875
            K[2, 2], K[2, 3], K[3, 2] = -1.002002, -0.2002002, 1.0
            equal(item["K"], K.expand(len(views), 4, 4), "intrinsics")
            pts = rec["mesh"][0].astype(np.float64)
            cam = BlenderCamera(R=item["R"], T=item["T"], K=item["K"])
            proj = cam.transform_points(torch.tensor(rec["mesh"][0])[None].expand(len(views), -1, -1))
            for j, v in enumerate(views):
                m = rt64(rec["meta"][v][0], rec["meta"][v][1], rec["meta"][v][3] * 1.75)
                e = pts @ m[:3, :3].T + m[:3, 3]  # right, up, backwards
                got = item["verts"].double() @ item["R"][j].double() + item["T"][j].double()
                close(got, torch.tensor(e * [-1, 1, -1]), 5e-6, 5e-6, f"view {v} of the vertices")
                close(proj[j, :, :2], torch.tensor(np.stack([2.1875 * e[:, 0] / e[:, 2], -2.1875 * e[:, 1] / e[:, 2]], -1)), 1e-4, 1e-4,
                      f"projection to view {v}")
            if case["voxels"]:
                x, z, y = np.nonzero(rec["grid"])
                co = np.stack([x, y, z], -1).astype(np.float64)
                lo, hi = pts.min(0), pts.max(0)
                co = co / 5 * (hi - lo) + lo
                assert item["voxels"].shape == (len(views), 128, 128, 128)
                for j, v in enumerate(views):
                    m = rt64(rec["meta"][v][0], rec["meta"][v][1], rec["meta"][v][3] * 1.75)
                    out, fuzzy = voxels64(co, BLENDER @ m, 128)
                    g = item["voxels"][j].numpy() > 0
                    assert ((g == out) | fuzzy).all(), f"view {v}: {int(((g != out) & ~fuzzy).sum())} voxels differ"
        if not items or not case["images"]:
            return
        # batches
        got = collate_batched_R2N2(items)
        equalv = len({len(i["images"]) for i in items}) == 1
        for key in ("images", "R", "T", "K") + (("voxels",) if case["voxels"] else ()):
            assert torch.is_tensor(got[key]) == equalv, f"{key} of {[len(i[key]) for i in items]} views"
            for j, it in enumerate(items):
                equal(got[key][j], it[key], f"{key} of the batch")
        assert len(got["mesh"]) == len(items)
        # every view of the rendered models
        if case["voxels"]:
            return
        ids = [int(k) for k in r.integers(0, len(items), int(r.integers(1, 3)))]
        if len({len(ds.views_per_model_list[k]) for k in ids}) > 1:
            return
        lights = PointLights(location=[[0.5, 1.0, -1.0]])
        ds.seen.clear()
        im = ds.render(idxs=ids, lights=lights, **SMALL)
        o = 0
        for k in ids:
            it = ds[k]
            tex = TexturesAtlas([it["textures"]]) if load else TexturesVertex(torch.ones_like(it["verts"])[None])
            for j in range(len(it["R"])):
                cam = BlenderCamera(R=it["R"][j:j + 1], T=it["T"][j:j + 1], K=it["K"][j:j + 1])
                ren = MeshRenderer(MeshRasterizer(cam, SMALL["raster_settings"]), HardPhongShader(cameras=cam, lights=lights))
                close(im[o], ren(Meshes([it["verts"]], [it["faces"]], tex))[0], 1e-4, 1e-4, f"rendering {o}: view {j} of model {k}")
                o += 1
        assert o == len(im)
        cx.label("rendered")


@sub(d(seed=SEED, N=ints(1, 3), n=ints(2, 5)), quick=25, thorough=500)
def cubified(case, cx):
    """Rendered voxels are the cubified ones in white."""
    r = rng(case["seed"], 18)
    vox = torch.tensor(r.random((case["N"],) + (case["n"],) * 3) * (r.random((case["N"],) + (case["n"],) * 3) < 0.4)).float()
    vox[:, 0, 0, 0] = 0.3
    if case["seed"] % 2:
        vox[:, 0, 0, 0] = 0.15
    m = cubify(vox, 0.2)
    cx.trivial(m.isempty())
    if any(len(f) == 0 for f in m.faces_list()):
        return
    m.textures = TexturesVertex([torch.ones_like(v) for v in m.verts_list()])
    lights = PointLights(location=[[0.5, 1.0, -1.0]])
    cam = BlenderCamera()
    ren = MeshRenderer(MeshRasterizer(cam, SMALL["raster_settings"]), HardPhongShader(cameras=cam, lights=lights))
    close(render_cubified_voxels(vox, lights=lights, **SMALL), ren(m), 1e-5, 1e-5, "rendered voxels")
