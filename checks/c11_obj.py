"""C11: OBJ files load as what they say, and saving then loading gives the mesh back."""
import io
import os
import tempfile
import warnings
from pathlib import Path

import numpy as np
import torch
from PIL import Image

from pytorch3d.io import IO, load_obj, load_objs_as_meshes, save_obj
from pytorch3d.renderer import TexturesAtlas, TexturesUV
from pytorch3d.structures import Meshes
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng

PROP = "C11"
RULE = ("Files emitted statement by statement with 0-8 vertices, texture coordinates, normals, polygons of 3-6 corners in every index "
        "form (negative indices included), materials, images, and syntactic noise; random meshes for the round trips. "
        "Oracle: the arrays the emitter kept, a numpy texture lookup for the atlas. Non-trivial: at least one face.")
ERR = (Exception,)


def num(r, x):
    k = int(r.integers(0, 4))
    return ["%r" % float(x), "%.4f" % x, "%e" % x, "%g" % x][k]


def emit(r, nv, nt, nn, nf, neg, mats, noise, form):
    """Returns (text, arrays)."""
    sep = lambda: " " if not noise else str(r.choice([" ", "  ", "\t", " \t"]))
    out, A = [], dict(v=[], vt=[], vn=[], f=[], ft=[], fn=[], fm=[], names=[])
    todo = ["v"] * nv + ["vt"] * nt + ["vn"] * nn
    if r.random() < 0.5:
        r.shuffle(todo)
    todo = list(todo)
    total = dict(v=nv, vt=nt, vn=nn)
    cuts = sorted(int(c) for c in r.integers(0, len(todo) + 1, nf)) if (nv and r.random() < 0.5) else [len(todo)] * nf
    cur = -1
    done = dict(v=0, vt=0, vn=0)

    def line(*parts):
        s = sep().join(parts)
        if noise:
            s = str(r.choice(["", "", " ", "\t"])) + s + str(r.choice(["", "", " ", "\t "]))
        out.append(s)

    def some_noise():
        if noise and r.random() < 0.4:
            out.append(str(r.choice(["", "# comment v 1 2 3", "#f 1 2 3", "g part", "o obj", "s 1", "s off", "vp 0.1 0.2 0.3", "l 1 1", "   ", "ga v 1 2 3"])))

    def index(kind):
        """A 0-based index and its spelling."""
        if neg and done[kind] and r.random() < 0.6:
            i = int(r.integers(0, done[kind]))
            return i, str(i - done[kind])
        i = int(r.integers(0, total[kind]))
        return i, str(i + 1)

    def face():
        nonlocal cur
        if not nv:
            return
        if mats and r.random() < 0.4:
            name = str(r.choice(mats))
            if name not in A["names"]:
                A["names"].append(name)
            cur = A["names"].index(name)
            line("usemtl", name)
        k = int(r.choice([3, 3, 3, 4, 5, 6]))
        fm = form if form != "mixed" else str(r.choice(["v", "vt", "vn", "vtn"]))
        t, n = "t" in fm and nt > 0, "n" in fm and nn > 0
        corners, words = [], []
        for _ in range(k):
            vi, vs = index("v")
            ti, ts = index("vt") if t else (-1, "")
            ni, ns = index("vn") if n else (-1, "")
            corners.append((vi, ti, ni))
            w = vs
            if n:
                w += "/" + ts + "/" + ns
            elif t:
                w += "/" + ts
            words.append(w)
        line("f", *words)
        for i in range(1, k - 1):
            tri = [corners[0], corners[i], corners[i + 1]]
            for key, j in (("f", 0), ("ft", 1), ("fn", 2)):
                A[key].append([c[j] for c in tri])
            A["fm"].append(cur)

    pos = 0
    for i, kind in enumerate(todo + [None]):
        while pos < nf and cuts[pos] <= i:
            some_noise()
            face()
            pos += 1
        if kind is None:
            break
        some_noise()
        x = r.uniform(-2, 2, 2 if kind == "vt" else 3)
        if kind == "vt":
            x = x if r.random() < 0.3 else np.abs(x) / 2.1
        words = [num(r, c) for c in x]
        A[kind].append([float(w) for w in words])
        if noise and kind != "vn" and r.random() < 0.3:
            words += ["1.0"] if kind == "vt" or r.random() < 0.5 else ["0.1", "0.2", "0.3"]
        line(kind, *words)
        done[kind] += 1
    a = {k: np.asarray(A[k], dtype=np.float32).reshape(-1, 2 if k == "vt" else 3) for k in ("v", "vt", "vn")}
    a.update({k: np.asarray(A[k], dtype=np.int64).reshape(-1, 3) for k in ("f", "ft", "fn")})
    a["fm"], a["names"] = np.asarray(A["fm"], dtype=np.int64), A["names"]
    return out, a


def check_arrays(verts, faces, aux, a):
    close(verts, a["v"], atol=0, rtol=1e-6, what="vertices")
    equal(faces.verts_idx, torch.from_numpy(a["f"]), "face vertices")
    equal(faces.textures_idx, torch.from_numpy(a["ft"]), "face texture indices")
    equal(faces.normals_idx, torch.from_numpy(a["fn"]), "face normal indices")
    equal(faces.materials_idx, torch.from_numpy(a["fm"]), "face materials")
    for got, key in ((aux.normals, "vn"), (aux.verts_uvs, "vt")):
        if len(a[key]):
            close(got, a[key], atol=0, rtol=1e-6, what=key)
        else:
            assert got is None or len(got) == 0, key


@sub(d(seed=SEED, nv=ints(0, 8), nt=ints(0, 5), nn=ints(0, 5), nf=ints(0, 6), neg=boolean(), noise=boolean(),
       form=one_of("v", "vt", "vn", "vtn", "mixed"), eol=one_of("\n", "\r\n"), last=boolean(), via=one_of("str", "path", "text", "bytes", "file")), quick=600, thorough=20000)
def parse(case, cx):
    r = rng(case["seed"])
    lines, a = emit(r, case["nv"], case["nt"], case["nn"], case["nf"], case["neg"], ["m1", "m2", "m.3"] if r.random() < 0.5 else [], case["noise"], case["form"])
    cx.trivial(len(a["f"]) == 0)
    cx.label(case["form"], case["via"])
    text = case["eol"].join(lines) + (case["eol"] if case["last"] else "")
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "x.obj")
        with open(p, "wb") as f:
            f.write(text.encode())
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            if case["via"] == "str":
                out = load_obj(p)
            elif case["via"] == "path":
                out = load_obj(Path(p))
            elif case["via"] == "text":
                out = load_obj(io.StringIO(text))
            elif case["via"] == "bytes":
                out = load_obj(io.BytesIO(text.encode()))
            else:
                with open(p) as f:
                    out = load_obj(f)
        check_arrays(*out, a)
        assert not any("invalid indices" in str(w.message) for w in ws), "valid indices reported as invalid"
        assert out[2].material_colors is None and out[2].texture_atlas is None
        # without textures there is nothing to colour: a white atlas
        R = int(r.integers(1, 4))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            at = load_obj(p, create_texture_atlas=True, texture_atlas_size=R)[2].texture_atlas
            close(at, np.ones((len(a["f"]), R, R, 3)), what="atlas without material")
            m = IO().load_mesh(p)
        assert isinstance(m, Meshes) and len(m) == 1
        close(m.verts_list()[0], a["v"], rtol=1e-6, atol=0, what="IO vertices")
        equal(m.faces_list()[0], torch.from_numpy(a["f"]), "IO faces")


def atlas_np(a, kds, imgs, R, wrap):
    F = len(a["f"])
    out = np.ones((F, R, R, 3))
    uv = a["vt"][a["ft"]].astype(np.float64) if len(a["vt"]) else None
    for f in range(F):
        name = a["names"][a["fm"][f]] if a["fm"][f] >= 0 else None
        if name in kds:
            out[f] = kds[name]
        if uv is None or name not in imgs:
            continue
        img = imgs[name][::-1]
        H, W = img.shape[:2]
        t = uv[f]
        if wrap == "repeat":
            t = t - np.floor(t)
        elif wrap == "clamp":
            t = np.clip(t, 0, 1)
        for y in range(R):
            for x in range(R):
                if x + y < R:
                    w = np.array([(x + 1 / 3) / R, (y + 1 / 3) / R])
                else:
                    w = np.array([(R - 1 - x + 2 / 3) / R, (R - 1 - y + 2 / 3) / R])
                w = np.append(w, 1 - w.sum())
                u, v = w @ t
                px, py = u * (W - 1), v * (H - 1)
                x0, y0 = int(np.floor(px)), int(np.floor(py))
                c = np.zeros(3)
                for yy, wy in ((y0, 1 - (py - y0)), (y0 + 1, py - y0)):
                    for xx, wx in ((x0, 1 - (px - x0)), (x0 + 1, px - x0)):
                        if 0 <= xx < W and 0 <= yy < H:
                            c += wx * wy * img[yy, xx]
                out[f, y, x] = c
    return out


@sub(d(seed=SEED, nf=ints(3, 9), noise=boolean(), R=ints(1, 5), wrap=one_of("repeat", "clamp", None), mode=one_of("named", "named", "single", "single", "missing"),
       uv=one_of(True, True, False), n=ints(1, 2), sub=boolean()), quick=300, thorough=8000)
def materials(case, cx):
    r = rng(case["seed"])
    single = case["mode"] == "single"
    with tempfile.TemporaryDirectory() as td:
        files, expected = [], []
        for q in range(case["n"]):
            d0 = os.path.join(td, str(q)) if case["sub"] else td
            os.makedirs(d0, exist_ok=True)
            pool = [f"mat_{q}{c}" for c in "abc"][: 1 if single else 3]
            lines, a = emit(r, int(r.integers(3, 8)), int(r.integers(2, 6)) if case["uv"] else 0, 0, case["nf"], bool(r.integers(0, 2)),
                            [] if single else pool + ["not_in_mtl"], case["noise"], "vt")
            mtlname = f"m {q}.mtl" if r.random() < 0.3 else f"m{q}.mtl"
            if case["mode"] != "missing":
                lines.insert(int(r.integers(0, len(lines) + 1)), f"mtllib {mtlname}")
            mtl, props, imgs, kds = [], {}, {}, {}
            for name in pool:
                mtl.append(f"newmtl {name}")
                pr = {}
                for key, tag, k in (("diffuse_color", "Kd", 3), ("ambient_color", "Ka", 3), ("specular_color", "Ks", 3), ("shininess", "Ns", 1)):
                    if r.random() < 0.6:
                        vals = ["%.3f" % x for x in r.uniform(0, 1, k)]
                        mtl.append(("\t" if case["noise"] else "") + tag + " " + " ".join(vals))
                        pr[key] = np.asarray(vals, dtype=np.float32)
                if case["noise"]:
                    mtl += ["", "# Kd 9 9 9", "illum 2", "d 1.0", "Ni 1.5", "map_Bump none.png"]
                if r.random() < 0.7:
                    H, W = int(r.integers(1, 6)), int(r.integers(1, 6))
                    arr = r.integers(0, 256, (H, W, 3)).astype(np.uint8)
                    fn = f"im {name}.png" if r.random() < 0.3 else f"{name}.png"
                    if r.random() < 0.85:
                        if r.random() < 0.3:
                            Image.fromarray(np.concatenate([arr, np.full((H, W, 1), 255, np.uint8)], -1)).save(os.path.join(d0, fn))
                        else:
                            Image.fromarray(arr).save(os.path.join(d0, fn))
                        imgs[name] = arr.astype(np.float32) / 255
                    mtl.append("map_Kd " + fn)
                props[name] = pr
            if r.random() < 0.9:
                with open(os.path.join(d0, mtlname), "w") as f:
                    f.write("\n".join(mtl) + "\n")
            else:
                props, imgs = {}, {}
            have = case["mode"] != "missing" and len(props) > 0
            used = a["names"]
            if single and have:
                used = a["names"] = list(pool)
                a["fm"] = np.zeros(len(a["f"]), dtype=np.int64)
            if not have:
                props, imgs = {}, {}
            props = {k: v for k, v in props.items() if k in used}
            imgs = {k: v for k, v in imgs.items() if k in used}
            kds = {k: v["diffuse_color"] for k, v in props.items() if "diffuse_color" in v}
            p = os.path.join(d0, f"x{q}.obj")
            with open(p, "w") as f:
                f.write("\n".join(lines))
            files.append(p)
            expected.append((a, have, props, imgs, atlas_np(a, kds, imgs, case["R"], case["wrap"])))
        kw = dict(create_texture_atlas=True, texture_atlas_size=case["R"], texture_wrap=case["wrap"])
        for p, (a, have, props, imgs, atlas) in zip(files, expected):
            cx.trivial(not imgs)
            if have and not a["names"]:
                cx.label("no usemtl")
                raises(lambda: load_obj(p, **kw), ValueError, what="several materials and no usemtl")
                return
            verts, faces, aux = load_obj(p, **kw)
            check_arrays(verts, faces, aux, a)
            close(aux.texture_atlas, atlas, atol=2e-5, what="texture atlas")
            if not have:
                assert not aux.material_colors and not aux.texture_images, "materials from nowhere"
            else:
                assert set(aux.material_colors) == set(props), f"materials {sorted(aux.material_colors)} instead of {sorted(props)}"
                for k, pr in props.items():
                    assert set(aux.material_colors[k]) == set(pr), f"properties of {k}"
                    for kk in pr:
                        close(aux.material_colors[k][kk].reshape(-1), pr[kk], what=f"{k} {kk}")
                assert set(aux.texture_images) == set(imgs), f"images {sorted(aux.texture_images)} instead of {sorted(imgs)}"
                for k in imgs:
                    close(aux.texture_images[k], imgs[k], what=f"image of {k}")
            _, _, aux2 = load_obj(p, load_textures=False)
            assert aux2.material_colors is None and aux2.texture_images is None
        # as meshes
        m = load_objs_as_meshes(files, **kw)
        assert len(m) == len(files) and isinstance(m.textures, TexturesAtlas)
        for i, (a, have, props, imgs, atlas) in enumerate(expected):
            close(m.verts_list()[i], a["v"], rtol=1e-6, atol=0, what="mesh vertices")
            equal(m.faces_list()[i], torch.from_numpy(a["f"]), "mesh faces")
            close(m.textures.atlas_list()[i], atlas, atol=2e-5, what="mesh atlas")
        if all(len(e[3]) for e in expected) and case["uv"]:
            cx.label("uv mesh")
            m = load_objs_as_meshes(files) if case["n"] > 1 else IO().load_mesh(files[0])
            assert isinstance(m.textures, TexturesUV)
            for i, (a, have, props, imgs, atlas) in enumerate(expected):
                close(m.textures.verts_uvs_list()[i], a["vt"], rtol=1e-6, atol=0, what="mesh uvs")
                equal(m.textures.faces_uvs_list()[i], torch.from_numpy(a["ft"]), "mesh face uvs")
                first = next(k for k in a["names"] if k in imgs)
                if case["n"] == 1:
                    close(m.textures.maps_padded()[i], imgs[first], what="mesh texture")


@sub(d(seed=SEED, V=ints(0, 7), F=ints(0, 7), tex=boolean(), normals=boolean(), dec=one_of(None, 1, 3, 8), via=one_of("str", "path", "io"), grad=boolean(),
       dt=one_of("f32", "f64")), quick=400, thorough=10000)
def round_trip(case, cx):
    r = rng(case["seed"])
    V, F = case["V"], case["F"] if case["V"] else 0
    dt = torch.float64 if case["dt"] == "f64" and case["via"] != "io" else torch.float32
    cx.trivial(F == 0)
    verts = torch.from_numpy(r.uniform(-20, 20, (V, 3))).to(dt)
    faces = torch.from_numpy(r.integers(0, max(V, 1), (F, 3)))
    kw = {}
    eps = 0.51 * 10.0 ** -(6 if case["dec"] is None else case["dec"])
    tol = dict(atol=eps, rtol=2e-7)
    if case["normals"]:
        nn = int(r.integers(1, 6))
        kw.update(normals=torch.from_numpy(r.uniform(-1, 1, (nn, 3))).to(dt), faces_normals_idx=torch.from_numpy(r.integers(0, nn, (F, 3))))
    if case["tex"] and V:
        T = int(r.integers(1, 6))
        img = torch.from_numpy(r.integers(0, 256, (int(r.integers(1, 6)), int(r.integers(1, 6)), 3)).astype(np.float32)) / 255
        kw.update(verts_uvs=torch.from_numpy(r.uniform(0, 1, (T, 2))).to(dt), faces_uvs=torch.from_numpy(r.integers(0, T, (F, 3))), texture_map=img)
    if case["grad"]:
        verts.requires_grad_(True)
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "some mesh.obj" if r.random() < 0.3 else "a.b.obj" if r.random() < 0.3 else "x.obj")
        if case["via"] == "io":
            tex = TexturesUV(maps=[kw["texture_map"]], faces_uvs=[kw["faces_uvs"]], verts_uvs=[kw["verts_uvs"]]) if case["tex"] and V else None
            m = Meshes([verts.detach()], [faces], textures=tex)
            IO().save_mesh(m, p, decimal_places=case["dec"])
            q = os.path.join(td, "n.obj")
            IO().save_mesh(m, q, decimal_places=case["dec"], include_textures=False)
            assert load_obj(q)[2].verts_uvs is None, "texture saved although not asked for"
            assert (m.textures is None) == (tex is None), "save_mesh changed its mesh"
            close(load_obj(q)[0], verts, what="vertices without texture", **tol)
        else:
            save_obj(p if case["via"] == "str" else Path(p), verts, faces, decimal_places=case["dec"], **kw)
        v2, f2, aux = load_obj(p)
        close(v2, verts, what="vertices", **tol)
        equal(f2.verts_idx, faces, "faces")
        if V and case["normals"] and case["via"] != "io":
            close(aux.normals, kw["normals"], what="normals", **tol)
            equal(f2.normals_idx, kw["faces_normals_idx"], "normal indices")
        else:
            assert aux.normals is None
            equal(f2.normals_idx, torch.full((F, 3), -1), "normal indices")
        if V and case["tex"]:
            close(aux.verts_uvs, kw["verts_uvs"], what="uvs", **tol)
            equal(f2.textures_idx, kw["faces_uvs"], "texture indices")
            assert len(aux.texture_images) == 1, "one image"
            close(list(aux.texture_images.values())[0], kw["texture_map"], atol=1e-6, what="texture")
            equal(f2.materials_idx, torch.zeros(F, dtype=torch.int64), "materials")
            m = IO().load_mesh(p)
            close(m.textures.maps_padded()[0], kw["texture_map"], atol=1e-6, what="IO texture")
            assert IO().load_mesh(p, include_textures=False).textures is None
        else:
            assert aux.verts_uvs is None and not aux.texture_images
            equal(f2.textures_idx, torch.full((F, 3), -1), "texture indices")


@sub(d(seed=SEED, kind=ints(0, 11)), quick=150, thorough=2000)
def malformed(case, cx):
    r = rng(case["seed"])
    k = case["kind"]
    lines, a = emit(r, int(r.integers(3, 7)), int(r.integers(1, 4)), int(r.integers(1, 4)), 3, False, [], False, "mixed")
    nv, nt, nn = len(a["v"]), len(a["vt"]), len(a["vn"])
    at = int(r.integers(0, len(lines) + 1))
    put = lambda s: "\n".join(lines[:at] + [s] + lines[at:])
    load = lambda s, **kw: load_obj(io.StringIO(s), **kw)
    bad = ["v 1 2", "v 1 x 3", "vt 1", "vt a b", "vn 1 2", "f 1/1/1 2//1 3//1", "f 1/1 2 3", "f 1/1/1/1 2/1/1/1 3/1/1/1", "f 1 b 3", "mtllib"]
    if k < len(bad):
        raises(lambda: load(put(bad[k])), ValueError, what=f"line {bad[k]!r}")
    elif k == 10:
        raises(lambda: load("\n".join(lines), texture_wrap="mirror"), ValueError, what="texture_wrap")
        T = torch.zeros
        for kw in (dict(normals=T(3, 3)), dict(faces_normals_idx=T(1, 3)), dict(verts_uvs=T(3, 3)), dict(faces_uvs=T(3, 2)), dict(texture_map=T(3, 3)),
                   dict(texture_map=T(3, 3, 4)), dict(normals=T(3, 2), faces_normals_idx=T(1, 3)), dict(normals=T(3, 3), faces_normals_idx=T(1, 2))):
            with tempfile.TemporaryDirectory() as td:
                raises(lambda: save_obj(os.path.join(td, "x.obj"), T(3, 3), torch.zeros(1, 3, dtype=torch.int64), **kw), ValueError, what=str({k: tuple(v.shape) for k, v in kw.items()}))
        with tempfile.TemporaryDirectory() as td:
            raises(lambda: save_obj(os.path.join(td, "x.obj"), T(3, 2), torch.zeros(1, 3, dtype=torch.int64)), ValueError, what="2D vertices")
            raises(lambda: save_obj(os.path.join(td, "x.obj"), T(3, 3), torch.zeros(1, 4, dtype=torch.int64)), ValueError, what="quads")
            raises(lambda: IO().load_mesh(os.path.join(td, "x.xyz")), ValueError, what="unknown suffix")
            raises(lambda: IO().save_mesh(Meshes([T(3, 3)] * 2, [torch.zeros(1, 3, dtype=torch.int64)] * 2), os.path.join(td, "x.obj")), ValueError, what="two meshes")
    else:
        # an index out of range is reported
        kind = int(r.integers(0, 3))
        n = (nv, nt, nn)[kind]
        off = int(r.integers(1, 4))
        i = n + off if r.random() < 0.5 else -(n + off)
        s = f"f 1 2 {i}" if kind == 0 else f"f 1/1 2/1 3/{i}" if kind == 1 else f"f 1//1 2//1 3//{i}"
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            load("\n".join(lines + [s]))
        assert any("invalid indices" in str(w.message) for w in ws), f"{s} with {nv} {nt} {nn} not reported"
