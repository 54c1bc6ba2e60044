"""C13: OFF and glTF files load as what they store and survive saving and loading; formats are chosen as registered."""
import base64
import io
import json
import os
import struct
import tempfile
from pathlib import Path

import numpy as np
import torch
from PIL import Image

from pytorch3d.io import IO
from pytorch3d.io.experimental_gltf_io import MeshGlbFormat, load_meshes
from pytorch3d.io.pluggable_formats import MeshFormatInterpreter, PointcloudFormatInterpreter
from pytorch3d.renderer import TexturesAtlas, TexturesUV, TexturesVertex
from pytorch3d.structures import Meshes, Pointclouds
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, faces_np, ints, one_of, quat_to_mat_np, raises, rng

PROP = "C13"
RULE = ("OFF texts with polygons of 3-6 corners, integer or float colours on vertices and/or faces, comments, blank lines and one- or two-line "
        "headers; GLB/glTF scenes emitted from scratch (node trees with matrix or TRS, every component type, packed/interleaved/offset accessors, "
        "vertex colours, texture images, base colours); random meshes for the round trips. Oracle: the values the emitter wrote. "
        "Non-trivial: at least one vertex.")
REJECT = (ValueError, RuntimeError, NotImplementedError, AssertionError, KeyError, IndexError, TypeError, struct.error, EOFError)


# ---------------------------------------------------------------- OFF

def num(r, x):
    return ["%r" % float(x), "%.6f" % x, "%.8e" % x][int(r.integers(0, 3))]


def off_file(case):
    r = rng(case["seed"])
    nv, nf = case["nv"], case["nf"] if case["nv"] else 0
    eol = "\r\n" if case["crlf"] else "\n"
    ints_ = case["coords"] == "int"
    V = r.integers(-9, 10, (nv, 3)).astype(float) if ints_ else np.round(r.normal(size=(nv, 3)) * 3, 4)
    spell = (lambda x: str(int(x))) if ints_ else (lambda x: num(r, x))

    def colour(n, kind, c):
        if kind == "no":
            return None, [[]] * n
        if kind == "int":
            a = r.integers(0, 256, (n, c))
            return a / 255.0, [[str(x) for x in row] for row in a]
        a = np.round(r.random((n, c)), 3)
        return a, [["%.4f" % x if r.random() < 0.5 else repr(float(x)) for x in row] for row in a]
    VC, vtxt = colour(nv, case["vcol"], case["vc"])
    FC, ftxt = colour(nf, case["fcol"], case["fc"])
    if case["size"] == "mixed":
        sizes = r.integers(3, 7, nf)
    else:
        sizes = np.full(nf, {"tri": 3, "quad": 4, "pent": 5}[case["size"]])
    polys = [[int(x) for x in r.integers(0, nv, k)] for k in sizes]
    lines = [f"{spell(v[0])} {spell(v[1])} {spell(v[2])} {' '.join(t)}" for v, t in zip(V, vtxt)]
    lines += [f"{len(p)} {' '.join(map(str, p))} {' '.join(t)}" for p, t in zip(polys, ftxt)]
    out = []

    def noise():
        if case["noise"]:
            while r.random() < 0.25:
                out.append(str(r.choice(["", "# comment 1.5", "   ", "  # 1 2 3.5"])))
    counts = f"{nv} {nf} {int(r.integers(0, 50))}"
    noise()
    if case["head"] == "two":
        out.append(str(r.choice(["off", "OFF", "Off"])))
        noise()
        out.append(counts)
    elif case["head"] == "one":
        out.append("OFF " + counts)
    else:
        out.append(counts)
    if case["noise"] and r.random() < 0.3:
        out[-1] += " # counts"
    for x in lines:
        noise()
        if case["noise"] and r.random() < 0.1:
            x += " # end 0.5"
        if case["noise"] and r.random() < 0.2:
            x = "  " + x.replace(" ", "  ")
        out.append(x)
    noise()
    text = eol.join(out) + ("" if r.random() < 0.3 and lines and not case["noise"] else eol)
    tris, owner = [], []
    for i, p in enumerate(polys):
        for k in range(1, len(p) - 1):
            tris.append([p[0], p[k], p[k + 1]])
            owner.append(i)
    return text, V, VC, FC, np.array(tris, dtype=np.int64).reshape(-1, 3), np.array(owner, dtype=int)


OFF = d(seed=SEED, nv=ints(0, 8), nf=ints(0, 6), coords=one_of("int", "float", "float"), vcol=one_of("no", "no", "int", "float"), vc=one_of(3, 4),
        fcol=one_of("no", "int", "float"), fc=one_of(3, 4), size=one_of("tri", "quad", "pent", "mixed"), head=one_of("two", "two", "one", "none"),
        noise=boolean(), crlf=boolean(), path=boolean(), tex=boolean())


@sub(OFF, quick=1500, thorough=40000)
def off_parse(case, cx):
    text, V, VC, FC, tris, owner = off_file(case)
    cx.trivial(case["nv"] == 0)
    cx.label(case["size"])
    with tempfile.TemporaryDirectory() as td:
        path = os.path.join(td, "a.OFF" if case["seed"] % 2 else "a.off")
        open(path, "wb").write(text.encode())
        m = IO().load_mesh(Path(path) if case["path"] else path, include_textures=True)
    close(m.verts_list()[0], V.reshape(-1, 3), 1e-5, 1e-6, "verts")
    got = m.faces_list()[0].numpy()
    # triangles of a file come in any order, with their colours
    tex = m.textures
    if VC is not None and len(V):
        assert isinstance(tex, TexturesVertex), f"textures {tex}"
        close(tex.verts_features_list()[0], VC, 1e-5, 1e-5, "vertex colours")
        FC = None
    elif FC is not None and len(tris):
        assert isinstance(tex, TexturesAtlas), f"textures {tex}"
    else:
        assert tex is None, f"textures {tex}"
    equal(got.shape, tris.shape, "faces shape")
    if FC is None or not len(tris):
        equal(sorted(map(tuple, got.tolist())), sorted(map(tuple, tris.tolist())), "faces")
    else:
        atlas = tex.atlas_list()[0].numpy()
        equal(atlas.shape, (len(tris), 1, 1, case["fc"]), "atlas shape")
        key = lambda f, c: (tuple(f), tuple(int(round(float(x) * 1e4)) for x in c))
        want = sorted(key(t, FC[o]) for t, o in zip(tris.tolist(), owner))
        have = sorted(key(f, c[0, 0]) for f, c in zip(got.tolist(), atlas))
        equal([w[0] for w in have], [w[0] for w in want], "faces")
        close(np.array([w[1] for w in have]) / 1e4, np.array([w[1] for w in want]) / 1e4, 2.1e-4, 0, "colours of the faces")
    if case["size"] == "tri" and FC is None:
        equal(got.tolist(), tris.tolist(), "triangles in file order")


def rand_mesh(r, nv, nf, kind, C=3, R=1):
    v = torch.from_numpy(r.normal(size=(nv, 3)) * 2).float()
    f = torch.from_numpy(faces_np(r, nv, nf, distinct=False))
    tex = None
    if kind == "vertex":
        tex = TexturesVertex([torch.from_numpy(r.random((nv, C))).float()])
    elif kind == "atlas":
        tex = TexturesAtlas([torch.from_numpy(r.random((nf, R, R, C))).float()])
    elif kind == "uv":
        h, w = int(r.integers(1, 6)), int(r.integers(1, 6))
        img = torch.from_numpy(r.integers(0, 256, (h, w, 3)) / 255.0).float()
        tex = TexturesUV([img], [f.clone()], [torch.from_numpy(r.random((nv, 2))).float()])
    return Meshes([v], [f], tex)


@sub(d(seed=SEED, nv=ints(0, 9), nf=ints(0, 7), kind=one_of("no", "vertex", "atlas", "atlas2"), C=one_of(3, 4), dp=one_of(None, None, 2, 5, 8), inc=boolean(), grad=boolean()),
     quick=600, thorough=20000)
def off_round_trip(case, cx):
    r = rng(case["seed"])
    nv = case["nv"]
    nf = case["nf"] if nv else 0
    cx.trivial(nf == 0)
    m = rand_mesh(r, nv, nf, case["kind"][:5] if case["kind"] != "vertex" else "vertex", case["C"], 2 if case["kind"] == "atlas2" else 1)
    if case["grad"] and nv:
        m.verts_list()[0].requires_grad_(True)
    before = m.verts_list()[0].detach().clone()
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "m.off")
        kw = {} if case["dp"] is None else dict(decimal_places=case["dp"])
        IO().save_mesh(m, p, include_textures=case["inc"], **kw)
        m2 = IO().load_mesh(p)
    tol = 1e-6 if case["dp"] is None else 0.5 * 10 ** -case["dp"]
    close(m2.verts_list()[0], before.reshape(-1, 3), tol + 1e-6, 1e-6, "verts")
    equal(m.verts_list()[0].detach(), before, "the saved mesh")
    equal(m2.faces_list()[0].reshape(-1, 3), m.faces_list()[0].reshape(-1, 3), "faces")
    if not case["inc"] or case["kind"] in ("no", "atlas2"):
        assert m2.textures is None
    elif case["kind"] == "vertex" and nv:
        close(m2.textures.verts_features_list()[0], m.textures.verts_features_list()[0], tol + 1e-6, 1e-6, "vertex colours")
    elif case["kind"] == "atlas" and nf:
        close(m2.textures.atlas_list()[0], m.textures.atlas_list()[0], 2e-6, 1e-6, "face colours")


@sub(d(seed=SEED, what=one_of("truncate", "verts", "counts", "extra", "size", "colors", "empty", "negative", "small")), quick=300, thorough=8000)
def off_rejected(case, cx):
    r = rng(case["seed"])
    base = dict(seed=case["seed"], nv=int(r.integers(3, 7)), nf=int(r.integers(2, 6)), coords="float", vcol="no", vc=3, fcol="no", fc=3, size="tri", head="two",
                noise=False, crlf=False)
    text = off_file(base)[0]
    L = text.strip("\n").split("\n")
    nv, nf = base["nv"], base["nf"]
    w = case["what"]
    cx.label(w)
    i = 2 + nv + int(r.integers(0, nf))
    if w == "truncate":
        L = L[: int(r.integers(2, len(L)))]
    elif w == "verts":
        k = 2 + int(r.integers(0, nv))
        L[k] = L[k].rsplit(" ", 2)[0] if r.random() < 0.5 else "a b c"
    elif w == "counts":
        L[1] = str(r.choice(["3 x 0", "3", "x 3 0", "1 2 3 4", "3.5 2 0"]))
    elif w == "extra":
        L.append("0 0 0")
    elif w == "size":
        L[i] = "4" + L[i][1:] if r.random() < 0.5 else L[i] + " 1"
    elif w == "colors":
        L[i] = L[i].strip() + " 0.5 0.25"
    elif w == "empty":
        L = L[:1] * int(r.integers(0, 2)) + [""] * int(r.integers(0, 3))
    elif w == "negative":
        L[1] = f"{nv} -1 0"
    elif w == "small":
        L[i] = "2 0 1"
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "m.off")
        open(p, "w").write("\n".join(L) + "\n")
        raises(lambda: IO().load_mesh(p), *REJECT, what=f"{w}: {L}")


# ---------------------------------------------------------------- glTF

CT = {"i8": 5120, "u8": 5121, "i16": 5122, "u16": 5123, "u32": 5125, "f32": 5126}
NP = {"i8": "<i1", "u8": "<u1", "i16": "<i2", "u16": "<u2", "u32": "<u4", "f32": "<f4"}
SHAPE = {1: "SCALAR", 2: "VEC2", 3: "VEC3", 4: "VEC4"}


class Glb:
    """Emits a scene; keeps what it means."""

    def __init__(self, r):
        self.r, self.buf = r, bytearray()
        self.j = dict(asset=dict(version="2.0"), scene=0, scenes=[], nodes=[], meshes=[], accessors=[], bufferViews=[], buffers=[], materials=[], textures=[], images=[])

    def pad(self, to=4, junk=False):
        r = self.r
        if junk:
            self.buf += bytes(int(x) for x in r.integers(0, 256, 4 * int(r.integers(0, 3))))
        while len(self.buf) % to:
            self.buf.append(int(r.integers(0, 256)))

    def accessors(self, arrays, interleave):
        """arrays: list of (array (n, k), component type).  Returns accessor indices."""
        r, out = self.r, []
        if interleave:
            n = len(arrays[0][0])
            offs, size = [], 0
            for a, t in arrays:
                offs.append(size)
                size += a.shape[1] * np.dtype(NP[t]).itemsize
                size += -size % 4
            size += 4 * int(r.integers(0, 3))
            block = bytearray(int(x) for x in r.integers(0, 256, size * n))
            end = 0
            for (a, t), o in zip(arrays, offs):
                raw = np.ascontiguousarray(a.astype(NP[t]))
                for i in range(n):
                    b = raw[i].tobytes()
                    block[i * size + o: i * size + o + len(b)] = b
                    end = max(end, i * size + o + len(b))
            if r.random() < 0.5:
                block = block[:end]
            self.pad(4, True)
            bv = len(self.j["bufferViews"])
            self.j["bufferViews"].append(dict(buffer=0, byteOffset=len(self.buf), byteLength=len(block), byteStride=size))
            self.buf += block
            for (a, t), o in zip(arrays, offs):
                out.append(self._acc(bv, o, a, t))
            return out
        for a, t in arrays:
            raw = np.ascontiguousarray(a.astype(NP[t])).tobytes()
            self.pad(4, True)
            lead = 4 * int(r.integers(0, 3)) if r.random() < 0.5 else 0
            start = len(self.buf)
            self.buf += bytes(int(x) for x in r.integers(0, 256, lead)) + raw
            extra = int(r.integers(0, 9))
            if r.random() < 0.3:
                self.buf += bytes(extra)
            else:
                extra = 0
            bv = len(self.j["bufferViews"])
            view = dict(buffer=0, byteOffset=start, byteLength=lead + len(raw) + extra)
            if start == 0 and r.random() < 0.5:
                del view["byteOffset"]
            self.j["bufferViews"].append(view)
            out.append(self._acc(bv, lead, a, t))
        return out

    def _acc(self, bv, off, a, t):
        x = dict(bufferView=bv, componentType=CT[t], count=len(a), type=SHAPE[a.shape[1]])
        if off or self.r.random() < 0.5:
            x["byteOffset"] = off
        self.j["accessors"].append(x)
        return len(self.j["accessors"]) - 1

    def image(self, arr):
        with io.BytesIO() as f:
            Image.fromarray(arr).save(f, format="PNG")
            raw = f.getvalue()
        self.j["bufferViews"].append(dict(buffer=0, byteOffset=len(self.buf), byteLength=len(raw)))
        self.buf += raw
        self.j["images"].append(dict(bufferView=len(self.j["bufferViews"]) - 1, mimeType="image/png"))
        return len(self.j["images"]) - 1

    def data(self, kind):
        r = self.r
        self.pad(4)
        self.j["buffers"] = [dict(byteLength=len(self.buf))]
        j = {k: v for k, v in self.j.items() if v != []}
        if kind == "gltf":
            j["buffers"][0]["uri"] = "data:application/octet-stream;base64," + base64.b64encode(bytes(self.buf)).decode()
            return json.dumps(j).encode()
        js = json.dumps(j).encode()
        js += b" " * (-len(js) % 4)
        total = 12 + 8 + len(js) + 8 + len(self.buf)
        return struct.pack("<III", 0x46546C67, 2, total) + struct.pack("<II", len(js), 0x4E4F534A) + js + struct.pack("<II", len(self.buf), 0x004E4942) + bytes(self.buf)


def node_transform(r, node, kind):
    """Gives the node a transform; returns the 4x4 (column vector) matrix."""
    M = np.eye(4)
    if kind == "matrix":
        M[:3] = np.round(r.normal(size=(3, 4)), 3)
        node["matrix"] = [float(x) for x in M.T.reshape(-1)]
        return M
    if kind == "trs":
        if r.random() < 0.7:
            s = np.round(r.uniform(0.3, 2, 3) * r.choice([-1, 1], 3), 3)
            node["scale"] = s.tolist()
            M = np.diag([*s, 1.0]) @ M
        if r.random() < 0.7:
            q = r.normal(size=4)
            q /= np.linalg.norm(q)
            node["rotation"] = [float(q[1]), float(q[2]), float(q[3]), float(q[0])]
            A = np.eye(4)
            A[:3, :3] = quat_to_mat_np(q[None])[0]
            M = A @ M
        if r.random() < 0.7:
            t = np.round(r.normal(size=3), 3)
            node["translation"] = t.tolist()
            A = np.eye(4)
            A[:3, 3] = t
            M = A @ M
    return M


def scene(case):
    r = rng(case["seed"])
    g = Glb(r)
    meshes = []
    for k in range(case["nm"]):
        prims = []
        for _ in range(int(r.integers(1, 3))):
            nv = int(r.integers(1, 6))
            pos = np.round(r.normal(size=(nv, 3)), 3).astype(np.float32)
            indexed = r.random() < 0.8
            if not indexed:
                nv = 3 * int(r.integers(1, 3))
                pos = np.round(r.normal(size=(nv, 3)), 3).astype(np.float32)
            arrays, names = [(pos, "f32")], ["POSITION"]
            tex = str(r.choice(["no", "color", "uv", "uv", "both"]))
            want = dict(pos=pos, tex=None)
            if tex in ("color", "both"):
                t, c = str(r.choice(["f32", "u8", "u16"])), int(r.choice([3, 4]))
                if t == "f32":
                    a = r.random((nv, c)).astype(np.float32)
                    want["color"] = a
                else:
                    a = r.integers(0, 256 if t == "u8" else 65536, (nv, c))
                    want["color"] = a / (255.0 if t == "u8" else 65535.0)
                arrays.append((a, t))
                names.append("COLOR_0")
                want["tex"] = "color"
            prim = dict(attributes={})
            if tex in ("uv", "both"):
                t = str(r.choice(["f32", "f32", "u8", "u16"]))
                if t == "f32":
                    a = r.random((nv, 2)).astype(np.float32)
                    uv = a.astype(float)
                else:
                    a = r.integers(0, 256 if t == "u8" else 65536, (nv, 2))
                    uv = a / (255.0 if t == "u8" else 65535.0)
                arrays.append((a, t))
                names.append("TEXCOORD_0")
                if want["tex"] is None:
                    want["tex"], want["uv"] = "uv", np.stack([uv[:, 0], 1 - uv[:, 1]], 1)
                    mat = str(r.choice(["image", "image", "factor", "none", "bare", "nopbr"]))
                    want["map"] = np.ones((1, 1, 3))
                    if mat == "image":
                        h, w, c = int(r.integers(1, 5)), int(r.integers(1, 5)), int(r.choice([3, 4]))
                        img = r.integers(0, 256, (h, w, c)).astype(np.uint8)
                        g.j["textures"].append(dict(source=g.image(img)))
                        m = dict(pbrMetallicRoughness=dict(baseColorTexture=dict(index=len(g.j["textures"]) - 1)))
                        want["map"] = img[:, :, :3] / 255.0
                    elif mat == "factor":
                        col = [float(x) for x in np.round(r.random(4), 3)]
                        m = dict(pbrMetallicRoughness=dict(baseColorFactor=col))
                        want["map"] = np.array(col[:3])[None, None]
                    elif mat == "bare":
                        m = dict(pbrMetallicRoughness=dict(metallicFactor=0.5))
                    else:
                        m = dict(name="plain")
                    if mat != "none":
                        g.j["materials"].append(m)
                        prim["material"] = len(g.j["materials"]) - 1
            if r.random() < 0.3:
                arrays.append((r.normal(size=(nv, 3)), "f32"))
                names.append("NORMAL")
            order = [int(x) for x in r.permutation(len(arrays))]
            acc = g.accessors([arrays[i] for i in order], case["inter"] and r.random() < 0.6)
            for i, a in zip(order, acc):
                prim["attributes"][names[i]] = a
            if indexed:
                f = r.integers(0, nv, (int(r.integers(1, 6)), 3))
                prim["indices"] = g.accessors([(f.reshape(-1, 1), str(r.choice(["u8", "u16", "u32"])))], False)[0]
            else:
                f = np.arange(nv).reshape(-1, 3)
            if r.random() < 0.5:
                prim["mode"] = 4
            want["faces"] = f
            prims.append((prim, want))
        m = dict(primitives=[p for p, _ in prims])
        if r.random() < 0.6:
            m["name"] = f"mesh{k}"
        g.j["meshes"].append(m)
        meshes.append((m.get("name"), [w for _, w in prims]))
    n = case["nn"]
    parent = [None] + [int(r.integers(-1, i)) for i in range(1, n)]
    mats, owner = [], []
    for i in range(n):
        node = {}
        mats.append(node_transform(r, node, str(r.choice(["no", "trs", "trs", "matrix"]))))
        owner.append(None)
        if i == 0 or r.random() < 0.7:
            node["mesh"] = owner[-1] = int(r.integers(0, case["nm"]))
        g.j["nodes"].append(node)
    roots = []
    for i in range(n):
        p = parent[i]
        if p is None or p < 0:
            parent[i] = None
            roots.append(i)
        else:
            g.j["nodes"][p].setdefault("children", []).append(i)
    g.j["scenes"] = [dict(nodes=roots)]
    if case["other"]:
        # a second scene which is not the default one
        g.j["nodes"].append(dict(mesh=0, translation=[9, 9, 9]))
        g.j["scenes"].insert(0, dict(nodes=[n]))
        g.j["scene"] = 1
    # breadth first from the roots
    out, queue = [], list(roots)
    world = {}
    while queue:
        i = queue.pop(0)
        world[i] = (world[parent[i]] if parent[i] is not None else np.eye(4)) @ mats[i]
        if owner[i] is not None:
            name, prims = meshes[owner[i]]
            for w in prims:
                p = w["pos"].astype(float) @ world[i][:3, :3].T + world[i][:3, 3]
                out.append((name, p, w))
        queue += g.j["nodes"][i].get("children", [])
    return g, out


@sub(d(seed=SEED, nm=ints(1, 3), nn=ints(1, 5), inter=boolean(), other=boolean(), kind=one_of("glb", "glb", "gltf"), tex=boolean()), quick=800, thorough=20000)
def gltf_parse(case, cx):
    g, want = scene(case)
    cx.label(case["kind"])
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "m." + case["kind"])
        open(p, "wb").write(g.data(case["kind"]))
        got = load_meshes(p, IO().path_manager, include_textures=case["tex"])
        kinds = {w["tex"] for _, _, w in want}
        joined = None
        if case["kind"] == "glb" and (not case["tex"] or len(kinds) == 1) and len({w["color"].shape[1] for _, _, w in want if "color" in w}) < 2:
            ioo = IO()
            ioo.register_meshes_format(MeshGlbFormat())
            joined = ioo.load_mesh(p, include_textures=case["tex"])
    equal(len(got), len(want), "number of meshes")
    # meshes come in any order over the nodes: match by position
    used = set()
    order = []
    for name, pos, w in want:
        best = None
        for k, (n2, m2) in enumerate(got):
            v2, f2 = m2.verts_list()[0].double().numpy(), m2.faces_list()[0].numpy()
            if k in used or n2 != name or v2.shape != pos.shape or f2.shape != w["faces"].shape:
                continue
            if np.allclose(v2, pos, atol=1e-4, rtol=1e-4) and (f2 == w["faces"]).all():
                best = k
                break
        assert best is not None, f"no mesh {name} at {pos.tolist()} with faces {w['faces'].tolist()}; got {[(n, m.verts_list()[0].tolist()) for n, m in got]}"
        used.add(best)
        order.append(best)
        t = got[best][1].textures
        if not case["tex"] or w["tex"] is None:
            assert t is None
        elif w["tex"] == "color":
            assert isinstance(t, TexturesVertex)
            close(t.verts_features_list()[0], w["color"], 1e-5, 1e-5, "vertex colours")
        else:
            assert isinstance(t, TexturesUV)
            close(t.verts_uvs_list()[0], w["uv"], 1e-5, 1e-5, "texture coordinates")
            equal(t.faces_uvs_list()[0], torch.from_numpy(w["faces"]), "faces_uvs")
            close(t.maps_list()[0], w["map"], 1e-5, 1e-5, "texture map")
    if joined is not None:
        cx.label("scene")
        vs = torch.cat([m.verts_list()[0] for _, m in got])
        equal(joined.verts_list()[0], vs, "verts of the scene")
        off, fs = 0, []
        for _, m in got:
            fs.append(m.faces_list()[0] + off)
            off += len(m.verts_list()[0])
        equal(joined.faces_list()[0], torch.cat(fs), "faces of the scene")
        if case["tex"] and kinds == {"color"}:
            close(joined.textures.verts_features_list()[0], torch.cat([m.textures.verts_features_list()[0] for _, m in got]), 0, 0, "colours of the scene")


@sub(d(seed=SEED, nv=ints(1, 9), nf=ints(1, 7), kind=one_of("no", "vertex", "uv"), inc=boolean(), grad=boolean(), big=one_of(0, 0, 0, 0, 0, 0, 0, 0, 70000)), quick=500, thorough=12000)
def glb_round_trip(case, cx):
    r = rng(case["seed"])
    nv, nf = case["nv"] + case["big"], case["nf"]
    m = rand_mesh(r, nv, nf, case["kind"])
    cx.label(case["kind"])
    if case["grad"]:
        m.verts_list()[0].requires_grad_(True)
        if case["kind"] == "vertex":
            m.textures.verts_features_list()[0].requires_grad_(True)
    uv0 = m.textures.verts_uvs_list()[0].clone() if case["kind"] == "uv" else None
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "m.glb")
        ioo = IO()
        ioo.register_meshes_format(MeshGlbFormat())
        ioo.save_mesh(m, p, include_textures=case["inc"])
        raw = open(p, "rb").read()
        m2 = ioo.load_mesh(p)
    # the container is well formed
    magic, version, length = struct.unpack("<III", raw[:12])
    equal((magic, version, length), (0x46546C67, 2, len(raw)), "file header")
    at, kinds = 12, []
    while at < len(raw):
        n, t = struct.unpack("<II", raw[at: at + 8])
        assert n % 4 == 0, f"chunk of {n} bytes"
        kinds.append(t)
        if t == 0x4E4F534A:
            js = json.loads(raw[at + 8: at + 8 + n])
        at += 8 + n
    equal((at, kinds), (len(raw), [0x4E4F534A, 0x004E4942]), "chunks")
    for a in js["accessors"]:
        v = js["bufferViews"][a["bufferView"]]
        size = {5121: 1, 5123: 2, 5125: 4, 5126: 4}[a["componentType"]]
        n = {"SCALAR": 1, "VEC2": 2, "VEC3": 3, "VEC4": 4}[a["type"]] * size * a["count"]
        assert a.get("byteOffset", 0) + n <= v["byteLength"] and v["byteOffset"] + v["byteLength"] <= js["buffers"][0]["byteLength"], "accessor outside of its buffer"
        assert (v["byteOffset"] + a.get("byteOffset", 0)) % size == 0, "misaligned accessor"
    equal(m2.verts_list()[0], m.verts_list()[0].detach(), "verts")
    equal(m2.faces_list()[0], m.faces_list()[0], "faces")
    if not case["inc"] or case["kind"] == "no":
        assert m2.textures is None
    elif case["kind"] == "vertex":
        equal(m2.textures.verts_features_list()[0], m.textures.verts_features_list()[0].detach(), "vertex colours")
    else:
        close(m2.textures.verts_uvs_list()[0], uv0, 1e-6, 0, "texture coordinates")
        equal(m2.textures.faces_uvs_list()[0], m.textures.faces_uvs_list()[0], "faces_uvs")
        close(m2.textures.maps_list()[0], m.textures.maps_list()[0], 1e-6, 0, "texture map")
    if uv0 is not None:
        equal(m.textures.verts_uvs_list()[0], uv0, "texture coordinates of the saved mesh")


@sub(d(seed=SEED, what=one_of("count", "stride", "short", "version", "nojson", "mode", "noscene", "sparse", "offset")), quick=200, thorough=5000)
def gltf_rejected(case, cx):
    r = rng(case["seed"])
    g, _ = scene(dict(seed=case["seed"], nm=1, nn=1, inter=False, other=False))
    w = case["what"]
    cx.label(w)
    pos = g.j["meshes"][0]["primitives"][0]["attributes"]["POSITION"]
    acc = g.j["accessors"][pos]
    view = g.j["bufferViews"][acc["bufferView"]]
    kind = "glb"
    data = None
    if w == "count":
        acc["count"] += len(g.buf)
    elif w == "offset":
        acc["byteOffset"] = view["byteLength"] - acc["count"] * 12 + 4 * int(r.integers(1, 9))
    elif w == "stride":
        view["byteStride"] = int(r.choice([4, 8, 256]))
    elif w == "mode":
        g.j["meshes"][0]["primitives"][0]["mode"] = int(r.choice([0, 1, 2, 3, 5, 6]))
    elif w == "noscene":
        del g.j["scene"]
    elif w == "sparse":
        acc["sparse"] = dict(count=1)
    elif w == "short":
        data = g.data(kind)
        data = data[: -4 * int(r.integers(1, 3))]
        # the last accessor then lies outside of the data unless padding or an image's end is lost
    elif w == "version":
        data = bytearray(g.data(kind))
        data[4:8] = struct.pack("<I", int(r.choice([1, 3])))
    elif w == "nojson":
        data = g.data(kind)
        n = struct.unpack("<I", data[12:16])[0]
        data = data[:8] + struct.pack("<I", len(data) - 8 - n) + data[20 + n:]
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "m.glb")
        open(p, "wb").write(bytes(data if data is not None else g.data(kind)))
        raises(lambda: load_meshes(p, IO().path_manager), *REJECT, what=w)


# ---------------------------------------------------------------- choice of format

class Fake(MeshFormatInterpreter):
    def __init__(self, tag, suffixes, log):
        self.tag, self.suffixes, self.log = tag, suffixes, log

    def read(self, path, include_textures, device, path_manager, **kw):
        self.log.append(("read", self.tag))
        if not str(path).endswith(self.suffixes):
            return None
        return Meshes([torch.full((1, 3), float(self.tag))], [torch.zeros(0, 3, dtype=torch.int64)])

    def save(self, data, path, path_manager, binary, **kw):
        self.log.append(("save", self.tag))
        if not str(path).endswith(self.suffixes):
            return False
        open(path, "w").write(str(self.tag))
        return True


class FakeCloud(PointcloudFormatInterpreter):
    def __init__(self, tag, suffixes, log):
        self.tag, self.suffixes, self.log = tag, suffixes, log

    def read(self, path, device, path_manager, **kw):
        self.log.append(("read", self.tag))
        if not str(path).endswith(self.suffixes):
            return None
        return Pointclouds([torch.full((1, 3), float(self.tag))])

    def save(self, data, path, path_manager, binary, **kw):
        self.log.append(("save", self.tag))
        if not str(path).endswith(self.suffixes):
            return False
        open(path, "w").write(str(self.tag))
        return True


SUF = (".aa", ".bb", ".cc", ".ply")


@sub(d(seed=SEED, n=ints(0, 5), default=boolean(), suffix=one_of(*SUF), cloud=boolean(), bad=boolean()), quick=300, thorough=5000)
def registry(case, cx):
    r = rng(case["seed"])
    ioo = IO(include_default_formats=case["default"])
    log, regs = [], []
    C = FakeCloud if case["cloud"] else Fake
    reg = ioo.register_pointcloud_format if case["cloud"] else ioo.register_meshes_format
    if case["bad"]:
        raises(lambda: reg((Fake if case["cloud"] else FakeCloud)(0, (".aa",), log)), ValueError, what="interpreter of the wrong kind")
    for k in range(case["n"]):
        s = tuple(str(x) for x in r.choice(SUF, int(r.integers(1, 3)), replace=False))
        regs.append((k + 1, s))
        reg(C(k + 1, s, log))
    able = [k for k, s in reversed(regs) if case["suffix"] in s]
    cx.trivial(len(able) < 2)
    data = Pointclouds([torch.rand(2, 3)]) if case["cloud"] else Meshes([torch.rand(3, 3)], [torch.tensor([[0, 1, 2]])])
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "x" + case["suffix"])
        if case["bad"]:
            p = Path(p)
        load = ioo.load_pointcloud if case["cloud"] else ioo.load_mesh
        save = ioo.save_pointcloud if case["cloud"] else ioo.save_mesh
        pts = lambda o: (o.points_list() if case["cloud"] else o.verts_list())[0]
        if able:
            save(data, p)
            equal(open(p).read(), str(able[0]), "format which saves")
            equal(pts(load(p)).unique().tolist(), [float(able[0])], "format which loads")
        elif case["suffix"] == ".ply" and case["default"]:
            save(data, p)
            close(pts(load(p)), pts(data), 1e-6, 0, "default format")
        else:
            raises(lambda: save(data, p), ValueError, what="saving an unknown format")
            assert not os.path.exists(p)
            open(p, "w").write("x")
            raises(lambda: load(p), ValueError, what="loading an unknown format")
        raises(lambda: save(Meshes([torch.rand(3, 3)], [torch.tensor([[0, 1, 2]])]) if case["cloud"] else Pointclouds([torch.rand(2, 3)]), p), ValueError, what="saving the wrong kind of data")
        two = Pointclouds([torch.rand(2, 3)] * 2) if case["cloud"] else Meshes([torch.rand(3, 3)] * 2, [torch.tensor([[0, 1, 2]])] * 2)
        raises(lambda: save(two, p), ValueError, what="saving two at once")
