"""C12: PLY files load as what they store, in every layout; saving then loading is the identity; broken files are rejected."""
import io
import os
import struct
import tempfile
import warnings
from pathlib import Path

import numpy as np
import torch
from PIL import Image

from pytorch3d.io import IO, load_ply, save_ply
from pytorch3d.renderer import TexturesUV, TexturesVertex
from pytorch3d.structures import Meshes, Pointclouds
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng

PROP = "C12"
RULE = ("PLY files emitted from a random header (any property order and type, colours, normals, texture coordinates, extra properties "
        "and elements with lists, comments) in ASCII or either byte order, with polygons of 3-6 corners; random meshes and clouds for "
        "the round trips; one defect at a time for the rejections. Oracle: the values the emitter wrote. Non-trivial: at least one vertex.")

TYPES = {"char": ("b", "int8"), "uchar": ("B", "uint8"), "short": ("h", "int16"), "ushort": ("H", "uint16"), "int": ("i", "int32"),
         "uint": ("I", "uint32"), "float": ("f", "float32"), "double": ("d", "float64")}
NAME = {}
for k, (c, alias) in TYPES.items():
    NAME[k] = NAME[alias] = (c, k)


def alias(r, t):
    return t if r.random() < 0.6 else TYPES[t][1]


def value(r, t, lo=None, hi=None):
    t = NAME[t][1]
    if t == "float":
        return float(np.float32(r.uniform(-5, 5)))
    if t == "double":
        return float(r.uniform(-5, 5))
    size = struct.calcsize(NAME[t][0])
    lo_, hi_ = (0, 2 ** (8 * size) - 1) if t[0] == "u" else (-(2 ** (8 * size - 1)), 2 ** (8 * size - 1) - 1)
    if lo is not None:
        return int(r.integers(lo, hi + 1))
    return int(r.integers(max(lo_, -1000), min(hi_, 1000) + 1)) if r.random() < 0.8 else int(r.integers(lo_, hi_ + 1))


class File:
    """elements: list of (name, props, rows); props: (name, type, list size type or None); rows: one value or list per property."""

    def __init__(self, fmt, elements, noise, eol, r):
        self.fmt, self.elements, self.noise, self.eol, self.r = fmt, elements, noise, eol, r

    def header(self):
        r = self.r
        fmt = {"ascii": "ascii", "le": "binary_little_endian", "be": "binary_big_endian"}[self.fmt]
        out = ["ply", f"format {fmt} 1.0"]

        def maybe():
            if self.noise and r.random() < 0.4:
                out.append(str(r.choice(["comment hello property float x", "comment", "obj_info made by hand", "comment element vertex 9"])))
        if self.noise and r.random() < 0.3:
            out.insert(1, "comment before the format")
        maybe()
        for name, props, rows in self.elements:
            out.append(f"element {name} {len(rows)}")
            for pn, pt, pl in props:
                maybe()
                out.append(f"property list {pl} {pt} {pn}" if pl else f"property {pt} {pn}")
            maybe()
        return out + ["end_header"]

    def rows(self):
        for name, props, rows in self.elements:
            for row in rows:
                yield props, row

    def text_row(self, props, row):
        words = []
        fm = lambda t, v: repr(v) if isinstance(v, float) else str(v)
        for (pn, pt, pl), v in zip(props, row):
            if pl:
                words += [str(len(v))] + [fm(pt, x) for x in v]
            else:
                words.append(fm(pt, v))
        return words

    def data(self):
        head = (self.eol.join(self.header()) + self.eol).encode()
        if self.fmt == "ascii":
            sep = "  " if self.noise and self.r.random() < 0.3 else " "
            return head + "".join(sep.join(self.text_row(p, w)) + self.eol for p, w in self.rows()).encode()
        e = "<" if self.fmt == "le" else ">"
        out = [head]
        for props, row in self.rows():
            for (pn, pt, pl), v in zip(props, row):
                if pl:
                    out.append(struct.pack(e + NAME[pl][0], len(v)))
                    out.append(struct.pack(e + NAME[pt][0] * len(v), *v))
                else:
                    out.append(struct.pack(e + NAME[pt][0], v))
        return b"".join(out)


def make(r, case):
    nv, nf = case["nv"], case["nf"] if case["nv"] else 0
    props, cols = [], []
    kind = case["types"]
    base = {"float": "float", "double": "double", "int": "int", "mixed": None}[kind]

    def typ(pool=("float", "double", "int", "short", "uchar", "uint", "ushort", "char")):
        return alias(r, base or str(r.choice(pool)))
    one = typ()
    for n in "xyz":
        props.append((n, typ(("float", "double", "int", "short", "ushort", "uint")) if kind == "mixed" and r.random() < 0.5 else one, None))
    if case["col"] != "no":
        c = {"uchar": "uchar", "float": "float"}.get(case["col"])
        for n in ("red", "green", "blue"):
            props.append((n, alias(r, c), None))
    if case["nor"]:
        for n in ("nx", "ny", "nz"):
            props.append((n, typ(("float", "double")), None))
    if case["uv"]:
        for n in ("texture_u", "texture_v"):
            props.append((n, typ(("float", "double")), None))
    for i in range(case["extra"]):
        props.append((str(r.choice(["alpha", "quality", "w", "u"])) + str(i), typ(), None))
    if case["shuffle"]:
        props = [props[i] for i in r.permutation(len(props))]
    vrows = [[value(r, t) for _, t, _ in props] for _ in range(nv)]
    elements = [("vertex", props, vrows)]
    polys = []
    if case["face"]:
        k = int(r.integers(3, 6))
        it = alias(r, str(r.choice(["int", "uint", "short", "uchar", "ushort", "char"])))
        lt = alias(r, str(r.choice(["uchar", "int", "ushort", "char", "uint"])))
        polys = [[int(x) for x in r.integers(0, nv, k if case["const"] else int(r.integers(3, 7)))] for _ in range(nf)]
        elements.append(("face", [("vertex_indices" if r.random() < 0.5 else "vertex_index", it, lt)], [[p] for p in polys]))
    for j in range(case["elems"]):
        eprops = []
        for i in range(int(r.integers(1, 4))):
            t = alias(r, str(r.choice(list(TYPES))))
            eprops.append((f"p{i}", t, alias(r, "uchar") if r.random() < 0.4 else None))
        n = int(r.integers(0, 4))
        L = int(r.integers(0, 4))
        fixed = bool(r.integers(0, 2))
        rows = [[[value(r, t) for _ in range(L if fixed else int(r.integers(0, 4)))] if pl else value(r, t) for _, t, pl in eprops] for _ in range(n)]
        if any(pl is None for _, _, pl in eprops) or all(len(row[0]) for row in rows):
            elements.append((f"extra{j}", eprops, rows))
    elements = [elements[i] for i in r.permutation(len(elements))]
    col = {p[0]: i for i, p in enumerate(props)}
    get = lambda *ns: np.array([[row[col[n]] for n in ns] for row in vrows], dtype=np.float64).reshape(nv, len(ns))
    want = dict(verts=get("x", "y", "z"), colors=None, normals=None, uvs=None)
    if case["col"] != "no":
        want["colors"] = get("red", "green", "blue") / (255 if case["col"] == "uchar" else 1)
    if case["nor"]:
        want["normals"] = get("nx", "ny", "nz")
    if case["uv"]:
        want["uvs"] = get("texture_u", "texture_v")
    want["faces"] = np.array([[p[0], p[i], p[i + 1]] for p in polys for i in range(1, len(p) - 1)], dtype=np.int64).reshape(-1, 3)
    want["ordered"] = len(set(len(p) for p in polys)) != 1 or len(polys[0]) == 3
    return File(case["fmt"], elements, case["noise"], case["eol"], r), want


SPEC = dict(seed=SEED, nv=ints(0, 6), nf=ints(0, 5), types=one_of("float", "double", "int", "mixed", "mixed"), col=one_of("no", "uchar", "float"), nor=boolean(),
            uv=boolean(), extra=ints(0, 2), shuffle=boolean(), face=boolean(), const=boolean(), elems=ints(0, 2),
            fmt=one_of("ascii", "le", "be"), noise=boolean(), eol=one_of("\n", "\n", "\r\n"))


def check_faces(faces, want):
    if want["ordered"]:
        equal(faces, torch.from_numpy(want["faces"]), "faces")
    else:
        equal(tuple(faces.shape), want["faces"].shape, "number of faces")
        assert sorted(map(tuple, faces.tolist())) == sorted(map(tuple, want["faces"].tolist())), f"faces {faces.tolist()} instead of {want['faces'].tolist()}"


@sub(d(via=one_of("str", "path", "bytes", "file", "text", "textfile"), **SPEC), quick=1200, thorough=40000)
def parse(case, cx):
    r = rng(case["seed"])
    F, want = make(r, case)
    data = F.data()
    cx.trivial(case["nv"] == 0)
    cx.label(case["fmt"])
    via = case["via"] if case["fmt"] == "ascii" or not case["via"].startswith("text") else "str"
    tol = dict(atol=0, rtol=1e-6)
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "x.ply")
        with open(p, "wb") as f:
            f.write(data)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            if via == "str":
                v, f = load_ply(p)
            elif via == "path":
                v, f = load_ply(Path(p))
            elif via == "bytes":
                v, f = load_ply(io.BytesIO(data))
            elif via == "text":
                v, f = load_ply(io.StringIO(data.decode().replace("\r\n", "\n")))
            elif via == "file":
                with open(p, "rb") as fh:
                    v, f = load_ply(fh)
            else:
                with open(p) as fh:
                    v, f = load_ply(fh)
        assert not any("invalid indices" in str(w.message) for w in ws), "valid indices reported as invalid"
        close(v, want["verts"], what="vertices", **tol)
        assert v.dtype == torch.float32 and f.dtype == torch.int64
        check_faces(f, want)
        P = Path(p) if case["seed"] % 2 else p
        m = IO().load_mesh(P)
        close(m.verts_list()[0], want["verts"], what="mesh vertices", **tol)
        check_faces(m.faces_list()[0], want)
        if case["nv"]:
            if want["colors"] is not None:
                assert isinstance(m.textures, TexturesVertex), "no vertex colours"
                close(m.textures.verts_features_list()[0], want["colors"], what="vertex colours", **tol)
            else:
                assert m.textures is None, "texture from nowhere"
            nor = want["normals"] is not None and len(want["faces"]) > 0  # a mesh without faces has no normals
            assert m.has_verts_normals() == nor
            if nor:
                close(m.verts_normals_list()[0], want["normals"], what="vertex normals", **tol)
            assert IO().load_mesh(P, include_textures=False).textures is None
        pc = IO().load_pointcloud(P)
        close(pc.points_list()[0], want["verts"], what="points", **tol)
        if case["nv"]:
            if want["colors"] is None:
                assert pc.features_list() is None, "features from nowhere"
            else:
                close(pc.features_list()[0], want["colors"], what="features", **tol)
            if want["normals"] is None:
                assert pc.normals_list() is None, "normals from nowhere"
            else:
                close(pc.normals_list()[0], want["normals"], what="normals", **tol)
        if case["nv"] and len(want["faces"]) and case["uv"] and case["col"] == "no":
            cx.label("texture")
            H, W = int(r.integers(1, 5)), int(r.integers(1, 5))
            img = r.integers(0, 256, (H, W, 3)).astype(np.uint8)
            Image.fromarray(img).save(os.path.join(td, "tex.png"))
            i = data.index(b"end_header")
            with open(p, "wb") as fh:
                fh.write(data[:i] + b"comment TextureFile tex.png\n" + data[i:])
            m = IO().load_mesh(p)
            assert isinstance(m.textures, TexturesUV)
            close(m.textures.verts_uvs_list()[0], want["uvs"], what="uvs", **tol)
            check_faces(m.textures.faces_uvs_list()[0], want)
            close(m.textures.maps_padded()[0], img / 255.0, atol=1e-6, what="texture image")


@sub(d(seed=SEED, V=ints(0, 6), F=ints(0, 6), ascii=boolean(), dec=one_of(None, 1, 4, 8), normals=boolean(), colors=one_of("no", "yes", "u8", "five"),
       what=one_of("ply", "mesh", "cloud"), via=one_of("str", "path", "bytes", "file"), dt=one_of("f32", "f64"), grad=boolean()), quick=800, thorough=20000)
def round_trip(case, cx):
    r = rng(case["seed"])
    V, F = case["V"], case["F"] if case["V"] else 0
    cx.trivial(V == 0)
    cx.label(case["what"])
    dt = torch.float64 if case["dt"] == "f64" and case["what"] == "ply" else torch.float32
    t = lambda *s: torch.from_numpy(r.uniform(-9, 9, s)).to(dt)
    if case["what"] == "mesh" and F == 0:
        case = dict(case, normals=False)
    verts, faces = t(V, 3), torch.from_numpy(r.integers(0, max(V, 1), (F, 3)))
    normals = t(V, 3) if case["normals"] else None
    eps = 0.51 * 10.0 ** -(6 if case["dec"] is None else case["dec"]) if case["ascii"] else 0.0
    tol = dict(atol=eps, rtol=2e-7 if case["ascii"] or case["dt"] == "f64" else 0)
    vin = verts.clone().requires_grad_(True) if case["grad"] and case["what"] == "ply" else verts
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "x.PLY" if case["seed"] % 3 == 0 else "x.ply")
        tgt = Path(p) if case["via"] == "path" else p
        if case["what"] == "ply":
            fin = faces if F or r.random() < 0.5 else None
            kw = dict(faces=fin, verts_normals=normals, ascii=case["ascii"], decimal_places=case["dec"])
            if case["via"] == "bytes":
                b = io.BytesIO()
                save_ply(b, vin, **kw)
                b.seek(0)
                v, f = load_ply(b)
                with open(p, "wb") as fh:
                    fh.write(b.getvalue())
            elif case["via"] == "file":
                with open(p, "wb") as fh:
                    save_ply(fh, vin, **kw)
                v, f = load_ply(p)
            else:
                save_ply(tgt, vin, **kw)
                v, f = load_ply(tgt)
            close(v, verts, what="vertices", **tol)
            equal(f, faces, "faces")
            if V and normals is not None:
                close(IO().load_pointcloud(p).normals_list()[0], normals, what="normals", **tol)
            return
        C = {"no": 0, "yes": 3, "u8": 3, "five": 5}[case["colors"]]
        if case["what"] == "cloud" and C == 5:
            C = 3
        col = None
        kw = dict(binary=False if case["ascii"] else None if r.random() < 0.5 else True, decimal_places=case["dec"])
        ctol = tol
        if C:
            col = torch.from_numpy(r.uniform(0, 1, (V, C))).float()
            if case["colors"] == "u8":
                kw["colors_as_uint8"] = True
                ctol = dict(atol=0.5001 / 255, rtol=0)
        if case["what"] == "mesh":
            m = Meshes([verts], [faces], textures=TexturesVertex([col]) if C else None, verts_normals=[normals] if normals is not None else None)
            IO().save_mesh(m, tgt, **kw)
            q = IO().load_mesh(tgt)
            close(q.verts_list()[0], verts, what="vertices", **tol)
            equal(q.faces_list()[0], faces, "faces")
            if V and normals is not None:
                close(q.verts_normals_list()[0], normals, what="normals", **tol)
            if V and C == 3:
                close(q.textures.verts_features_list()[0], col, what="colours", **ctol)
            else:
                assert V == 0 or q.textures is None
            IO().save_mesh(m, tgt, include_textures=False, **kw)
            assert V == 0 or IO().load_mesh(tgt).textures is None, "texture saved although not asked for"
        else:
            pc = Pointclouds([verts], normals=[normals] if normals is not None else None, features=[col] if C else None)
            IO().save_pointcloud(pc, tgt, **kw)
            q = IO().load_pointcloud(tgt)
            close(q.points_list()[0], verts, what="points", **tol)
            if V:
                if normals is not None:
                    close(q.normals_list()[0], normals, what="normals", **tol)
                else:
                    assert q.normals_list() is None
                if C:
                    close(q.features_list()[0], col, what="features", **ctol)
                else:
                    assert q.features_list() is None


BAD_HEAD = [
    ("property float x\n", "property float x\nproperty float x\n"), ("property float x", "property floating x"), ("property float x", "property x"),
    ("format ascii 1.0\n", ""), ("format ascii 1.0", "format ascii 2.0"), ("ply\n", "plx\n"), ("element vertex 3", "element vertex three"),
    ("element vertex 3", "element vertex -3"), ("element vertex 3", "element vertex"), ("element vertex 3", "property float q\nelement vertex 3"),
    ("element vertex 3", "element empty 2\nelement vertex 3"), ("end_header\n", ""), ("property float x", "property float xx"),
    ("property float x", "property list uchar float x"), ("end_header", "what is this\nend_header"), ("element vertex 3", "element vertices 3"),
    ("property list uchar int vertex_index", "property list uchar int vertex_index\nproperty int other"), ("element vertex 3", "element vertex 4"),
    ("element vertex 3", "element vertex 2"), ("element face 1", "element face 2"), ("element face 1", "element face 0"), ("element face 1", "element face -1"),
    ("format ascii 1.0\n", "format ascii 1.0\nformat ascii 1.0\n"), ("property list uchar int vertex_index", "property list what int vertex_index"),
    ("property list uchar int vertex_index", "property int vertex_index"),
    ("3 0 1 2\n", "2 0 1\n"), ("3 0 1 2\n", "4 0 1 2\n"), ("3 0 1 2\n", "3 0 1\n"), ("3 0 1 2\n", "3 0 1 x\n"), ("3 0 1 2\n", "3 0 1 2\n7\n"),
    ("3 0 1 2\n", ""), ("3 0 1 2\n", "-3 0 1 2\n"), ("1 2 3\n", "1 2\n"), ("1 2 3\n", "1 2 3 4\n"), ("1 2 3\n", "1 x 3\n"), ("1 2 3\n", ""),
]


@sub(d(how=one_of("cut", "token", "head", "save"), k=ints(0, len(BAD_HEAD) - 1), pos=ints(0, 10**6), **SPEC), quick=800, thorough=20000, timeout=60)
def rejected(case, cx):
    r = rng(case["seed"])
    how = case["how"]
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "x.ply")

        def loads(data, what):
            with open(p, "wb") as f:
                f.write(data)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                raises(lambda: load_ply(p), Exception, what=what)
                raises(lambda: load_ply(io.BytesIO(data)), Exception, what=what + " (stream)")

        if how == "head":
            good = "ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 1\nproperty list uchar int vertex_index\nend_header\n1 2 3\n4 5 6\n7 8 10\n3 0 1 2\n"
            load_ply(io.StringIO(good))
            a, b = BAD_HEAD[case["k"]]
            assert a in good
            loads(good.replace(a, b, 1).encode(), f"{b!r} for {a!r}")
            return
        if how == "save":
            T = torch.zeros
            k = case["k"] % 4
            args = [(T(3, 2),), (T(3, 3), torch.zeros(2, 4, dtype=torch.int64)), (T(3, 3), None, T(2, 3)), (T(3, 3), None, T(3, 2))][k]
            raises(lambda: save_ply(p, *args), ValueError, what=f"save_ply with {[None if a is None else tuple(a.shape) for a in args]}")
            raises(lambda: IO().save_pointcloud(Pointclouds([T(2, 3)] * 2), p), ValueError, what="two clouds")
            raises(lambda: IO().load_pointcloud(os.path.join(td, "x.obj")), ValueError, what="a point cloud from an OBJ file")
            return
        case = dict(case, nv=max(case["nv"], 1))
        F, want = make(r, case)
        data = F.data()
        body = data.index(b"end_header") + len(b"end_header") + len(case["eol"])
        n = sum(len(rows) for _, _, rows in F.elements)
        if how == "cut":
            if case["fmt"] == "ascii":
                lines = data[body:].splitlines(keepends=True)
                if case["pos"] % 3 == 0:
                    loads(data[: case["pos"] % (body - 1 - len(case["eol"]))], "cut in the header")
                else:
                    k = case["pos"] % len(lines)
                    loads(data[:body] + b"".join(lines[:k]), f"{k} of {len(lines)} lines")
            else:
                loads(data[: case["pos"] % len(data)] if case["pos"] % 2 else data[: body + case["pos"] % (len(data) - body)], "cut file")
                raises(lambda: load_ply(io.BytesIO(data + b"7")), Exception, what="extra byte")
        else:
            if case["fmt"] != "ascii":
                cx.trivial()
                return
            rows = [F.text_row(q, w) for q, w in F.rows()]
            i = case["pos"] % len(rows)
            w = list(rows[i])
            j = int(r.integers(0, len(w)))
            k = int(r.integers(0, 3))
            if k == 0:
                w[j] = "abc"
            elif k == 1:
                del w[-1]
            else:
                w.append("1")
            rows[i] = w
            # a line that lost its only word merges with the next: still a missing value
            loads(data[:body] + "".join(" ".join(x) + "\n" for x in rows).encode(), f"row {rows[i]}")
