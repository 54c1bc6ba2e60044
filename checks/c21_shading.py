"""C21: lighting, materials and shaders give every pixel the documented colour of its own mesh, light and camera."""
import numpy as np
import torch

from pytorch3d.renderer import (AmbientLights, BlendParams, DirectionalLights, HardFlatShader, HardGouraudShader,
                                HardPhongShader, Materials, MeshRasterizer, MeshRenderer, MeshRendererWithFragments, PointLights,
                                RasterizationSettings, SoftGouraudShader, SoftPhongShader, SoftSilhouetteShader,
                                TexturesVertex, softmax_rgb_blend)
from pytorch3d.renderer.lighting import diffuse as diffuse_fn, specular as specular_fn
from pytorch3d.renderer.mesh.rasterizer import Fragments
from pytorch3d.renderer.mesh.shader import HardDepthShader, SoftDepthShader
from pytorch3d.renderer.mesh.shading import flat_shading, gouraud_shading, phong_shading
from pytorch3d.structures import Meshes
from vlib import cams
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng

PROP = "C21"
RULE = ("Batches of 1-3 meshes with vertex colours and random fragments; point, directional and ambient lights, materials and "
        "cameras each shared or one per mesh, given to the shader or to the call. Oracle: the lighting equations in float64 per "
        "fragment and their derivatives. Non-trivial: some fragment names a face that is lit.")


def unit(x):
    return x / x.norm(dim=-1, keepdim=True).clamp(min=1e-6)


def f32(a):
    return torch.from_numpy(np.ascontiguousarray(a)).float()


class Light:
    """Data of a light and the class made of it; b elements."""

    def __init__(self, r, kind, b):
        self.kind, self.b = kind, b
        self.p = {"ambient_color": f32(r.random((b, 3)))}
        if kind != "ambient":
            self.p["diffuse_color"], self.p["specular_color"] = f32(r.random((b, 3))), f32(r.random((b, 3)))
        if kind == "point":
            self.p["location"] = f32(r.standard_normal((b, 3)) * 3)
        if kind == "directional":
            self.p["direction"] = f32(r.standard_normal((b, 3)))

    def make(self, p=None):
        p = self.p if p is None else p
        cls = {"point": PointLights, "directional": DirectionalLights, "ambient": AmbientLights}[self.kind]
        return cls(**{k: v if v.requires_grad else v.clone() for k, v in p.items()})


class Mat:
    def __init__(self, r, b):
        self.b = b
        self.p = {k: f32(r.random((b, 3))) for k in ("ambient_color", "diffuse_color", "specular_color")}
        self.p["shininess"] = f32(r.choice([1.0, 2.5, 10.0, 64.0], b))

    def make(self, p=None):
        return Materials(**{k: v if v.requires_grad else v.clone() for k, v in (self.p if p is None else p).items()})


def light_at(kind, lp, mp, cam, X, Nn):
    """Ambient, diffuse and specular terms at X with normal Nn (..., 3); the parameters have the same leading shape or
    broadcast.  Also the cosines which decide the branches."""
    if kind == "ambient":
        z = torch.zeros_like(X)
        return mp["ambient_color"] * lp["ambient_color"] + z, z, z, torch.ones(1).double()
    D = unit(lp["location"] - X if kind == "point" else lp["direction"].expand_as(X))
    n = unit(Nn)
    cos = (n * D).sum(-1, keepdim=True)
    dif = mp["diffuse_color"] * lp["diffuse_color"] * cos.clamp(min=0)
    view = unit(cam - X)
    refl = 2 * cos * n - D
    al = (view * refl).sum(-1, keepdim=True).clamp(min=0)
    al = torch.where(cos > 0, al, torch.zeros_like(al))
    sp = mp["specular_color"] * lp["specular_color"] * al ** mp["shininess"]
    return mp["ambient_color"] * lp["ambient_color"] + 0 * X, dif, sp, torch.minimum(cos.abs(), ((view * refl).sum(-1, keepdim=True)).abs())


def per_image(p, idx):
    """Parameters (b, ...) at mesh index idx (any shape), with room for the last dimension."""
    out = {}
    for k, v in p.items():
        v = v.double()
        i = idx if v.shape[0] > 1 else torch.zeros_like(idx)
        w = v[i]
        out[k] = w[..., None] if k == "shininess" else w
    return out


class Scene:
    def __init__(self, r, case):
        N = self.N = case["N"]
        self.V = [int(r.integers(3, 7)) for _ in range(N)]
        self.F = [int(r.integers(1, 5)) for _ in range(N)]
        self.verts = [f32(r.standard_normal((v, 3))) for v in self.V]
        self.faces = [torch.from_numpy(np.stack([r.permutation(v)[:3] for _ in range(f)])) for v, f in zip(self.V, self.F)]
        self.normals = [f32(r.standard_normal((v, 3))) for v in self.V] if case.get("normals", True) else None
        self.cols = [f32(r.random((v, 3))) for v in self.V]
        b = lambda k: N if case[k] else 1
        self.light = Light(r, case["kind"], b("lightN"))
        self.mat = Mat(r, b("matN"))
        self.cam, self.models = cams.make(r, one_ty(r), b("camN"))[:2]
        self.first = np.concatenate([[0], np.cumsum(self.F)])

    def meshes(self, verts=None, cols=None, normals=None):
        kw = {}
        normals = self.normals if normals is None else normals
        if normals is not None:
            kw["verts_normals"] = normals
        return Meshes(verts or self.verts, self.faces, TexturesVertex(cols or self.cols), **kw)

    def fragments(self, r, H, W, K):
        N = self.N
        p2f = np.full((N, H, W, K), -1)
        for n in range(N):
            k = r.integers(0, K + 1, (H, W, 1))
            v = r.integers(0, self.F[n], (H, W, K)) + self.first[n]
            p2f[n] = np.where(np.arange(K) < k, v, -1)
        m = p2f >= 0
        bary = np.where(m[..., None], r.dirichlet([1, 1, 1], p2f.shape), -1.0)
        z = np.where(m, np.sort(r.uniform(0.5, 8, p2f.shape), -1), -1.0)
        dist = np.where(m, r.standard_normal(p2f.shape) * 0.01, -1.0)
        return Fragments(torch.from_numpy(p2f), f32(z), f32(bary), f32(dist))

    def centre(self):
        return torch.from_numpy(np.stack([-m.T @ np.linalg.inv(m.R) for m in self.models]))

    def reference(self, mode, frag, verts, normals, cols, lp, mp):
        """Colours (N,H,W,K,3) in float64, and the smallest cosine met; packed double inputs."""
        faces = torch.cat([f + o for f, o in zip(self.faces, np.concatenate([[0], np.cumsum(self.V)])[:-1])])
        p2f = frag.pix_to_face.clamp(min=0)
        w = frag.bary_coords.double()[..., None]
        n = torch.arange(self.N).view(-1, 1, 1, 1).expand_as(p2f)
        interp = lambda a: (w * a[faces][p2f]).sum(-2)
        cam = per_image({"c": self.centre()}, n)["c"]
        if mode == "phong":
            a, df, sp, c = light_at(self.light.kind, per_image(lp, n), per_image(mp, n), cam, interp(verts), interp(normals))
            return (a + df) * interp(cols) + sp, c
        if mode == "flat":
            fv = verts[faces]
            fn = torch.linalg.cross(fv[:, 1] - fv[:, 0], fv[:, 2] - fv[:, 0])
            a, df, sp, c = light_at(self.light.kind, per_image(lp, n), per_image(mp, n), cam, fv.mean(1)[p2f], fn[p2f])
            return (a + df) * interp(cols) + sp, c
        v2m = torch.cat([torch.full((v,), i) for i, v in enumerate(self.V)])
        cam = per_image({"c": self.centre()}, v2m)["c"]
        a, df, sp, c = light_at(self.light.kind, per_image(lp, v2m), per_image(mp, v2m), cam, verts, normals)
        return interp((a + df) * cols + sp), c


def one_ty(r):
    return ("fovp", "fovo", "persp", "ortho")[int(r.integers(0, 4))]


KIND = one_of("point", "point", "directional", "directional", "ambient")
CASE = dict(seed=SEED, N=ints(1, 3), H=ints(1, 3), W=ints(1, 3), K=ints(1, 3), kind=KIND, lightN=boolean(), matN=boolean(), camN=boolean(),
            normals=boolean(), mode=one_of("phong", "gouraud", "flat"))


def setup(case):
    r = rng(case["seed"])
    s = Scene(r, case)
    frag = s.fragments(r, case["H"], case["W"], case["K"])
    m = s.meshes()
    return r, s, frag, m


def expected(s, case, frag, m):
    return s.reference(case["mode"], frag, m.verts_packed().double(), m.verts_normals_packed().double(), torch.cat(s.cols).double(), s.light.p, s.mat.p)


def direct(mode, m, frag, light, cam, mat):
    if mode == "gouraud":
        return gouraud_shading(m, frag, light, cam, mat)
    fn = phong_shading if mode == "phong" else flat_shading
    return fn(m, frag, light, cam, mat, m.sample_textures(frag))


@sub(d(**CASE), quick=500, thorough=20000)
def shading(case, cx):
    r, s, frag, m = setup(case)
    cx.label(case["mode"])
    want, c = expected(s, case, frag, m)
    sure = (c >= 2e-4).expand_as(want[..., :1]).expand_as(want) if case["mode"] != "gouraud" else torch.full_like(want, bool((c >= 2e-4).all()))
    has = (frag.pix_to_face >= 0)[..., None].expand_as(want)
    keep = (sure > 0) & has
    cx.trivial(not bool(keep.any()))
    state = [v.clone() for v in (*s.light.p.values(), *s.mat.p.values())]
    light, mat = s.light.make(), s.mat.make()
    got = direct(case["mode"], m, frag, light, s.cam, mat)
    assert got.shape == want.shape, f"colours of shape {tuple(got.shape)}"
    e = (got.double() - want).abs()[keep]
    assert e.numel() == 0 or float(e.max()) <= 2e-3, f"{case['mode']} colour differs by {float(e.max()):.3g}"
    for k, v in zip((*s.light.p, *s.mat.p), state):
        pass
    for o, p in ((light, s.light.p), (mat, s.mat.p)):
        for k, v in p.items():
            assert bool((getattr(o, k) == v).all()), f"shading changed {k}"


@sub(d(**CASE, soft=boolean(), where=one_of("init", "call", "both"), z=one_of("camera", "camera", "scalar", "tensor"), gamma=one_of("1e-4", "0.1")), quick=400, thorough=15000)
def shaders(case, cx):
    """The shader modules: blended reference colours, with parameters given at either place."""
    r, s, frag, m = setup(case)
    mode, soft = case["mode"], case["soft"] and case["mode"] != "flat"
    want, c = expected(s, case, frag, m)
    has = frag.pix_to_face >= 0
    if not bool((c >= 2e-4).all()):
        cx.trivial(True)
        return
    bg = tuple(r.random(3).tolist())
    bp = BlendParams(sigma=0.01, gamma=float(case["gamma"]), background_color=bg)
    cls = {("phong", False): HardPhongShader, ("phong", True): SoftPhongShader, ("gouraud", False): HardGouraudShader, ("gouraud", True): SoftGouraudShader,
           ("flat", False): HardFlatShader}[mode, soft]
    right = dict(cameras=s.cam, lights=s.light.make(), materials=s.mat.make(), blend_params=bp)
    w = Scene(rng(case["seed"] + 1), case)
    wrong = dict(cameras=w.cam, lights=w.light.make(), materials=w.mat.make(), blend_params=BlendParams(sigma=0.2, gamma=0.3))
    init = {k: (right if case["where"] == "init" or (case["where"] == "both" and r.random() < 0.5) else wrong)[k] for k in right}
    call = {k: v for k, v in right.items() if init[k] is not v}
    zn, zf = (getattr(s.cam, k, x) for k, x in (("znear", 1.0), ("zfar", 100.0)))
    if soft and case["z"] != "camera":
        zn, zf = (0.3, 20.0) if case["z"] == "scalar" else (f32(r.uniform(0.1, 0.4, s.N)), f32(r.uniform(10, 30, s.N)))
        call.update(znear=zn, zfar=zf)
    sh = cls(**init)
    cx.label("soft" if soft else "hard")
    cx.trivial(not bool(has.any()))
    got = sh(frag, m, **call)
    col = torch.where(has[..., None], want, torch.zeros_like(want)).float()
    if soft:
        ref = softmax_rgb_blend(col, frag, bp, znear=zn, zfar=zf)
        tol = 5e-3
    else:
        ref = torch.cat([torch.where(has[..., :1], col[..., 0, :], torch.tensor(bg)), has[..., :1].float()], -1)
        tol = 2e-3
    assert got.shape == ref.shape, f"image of shape {tuple(got.shape)}"
    e = float((got - ref).abs().max())
    assert e <= tol, f"{cls.__name__}: differs by {e:.3g}"


@sub(d(seed=SEED, N=ints(1, 3), H=ints(1, 3), W=ints(1, 3), K=ints(1, 3), camN=boolean(), soft=boolean(), where=one_of("init", "call"),
       z=one_of("camera", "camera", "scalar", "tensor")), quick=250, thorough=8000)
def depth(case, cx):
    c2 = dict(case, kind="point", lightN=False, matN=False)
    r = rng(case["seed"])
    s = Scene(r, c2)
    frag = s.fragments(r, case["H"], case["W"], case["K"])
    m = s.meshes()
    has = frag.pix_to_face >= 0
    cx.trivial(not bool(has.any()) or bool(has.all()))
    kw = {}
    zf = getattr(s.cam, "zfar", 100.0)
    if case["z"] == "scalar":
        zf = kw["zfar"] = 33.0
    elif case["z"] == "tensor":
        zf = kw["zfar"] = f32(r.uniform(5, 50, s.N))
    zf = torch.as_tensor(zf).double().reshape(-1, 1, 1, 1) * torch.ones(s.N, 1, 1, 1)
    sigma = float(r.choice([1e-3, 0.02]))
    cls = SoftDepthShader if case["soft"] else HardDepthShader
    kw0 = {}
    (kw0 if case["where"] == "init" else kw).update(cameras=s.cam, blend_params=BlendParams(sigma=sigma))
    before = frag.zbuf.clone()
    got = cls(**kw0)(frag, m, **kw).double()
    equal(frag.zbuf, before, what="the depth shader changed the fragments")
    z, N = frag.zbuf.double(), s.N
    far = zf.expand(N, *z.shape[1:3], 1)
    if case["soft"]:
        left, want = torch.ones_like(far), torch.zeros_like(far)
        for k in range(z.shape[-1]):
            p = torch.sigmoid(-frag.dists[..., k:k + 1].double() / sigma) * has[..., k:k + 1]
            p = torch.minimum(p, left)
            want, left = want + p * z[..., k:k + 1], left - p
        want = want + left * far
    else:
        want = torch.where(has[..., :1], z[..., :1], far)
    assert got.shape == want.shape, f"depth of shape {tuple(got.shape)}"
    e = float((got - want).abs().max())
    assert e <= 1e-3, f"{cls.__name__}: differs by {e:.3g}"


@sub(d(**dict(CASE, normals=one_of(True))), quick=250, thorough=10000)
def gradients(case, cx):
    r, s, frag, m0 = setup(case)
    names = ["verts", "normals", "cols"]
    data = [torch.cat(s.verts), torch.cat(s.normals), torch.cat(s.cols)]

    def leaves(dt):
        a = [x.to(dt).clone().requires_grad_() for x in data]
        lp = {k: v.to(dt).clone().requires_grad_() for k, v in s.light.p.items()}
        mp = {k: v.to(dt).clone().requires_grad_() for k, v in s.mat.p.items()}
        return a, lp, mp

    has = (frag.pix_to_face >= 0)[..., None]
    a, lp, mp = leaves(torch.float64)
    want, c = s.reference(case["mode"], frag, *a, lp, mp)
    g = f32(r.standard_normal(want.shape)) * has
    if not bool((c >= 3e-3).all()):
        cx.trivial(True)
        return
    cx.trivial(not bool(has.any()))
    a32, lp32, mp32 = leaves(torch.float64)
    noise = 1 + 1e-6 * torch.from_numpy(r.standard_normal(a32[0].shape))
    a32[0] = (a32[0].detach() * noise).requires_grad_()
    flat = lambda t: [*t[0], *t[1].values(), *t[2].values()]
    names = ["verts", "normals", "vertex colours", *(f"light {k}" for k in lp), *(f"material {k}" for k in mp)]
    ref = torch.autograd.grad((want * g.double()).sum(), flat((a, lp, mp)), allow_unused=True)
    # the same under a relative change of 1e-6 of the vertices: how sensitive the derivative is
    near = torch.autograd.grad((s.reference(case["mode"], frag, *a32, lp32, mp32)[0] * g.double()).sum(), flat((a32, lp32, mp32)), allow_unused=True)
    b, lq, mq = leaves(torch.float32)
    cut = lambda x: list(x.split(s.V))
    m = s.meshes(cut(b[0]), cut(b[2]), cut(b[1]))
    got_c = direct(case["mode"], m, frag, s.light.make(lq), s.cam, s.mat.make(mq))
    got = torch.autograd.grad((got_c * g).sum(), flat((b, lq, mq)), allow_unused=True)
    for n, x, y, y2 in zip(names, got, ref, near):
        y = torch.zeros(1).double() if y is None else y
        x = torch.zeros_like(y) if x is None else x.double()
        mag = max(float(y.abs().max()), 1.0) * 5e-3 + (0.0 if y2 is None else 5 * float((y - y2).abs().max()))
        e = float((x - y).abs().max())
        assert e <= mag, f"gradient of {n} differs by {e:.3g}"


@sub(d(seed=SEED, lead=one_of("packed", "image", "rays"), b=boolean(), N=ints(1, 3), fn=one_of("diffuse", "specular"), scale=one_of("1", "1e-3", "1e3")), quick=300, thorough=8000)
def functions(case, cx):
    """The plain diffuse and specular functions for any layout of points; normals and directions need not be unit."""
    r = rng(case["seed"])
    N = case["N"]
    lead = {"packed": (5,), "image": (N, 2, 3, 2), "rays": (N, 4)}[case["lead"]]
    b = lead[0] if case["b"] else 1
    sc = float(case["scale"])
    X, Nn = f32(r.standard_normal((*lead, 3))), f32(r.standard_normal((*lead, 3)) * sc)
    col, D, cam, sh = f32(r.random((b, 3))), f32(r.standard_normal((b, 3)) * sc), f32(r.standard_normal((b, 3)) * 4), f32(r.choice([1.0, 3.0, 20.0], b))
    ex = lambda v: v.double().reshape(b, *[1] * (len(lead) - 1), -1)
    lp = dict(diffuse_color=ex(col), specular_color=ex(col), direction=ex(D), ambient_color=ex(col))
    one = torch.ones(1).double()
    mp = dict(ambient_color=one, diffuse_color=one, specular_color=one, shininess=ex(sh))
    _, df, sp, c = light_at("directional", lp, mp, ex(cam), X.double(), Nn.double())
    if case["fn"] == "diffuse":
        got, want = diffuse_fn(Nn, col, D), df
    else:
        got, want = specular_fn(X, Nn, D, col, cam, sh), sp
        raises(lambda: specular_fn(X, Nn[:, :1] if Nn.shape[1] > 1 else Nn[..., :2], D, col, cam, sh), ValueError, what="points and normals of different shapes")
    cx.trivial(not bool((want > 0).any()))
    ok = (c >= 2e-4).expand_as(want)
    assert got.shape == want.shape, f"shape {tuple(got.shape)}"
    e = (got.double() - want).abs()[ok]
    assert not e.numel() or float(e.max()) <= 1e-3, f"{case['fn']} differs by {float(e.max()):.3g}"
    if case["lead"] == "packed" and b > 1:
        raises(lambda: diffuse_fn(Nn, col[:2], D), ValueError, what="batch sizes which do not match")


@sub(d(seed=SEED, kind=one_of("point", "directional", "ambient", "material"), N=ints(1, 4), mixed=boolean(), steps=ints(1, 6)), quick=400, thorough=15000)
def properties(case, cx):
    """A batch of lights or materials behaves as a list of independent values."""
    r = rng(case["seed"])
    N = case["N"]
    src = Mat(r, N) if case["kind"] == "material" else Light(r, case["kind"], N)
    given, model = {}, {}
    one = [k for k in src.p if case["mixed"] and r.random() < 0.5]
    if len(one) == len(src.p):
        one = one[1:]
    for k, v in src.p.items():
        v = v[:1] if k in one else v
        form = r.integers(0, 3)
        given[k] = v.clone() if form else (v.tolist() if v.dim() > 1 or len(v) > 1 else float(v[0]))
        model[k] = v.expand(N, *v.shape[1:]).clone()
    keep = {k: (v.clone() if torch.is_tensor(v) else v) for k, v in given.items()}
    cls = {"point": PointLights, "directional": DirectionalLights, "ambient": AmbientLights, "material": Materials}[case["kind"]]
    obj = cls(**given)
    cx.trivial(N == 1)

    def same(o, mo, what):
        for k, v in mo.items():
            t = getattr(o, k)
            # a value shared by the batch may be kept once after gather
            assert t.shape[0] in (1, v.shape[0]) and t.shape[1:] == v.shape[1:], f"{what}: {k} has shape {tuple(t.shape)}"
            assert bool((t == v).all()), f"{what}: {k} is {t.tolist()} instead of {v.tolist()}"

    assert len(obj) == N, f"len is {len(obj)}"
    same(obj, model, "construction")
    live = [(obj, model)]
    for _ in range(case["steps"]):
        i = int(r.integers(0, len(live)))
        o, mo = live[i]
        op = ("set", "set", "set", "clone", "gather", "get", "to")[int(r.integers(0, 7))]
        k = list(mo)[int(r.integers(0, len(mo)))]
        n = mo[k].shape[0]
        if op in ("set", "get"):
            if getattr(o, k).shape[0] != n:
                continue
            ix = int(r.integers(0, n)) if r.random() < 0.6 else slice(*sorted(int(v) for v in r.integers(0, n + 1, 2)))
            if op == "get":
                assert bool((getattr(o[ix], k) == mo[k][ix]).all()), f"{k}[{ix}]"
                continue
            shape = mo[k][ix].shape
            val = f32(r.random(shape))
            if val.numel() == 0:
                continue
            setattr(o[ix], k, val if r.random() < 0.5 else val.tolist())
            mo[k][ix] = val
        elif op == "clone":
            live.append((o.clone(), {a: v.clone() for a, v in mo.items()}))
        elif op == "gather":
            c = o.clone()
            idx = torch.from_numpy(r.integers(0, n, int(r.integers(1, 6))))
            c = c.gather_props(idx)
            for a, v in mo.items():
                t = getattr(c, a)
                w = v[idx]
                assert bool((t.expand_as(w) == w).all()), f"gather_props: {a} is {t.tolist()} instead of {w.tolist()}"
        else:
            o.to("cpu")
        for o2, m2 in live:
            same(o2, m2, f"after {op} {k}")
        for a, v in keep.items():
            ok = bool((given[a] == v).all()) if torch.is_tensor(v) else given[a] == v
            assert ok, f"{op} changed the tensor given as {a}"
    raises(lambda: cls(**{k: (f32(r.random((2, *v.shape[1:]))) if k == list(src.p)[0] else f32(r.random((3, *v.shape[1:])))) for k, v in src.p.items()}) if len(src.p) > 1
           else cls(**given)[1.5], ValueError, what="batch sizes which do not match")
    raises(lambda: obj["a"], ValueError, what="an index that is not an int or a slice")
    if case["kind"] != "ambient":
        key = "shininess" if case["kind"] == "material" else "specular_color"
        raises(lambda: cls(**{key: f32(r.random((1, 2)))}), ValueError, what=f"{key} of a wrong shape")


@sub(d(seed=SEED, N=ints(1, 3), camN=boolean(), H=ints(2, 8), W=ints(2, 8), K=ints(1, 2), where=one_of("init", "call"), sil=boolean()), quick=60, thorough=2000)
def renderer(case, cx):
    """MeshRenderer is the shader applied to the rasterizer, with or without the fragments."""
    c2 = dict(case, kind="point", lightN=True, matN=False)
    r = rng(case["seed"])
    s = Scene(r, c2)
    m = s.meshes()
    rs = RasterizationSettings(image_size=(case["H"], case["W"]), faces_per_pixel=case["K"], blur_radius=0.01 if case["sil"] else 0.0)
    call = {}
    other = cams.make(r, "fovp", 1)[0]
    if case["where"] == "call":
        call.update(cameras=s.cam, lights=s.light.make(), raster_settings=rs)
    sh_kw = dict(cameras=other if call else s.cam, lights=None if call else s.light.make())
    ras = MeshRasterizer(cameras=other if call else s.cam, raster_settings=None if call else rs)
    shader = SoftSilhouetteShader() if case["sil"] else HardPhongShader(**sh_kw)
    img = MeshRenderer(ras, shader)(m, **call)
    img2, frag = MeshRendererWithFragments(ras, shader)(m, **call)
    want_f = MeshRasterizer(cameras=s.cam, raster_settings=rs)(m)
    cx.trivial(not bool((want_f.pix_to_face >= 0).any()))
    for k in ("pix_to_face", "zbuf", "bary_coords", "dists"):
        equal(getattr(frag, k), getattr(want_f, k), what=f"fragments: {k} differs")
    equal(img, img2, what="the two renderers differ")
    if case["sil"]:
        p = torch.sigmoid(-want_f.dists.double() / 1e-4) * (want_f.pix_to_face >= 0)
        a = 1 - (1 - p).prod(-1)
        close(img[..., 3], a, 1e-4, what="silhouette differs")
    else:
        want = HardPhongShader(cameras=s.cam, lights=s.light.make())(want_f, m)
        equal(img, want, what="the image is not the shaded fragments")


DEFAULTS = {
    PointLights: dict(ambient_color=(0.5,) * 3, diffuse_color=(0.3,) * 3, specular_color=(0.2,) * 3, location=(0.0, 1.0, 0.0)),
    DirectionalLights: dict(ambient_color=(0.5,) * 3, diffuse_color=(0.3,) * 3, specular_color=(0.2,) * 3, direction=(0.0, 1.0, 0.0)),
    AmbientLights: dict(ambient_color=(1.0,) * 3),
    Materials: dict(ambient_color=(1.0,) * 3, diffuse_color=(1.0,) * 3, specular_color=(1.0,) * 3, shininess=64.0),
}


@sub(d(seed=SEED, cls=one_of(*(c.__name__ for c in DEFAULTS)), N=ints(1, 3), shader=one_of("hard", "soft", "gouraud", "flat")), quick=150, thorough=4000)
def defaults(case, cx):
    """What is not given has the documented default, in every element, and in shaders made without lights or materials."""
    r = rng(case["seed"])
    cls, N = {c.__name__: c for c in DEFAULTS}[case["cls"]], case["N"]
    want = DEFAULTS[cls]
    given = {k: f32(r.random((N,) if k == "shininess" else (N, 3))) for k in want if r.random() < 0.4}
    obj = cls(**given)
    n = N if given else 1
    assert len(obj) == n, f"len {len(obj)} instead of {n}"
    for k, v in want.items():
        exp = given[k] if k in given else f32(np.full(n, v) if k == "shininess" else np.tile(np.array(v), (n, 1)))
        equal(getattr(obj, k), exp, f"{cls.__name__}.{k}")
    cx.trivial(len(given) == len(want))
    # a shader which is given nothing but a camera
    s = Scene(r, dict(case, kind="point", lightN=False, matN=False, camN=False))
    frag, m = s.fragments(r, 2, 3, 2), s.meshes()
    sh = {"hard": HardPhongShader, "soft": SoftPhongShader, "gouraud": HardGouraudShader, "flat": HardFlatShader}[case["shader"]]
    full = dict(lights=PointLights(**{k: [v] for k, v in DEFAULTS[PointLights].items()}), materials=Materials(**{k: v if k == "shininess" else [v] for k, v in DEFAULTS[Materials].items()}),
                blend_params=BlendParams(sigma=1e-4, gamma=1e-4, background_color=(1.0, 1.0, 1.0)))
    keep = {k: v for k, v in full.items() if r.random() < 0.3}
    equal(sh(cameras=s.cam, **keep)(frag, m), sh(cameras=s.cam, **full)(frag, m), "a shader without lights, materials or blending parameters")
    raises(lambda: sh(**full)(frag, m), ValueError, what="a shader without cameras")
