"""C38: the configuration system of implicitron."""
import copy
import enum
import typing
import warnings
from dataclasses import field
from typing import Dict, List, Optional, Tuple

import torch
from omegaconf import OmegaConf
from omegaconf.errors import OmegaConfBaseException

from pytorch3d.implicitron.tools import config as cfg
from pytorch3d.implicitron.tools.config import (Configurable, ReplaceableBase, enable_get_default_args, expand_args_fields, get_default_args, get_default_args_field,
                                                registry, remove_unused_components, run_auto_creation)
from vlib.core import sub
from vlib.gen import SEED, boolean, d, ints, one_of, raises, rng

PROP = "C38"
RULE = ("random systems of configurable and replaceable classes: up to 3 levels of members (plain, optional, pluggable, optional pluggable), inheritance of classes and "
        "implementations, overridden defaults, tweaks, own creation functions, modules; random overrides of values, types and switches through YAML. Oracle: an interpreter of the "
        "same specification with plain dictionaries. Non-trivial: the system has a nested component.")


class Color(enum.Enum):
    RED = 1
    BLUE = 2


KINDS = ("int", "float", "str", "bool", "optint", "tuple", "list", "dict", "enum")
NAMES = ("alpha", "beta", "gamma", "delta", "eps")


def leaf(r, kind):
    """(annotation, plain value as it appears in a container)"""
    v = dict(int=int(r.integers(-5, 6)), float=float(r.integers(-8, 9)) / 4, str=str(r.choice(["", "x", "1", "null", "a b"])), bool=bool(r.integers(2)), optint=None if r.random() < 0.5 else int(r.integers(9)),
             tuple=[int(x) for x in r.integers(0, 5, int(r.integers(0, 4)))], list=[int(x) for x in r.integers(0, 5, int(r.integers(0, 4)))],
             dict={f"k{i}": int(r.integers(9)) for i in range(int(r.integers(0, 3)))}, enum=Color.RED if r.random() < 0.5 else Color.BLUE)[kind]
    return v


ANN = dict(int=int, float=float, str=str, bool=bool, optint=Optional[int], tuple=Tuple[int, ...], list=List[int], dict=Dict[str, int], enum=Color)


class Spec:
    """A class to be: leaf fields {name: (kind, default)}, members {name: Member}, overrides of inherited defaults."""

    def __init__(self, name, parent=None):
        self.name, self.parent = name, parent
        self.fields, self.members, self.types, self.enabled = {}, {}, {}, {}
        self.cls = None
        self.module = parent.module if parent is not None else False

    def chain(self):
        return ([] if self.parent is None else self.parent.chain()) + [self]

    def all_fields(self):
        out = {}
        for s in self.chain():
            out.update(s.fields)
        return out

    def all_members(self):
        out = {}
        for s in self.chain():
            out.update(s.members)
        return out

    def default(self, table, name):
        for s in self.chain()[::-1]:
            if name in getattr(s, table):
                return getattr(s, table)[name]


class Member:
    def __init__(self, kind, target, tweak=None, own=False, exclude=None):
        # target: Spec, or Base for the pluggable ones
        self.kind, self.target, self.tweak, self.own, self.exclude = kind, target, tweak, own, exclude

    def impls(self):
        return {s.name: s for s in sorted(self.target.impls, key=lambda s: s.name) if self.exclude is None or self.exclude not in s.chain()}


class Base:
    def __init__(self, spec, impls):
        self.spec, self.impls = spec, impls


def gen_fields(r, spec, n, names=NAMES):
    inherited = {} if spec.parent is None else spec.parent.all_fields()
    for nm in r.choice(names, n, replace=False):
        nm = str(nm)
        kind = inherited[nm][0] if nm in inherited else str(r.choice(KINDS))
        spec.fields[nm] = (kind, leaf(r, kind))


class System:
    def __init__(self, r, depth):
        self.r, self.n = r, 0
        self.root = self.conf(depth, root=True)

    def fresh(self, stem):
        self.n += 1
        return f"{stem}{self.n}"

    def conf(self, depth, root=False):
        r = self.r
        parent = self.conf(depth - 1) if depth and r.random() < 0.3 else None
        s = Spec(self.fresh("Conf"), parent)
        if parent is None and r.random() < 0.2:
            s.module = True
        gen_fields(r, s, int(r.integers(0, 3)))
        self.add_members(s, depth, 1 + int(r.integers(0, 3)) if root else int(r.integers(0, 3)))
        return s

    def base(self, depth):
        r = self.r
        b = Spec(self.fresh("Base"))
        b.module = bool(r.random() < 0.2)
        gen_fields(r, b, int(r.integers(0, 2)))
        if depth and r.random() < 0.15:
            self.add_members(b, depth - 1, 1)
        out = Base(b, [])
        for _ in range(int(r.integers(1, 4))):
            parent = b if r.random() < 0.7 or not out.impls else out.impls[int(r.integers(len(out.impls)))]
            # names in an order different from that of the definition
            i = Spec(self.fresh(str(r.choice(["Impl", "Another", "Zeta"]))), parent)
            gen_fields(r, i, int(r.integers(0, 3)))
            self.add_members(i, depth, int(r.integers(0, 2)))
            out.impls.append(i)
        if r.random() < 0.25:
            # the last implementation has a member of the same base class
            i = Spec(self.fresh("Recursive"), b)
            self.declare(i, "inner", Member("opt_repl", Base(b, out.impls), exclude=i))
            i.types["inner"] = str(r.choice([x.name for x in out.impls])) if r.random() < 0.7 else None
            # known to the other members, too
            out = Base(b, out.impls + [i])
        return out

    def declare(self, s, name, m):
        s.members[name] = m

    def add_members(self, s, depth, n):
        r = self.r
        if not depth:
            return
        taken = set() if s.parent is None else set(s.parent.all_members())
        for nm in r.permutation(["part", "core", "view", "part_core", "view_x"])[:n]:
            nm = str(nm)
            if nm in taken:
                continue
            kind = str(r.choice(["conf", "opt_conf", "repl", "repl", "opt_repl"]))
            if kind == "conf" and nm in ("part_core", "view_x"):
                # part_core_args could belong to a class "core" of a pluggable part
                kind = "opt_conf"
            target = self.base(depth - 1) if kind.endswith("repl") else self.conf(depth - 1)
            tweak = None
            if r.random() < 0.25:
                impls = [target] if not kind.endswith("repl") else target.impls
                cand = [(i.name, f, k) for i in impls for f, (k, _) in i.all_fields().items()]
                if cand:
                    c, f, k = cand[int(r.integers(len(cand)))]
                    tweak = (c, f, leaf(r, k))
            s.members[nm] = m = Member(kind, target, tweak, own=bool(r.random() < 0.15))
            if kind == "opt_conf":
                s.enabled[nm] = bool(r.integers(2))
            elif kind.endswith("repl") and r.random() < 0.85:
                names = list(m.impls())
                s.types[nm] = None if kind == "opt_repl" and r.random() < 0.3 else names[int(r.integers(len(names)))]
        # a subclass may choose other defaults
        if s.parent is not None:
            for nm, m in s.parent.all_members().items():
                if r.random() < 0.4:
                    if m.kind == "opt_conf":
                        s.enabled[nm] = bool(r.integers(2))
                    elif m.kind.endswith("repl"):
                        names = list(m.impls())
                        s.types[nm] = names[int(r.integers(len(names)))]


# the real classes


def python_default(kind, v):
    if kind == "tuple":
        return tuple(v)
    if kind in ("list", "dict"):
        return field(default_factory=lambda: copy.copy(v))
    return v


def build(s, root_base, known):
    """The class of a Spec; root_base is Configurable or ReplaceableBase if it has no parent."""
    if s.cls is not None:
        return s.cls
    if s.parent is not None:
        bases = (build(s.parent, root_base, known),)
    else:
        bases = (root_base, torch.nn.Module) if s.module else (root_base,)
    ns, ann = {}, {}
    for nm, (kind, v) in s.fields.items():
        ann[nm] = ANN[kind]
        ns[nm] = python_default(kind, v)
    for nm, m in s.members.items():
        t = build_base(m.target, known) if m.kind.endswith("repl") else build(m.target, Configurable, known)
        ann[nm] = Optional[t] if m.kind.startswith("opt") else t
        if m.own:
            def create(self, nm=nm, m=m):
                self.called = getattr(self, "called", ()) + (nm,)
                if m.kind.endswith("repl"):
                    tn = getattr(self, nm + "_class_type")
                    a = None if tn is None else getattr(self, f"{nm}_{tn}_args", None)
                elif m.kind == "conf":
                    tn, a = True, getattr(self, nm + "_args")
                else:
                    tn, a = getattr(self, nm + "_enabled"), getattr(self, nm + "_args")
                getattr(self, f"create_{nm}_impl")(tn, a)
            ns["create_" + nm] = create
        if m.tweak is not None:
            def tweak(cls, member_type, args, m=m):
                if member_type.__name__ == m.tweak[0]:
                    args[m.tweak[1]] = copy.copy(m.tweak[2])
            ns[nm + "_tweak_args"] = classmethod(tweak)
    for nm, v in s.types.items():
        m = s.all_members()[nm]
        ann[nm + "_class_type"] = Optional[str] if m.kind == "opt_repl" else str
        ns[nm + "_class_type"] = v
    for nm, v in s.enabled.items():
        ann[nm + "_enabled"] = bool
        ns[nm + "_enabled"] = v
    if s.parent is None:
        ns["__post_init__"] = lambda self: run_auto_creation(self)
    ns["__annotations__"] = ann
    s.cls = type(s.name, bases, ns)
    known.append(s)
    return s.cls


def build_base(b, known):
    c = build(b.spec, ReplaceableBase, known)
    for i in b.impls:
        if i.cls is None:
            registry.register(build(i, ReplaceableBase, known))
    return c


# the reference interpreter


def defaults(s):
    out = {nm: copy.deepcopy(v) for nm, (k, v) in s.all_fields().items()}
    for nm, m in s.all_members().items():
        if m.kind.endswith("repl"):
            found = [x for x in s.chain() if nm in x.types]
            out[nm + "_class_type"] = found[-1].types[nm] if found else "UNDEFAULTED"
            for iname, i in m.impls().items():
                out[f"{nm}_{iname}_args"] = tweaked(defaults(i), m, iname)
        else:
            out[nm + "_args"] = tweaked(defaults(m.target), m, m.target.name)
            if m.kind == "opt_conf":
                out[nm + "_enabled"] = s.default("enabled", nm)
    return out


def tweaked(dd, m, name):
    if m.tweak is not None and m.tweak[0] == name:
        dd[m.tweak[1]] = copy.deepcopy(m.tweak[2])
    return dd


def pruned(s, args):
    out = {k: v for k, v in args.items() if k in s.all_fields()}
    for nm, m in s.all_members().items():
        if m.kind.endswith("repl"):
            t = out[nm + "_class_type"] = args[nm + "_class_type"]
            if t in m.impls():
                out[f"{nm}_{t}_args"] = pruned(m.impls()[t], args[f"{nm}_{t}_args"])
        else:
            if m.kind == "opt_conf":
                out[nm + "_enabled"] = args[nm + "_enabled"]
                if not args[nm + "_enabled"]:
                    continue
            out[nm + "_args"] = pruned(m.target, args[nm + "_args"])
    return out


def creatable(s, args):
    """Whether all chosen types are valid."""
    for nm, m in s.all_members().items():
        if m.kind.endswith("repl"):
            t = args[nm + "_class_type"]
            if t is None:
                if m.kind == "repl":
                    return False
                continue
            if t not in m.impls() or not creatable(m.impls()[t], args[f"{nm}_{t}_args"]):
                return False
        elif m.kind == "conf" or args[nm + "_enabled"]:
            if not creatable(m.target, args[nm + "_args"]):
                return False
    return True


def plain(x):
    if OmegaConf.is_config(x):
        x = OmegaConf.to_container(x)
    if isinstance(x, (tuple, list)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def same(a, b):
    """Equality which tells 1 from True and 1.0."""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


def difference(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return f"{path}.{k} " + ("is missing" if k not in a else "is unexpected")
            if not same(a[k], b[k]):
                return difference(a[k], b[k], f"{path}.{k}")
    return f"{path}: got {a!r}, expected {b!r}"


def check_object(obj, s, args, path):
    assert type(obj) is s.cls, f"{path} is a {type(obj).__name__} instead of {s.name}"
    for nm, (kind, _) in s.all_fields().items():
        got = plain(getattr(obj, nm))
        assert same(got, args[nm]), f"{path}.{nm}: got {got!r}, expected {args[nm]!r}"
    calls = []
    for nm, m in s.all_members().items():
        if m.own:
            calls.append(nm)
        sub_ = getattr(obj, nm)
        if m.kind.endswith("repl"):
            t = args[nm + "_class_type"]
            if t is None:
                assert sub_ is None, f"{path}.{nm}"
            else:
                check_object(sub_, m.impls()[t], args[f"{nm}_{t}_args"], f"{path}.{nm}")
                if s.module and m.impls()[t].module:
                    assert dict(obj.named_children()).get(nm) is sub_, f"{path}.{nm} is no child module"
        elif m.kind == "opt_conf" and not args[nm + "_enabled"]:
            assert sub_ is None, f"{path}.{nm}"
        else:
            check_object(sub_, m.target, args[nm + "_args"], f"{path}.{nm}")
    assert sorted(getattr(obj, "called", ())) == sorted(calls), f"{path}: own creation functions {calls} were called as {getattr(obj, 'called', ())}"


def overrides(r, s, args, p):
    """Random changes (nested dictionary) of arguments, applied to args in place."""
    out = {}
    for nm, (kind, _) in s.all_fields().items():
        if r.random() < p:
            v = leaf(r, kind)
            if kind == "dict":
                # dictionaries are merged
                out[nm] = copy.deepcopy(v)
                args[nm] = {**args[nm], **v}
            else:
                out[nm] = args[nm] = copy.deepcopy(v)
    for nm, m in s.all_members().items():
        if m.kind.endswith("repl"):
            if r.random() < 0.4 or args[nm + "_class_type"] == "UNDEFAULTED":
                names = list(m.impls())
                t = names[int(r.integers(len(names)))]
                if m.kind == "opt_repl" and r.random() < 0.2:
                    t = None
                out[nm + "_class_type"] = args[nm + "_class_type"] = t
            subs = {f"{nm}_{k}_args": i for k, i in m.impls().items()}
        else:
            if m.kind == "opt_conf" and r.random() < 0.4:
                out[nm + "_enabled"] = args[nm + "_enabled"] = bool(r.integers(2))
            subs = {nm + "_args": m.target}
        for k, i in subs.items():
            o = overrides(r, i, args[k], p)
            if o:
                out[k] = o
    return out


def enums(x):
    if isinstance(x, dict):
        return {k: enums(v) for k, v in x.items()}
    return x.name if isinstance(x, enum.Enum) else x


@sub(d(seed=SEED, depth=ints(1, 3), first=one_of("args", "instance", "expand", "inner"), yaml=boolean(), bad=ints(0, 7)), quick=300, thorough=20000)
def systems(case, cx):
    r = rng(case["seed"])
    S = System(r, case["depth"])
    known = []
    bases = set()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            run_system(case, cx, r, S.root, known)
    finally:
        for s in known:
            registry._mapping.pop(s.cls, None)


def run_system(case, cx, r, root, known):
    C = build(root, Configurable, known)
    want = defaults(root)
    cx.trivial(not any(isinstance(v, dict) and k.endswith("_args") for k, v in want.items()))
    if case["first"] == "instance" and creatable(root, want):
        check_object(C(), root, want, "first instance")
    elif case["first"] == "expand":
        assert expand_args_fields(C) is C and expand_args_fields(C) is C
    elif case["first"] == "inner":
        # some inner class is expanded before the outer one
        s = known[int(r.integers(len(known)))]
        assert same(plain(get_default_args(s.cls)), defaults(s)), difference(plain(get_default_args(s.cls)), defaults(s), s.name)
    args = get_default_args(C)
    assert same(plain(args), want), "default arguments: " + difference(plain(args), want)
    # they are typed and of a fixed structure
    if case["bad"] == 0:
        raises(lambda: OmegaConf.merge(args, {"unknown": 1}), OmegaConfBaseException, what="unknown argument")
        for k, (kind, _) in root.all_fields().items():
            if kind in ("int", "float", "optint"):
                raises(lambda: OmegaConf.merge(args, {k: "no number"}), OmegaConfBaseException, what="type of an argument")
        raises(lambda: C(**args, unknown=2), TypeError, what="unknown argument of the class")
    if creatable(root, want):
        check_object(C(**args), root, want, "instance")
        check_object(C(), root, want, "instance without arguments")
        assert same(plain(args), want), "creating an object changed its arguments"
    else:
        bad = args
        raises(lambda: C(**bad), ValueError, what="undefined type")
    # changes
    changed = copy.deepcopy(want)
    o = overrides(r, root, changed, 0.5)
    if case["yaml"]:
        o = OmegaConf.create(OmegaConf.to_yaml(OmegaConf.create(enums(o))))
    merged = OmegaConf.merge(args, o)
    assert same(plain(merged), changed), "after a merge: " + difference(plain(merged), changed)
    if creatable(root, changed):
        obj = C(**merged)
        check_object(obj, root, changed, "changed instance")
        # through YAML and back as untyped dictionaries
        text = OmegaConf.to_yaml(merged)
        again = OmegaConf.merge(get_default_args(C), OmegaConf.create(text))
        assert same(plain(again), changed), "after YAML: " + difference(plain(again), changed)
        # only the parts in use
        used = copy.deepcopy(merged)
        remove_unused_components(used)
        exp = pruned(root, changed)
        assert same(plain(used), exp), "parts in use: " + difference(plain(used), exp)
        check_object(C(**used), root, changed, "instance of the parts in use")
        twice = copy.deepcopy(used)
        remove_unused_components(twice)
        assert same(plain(twice), exp)
    # none of this changed the defaults
    fresh = get_default_args(C)
    assert same(plain(fresh), want), "the defaults changed: " + difference(plain(fresh), want)
    # types which do not exist
    for nm, m in root.all_members().items():
        if m.kind.endswith("repl") and case["bad"] == 1:
            x = copy.deepcopy(merged)
            x[nm + "_class_type"] = "Nonexistent"
            raises(lambda: C(**x), ValueError, what="type which is not registered")
            base = m.target.spec.cls
            names = sorted(i.name for i in m.target.impls)
            assert [c.__name__ for c in registry.get_all(base)] == names, "registered classes"
            for i in m.target.impls:
                assert registry.get(base, i.name) is i.cls
                below = sorted(j.name for j in m.target.impls if i in j.chain() and j is not i)
                assert [c.__name__ for c in registry.get_all(i.cls)] == below, "registered subclasses"
                for j in m.target.impls:
                    if i in j.chain():
                        assert registry.get(i.cls, j.name) is j.cls
                    else:
                        raises(lambda: registry.get(i.cls, j.name), ValueError, what="class of another branch")


@sub(d(seed=SEED, cls=boolean(), n=ints(0, 6), nest=boolean()), quick=200, thorough=10000)
def functions(case, cx):
    """Defaults of plain functions and classes."""
    r = rng(case["seed"])
    params, want, ns = ["required"], {}, {"typing": typing, "Color": Color, "Optional": Optional, "Tuple": Tuple, "List": List, "Dict": Dict, "torch": torch}
    for i in range(case["n"]):
        kind = str(r.choice(KINDS + ("tensor",)))
        if kind == "tensor":
            # not representable, so not part of the defaults
            ns[f"dflt{i}"] = torch.float32
            params.append(f"p{i}: torch.dtype = dflt{i}")
            continue
        v = leaf(r, kind)
        want[f"p{i}"] = v
        ns[f"dflt{i}"] = tuple(v) if kind == "tuple" else v
        a = {"int": "int", "float": "float", "str": "str", "bool": "bool", "optint": "Optional[int]", "tuple": "Tuple[int, ...]", "list": "List[int]", "dict": "Dict[str, int]", "enum": "Color"}[kind]
        params.append(f"p{i}: {a} = dflt{i}")
    cx.trivial(len(want) < 2)
    name = f"thing{case['seed']}"
    ns["__name__"] = __name__
    if case["cls"]:
        exec(f"class {name}:\n    def __init__(self, {', '.join(params)}):\n        self.values = {{k: v for k, v in locals().items() if k != 'self'}}\n", ns)
    else:
        exec(f"def {name}({', '.join(params)}):\n    return locals()\n", ns)
    f = ns[name]
    import sys
    mod = sys.modules[__name__]
    dn = f"_{name}_default_args_"
    try:
        raises(lambda: get_default_args(f), ValueError, what="no defaults enabled")
        enable_get_default_args(f)
        args = get_default_args(f)
        assert same(plain(args), want), difference(plain(args), want)
        out = f(1, **args)
        out = out.values if case["cls"] else out
        assert all(same(plain(out[k]), want[k]) for k in want)
        for k in args:
            if isinstance(want[k], (list, dict)):
                continue
            args[k] = None if want[k] is None else args[k]
        for k in want:
            if isinstance(want[k], dict):
                args[k]["new"] = 5
            elif isinstance(want[k], list):
                args[k].append(7)
        fresh = get_default_args(f)
        assert same(plain(fresh), want), "the defaults changed: " + difference(plain(fresh), want)
        raises(lambda: enable_get_default_args(f, overwrite=False), ValueError, what="second definition")
        if case["nest"]:
            class Outer(Configurable):
                k: int = 3
                f_args: dict = get_default_args_field(f)
            a = get_default_args(Outer)
            assert same(plain(a), {"k": 3, "f_args": want}), difference(plain(a), {"k": 3, "f_args": want})
            a.f_args = {}
            assert same(plain(get_default_args(Outer)["f_args"]), want)
    finally:
        if hasattr(mod, dn):
            delattr(mod, dn)
