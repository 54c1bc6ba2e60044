"""C37: training resumes from its checkpoints as if it had never stopped, with the rates which were configured."""
import collections.abc
import logging
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np
import torch
from omegaconf import OmegaConf

import pytorch3d
from pytorch3d.implicitron.dataset.data_loader_map_provider import DataLoaderMap
from pytorch3d.implicitron.dataset.data_source import DataSourceBase
from pytorch3d.implicitron.dataset.dataset_map_provider import DatasetMap
from pytorch3d.implicitron.evaluation.evaluator import EvaluatorBase
from pytorch3d.implicitron.models.base_model import ImplicitronModelBase
from pytorch3d.implicitron.models.generic_model import EvaluationMode
from pytorch3d.implicitron.tools import model_io
from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args, registry
from pytorch3d.implicitron.tools.stats import Stats
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, rng

sys.path.insert(0, os.path.dirname(os.path.dirname(pytorch3d.__file__)))
from projects.implicitron_trainer.impl.optimizer_factory import ImplicitronOptimizerFactory  # noqa: E402

PROP = "C37"
RULE = ("Trees of modules with rules for groups of parameters, rate policies resumed at every epoch, and whole trainings of a small model "
        "which are stopped at generated iterations, in training, validation or while storing. Oracle: the rules read from the most "
        "special to the most general, the formulas of the rates, and the same training without a stop, bit by bit. Non-trivial: more "
        "than one group, a rate which changed, a stop after the first checkpoint.")

logging.getLogger("projects").setLevel(logging.CRITICAL)
logging.getLogger("pytorch3d").setLevel(logging.CRITICAL)
Stats.plot_stats = lambda *a, **k: None  # only drawings


# ---- groups of parameters ----------------------------------------------------


class Node(torch.nn.Module):
    pass


def build(r, depth, names, path=()):
    m = Node()
    for i in range(int(r.integers(0, 3))):
        p = torch.nn.Parameter(torch.zeros(1), requires_grad=bool(r.random() < 0.85))
        setattr(m, f"p{i}", p)
        names.append((path, f"p{i}", p))
    if depth:
        for i in range(int(r.integers(0, 3))):
            setattr(m, f"m{i}", build(r, depth - 1, names, path + (f"m{i}",)))
    if r.random() < 0.6:
        keys = ["self"] * (r.random() < 0.5)
        for _ in range(int(r.integers(0, 3))):
            n = int(r.integers(0, 3))
            keys.append(".".join([f"m{r.integers(0, 2)}" for _ in range(n)] + [str(r.choice([f"p{r.integers(0, 2)}", f"m{r.integers(0, 2)}", "self"]))]))
        m.param_groups = {k: f"g{r.integers(0, 4)}" for k in keys}
    return m


def rules_at(root, path):
    """All rules which concern the module at the path, relative to it, the special ones in place of the general ones."""
    mods = [root]
    for n in path:
        mods.append(getattr(mods[-1], n))
    out = {}
    for i, m in enumerate(mods):
        pre = ".".join(path[i:]) + "." if i < len(path) else ""
        for k, g in getattr(m, "param_groups", {}).items():
            if k.startswith(pre):
                out[k[len(pre):]] = g
    return out


def group_of(root, path, name):
    here = rules_at(root, path)
    if name in here:
        return here[name]
    for n in range(len(path), -1, -1):
        rules = rules_at(root, path[:n])
        if "self" in rules:
            return rules["self"]
        if n:
            up = rules_at(root, path[: n - 1])
            if path[n - 1] in up:
                return up[path[n - 1]]
    return "default"


expand_args_fields(ImplicitronOptimizerFactory)


def factory(**kw):
    f = ImplicitronOptimizerFactory(**kw)
    return f


@sub(d(seed=SEED, depth=ints(0, 3), breed=one_of("Adam", "SGD", "Adagrad")), quick=200, thorough=8000)
def groups(case, cx):
    r = rng(case["seed"], 37)
    names = []
    root = build(r, case["depth"], names)
    rules = {p: dict(m.param_groups) for p, m in root.named_modules() if hasattr(m, "param_groups")}
    rates = {f"g{i}": float(r.uniform(0.001, 1)) for i in range(4)}
    f = factory(breed=case["breed"], lr=2.0, group_learning_rates=rates, momentum=0.25, weight_decay=0.125, betas=(0.5, 0.75))
    want = {}
    for path, n, p in names:
        if p.requires_grad:
            want.setdefault(group_of(root, path, n), []).append(p)
    cx.trivial(len(want) < 2)
    got = f._get_param_groups(root)
    where = {id(p): ".".join(path + (n,)) for path, n, p in names}
    a = {k: sorted(where[id(p)] for p in v) for k, v in got.items() if v}
    b = {k: sorted(where[id(p)] for p in v) for k, v in want.items()}
    assert a == b, f"groups {a} instead of {b} by {rules}"
    assert rules == {p: dict(m.param_groups) for p, m in root.named_modules() if hasattr(m, "param_groups")}, "the rules were changed"
    if not want:
        return
    opt, _ = f(last_epoch=0, model=root)
    assert isinstance(opt, getattr(torch.optim, case["breed"]))
    assert len(opt.param_groups) == len(want)
    for g in opt.param_groups:
        k = next(k for k, v in want.items() if any(x is g["params"][0] for x in v))
        close(torch.tensor(g["lr"]), torch.tensor(2.0 if k == "default" else rates[k]), 1e-9, 1e-9, f"rate of group {k}")
        assert g["weight_decay"] == 0.125 and g.get("momentum", 0.25) == 0.25 and g.get("betas", (0.5, 0.75)) == (0.5, 0.75)
    if any(k != "default" for k in want):
        k = next(k for k in want if k != "default")
        try:
            factory(group_learning_rates={x: 1.0 for x in rates if x != k})(last_epoch=0, model=root)
        except ValueError:
            return
        raise AssertionError("a group without a rate was accepted")


# ---- rates -------------------------------------------------------------------


def policy(r):
    kind = str(r.choice(["MultiStepLR", "Exponential", "LinearExponential", "multisteplr", "exponential", "linearexponential"]))
    gamma, step, m, s = float(r.uniform(0.1, 0.9)), int(r.integers(1, 6)), int(r.integers(1, 6)), float(r.uniform(0.01, 0.9))
    miles = tuple(sorted(int(x) for x in r.integers(1, 9, int(r.integers(0, 4)))))

    def factor(e):
        if "multi" in kind.lower():
            return gamma ** sum(e >= x for x in miles)
        if "linear" not in kind.lower():
            return gamma ** (e / step)
        return gamma ** ((e - m) / step) if e >= m else ((m - e) * s + e) / m

    return dict(lr_policy=kind, gamma=gamma, exponential_lr_step_size=step, linear_exponential_lr_milestone=m, linear_exponential_start_gamma=s,
                multistep_lr_milestones=miles), factor


@sub(d(seed=SEED, breed=one_of("Adam", "SGD", "Adagrad"), resume=ints(0, 8), end=ints(1, 10)), quick=120, thorough=4000)
def rates(case, cx):
    """The rate of every epoch, in a new training and in one resumed from the state which was stored."""
    r = rng(case["seed"], 38)
    kw, factor = policy(r)
    base = {"default": float(r.uniform(0.1, 1)), "g": float(r.uniform(0.1, 1))}

    def new():
        m = Node()
        m.a, m.b = torch.nn.Parameter(torch.ones(2)), torch.nn.Parameter(torch.ones(3))
        m.param_groups = {"b": "g"}
        return m

    f = factory(lr=base["default"], group_learning_rates={"g": base["g"]}, breed=case["breed"], **kw)
    cx.trivial(factor(case["end"]) == 1)

    def check(opt, e, what):
        for g in opt.param_groups:
            k = "default" if g["params"][0].shape[0] == 2 else "g"
            close(torch.tensor(g["lr"]), torch.tensor(base[k] * factor(e)), 1e-7, 1e-6, f"{what}: rate of {k} in epoch {e} by {kw}")

    with warnings.catch_warnings(), tempfile.TemporaryDirectory() as exp:
        warnings.simplefilter("ignore")
        m = new()
        opt, sch = f(last_epoch=0, model=m, exp_dir=exp)
        state = None
        for e in range(case["end"] + case["resume"]):
            check(opt, e, "training")
            sum((p * (e + 1)).sum() for p in m.parameters()).backward()
            opt.step()
            opt.zero_grad()
            if e + 1 == case["resume"]:  # as stored at the end of an epoch, before the rate changes
                fl = model_io.get_checkpoint(exp, e)
                model_io.save_model(m, Stats(["a"], epoch=e), fl, optimizer=opt)
                state = {k: v.clone() for k, v in m.state_dict().items()}
            sch.step()
        if state is None:
            return
        cx.label("resumed")
        m2 = new()
        m2.load_state_dict(state)
        ep = case["resume"] - 1
        opt2, sch2 = f(last_epoch=case["resume"], model=m2, exp_dir=exp, resume=True, resume_epoch=ep if r.random() < 0.5 else -1)
        assert sch2.last_epoch == case["resume"]
        for e in range(case["resume"], case["end"] + case["resume"]):
            check(opt2, e, "resumed")
            sum((p * (e + 1)).sum() for p in m2.parameters()).backward()
            opt2.step()
            opt2.zero_grad()
            sch2.step()
        for k, v in m.state_dict().items():
            close(m2.state_dict()[k], v, 1e-6, 1e-6, f"parameter {k} at the end")
        o3, _ = f(last_epoch=0, model=new(), exp_dir=exp, resume=False)
        check(o3, 0, "not resumed")
        assert case["breed"] == "Adagrad" or not o3.state, "a training which is not resumed begins with a state"
        try:
            f(last_epoch=0, model=new(), exp_dir=exp, resume_epoch=77)
        except FileNotFoundError:
            return
        raise AssertionError("resumed from an epoch which was never stored")


# ---- whole trainings ---------------------------------------------------------


class Crash(Exception):
    pass


PLAN = {"at": None, "log": [], "evals": []}  # what the running training does


class Batch(collections.abc.Mapping):
    def __init__(self, x):
        self.x = {"x": x}

    def to(self, *a, **k):
        return self

    def __getitem__(self, k):
        return self.x[k]

    def __iter__(self):
        return iter(self.x)

    def __len__(self):
        return 1


class Data(torch.utils.data.Dataset):
    def __init__(self, seed, n):
        self.x = torch.tensor(rng(seed).normal(size=(n, 4))).float()

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return self.x[i]


def collate(xs):
    return Batch(torch.stack(xs))


@registry.register
class VfModel(ImplicitronModelBase):
    log_vars: tuple = ("objective", "size", "missing")
    drop: float = 0.3

    def __post_init__(self):
        self.l1, self.l2 = torch.nn.Linear(4, 5), torch.nn.Linear(5, 1)
        self.bn = torch.nn.BatchNorm1d(5)
        self.param_groups = {"l2": "second"}
        self.log_vars = list(self.log_vars)

    def forward(self, *, x, evaluation_mode=EvaluationMode.EVALUATION, **kw):
        train = evaluation_mode == EvaluationMode.TRAINING
        assert self.training == train, "the mode of the model is not that of the epoch"
        PLAN["log"].append(("t" if train else "v", x.detach().sum().item()))
        assert torch.is_grad_enabled() == train
        if len(PLAN["log"]) == PLAN["at"]:
            raise Crash
        y = self.l2(torch.nn.functional.dropout(self.bn(self.l1(x)), self.drop, training=train))
        return {"objective": ((y[:, 0] - x.sum(1)) ** 2).mean() + 0.01 * torch.randn(()), "size": y.detach().abs().mean()}


@registry.register
class VfSource(DataSourceBase):
    seed: int = 0
    n: int = 8
    batch: int = 3
    val: bool = True
    test: bool = True

    def get_datasets_and_dataloaders(self):
        sets = [Data(self.seed + i, self.n) for i in range(3)]
        dl = [torch.utils.data.DataLoader(s, batch_size=self.batch, shuffle=i == 0, collate_fn=collate, drop_last=True) for i, s in enumerate(sets)]
        return DatasetMap(*sets), DataLoaderMap(dl[0], dl[1] if self.val else None, dl[2] if self.test else None)


@registry.register
class VfEvaluator(EvaluatorBase):
    def run(self, model, dataloader, **kw):
        PLAN["evals"].append((kw.get("epoch"), bool(kw.get("dump_to_json"))))
        return {}


with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    # the classes above have to be registered before
    from projects.implicitron_trainer import experiment as ex  # noqa: E402

CFG = None


def config():
    global CFG
    if CFG is None:
        expand_args_fields(ex.Experiment)
        CFG = OmegaConf.structured(ex.Experiment)
    return CFG.copy()


def train(exp, c, epochs, crash_at=None, model=None, **loop):
    cfg = config()
    cfg.exp_dir = exp
    cfg.seed = c["exp_seed"]
    cfg.data_source_class_type = "VfSource"
    src = cfg.data_source_VfSource_args
    src.seed, src.n, src.batch, src.val, src.test = c["data"], c["n"], c["batch"], c["val"], True
    mf = cfg.model_factory_ImplicitronModelFactory_args
    mf.model_class_type = "VfModel"
    for k, v in (model or {}).items():
        mf[k] = v
    of = cfg.optimizer_factory_ImplicitronOptimizerFactory_args
    for k, v in c["policy"].items():
        of[k] = v
    of.lr, of.breed, of.group_learning_rates = c["lr"], c["breed"], {"second": c["lr"] / 2}
    tl = cfg.training_loop_ImplicitronTrainingLoop_args
    tl.evaluator_class_type = "VfEvaluator"
    tl.visdom_server = "None"
    tl.visualize_interval = 0
    tl.max_epochs = epochs
    for k, v in loop.items():
        tl[k] = v
    PLAN.update(at=crash_at, log=[], evals=[])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e = ex.Experiment(**cfg)
        try:
            e.run()
        except Crash:
            return False
    return True


def last(exp):
    fl = model_io.find_last_checkpoint(exp)
    return None if fl is None else (model_io.parse_epoch_from_model_path(fl),) + tuple(model_io.load_model(fl, None))


def same(a, b, what):
    if isinstance(a, dict):
        assert a.keys() == b.keys(), f"{what}: {list(a)} and {list(b)}"
        for k in a:
            same(a[k], b[k], f"{what}.{k}")
    elif isinstance(a, (list, tuple)):
        assert len(a) == len(b), what
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f"{what}[{i}]")
    elif torch.is_tensor(a):
        assert torch.equal(a, b), f"{what} differs by {(a.double() - b.double()).abs().max():.3g}"
    else:
        assert a == b or (a != a and b != b), f"{what}: {a} and {b}"


def averages(st):
    return {s: {k: m.get_epoch_averages() for k, m in v.items() if k != "sec/it"} for s, v in st.stats.items()}


def setting(r):
    pol, factor = policy(r)
    return dict(exp_seed=int(r.integers(0, 1000)), data=int(r.integers(0, 1000)), n=int(r.integers(4, 10)), batch=int(r.integers(2, 4)), val=bool(r.random() < 0.6),
                policy=pol, lr=float(r.uniform(0.01, 0.1)), breed=str(r.choice(["Adam", "SGD", "Adagrad"])))


@sub(d(seed=SEED, epochs=ints(1, 5), stops=ints(1, 3), clip=boolean()), quick=14, thorough=400, shards=2, timeout=60)
def resumed(case, cx):
    r = rng(case["seed"], 39)
    c = setting(r)
    n = case["epochs"]
    purge = int(r.integers(0, 3))
    loop = dict(validation_interval=int(r.integers(1, 3)), test_interval=int(r.choice([-1, 1, 2])), clip_grad=0.5 if case["clip"] else 0.0, store_checkpoints_purge=purge,
                test_when_finished=bool(r.random() < 0.5))
    top = tempfile.mkdtemp(prefix="vf_train_")
    try:
        a, b = os.path.join(top, "a"), os.path.join(top, "b")
        assert train(a, c, n, **loop)
        full, evals = list(PLAN["log"]), list(PLAN["evals"])
        nb = c["n"] // c["batch"]
        assert [k for k, _ in full] == [k for e in range(n) for k in ["t"] * nb + ["v"] * (nb if c["val"] and e % loop["validation_interval"] == 0 else 0)], "other iterations"
        ti = loop["test_interval"]
        assert evals == [(None, False) for e in range(n) if ti > 0 and e % ti == 0] + [(n - 1, True)] * loop["test_when_finished"], f"evaluations {evals}"
        held = model_io.find_last_checkpoint(a, all_checkpoints=True)
        first = 0 if purge == 0 else max(0, n - 1 - purge)
        assert [model_io.parse_epoch_from_model_path(f) for f in held] == list(range(first, n)), f"checkpoints {held} with a purge of {purge}"
        done, pos, stored = [], 0, -1
        for _ in range(case["stops"]):
            if stored + 1 >= n:
                break
            at = int(r.integers(1, len(full) - pos + 1))
            if train(b, c, n, crash_at=at, **loop):
                raise AssertionError(f"the training ended before iteration {at}")
            assert [x for x in PLAN["log"]] == full[pos:pos + at], "the training resumed elsewhere"
            now = last(b)
            if now is not None:
                stored = now[0]
                pos = sum(nb + (nb if c["val"] and e % loop["validation_interval"] == 0 else 0) for e in range(stored + 1))
        cx.trivial(stored < 0)
        cx.label(c["policy"]["lr_policy"], c["breed"])
        mode = int(r.integers(0, 4))
        if mode == 0 and stored >= 0:
            os.remove(model_io.get_stats_path(model_io.find_last_checkpoint(b)))
            cx.label("without statistics")
        assert train(b, c, n, **loop)
        same([x for x in PLAN["log"]], full[pos:], "iterations")
        ea, ma, sa, oa = last(a)
        eb, mb, sb, ob = last(b)
        assert ea == eb == n - 1
        same(ma, mb, "model")
        same(oa, ob, "optimizer")
        assert sa.epoch == sb.epoch == n - 1
        if not (mode == 0 and stored >= 0):
            # statistics which do not reach up to the stored epoch are cleared, as logged
            keep = ("train", "val") if loop["validation_interval"] == 1 else ("train",)
            same(*({k: v for k, v in averages(x).items() if k in keep} for x in (sa, sb)), "statistics")
        # longer
        assert train(b, c, n + 1, **loop)
        more = list(PLAN["log"])
        assert len(more) == nb + (nb if c["val"] and n % loop["validation_interval"] == 0 else 0), "one more epoch has other iterations"
        d2 = os.path.join(top, "c")
        assert train(d2, c, n + 1, **loop)
        same(last(d2)[1], last(b)[1], "model after one more epoch")
        # from a certain epoch, or from the beginning
        if mode == 1 and purge == 0 and n > 1:
            k = int(r.integers(1, n))
            assert train(b, c, n, model=dict(resume_epoch=k), **loop)
            same([x for x in PLAN["log"]], [x for x in full[sum(nb + (nb if c["val"] and e % loop["validation_interval"] == 0 else 0) for e in range(k + 1)):]], "iterations")
            same(ma, model_io.load_model(model_io.get_checkpoint(b, n - 1), None)[0], f"model from epoch {k}")
            cx.label("from an epoch")
        if mode == 2:
            assert train(b, c, n, model=dict(resume=False), **loop)
            same([x for x in PLAN["log"]], full, "iterations")
            same(ma, model_io.load_model(model_io.get_checkpoint(b, n - 1), None)[0], "model from the beginning")
            cx.label("from the beginning")
        if mode == 3:
            try:
                train(os.path.join(top, "none"), c, n, model=dict(force_resume=True), **loop)
            except FileNotFoundError:
                pass
            else:
                raise AssertionError("resumed from nothing")
            assert train(a, c, n, **{**loop, "eval_only": True})
            assert PLAN["log"] == [] and PLAN["evals"] == [(n - 1, True)], "an evaluation trains"
            cx.label("evaluated")
    finally:
        shutil.rmtree(top)


@sub(d(seed=SEED, clip=one_of(0.001, 0.05, 1.0, 1000.0), wd=one_of(0.0, 0.5), epochs=ints(1, 2)), quick=10, thorough=200, timeout=60)
def steps(case, cx):
    """The gradient is clipped by its norm over all parameters, before the decay of the weights."""
    r = rng(case["seed"], 40)
    c = setting(r)
    c["batch"] = c["n"]
    c["breed"], c["val"] = "SGD", False
    c["policy"] = dict(lr_policy="Exponential", gamma=1.0, momentum=0.0, weight_decay=0.0)
    lr = c["lr"]
    top = tempfile.mkdtemp(prefix="vf_train_")

    def run(name, **kw):
        assert train(os.path.join(top, name), c, 1, store_checkpoints_purge=0, **kw)
        return {k: v.double() for k, v in last(os.path.join(top, name))[1].items() if "bn.running" not in k and "num_b" not in k}

    try:
        c["lr"] = 0.0
        p0 = run("a")
        c["lr"] = lr
        p1 = run("b")
        c["policy"]["weight_decay"] = case["wd"]
        p2 = run("c", clip_grad=case["clip"])
    finally:
        shutil.rmtree(top)
    rate = {k: lr / 2 if k.startswith("l2") else lr for k in p0}
    g = {k: (p0[k] - p1[k]) / rate[k] for k in p0}
    norm = float(sum((v**2).sum() for v in g.values()).sqrt())
    f = min(1.0, case["clip"] / (norm + 1e-6))
    cx.trivial(f == 1)
    for k in p0:
        close(p2[k], p0[k] - rate[k] * (f * g[k] + case["wd"] * p0[k]), 2e-6, 2e-5, f"{k} after a step clipped from {norm:.4g} to {case['clip']}")
