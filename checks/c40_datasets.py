"""C40: indices, filters, subsets and batches of the implicitron datasets."""
import contextlib
import dataclasses
import io
import json
import multiprocessing
import multiprocessing.dummy
import os
import tempfile
import typing
import warnings
from collections import namedtuple
from typing import Any, Dict, List, NamedTuple, Optional, Tuple

import numpy as np
import sqlalchemy as sa
import torch
from sqlalchemy.orm import Session

from pytorch3d.implicitron.dataset import json_index_dataset_map_provider_v2 as v2mod
from pytorch3d.implicitron.dataset import orm_types, types
from pytorch3d.implicitron.dataset.json_index_dataset import JsonIndexDataset
from pytorch3d.implicitron.dataset.json_index_dataset_map_provider import JsonIndexDatasetMapProvider
from pytorch3d.implicitron.dataset.json_index_dataset_map_provider_v2 import JsonIndexDatasetMapProviderV2
from pytorch3d.implicitron.dataset.single_sequence_dataset import SingleSceneDatasetMapProviderBase
from pytorch3d.implicitron.dataset.sql_dataset import SqlIndexDataset
from pytorch3d.implicitron.dataset.sql_dataset_provider import SqlIndexDatasetMapProvider
from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args
from pytorch3d.renderer import PerspectiveCameras
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng, rot

PROP = "C40"
RULE = ("annotations of up to 6 sequences of up to 8 frames in up to 3 categories, shuffled, with gaps and ties of timestamps, masks and subsets, stored as JSON and SQLite; "
        "random combinations of all filters; joins, subsets, evaluation batches and map providers. Oracle: the same filters over plain Python lists; what an index returns is always the "
        "frame it stands for. Non-trivial: some frames are kept and some removed.")

for c in (JsonIndexDataset, SqlIndexDataset, JsonIndexDatasetMapProvider, JsonIndexDatasetMapProviderV2, SqlIndexDatasetMapProvider):
    expand_args_fields(c)

NO_BLOBS = dict(load_images=False, load_depths=False, load_depth_masks=False, load_masks=False, box_crop=False, image_height=None, image_width=None)


class World:
    """Plain records of a dataset."""

    def __init__(self, r, nseq, ncat, nframes, ts="inc", shuffle=True, null_mass=False, prefix="s", gaps=False):
        names = [f"{prefix}{int(i)}" for i in r.permutation(20)[:nseq]]
        self.seqs = [dict(name=n, cat=f"cat{int(r.integers(ncat))}", q=None if r.random() < 0.3 else float(np.round(r.random(), 3)), cloud=bool(r.random() < 0.5)) for n in names]
        self.frames = []
        for s in self.seqs:
            n = int(r.integers(1, nframes + 1))
            nos = np.sort(r.permutation(3 * nframes)[:n])
            t = np.cumsum(r.choice([0.03, 0.05, 0.25, 1.0], n)).round(3)
            if ts == "ties":
                t = (t * 2).round() / 2
            elif ts == "none":
                t = [None] * n
            elif ts == "minus":
                t = [-1.0] * n
            for k, tt in zip(nos, t):
                mass = float(r.choice([0, 0, 5.0, 40.0, 300.0]))
                if null_mass and r.random() < 0.2:
                    mass = None
                self.frames.append(dict(seq=s["name"], no=int(k), ts=None if tt is None else float(tt), path=f"{s['name']}/images/{int(k)}.jpg", mass=mass, subset=["train", "val", "test", None][int(r.integers(4))],
                                        view=not (gaps and r.random() < 0.2), masked=not (gaps and null_mass and r.random() < 0.2), meta=["train_known", "test_unseen", "test_known"][int(r.integers(3))]))
        if shuffle:
            self.frames = [self.frames[i] for i in r.permutation(len(self.frames))]
        self.R = {(f["seq"], f["no"]): rot(r).numpy() for f in self.frames}

    def seq(self, name):
        return next(s for s in self.seqs if s["name"] == name)

    def annotations(self):
        T_ = types
        fa = [T_.FrameAnnotation(sequence_name=f["seq"], frame_number=f["no"], frame_timestamp=f["ts"], image=T_.ImageAnnotation(path=f["path"], size=(8, 10)),
                                 mask=T_.MaskAnnotation(path=f["path"] + ".mask", mass=f["mass"]) if f["masked"] else None,
                                 viewpoint=None if not f["view"] else T_.ViewpointAnnotation(R=tuple(map(tuple, self.R[f["seq"], f["no"]].tolist())), T=(0.0, 1.0, float(f["no"])), focal_length=(1.5, 1.25), principal_point=(0.0, 0.125)),
                                 meta={"frame_type": f["meta"]}) for f in self.frames]
        sq = [T_.SequenceAnnotation(sequence_name=s["name"], category=s["cat"], viewpoint_quality_score=s["q"], video=T_.VideoAnnotation("v.mp4", 1.5) if s["cloud"] else None,
                                    point_cloud=T_.PointCloudAnnotation("c.ply", 0.5, 7) if s["cloud"] else None) for s in self.seqs]
        return fa, sq

    def write_json(self, root):
        fa, sq = self.annotations()
        p = lambda n: os.path.join(root, n)
        os.makedirs(root, exist_ok=True)
        types.dump_dataclass_jgzip(p("frame_annotations.jgz"), fa)
        types.dump_dataclass_jgzip(p("sequence_annotations.jgz"), sq)
        with open(p("set_lists.json"), "w") as f:
            json.dump(self.lists(), f)
        return dict(frame_annotations_file=p("frame_annotations.jgz"), sequence_annotations_file=p("sequence_annotations.jgz"), subset_lists_file=p("set_lists.json"), dataset_root=root)

    def lists(self, key="subset"):
        out = {}
        for s in ("train", "val", "test"):
            out[s] = [[f["seq"], f["no"], f["path"]] for f in self.frames if f[key] == s]
        return out

    def write_sql(self, root, lists="json"):
        path = os.path.join(root, "metadata.sqlite")
        engine = sa.create_engine(f"sqlite:///{path}")
        orm_types.Base.metadata.create_all(engine, tables=[orm_types.SqlFrameAnnotation.__table__, orm_types.SqlSequenceAnnotation.__table__])
        fa, sq = self.annotations()
        V, D, M, P, VP = types.VideoAnnotation, types.DepthAnnotation, types.MaskAnnotation, types.PointCloudAnnotation, types.ViewpointAnnotation
        with Session(engine) as s:
            for q in sq:
                s.add(orm_types.SqlSequenceAnnotation(sequence_name=q.sequence_name, category=q.category, video=q.video or V(None, None), point_cloud=q.point_cloud or P(None, None, None),
                                                      viewpoint_quality_score=q.viewpoint_quality_score))
                s.flush()
            for f in fa:
                s.add(orm_types.SqlFrameAnnotation(sequence_name=f.sequence_name, frame_number=f.frame_number, frame_timestamp=f.frame_timestamp, image=f.image, depth=D(None, None, None), mask=f.mask or M(None, None, None),
                                                   viewpoint=f.viewpoint or VP(None, None, None, None, None)))
                s.flush()
            s.commit()
        engine.dispose()
        if lists == "json":
            lf = os.path.join(root, "set_lists.json")
            with open(lf, "w") as f:
                json.dump(self.lists(), f)
        else:
            lf = os.path.join(root, "set_lists.sqlite")
            import pandas as pd
            rows = [(*row, k) for k, v in self.lists().items() for row in v]
            e = sa.create_engine(f"sqlite:///{lf}")
            pd.DataFrame(rows, columns=["sequence_name", "frame_number", "_image_path", "subset"]).to_sql("set_lists", e, index=False)
            e.dispose()
        return path, lf


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


KEY = lambda f: (f["seq"], f["no"])


def check_item(w, item, f, ftype, what):
    got = (item.sequence_name, int(item.frame_number))
    assert got == KEY(f), f"{what}: item is frame {got} instead of {KEY(f)}"
    assert item.sequence_category == w.seq(f["seq"])["cat"], f"{what}: category {item.sequence_category}"
    assert item.frame_type == ftype, f"{what}: frame type {item.frame_type!r} instead of {ftype!r}"
    assert item.image_path.endswith(f["path"]), f"{what}: path {item.image_path}"
    if f["view"]:
        close(item.camera.R[0], w.R[KEY(f)], 1e-5, what=what + ": camera")
        assert float(item.camera.T[0, 2]) == f["no"]
    else:
        assert item.camera is None, f"{what}: camera of a frame without viewpoint"
    q = w.seq(f["seq"])["q"]
    assert (item.camera_quality_score is None) == (q is None), f"{what}: quality score {item.camera_quality_score}"
    assert (item.sequence_point_cloud_path is None) == (not w.seq(f["seq"])["cloud"]), f"{what}: path of point cloud {item.sequence_point_cloud_path}"


def check_order(ds, frames, subset_of, r, what, constant_ts=False):
    """sequence_frames_in_order and friends return the frames of each sequence, sorted; frames[i] is the frame of index i."""
    names = sorted({f["seq"] for f in frames})
    assert sorted(ds.sequence_names()) == names, f"{what}: sequences {sorted(ds.sequence_names())} instead of {names}"
    for n in names:
        idx = [i for i, f in enumerate(frames) if f["seq"] == n]
        for filt in (None, ["train"], ["train", "test"]):
            if filt is not None and subset_of is None:
                continue
            keep = [i for i in idx if filt is None or subset_of(frames[i]) in filt]
            want = sorted(((frames[i]["ts"] or 0.0) if not constant_ts else 0.0, frames[i]["no"], i) for i in keep)
            if filt is None or keep:
                got = [(float(t), int(k), int(i)) for t, k, i in ds.sequence_frames_in_order(n, filt)]
                if constant_ts:
                    got = [(0.0, k, i) for _, k, i in got]
                assert got == want, f"{what}: frames of {n} in order (subsets {filt}): {got} instead of {want}"
                gi = [int(i) for i in ds.sequence_indices_in_order(n, filt)]
                assert gi == [x[2] for x in want], f"{what}: indices of {n} in order: {gi} instead of {[x[2] for x in want]}"
    cats = {}
    for f in frames:
        cats.setdefault(CAT[f["seq"]], set()).add(f["seq"])
    got = {k: sorted(v) for k, v in ds.category_to_sequence_names().items()}
    want = {k: sorted(v) for k, v in cats.items()}
    assert got == want, f"{what}: sequences of the categories {got} instead of {want}"


CAT = {}


def world(r, case, prefix="s", **kw):
    w = World(r, case["nseq"], case["ncat"], case["nf"], case["ts"], case["shuffle"], prefix=prefix, **kw)
    CAT.update({s["name"]: s["cat"] for s in w.seqs})
    return w


W = dict(seed=SEED, nseq=ints(1, 6), ncat=ints(1, 3), nf=ints(1, 8), shuffle=boolean())
FILT = dict(empty=boolean(), subsets=one_of(None, None, ("train",), ("val", "test"), ("train", "test")), pick=one_of(False, False, True), excl=one_of(False, False, True), cat=one_of(False, False, True), lseq=one_of(0, 0, 1, 2),
            nper=one_of(-1, -1, 0, 1, 2, 3), limit=one_of(0, 0, 1, 4, 100), dseed=ints(0, 2))


def sampled(got, frames, n, what):
    """got is frames with at most n per sequence."""
    keys = [KEY(f) for f in frames]
    g = [KEY(f) for f in got]
    assert len(set(g)) == len(g) and set(g) <= set(keys), f"{what}: frames sampled twice or from elsewhere"
    for s in {k[0] for k in keys}:
        a, b = sum(k[0] == s for k in keys), sum(k[0] == s for k in g)
        assert b == min(a, n), f"{what}: {b} frames of {a} sampled, expected at most {n}"


def build(cls, kw):
    with quiet():
        return cls(**kw)


def json_frames(ds):
    return [dict(seq=e["frame_annotation"].sequence_name, no=e["frame_annotation"].frame_number) for e in ds.frame_annots]


@sub(d(ts=one_of("inc", "inc", "ties", "none", "minus"), sort=boolean(), op=one_of("", "subset", "batches", "join"), **W, **FILT), quick=250, thorough=15000)
def json_index(case, cx):
    r = rng(case["seed"])
    w = world(r, case, gaps=True)
    names = [s["name"] for s in w.seqs]
    some = lambda: tuple(n for n in names if r.random() < 0.6)
    pick, excl = some() if case["pick"] else (), some() if case["excl"] else ()
    cats = tuple(f"cat{k}" for k in range(3) if r.random() < 0.6) if case["cat"] else ()
    opts = dict(remove_empty_masks=case["empty"], subsets=None if case["subsets"] is None else list(case["subsets"]), pick_sequence=pick, exclude_sequence=excl, limit_category_to=cats, limit_sequences_to=case["lseq"],
                n_frames_per_sequence=case["nper"], limit_to=case["limit"], seed=case["dseed"], sort_frames=case["sort"])
    with tempfile.TemporaryDirectory() as root:
        files = w.write_json(root)
        # reference
        fr = list(w.frames)
        if case["sort"]:
            fr = sorted(fr, key=lambda f: (f["seq"], f["ts"] or 0))
        seqs = list(names)
        if case["empty"]:
            fr = [f for f in fr if f["mass"] > 1]
        if case["subsets"]:
            fr = [f for f in fr if f["subset"] in case["subsets"]]
            if not fr:
                cx.trivial()
                raises(lambda: build(JsonIndexDataset, dict(**files, **NO_BLOBS, **opts)), ValueError, what="subsets without frames")
                return
            seqs = [s for s in seqs if any(f["seq"] == s for f in fr)]
        seqs = [s for s in seqs if (not cats or w.seq(s)["cat"] in cats) and (not pick or s in pick) and s not in excl]
        if case["lseq"]:
            seqs = seqs[:case["lseq"]]
        fr = [f for f in fr if f["seq"] in seqs]
        ds = build(JsonIndexDataset, dict(**files, **NO_BLOBS, **opts))
        got = json_frames(ds)
        if case["nper"] > 0:
            n = len(fr)
            full = {KEY(f): f for f in fr}
            if case["limit"] and case["limit"] < sum(min(case["nper"], sum(f["seq"] == s for f in fr)) for s in seqs):
                assert len(got) == case["limit"], f"{len(got)} frames instead of {case['limit']}"
                assert {KEY(f) for f in got} <= set(full)
            else:
                sampled(got, fr, case["nper"], "JSON dataset")
            again = json_frames(build(JsonIndexDataset, dict(**files, **NO_BLOBS, **opts)))
            assert got == again, "sampling frames is not reproducible"
            fr = [full[KEY(f)] for f in got]
        elif case["limit"]:
            fr = fr[:case["limit"]]
        assert [KEY(f) for f in got] == [KEY(f) for f in fr], f"frames {[KEY(f) for f in got]} instead of {[KEY(f) for f in fr]}"
        cx.trivial(not 0 < len(fr) < len(w.frames))
        assert len(ds) == len(fr)
        raises(lambda: ds[len(fr)], IndexError, what="index beyond the dataset")
        sub_ = lambda f: f["subset"]
        for i in r.permutation(len(fr))[:3]:
            check_item(w, ds[int(i)], fr[i], fr[i]["subset"], f"item {i}")
        check_order(ds, fr, sub_, r, "JSON dataset")
        if fr:
            idx = [int(i) for i in r.integers(0, len(fr), 4)]
            got = ds.get_frame_numbers_and_timestamps(idx)
            assert [(int(a), float(b)) for a, b in got] == [(fr[i]["no"], fr[i]["ts"] or 0.0) for i in idx], f"frame numbers and timestamps {got}"
            got = ds.get_frame_numbers_and_timestamps(idx, ["train", "val"])
            assert [a for a, b in got] == [fr[i]["no"] for i in idx if fr[i]["subset"] in ("train", "val")], f"filtered frame numbers {got}"
        index = [[KEY(f) if r.random() < 0.5 else (*KEY(f), f["path"]) for f in fr if r.random() < 0.5] for _ in range(3)]
        want = [[next(i for i, f in enumerate(fr) if KEY(f) == k[:2]) for k in b] for b in index]
        assert ds.seq_frame_index_to_dataset_index(index) == want, "index of frames in the dataset"
        missing = ("nowhere", 0) if r.random() < 0.5 or not fr else (fr[0]["seq"], 999)
        raises(lambda: ds.seq_frame_index_to_dataset_index([*index, [missing]]), IndexError, what="missing frame in index")
        bad = [[missing], *[[missing, *b] for b in index]]
        assert ds.seq_frame_index_to_dataset_index(bad, allow_missing_indices=True) == [[None], *[[None, *b] for b in want]], "missing frames in index"
        assert ds.seq_frame_index_to_dataset_index(bad, allow_missing_indices=True, remove_missing_indices=True) == [b for b in want if b], "missing frames removed from index"
        check_order(ds, fr, sub_, r, "JSON dataset after looking up frames")
        if case["op"] == "subset" and fr:
            pick = [fr[i] for i in r.permutation(len(fr))[:int(r.integers(1, len(fr) + 1))]]
            with quiet():
                s2 = ds.subset_from_frame_index([KEY(f) if r.random() < 0.5 else (*KEY(f), f["path"]) for f in pick])
            assert json_frames(s2) == [dict(seq=f["seq"], no=f["no"]) for f in pick], "frames of the subset"
            check_order(s2, pick, lambda f: f["meta"], r, "subset")
            check_item(w, s2[0], pick[0], pick[0]["meta"], "item of the subset")
            check_order(ds, fr, sub_, r, "dataset after taking a subset")
            check_item(w, ds[0], fr[0], fr[0]["subset"], "item after taking a subset")
        elif case["op"] == "batches":
            b = [x for x in index if x]
            ds2 = build(JsonIndexDataset, dict(**files, **NO_BLOBS, **opts, eval_batch_index=b))
            assert ds2.get_eval_batches() == [x for x in want if x], "evaluation batches"
            ds2 = build(JsonIndexDataset, dict(**files, **NO_BLOBS, **opts, eval_batches=want))
            assert ds2.get_eval_batches() == want, "evaluation batches"
        elif case["op"] == "join" and fr:
            others, frames = [], list(fr)
            ws = {n: w for n in names}
            batches = []
            for k in range(int(r.integers(1, 3))):
                w2 = world(r, case, prefix=f"o{k}_")
                f2 = w2.write_json(os.path.join(root, f"o{k}"))
                ds2 = build(JsonIndexDataset, dict(**f2, **NO_BLOBS, remove_empty_masks=False))
                g = list(w2.frames)
                ds2.eval_batches = [[int(i) for i in r.permutation(len(g))[:2]] for _ in range(2)]
                batches += [[KEY(g[i]) for i in b] for b in ds2.eval_batches]
                others.append(ds2)
                frames += g
                ws.update({s["name"]: w2 for s in w2.seqs})
            eval_ = r.random() < 0.6
            ds.eval_batches = [[int(i) for i in r.permutation(len(fr))[:2]]]
            batches = [[KEY(fr[i]) for i in b] for b in ds.eval_batches] + batches
            if not eval_:
                for q in (ds, *others):
                    q.eval_batches = None
            ds.join(others)
            assert [KEY(f) for f in json_frames(ds)] == [KEY(f) for f in frames], "frames of the joined dataset"
            check_order(ds, frames, sub_, r, "joined")
            for i in r.permutation(len(frames))[:4]:
                f = frames[i]
                check_item(ws[f["seq"]], ds[int(i)], f, f["subset"], "item of the joined dataset")
            if eval_:
                got = [[KEY(frames[i]) for i in b] for b in ds.get_eval_batches()]
                assert got == batches, f"evaluation batches of the joined dataset: {got} instead of {batches}"
            else:
                assert ds.get_eval_batches() is None


@sub(d(ts=one_of("inc", "inc", "ties", "minus"), lists=one_of("json", "sqlite"), lcat=one_of(0, 0, 1, 2), null=boolean(), clause=one_of(None, None, "frame", "seq"), thr=one_of(None, 2), preload=boolean(), pre=one_of(False, False, True),
       scoped=boolean(), evalb=boolean(), **W, **FILT), quick=200, thorough=12000)
def sql_index(case, cx):
    r = rng(case["seed"])
    w = world(r, case, null_mass=case["null"], gaps=True)
    names = [s["name"] for s in w.seqs]
    some = lambda: tuple(n for n in names if r.random() < 0.6)
    pick, excl = some() if case["pick"] else (), some() if case["excl"] else ()
    cats = tuple(f"cat{k}" for k in range(3) if r.random() < 0.6) if case["cat"] else ()
    opts = dict(remove_empty_masks=case["empty"], subsets=None if case["subsets"] is None else list(case["subsets"]), pick_sequences=pick, exclude_sequences=excl, pick_categories=cats, limit_sequences_to=case["lseq"],
                limit_sequences_per_category_to=case["lcat"], n_frames_per_sequence=case["nper"], limit_to=case["limit"], seed=case["dseed"], preload_metadata=case["preload"],
                precompute_seq_to_idx=case["pre"], scoped_session=case["scoped"], frame_data_builder_FrameDataBuilder_args=dict(NO_BLOBS))
    if case["thr"]:
        opts["remove_empty_masks_poll_whole_table_threshold"] = case["thr"]
    if case["clause"] == "frame":
        opts["pick_frames_sql_clause"] = "frame_annots.frame_number % 2 = 0"
    elif case["clause"] == "seq":
        opts["pick_sequences_sql_clause"] = "viewpoint_quality_score > 0.5"
    with tempfile.TemporaryDirectory() as root:
        db, lf = w.write_sql(root, case["lists"])
        opts.update(sqlite_metadata_file=db, dataset_root=root, subset_lists_file=lf)
        seqs = [s for s in names if (not cats or w.seq(s)["cat"] in cats) and (not pick or s in pick) and s not in excl]
        if case["clause"] == "seq":
            seqs = [s for s in seqs if w.seq(s)["q"] is not None and w.seq(s)["q"] > 0.5]
        if case["lcat"]:
            seqs = [s for i, s in enumerate(seqs) if sum(w.seq(t)["cat"] == w.seq(s)["cat"] for t in seqs[:i]) < case["lcat"]]
        if case["lseq"]:
            seqs = seqs[:case["lseq"]]
        fr = [f for f in w.frames if f["seq"] in seqs]
        if case["subsets"]:
            fr = [f for f in fr if f["subset"] in case["subsets"]]
        if case["empty"]:
            fr = [f for f in fr if not f["masked"] or f["mass"] is None or f["mass"] != 0]
        if case["clause"] == "frame":
            fr = [f for f in fr if f["no"] % 2 == 0]
        if case["limit"]:
            fr = sorted(fr, key=KEY)[:case["limit"]]
        if not fr:
            cx.trivial()
            raises(lambda: build(SqlIndexDataset, opts), ValueError, what="no frames left")
            return
        eb = None
        if case["evalb"]:
            eb = [[[*KEY(f), f["path"]] for f in w.frames if f["seq"] == s][:2] for s in names]
            opts["eval_batches_file"] = os.path.join(root, "eval.json")
            with open(opts["eval_batches_file"], "w") as f:
                json.dump(eb, f)
        ds = build(SqlIndexDataset, opts)
        got = [dict(seq=a, no=int(b)) for a, b in ds._index.index]
        full = {KEY(f): f for f in fr}
        if case["nper"] > 0:
            sampled(got, fr, case["nper"], "SQL dataset")
            assert list(build(SqlIndexDataset, opts)._index.index) == list(ds._index.index), "sampling frames is not reproducible"
        else:
            assert sorted(KEY(f) for f in got) == sorted(full), f"frames {sorted(KEY(f) for f in got)} instead of {sorted(full)}"
        cx.trivial(len(got) == len(w.frames))
        fr = [full[KEY(f)] for f in got]
        assert len(ds) == len(fr)
        raises(lambda: ds[len(fr)], IndexError, what="index beyond the dataset")
        sub_ = (lambda f: f["subset"]) if case["subsets"] else None
        for i in r.permutation(len(fr))[:2]:
            f = fr[i]
            k = [int(i), KEY(f), (*KEY(f), f["path"]), (f["seq"], torch.tensor(f["no"]))][int(r.integers(4))]
            it = ds[k] if r.random() < 0.5 else ds.meta[k]
            check_item(w, it, f, f["subset"] if sub_ else None, f"item {k}")
        raises(lambda: ds[fr[0]["seq"], 999], IndexError, what="missing frame")
        raises(lambda: ds[(*KEY(fr[0]), "other.jpg")], IndexError, what="frame with another path")
        check_order(ds, fr, sub_, r, "SQL dataset")
        n = fr[0]["seq"]
        idx = [i for i, f in enumerate(fr) if f["seq"] == n]
        idx = [idx[i] for i in r.permutation(len(idx))]
        got = ds.get_frame_numbers_and_timestamps(idx)
        assert [tuple(map(float, x)) for x in got] == [(float(fr[i]["no"]), fr[i]["ts"]) for i in idx], f"frame numbers and timestamps {got} of {[(fr[i]['no'], fr[i]['ts']) for i in idx]}"
        if eb is not None:
            got = ds.get_eval_batches()
            want = [b for b in eb if (not pick or b[0][0] in pick) and b[0][0] not in excl and (not cats or w.seq(b[0][0])["cat"] in cats)]
            # sequences lost to other filters may or may not be listed when a category is picked
            sure = [b for b in want if any(f["seq"] == b[0][0] for f in fr)]
            assert all(b in want for b in got) and all(b in got for b in sure) and (cats or got == want), f"evaluation batches {got} instead of {want}"
        ds._sql_engine.dispose()


# ---- providers ---------------------------------------------------------------

def split(r, w):
    """Random train, val and test lists."""
    out = {"train": [], "val": [], "test": []}
    for i in r.permutation(len(w.frames)):
        f = w.frames[i]
        out[["train", "val", "test"][int(r.integers(3))]].append(f)
    for s in w.seqs:
        # every sequence has training frames
        fs = [f for f in w.frames if f["seq"] == s["name"]]
        if not any(f["seq"] == s["name"] for f in out["train"]):
            for k in ("val", "test"):
                out[k] = [f for f in out[k] if f is not fs[0]]
            out["train"].append(fs[0])
    return out


@sub(d(mode=one_of("plain", "plain", "test", "train"), known=one_of(0, 0, 1, 3), cats=ints(1, 3), evalb=boolean(), ts=one_of("inc", "minus"), **W), quick=80, thorough=4000)
def providers_v2(case, cx):
    r = rng(case["seed"])
    K = case["cats"]
    cx.label(f"{K} categories")
    with tempfile.TemporaryDirectory() as root:
        ws, lists, evals = [], [], []
        for k in range(K):
            w = World(r, case["nseq"], 1, case["nf"] + 1, case["ts"], case["shuffle"], prefix=f"c{k}_")
            for s in w.seqs:
                s["cat"] = f"cat{k}"
            CAT.update({s["name"]: s["cat"] for s in w.seqs})
            w.write_json(os.path.join(root, f"cat{k}"))
            sp = split(r, w)
            if not all(sp.values()):
                cx.trivial()
                return
            ev = [[f for f in [sp["test"][i] for i in r.permutation(len(sp["test"]))[:int(r.integers(1, 4))]]] for _ in range(int(r.integers(1, 4)))]
            for name, data in (("set_lists", {k2: [[*KEY(f), f["path"]] for f in v] for k2, v in sp.items()}), ("eval_batches", [[[*KEY(f), f["path"]] for f in b] for b in ev])):
                os.makedirs(os.path.join(root, f"cat{k}", name))
                with open(os.path.join(root, f"cat{k}", name, f"{name}_one.json"), "w") as fh:
                    json.dump(data, fh)
            ws.append(w)
            lists.append(sp)
            evals.append(ev)
        cat = ",".join(f"cat{k}" for k in range(K))
        old = v2mod.multiprocessing.Pool
        v2mod.multiprocessing.Pool = multiprocessing.dummy.Pool
        try:
            with quiet():
                p = JsonIndexDatasetMapProviderV2(category=cat, subset_name="one", dataset_root=root, test_on_train=case["mode"] == "train", only_test_set=case["mode"] == "test", load_eval_batches=case["evalb"],
                                                  n_known_frames_for_test=case["known"], dataset_JsonIndexDataset_args=dict(NO_BLOBS, remove_empty_masks=False))
        finally:
            v2mod.multiprocessing.Pool = old
        m = p.get_dataset_map()
    assert (m.train is None) == (case["mode"] == "test")
    byname = {s["name"]: w for w in ws for s in w.seqs}

    def frames_of(ds):
        return [next(f for f in byname[k["seq"]].frames if KEY(f) == KEY(k)) for k in json_frames(ds)]
    for name in ("train", "val", "test"):
        ds = getattr(m, name)
        if ds is None:
            continue
        src = "train" if case["mode"] == "train" else name
        want = [f for l in lists for f in l[src]]
        got = frames_of(ds)
        if not (name == "test" and case["known"] and case["evalb"] and case["mode"] != "train"):
            assert [KEY(f) for f in got] == [KEY(f) for f in want], f"{name}: {len(got)} frames instead of {len(want)}, or another order"
        else:
            train = [KEY(f) for l in lists for f in l["train"]]
            assert len({KEY(f) for f in got}) == len(got), "frames listed twice in the test set"
            assert {KEY(f) for f in want} <= {KEY(f) for f in got} and all(KEY(f) in train for f in got if f not in want), "test set with known views"
        check_order(ds, got, lambda f: f["meta"], r, name)
        i = int(r.integers(len(got)))
        check_item(byname[got[i]["seq"]], ds[i], got[i], got[i]["meta"], f"item of {name}")
    if case["mode"] != "train":
        got = m.test.get_eval_batches()
        if not case["evalb"]:
            assert got is None
        else:
            fr = frames_of(m.test)
            got = [[KEY(fr[i]) for i in b] for b in got]
            want = [[KEY(f) for f in b] for e in evals for b in e]
            assert len(got) == len(want), f"{len(got)} evaluation batches instead of {len(want)}"
            for g, b in zip(got, want):
                assert g[:len(b)] == b, f"evaluation batch {g} instead of {b}"
                rest = g[len(b):]
                avail = [KEY(f) for l in lists for f in l["train"] if f["seq"] == b[0][0]]
                assert len(rest) == min(case["known"], len(avail)) and len(set(rest)) == len(rest) and set(rest) <= set(avail), f"known views {rest} of {avail}"
    if m.train is not None and any(f["meta"].endswith("known") for l in lists for f in l["train"]):
        with quiet():
            cams = p.get_all_train_cameras()
        want = [byname[f["seq"]].R[KEY(f)] for l in lists for f in l["train"] if f["meta"].endswith("known")]
        close(cams.R, np.stack(want), 1e-5, what="train cameras")


@sub(d(task=one_of("singlesequence", "multisequence"), mode=one_of("plain", "test", "train"), nper=one_of(-1, 2), ts=one_of("inc", "minus"), which=ints(0, 2), **W), quick=60, thorough=3000)
def providers_v1(case, cx):
    r = rng(case["seed"])
    case = dict(case, ncat=1, nseq=case["nseq"] + 1)
    w = world(r, case)
    single = case["task"] == "singlesequence"
    kinds = ["train_known", "train_unseen", "test_known", "test_unseen"]
    for f in w.frames:
        f["subset"] = kinds[int(r.integers(4))] if not single else ["test_known", "test_unseen"][int(r.integers(2))]
    test = [f for f in w.frames if f["subset"].startswith("test")]
    batches = [[test[i]] + [f for f in test if f["seq"] == test[i]["seq"] and f is not test[i]][:2] for i in r.permutation(len(test))[:4]] if test else []
    names = list(dict.fromkeys(b[0]["seq"] for b in batches))
    if not names:
        cx.trivial()
        return
    one = names[case["which"] % len(names)]
    train_sub = "test_known" if single else "train_known"
    sets = dict(train=[train_sub])
    sets["val"] = sets["test"] = (["test_known", "test_unseen"] if single else kinds) if case["mode"] != "train" else [train_sub]
    ref = {k: [f for f in w.frames if f["subset"] in v and (not single or f["seq"] == one)] for k, v in sets.items()}
    if case["mode"] == "test":
        del ref["train"]
    if not all(ref.values()):
        cx.trivial()
        return
    with tempfile.TemporaryDirectory() as root:
        w.write_json(os.path.join(root, "cat0"))
        with open(os.path.join(root, "cat0", "set_lists.json"), "w") as fh:
            json.dump({k: [[*KEY(f), f["path"]] for f in w.frames if f["subset"] == k] for k in kinds}, fh)
        with open(os.path.join(root, "cat0", f"eval_batches_{case['task']}.json"), "w") as fh:
            json.dump([[[*KEY(f), f["path"]] for f in b] for b in batches], fh)
        with quiet():
            p = JsonIndexDatasetMapProvider(category="cat0", task_str=case["task"], dataset_root=root, n_frames_per_sequence=case["nper"], test_on_train=case["mode"] == "train", only_test_set=case["mode"] == "test",
                                            test_restrict_sequence_id=names.index(one) if single else -1, assert_single_seq=single, dataset_JsonIndexDataset_args=dict(NO_BLOBS, remove_empty_masks=False))
        m = p.get_dataset_map()
    for k in ("train", "val", "test"):
        ds = m[k]
        if k not in ref:
            assert ds is None
            continue
        got = json_frames(ds)
        if case["nper"] > 0 and (k == "train" or case["mode"] == "train"):
            sampled(got, ref[k], case["nper"], k)
            continue
        assert [KEY(f) for f in got] == [KEY(f) for f in ref[k]], f"{k} has frames {[KEY(f) for f in got]}"
        check_order(ds, ref[k], lambda f: f["subset"], r, k)
    if case["mode"] != "train":
        got = [[KEY(ref["test"][i]) for i in b] for b in m.test.get_eval_batches()]
        want = [[KEY(f) for f in b] for b in batches if not single or b[0]["seq"] == one]
        assert got == want, f"evaluation batches {got} instead of {want}"
    if single and m.train is not None and not case["nper"] > 0:
        with quiet():
            cams = p.get_all_train_cameras()
        close(cams.R, np.stack([w.R[KEY(f)] for f in ref["train"]]), 1e-5, what="train cameras")


@sub(d(mode=one_of("plain", "plain", "test", "train", "ignore", "ignore test"), lists=one_of("json", "sqlite"), extra=one_of(0, 0, 1, 3), evalb=boolean(), cat=one_of(None, 0, 1), where=one_of("path", "name"), ts=one_of("inc", "minus"), **W), quick=60, thorough=3000)
def providers_sql(case, cx):
    r = rng(case["seed"])
    w = world(r, case)
    cat = None if case["cat"] is None else "cat%d" % case["cat"]
    keep = [f for f in w.frames if cat is None or CAT[f["seq"]] == cat]
    if len(keep) < 3:
        cx.trivial()
        return
    for s, i in zip(("train", "val", "test"), r.permutation(len(keep))[:3]):
        keep[i]["subset"] = s
    with tempfile.TemporaryDirectory() as root:
        db, lf = w.write_sql(root, case["lists"])
        test = [f for f in keep if f["subset"] == "test"]
        batches = [[f] + [g for g in test if g["seq"] == f["seq"] and g is not f][:1] for f in test[:3]]
        base = os.path.join(root, cat or "")
        ext = os.path.splitext(lf)[1]
        os.makedirs(os.path.join(base, "set_lists"))
        os.makedirs(os.path.join(base, "eval_batches"))
        os.rename(lf, os.path.join(base, "set_lists", "set_lists_one" + ext))
        with open(os.path.join(base, "eval_batches", "eval_batches_one.json"), "w") as fh:
            json.dump([[[*KEY(f), f["path"]] for f in b] for b in batches], fh)
        kw = dict(subset_list_name="one") if case["where"] == "name" else dict(subset_lists_path=os.path.join(cat or "", "set_lists", "set_lists_one"))
        if case["evalb"]:
            kw["eval_batches_path"] = os.path.join(cat or "", "eval_batches", "eval_batches_one")
        extra = case["extra"] if case["evalb"] and case["mode"] in ("plain", "test") else 0
        mode = case["mode"]
        with quiet():
            p = SqlIndexDatasetMapProvider(category=cat, dataset_root=root, test_on_train=mode == "train", only_test_set=mode in ("test", "ignore test"), ignore_subsets=mode.startswith("ignore"),
                                           eval_batch_num_training_frames=extra,
                                           dataset_SqlIndexDataset_args=dict(remove_empty_masks=False, frame_data_builder_FrameDataBuilder_args=dict(NO_BLOBS)), **kw)
        m = p.get_dataset_map()
        for k in ("train", "val", "test"):
            ds = m[k]
            if mode in ("test", "ignore test") and k != "test":
                assert ds is None
                continue
            src = (k,) if mode in ("plain", "test") else ("train",)
            if k == "test" and extra:
                src = ("test", "train")
            want = [f for f in keep if mode.startswith("ignore") or f["subset"] in src]
            got = [(a, int(b)) for a, b in ds._index.index]
            assert sorted(got) == sorted(KEY(f) for f in want), f"{k} has frames {sorted(got)}"
            by = {KEY(f): f for f in want}
            check_order(ds, [by[g] for g in got], None if mode.startswith("ignore") else (lambda f: f["subset"]), r, k)
            check_item(w, ds[0], by[got[0]], None if mode.startswith("ignore") else by[got[0]]["subset"], "item of " + k)
        if case["evalb"] and mode in ("plain", "test", "ignore test"):
            got = m.test.get_eval_batches()
            assert len(got) == len(batches), f"{len(got)} evaluation batches instead of {len(batches)}"
            for g, b in zip(got, batches):
                g = [tuple(q)[:2] for q in g]
                assert g[:len(b)] == [KEY(f) for f in b], f"evaluation batch {g}"
                avail = [KEY(f) for f in keep if f["subset"] == "train" and f["seq"] == b[0]["seq"]]
                rest = [(a, int(q)) for a, q in g[len(b):]]
                assert len(rest) == min(extra, len(avail)) and len(set(rest)) == len(rest) and set(rest) <= set(avail), f"known views {rest} of {avail}"
                m.test[g[0]]
        for k in ("train", "val", "test"):
            if m[k] is not None:
                m[k]._sql_engine.dispose()


@sub(d(seed=SEED, n=ints(3, 9), masks=boolean(), known=one_of(None, 1, 3, 20)), quick=80, thorough=3000)
def single_scene(case, cx):
    r = rng(case["seed"])
    n = case["n"]
    images = torch.from_numpy(r.random((n, 3, 4, 5))).float()
    probs = torch.from_numpy(r.random((n, 1, 4, 5))).float() if case["masks"] else None
    poses = [PerspectiveCameras(R=rot(r, 1).float()) for _ in range(n)]
    perm = r.permutation(n)
    cuts = np.sort(r.permutation(np.arange(1, n))[:2])
    splits = np.split(perm, cuts)

    class Provider(SingleSceneDatasetMapProviderBase):
        def _load_data(self):
            self.poses, self.images, self.fg_probabilities, self.i_split = poses, images, probs, splits
    expand_args_fields(Provider)
    with quiet():
        p = Provider(base_dir=".", object_name="thing", n_known_frames_for_test=case["known"])
        m = p.get_dataset_map()
    cx.trivial(not case["masks"] and case["known"] is None)
    for k, name in enumerate(("train", "val", "test")):
        ds = m[name]
        own = [int(i) for i in splits[k]]
        idx, kinds = list(own), ["known" if k == 0 else "unseen"] * len(own)
        if k and case["known"] is not None:
            idx += [int(i) for i in splits[0]]
            kinds += ["known"] * len(splits[0])
        assert len(ds) == len(idx), f"{name}: {len(ds)} frames instead of {len(idx)}"
        for i, (j, t) in enumerate(zip(idx, kinds)):
            f = ds[i]
            equal(f.image_rgb, images[j], f"image {i} of {name}")
            assert f.camera is poses[j] and f.frame_type == t, f"camera or type {f.frame_type} of frame {i} of {name}"
            if probs is None:
                assert f.fg_probability is None
            else:
                equal(f.fg_probability, probs[j], f"mask {i} of {name}")
            equal(f.image_size_hw, torch.tensor([4, 5]), "size")
        raises(lambda: ds[len(idx)], IndexError, what="index beyond the scene")
        seq = list(ds.sequence_names())
        assert len(seq) == 1
        assert list(ds.sequence_indices_in_order(seq[0])) == list(range(len(idx)))
        assert list(ds.sequence_indices_in_order(seq[0], ["known"])) == [i for i, t in enumerate(kinds) if t == "known"]
        assert ds.category_to_sequence_names() == {"thing": seq}
        b = ds.get_eval_batches()
        if k < 2:
            assert b is None
        else:
            assert len(b) == len(own)
            for i, x in enumerate(b):
                want = 0 if case["known"] is None else min(case["known"], len(splits[0]))
                assert x[0] == i and len(x) == 1 + want and len(set(x)) == len(x) and all(kinds[j] == "known" for j in x[1:]), f"evaluation batch {x}"
    close(p.get_all_train_cameras().R, torch.cat([poses[i].R for i in splits[0]]), 0, 0, what="train cameras")


# ---- annotations to text and back ---------------------------------------------

Pair = NamedTuple("Pair", [("a", int), ("b", Optional[str])])


@dataclasses.dataclass
class Leaf:
    x: int
    y: Optional[float] = None
    z: str = "z"


@dataclasses.dataclass
class Node:
    name: str
    leaf: Leaf
    opt: Optional[Leaf] = None
    size: Tuple[int, int] = (1, 2)
    many: List[Leaf] = dataclasses.field(default_factory=list)
    nums: List[float] = dataclasses.field(default_factory=list)
    tab: Dict[str, Leaf] = dataclasses.field(default_factory=dict)
    counts: Optional[Dict[str, int]] = None
    pair: Optional[Pair] = None
    mat: Optional[Tuple[Tuple[float, float], Tuple[float, float]]] = None
    free: Any = None


def leaf(r):
    return Leaf(int(r.integers(-9, 9)), None if r.random() < 0.4 else float(r.integers(9)) / 4, "abc"[:int(r.integers(4))])


def node(r, ragged):
    k = lambda: int(r.integers(0, 4)) if ragged else 2
    o = lambda f: None if r.random() < 0.4 else f()
    keys = [["a", "bb", "c c", "dé"][i] for i in r.permutation(4)]
    return Node("n%d" % r.integers(99), leaf(r), o(lambda: leaf(r)), (int(r.integers(9)), int(r.integers(9))), [leaf(r) for _ in range(k())], [float(v) / 2 for v in r.integers(0, 9, k())],
                {q: leaf(r) for q in keys[:k()]}, o(lambda: {q: int(r.integers(9)) for q in keys[:k()]}), o(lambda: Pair(int(r.integers(9)), o(lambda: "p"))),
                o(lambda: tuple(map(tuple, r.integers(0, 9, (2, 2)).astype(float).tolist()))), o(lambda: {"k": [1, {"l": None}]}))


def same(a, b, what):
    assert type(a) is type(b), f"{what}: {type(b).__name__} {b!r} came back as {type(a).__name__} {a!r}"
    if dataclasses.is_dataclass(a):
        for f in dataclasses.fields(a):
            same(getattr(a, f.name), getattr(b, f.name), f"{what}.{f.name}")
    elif isinstance(a, (list, tuple)):
        assert len(a) == len(b), f"{what}: {len(a)} of {len(b)} values came back"
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f"{what}[{i}]")
    elif isinstance(a, dict):
        assert list(a) == list(b), f"{what}: keys {list(a)} instead of {list(b)}"
        for x, y in zip(a, b):
            same(x, y, f"{what}: key")
            same(a[x], b[y], f"{what}[{x}]")
    else:
        assert a == b, f"{what}: {a!r} instead of {b!r}"


@sub(d(seed=SEED, n=ints(0, 5), how=one_of("text", "binary", "gzip"), lst=boolean(), ragged=boolean(), kind=one_of("node", "frame", "seq"), drop=boolean()), quick=200, thorough=10000)
def annotations(case, cx):
    r = rng(case["seed"])
    n = case["n"] if case["lst"] else 1
    if case["kind"] == "node":
        objs, cls = [node(r, case["ragged"]) for _ in range(n)], Node
    else:
        w = World(r, max(n, 1), 2, 1, "inc")
        fa, sq = w.annotations()
        if case["kind"] == "frame":
            objs, cls = fa[:n], types.FrameAnnotation
            for f in objs:
                if r.random() < 0.3:
                    f.viewpoint = None
                if r.random() < 0.3:
                    f.mask = None
                if r.random() < 0.3:
                    f.depth = types.DepthAnnotation("p", 0.5, None if r.random() < 0.5 else "m")
                if r.random() < 0.3:
                    f.meta = None
                if f.mask is not None and r.random() < 0.3:
                    f.mask.bounding_box_xywh = (1.0, 2.0, 3.5, 4.0)
        else:
            objs, cls = sq[:n], types.SequenceAnnotation
    cx.trivial(n < 2 and case["kind"] != "node")
    obj, tp = (objs, List[cls]) if case["lst"] else (objs[0], cls)
    if case["how"] == "text":
        f = io.StringIO()
        types.dump_dataclass(obj, f)
        text = f.getvalue()
        got = types.load_dataclass(io.StringIO(text), tp)
    elif case["how"] == "binary":
        f = io.BytesIO()
        types.dump_dataclass(obj, f, binary=True)
        text = f.getvalue().decode()
        got = types.load_dataclass(io.BytesIO(f.getvalue()), tp, binary=True)
    else:
        with tempfile.TemporaryDirectory() as td:
            types.dump_dataclass_jgzip(os.path.join(td, "x.jgz"), obj)
            got = types.load_dataclass_jgzip(os.path.join(td, "x.jgz"), tp)
        text = None
    same(got, obj, "annotation")
    if case["drop"] and text is not None and case["kind"] == "seq":
        # fields with defaults may be left out
        js = json.loads(text)
        for q in js if case["lst"] else [js]:
            if q.get("viewpoint_quality_score") is None:
                q.pop("viewpoint_quality_score", None)
            if q.get("video") is None:
                q.pop("video", None)
        got = types.load_dataclass(io.StringIO(json.dumps(js)), tp)
        same(got, obj, "annotation with defaults left out")
