"""C29: sessions - the same calls again, in other variants, after other calls, in forked and in fresh processes"""
import contextlib, hashlib, io, json, os, random, shutil, signal, socket, subprocess, sys, tempfile, time, warnings
import numpy as np
from PIL import Image
from scipy.io import savemat
from .util import *

CASE_LIMIT = 240
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KINDS = ["match", "match", "counts", "counts", "counts", "annotators", "annotators", "thin", "suppress", "edges", "instances", "codec", "labels",
         "sample", "sample", "scores", "scores", "evaluation", "evaluation", "city", "sbd", "refused"]
FILES = {"sample", "scores", "evaluation", "city", "sbd"}


# ---- values and their digests -------------------------------------------------------------------------------------------
def feed(h, x):
    if isinstance(x, np.ndarray):
        h.update(("%s%s" % (x.dtype, x.shape)).encode())
        h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            feed(h, x[k])
    elif isinstance(x, (list, tuple)):
        h.update(b"[%d" % len(x))
        for y in x:
            feed(h, y)
    elif isinstance(x, (float, np.floating)):
        h.update(b"%.10g" % float(x))
    elif isinstance(x, bytes):
        h.update(x)
    else:
        h.update(repr(x).encode())


def dig(x):
    h = hashlib.md5()
    feed(h, x)
    return h.hexdigest()[:12]


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


# ---- inputs -------------------------------------------------------------------------------------------------------------
MIRROR = [False]    # twins: the same input turned over - equal in size, sums and counts


RAW = []            # results as they were returned


def raw(x):
    RAW.append(x)
    return x


def turned(a):
    return a[::-1, ::-1].copy() if MIRROR[0] else a


def edgemap(g, h, w, p):
    """dense enough that several optimal matchings exist"""
    a = g.random((h, w)) < p
    for _ in range(4):
        y, x = g.integers(h), g.integers(w)
        a[y, : g.integers(1, w + 1)] = True
        a[: g.integers(1, h + 1), x] = True
    return turned(a)


def strengths(g, gt, p):
    gt, (h, w) = turned(gt), gt.shape
    a = np.where(g.random((h, w)) < p, g.random((h, w)), 0)
    s = np.roll(np.roll(gt, int(g.integers(-1, 2)), 0), int(g.integers(-1, 2)), 1)
    return turned(np.maximum(a, np.where(s, g.random((h, w)), 0)))


def labelmap(g, h, w, labels, n=9):
    a = np.full((h, w), labels[0], np.uint8)
    for _ in range(n):
        y, x = g.integers(h), g.integers(w)
        a[y:y + g.integers(2, h), x:x + g.integers(2, w)] = labels[g.integers(len(labels))]
    return turned(a)


def instmap(g, lab, withinst):
    m = lab.astype(np.int32)
    h, w = lab.shape
    part = (np.arange(h)[:, None] * 3 // h + np.arange(w)[None] * 2 // w).astype(np.int32)
    for l in withinst:
        m[lab == l] = l * 1000 + part[lab == l]
    return m


def orders(ts, v):
    """the same values asked for in another company"""
    if v == 1:
        return ts[::-1]
    if v == 2:
        return ts[1:2]
    if v == 3:
        return [ts[0], ts[-1], ts[0]]
    if v == 4:
        return ts[len(ts) // 2:] + ts[:2]
    return list(ts)


THR = [.1, .25, .5, .7, .9]


# ---- the calls: each returns a thunk giving [[key, value], ...] and the arguments it must leave alone ----------------------
def k_match(g, v, d, w):
    from pyEdgeEval._lib import correspond_pixels
    n, m = int(g.integers(20, 80)), int(g.integers(20, 80))
    p = g.choice([.1, .2, .35])
    a, b, t = edgemap(g, n, m, p), edgemap(g, n, m, p), float(g.choice([1.5, 2.3, 3.2])) / np.hypot(n, m)
    if v % 2:
        a, b = a.astype(np.uint8), b.astype(np.uint8)
    return lambda: [["all", correspond_pixels(a, b, max_dist=t)]], [a, b]


def rows_of(ts, r):
    return [["t%.2f" % t, [float(c[i]) for c in r]] for i, t in enumerate(ts)]


def k_counts(g, v, d, w):
    from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold as ev
    n, m = int(g.integers(20, 60)), int(g.integers(20, 60))
    gt = edgemap(g, n, m, g.choice([.1, .2]))
    pred = strengths(g, gt, .5)
    ts = orders(THR, v)
    kw = dict(max_dist=float(g.choice([1.5, 2.3, 3.2])) / np.hypot(n, m), apply_thinning=bool(g.integers(2)), apply_nms=bool(g.integers(5) == 0))
    if g.integers(2):
        kw.update(kill_internal=True, gt_seg=labelmap(g, n, m, [0, 1]) > 0)
    th, gt = np.array(ts), gt.astype(np.uint8)
    return lambda: rows_of(ts, ev(th, pred, gt, **kw)), [th, pred, gt, kw]


def k_annotators(g, v, d, w):
    from pyEdgeEval.common.binary_label.evaluate_boundaries import (
        evaluate_boundaries_threshold_multiple_gts as many, evaluate_boundaries_threshold as one)
    n, m = int(g.integers(20, 60)), int(g.integers(20, 60))
    k = int(g.integers(1, 4))
    gts = [edgemap(g, n, m, .12).astype(np.uint8) for _ in range(k)]
    pred = strengths(g, gts[0] > 0, .5)
    ts = orders(THR, v)
    kw = dict(max_dist=float(g.choice([1.5, 2.3, 3.2])) / np.hypot(n, m), apply_thinning=bool(g.integers(2)), apply_nms=bool(g.integers(5) == 0))
    th = np.array(ts)
    if v == 5:
        gts = gts[::-1]
    if k == 1 and v in (1, 4):
        return lambda: rows_of(ts, one(th, pred, gts[0], **kw)), [th, pred, gts, kw]
    return lambda: rows_of(ts, many(th, pred, gts, **kw)), [th, pred, gts, kw]


def k_thin(g, v, d, w):
    from pyEdgeEval.preprocess import binary_thin
    from pyEdgeEval.preprocess.thin import bwmorph_thin
    a = edgemap(g, int(g.integers(5, 60)), int(g.integers(5, 60)), .6)
    a = a.astype(np.uint8) if v % 2 else a
    return lambda: [["thin", binary_thin(a)], ["bw", bwmorph_thin(a)], ["bw2", bwmorph_thin(a, 2)]], [a]


def k_suppress(g, v, d, w):
    from pyEdgeEval.preprocess import fast_nms
    from pyEdgeEval._lib import nms
    n, m = int(g.integers(12, 60)), int(g.integers(12, 60))
    a, o = strengths(g, edgemap(g, n, m, .1), .3), g.random((n, m)) * np.pi
    todo = [lambda: ["fast", fast_nms(a)], lambda: ["u8", fast_nms(a, return_as_uint8=True)], lambda: ["half", fast_nms(a, half_prec=True)],
            lambda: ["wide", fast_nms(a, r=2, s=3, m=1.1)], lambda: ["nms", nms(a, o, r=1, s=5, m=1.01)], lambda: ["two", nms(a, o, r=2, s=0, m=1.0)]]
    return lambda: [f() for f in (todo[v:] + todo[:v] if v else todo)], [a, o]


def k_edges(g, v, d, w):
    from pyEdgeEval.edge_tools import loop_mask2edge, mp_mask2edge, Mask2Edge
    from pyEdgeEval.utils import mask2onehot
    n = int(g.integers(2, 7))
    lab, r = labelmap(g, int(g.integers(5, 30)), int(g.integers(5, 30)), list(range(n))), int(g.integers(1, 4))
    ign = [0] if g.integers(2) else []
    m = mask2onehot(lab, labels=list(range(n)))

    def transform():
        t = Mask2Edge(labelIds=list(range(n)), ignore_indices=ign, radius=r)
        Mask2Edge(labelIds=list(range(n + 1)), ignore_indices=[1], radius=r % 3 + 1, use_cv2=r != 1, label2trainId={0: 1, 1: 0})(lab)
        return t(lab)["edge"]
    f = {1: lambda: mp_mask2edge(mask=m, ignore_indices=ign, nproc=2, radius=r), 2: lambda: mp_mask2edge(mask=m, ignore_indices=ign, nproc=3, radius=r),
         3: transform}.get(
        v, lambda: loop_mask2edge(mask=m, ignore_indices=ign, radius=r))
    return lambda: [["label%d" % i, np.array(p, np.uint8)] for i, p in enumerate(raw(f()))], [lab, m, ign]


def k_instances(g, v, d, w):
    from pyEdgeEval.edge_tools import loop_instance_mask2edge, mp_instance_mask2edge, InstanceMask2Edge
    from pyEdgeEval.utils import mask2onehot
    lab = labelmap(g, int(g.integers(5, 30)), int(g.integers(5, 30)), [0, 2, 24, 25, 26])
    inst, r = instmap(g, lab, [24, 26]), int(g.integers(1, 4))
    m, ids, ign = mask2onehot(lab, labels=list(range(28))), [26, 24, 25], [2, 3]
    a = dict(mask=m, inst_mask=inst, inst_labelIds=ids, ignore_indices=ign, radius=r)
    if v == 4:
        def f():
            t = InstanceMask2Edge(ids, labelIds=list(range(28)), ignore_indices=ign, radius=r)
            InstanceMask2Edge([26], labelIds=list(range(28)), ignore_indices=[4], radius=r % 3 + 1)(lab, inst)
            return t(lab, inst)["edge"]
    else:
        f = (lambda: mp_instance_mask2edge(nproc=v, **a)) if v in (1, 2, 3) else (lambda: loop_instance_mask2edge(**a))
    return lambda: [["label%d" % i, np.array(p, np.uint8)] for i, p in enumerate(raw(f()))], [m, inst, ids, ign]


def k_codec(g, v, d, w):
    from pyEdgeEval.common.multi_label import decode_png, decode_tif, default_multilabel_encoding, rgb_multilabel_encoding
    n = int(g.integers(1, 25))
    a = (g.random((n, int(g.integers(1, 20)), int(g.integers(1, 20)))) < .3).astype(np.uint8)

    def f():
        p, t = rgb_multilabel_encoding(a), default_multilabel_encoding(a)
        return [["rgb", p], ["int", t], ["planes", decode_png(Image.fromarray(p), n)], ["planes", decode_tif(Image.fromarray(t.view(np.int32)), n)]]
    return f, [a]


def k_labels(g, v, d, w):
    from pyEdgeEval.utils import edge_label2trainId, edge_multilabel2binary, edge_onehot2multilabel, mask2onehot, mask_label2trainId
    from pyEdgeEval.common.multi_label import convert_inst_seg
    lab = labelmap(g, int(g.integers(5, 30)), int(g.integers(5, 30)), list(range(6)))
    t = {1: 2, 2: 0, 4: 1, 5: 3}
    m = mask2onehot(lab, labels=list(range(6)))
    cats, pres = np.array([3, 1, 3, 1, 1]), np.array([1, 3])
    return lambda: [["train", mask_label2trainId(lab, t)], ["planes", edge_label2trainId(m, t)], ["bin", edge_multilabel2binary(m)],
                    ["code", edge_onehot2multilabel(m)], ["inst", convert_inst_seg(lab, cats, pres)]], [lab, t, m, cats, pres]


def samples(g, d):
    """files of three data sets"""
    if os.path.isdir(d):
        return
    from pyEdgeEval.common.multi_label import rgb_multilabel_encoding
    from cityscapesscripts.helpers.labels import id2label
    t = tempfile.mkdtemp(prefix="mk", dir=os.path.dirname(d))
    for sub in ("sbd/gtEval", "sbd/pred/class_001", "sbd/pred/class_002", "bsds/groundTruth/test", "bsds/pred/test", "city/gtFine/val/x",
                "city/gtFine/train/x", "city/gtFine/test", "city/pred/class_001/x", "city/pred/class_014/x",
                "mat/cls_orig", "mat/inst_orig", "out"):
        os.makedirs(t + "/" + sub)
    from .sbdconv import cell, column
    seeds, twins = [int(x) for x in g.integers(10 ** 6, size=3)], g.integers(2)
    for i in range(3):
        g = np.random.default_rng(seeds[0 if twins and i == 1 else i])
        MIRROR[0] = bool(twins and i == 1)
        h, w = int(g.integers(28, 56)), int(g.integers(28, 56))
        planes = np.stack([edgemap(g, h, w, .08) if c < 2 else np.zeros((h, w), bool) for c in range(20)]).astype(np.uint8)
        for suf in ("_raw_edge", "_raw_isedge"):
            Image.fromarray(rgb_multilabel_encoding(planes)).save(t + "/sbd/gtEval/s%d%s.png" % (i, suf))
        Image.fromarray(labelmap(g, h, w, [0, 1, 2])).save(t + "/sbd/gtEval/s%d_labelIds.png" % i)
        for c in (1, 2):
            Image.fromarray((strengths(g, planes[c - 1] > 0, .3) * 255).astype(np.uint8)).save(t + "/sbd/pred/class_%03d/s%d.png" % (c, i))
        o = np.empty((1, 3), object)
        for k in range(3):
            o[0, k] = dict(Segmentation=np.ones((h, w), np.uint16), Boundaries=edgemap(g, h, w, .06).astype(np.uint8))
        savemat(t + "/bsds/groundTruth/test/b%d.mat" % i, dict(groundTruth=o))
        Image.fromarray((strengths(g, o[0, 0]["Boundaries"] > 0, .4) * 255).astype(np.uint8)).save(t + "/bsds/pred/test/b%d.png" % i)
        lab = labelmap(g, h, w, [0, 2, 7, 26, 26])
        for split in ("val", "train"):
            p = t + "/city/gtFine/%s/x/c%d" % (split, i)
            Image.fromarray(lab).save(p + "_gtFine_labelIds.png")
            Image.fromarray(instmap(g, lab, [26]).astype(np.uint16)).save(p + "_gtFine_instanceIds.png")
            json.dump(dict(imgHeight=h, imgWidth=w, objects=[dict(label="car", polygon=[[1, 1], [w // 2, 2], [w // 2, h // 2], [1, h // 2]])]),
                      open(p + "_gtFine_polygons.json", "w"))
        for c, l in ((1, 7), (14, 26)):
            Image.fromarray((strengths(g, lab == l, .2) * 255).astype(np.uint8)).save(t + "/city/pred/class_%03d/x/c%d_leftImg8bit.png" % (c, i))
        seg = labelmap(g, h, w, [0, 1, 3, 20])
        inst = np.zeros((h, w), np.uint8)
        cats = []
        for c in (1, 3, 20):
            for part in (0, 1):
                m = (seg == c) & (np.arange(w)[None] % 2 == part)
                if m.any():
                    cats.append(c)
                    inst[m] = len(cats)
        savemat(t + "/mat/cls_orig/m%d.mat" % i, dict(GTcls=dict(Boundaries=cell([np.zeros((h, w))] * 20), Segmentation=seg, CategoriesPresent=column(sorted(set(cats))))))
        savemat(t + "/mat/inst_orig/m%d.mat" % i, dict(GTinst=dict(Segmentation=inst, Boundaries=cell([np.zeros((h, w))] * max(1, len(cats))), Categories=column(cats))))
    MIRROR[0] = False
    open(t + "/sbd/val.txt", "w").writelines("s%d\n" % i for i in range(3))
    os.makedirs(t + "/city/splits")
    open(t + "/city/splits/val.txt", "w").writelines("x/c%d\n" % i for i in range(3))
    os.rename(t, d)


def single(g, d):
    """one of the four single-sample evaluations with options: name -> (function, arguments without name and thresholds)"""
    from pyEdgeEval import datasets as D
    kind = g.choice(["sbd", "bsds", "otf"])
    kw = dict(scale=float(g.choice([1, .5])), max_dist=float(g.choice([.03, .05])), apply_thinning=bool(g.integers(2)), apply_nms=bool(g.integers(4) == 0))
    if kind == "bsds":
        return D.bsds_eval_single, "b", lambda s: dict(kw, gt_path=d + "/bsds/groundTruth/test/%s.mat" % s, pred_path=d + "/bsds/pred/test/%s.png" % s)
    kw.update(kill_internal=bool(g.integers(2)), skip_if_nonexistent=bool(g.integers(2)))
    if kind == "sbd":
        c = int(g.integers(1, 3))
        kw.update(category=c, num_classes=20)
        return D.sbd_eval_single, "s", lambda s: dict(kw, edge_path=d + "/sbd/gtEval/%s_raw_edge.png" % s, seg_path=d + "/sbd/gtEval/%s_labelIds.png" % s,
                                                      pred_path=d + "/sbd/pred/class_%03d/%s.png" % (c, s))
    c, sens = int(g.choice([1, 14])), bool(g.integers(2))
    kw.update(category=c, radius=2)
    p = d + "/city/gtFine/val/x/"
    return D.otf_cityscapes_eval_single, "c", lambda s: dict(
        kw, seg_path=p + s + "_gtFine_labelIds.png", inst_path=p + s + "_gtFine_instanceIds.png" if sens else None,
        pred_path=d + "/city/pred/class_%03d/x/%s_leftImg8bit.png" % (c, s))


def k_sample(g, v, d, w):
    f, pre, args = single(g, d)
    ts = orders(THR, v)
    a = dict(args(pre + str(g.integers(3))), thresholds=ts if v % 2 else np.array(ts), name="x")
    return lambda: rows_of(ts, f(a)), [a]


def k_scores(g, v, d, w):
    f, pre, args = single(g, d)
    from pyEdgeEval.common.multi_label import calculate_metrics as ml
    from pyEdgeEval.common.binary_label import calculate_metrics as bl
    calc = bl if pre == "b" else ml
    names = [pre + str(i) for i in range(3)]
    if v >= 3:
        names = names[1:] + names[:1]
    data = [dict(args(s), thresholds=THR, name=s) for s in names]

    def run():
        s, t, o = calc(eval_single=f, thresholds=THR, samples=data, nproc=(1, 2, 3)[v % 3])
        return [["sample " + x["name"], [x[k] for k in ("threshold", "recall", "precision", "f1")]] for x in s] + [
            ["thr%d" % i, [x[k] for k in ("threshold", "recall", "precision", "f1")]] for i, x in enumerate(t)] + [["overall", dict(o)]]
    return run, [data]


def k_evaluation(g, v, d, w):
    from pyEdgeEval import evaluators as E
    kind = g.choice(["sbd", "bsds", "otf"])
    kw = dict(apply_thinning=bool(g.integers(2)))
    n = int(g.choice([3, 5]))

    def run():
        out = tempfile.mkdtemp(prefix="res", dir=w)
        if kind == "bsds":
            e = E.BSDS500Evaluator(d + "/bsds", d + "/bsds/pred")
            e.set_sample_names(["test/b%d" % i for i in range(3)])
            e.set_eval_params(max_dist=.03, **kw)
            if v >= 3:
                o = E.BSDS500Evaluator(d + "/bsds", d + "/none")
                o.set_sample_names(["test/b1"])
                o.set_eval_params(max_dist=.2, apply_thinning=not kw["apply_thinning"], apply_nms=True)
            e.evaluate(thresholds=n, nproc=(1, 2, 3)[v % 3], save_dir=out)
        else:
            e = E.SBDEvaluator(d + "/sbd", d + "/sbd/pred") if kind == "sbd" else E.OTFCityscapesEvaluator(d + "/city", d + "/city/pred")
            e.set_eval_params(eval_mode="post-seal", instance_sensitive=bool(g2.integers(2)), max_dist=.03, scale=1.0, **kw)
            if v >= 3:
                o = type(e)(d + "/" + e.dataset_root.split("/")[-1], d + "/none", thin=True, gt_dir="other", pred_suffix="_x.png")
                o.set_eval_params(instance_sensitive=not e.instance_sensitive, kill_internal=True, max_dist=.2, scale=.5)
            e.evaluate(categories=[1, 2] if kind == "sbd" else [14, 1], thresholds=n, nproc=(1, 2, 3)[v % 3], save_dir=out)
        return sorted([k, b] for k, b in tree(out).items())
    g2 = np.random.default_rng(int(g.integers(10 ** 6)))
    if kind == "otf":
        os.makedirs(d + "/city/gtEval/val", exist_ok=True)
    return run, []


def k_city(g, v, d, w):
    from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
    sens, ext, half = bool(g.integers(2)), str(g.choice(["png", "tif", "bin"])), bool(g.integers(2))

    def run():
        root = tempfile.mkdtemp(prefix="city", dir=w)
        shutil.copytree(d + "/city/gtFine", root + "/gtFine")
        convert_cityscapes("gtEval", cityscapes_root=root, inst_sensitive=sens, ext=ext, save_half_val=half, nproc=(1, 2, 3)[v % 3])
        return [[k, sorted(b.splitlines()) if k.endswith(".txt") else b] for k, b in sorted(tree(root).items())]
    return run, []


def k_sbd(g, v, d, w):
    from pyEdgeEval.helpers.convert_sbd import routine
    s, thin = "m%d" % g.integers(3), bool(g.integers(2))

    def run():
        out = tempfile.mkdtemp(prefix="sbd", dir=w)
        routine(s, d + "/mat", out, thin=thin, save_segs=v % 2 == 1)
        return sorted([k, b] for k, b in tree(out).items())
    return run, []


def k_refused(g, v, d, w):
    """calls that fail in the middle of a session"""
    from pyEdgeEval._lib import correspond_pixels
    from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold as ev
    from pyEdgeEval.utils import track_parallel_progress
    from pyEdgeEval.edge_tools import mp_mask2edge
    a, b = edgemap(g, 20, 20, .3), edgemap(g, 20, 21, .3)

    def run():
        out = []
        for k, f in (("shapes", lambda: correspond_pixels(a, b)), ("seg", lambda: ev(np.array([.5]), a.astype(float), a, kill_internal=True)),
                     ("pool", lambda: track_parallel_progress(len, [[], 3, []], 2, no_bar=True)),
                     ("ignored", lambda: mp_mask2edge(mask=np.ones((2, 4, 4), np.uint8), ignore_indices=[7], nproc=2, radius=1))):
            try:
                f()
                out.append([k, "nothing"])
            except Exception as e:
                out.append([k, type(e).__name__])
        return out
    return run, [a, b]


def perform(call, v, d, w):
    g = np.random.default_rng(call["seed"])
    r = dict(obs=[], same=True, err="")
    MIRROR[0] = call.get("mirror", False)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f, args = globals()["k_" + call["kind"]](g, v, d, w)
            before = dig(args)
            RAW.clear()
            res = f()
            RAW.append(res)
            r["obs"] = [["c%d %s" % (call["id"], k), dig(x)] for k, x in res]
            if v in (2, 5) and call["kind"] not in FILES:
                # the twin's results are others
                mine = list(RAW)
                first = dig(mine)
                MIRROR[0] = not MIRROR[0]
                globals()["k_" + call["kind"]](np.random.default_rng(call["seed"]), v, d, w)[0]()
                r["same"] = dig(mine) == first
            r["same"] = r["same"] and dig(args) == before
    except Exception as e:
        r["err"] = type(e).__name__
        r["msg"] = str(e)[:300]
    return r


# ---- processes ----------------------------------------------------------------------------------------------------------
def serve(d, name):
    """answers requests until told to end; forks on request"""
    import logging
    logging.disable(logging.CRITICAL)
    s = socket.socket(socket.AF_UNIX)
    s.bind("%s/%s" % (d, name))
    s.listen(8)
    while True:
        c, _ = s.accept()
        f = c.makefile("rw")
        q = json.loads(f.readline())
        if q["do"] == "end":
            os._exit(0)
        if q["do"] == "fork":
            pid = os.fork()
            if pid == 0:
                s.close()
                f.close()
                c.close()
                serve(d, q["name"])
            a = pid
        else:
            a = perform(q["call"], q["v"], q["data"], q["work"])
        f.write(json.dumps(a) + "\n")
        f.flush()
        f.close()
        c.close()


def ask(d, name, q):
    end = time.time() + 60
    while True:
        try:
            c = socket.socket(socket.AF_UNIX)
            c.settimeout(150)
            c.connect("%s/%s" % (d, name))
            break
        except OSError:
            c.close()
            if time.time() > end:
                raise
            time.sleep(.01)
    f = c.makefile("rw")
    f.write(json.dumps(q) + "\n")
    f.flush()
    l = f.readline()
    f.close()
    c.close()
    return json.loads(l)


def from_behaviours(mode, beh, tier, rng):
    out = []
    for b in beh:
        calls = [dict(id=i + 1, kind=k, seed=rng.randrange(10 ** 6)) for i, k in enumerate(rng.sample(KINDS, 4))]
        if rng.random() < .5:
            i, j = rng.sample(range(4), 2)
            calls[j] = dict(calls[i], id=j + 1, mirror=True)
        out.append(dict(ops=b["ops"], calls=calls))
    return out


def run(mode, c):
    d = tempfile.mkdtemp(prefix="ses")

    def case():
        data = d + "/data"
        if FILES & {k["kind"] for k in c["calls"]}:
            samples(np.random.default_rng(c["calls"][0]["seed"]), data)
        names, n, res = {}, 0, []

        def start(p, parent=None):
            nonlocal n
            n += 1
            name = "p%d" % n
            if parent is None and n > 1:
                subprocess.Popen([sys.executable, "-B", "-c", "import sys; sys.path.insert(0, %r); from drivers import session; session.serve(%r, %r)" % (HERE, d, name)],
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
            elif parent is None:
                if os.fork() == 0:
                    serve(d, name)
            else:
                ask(d, parent, dict(do="fork", name=name))
            names[p] = name
        start(1)
        for o in c["ops"]:
            r = dict(obs=[], same=True, err="")
            if o["k"] == "call":
                r = ask(d, names[o["p"]], dict(do="call", call=c["calls"][o["c"] - 1], v=o["v"], data=data, work=d))
                r.pop("msg", None)
            elif o["k"] == "fork":
                start(o["q"], names[o["p"]])
            else:
                start(o["p"])
            res.append(r)
        return dict(res=res)
    try:
        return forked(case, 200)
    finally:
        shutil.rmtree(d, ignore_errors=True)
