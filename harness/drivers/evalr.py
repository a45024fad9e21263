"""C12/C13: histories of calls on the evaluators over a synthetic data set (the world of Evaluator.tla)"""
import contextlib, io, os, shutil, sys, tempfile, warnings
import numpy as np
from PIL import Image
from scipy.io import savemat
from .util import *
from pyEdgeEval.evaluators import (
    BSDS500Evaluator, SBDEvaluator, CityscapesEvaluator, HalfCityscapesEvaluator, OTFCityscapesEvaluator)
from pyEdgeEval.evaluators.sbd import ReannoSBDEvaluator

CASE_LIMIT = 240
MAKE = dict(bsds=BSDS500Evaluator, sbd=SBDEvaluator, reanno=ReannoSBDEvaluator, cs=CityscapesEvaluator, half=HalfCityscapesEvaluator,
            otf=OTFCityscapesEvaluator)
SLOTS = [(y, x) for y in range(13, 50, 4) for x in range(13, 46, 4)]
H, W = 96, 128
ROOTS = {}


def from_behaviours(mode, beh, tier, rng):
    return beh


def family(kind):
    return "sbd" if kind in ("sbd", "reanno") else "cs" if kind in ("cs", "half", "otf") else "bsds"


def name_of(kind, split, s):
    f = family(kind)
    return "2008_%06d" % s if f == "sbd" else "city%d/city_%06d" % (s % 2, s) if f == "cs" else "%s/100%d" % (split, s)


def id_of(name):
    return int(name[-1])


def seg_cat(s):
    return s + 1


def gt_size(fam, split, gd, s, c, thin, sens, alt):
    if fam != "bsds" and (s + c) % 4 == 0:
        return 0
    v = 2 * thin + sens + 4 * alt
    shift = 11 * (split == "test" and fam in ("cs", "bsds")) + 23 * gd
    return 20 + (v * 5 + s + 3 * c + shift) % 67


def gt_img(g):
    a = np.zeros((H, W), np.uint8)
    if g > 0:
        for y, x in SLOTS[:g]:
            a[y, x] = 1
        for x in range(13, 46, 8):
            a[57, x] = 1
        a[15, 59] = a[29, 61] = 1
    return a


def halved(a):
    return a[1::2, 1::2]


def hits(s, c, pf):
    return 2 + (s + 2 * c + pf) % 4


def misses(s, c, pf):
    return (3 * s + c + 2 * pf) % 11


def pred_img(s, c, pf):
    a = np.zeros((H, W), np.uint8)
    for i in range(hits(s, c, pf)):
        a[57, 13 + 8 * i] = 255
    for i in range(misses(s, c, pf)):
        a[85, 13 + 4 * i] = 255
    a[15, 57] = a[29, 57] = 255
    a[64:67, 13:22] = 200
    a[65, 13:22] = 255
    for y in (23, 27, 31):
        a[y, 91] = 255
    a[3, 3] = 255
    return a


def save(path, a):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    Image.fromarray(a).save(path)


def encode(planes):
    v = np.zeros(planes[0].shape, np.uint32)
    for k, p in enumerate(planes):
        v |= p.astype(np.uint32) << k
    return np.stack([(v >> 16) & 255, (v >> 8) & 255, v & 255], -1).astype(np.uint8)


def region(v, bg):
    a = np.full((H, W), bg, np.uint8)
    a[13:42, 77:106] = v
    return a


def text(path, lines):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write("".join(l + "\n" for l in lines))


def world(fam):
    if fam in ROOTS:
        return ROOTS[fam]
    r = ROOTS[fam] = tempfile.mkdtemp(prefix="world_" + fam)
    data, bare, pred = r + "/data", r + "/bare", r + "/pred"
    os.makedirs(bare)
    if fam == "bsds":
        for split in ("val", "test"):
            for s in (1, 2, 3, 4):
                if s < 4:
                    g = gt_size(fam, split, 0, s, 0, 0, 0, 0)
                    cell = np.empty((1, 2), dtype=object)
                    cell[0, 0] = dict(Boundaries=gt_img(g), Segmentation=np.ones((H, W), np.uint16))
                    cell[0, 1] = dict(Boundaries=gt_img(g - 5), Segmentation=np.ones((H, W), np.uint16))
                    os.makedirs("%s/groundTruth/%s" % (data, split), exist_ok=True)
                    savemat("%s/groundTruth/%s/100%d.mat" % (data, split, s), dict(groundTruth=cell))
                    save("%s/%s/100%d.png" % (pred, split, s), pred_img(s, 0, 0))
                    save("%s/100%d.png" % (pred, s), pred_img(s, 0, 1))
            text("%s/groundTruth/%s/notes.txt" % (data, split), ["not a sample"])
        return r
    cats = 20 if fam == "sbd" else 19
    splits = ("val", "test") if fam == "cs" else ("",)
    for split in splits:
        for s in (1, 2, 3, 4):
            n = name_of(fam, split, s)
            for gd, d in ((0, "gtEval"), (1, "gtOther")):
                base = os.path.join(data, d, split, n)
                for alt in (0, 1):
                    mid = ("_reanno_" if alt else "_") if fam == "sbd" else ("_gtProc_half_" if alt else "_gtProc_")
                    for thin in (0, 1):
                        for sens in (0, 1):
                            ps = [gt_img(gt_size(fam, split, gd, s, c, thin, sens, alt)) for c in range(1, cats + 1)]
                            if fam == "cs" and alt:
                                ps = [halved(p) for p in ps]
                            save(base + mid + ("thin" if thin else "raw") + ("_isedge.png" if sens else "_edge.png"), encode(ps))
                if fam == "sbd":
                    save(base + "_labelIds.png", region(seg_cat(s), 0))
                    save(base + "_trainIds.png", region(seg_cat(s) - 1, 255))
                else:
                    seg = region(seg_cat(s) - 1, 255)
                    save(base + "_gtFine_labelTrainIds.png", seg)
    for c in range(0, cats + 3):  # also folders that no category of the data set has
        for s in (1, 2, 3, 5):
            for pf in (0, 1):
                suf = ("_p.png" if pf else ".png") if fam == "sbd" else ("_p.png" if pf else "_leftImg8bit.png")
                save("%s/class_%03d/%s%s" % (pred, c, name_of(fam, "val", s), suf), pred_img(s, c, pf))
    if fam == "cs":
        for split in splits:
            for s in (1, 2, 3, 4):
                otf_gt(os.path.join(data, "gtFine", split, name_of(fam, split, s)), split, s)
        for c in range(0, cats + 3):
            for s in (1, 2, 3, 5):
                for pf in (0, 1):
                    save("%s/class_%03d/%s%s" % (r + "/otfpred", c, name_of(fam, "val", s), "_p.png" if pf else "_leftImg8bit.png"), otf_pred(s, c, pf))
    for root in (data, bare):
        for d in ("gtEval", "gtOther", "gtFine"):
            if root == bare and os.path.isdir(data + "/" + d):
                os.symlink(data + "/" + d, bare + "/" + d)
    for split, ids in (("val", (1, 2, 3)), ("test", (3, 1))):
        text(data + ("/%s.txt" if fam == "sbd" else "/splits/%s.txt") % split, [name_of(fam, split, s) for s in ids])
    for k, ids in dict(a=(2,), b=(3, 2, 1), c=(1, 4), empty=()).items():
        text(r + "/lists/%s.txt" % k, [name_of(fam, "val", s) for s in ids])
    return r


def side(split, s, c):
    return 40 + 2 * ((s + c // 14 + (split == "test")) % 4)


def otf_gt(base, split, s):
    seg = np.full((H, W), 4, np.uint8)
    inst = np.full((H, W), 4, np.uint16)
    for c, label, left in ((12, 24, 8), (14, 26, 66)):
        n = side(split, s, c)
        seg[10:10 + n, left:left + n] = label
        inst[10:10 + n, left:left + n] = label * 1000 + 1
        inst[10:10 + n, left:left + 20] = label * 1000
    save(base + "_gtFine_labelIds.png", seg)
    save(base + "_gtFine_instanceIds.png", inst)


def otf_pred(s, c, pf):
    left = 66 if c == 14 else 8
    a = np.zeros((H, W), np.uint8)
    for i in range(hits(s, c, pf)):
        a[11, left + 1 + 8 * i] = 255
    for i in range(misses(s, c, pf)):
        a[91, 13 + 4 * i] = 255
    a[29, left + 9] = 255
    a[78:81, 11:20] = 200
    a[79, 11:20] = 255
    a[3, 3] = 255
    return a


def names_of(ev):
    n = ev.sample_names
    if n is None:
        return []
    out = [id_of(x) for x in n]
    n.append("not-a-sample")  # the list handed out is the caller's own
    n.reverse()
    return out


NO_PARAMS = dict(scale=0, thin=False, nms=False, dist=0, kill=False, skip=False, classes=0, radius=0, ignore=[])


def settings(ev, kind):
    try:
        p = ev.eval_params
    except AttributeError:
        return False, NO_PARAMS
    q = dict(NO_PARAMS, scale=exact(p["scale"] * 100), thin=p["apply_thinning"], nms=p["apply_nms"], dist=exact(p["max_dist"] * 10000))
    if kind != "bsds":
        q.update(kill=p["kill_internal"], skip=p["skip_if_nonexistent"], classes=p["num_classes"])
    if kind == "otf":
        q.update(radius=p["radius"], ignore=list(p["ignore_labels"]))
    p.clear()
    return True, q


def exact(v):
    r = int(round(v))
    return r if abs(v - r) < 1e-6 else -1


def table(folder, cat, overall):
    lines = []
    with open(os.path.join(folder, "eval_bdry_img.txt")) as f:
        for l in f:
            n, t, rec, prec, f1 = l.split()
            if abs(float(t) - .5) > 1e-6:
                raise ValueError("threshold " + t)
            lines.append(dict(name=id_of(n), rec=u6(rec), prec=u6(prec), f1=u6(f1)))
    if overall is None:
        with open(os.path.join(folder, "eval_bdry.txt")) as f:
            v = f.read().split()
        rec, prec = v[1], v[2]
    else:
        rec, prec = overall["ODS_recall"], overall["ODS_precision"]
    return dict(cat=cat, lines=lines, overall=dict(rec=u6(rec), prec=u6(prec)))


def u6(v):
    return int(round(float(v) * 1e6))


def perform(ev, kind, op, root, split):
    o, how = op["o"], op["how"]
    if o == "configure":
        a = {}
        for g in op["given"]:
            if g == "mode":
                a["eval_mode"] = None if op["mode"] == "none" else op["mode"]
            elif g == "scale":
                a["scale"] = op["scale"] / 100
            else:
                k = dict(thin="apply_thinning", nms="apply_nms", sens="instance_sensitive", dist="max_dist", skip="skip_if_nonexistent", kill="kill_internal")[g]
                a[k] = op["dist"] / 10000 if g == "dist" else op[g]
        ev.set_eval_params(**a)
    elif o == "names":
        lst = [name_of(kind, split, s) for s in op["list"]]
        f = os.path.join(root, "lists", op["file"] + ".txt")
        if how == "list":
            ev.set_sample_names(lst)
        elif how == "both":
            ev.set_sample_names(sample_names=lst, split_file=f)
        elif how == "file":
            ev.set_sample_names(split_file=f)
        elif how == "tuple":
            ev.set_sample_names(tuple(lst))
        else:
            ev.set_sample_names()
    elif o == "suffix":
        ev.set_pred_suffix("_p.png" if op["pf"] else ".png" if family(kind) == "sbd" else "_leftImg8bit.png")
    elif o == "run":
        thr = (1, .5, [.5], np.array([.5]))[op["form"]]
        out = tempfile.mkdtemp(prefix="out")
        try:
            if kind == "bsds":
                r = ev.evaluate(thresholds=thr, nproc=op["nproc"], save_dir=out, no_split_dir=op["flat"])
                return [table(out, 0, r)]
            if how == "direct":
                r = ev.evaluate_category(category=op["list"][0], thresholds=thr, nproc=op["nproc"], save_dir=out)
                return [table(out + "/class_%03d" % op["list"][0], op["list"][0], r)]
            cats = None if how == "none" else tuple(op["list"]) if how == "tuple" else op["list"][0] if how == "int" else list(op["list"])
            ev.evaluate(categories=cats, thresholds=thr, nproc=op["nproc"], save_dir=out)
            found = sorted(d for d in os.listdir(out) if d.startswith("class_"))
            return [table(os.path.join(out, d), int(d[6:]), None) for d in found]
        finally:
            shutil.rmtree(out)
    return []


def run(mode, c):
    opt = c["opt"]
    kind, split = opt["kind"], opt["split"]
    root = world(family(kind))
    res = dict(made=False, names=[], res=[])
    a = dict(split=split)
    if kind != "bsds":
        a.update(thin=opt["thin"])
        if opt["gd"]:
            a.update(gt_dir="gtOther")
        if opt["pf"]:
            a.update(pred_suffix="_p.png")
    warnings.simplefilter("ignore")
    with quiet():
        try:
            ev = MAKE[kind](root + ("/bare" if opt["bare"] else "/data"), root + ("/otfpred" if kind == "otf" else "/pred"), **a)
        except Exception:
            return res
        res["made"] = True
        res["names"] = names_of(ev)
        for op in c["ops"]:
            r = dict(failed=False, tables=[])
            try:
                r["tables"] = perform(ev, kind, op, root, split)
            except Exception as e:
                r["failed"] = True
                r["why"] = type(e).__name__ + ": " + str(e)[:120]
            r["names"] = names_of(ev)
            r["set"], r["params"] = settings(ev, kind)
            res["res"].append(r)
    return res


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield
