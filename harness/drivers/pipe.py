"""C23: one image from its files to its counts (SBD, Cityscapes, BSDS)"""
import math, os, shutil, tempfile
from PIL import Image
from scipy.io import savemat
from .util import *
from .corr import few, shifted, curve, pick_tol, ambiguous
from .evalr import quiet
from .nms import smooth_img
from fractions import Fraction
from pyEdgeEval.datasets import bsds_eval_single, sbd_eval_single, cityscapes_eval_single
from pyEdgeEval.preprocess import fast_nms

EVAL = dict(sbd=sbd_eval_single, cs=cityscapes_eval_single, bsds=bsds_eval_single)
SCALES = [(1, 1), (1, 1), (1, 2), (1, 2), (1, 4), (3, 4), (5, 8), (3, 10), (7, 10), (9, 10)]
TOLS = [Fraction(1, 100), Fraction(1, 50), Fraction(3, 40), Fraction(3, 400), Fraction(1, 20), Fraction(1, 8), Fraction(1, 4), Fraction(7, 50), Fraction(1, 16)]


def scaled(n, sn, sd):
    return (2 * n * sn + sd) // (2 * sd)


def tie(n, sn, sd):
    return sd % 10 == 0 and (2 * n * sn) % (2 * sd) == sd


def clean(m, n):
    """resampling m pixels to n never lands exactly between two source pixels (or does so in exact arithmetic)"""
    q = n // math.gcd(m, n)
    return q & (q - 1) == 0 or all((2 * i - 1) * m % (2 * n) for i in range(1, n + 1))


def pick_scale(rng, h, w):
    while True:
        sn, sd = rng.choice(SCALES)
        if min(scaled(h, sn, sd), scaled(w, sn, sd)) < 1 or not clean(h, scaled(h, sn, sd)) or not clean(w, scaled(w, sn, sd)):
            continue
        if not tie(h, sn, sd) and not tie(w, sn, sd) and min(scaled(h, sn, sd), scaled(w, sn, sd)) > 0:
            return sn, sd


def thr_list(rng):
    if rng.random() < .3:
        return rng.choice([([500], 1), ([250, 500, 750], 3), ([125 * i for i in range(1, 8)], 7)])
    v = [rng.randrange(1, 1000) for _ in range(rng.randrange(1, 4))]
    return [x + 1 if x % 200 == 0 else x for x in v], 0


def nearest(a, h, w):
    H, W = len(a), len(a[0])
    return [[a[(2 * y + 1) * H // (2 * h)][(2 * x + 1) * W // (2 * w)] for x in range(w)] for y in range(h)]


def regions(rng, h, w, labels, n):
    a = [[rng.choice(labels)] * w for _ in range(h)]
    for _ in range(n):
        y0, x0 = rng.randrange(h), rng.randrange(w)
        y1, x1 = rng.randrange(y0, h) + 1, rng.randrange(x0, w) + 1
        l = rng.choice(labels)
        for y in range(y0, y1):
            for x in range(x0, x1):
                a[y][x] = l
    return a


def responses(rng, gt, h, w):
    """a prediction: strong near the ground truth, clutter elsewhere"""
    a = [[rng.randrange(0, 256) if rng.random() < .06 else 0 for _ in range(w)] for _ in range(h)]
    for y, r in enumerate(shifted(rng, gt, 1, .2)):
        for x, v in enumerate(r):
            if v:
                a[y][x] = rng.choice([255, 200, 130, rng.randrange(1, 256)])
    return a


def gen(mode, tier, rng):
    for k in range(3600 if tier == "quick" else 30000):
        ds = rng.choice(["sbd", "sbd", "cs", "cs", "bsds"])
        big = k % 10 == 0
        h, w = (rng.randrange(20, 34), rng.randrange(20, 34)) if big else (rng.randrange(11, 20), rng.randrange(11, 20)) if ds == "sbd" else \
            (rng.randrange(2, 15), rng.randrange(2, 15))
        sn, sd = pick_scale(rng, h, w)
        if ds == "sbd" and rng.random() < .6:
            sn, sd = 1, 1
        eh, ew = (h, w) if ds == "bsds" else (scaled(h, sn, sd), scaled(w, sn, sd))
        t = rng.choice(TOLS)
        while ambiguous(eh, ew, t) or ambiguous(h, w, t):
            t = rng.choice(TOLS)
        n = 20 if ds == "sbd" else 19
        cat = rng.randrange(1, n + 1)
        gt = few(rng, h, w, rng.randrange(1, 9)) if not big else curve(rng, h, w, 2)
        if ds == "sbd" and not big:  # keep some of it away from the border
            for _ in range(3):
                gt[rng.randrange(5, h - 5)][rng.randrange(5, w - 5)] = 1
        if rng.random() < .08:
            gt = [[0] * w for _ in range(h)]
        thr, count = thr_list(rng)
        nms = k % 9 == 0 and ds != "bsds" or (k % 9 == 1 and ds == "bsds")
        ph, pw = h, w
        if ds != "bsds" and rng.random() < .35:
            ph, pw = rng.choice([(eh, ew), (2 * h, 2 * w), (h + rng.randrange(1, 4), w), (h, max(1, w - 1)), (max(1, h // 2), max(1, w // 2))])
            if not clean(ph, eh) or not clean(pw, ew):
                ph, pw = eh, ew
        pred = smooth_img(rng, ph, pw) if nms else nearest(responses(rng, gt, h, w), ph, pw)
        edge = [[(v << (cat - 1)) | sum(1 << b for b in range(24) if b != cat - 1 and rng.random() < .12) for v in r] for r in gt] if ds != "bsds" else []
        labels = [cat, cat - 1, cat + 1, 0, 255] if ds == "sbd" else [cat - 1, cat, cat + 1, 0, 255]
        kill = ds != "bsds" and rng.random() < .5
        job = dict(ds=ds, edge=edge, seg=regions(rng, h, w, [l for l in labels if l >= 0] + labels[:1] * 2, 3) if kill else [], inst=[], pred=pred, gts=[], cat=cat,
                   sn=sn, sd=sd, thr=thr, tn=t.numerator, td=t.denominator, thin=rng.random() < .5, kill=kill, skip=ds != "bsds" and rng.random() < .4,
                   nms=nms, supp=[], radius=1)
        if ds == "bsds":
            job["gts"] = [gt] + [shifted(rng, gt, 1, .2) if rng.random() < .7 else few(rng, h, w, rng.randrange(0, 7)) for _ in range(rng.randrange(0, 3))]
        if nms:
            p = nearest(pred, eh, ew)
            if ds == "sbd":
                p = [[v if 5 <= y < eh - 5 and 5 <= x < ew - 5 else 0 for x, v in enumerate(r)] for y, r in enumerate(p)]
            if eh < 4 or ew < 4:
                continue
            q = np.round(fast_nms(np.array(p) / 255, r=1, s=5, m=1.01, half_prec=False) * 1e6).astype(int)
            if any((abs(q - v * 1000) < 5).any() for v in thr):
                continue
            job.update(supp=q.tolist())
        yield dict(job=job, count=count, bits=rng.choice([16, 16, 1]) if ds == "bsds" and rng.random() < .06 else 8, form=rng.choice(["list", "array"]))


def run(mode, c):
    j = c["job"]
    d = tempfile.mkdtemp(prefix="pipe")
    try:
        if c["bits"] == 8:
            Image.fromarray(np.array(j["pred"], np.uint8)).save(d + "/p.png")
        elif c["bits"] == 16:
            Image.fromarray(np.array(j["pred"], np.uint16)).save(d + "/p.png")
        else:
            Image.fromarray(np.array(j["pred"], np.uint8) > 127).save(d + "/p.png")
        thr = c["count"] or [t / 1000 for t in j["thr"]]
        if not c["count"] and c["form"] == "array":
            thr = np.array(thr)
        kw = dict(pred_path=d + "/p.png", scale=j["sn"] / j["sd"], max_dist=j["tn"] / j["td"], thresholds=thr, apply_thinning=j["thin"], apply_nms=j["nms"])
        if j["ds"] == "bsds":
            cell = np.empty((1, len(j["gts"])), dtype=object)
            for i, g in enumerate(j["gts"]):
                cell[0, i] = dict(Boundaries=np.array(g, np.uint8), Segmentation=np.ones((len(g), len(g[0])), np.uint16))
            savemat(d + "/g.mat", dict(groundTruth=cell))
            kw.update(gt_path=d + "/g.mat")
        else:
            e = np.array(j["edge"], np.uint32)
            Image.fromarray(np.stack([(e >> s) & 255 for s in (16, 8, 0)], -1).astype(np.uint8)).save(d + "/e.png")
            if j["kill"]:
                Image.fromarray(np.array(j["seg"], np.uint8)).save(d + "/s.png")
            kw.update(edge_path=d + "/e.png", seg_path=d + "/s.png" if j["kill"] else None, category=j["cat"], kill_internal=j["kill"],
                      skip_if_nonexistent=j["skip"], num_classes=20 if j["ds"] == "sbd" else 19)
        with quiet():
            o = EVAL[j["ds"]](kw)
        return dict(zip(("count_r", "sum_r", "count_p", "sum_p"), (rows(v) for v in o[:4])))
    finally:
        shutil.rmtree(d)
