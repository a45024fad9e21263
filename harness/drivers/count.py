"""C05/C06/C07: counts per threshold"""
from .util import *
from .corr import few, shifted, curve, pick_tol, ambiguous, exact
from fractions import Fraction
from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold as ml_eval
from pyEdgeEval.common.binary_label.evaluate_boundaries import (
    evaluate_boundaries_threshold as bin_eval, evaluate_boundaries_threshold_multiple_gts as multi_eval)
from pyEdgeEval.preprocess import fast_nms

SHAPES = [(3, 4), (4, 3), (6, 8), (8, 6), (5, 12), (9, 12), (12, 16), (12, 5)]


def thin_shape(rng, h, w):
    return few(rng, h, w, rng.randrange(1, 8))


def graded(rng, h, w, gt, D):
    """a prediction: noisy, displaced version of the ground truth plus clutter, values 0..D"""
    a = [[0] * w for _ in range(h)]
    b = shifted(rng, gt, 1, .15)
    for y in range(h):
        for x in range(w):
            if b[y][x]:
                a[y][x] = rng.randrange(1, D + 1)
                if rng.random() < .3 and x + 1 < w:
                    a[y][x + 1] = max(a[y][x + 1], rng.randrange(0, D + 1))
    for _ in range(rng.randrange(0, 5)):
        a[rng.randrange(h)][rng.randrange(w)] = rng.randrange(1, D + 1)
    return a


def thresholds(rng, D):
    n = rng.choice((1, 2, 3, 4, 5)) if rng.random() < .985 else rng.choice((11, 33, 99))
    t = [rng.randrange(1, D + 1) for _ in range(n)]
    if rng.random() < .4:
        t = sorted(set(t))
    if rng.random() < .15:
        t.append(0 if rng.random() < .3 else t[0])
    if rng.random() < .1:
        t.append(D + 1)
    return t


def base(rng, fn, tier, k):
    big_img = k % 12 == 0
    if big_img:
        h, w = rng.randrange(14, 36), rng.randrange(14, 36)
    elif k % 2:
        h, w = rng.choice(SHAPES)
    else:
        h, w = rng.randrange(1, 13), rng.randrange(1, 13)
    D = rng.choice((2, 4, 8, 64))
    mk = (lambda: curve(rng, h, w, rng.randrange(1, 5))) if big_img else (lambda: thin_shape(rng, h, w))
    gt = mk() if rng.random() < .92 else [[0] * w for _ in range(h)]
    pred = graded(rng, h, w, gt, D) if rng.random() < .85 else [[rng.randrange(0, D + 1) for _ in range(w)] for _ in range(h)]
    t = pick_tol(rng, h, w, not big_img) if not big_img else rng.choice((Fraction(1, 50), Fraction(3, 80), Fraction(3, 400)))
    while ambiguous(h, w, t):
        t = rng.choice((Fraction(1, 50), Fraction(3, 80), Fraction(7, 400)))
    job = dict(multi=False, pred=pred, thr=thresholds(rng, D), gts=[gt], seg=[], tn=t.numerator, td=t.denominator,
               thin=rng.random() < .5, kill=False, skip=False, noseg=True)
    return dict(fn=fn, D=D, gdt=rng.choice(("bool", "u8", "i32", "f64")), pdt=rng.choice(("f64", "f64", "f32")), job=job, h=None)


def defaults_case(rng, fn):
    """large enough that the default tolerance reaches a neighbouring pixel"""
    h, w = (44, 40) if fn == "ml" else (100, 96)
    gt = [[0] * w for _ in range(h)]
    pred = [[0] * w for _ in range(h)]
    for _ in range(7):
        y, x = rng.randrange(6, h - 6) // 5 * 5, rng.randrange(6, w - 6) // 5 * 5
        gt[y][x] = 1
        pred[y + rng.choice((-1, 0, 1, 2))][x + rng.choice((-1, 0, 1))] = rng.choice((2, 4))
    pred[1][1] = pred[1][2] = pred[2][1] = pred[2][2] = 4
    t = Fraction(1, 50) if fn == "ml" else Fraction(3, 400)
    job = dict(multi=fn == "multi", pred=pred, thr=[2, 3], gts=[gt], seg=[], tn=t.numerator, td=t.denominator,
               thin=True, kill=False, skip=False, noseg=True)
    return dict(fn=fn, D=4, gdt="u8", pdt="f64", job=job, h=None, deflt=True)


def many_pixels(rng, fn):
    """more ground-truth pixels than one byte can count"""
    h, w = rng.randrange(40, 64), rng.randrange(40, 64)
    gt = [[int(rng.random() < .16 or y % 9 == 0) for x in range(w)] for y in range(h)]
    pred = [[rng.randrange(0, 5) if rng.random() < .1 or gt[y][x] and rng.random() < .7 else 0 for x in range(w)] for y in range(h)]
    t = Fraction(1, 100)  # less than a pixel: the matching is forced
    gts = [gt] if fn != "multi" else [gt, few(rng, h, w, 12), [[int(rng.random() < .05) for _ in range(w)] for _ in range(h)]][:rng.randrange(1, 4)]
    job = dict(multi=fn == "multi", pred=pred, thr=[2, 3, 1][:rng.randrange(1, 4)], gts=gts, seg=[], tn=t.numerator, td=t.denominator,
               thin=rng.random() < .5, kill=False, skip=False, noseg=True)
    return dict(fn=fn, D=4, gdt=rng.choice(("bool", "u8", "i32", "f64")), pdt="f64", job=job, h=None)


def wide_tolerance(rng):
    """internal detections dozens of pixels away from the ground truth"""
    h, w, D = *rng.choice(((30, 40), (40, 30), (24, 32), (5, 60), (60, 5), (48, 20))), 4
    gt = few(rng, h, w, rng.randrange(1, 4))
    pred = [[rng.randrange(1, D + 1) if rng.random() < .06 else 0 for _ in range(w)] for _ in range(h)]
    t = Fraction(0)
    while not t or ambiguous(h, w, t):
        t = rng.choice((Fraction(5, 16), Fraction(1, 4), Fraction(3, 8), Fraction(1, 2), Fraction(7, 20), Fraction(5, 8)))
    job = dict(multi=False, pred=pred, thr=thresholds(rng, D)[:4], gts=[gt], seg=[], tn=t.numerator, td=t.denominator,
               thin=False, kill=False, skip=False, noseg=True)
    return dict(fn="ml", D=D, gdt="bool", pdt="f64", job=job, h=None)


def annotate(rng, c):
    j = c["job"]
    gt = j["gts"][0]
    h, w = len(gt), len(gt[0])
    n = rng.choice((1, 2, 2, 2, 3, 3, 4, 4, 6, 9))
    gts = []
    for _ in range(n):
        g = shifted(rng, gt, 1, .2) if rng.random() < .7 else thin_shape(rng, h, w)
        if rng.random() < .12:
            g = [[0] * w for _ in range(h)]
        gts.append(g)
    j.update(gts=gts, multi=True)
    return c


def seg_for(rng, c):
    j = c["job"]
    h, w = len(j["pred"]), len(j["pred"][0])
    s = [[0] * w for _ in range(h)]
    r = rng.random()
    if r < .15:
        s = [[1] * w for _ in range(h)]
    elif r < .9:
        for _ in range(rng.randrange(1, 3)):
            y0, x0 = rng.randrange(h), rng.randrange(w)
            y1, x1 = rng.randrange(y0, h) + 1, rng.randrange(x0, w) + 1
            for y in range(y0, y1):
                for x in range(x0, x1):
                    s[y][x] = 1
    j.update(seg=s, kill=True, noseg=False)


def gen(mode, tier, rng):
    big = tier == "thorough"
    n = 30000 if big else 3600
    for k in range(n):
        if mode == "single":
            c = base(rng, rng.choice(("ml", "ml", "bin")), tier, k)
            if c["fn"] == "ml" and rng.random() < .4:
                c["job"]["skip"] = True
                if rng.random() < .3:
                    c["job"]["gts"] = [[[0] * len(r) for r in c["job"]["gts"][0]]]
            if k % 50 == 0:
                c = defaults_case(rng, c["fn"])
            if k % 200 == 7:
                c = many_pixels(rng, c["fn"])
        elif mode == "multi":
            c = base(rng, "multi", tier, k)
            c = annotate(rng, c)
            if k % 60 == 0:
                c = defaults_case(rng, "multi")
            if k % 300 == 7:
                c = many_pixels(rng, "multi")
        elif mode == "internal":
            c = base(rng, "ml", tier, k) if k % 40 != 5 else wide_tolerance(rng)
            j = c["job"]
            if k % 3 == 0 and k % 12:  # exact equality of distance and tolerance is common here
                h, w = rng.choice(((12, 16), (16, 12), (6, 8)))
                gt = few(rng, h, w, rng.randrange(1, 4))
                t = Fraction(1, 4) if h > 6 and w > 6 and h + w > 14 else Fraction(1, 2)
                j.update(pred=[[rng.randrange(0, c["D"] + 1) if rng.random() < .3 else 0 for _ in range(w)] for _ in range(h)],
                         gts=[gt], tn=t.numerator, td=t.denominator)
            seg_for(rng, c)
            if rng.random() < .06:
                j.update(seg=[], noseg=True)
            if rng.random() < .3:
                j["skip"] = True
            if rng.random() < .05:
                j["kill"] = False
        elif mode == "nms":
            if k >= n // 8:
                return
            c = base(rng, rng.choice(("ml", "bin", "multi")), tier, k)
            h, w = rng.randrange(8, 16), rng.randrange(8, 16)
            from .nms import smooth_img
            p = np.array(smooth_img(rng, h, w), float) / 255
            kw = dict(r=rng.choice((1, 2)), s=rng.choice((0, 2, 5)), m=rng.choice((1.0, 1.01, 1.1)))
            dflt = rng.random() < .3
            q = fast_nms(p) if dflt else fast_nms(p, **kw)
            thr = [rng.randrange(20000, 600000) for _ in range(rng.randrange(1, 4))]
            qi = np.round(q * 1e6).astype(int)
            if any((abs(qi - t) < 5).any() for t in thr):
                continue
            gt = curve(rng, h, w, 1)
            t = Fraction(1, 20)
            if ambiguous(h, w, t):
                continue
            c.update(D=1000000, pdt="f64", h=dict(nms=p.tolist(), kw=None if dflt else kw))
            c["job"].update(pred=qi.tolist(), thr=thr, gts=[gt], tn=1, td=20, multi=c["fn"] == "multi")
        yield c


def run(mode, c):
    j = c["job"]
    D = c["D"]
    if c["h"]:
        pred = np.array(c["h"]["nms"])
    else:
        pred = (np.array(j["pred"], np.float64) / D).astype(DT[c["pdt"]])
    gts = [arr(g, c["gdt"]) for g in j["gts"]]
    thr = np.array(j["thr"], np.float64) / D
    kw = dict(max_dist=j["tn"] / j["td"], apply_thinning=j["thin"])
    if c.get("deflt"):
        kw = {}
    if c["h"]:
        kw["apply_nms"] = True
        if c["h"]["kw"]:
            kw["nms_kwargs"] = c["h"]["kw"]
    p0, t0, g0 = pred.copy(), thr.copy(), [g.copy() for g in gts]
    s0 = None
    if c["fn"] == "ml":
        if j["kill"]:
            s = None if j["noseg"] else arr(j["seg"], "bool")
            s0 = None if s is None else s.copy()
            kw.update(kill_internal=True, gt_seg=s)
        if j["skip"]:
            kw["skip_if_nonexistent"] = True
        o = ml_eval(thr, pred, gts[0], **kw)
    elif c["fn"] == "bin":
        o = bin_eval(thr, pred, gts[0], **kw)
    else:
        o = multi_eval(thr, pred, np.array(gts) if len(gts) % 2 else gts, **kw)
    kept = (pred == p0).all() and (thr == t0).all() and all((a == b).all() for a, b in zip(gts, g0)) and (
        s0 is None or (kw["gt_seg"] == s0).all())
    return dict(zip(("count_r", "sum_r", "count_p", "sum_p"), (rows(v) for v in o[:4])), kept=bool(kept))
