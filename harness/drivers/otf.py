"""C24: ground truth generated on the fly against converted ground truth, image by image and through the evaluators"""
import os, shutil, tempfile
from PIL import Image
from .util import *
from .bdry import label_map, inst_map
from .city import INST, LABELS, convert, image, plant
from .corr import ambiguous
from .evalr import quiet
from .nms import smooth_img
from .pipe import TOLS, clean, fast_nms, nearest, pick_scale, regions, scaled, thr_list
from fractions import Fraction
from pyEdgeEval.datasets import cityscapes_eval_single, otf_cityscapes_eval_single
from pyEdgeEval.evaluators import CityscapesEvaluator, OTFCityscapesEvaluator

CASE_LIMIT = 150
TRAIN = [7, 8, 11, 12, 13, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 31, 32, 33]


def picture(rng, tree):
    if tree:
        return image(rng, "val", rng.choice(["ulm", "x"]), "ulm_000001")
    h, w = rng.choice([(rng.randrange(2, 6), rng.randrange(2, 7)), (rng.randrange(5, 15), rng.randrange(5, 15))])
    pal = rng.sample(LABELS, rng.randrange(2, 6))
    if rng.random() < .5:  # the first and the last label having instances
        pal[rng.randrange(len(pal))] = rng.choice([24, 33])
    m = [[pal[v] for v in r] for r in label_map(rng, h, w, len(pal))] if rng.random() < .5 else regions(rng, h, w, pal, 4)
    return dict(split="val", city="x", name="x_1", lab=m, inst=inst_map(rng, m, INST), h={})


def probes(rng, lab, own, h, w):
    """few detections: on and around the outlines of the evaluated label, inside and outside its region"""
    H, W = len(lab), len(lab[0])
    spots = [(y, x) for y in range(h) for x in range(w)]
    at = lambda y, x: lab[min(H - 1, y * H // h)][min(W - 1, x * W // w)]
    near = [(y, x) for y, x in spots if len({at(v, u) == own for v in (max(0, y - 1), y, min(h - 1, y + 1)) for u in (max(0, x - 1), x, min(w - 1, x + 1))}) > 1]
    a = [[0] * w for _ in range(h)]
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        y, x = rng.choice(near if near and rng.random() < .75 else spots)
        a[y][x] = rng.choice([255, 255, 180, rng.randrange(1, 256)])
    return a


def gen(mode, tier, rng):
    for k in range(3500 if tier == "quick" else 16000):
        tree = k % 3 == 0
        im = picture(rng, tree)
        h, w = len(im["lab"]), len(im["lab"][0])
        sn, sd = (1, 1) if rng.random() < (.75 if tree else .4) else pick_scale(rng, h, w)
        eh, ew = scaled(h, sn, sd), scaled(w, sn, sd)
        # tolerances around one pixel: the matchings stay decidable
        t = rng.choice(TOLS)
        goal = 99 if rng.random() < .15 else rng.choice([1, 1, 2, 4])
        for _ in range(200):
            if not ambiguous(eh, ew, t) and t * t * (eh * eh + ew * ew) < goal:
                break
            t = rng.choice(TOLS)
        while ambiguous(eh, ew, t):
            t = rng.choice(TOLS + [Fraction(rng.randrange(1, 40), 400)])
        have = sorted({v for r in im["lab"] for v in r} & set(TRAIN))
        own = rng.choice(have + [v for v in have if v in (24, 33)] * 2) if have and rng.random() < .9 else rng.choice(TRAIN)
        thr, count = thr_list(rng)
        ph, pw = h, w
        if rng.random() < .2:
            ph, pw = rng.choice([(eh, ew), (2 * h, 2 * w), (h + 1, w)])
        if not clean(ph, eh) or not clean(pw, ew):
            ph, pw = eh, ew
        kill = rng.random() < .5
        nms = k % 8 == 0 and min(eh, ew) >= 4
        pred, supp = (smooth_img(rng, ph, pw), None) if nms else (probes(rng, im["lab"], own, ph, pw), [])
        if nms:
            q = np.round(fast_nms(np.array(nearest(pred, eh, ew)) / 255, r=1, s=5, m=1.01, half_prec=False) * 1e6).astype(int)
            if any((abs(q - v * 1000) < 5).any() for v in thr):
                continue
            supp = q.tolist()
        job = dict(ds="otf", edge=[], seg=im["lab"], inst=im["inst"] if rng.random() < .6 else [], pred=pred, gts=[],
                   cat=TRAIN.index(own) + 1, sn=sn, sd=sd, thr=thr, tn=t.numerator, td=t.denominator, thin=rng.random() < .5, kill=kill,
                   skip=rng.random() < .4, nms=nms, supp=supp, radius=2 if rng.random() < .75 else 1)
        yield dict(job=job, count=count, conv=tree and job["radius"] == 2 and (sn, sd) == (1, 1), scores=tree and k % 2 == 0 and not nms, tree=[im] if tree else [], bits=8)


def lines(path):
    return [[round(float(v) * 10 ** 7) for v in l.split()] for l in open(path).read().splitlines()]


def scores(E, root, top, j, thr, route):
    with quiet():
        ev = E(root, top + "/pred", thin=E is OTFCityscapesEvaluator and j["radius"] == 1)
        ev.set_eval_params(scale=j["sn"] / j["sd"], apply_thinning=j["thin"], apply_nms=False, instance_sensitive=j["inst"] != [],
                           max_dist=j["tn"] / j["td"], skip_if_nonexistent=j["skip"], kill_internal=j["kill"])
        ev.evaluate_category(j["cat"], thr, 1, top + "/" + route)
    return dict(route=route, rows=lines("%s/%s/class_%03d/eval_bdry_thr.txt" % (top, route, j["cat"])))


def run(mode, c):
    j = c["job"]
    top = tempfile.mkdtemp(prefix="otf")
    root = top + "/city"
    try:
        thr = c["count"] or [t / 1000 for t in j["thr"]]
        if c["tree"]:
            im = c["tree"][0]
            plant(root, c["tree"])
            base = "%s/%s" % (im["city"], im["name"])
            lab, ins = ("%s/gtFine/val/%s_gtFine_%s.png" % (root, base, k) for k in ("labelIds", "instanceIds"))
            pred = "%s/pred/class_%03d/%s_leftImg8bit.png" % (top, j["cat"], base)
            os.makedirs(os.path.dirname(pred))
        else:
            lab, ins, pred = top + "/l.png", top + "/i.png", top + "/p.png"
            Image.fromarray(np.array(j["seg"], np.uint8)).save(lab)
            Image.fromarray(np.array(j["inst"] or [[0]], np.uint16)).save(ins)
        Image.fromarray(np.array(j["pred"], np.uint8)).save(pred)
        kw = dict(pred_path=pred, category=j["cat"], scale=j["sn"] / j["sd"], max_dist=j["tn"] / j["td"], thresholds=thr, apply_thinning=j["thin"],
                  apply_nms=j["nms"], kill_internal=j["kill"], skip_if_nonexistent=j["skip"])
        outs, sc = [], []

        def add(route, o):
            outs.append(dict(zip(("count_r", "sum_r", "count_p", "sum_p"), (rows(v) for v in o[:4])), route=route))
        with quiet():
            add("on-the-fly", otf_cityscapes_eval_single(dict(kw, seg_path=lab, inst_path=ins if j["inst"] else None, radius=j["radius"])))
        if c["conv"] or c["scores"]:
            convert(root, {"proc": "gtEval", "is": j["inst"] != [], "ext": "png", "half": False, "tr": 2, "rr": 2, "nproc": 1, "script": False})
        if c["conv"]:
            gt = root + "/gtEval/val/" + base
            with quiet():
                add("converted", cityscapes_eval_single(dict(
                    kw, edge_path=gt + "_gtProc_raw_%s.png" % ("isedge" if j["inst"] else "edge"),
                    seg_path=gt + "_gtFine_labelTrainIds.png" if j["kill"] else None, num_classes=19)))
        if c["scores"]:
            sc.append(scores(OTFCityscapesEvaluator, root, top, j, thr, "on-the-fly"))
            if c["conv"]:
                sc.append(scores(CityscapesEvaluator, root, top, j, thr, "converted"))
        return dict(outs=outs, scores=sc)
    finally:
        shutil.rmtree(top)
