"""C26: ground-truth files through every reader"""
import os, tempfile, warnings
from scipy.io import savemat
from .util import *
from .sbdconv import cell, column
from pyEdgeEval.datasets.bsds import load_bsds_gt_boundaries
from pyEdgeEval.helpers import convert_sbd as S

NAMES = ["2008_%06d" % n for n in (8, 51, 123, 999999)] + ["2010_000001", "a", "x y"]


def gen(mode, tier, rng):
    for k in range(700 if tier == "quick" else 6000):
        kind = rng.choice(["annotators", "annotators", "categories", "instances", "sensitive", "sensitive", "again", "names"])
        h, w = rng.randrange(2, 6), rng.randrange(2, 6)
        p = rng.choice([0, .2, .5])
        f = dict(kind=kind, planes=[], seg=[], cats=[], more=[], mcats=[], names=[])
        if kind == "annotators":
            f["planes"] = [rnd_img(rng, h, w, .4) for _ in range(rng.choice([1, 1, 2, 3, 5, 7]))]
        elif kind == "names":
            f["names"] = [rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
        else:
            f["seg"] = rnd_img(rng, h, w, .7, range(1, 21))
            f["cats"] = sorted(rng.sample(range(1, 21), rng.choice([0, 1, 1, 2, 3, 20])))
            if kind != "instances":
                f["planes"] = [rnd_img(rng, h, w, .4) if c + 1 in f["cats"] or rng.random() < .2 else [[0] * w for _ in range(h)] for c in range(20)]
            n = rng.choice([0, 1, 1, 1, 2, 3, 5])
            if kind in ("instances", "sensitive"):
                f["mcats"] = [rng.choice(f["cats"]) for _ in range(n)] if f["cats"] else []
                f["more"] = [rnd_img(rng, h, w, .4) for _ in f["mcats"]]
            elif kind == "again":
                f["mcats"] = [rng.choice(f["cats"]) for _ in range(n)] if f["cats"] else []
                f["more"] = [rnd_img(rng, h, w, p) for _ in range(20)]
            if kind in ("sensitive", "again") and rng.random() < .15:
                f["mcats"].insert(rng.randrange(len(f["mcats"]) + 1), rng.randrange(1, 21))
                if kind == "sensitive":
                    f["more"].append(rnd_img(rng, h, w, .4))
        c = dict(file=f, reader="new" if kind == "again" else rng.choice(["old", "new"]))
        c["h"] = dict(gz=rng.random() < .3, kw=rng.random() < .5, mat=rng.random() < .3)
        yield c


def run(mode, c):
    f, h = c["file"], c["h"]
    d = tempfile.mkdtemp(prefix="gt")
    p, q = d + "/cls.mat", d + "/inst.mat"
    new = c["reader"] == "new"
    warnings.simplefilter("ignore")

    def write(path, **kw):
        savemat(path, kw, do_compression=h["gz"])
    try:
        if f["kind"] == "annotators":
            o = np.empty((1, len(f["planes"])), object)
            for i, b in enumerate(f["planes"]):
                o[0, i] = dict(Segmentation=np.array(b, np.uint16) + 1, Boundaries=np.array(b, np.uint8))
            write(p, groundTruth=o)
            r = load_bsds_gt_boundaries(p, new_loader=True) if new else load_bsds_gt_boundaries(p)
            return dict(planes=[rows(b) for b in r], seg=[], cats=[], names=[])
        if f["kind"] == "names":
            o = np.empty((len(f["names"]), 1), object)
            o[:, 0] = f["names"]
            write(p, listTest=o)
            from .evalr import quiet
            with quiet():
                r = S.load_reanno_samples(p, new_loader=True) if new else S.load_reanno_samples(p)
            return dict(planes=[], seg=[], cats=[], names=[str(n) for n in r])
        seg = np.array(f["seg"], np.uint8)
        write(p, GTcls=dict(Boundaries=cell(f["planes"]), Segmentation=seg, CategoriesPresent=column(f["cats"])))
        write(q, GTinst=dict(Segmentation=seg, Boundaries=cell(f["more"]), Categories=column(f["mcats"])))
        kw = dict(new_loader=True) if new else dict(new_loader=False) if h["kw"] else {}
        if f["kind"] == "categories":
            b, s, cats = S.load_sbd_gt_cls_mat(p, **kw)
        elif f["kind"] == "instances":
            b, s, cats = S.load_sbd_gt_inst_mat(q, **kw)
        elif f["kind"] == "sensitive":
            b, s, cats = S.load_instance_sensitive_gt(p, q, **kw)
        else:
            b, s, cats = S.load_reanno_instance_sensitive_gt(p, q)
        return dict(planes=[rows(x) for x in b], seg=rows(s), cats=[int(x) for x in cats], names=[])
    finally:
        for x in (p, q):
            if os.path.exists(x):
                os.unlink(x)
        os.rmdir(d)
