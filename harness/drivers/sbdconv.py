"""C18: SBD samples and whole trees, original and re-annotated, through the conversion"""
import os, re, runpy, shutil, sys, tempfile, warnings
from PIL import Image
from scipy.io import savemat
from scipy.sparse import csc_matrix
from .util import *
from .bdry import label_map
from .city import load
from .evalr import quiet
from .pipe import regions
import pyEdgeEval
from pyEdgeEval.helpers.convert_sbd import reanno_routine, routine

CASE_LIMIT = 150
SCRIPT = os.path.join(os.path.dirname(os.path.dirname(pyEdgeEval.__file__)), "scripts", "convert_datasets", "sbd.py")
NAMES = ["2008_%06d" % n for n in (8, 51, 123, 999999)] + ["2010_000001", "a"]


def size(rng):
    r = rng.random()
    if r < .1:
        return rng.randrange(1, 12), rng.randrange(1, 12)
    return rng.randrange(11, 19), rng.randrange(11, 19)


def sample(rng, name):
    h, w = size(rng)
    pal = rng.sample(range(1, 21), rng.randrange(1, 4)) + [0]
    m = regions(rng, h, w, pal, rng.randrange(1, 6)) if rng.random() < .7 else [[pal[v] for v in r] for r in label_map(rng, h, w, len(pal))]
    inst, icats = [[0] * w for _ in range(h)], []
    crowd = rng.random() < .08  # two-digit instance numbers
    for c in sorted(set(sum(m, [])) - {0}) if rng.random() < .8 else pal[:-1]:
        for _ in range(rng.choice([9, 11, 13]) if crowd else rng.choice([0, 1, 1, 2, 3])):
            icats.append(c)
    order = list(range(len(icats)))
    rng.shuffle(order)
    icats = [icats[i] for i in order]
    vert, cuts = rng.random() < .5, sorted(rng.randrange(1, max(h, w) + 1) for _ in range(12 if crowd else 3))
    for y in range(h):
        for x in range(w):
            mine = [i + 1 for i, c in enumerate(icats) if c == m[y][x]]
            if mine and rng.random() > .03:
                inst[y][x] = mine[sum((x if vert else y) >= c for c in cuts) % len(mine)]
            elif icats and rng.random() < .03:
                inst[y][x] = rng.randrange(1, len(icats) + 1)
    present = sorted(set(icats) | set(sum(m, [])) - {0})
    return dict(name=name, seg=m, inst=inst, icats=icats, present=present)


def again(rng, name, d):
    h, w = rng.randrange(2, 12), rng.randrange(2, 12)
    present = rng.sample(range(1, 21), rng.choice([0, 1, 1, 2, 3, 20]))
    bits = lambda cats: [[sum(1 << (c - 1) for c in cats if rng.random() < .3) for _ in range(w)] for _ in range(h)]
    more = [c for c in range(1, 21) if rng.random() < .15]
    return dict(name=name, dir=d, cls=bits(present), inst=bits(sorted(set(present + more))), present=sorted(present),
                icats=[rng.choice(present) for _ in range(rng.randrange(0, 4))] if present else [])


def suffixes(rng, kind):
    k = ("edge", "isedge", "label", "train", "inst")
    base = ["_edge.png", "_isedge.png", "_labelIds.png", "_trainIds.png", "_instanceIds.png"]
    if kind == "again":
        k, base = k[:2], ["_reanno_edge.png", "_reanno_isedge.png"]
    if rng.random() < .4:
        base = ["_%s%d.png" % (rng.choice("xyz"), i) for i in range(len(k))]
    return dict(zip(k, base))


def gen(mode, tier, rng):
    for k in range(700 if tier == "quick" else 4000):
        c = dict(how="script" if k % 6 == 0 else "calls", samples=[], again=[], calls=[], train=[], val=[], reanno=False, raws=[], thins=[], nproc=1)
        if c["how"] == "script":
            names = rng.sample(NAMES, rng.randrange(2, 5))
            c["samples"] = [sample(rng, n) for n in names]
            cut = rng.randrange(1, len(names))
            c["train"], c["val"] = names[:cut], names[cut:] + ([names[0]] if rng.random() < .2 else [])
            c["nproc"] = rng.choice([1, 1, 2, 3])
            if rng.random() < .6:
                c["reanno"] = True
                for d in ("raw", "thin"):
                    l = rng.sample(NAMES, rng.choice([1, 2, 3]))
                    c["again"] += [again(rng, n, d) for n in l]
                    c[d + "s"] = l
        else:
            for n in rng.sample(NAMES, rng.choice([1, 1, 1, 2])):
                if rng.random() < .7:
                    c["samples"].append(sample(rng, n))
                    c["calls"].append(dict(kind="original", name=n, dir="", radius=rng.choice([1, 2, 2, 3, 4]), thin=rng.random() < .35, segs=rng.random() < .5,
                                           suffix=suffixes(rng, "original")))
                else:
                    c["again"].append(again(rng, n, "raw"))
                    c["calls"].append(dict(kind="again", name=n, dir="raw", radius=2, thin=False, segs=False, suffix=suffixes(rng, "again")))
        yield c


def cell(planes):
    o = np.empty((len(planes), 1), object)
    for i, p in enumerate(planes):
        o[i, 0] = csc_matrix(np.array(p, bool))
    return o


def column(v):
    return np.array(v, np.uint8).reshape(-1, 1)


def plant(root, c):
    for d in ("cls_orig", "inst_orig"):
        os.makedirs(root + "/" + d)
    for s in c["samples"]:
        m, n = np.array(s["seg"], np.uint8), np.array(s["inst"], np.uint8)
        savemat("%s/cls_orig/%s.mat" % (root, s["name"]), dict(GTcls=dict(
            Boundaries=cell([np.zeros(m.shape)] * 20), Segmentation=m, CategoriesPresent=column(s["present"]))))
        savemat("%s/inst_orig/%s.mat" % (root, s["name"]), dict(GTinst=dict(
            Segmentation=n, Boundaries=cell([np.zeros(m.shape)] * len(s["icats"])), Categories=column(s["icats"]))))
    for a in c["again"]:
        d = "%s/gt_reanno_%s" % (root, a["dir"])
        x, y = np.array(a["cls"]), np.array(a["inst"])
        for k in ("cls", "inst"):
            os.makedirs(d + "/" + k, exist_ok=True)
        z = np.zeros(x.shape, np.uint8)
        savemat("%s/cls/%s.mat" % (d, a["name"]), dict(GTcls=dict(Boundaries=cell([x >> k & 1 for k in range(20)]), Segmentation=z,
                                                                CategoriesPresent=column(a["present"]))))
        savemat("%s/inst/%s.mat" % (d, a["name"]), dict(GTinst=dict(Segmentation=z, Boundaries=cell([y >> k & 1 for k in range(20)]),
                                                                  Categories=column(a["icats"]))))
    for split in ("train", "val"):
        with open("%s/%s.txt" % (root, split), "w") as f:
            f.write("".join(n + "\n" for n in c[split]))
    for d in ("raw", "thin"):
        if c[d + "s"]:
            o = np.empty((len(c[d + "s"]), 1), object)
            o[:, 0] = c[d + "s"]
            savemat("%s/gt_reanno_%s/test.mat" % (root, d), dict(listTest=o))


def run(mode, c):
    root = tempfile.mkdtemp(prefix="sbd")
    out = root + "/gtEval"
    try:
        plant(root, c)

        def go():
            warnings.simplefilter("ignore")
            with quiet():
                if c["how"] == "script":
                    sys.argv = ["sbd.py", "--root", root, "--nproc", str(c["nproc"])] + (["--reanno"] if c["reanno"] else [])
                    runpy.run_path(SCRIPT, run_name="__main__")
                else:
                    os.makedirs(out)
                    for k in c["calls"]:
                        s = {n + "_suffix": v for n, v in k["suffix"].items()}
                        if k["kind"] == "again":
                            reanno_routine(k["name"], root + "/gt_reanno_raw", out, **s)
                        else:
                            routine(k["name"], root, out, radius=k["radius"], thin=k["thin"], save_segs=k["segs"], **s)
            return 0
        forked(go, 140) if c["how"] == "script" else go()
        lst = root + "/reanno_val.txt"
        return dict(files=[dict(path=f, img=load(out + "/" + f, None)) for f in sorted(os.listdir(out))],
                    list=open(lst).read().splitlines() if os.path.exists(lst) else [])
    finally:
        shutil.rmtree(root)
