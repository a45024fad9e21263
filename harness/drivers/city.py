"""C19/C24: Cityscapes trees, their conversion, and on-the-fly evaluation against converted ground truth"""
import io, json, os, runpy, shutil, sys, tempfile
from PIL import Image
from cityscapesscripts.preparation.json2labelImg import json2labelImg
from cityscapesscripts.helpers.labels import id2label
from .util import *
from .evalr import quiet, text, save
from .bdry import label_map, inst_map
import pyEdgeEval
from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes

SCRIPT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(pyEdgeEval.__file__))), "scripts/convert_datasets/cityscapes.py")

CASE_LIMIT = 150
LABELS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 17, 19, 20, 21, 22, 23, 24, 24, 25, 26, 26, 26, 27, 28, 29, 31, 32, 33]
INST = [24, 25, 26, 27, 28, 31, 32, 33]


def scene(rng, h, w):
    """polygons (in painting order) as rectangles and triangles"""
    obj = []
    pal = rng.sample(LABELS, rng.randrange(2, 6))
    for _ in range(rng.randrange(1, 7)):
        y0, x0 = rng.randrange(-1, h), rng.randrange(-1, w)
        y1, x1 = y0 + rng.randrange(0, h), x0 + rng.randrange(0, w)
        p = [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
        if rng.random() < .3:
            p.pop(rng.randrange(4))
        obj.append([rng.choice(pal), p])
    if rng.random() < .5:
        obj.insert(0, [rng.choice(pal), [[-1, -1], [w, -1], [w, h], [-1, h]]])
    return obj


def instances(rng, lab):
    m = inst_map(rng, lab, INST)
    return m


def size(rng):
    r = rng.random()
    return (rng.randrange(2, 6), rng.randrange(2, 7)) if r < .3 else (rng.randrange(5, 14), rng.randrange(5, 16))


def paint(h, w, objs, path, kind):
    j = dict(imgHeight=h, imgWidth=w, objects=[dict(label=id2label[l].name, polygon=p) for l, p in objs])
    if path:
        with open(path, "w") as f:
            json.dump(j, f)
        return
    d = tempfile.mkdtemp(prefix="paint")
    try:
        with open(d + "/j", "w") as f:
            json.dump(j, f)
        json2labelImg(d + "/j", d + "/o.png", kind)
        return np.array(Image.open(d + "/o.png")).tolist()
    finally:
        shutil.rmtree(d)


def image(rng, split, city, name):
    h, w = size(rng)
    objs = scene(rng, h, w)
    lab = paint(h, w, objs, None, "ids")
    return dict(split=split, city=city, name=name, lab=lab, inst=instances(rng, lab), h=dict(objs=objs))


def gen(mode, tier, rng):
    for k in range(600 if tier == "quick" else 2600):
        tree = []
        for split in ("train", "val", "test"):
            n = rng.choice([0, 1, 1, 2]) if split != "val" else rng.choice([1, 1, 2, 2])
            for i in range(n):
                tree.append(image(rng, split, rng.choice(["aachen", "ulm", "x"]), "%s_%06d" % (rng.choice(["ulm", "aachen"]), len(tree))))
        runs = []
        for _ in range(1 if rng.random() < .75 else 2):
            runs.append({"proc": rng.choice(["gtEval", "gtEval", "gtProc2"]), "is": rng.random() < .6, "ext": rng.choice(["png", "png", "tif", "bin"]),
                         "half": rng.random() < .7, "tr": rng.choice([1, 2, 2, 3]), "rr": rng.choice([2, 2, 1, 3]), "nproc": rng.choice([1, 1, 1, 2, 4]), "script": rng.random() < .25})
            if runs[-1]["script"]:      # its radii are fixed
                runs[-1].update(tr=2, rr=2)
        yield dict(tree=tree, runs=runs, root=rng.choice(["city", "city", "gtFine_trainvaltest/x"]))


def plant(root, tree):
    for split in ("train", "val", "test"):
        os.makedirs(root + "/gtFine/" + split, exist_ok=True)
    for im in tree:
        d = "%s/gtFine/%s/%s" % (root, im["split"], im["city"])
        os.makedirs(d, exist_ok=True)
        lab = np.array(im["lab"], np.uint8)
        paint(lab.shape[0], lab.shape[1], im["h"]["objs"], d + "/" + im["name"] + "_gtFine_polygons.json", "")
        Image.fromarray(lab).save(d + "/" + im["name"] + "_gtFine_labelIds.png")
        Image.fromarray(np.array(im["inst"], np.uint16)).save(d + "/" + im["name"] + "_gtFine_instanceIds.png")
        Image.fromarray(np.zeros(lab.shape, np.uint8)).save(d + "/" + im["name"] + "_gtFine_color.png")


def convert(root, r):
    if r.get("script"):
        old = sys.argv
        sys.argv = [SCRIPT, "--root", root, "-o", r["proc"], "--ext", r["ext"], "--nproc", str(r["nproc"])]
        sys.argv += ([] if r["is"] else ["--nonIS"]) + ([] if r["half"] else ["--only-full-scale"])
        try:
            runpy.run_path(SCRIPT, run_name="__main__")
        finally:
            sys.argv = old
        return
    convert_cityscapes(proc_dirname=r["proc"], cityscapes_root=root, inst_sensitive=r["is"], ext=r["ext"], save_half_val=r["half"],
                       train_radius=r["tr"], raw_val_radius=r["rr"], thin_val_radius=1, nproc=r["nproc"])


def load(path, shape):
    ext = path[-4:]
    if ext == ".bin":
        a = np.fromfile(path, "<u4")
        h, w = shape[0], shape[1]
        if a.size != h * w:
            h, w = (h + 1) // 2, (w + 1) // 2
        return a.reshape(h, w).astype(np.int64).tolist()
    a = np.array(Image.open(path))
    if ext == ".tif":
        assert a.dtype.kind in "iu", "bit fields are integers"
        return a.astype(np.uint32).astype(np.int64).tolist()
    if a.ndim == 3:
        a = a.astype(np.int64)
        a = a[..., 0] * 65536 + a[..., 1] * 256 + a[..., 2]
    return a.tolist()


def tree_files(root):
    return sorted(os.path.relpath(os.path.join(a, f), root) for a, _, fs in os.walk(root) for f in fs)


def run(mode, c):
    top = tempfile.mkdtemp(prefix="city")
    root = os.path.join(top, c["root"])
    try:
        plant(root, c["tree"])
        before = tree_files(top)

        def go():
            with quiet():
                for r in c["runs"]:
                    convert(root, r)
            return 0
        forked(go, 140) if any(r["nproc"] > 1 for r in c["runs"]) else go()
        sizes = {im["name"]: (len(im["lab"]), len(im["lab"][0])) for im in c["tree"]}
        files = []
        for f in tree_files(top):
            if f in before:
                continue
            p = os.path.relpath(os.path.join(top, f), root)
            if p.startswith("splits/"):
                continue
            name = next((n for n in sizes if n in os.path.basename(p)), None)
            files.append(dict(path=p, img=load(os.path.join(top, f), sizes[name]) if name else []))
        lists = {}
        for s in ("train", "val", "test"):
            p = root + "/splits/%s.txt" % s
            lists[s] = open(p).read().splitlines() if os.path.exists(p) else ["(no list)"]
        return dict(files=files, lists=lists, gone=[f for f in before if not os.path.exists(os.path.join(top, f))])
    finally:
        shutil.rmtree(top)
