"""C28: converted Cityscapes ground truth beside reference ground truth"""
import contextlib, io, os, re, runpy, shutil, sys, tempfile
from PIL import Image
from .util import *
from .city import tree_files
import pyEdgeEval
from pyEdgeEval.helpers.convert_cityscapes import test_against_matlab as compare

SCRIPT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(pyEdgeEval.__file__))), "scripts/convert_datasets/cityscapes.py")


def picture(rng, h, w):
    return [[rng.choice([0, 0, 1, 256, 0x010000, 0x070300, rng.randrange(1 << 19)]) for _ in range(w)] for _ in range(h)]


def gen(mode, tier, rng):
    for k in range(250 if tier == "quick" else 2500):
        refs, made = [], []
        for split in ("train", "val", "test"):
            for i in range(rng.choice([0, 1, 2, 3, 5])):
                h, w = rng.randrange(1, 9), rng.randrange(1, 9)
                f = dict(split=split, city=rng.choice(["aachen", "ulm"]), name="%s_%06d" % (rng.choice(["a", "b"]), len(refs)), img=picture(rng, h, w))
                refs.append(f)
                g = dict(f, img=[list(r) for r in f["img"]])
                for _ in range(rng.choice([0, 0, 0, 1, 2, 3, 4, 9])):
                    g["img"][rng.randrange(h)][rng.randrange(w)] ^= rng.choice([1, 256, 65536, 0x10101, 0x20002])
                if not (split == "test" and rng.random() < .5) and rng.random() < .97:
                    made.append(g)
        for i in range(rng.choice([0, 0, 1])):      # converted images without a reference
            made.append(dict(split=rng.choice(["train", "val"]), city="ulm", name="c_%06d" % i, img=picture(rng, 2, 3)))
        c = dict(refs=refs, made=made)
        c["is"] = rng.random() < .06
        c["h"] = dict(proc=rng.choice(["gtEval", "gtEval", "gtProc2", "out"]), ref=rng.choice(["gtProc", "gtProc", "gtProc", "matlab"]),
                      root=rng.choice(["city", "city", "cityscapes_gtProc", "gtProc/x"]), nproc=rng.choice([1, 1, 1, 3]), script=rng.random() < .3)
        if c["h"]["script"]:
            c["h"]["ref"] = "gtProc"
        yield c


def store(top, folder, f, suffix):
    d = "%s/%s/%s/%s" % (top, folder, f["split"], f["city"])
    os.makedirs(d, exist_ok=True)
    a = np.array(f["img"], np.int64)
    Image.fromarray(np.dstack([a >> 16 & 255, a >> 8 & 255, a & 255]).astype(np.uint8)).save(d + "/" + f["name"] + suffix)


def run(mode, c):
    h = c["h"]
    top = tempfile.mkdtemp(prefix="cmp")
    root = top + "/" + h["root"]
    try:
        for s in ("train", "val", "test"):
            os.makedirs(root + "/" + h["ref"] + "/" + s)
        for f in c["refs"]:
            store(root, h["ref"], f, "_gtProc_edge.png")
        for f in c["made"]:
            store(root, h["proc"], f, "_gtProc_raw_edge.png" if f["split"] == "val" else "_gtProc_edge.png")

        def snap():
            return [(f, open(os.path.join(top, f), "rb").read()) for f in tree_files(top)]
        before = snap()

        def go():
            o = io.StringIO()
            with contextlib.redirect_stdout(o):
                if h["script"]:
                    old = sys.argv
                    sys.argv = [SCRIPT, "--root", root, "-o", h["proc"], "--nproc", str(h["nproc"]), "--test_mode"] + ([] if c["is"] else ["--nonIS"])
                    try:
                        runpy.run_path(SCRIPT, run_name="__main__")
                    finally:
                        sys.argv = old
                else:
                    compare(h["proc"], h["ref"], cityscapes_root=root, inst_sensitive=c["is"], nproc=h["nproc"])
            return o.getvalue()
        t = forked(go, 100) if h["nproc"] > 1 else go()
        named = []
        for p, d in re.findall(r"(\S+_gtProc_edge\.png) (\d+)", t):
            s = p.split("/")
            named.append(dict(split=s[-3], city=s[-2], name=s[-1].replace("_gtProc_edge.png", ""), d=int(d)))
        count = lambda s: [int(x) for x in re.findall(r"\[%s\] total missed:\s*(\d+)" % s, t)]
        return dict(train=count("train"), val=count("val"), named=named, same=snap() == before)
    finally:
        shutil.rmtree(top)
