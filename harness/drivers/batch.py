"""C27: suppression of whole folders of results"""
import os, tempfile, shutil
import cv2
from scipy.io import savemat
from .util import *
from .evalr import quiet
from pyEdgeEval.preprocess.nms.fast_nms import fast_nms, nms_process_one_image, nms_results, nms_all_results

NAMES = ["101087", "a", "b.v2", "frankfurt_000000_000294", "x y", "2008_000008", "B", "e.x.t", "img", "r.mat", "r.npy.old"]
BARE = ["amat", "xnpy", "mat", ".npy", ".mat", "plain"]


def gen(mode, tier, rng):
    for k in range(260 if tier == "quick" else 2600):
        models = rng.choice([["hed"], ["hed", "casenet"], ["m.1"], ["run/hed", "hed"], ["a/b/c"]])
        names = rng.sample(NAMES, rng.randrange(1, 6))
        exts = rng.choice([[".npy"], [".npy"], [".mat"], [".npy", ".mat"], [".npy", ".txt"], [".mat", ".png"]])
        files = [dict(name=n, ext=rng.choice(exts), id=i + 1) for i, n in enumerate(names)]
        if rng.random() < .4:
            # names that only end in the letters of an extension
            for n in rng.sample(BARE, rng.choice([1, 2])):
                files.insert(rng.randrange(len(files) + 1), dict(name=n, ext="", id=len(files) + 1))
        kind = rng.choice(["folder", "models", "models"])
        paths = [(f["name"] + ".png") if kind == "folder" else m + "/" + f["name"] + ".png" for f in files for m in models]
        before = sorted(set(p for p in paths if rng.random() < .2))
        bad = [f["id"] for f in files if rng.random() < .15 and f["ext"] in (".npy", ".mat")]
        ops, todo = [], list(files)
        n0 = rng.randrange(0, len(todo) + 1)
        for f in todo[:n0]:
            ops.append(dict(o="add", file=f))
        todo = todo[n0:]
        for r in range(rng.choice([1, 2, 2, 3])):
            if kind == "folder":
                ops.append(dict(o="folder", models=[], ext="", refused=""))
            else:
                ms = rng.choice([models, models[:1], models[-1:]])
                ext = rng.choice(exts[:1] * 3 + [".mat", ".npy"])
                ops.append(dict(o="models", models=ms, ext=ext, refused=""))
                if rng.random() < .1:
                    ops.append(dict(o="models", models=ms, ext=rng.choice([".png", "npy", ""]), refused="AssertionError"))
            if rng.random() < .2:
                ops.append(dict(o="one", id=rng.randrange(1, len(files) + 1), save=rng.random() < .6, path="one/%d.png" % r))
            while todo and rng.random() < .5:
                ops.append(dict(o="add", file=todo.pop(0)))
        c = dict(before=before, unreadable=bad, ops=ops)
        c["h"] = dict(str1=rng.random() < .4, seed=rng.randrange(1 << 30), n=len(files), empty=[p for p in before if rng.random() < .4], u8=rng.random() < .5, key=rng.choice(["edge", "res"]))
        yield c


def picture(seed, i, u8):
    r = np.random.RandomState(seed + i * 7919)
    a = r.randint(0, 40, (18, 15)) + 0.0
    for _ in range(3):
        a[r.randint(1, 17), :] += 120 + r.randint(0, 60)
        a[:, r.randint(1, 14)] += 90
    a = np.clip(a, 0, 255)
    return a.astype(np.uint8) if u8 else a / 255.0


def run(mode, c):
    h = c["h"]
    d = tempfile.mkdtemp(prefix="batch")
    src, out = d + "/in", d + "/out"
    os.makedirs(src)
    pics = {i: picture(h["seed"], i, h["u8"]) for i in range(1, h["n"] + 1)}
    want = {i: fast_nms(p.copy(), r=1, s=5, m=1.01, return_as_uint8=True) for i, p in pics.items()}
    for p in c["before"]:
        os.makedirs(os.path.dirname(out + "/" + p), exist_ok=True)
        with open(out + "/" + p, "wb") as f:
            f.write(b"" if p in h["empty"] else b"before " + p.encode())

    def load(path):
        if os.path.splitext(path)[1] == ".npy":
            return np.load(path)
        if os.path.splitext(path)[1] == ".mat":
            from scipy.io import loadmat
            return loadmat(path)[h["key"]]
        return picture(h["seed"], int(open(path).read()), h["u8"])

    def ids(path):
        b = open(path, "rb").read()
        if b == b"" and os.path.relpath(path, out) in h["empty"]:
            return [-1]
        if b.startswith(b"before"):
            return [-1] if b == b"before " + os.path.relpath(path, out).encode() else [0]
        a = cv2.imread(path, cv2.IMREAD_UNCHANGED)
        return [0] if a is None else [i for i, w in want.items() if a.shape == w.shape and (a == w).all()]
    seen = []
    try:
        for op in c["ops"]:
            s = dict(err="", ret=[], tree=[])
            try:
                with quiet():
                    if op["o"] == "add":
                        f = op["file"]
                        p = src + "/" + f["name"] + f["ext"]
                        if f["id"] in c["unreadable"]:
                            open(p, "w").write("not a result")
                        elif f["ext"] == ".npy":
                            np.save(p, pics[f["id"]])
                        elif f["ext"] == ".mat":
                            savemat(p, {h["key"]: pics[f["id"]]})
                        else:
                            open(p, "w").write(str(f["id"]))
                    elif op["o"] == "folder":
                        nms_results(src, out, load)
                    elif op["o"] == "models":
                        ms = op["models"]
                        if h["str1"] and len(ms) == 1:
                            ms = ms[0]
                        if op["ext"] == ".mat":
                            nms_all_results(ms, src, out, key=h["key"])
                        else:
                            nms_all_results(ms, src, out, key=h["key"], file_format=op["ext"])
                    else:
                        p = out + "/" + op["path"]
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        r = nms_process_one_image(pics[op["id"]].copy(), p, save=op["save"])
                        s["ret"] = [i for i, w in want.items() if r.dtype == np.uint8 and r.shape == w.shape and (r == w).all()]
            except Exception as e:
                s["err"] = type(e).__name__
            for b, _, fs in os.walk(out):
                for f in sorted(fs):
                    p = os.path.join(b, f)
                    s["tree"].append(dict(p=os.path.relpath(p, out), ids=ids(p)))
            s["tree"].sort(key=lambda e: e["p"])
            seen.append(s)
        return dict(seen=seen)
    finally:
        shutil.rmtree(d)
