"""C16: encoders and decoders in memory and through files"""
import os
from PIL import Image
from .util import *
from pyEdgeEval.common.multi_label import (binary_multilabel_decoding, decode_png, decode_tif, default_multilabel_encoding,
                                           load_scaled_edge, rgb_multilabel_encoding)
from pyEdgeEval.utils import edge_multilabel2binary, edge_onehot2multilabel


def gen(mode, tier, rng):
    n = 9000 if tier == "thorough" else 1400
    for i in range(n):
        k = (i % 32) + 1 if i < 320 else rng.choice((1, 2, 7, 8, 9, 15, 16, 17, 19, 20, 23, 24, 25, 26, 31, 32, rng.randrange(1, 33)))
        h, w = rng.choice(((1, 1), (1, 3), (2, 1), (2, 3), (3, 3), (3, 2), (4, 3)))
        if rng.random() < .01:
            h, w = rng.choice(((17, 40), (40, 17), (33, 33), (1, 300), (300, 2)))
        p = rng.choice((.1, .5, .9, 1))
        planes = [rnd_img(rng, h, w, p) for _ in range(k)]
        yield dict(planes=planes, dt=rng.choice(("u8", "u8", "bool", "i32", "i64")), less=rng.randrange(1, k + 1))


def as_bytes(a):
    a = np.asarray(a).astype(np.int64)
    return [[[int(v) >> s & 255 for s in (0, 8, 16, 24)] for v in r] for r in a]


def stack(e):
    return [rows(p) for p in np.asarray(e)]


def run(mode, c):
    e = np.array([arr(p, c["dt"]) for p in c["planes"]])
    keep = e.copy()
    n, h, w = e.shape
    tmp = os.environ["TMPDIR"]
    out = dict(rgb=[], rgberr="", words=[], decoded=[])
    dec = lambda name, m, x: out["decoded"].append(dict(name=name, n=m, planes=stack(x)))
    asked = sorted({n, c["less"]})
    try:
        rgb = rgb_multilabel_encoding(e)
        if rgb.dtype != np.uint8:
            raise TypeError("not 8 bit")
        out["rgb"] = rgb.astype(int).tolist()
    except ValueError as x:
        out["rgberr"] = type(x).__name__
    else:
        Image.fromarray(rgb).save(tmp + "/e.png")
        for m in asked:
            dec("rgb-roundtrip", m, decode_png(Image.fromarray(rgb), m))
            img, size = load_scaled_edge(tmp + "/e.png", 1.0)
            if size != (h, w):
                out["rgberr"] = "size"
            dec("png-file-roundtrip", m, decode_png(img, m))
    word = default_multilabel_encoding(e)
    out["words"].append(["word-layout", as_bytes(word)])
    out["words"].append(["onehot-word-layout", as_bytes(edge_onehot2multilabel(e))])
    word.tofile(tmp + "/e.bin")
    img = Image.fromarray(word.view(np.int32))
    img.save(tmp + "/e.tif")
    for m in asked:
        dec("binary-file-roundtrip", m, binary_multilabel_decoding(tmp + "/e.bin", h, w, m))
        dec("integer-image-roundtrip", m, decode_tif(img, m))
        dec("tif-file-roundtrip", m, decode_tif(load_scaled_edge(tmp + "/e.tif", 1.0)[0], m))
    out["any"] = rows(edge_multilabel2binary(e))
    out["kept"] = bool((e == keep).all())
    return out
