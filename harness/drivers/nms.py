"""C04: non-maximum suppression"""
from .util import *
import math
from pyEdgeEval._lib import nms
from pyEdgeEval.preprocess import fast_nms
from pyEdgeEval.preprocess.nms.toolbox import conv_tri

EXACT = [(1000, 0), (0, 1000), (-1000, 0), (0, -1000), (800, 600), (600, 800), (-600, 800), (-800, 600), (800, -600),
         (960, 280), (-280, 960)]


def smooth_img(rng, h, w):
    """ridges: what an edge detector produces"""
    a = [[rng.randrange(0, 12) for _ in range(w)] for _ in range(h)]
    for _ in range(rng.randrange(1, 4)):
        cy, cx, th, st = rng.randrange(h), rng.randrange(w), rng.random() * math.pi, rng.randrange(60, 240)
        wd = rng.choice((1.0, 1.5, 2.5))
        for y in range(h):
            for x in range(w):
                d = (y - cy) * math.cos(th) - (x - cx) * math.sin(th)
                a[y][x] = min(255, a[y][x] + int(st * math.exp(-d * d / wd / wd / 2)))
    return a


def gen(mode, tier, rng):
    big = tier == "thorough"
    if mode == "nms":
        for k in range(9000 if big else 1500):
            h, w = rng.randrange(1, 11), rng.randrange(1, 11)
            mx, D, sharp = rng.choice(((1, 1, True), (3, 4, True), (8, 8, True), (255, 255, False), (255, 1, True), (20, 7, False)))
            img = [[rng.randrange(0, mx + 1) if rng.random() < .8 else 0 for _ in range(w)] for _ in range(h)]
            if k % 7 == 0:
                img = [[min(mx, v) for v in r] for r in smooth_img(rng, h, w)]
            exact = k % 4 != 0
            uni = rng.choice(EXACT) if rng.random() < .4 else None
            dirs = [[uni or (rng.choice(EXACT) if exact else None) for _ in range(w)] for _ in range(h)]
            if not exact:
                dirs = [[(round(1000 * math.cos(t)), round(1000 * math.sin(t)))
                         for t in [rng.random() * 2 * math.pi for _ in range(w)]] for _ in range(h)]
            m = rng.choice((1000000, 1010000, 1010000, 1250000, 1500000, 750000, 1100000))
            yield dict(fn="nms", img=img, D=D, sharp=sharp and m % 250000 == 0, exact=exact, dirs=dirs,
                       r=rng.choice((0, 1, 1, 1, 2, 3, 5, 8)), s=rng.choice((0, 0, 1, 2, 3, 5, 5, 7)), mP=m,
                       dt=rng.choice(("f64", "f32")) if D in (1, 4, 8) else "f64", deflt=False)
        for k in range(60):
            h, w = rng.randrange(8, 14), rng.randrange(8, 14)
            img = smooth_img(rng, h, w)
            yield dict(fn="nms", img=img, D=255, sharp=False, exact=True, dirs=[[rng.choice(EXACT)] * w for _ in range(h)],
                       r=1, s=5, mP=1010000, dt="f64", deflt=True)
        for a, b in (((2, 3), (3, 2)), ((2, 2), (2, 3)), ((3, 3), (4, 3)), ((1, 4), (4, 1))):
            yield dict(fn="mismatch", img=[[1] * a[1]] * a[0], D=1, sharp=True, exact=True,
                       dirs=[[(1000, 0)] * b[1]] * b[0], r=1, s=0, mP=1000000, dt="f64", deflt=False)
        for k in range(400 if big else 120):
            h, w = rng.randrange(1, 9), rng.randrange(1, 9)
            r = rng.choice((0, 1, 1, 1, 2, 3, 4))
            yield dict(fn="conv", img=[[rng.randrange(0, 256) for _ in range(w)] for _ in range(h)], r=r, s=0, dt="f64")
        return
    for k in range(4000 if big else 450):
        h, w = (rng.randrange(4, 15), rng.randrange(4, 15)) if k % 9 else (rng.randrange(2, 6), rng.randrange(2, 6))
        if k % 90 == 7:
            h, w = rng.choice(((40, 61), (70, 33)))
        img = smooth_img(rng, h, w) if k % 5 else [[rng.randrange(256) for _ in range(w)] for _ in range(h)]
        deflt = k % 3 == 0
        m = 101 if deflt else rng.choice((100, 101, 110, 125, 150))
        dt = rng.choice(("u8", "u8", "f64", "f32"))
        half = not deflt and rng.random() < .3
        if k % 13 == 0:  # hardly any response
            img = [[rng.randrange(2) if k % 2 else 0 for _ in range(w)] for _ in range(h)]
        if k % 11 == 0 and dt != "u8":  # responses above one
            img = [[min(2 * v, 330) for v in r] for r in img]
        yield dict(fn="fast", img=img, r=1 if deflt else rng.choice((0, 1, 1, 2, 4)), s=5 if deflt else rng.choice((0, 1, 3, 5)),
                   mP=m * 512 * 512 // 100, m100=m, dt=dt, half=half, single=half or dt == "f32",
                   u8=rng.random() < .5, deflt=deflt)


def run(mode, c):
    if c["fn"] == "conv":
        x = arr(c["img"], "f64")
        b = x.copy()
        y = conv_tri(x, c["r"])
        return dict(img=rows(np.round(y * (c["r"] + 1) ** 4)), kept=bool((x == b).all()))
    if c["fn"] == "fast":
        x = arr(c["img"], c["dt"])
        if c["dt"] != "u8":
            x = (x / 255).astype(x.dtype)
        b = x.copy()
        kw = {} if c["deflt"] else dict(r=c["r"], s=c["s"], m=c["m100"] / 100, half_prec=c["half"])
        y = fast_nms(x, return_as_uint8=c["u8"], **kw)
        return dict(img=rows(y if y.dtype == np.uint8 else np.round(y * 255 * 1600)), isu8=y.dtype == np.uint8,
                    kept=bool((x == b).all() and x.dtype == b.dtype))
    e = (np.array(c["img"], np.float64) / c["D"]).astype(DT[c["dt"]])
    o = np.array([[math.atan2(d[1], d[0]) for d in r] for r in c["dirs"]], np.float64)
    e0, o0 = e.copy(), o.copy()
    y = nms(e, o) if c["deflt"] else nms(e, o, c["r"], c["s"], c["mP"] / 1e6) if c["s"] % 2 else \
        nms(e, o, r=c["r"], s=c["s"], m=c["mP"] / 1e6)
    return dict(img=rows(np.round(y * c["D"] * 1e4)), kept=bool((e == e0).all() and (o == o0).all()))
