"""C03: thinning"""
from .util import *
from pyEdgeEval.preprocess import binary_thin
from pyEdgeEval.preprocess.thin import bwmorph_thin


def gen(mode, tier, rng):
    big = tier == "thorough"
    if mode == "all":  # every image of the small sizes
        for h, w in ((1, 1), (1, 5), (5, 1), (2, 3), (3, 3), (2, 5)) + (((3, 4), (4, 3), (4, 4)) if big else ()):
            n = h * w
            for k in range(1 << n):
                im = [[k >> (y * w + x) & 1 for x in range(w)] for y in range(h)]
                for fn in ("thin", "bwm"):
                    yield dict(fn=fn, img=im, limit=-1, dt="bool" if k % 2 else "u8", ndim=2)
        if not big:
            for k in range(3000):
                h, w = rng.choice(((3, 4), (4, 3), (4, 4)))
                yield dict(fn=rng.choice(("thin", "bwm")), img=rnd_img(rng, h, w, rng.choice((.3, .5, .7, .9))),
                           limit=-1, dt="bool", ndim=2)
        return
    for k in range(6000 if big else 900):
        h, w = rng.randrange(1, 16), rng.randrange(1, 16)
        fn = rng.choice(("thin", "thin", "bwm"))
        dt = rng.choice(("bool", "u8", "i32", "f64", "f32"))
        im = rnd_img(rng, h, w, rng.choice((.2, .5, .8, .95, 1))) if k % 2 else blob_img(rng, h, w, rng.randrange(1, 9))
        if fn == "thin" and dt not in ("bool",) and rng.random() < .5:
            vals = (1, 2, 3, 100, 255) + ((-1, -7) if dt != "u8" else ())
            im = [[v * rng.choice(vals) for v in r] for r in im]
        limit = rng.choice((-1, -1, -1, 1, 2, 3, 4))
        if fn == "thin" and k % 20 == 0:
            limit = 0
        yield dict(fn=fn, img=im, limit=limit, dt=dt, ndim=2)
    for h, w in ((40, 37), (25, 60), (64, 64)) if big else ((30, 22), (17, 40), (90, 130)):
        for n in (3, 12, 30):
            yield dict(fn=rng.choice(("thin", "bwm")), img=blob_img(rng, h, w, n), limit=-1, dt="bool", ndim=2)
    n = 16  # n * n tiles: every iteration deletes a multiple of 256 pixels
    for fn in ("thin", "bwm"):
        th, tw = (3, 4) if fn == "thin" and not big else (4, 4)
        tile = [[int(y < th and x < tw) for x in range(tw + 1)] for y in range(th + 1)]
        yield dict(fn=fn, img=[[tile[y % (th + 1)][x % (tw + 1)] for x in range(n * (tw + 1))] for y in range(n * (th + 1))],
                   limit=-1, dt="bool", ndim=2)
    for k in range(40):     # not for the morphological routine
        im = rnd_img(rng, rng.randrange(1, 6), rng.randrange(1, 6), .6)
        if k % 2:
            im[-1][rng.randrange(len(im[0]))] = rng.choice((2, 255, 256, -1, 3))
        yield dict(fn="bwm", img=im, limit=rng.choice((-1, 1, 2)) if k % 2 else rng.choice((0, 0, -2, -5)), dt="i32", ndim=2)
    for nd in (1, 3):
        for fn in ("thin", "bwm"):
            yield dict(fn=fn, img=[[1, 0, 1]], limit=-1, dt="u8", ndim=nd)


def run(mode, c):
    x = arr(c["img"], c["dt"])
    if c["ndim"] == 1:
        x = x[0]
    elif c["ndim"] == 3:
        x = x[None]
    before = x.copy()
    lim = None if c["limit"] == -1 else c["limit"]
    if c["fn"] == "thin":
        y = binary_thin(x) if lim is None else binary_thin(x, max_iter=lim)
    else:
        y = bwmorph_thin(x) if lim is None else bwmorph_thin(x, n_iter=lim)
    kept = bool((x == before).all())
    if c["limit"] == 0:
        y = y != 0
    return dict(img=rows(y), isbool=y.dtype == bool, kept=kept)
