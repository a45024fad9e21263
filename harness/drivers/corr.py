"""C01/C02: correspond_pixels"""
from .util import *
from fractions import Fraction
import math
from pyEdgeEval._lib import correspond_pixels

TOL_EXACT = [Fraction(n, 16) for n in (1, 2, 3, 4, 5, 6, 8, 10)] + [Fraction(1, 32), Fraction(1, 64)]
TOL_ANY = [Fraction(3, 400), Fraction(1, 50), Fraction(1, 10), Fraction(7, 50), Fraction(1, 5), Fraction(1, 3),
           Fraction(9, 20), Fraction(1, 20)]


def exact(h, w, t):
    s = math.isqrt(h * h + w * w)
    return s * s == h * h + w * w and t.denominator & (t.denominator - 1) == 0


def ambiguous(h, w, t):
    q = t * t * (h * h + w * w)
    return q.denominator == 1 and not exact(h, w, t)


def case(rng, a, b, t, of2=200, dt=None, var=None):
    dt = dt or rng.choice(("bool", "u8", "f64", "i32"))
    return dict(a=a, b=b, tn=t.numerator, td=t.denominator, of2=of2, dt=dt,
                var=var or rng.choice(("c", "f", "strided")), c1=[], c2=[],
                # any value other than 0 marks an edge pixel
                h=dict(v=rng.choice({"bool": (1,), "u8": (1, 1, 255), "f64": (1., .25, 3.), "i32": (1, 256)}[dt])))


def pick_tol(rng, h, w, small=False):
    while True:
        t = rng.choice(TOL_EXACT if exact(h, w, Fraction(1)) and rng.random() < .7 else TOL_ANY)
        if not ambiguous(h, w, t) and (not small or t * t * (h * h + w * w) < 30):
            return t


def few(rng, h, w, n):
    a = [[0] * w for _ in range(h)]
    for _ in range(n):
        a[rng.randrange(h)][rng.randrange(w)] = 1
    return a


def curve(rng, h, w, n):
    """wandering one-pixel curves"""
    a = [[0] * w for _ in range(h)]
    for _ in range(n):
        y, x = rng.randrange(h), rng.randrange(w)
        dy, dx = rng.choice(((0, 1), (1, 0), (1, 1), (1, -1)))
        for _ in range(rng.randrange(5, max(6, w))):
            if 0 <= y < h and 0 <= x < w:
                a[y][x] = 1
            if rng.random() < .2:
                dy, dx = rng.choice(((0, 1), (1, 0), (1, 1), (1, -1), (-1, 0), (-1, 1)))
            y, x = y + dy, x + dx
    return a


def shifted(rng, a, k, drop):
    h, w = len(a), len(a[0])
    b = [[0] * w for _ in range(h)]
    dy, dx = rng.randrange(-k, k + 1), rng.randrange(-k, k + 1)
    for y in range(h):
        for x in range(w):
            if a[y][x] and rng.random() > drop:
                yy, xx = y + dy, x + dx
                if rng.random() < .2:
                    yy += rng.choice((-1, 0, 1))
                if 0 <= yy < h and 0 <= xx < w:
                    b[yy][xx] = 1
    return b


def koenig(c):
    """a vertex cover of the eligible pairs as large as a maximum matching"""
    import numpy as np
    from scipy.sparse import csr_matrix
    from scipy.sparse.csgraph import maximum_bipartite_matching
    a = [(y, x) for y, r in enumerate(c["a"]) for x, v in enumerate(r) if v]
    b = [(y, x) for y, r in enumerate(c["b"]) for x, v in enumerate(r) if v]
    if not a or not b:
        return [], []
    A, B = np.array(a), np.array(b)
    d2 = ((A[:, None] - B[None]) ** 2).sum(-1)
    h, w = len(c["a"]), len(c["a"][0])
    g = d2 * c["td"] ** 2 <= c["tn"] ** 2 * (h * h + w * w)
    m = maximum_bipartite_matching(csr_matrix(g), perm_type="column")  # row -> column
    zr, zc = set(i for i in range(len(a)) if m[i] < 0), set()
    inv = {int(j): i for i, j in enumerate(m) if j >= 0}
    stack = list(zr)
    while stack:
        i = stack.pop()
        for j in np.nonzero(g[i])[0]:
            j = int(j)
            if j not in zc:
                zc.add(j)
                k = inv.get(j)
                if k is not None and k not in zr:
                    zr.add(k)
                    stack.append(k)
    return ([[a[i][0] + 1, a[i][1] + 1] for i in range(len(a)) if i not in zr and m[i] >= 0],
            [[b[j][0] + 1, b[j][1] + 1] for j in zc])


def gen(mode, tier, rng):
    big = tier == "thorough"
    if mode == "small":
        for h, w in ((1, 1), (2, 2), (1, 4), (4, 1)) + (((2, 3), (3, 2)) if big else ()):
            n = h * w
            for p in range(1 << n):
                for q in range(1 << n):
                    ts = (Fraction(1, 4), Fraction(7, 16), Fraction(3, 5)) if n > 1 else (Fraction(1, 4),)
                    for t in ts[:3 if n < 6 else 2]:
                        if not ambiguous(h, w, t):
                            yield case(rng, [[p >> (y * w + x) & 1 for x in range(w)] for y in range(h)],
                                       [[q >> (y * w + x) & 1 for x in range(w)] for y in range(h)], t)
        shapes = [(3, 4), (4, 3), (6, 8), (5, 12), (8, 6), (12, 5), (9, 12)]
        for k in range(20000 if big else 2500):
            h, w = rng.choice(shapes) if k % 2 else (rng.randrange(1, 10), rng.randrange(1, 10))
            a = few(rng, h, w, rng.randrange(0, 7))
            b = few(rng, h, w, rng.randrange(0, 7)) if rng.random() < .5 else shifted(rng, a, 2, .2)
            t = pick_tol(rng, h, w, True)
            of2 = 200
            if rng.random() < .4:
                of2 = rng.choice((3, 4, 5, 7, 16, 20, 400)) if exact(h, w, t) else rng.choice((16, 20, 400))
            c = case(rng, a, b, t, of2)
            yield c
        for k in range(150 if big else 16):  # few points in large images
            h, w = rng.choice(((321, 481), (481, 321), (260, 40), (30, 520), (300, 300)))
            ys, xs = rng.randrange(h), rng.randrange(w)
            a, b = few(rng, h, w, 0), few(rng, h, w, 0)
            for im in (a, b):
                for _ in range(rng.randrange(1, 6)):
                    im[min(h - 1, max(0, ys + rng.randrange(-4, 5)))][min(w - 1, max(0, xs + rng.randrange(-4, 5)))] = 1
                im[rng.choice((0, h - 1, rng.randrange(h)))][rng.choice((0, w - 1, rng.randrange(w)))] = 1
            t = rng.choice((Fraction(3, 400), Fraction(1, 50), Fraction(1, 100)))
            if not ambiguous(h, w, t):
                yield case(rng, a, b, t)
        for k in range(1500 if big else 150):  # few points in images of medium size with wide tolerances
            h, w = rng.choice(((60, 80), (80, 60), (50, 120), (rng.randrange(20, 90), rng.randrange(20, 90))))
            t = pick_tol(rng, h, w)
            r = math.ceil(float(t) * math.hypot(h, w))
            ys, xs = rng.randrange(h), rng.randrange(w)
            a, b = few(rng, h, w, 0), few(rng, h, w, 0)
            for im in (a, b):
                for _ in range(rng.randrange(1, 7)):
                    im[min(h - 1, max(0, ys + rng.randrange(-r, r + 1)))][min(w - 1, max(0, xs + rng.randrange(-r, r + 1)))] = 1
            yield case(rng, a, b, t)
        for k in range(150 if big else 60):  # pairs exactly at, just within and just beyond the tolerance of 5 pixels
            h, w, t = rng.choice(((6, 8, Fraction(1, 2)), (8, 6, Fraction(1, 2)), (12, 16, Fraction(1, 4)), (16, 12, Fraction(1, 4))))
            a, b = few(rng, h, w, 0), few(rng, h, w, 0)
            for _ in range(rng.choice((1, 1, 2))):
                y, x = rng.randrange(h), rng.randrange(w)
                dy, dx = rng.choice(((3, 4), (4, 3), (0, 5), (5, 0), (3, 4), (5, 1), (4, 4), (2, 4)))
                dy, dx = dy * rng.choice((-1, 1)), dx * rng.choice((-1, 1))
                a[y][x] = 1
                if 0 <= y + dy < h and 0 <= x + dx < w:
                    b[y + dy][x + dx] = 1
            yield case(rng, a, b, t)
        return
    if mode == "errors":
        z = [[1, 0], [0, 1]]
        for a, b in (([[1, 0]], [[1], [0]]), (z, [[1, 0]]), ([[1, 0, 1]], [[1, 0]]), (z, [[1, 0, 1], [0, 1, 0]])):
            yield case(rng, a, b, Fraction(1, 4))
        for k in range(30):
            yield case(rng, few(rng, 3, 3, 3), few(rng, 3, 4, 3) if k % 3 == 0 else few(rng, 3, 3, 3),
                       rng.choice((Fraction(0), Fraction(-1, 4), Fraction(-3), Fraction(1, 5))),
                       rng.choice((0, 1, 2, -2, 3)))
        return
    for k in range({"dense": 3000, "curves": 600}[mode] if big else {"dense": 500, "curves": 60}[mode]):
        if mode == "dense":
            h, w = rng.randrange(3, 13), rng.randrange(3, 13)
            a, b = rnd_img(rng, h, w, rng.choice((.2, .5, .9))), rnd_img(rng, h, w, rng.choice((.2, .5, .9)))
            t = pick_tol(rng, h, w)
        else:
            h, w = rng.randrange(20, 70 if big else 50), rng.randrange(20, 70 if big else 50)
            a = curve(rng, h, w, rng.randrange(1, 9))
            b = shifted(rng, a, 3, .1) if rng.random() < .8 else curve(rng, h, w, 5)
            t = rng.choice((Fraction(3, 400), Fraction(1, 50), Fraction(3, 80), Fraction(1, 16)))
            if ambiguous(h, w, t):
                continue
        c = case(rng, a, b, t)
        c["c1"], c["c2"] = koenig(c)
        yield c


def run(mode, c):
    A, B = arr(c["a"], c["dt"]), arr(c["b"], c["dt"])
    v = c.get("h", {}).get("v", 1)
    if v != 1:
        A, B = (A * v).astype(A.dtype), (B * v).astype(B.dtype)
    if c["var"] == "f":
        A, B = np.asfortranarray(A), np.asfortranarray(B)
    elif c["var"] == "strided":
        A = np.repeat(np.repeat(A, 2, 0), 2, 1)[::2, ::2]
        B = np.repeat(B[::-1], 3, 1)[::-1, ::3]
    a0, b0 = A.copy(), B.copy()
    kw = {}
    t = Fraction(c["tn"], c["td"])
    if c["of2"] != 200 or c["tn"] % 2:
        kw["outlier_cost"] = c["of2"] / 2
    if t != Fraction(3, 400):
        kw["max_dist"] = c["tn"] / c["td"]
    o0, o1, cost, oc = correspond_pixels(A, B, **kw)
    return dict(o0=rows(o0), o1=rows(o1), costm=round(float(cost) * 1000), ocm=round(float(oc) * 1000),
                kept=bool((A == a0).all() and (B == b0).all() and A.dtype == a0.dtype))
