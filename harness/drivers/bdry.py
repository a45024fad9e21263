"""C14/C15: boundaries of label maps and instance maps from every generator"""
import math
from .util import *
from pyEdgeEval.edge_tools import (InstanceMask2Edge, Mask2Edge, loop_instance_mask2edge, loop_mask2edge, mask2edge,
                                   mp_instance_mask2edge, mp_mask2edge)
from pyEdgeEval.utils import mask2bdry, mask2onehot


def label_map(rng, h, w, n):
    kind = rng.choice(("rects", "rects", "noise", "voronoi", "full", "holes", "strips"))
    if kind == "strips":              # neighbouring bands, framed or not
        vert, f = rng.random() < .5, rng.choice((0, 0, 1, 2))
        cut = sorted(rng.randrange(max(h, w)) for _ in range(rng.randrange(1, 6)))
        v = [rng.randrange(n) for _ in range(len(cut) + 1)]
        return [[v[sum((x if vert else y) >= q for q in cut)] if f <= (y if vert else x) < (h if vert else w) - f else 0 for x in range(w)] for y in range(h)]
    if kind == "noise":
        p = rng.choice((.1, .5))
        return [[rng.randrange(n) if rng.random() < p else 0 for _ in range(w)] for _ in range(h)]
    if kind == "voronoi":
        s = [(rng.randrange(h), rng.randrange(w), rng.randrange(n)) for _ in range(rng.randrange(2, 6))]
        return [[min(s, key=lambda q: ((q[0] - y) ** 2 + (q[1] - x) ** 2, q[2]))[2] for x in range(w)] for y in range(h)]
    a = [[rng.randrange(n) if kind == "full" else 0] * w for _ in range(h)]
    if kind == "full":
        v = rng.randrange(n)
        a = [[v] * w for _ in range(h)]
        if rng.random() < .5:
            a[rng.randrange(h)][rng.randrange(w)] = rng.randrange(n)
        return a
    for _ in range(rng.randrange(1, 6)):
        y0, x0 = rng.randrange(h), rng.randrange(w)
        y1, x1 = min(h, y0 + rng.randrange(1, 9)), min(w, x0 + rng.randrange(1, 9))
        v = rng.randrange(n)
        for y in range(y0, y1):
            for x in range(x0, x1):
                a[y][x] = v
    if kind == "holes":
        for _ in range(3):
            a[rng.randrange(h)][rng.randrange(w)] = rng.randrange(n)
    return a


def inst_map(rng, m, labels):
    """splits connected-ish parts of instance labels into instances; sometimes stray ones"""
    h, w = len(m), len(m[0])
    out = [[0] * w for _ in range(h)]
    cut, vert = rng.randrange(1, max(2, w)), rng.random() < .5
    idx = [rng.choice((0, 0, 1, 5, 99, 100, 999)), rng.choice((1, 2, 7, 42, 123))]
    if rng.random() < .3:             # a group without an instance number
        idx[rng.randrange(2)] = None
    many = rng.random() < .2          # a patch for each number
    for y in range(h):
        for x in range(w):
            v = m[y][x]
            if v in labels:
                i = (y // 2 * 7 + x // 2 + (idx[1] or 0)) % 1000 if many else idx[(x if vert else y) >= cut]
                out[y][x] = v if i is None else v * 1000 + i
            elif rng.random() < .02:      # an instance number on foreign pixels
                out[y][x] = rng.choice(labels) * 1000 + 3
            elif rng.random() < .05:      # plain label numbers, as in Cityscapes instance maps
                out[y][x] = v
    return out


def gen(mode, tier, rng):
    big = tier == "thorough"
    n = {"plain": 3600, "inst": 1000, "pool": 110}[mode] * (6 if big else 1)
    for k in range(n):
        small = rng.random() < .3
        h, w = (rng.randrange(1, 5), rng.randrange(1, 6)) if small else (rng.randrange(3, 17), rng.randrange(3, 17))
        inst = mode == "inst" or (mode == "pool" and k % 2 == 0)
        form = "planes" if rng.random() < .2 else "map"
        base = 0
        if inst and form == "map" and rng.random() < .4:
            base = rng.choice((9, 10, 11, 23, 99, 104))     # shifts labels beyond ten / a hundred
        nl = rng.choice((2, 3, 3, 4, 5))
        if mode != "pool" and not base:
            if rng.random() < .02:    # many labels
                nl = rng.choice((8, 13, 20))
            elif rng.random() < .006: # larger images
                h, w = rng.randrange(24, 61), rng.randrange(24, 61)
        N = nl + base
        m = label_map(rng, h, w, nl)
        c = dict(form=form, n=N, h=h, w=w, radius=rng.choice((1, 1, 2, 2, 3, 5)), map=[], planes=[], inst=[], least=0,
                 internal=bool(rng.random() < .3) and mode != "pool", thin=bool(rng.random() < .25) and mode != "pool")
        ign = [v + base for v in range(nl) if rng.random() < .25][:2]
        if rng.random() < .4:
            ign = []
        if form == "map" and nl > 2 and min(h, w) > 5 and rng.random() < .25:   # a region behind a (mostly ignored) moat
            a, b, o = rng.sample(range(nl), 3)
            y0, x0 = rng.randrange(h // 2), rng.randrange(w // 2)
            y1, x1 = rng.randrange(y0 + 2, h), rng.randrange(x0 + 2, w)
            gap = [rng.choice((0, 1, 1, 2)) for _ in range(4)]
            m = [[a if y0 <= y <= y1 and x0 <= x <= x1 else b if y0 - gap[0] <= y <= y1 + gap[1] and x0 - gap[2] <= x <= x1 + gap[3] else o
                  for x in range(w)] for y in range(h)]
            if rng.random() < .8:
                ign = [b + base]
                c["internal"] |= rng.random() < .3 and mode != "pool"
        if form == "planes":
            c["planes"] = [rnd_img(rng, h, w, rng.choice((0, .2, .6, 1))) for _ in range(N)]
            if len(ign) > 1:          # ignored planes must not overlap
                ign = ign[:1]
            mm = label_map(rng, h, w, N)
        else:
            m = mm = [[v + base if v or base == 0 or rng.random() < 2 else 0 for v in r] for r in m]
            c["map"] = m
        c["ignore"] = ign
        if inst:
            labs = sorted(rng.sample(range(max(1, base), N), rng.randrange(1, N - max(1, base) + 1)))
            c["inst"] = inst_map(rng, mm, list(range(max(1, base), N)))
            c["least"] = labs[0]
            rng.shuffle(labs)
            c["h"] = dict(labs=labs)
        c.setdefault("h", {})
        c["hh"] = c["h"] if isinstance(c["h"], dict) else {}
        yield fix(c, h, rng, mode)


def fix(c, h, rng, mode):
    # "h" is reserved for harness-only data, the height is stored again by the specification's name
    extra = c.pop("hh")
    c["h"] = dict(extra, dt=rng.choice(("u8", "u8", "bool")), idt=rng.choice(("i32", "i32", "i64")),
                  nproc=rng.choice((1, 2, 3, 4)), perm=rng.choice((1, 1, 2, 3, 5)))
    c["height"] = h
    return c


def run(mode, c):
    x = c["h"]
    dt = x["dt"]
    if c["form"] == "map":
        m = arr(c["map"], "i32", (c["height"], c["w"]))
        planes = mask2onehot(m, labels=list(range(c["n"]))).astype(DT[dt])
    else:
        planes = np.array([arr(p, dt) for p in c["planes"]]).reshape(c["n"], c["height"], c["w"])
    inst = arr(c["inst"], x["idt"]) if c["inst"] else None
    kw = dict(ignore_indices=list(c["ignore"]), radius=c["radius"])
    opt = dict(internal_only=c["internal"], thin=c["thin"])
    keep = planes.copy(), None if inst is None else inst.copy()
    res, other = [], []

    def add(name, e):
        e = np.asarray(e)
        res.append((name, [rows(p) for p in e]))

    def mapped(cls, call, **k):
        """the same, renumbered by a table that leaves (some) ignored labels out"""
        labs = [l for l in range(c["n"]) if not (l in c["ignore"] and (l + x["perm"]) % 2)]
        if not labs:
            return
        t = {l: (i * x["perm"] + 1) % len(labs) if math.gcd(x["perm"], len(labs)) == 1 else i for i, l in enumerate(labs)}
        r = call(cls(labelIds=list(range(c["n"])), ignore_indices=list(c["ignore"]), radius=c["radius"], label2trainId=t, **k))
        e = np.zeros_like(planes, dtype=np.int64)
        for l, i in t.items():
            e[l] = r["edge"][i]
        add("transform-renumbered", e)
        want = [[t.get(v, 255) for v in q] for q in c["map"]]
        if len(r["edge"]) != len(t) or rows(r["mask"]) != want:
            other.append("renumbered-mask")

    if inst is None:
        if mode == "pool":
            add("pool-generator", mp_mask2edge(planes, nproc=x["nproc"], **kw))
            add("pool-by-name", mask2edge("mp", False, mask=planes, nproc=x["nproc"], use_cv2=False, **kw))
            add("label-loop", loop_mask2edge(planes, **kw))
        else:
            add("label-loop", loop_mask2edge(planes, use_cv2=True, **opt, **kw))
            add("label-loop-other-backend", mask2edge("loop", False, mask=planes, use_cv2=False, **opt, **kw))
            if not c["internal"] and not c["thin"] and c["form"] == "map":
                add("transform", Mask2Edge(list(range(c["n"])), ignore_indices=list(c["ignore"]), radius=c["radius"])(m)["edge"])
                mapped(Mask2Edge, lambda t: t(m))
    else:
        ikw = dict(kw, inst_mask=inst, inst_labelIds=list(x["labs"]))
        if mode == "pool":
            add("pool-generator", mp_instance_mask2edge(planes, nproc=x["nproc"], **ikw))
            add("pool-by-name", mask2edge("mp", True, mask=planes, nproc=x["nproc"], use_cv2=False, **ikw))
            add("label-loop", loop_instance_mask2edge(planes, **ikw))
        else:
            add("label-loop", loop_instance_mask2edge(planes, use_cv2=True, **opt, **ikw))
            add("label-loop-other-backend", mask2edge("loop", True, mask=planes, use_cv2=False, **opt, **ikw))
            if not c["internal"] and not c["thin"] and c["form"] == "map":
                add("transform", InstanceMask2Edge(inst_labelIds=list(x["labs"]), labelIds=list(range(c["n"])),
                                                   ignore_indices=list(c["ignore"]), radius=c["radius"])(m, inst)["edge"])
                mapped(InstanceMask2Edge, lambda t: t(m, inst), inst_labelIds=list(x["labs"]))
    if not (planes == keep[0]).all() or (inst is not None and not (inst == keep[1]).all()):
        other.append("input-modified")
    distinct, by = [], []
    for n, p in res:
        if p not in distinct:
            distinct.append(p)
        by.append([n, distinct.index(p) + 1])
    return dict(distinct=distinct, by=by, other=other)
