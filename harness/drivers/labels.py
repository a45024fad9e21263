"""C17: label-space conversions and dataset tables"""
from .util import *
from pyEdgeEval.common.multi_label import add_ignore_pixel, convert_inst_seg
from pyEdgeEval.datasets import cityscapes_attributes as cs, sbd_attributes as sbd
from pyEdgeEval.edge_tools import Mask2Edge
from pyEdgeEval.utils import edge_label2trainId, mask2onehot, mask_label2trainId

SHAPES = ((1, 1), (1, 4), (3, 1), (2, 3), (4, 4), (3, 7), (9, 2))


def table(rng, labels):
    w = rng.randrange(4)
    if w == 0:
        return sorted(([k, v] for k, v in cs.CITYSCAPES_label2trainId.items()), key=lambda e: e[1])
    if w == 1:
        return sorted(([k, v] for k, v in sbd.SBD_label2trainId.items()), key=lambda e: e[1])
    keys = rng.sample(labels, rng.randrange(1, min(8, len(labels)) + 1))
    vals = list(range(len(keys)))
    rng.shuffle(vals)
    return [[k, v] for k, v in zip(keys, vals)]


def gen(mode, tier, rng):
    yield dict(kind="tables")
    n = 8000 if tier == "thorough" else 4000
    for i in range(n):
        h, w = rng.choice(SHAPES)
        kind = ("map", "planes", "onehot", "number", "border")[i % 5]
        if kind == "map":
            dt = rng.choice(("u8", "i32", "i64"))
            labels = list(range(0, 40)) + ([-1] if dt != "u8" else [255])
            t = table(rng, labels)
            if rng.random() < .3:       # many labels to one training label
                t = [[k, rng.choice((v, 255, 0, 1))] for k, v in t]
            pool = [k for k, _ in t] + [v for _, v in t] + rng.sample(labels, 3)
            yield dict(kind=kind, dt=dt, table=t, img=[[rng.choice(pool) for _ in range(w)] for _ in range(h)])
        elif kind == "planes":
            t = table(rng, list(range(12)))
            k = max(e[0] for e in t) + 1 + rng.randrange(3)
            yield dict(kind=kind, dt=rng.choice(("u8", "u8", "bool", "i32")), table=t,
                       stack=[rnd_img(rng, h, w, .5) for _ in range(k)])
        elif kind == "onehot":
            dt = rng.choice(("u8", "i32"))
            labels = rng.choice((list(range(34)), list(range(22)), rng.sample(range(256), rng.randrange(1, 9)),
                                 rng.sample(range(256), rng.randrange(1, 9))))
            pool = labels + [0, 255]
            yield dict(kind=kind, dt=dt, labels=labels, img=[[rng.choice(pool) for _ in range(w)] for _ in range(h)])
        elif kind == "number":
            m = rng.choice((0, 1, 2, 3, 5, 8, 12, 14)) if rng.random() < .95 else rng.choice((40, 99, 100, 101, 130, 250))
            cats = [rng.choice((1, 2, 9, 10, 19, 20)) for _ in range(m)]
            present = [c for c in sorted(set(cats)) if rng.random() < .85]
            if rng.random() < .2:
                present.append(5)
            rng.shuffle(present)
            yield dict(kind=kind, dt=rng.choice(("u8", "i32")), cats=cats, present=present, np=rng.randrange(3),
                       img=[[rng.randrange(m + 2) for _ in range(w)] for _ in range(h)])
        else:
            h, w = rng.choice(SHAPES + ((11, 11), (12, 15), (10, 3), (6, 10)))
            yield dict(kind=kind, dt=rng.choice(("u8", "i32")), width=rng.choice((0, 1, 2, 5, 5, 7)), id=rng.choice((0, 21, 255)),
                       img=[[rng.randrange(3) for _ in range(w)] for _ in range(h)])


def run(mode, c):
    k = c["kind"]
    if k == "tables":
        tab = lambda t: [[int(a), int(b)] for a, b in t.items()]
        names = lambda d: [d[i] for i in range(len(d))]
        return dict(cs_table=tab(cs.CITYSCAPES_label2trainId), cs_names=names(cs.CITYSCAPES_trainId2name),
                    cs_inst=list(cs.CITYSCAPES_inst_labelIds), cs_labels=list(cs.CITYSCAPES_labelIds),
                    sbd_table=tab(sbd.SBD_label2trainId), sbd_names=names(sbd.SBD_trainId2name),
                    sbd_inst=list(sbd.SBD_inst_labelIds), sbd_labels=list(sbd.SBD_labelIds))
    a = np.array([arr(p, c["dt"]) for p in c["stack"]]) if k == "planes" else arr(c["img"], c["dt"])
    keep = a.copy()
    kept = True
    if k == "map":
        r = mask_label2trainId(a, dict(map(tuple, c["table"])))
        r3 = mask_label2trainId(a[..., None], dict(map(tuple, c["table"])))
        if not (r3 == r).all():
            raise AssertionError("single-channel image converted differently")
    elif k == "planes":
        r = edge_label2trainId(a, dict(map(tuple, c["table"])))
    elif k == "onehot":
        r = mask2onehot(a, c["labels"])
    elif k == "number":
        cats, present = c["cats"], c["present"]
        if c["np"]:
            t = np.uint8 if c["np"] == 1 else np.int64
            cats, present = np.array(cats, t), np.array(present, t)
        r = convert_inst_seg(a, cats, present)
    else:
        r = add_ignore_pixel(a, border_px=c["width"], ignore_id=c["id"])
        return dict(res=rows(r), dt="uint8", kept=bool((a == r).all()))
    kept = bool((a == keep).all())
    return dict(res=[rows(p) for p in r] if r.ndim == 3 else rows(r), dt=str(r.dtype), kept=kept)
