"""C08/C09: calculate_metrics on synthetic per-sample counts"""
from .util import *
from pyEdgeEval.common.multi_label.calculate_metrics import calculate_metrics as ml
from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics as bl

U = 10 ** 7


def eval_counts(sample):
    c = sample["c"]
    return tuple(np.array(c[k], float) for k in ("cr", "sr", "cp", "sp"))


def curve_counts(rng, n, top):
    """recall falls and precision rises along the thresholds"""
    sr = rng.randrange(1, top + 1)
    cr = sorted((rng.randrange(0, sr + 1) for _ in range(n)), reverse=True)
    sp, cp = [], []
    for a in cr:
        extra = rng.randrange(0, top + 1) if rng.random() < .8 else 0
        m = min(a, top)
        cp.append(m)
        sp.append(max(m, min(m + extra, max(top, 6000))))
    return dict(cr=cr, sr=[sr] * n, cp=cp, sp=sp)


def random_counts(rng, n, top):
    d = dict(cr=[], sr=[], cp=[], sp=[])
    for a, b in (("cr", "sr"), ("cp", "sp")):
        for _ in range(n):
            s = rng.randrange(0, top + 1)
            d[b].append(s)
            d[a].append(rng.randrange(0, s + 1))
    return d


def power_counts(rng, n):
    """rates that are powers of two: exact in doubles"""
    d = dict(cr=[], sr=[], cp=[], sp=[])
    last = None
    for _ in range(n):
        if last is None or rng.random() < .5:
            last = (rng.choice((0, 1, 2, 4)), 4, rng.choice((0, 1, 2, 4)), 4)
        for k, v in zip(("cr", "sr", "cp", "sp"), last):
            d[k].append(v)
    return d


def gen(mode, tier, rng):
    big = tier == "thorough"
    for k in range(16000 if big else 2000):
        form = rng.choice(("list", "list", "array", "int", "float"))
        n = 1 if form == "float" else rng.choice((1, 2, 3, 3, 4, 5, 6, 9))
        if form != "float" and rng.random() < .015:
            n = rng.choice((20, 33, 99))
        if form == "int":
            thr = [(i + 1) / (n + 1) for i in range(n)]
        else:
            thr = rng.sample(range(0, 1001), n)
            if rng.random() < .7:
                thr.sort()
            thr = [t / 1000 for t in thr]
        kind = rng.choice(("curve", "curve", "random", "power", "tiny", "large", "huge", "perfect", "levels"))
        ns = 1 if kind == "power" and rng.random() < .6 else rng.choice((1, 1, 2, 3, 4, 6))
        if n < 10 and rng.random() < .02:
            ns = rng.choice((12, 30, 70))
        ss = []
        for s in range(ns):
            top = {"tiny": 2, "large": 6000, "huge": 300000, "levels": 20}.get(kind, 60)
            if kind in ("curve", "large", "huge"):
                c = curve_counts(rng, n, top)
            elif kind == "power":
                c = power_counts(rng, n)
            elif kind == "perfect":
                c = random_counts(rng, n, 30)
                i = rng.randrange(n)
                v = rng.randrange(1, 20)
                for f in c:
                    c[f][i] = v
            elif kind == "levels":  # recalls on the grid of the integration
                c = curve_counts(rng, n, 20)
                c["sr"] = [20] * n
                c["cr"] = [rng.randrange(0, 21) for _ in range(n)]
            else:
                c = random_counts(rng, n, top)
            c["name"] = rng.choice(("a", "b/c", "img 7", "0001", "x%d" % s, "same"))
            ss.append(c)
        yield dict(impl=rng.choice(("ml", "bl")), nproc=2 if k % 25 == 0 else rng.choice((0, 1)), form=form,
                   thr=[round(t * U) for t in thr], samples=ss, h=dict(thr=thr))


def s7(x):
    x = float(x)
    if not -10 < x < 10:
        raise ValueError("rate out of any range")
    return round(x * U)


def run(mode, c):
    fn = ml if c["impl"] == "ml" else bl
    thr = c["h"]["thr"]
    t = {"list": thr, "array": np.array(thr), "int": len(thr), "float": thr[0]}[c["form"]]
    data = [dict(name=s["name"], c=s) for s in c["samples"]]
    sm, tb, ov = fn(eval_counts, t, data, nproc=c["nproc"])
    def row(d):
        return dict(t=s7(d["threshold"]), rec=s7(d["recall"]), prec=s7(d["precision"]), f=s7(d["f1"]))
    return dict(samples=[dict(row(d), name=d["name"]) for d in sm], table=[row(d) for d in tb],
                ods=dict(t=s7(ov["ODS_threshold"]), rec=s7(ov["ODS_recall"]), prec=s7(ov["ODS_precision"]), f=s7(ov["ODS_f1"])),
                ois=dict(rec=s7(ov["OIS_recall"]), prec=s7(ov["OIS_precision"]), f=s7(ov["OIS_f1"])),
                auc=s7(ov["AUC"]), ap=s7(ov["AP"]))
