"""C10: histories of saves, evaluations and plots in one result folder"""
import io, os, re, shutil, tempfile, contextlib, warnings
from collections import OrderedDict
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from .util import *
from . import agg, evalr
from .evalr import quiet
from pyEdgeEval.common.multi_label.io import save_category_results
from pyEdgeEval.common.binary_label.io import save_results
from pyEdgeEval.common.multi_label.calculate_metrics import calculate_metrics as ml_metrics
from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics as bl_metrics
from pyEdgeEval.evaluators.base import BaseMultilabelEvaluator
from pyEdgeEval.visualization.pr_curve import plot_pr_curve as plot_v, AlgorithmInfo
from pyEdgeEval.common.binary_label.visualize import plot_pr_curve as plot_b

CASE_LIMIT = 120
U = 10 ** 7
METRICS = ["ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall", "OIS_precision", "OIS_f1", "AUC", "AP"]
NAMES = ["100007", "2008_000051", "frankfurt/frankfurt_000000_000294", "a", "b/c", "img-7", "x y", "0001"]


def val(rng):
    k = rng.random()
    if k < .12:
        return rng.choice([0, U, 5, 4, 6, 15, U - 5, U - 4, U // 2, 100000, 9985, 10000, 10005])
    if k < .3:
        return rng.randrange(0, 1001) * 10000
    if k < .45:
        return rng.randrange(0, 10 ** 6) * 10 + 5
    v = rng.randrange(0, U + 1)
    return v if not 9986 <= v < 10000 else 500000


def parts(rng, empty):
    S = [dict(name=n, v=[val(rng) for _ in range(4)]) for n in rng.sample(NAMES, rng.randrange(1, 4))]
    T = [[val(rng) for _ in range(4)] for _ in range(rng.choice([1, 2, 3, 5, 9]))]
    kind = rng.random()
    if kind < .5:  # a curve: thresholds and precision rise, recall falls
        cols = [sorted(c) for c in zip(*T)]
        T = [list(x) for x in zip(cols[0], cols[1][::-1], cols[2], cols[3])]
    elif kind < .6:
        T = [[t[0], 0, t[2], 0] for t in T]
    d = dict(S=S, T=T, O=[val(rng) for _ in range(9)])
    if empty:
        for k in "STO":
            if rng.random() < .3:
                d[k] = []
    return d


def gen(mode, tier, rng):
    for k in range(900 if tier == "quick" else 9000):
        ops, plots = [], []
        for _ in range(rng.randrange(1, 5)):
            o = rng.choice(["category", "category", "binary", "computed", "old", "run", "run"])
            if o == "category":
                c = rng.choice([1, 1, 2, 3, 10, 19, 20, 100, 999])
                ops.append(dict(parts(rng, True), o=o, cat=c))
                plots.append("class_%03d/" % c)
            elif o == "binary":
                ops.append(dict(parts(rng, True), o=o))
                plots.append("")
            elif o == "computed":
                n = rng.choice([1, 2, 3, 5])
                ss = []
                for i in range(rng.randrange(1, 4)):
                    c = agg.curve_counts(rng, n, 40) if rng.random() < .7 else agg.random_counts(rng, n, 20)
                    c["name"] = rng.choice(NAMES)
                    ss.append(c)
                ops.append(dict(o=o, S=[], T=[], O=[], impl=rng.choice(["ml", "bl"]), samples=ss, n=n))
                plots.append("")
            elif o == "old":
                d = rng.choice(plots) if plots else ""
                ops.append(dict(o=o, dir=d, O=[val(rng) for _ in range(9)]))
                plots.append(d)
            else:
                n = rng.randrange(1, 8)
                classes = rng.sample(["road", "traffic light", "tv/monitor", "x", "class 9", "dog", "potted plant", "sofa"], n)
                how = rng.choice(["list", "list", "int", "none"])
                cats = [rng.randrange(1, n + 1)] if how == "int" else [rng.randrange(1, n + 1) for _ in range(rng.randrange(1, 6))] if rng.random() < .3 \
                    else rng.sample(range(1, n + 1), rng.randrange(1, n + 1))
                pr = METRICS[:4] + ["AUC"] if rng.random() < .6 else rng.sample(METRICS, rng.randrange(1, 7))
                ops.append(dict(o=o, data="", how=how, cats=cats if how != "none" else [], classes=classes, per=[parts(rng, False) for _ in classes],
                                save=rng.random() < .9, print=pr, default=pr == METRICS[:4] + ["AUC"]))
                plots += ["class_%03d/" % c for c in (cats if how != "none" else range(1, n + 1))][:2] if ops[-1]["save"] else []
        if rng.random() < .12:
            kind = rng.choice(["sbd", "reanno", "cs", "half", "otf"])
            n = 20 if kind in ("sbd", "reanno") else 19
            cats = [12, 14] if kind == "otf" else rng.sample(range(1, n + 1), rng.randrange(1, 4))
            ops.append(dict(o="real", kind=kind, how="list" if rng.random() < .9 or kind == "otf" else "none", cats=cats, n=n, nthr=rng.choice([1, 2, 3]),
                            data="sbd" if n == 20 else "cs"))
        have = {}
        for op in ops:  # what may be plotted at the end
            for d, p in {"category": lambda: [("class_%03d/" % op["cat"], op)], "binary": lambda: [("", op)], "computed": lambda: [("", dict(T=1, O=1))],
                         "old": lambda: [(op["dir"], dict(T=0, O=1))],
                         "real": lambda: [("class_%03d/" % c, dict(T=1, O=1)) for c in (op["cats"] if op["how"] == "list" else range(1, 4))],
                         "run": lambda: [("class_%03d/" % c, op["per"][c - 1]) for c in
                                         (op["cats"] if op["how"] != "none" else range(1, len(op["classes"]) + 1))] if op["save"] else []}[op["o"]]():
                have.setdefault(d, set()).update(k for k in "TO" if p[k])
        ready = [d for d in have if have[d] == {"T", "O"}]
        if ready and rng.random() < .8:
            for _ in range(rng.choice([1, 1, 2])):
                ds = rng.sample(ready, rng.randrange(1, len(ready) + 1))[:5]
                means = any(o["o"] == "real" or o["o"] == "run" and o["save"] for o in ops)
                algs = [dict(name=rng.choice(["HED", "CASENet", "a - b", "DDS", "x"]) + " " + str(i), thr=d + "eval_bdry_thr.txt",
                             ovr="overall_eval_bdry.txt" if means and rng.random() < .2 else d + "eval_bdry.txt") for i, d in enumerate(ds)]
                which = rng.choice(["v", "b"])
                ops.append(dict(o="plot", algs=algs, which=which, human=which == "b" and rng.random() < .6, named=rng.random() < .4,
                                file=rng.random() < .15))
        yield dict(ops=ops)


def f7(v):
    return round(float(v) * U)


def sample_dicts(S):
    return [OrderedDict(name=s["name"], threshold=s["v"][0] / U, recall=s["v"][1] / U, precision=s["v"][2] / U, f1=s["v"][3] / U) for s in S]


def thr_dicts(T):
    return [OrderedDict(threshold=t[0] / U, recall=t[1] / U, precision=t[2] / U, f1=t[3] / U) for t in T]


def overall(O):
    return OrderedDict((m, v / U) for m, v in zip(METRICS, O)) if O else {}


def evaluator(op):
    class Stub(BaseMultilabelEvaluator):
        CLASSES = list(op["classes"])

        def _before_evaluation(self):
            pass

        def set_sample_names(self, **k):
            pass

        def set_eval_params(self, **k):
            pass

        @property
        def eval_params(self):
            return dict(scale=1.0)

        def evaluate_category(self, category, thresholds, nproc, save_dir):
            p = op["per"][category - 1]
            if save_dir:
                save_category_results(root=save_dir, category=category, sample_metrics=sample_dicts(p["S"]),
                                      threshold_metrics=thr_dicts(p["T"]), overall_metric=overall(p["O"]))
            return overall(p["O"])
    return Stub()


def real(root, op):
    """an evaluation by a data set's own evaluator; what evaluate_category returns must be what is on disk"""
    kind = op["kind"]
    w = evalr.world(evalr.family(kind))
    ev = evalr.MAKE[kind](w + "/data", w + ("/otfpred" if kind == "otf" else "/pred"), split="val", thin=False)
    got = {}
    f = ev.evaluate_category

    def wrapped(*a, **k):
        r = f(*a, **k)
        got[k["category"] if "category" in k else a[0]] = [f7(r[m]) for m in METRICS]
        return r
    ev.evaluate_category = wrapped
    ev.set_eval_params(**({} if kind in ("otf", "reanno") else dict(eval_mode="post-seal")))
    ev.evaluate(categories=list(op["cats"]) if op["how"] == "list" else None, thresholds=op["nthr"], nproc=0, save_dir=root)
    per = []
    for c in range(1, op["n"] + 1):
        d = dict(S=[], T=[], O=got.get(c, []))
        if c in got:
            cells = {x["path"]: x["rows"] for x in score_files(root)}
            dec = lambda v: [round(float(x) * 1e6) * 10 for x in v]
            d["S"] = [dict(name=x["name"], v=dec(x["v"])) for x in cells["class_%03d/eval_bdry_img.txt" % c]]
            d["T"] = [dec(x["v"]) for x in cells["class_%03d/eval_bdry_thr.txt" % c]]
        per.append(d)
    return dict(o="run", data=op["data"], how=op["how"], cats=op["cats"] if op["how"] == "list" else [], classes=[""] * op["n"], per=per, save=True,
                print=METRICS[:4] + ["AUC"])


def score_files(root):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if "eval_bdry" in f:
                rows = []
                for l in open(os.path.join(d, f)).read().splitlines():
                    if f.endswith("_img.txt"):
                        t = l.rsplit(None, 4)
                        rows.append(dict(name=t[0], v=t[1:]))
                    else:
                        rows.append(dict(name="", v=l.split()))
                out.append(dict(path=os.path.relpath(os.path.join(d, f), root), rows=rows))
    return out


def number(s, unit):
    x = float(s) * unit
    return round(x) if abs(x - round(x)) < 1e-6 * unit else -1


def table(path, run):
    if not run or not os.path.exists(path):
        return dict(names=[], classes=[], means=[])
    parts_ = re.split(r"^Summary:?\s*$", open(path).read(), flags=re.M)
    if len(parts_) != 2:
        raise ValueError("the readable table has no class part and summary part")
    grids = []
    for p in parts_:
        g = [[c.strip() for c in l.strip().strip("|").split("|")] for l in p.splitlines() if l.strip().startswith("|")]
        grids.append(dict(zip(g[0], zip(*g[1:]))) if g and g[0] != [""] else {})
    names = [x for x in grids[0].get("Class", ())]
    col = lambda g, k: dict(head=k, cells=[number(x, 100 if k == "ODS_threshold" else 1000) for x in g[k]])
    return dict(names=names, classes=[col(grids[0], k) for k in grids[0] if k != "Class"], means=[col(grids[1], k) for k in grids[1]])


NOPLOT = dict(failed="", human=False, legend=[], lines=[], saved=False)


def plot(root, op):
    algs = [AlgorithmInfo("other %d" % i if op["named"] else a["name"], os.path.join(root, a["thr"]), os.path.join(root, a["ovr"]))
            for i, a in enumerate(op["algs"])]
    buf = io.StringIO()
    kw = dict(names=[a["name"] for a in op["algs"]]) if op["named"] else {}
    if op["file"]:
        kw["save_path"] = os.path.join(root, "fig.png")
    if op["which"] == "b":
        kw["plot_human"] = op["human"]
    plt.close("all")
    try:
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            (plot_v if op["which"] == "v" else plot_b)(algs, **kw)
        fig = plt.gcf()
        ax = fig.axes[0]
        leg = ax.get_legend()
        texts = [t.get_text() for t in leg.get_texts()]
        entries, human = [], False
        for t, h in zip(texts, leg.legend_handles):
            m = re.match(r"\[F=([\d.]+)\] (.*)$", t)
            if m.group(2) == "Human":
                human = texts.index(t) == 0
                continue
            color = matplotlib.colors.to_hex(h.get_color(), keep_alpha=True)
            same = [l for l in ax.lines if matplotlib.colors.to_hex(l.get_color(), keep_alpha=True) == color and l.get_label().startswith("_")]
            curve = [[round(float(x) * 1e6), round(float(y) * 1e6)] for x, y in zip(same[-1].get_xdata(), same[-1].get_ydata())] if same else [[-1, -1]]
            entries.append(dict(name=m.group(2), f=number(m.group(1), 100), curve=curve))
        lines = []
        for l in buf.getvalue().splitlines():
            m = re.match(r"ODS=([\d.]+), OIS=([\d.]+), AP=([\d.]+), R50=\S+ - (.*)$", l)
            if m:
                lines.append(dict(name=m.group(4), ods=number(m.group(1), 1000), ois=number(m.group(2), 1000), ap=number(m.group(3), 1000)))
        return dict(failed="", human=human, legend=entries, lines=lines, saved=os.path.exists(os.path.join(root, "fig.png")))
    except Exception as e:
        return dict(NOPLOT, failed=type(e).__name__ + ": " + str(e)[:80])
    finally:
        plt.close("all")


def run(mode, c):
    root = tempfile.mkdtemp(prefix="results")
    try:
        seen, ops = [], []
        for op in c["ops"]:
            op = dict(op)
            pl = NOPLOT
            o = op["o"]
            with quiet():
                if o == "category":
                    save_category_results(root=root, category=op["cat"], sample_metrics=sample_dicts(op["S"]), threshold_metrics=thr_dicts(op["T"]),
                                          overall_metric=overall(op["O"]))
                elif o == "binary":
                    save_results(root=root, sample_metrics=sample_dicts(op["S"]), threshold_metrics=thr_dicts(op["T"]), overall_metric=overall(op["O"]))
                elif o == "computed":
                    data = [dict(name=s["name"], c=s) for s in op["samples"]]
                    S, T, O = (ml_metrics if op["impl"] == "ml" else bl_metrics)(agg.eval_counts, op["n"], data, nproc=1)
                    row = lambda d: [f7(d[k]) for k in ("threshold", "recall", "precision", "f1")]
                    op.update(S=[dict(name=d["name"], v=row(d)) for d in S], T=[row(d) for d in T], O=[f7(O[m]) for m in METRICS])
                    del op["samples"]
                    save_results(root=root, sample_metrics=S, threshold_metrics=T, overall_metric=O)
                elif o == "old":
                    os.makedirs(os.path.join(root, op["dir"]), exist_ok=True)
                    with open(os.path.join(root, op["dir"], "eval_bdry.txt"), "w") as f:
                        f.write(" ".join("{:<10.6f}".format(v / U) for v in op["O"][:8]))
                elif o == "run":
                    kw = {} if op["default"] else dict(print_metrics=tuple(op["print"]))
                    if os.path.exists(root + "/results.txt"):
                        os.unlink(root + "/results.txt")
                    evaluator(op).evaluate(categories=dict(list=op["cats"], int=(op["cats"] + [0])[0], none=None)[op["how"]], thresholds=3, nproc=0,
                                           save_dir=root if op["save"] else None, **kw)
            if o == "real":
                with quiet():
                    op = real(root, op)
                o = "run"
            if o == "plot":
                pl = plot(root, op)
            seen.append(dict(files=score_files(root), table=table(root + "/results.txt", o == "run"), plot=pl))
            ops.append(op)
        return dict(ops=ops, seen=seen)
    finally:
        shutil.rmtree(root)
