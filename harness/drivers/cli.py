"""C20: threshold arguments and the command-line evaluators over the synthetic data set of Evaluator.tla"""
import inspect, os, shutil, sys, tempfile, warnings
import numpy as np
from .util import *
from . import evalr
from .evalr import world, quiet, u6, id_of, family
from pyEdgeEval.common.utils import check_thresholds
from pyEdgeEval.helpers.evaluate_bsds500 import evaluate as ev_bsds, evaluate_bsds500
from pyEdgeEval.helpers.evaluate_sbd import evaluate as ev_sbd, evaluate_sbd, evaluate_reanno, evaluate_reanno_sbd
from pyEdgeEval.helpers.evaluate_cityscapes import evaluate as ev_cs, evaluate_cityscapes_raw, evaluate_cityscapes_thin
from pyEdgeEval.evaluators.bsds import BSDS500Evaluator
from pyEdgeEval.evaluators.base import BaseMultilabelEvaluator

CASE_LIMIT = 200
COUNTS = [1, 2, 3, 5, 7, 10, 99]
VALUES = ["0.5", ".25", "0.8", "0.95", "0.1", "0.7", "1.0", "1", ".9", "0.333", "+.5", "0.62", "00.5", ".05"]


def blanks(rng):
    return rng.choice(["", "", "", " ", "  ", "\t"])


def listing(rng, items):
    return blanks(rng) + "[" + ",".join(blanks(rng) + x + blanks(rng) for x in items) + "]" + blanks(rng)


def thr_text(rng, bad, low=True):
    if not bad and not low:  # with suppression, isolated responses are smoothed to a quarter of their strength
        return listing(rng, sorted(rng.sample([v for v in VALUES if float(v) > .3], rng.randrange(1, 4)), key=float)) if rng.random() < .7 else rng.choice(["1", " 2", "2"])
    if bad:
        return rng.choice(["", "0.5", "[]", "[0.5", "0.5]", "[0.5,]", "[,0.5]", "0.5,0.7", "[a]", "[0.5 0.7]", "x", "[0.5;0.7]", "(0.5)", "[[0.5]]",
                           "[0.5,0.6,]", "1.0", "[0..5]", "[.]", "5x", "[0.5]x", " ", "5,6", "[0.5, b, 0.7]", "--", "[-]"])
    if rng.random() < .4:
        return blanks(rng) + rng.choice(["1", "3", "3", "10", "2", "+3", "03", "7"]) + blanks(rng)
    vs = rng.sample(VALUES, rng.randrange(1, 5))
    if rng.random() < .7:
        vs.sort(key=float)
    return listing(rng, vs)


def cat_text(rng, n, bad):
    if bad == "malformed":
        return rng.choice(["", "1.0", "[]", "[1", "1]", "[1,]", "1,2", "[a]", "[1.0]", "[1 2]", "x", "all", "[1;2]", "(1,2)", "[[1]]", "[1, x]", "[1,,2]"])
    if bad == "range":
        return rng.choice(["0", str(n + 1), "[1, %d]" % (n + 1), "[0]", "-1", "[3,-2]", "[%d]" % (n + 5), "100", "[1,2,0]"])
    if rng.random() < .4:
        return blanks(rng) + str(rng.randrange(1, n + 1)) + blanks(rng)
    return listing(rng, [str(rng.randrange(1, n + 1)) for _ in range(rng.randrange(1, 5))])


def gen(mode, tier, rng):
    out = []
    if mode == "thresholds":
        for n in list(range(1, 60)) + [99, 100, 255]:
            out.append(dict(form="int", n=n, vals=[]))
        for k in range(200 if tier == "quick" else 2000):
            f = rng.choice(["float", "list", "list", "array", "array32", "tuple", "none", "str", "npint", "2d", "0d", "nested", "set", "dict"])
            vals = [rng.randrange(0, 10001) * 1000 for _ in range(rng.randrange(1, 7))]
            if rng.random() < .3:
                vals = [v for v in vals for _ in range(rng.randrange(1, 3))]
            if f == "float":
                vals = vals[:1]
            if f == "array32":
                vals = [rng.randrange(0, 65) * 156250 for _ in vals]
            out.append(dict(form=f, n=0, vals=vals))
        return out
    for k in range(560 if tier == "quick" else 2400):
        cmd = rng.choice(["bsds", "sbd", "sbd", "reanno", "csraw", "csthin", "cs"])
        n = 20 if cmd in ("sbd", "reanno") else 19
        what = rng.choice(["ok"] * 7 + ["thr", "cat", "range"])
        if cmd == "bsds" and what in ("cat", "range"):
            what = "thr"
        given = [f for f in ("dist", "scale", "suffix", "out", "nproc") if rng.random() < .6]
        big = what == "ok" and rng.random() < .12
        if what in ("cat", "range") or (cmd != "bsds" and not big):
            given.append("cats")
        nms = rng.random() < .25
        if what == "thr" or nms or rng.random() < .93 or big:
            given.append("thr")
        out.append(dict(
            cmd=cmd, given=given, cats=list(cat_text(rng, n, {"cat": "malformed", "range": "range"}.get(what, ""))),
            thr=list(thr_text(rng, what == "thr", not nms) if not (big and what == "ok") else "2"),
            raw=rng.random() < .5, useval=rng.random() < .5, flat=rng.random() < .5, preseal=rng.random() < .4, nonis=rng.random() < .6,
            nms=nms, dist=rng.choice([35, 75, 200, 300]), scale=rng.choice([50, 100, 100, 100, 0, 150] if rng.random() < .3 else [50, 100]),
            half=rng.random() < .4, thin=rng.random() < .5, thinning=rng.random() < .5, suffix=rng.randrange(2), gd=rng.choice([0, 0, 1]),
            bare=rng.random() < .08, nproc=rng.choice([1, 1, 2, 3]), direct=cmd == "cs" or rng.random() < .4,
            slash=rng.random() < .3, exists=rng.random() < .5))
    return out


def run(mode, c):
    if mode == "thresholds":
        return thresholds(c)
    root = world("bsds" if c["cmd"] == "bsds" else family({"csraw": "cs", "csthin": "cs"}.get(c["cmd"], c["cmd"])))
    out = tempfile.mkdtemp(prefix="cliout")
    cwd = tempfile.mkdtemp(prefix="clicwd")
    pred = root + "/pred"
    before = set(os.listdir(pred))
    try:
        res = forked(lambda: once(c, root, pred, out, cwd), 170)
        dst = out + "/o" if "out" in c["given"] else None
        new = sorted(set(os.listdir(pred)) - before)
        stray = files(cwd) + [f for f in os.listdir(out) if f != "o"]
        res["fresh"] = len(new) + len(stray) + (len(files(out)) if "out" in c["given"] else 0) + (os.path.isdir(out + "/o") and not c["exists"])
        res["where"] = "given" if dst and not new and not stray else "elsewhere"
        if not dst and len(new) == 1 and not stray and stamped(new[0]):
            res["where"], dst = "stamped", os.path.join(pred, new[0])
        res["tables"] = tables(dst, c["cmd"]) if dst and os.path.isdir(dst) else []
        return res
    finally:
        for n in set(os.listdir(pred)) - before:
            shutil.rmtree(os.path.join(pred, n), ignore_errors=True)
        shutil.rmtree(out)
        shutil.rmtree(cwd)


def stamped(name):
    d = "".join(ch for ch in name if ch.isdigit())
    return 8 <= len(d) <= 20


def files(d):
    return [os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs]


def once(c, root, pred, out, cwd):
    os.chdir(cwd)
    seen = []
    for cls in (BSDS500Evaluator, BaseMultilabelEvaluator):
        record(cls, seen)
    given = set(c["given"])
    data = root + ("/bare" if c["bare"] else "/data")
    o = out + "/o" if "out" in given else None
    if o and c["exists"]:
        os.mkdir(o)
    p = pred + ("/" if c["slash"] else "")
    thr = "".join(c["thr"]) if "thr" in given else "99"
    cats = "".join(c["cats"]) if "cats" in given else None
    suffix = "_p.png" if "suffix" in given and c["suffix"] else ".png"
    nproc = c["nproc"] if "nproc" in given else 4
    gd = "gtOther" if c["gd"] else "gtEval"
    cmd = c["cmd"]
    dist = c["dist"] / 10000 if "dist" in given else {"bsds": .0075, "sbd": .02, "reanno": .02}.get(cmd, .0035)
    scale = c["scale"] / 100 if "scale" in given else .5
    warnings.simplefilter("ignore")
    raised = why = ""
    with quiet():
        try:
            if c["direct"]:
                if cmd == "bsds":
                    ev_bsds(bsds_path=data, pred_path=p, output_path=o, use_val=c["useval"], max_dist=dist, thresholds=thr,
                            apply_thinning=not c["raw"], apply_nms=c["nms"], nproc=nproc, no_split_dir=c["flat"])
                elif cmd == "sbd":
                    ev_sbd(gt_dir=gd, sbd_path=data, pred_path=p, pred_suffix=suffix, output_path=o, categories=cats, pre_seal=c["preseal"],
                           apply_thinning=not c["raw"], apply_nms=c["nms"], nonIS=c["nonis"], max_dist=dist, thresholds=thr, nproc=nproc)
                elif cmd == "reanno":
                    evaluate_reanno(gt_dir=gd, sbd_path=data, pred_path=p, pred_suffix=suffix, output_path=o, categories=cats,
                                    apply_thinning=not c["raw"], apply_nms=c["nms"], nonIS=c["nonis"], thresholds=thr, nproc=nproc)
                else:
                    thin = dict(csraw=False, csthin=True, cs=c["thin"])[cmd]
                    ev_cs(gt_dir=gd, cityscapes_path=data, pred_path=p, output_path=o, categories=cats, thin=thin, pre_seal=c["preseal"],
                          nonIS=c["nonis"], max_dist=dist, scale=.5 if cmd == "csthin" else scale,
                          apply_thinning=dict(csraw=False, csthin=True, cs=c["thinning"])[cmd], apply_nms=c["nms"], thresholds=thr,
                          half=c["half"] or cmd == "csthin", nproc=nproc)
            else:
                a = [cmd, data, p]
                if o:
                    a += ["--output-path", o]
                if "thr" in given:
                    a.append("--thresholds=" + thr)
                if "dist" in given:
                    a += ["--max-dist", repr(dist)]
                if "nproc" in given:
                    a += ["--nproc", str(nproc)]
                if c["nms"]:
                    a.append("--apply-nms")
                if cmd == "bsds":
                    a += ["--use-val"] * c["useval"] + ["--raw"] * c["raw"]
                    sys.argv = a
                    evaluate_bsds500(no_split_dir=True) if c["flat"] else evaluate_bsds500()
                else:
                    if cats is not None:
                        a.append("--categories=" + cats)
                    if c["preseal"]:
                        a.append("--pre-seal")
                    if c["nonis"]:
                        a.append("--nonIS")
                    if cmd in ("sbd", "reanno"):
                        if c["raw"]:
                            a.append("--raw")
                        if "suffix" in given:
                            a += ["--pred-suffix", suffix]
                    if cmd == "csraw":
                        if "scale" in given:
                            a += ["--scale", repr(scale)]
                        if c["half"]:
                            a.append("--half")
                    sys.argv = a
                    f = dict(sbd=evaluate_sbd, reanno=evaluate_reanno_sbd, csraw=evaluate_cityscapes_raw, csthin=evaluate_cityscapes_thin)[cmd]
                    f(gt_dir="gtOther") if c["gd"] else f()
        except (Exception, SystemExit) as e:
            raised, why = True, type(e).__name__ + ": " + str(e)[:100]
    return dict(raised=bool(raised), why=why, nproc=seen[0] if seen else 0)


def record(cls, seen):
    f = cls.evaluate

    def wrapped(self, *a, **k):
        try:
            seen.append(int(inspect.signature(f).bind(self, *a, **k).arguments.get("nproc", 0)))
        except Exception:
            pass
        return f(self, *a, **k)
    cls.evaluate = wrapped


def tables(d, cmd):
    out = []
    dirs = [d] if cmd == "bsds" else sorted(os.path.join(d, n) for n in os.listdir(d) if n.startswith("class_"))
    for f in dirs:
        if not os.path.exists(f + "/eval_bdry_img.txt"):
            continue
        t = dict(cat=0 if cmd == "bsds" else int(os.path.basename(f)[6:]), lines=[], thr=[])
        for l in open(f + "/eval_bdry_img.txt"):
            n, _, rec, prec, f1 = l.split()
            t["lines"].append(dict(name=id_of(n), rec=u6(rec), prec=u6(prec), f1=u6(f1)))
        for l in open(f + "/eval_bdry_thr.txt"):
            v, rec, prec, f1 = l.split()
            t["thr"].append(dict(t=u6(v), rec=u6(rec), prec=u6(prec), f1=u6(f1)))
        out.append(t)
    return out


def thresholds(c):
    v = [x / 1e7 for x in c["vals"]]
    f = c["form"]
    arg = dict(int=lambda: c["n"], float=lambda: v[0], list=lambda: list(v), array=lambda: np.array(v), array32=lambda: np.array(v, np.float32),
               tuple=lambda: tuple(v), none=lambda: None, str=lambda: "5", npint=lambda: {1, 2}, nested=lambda: [v, v], set=lambda: set(v),
               dict=lambda: dict(a=1), **{"2d": lambda: np.array([v]), "0d": lambda: np.array(v[0])})[f]()
    try:
        r = check_thresholds(arg)
    except ValueError:
        return dict(refused=True, vals=[])
    if not isinstance(r, np.ndarray) or r.ndim != 1:
        raise ValueError("not a one-dimensional array")
    return dict(refused=False, vals=[int(round(float(x) * 1e7)) for x in r])
