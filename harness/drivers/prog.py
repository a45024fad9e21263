"""C21: timers, check points, progress bars, tracking helpers"""
import contextlib, importlib, io, itertools, os, re, sys, time
from .util import *

CLOCK = [1000.0]
_mods = {}


def fake_modules():
    """the timer and progress modules under a clock the test controls"""
    if not _mods:
        for n in ("time", "perf_counter", "monotonic", "process_time"):
            setattr(time, n, lambda: CLOCK[0])
        for n in ("time_ns", "perf_counter_ns", "monotonic_ns"):
            setattr(time, n, lambda: int(CLOCK[0] * 1e9))
        for n in [m for m in sys.modules if m.startswith("pyEdgeEval")]:
            del sys.modules[n]
        _mods["t"] = importlib.import_module("pyEdgeEval.utils.timer")
        _mods["p"] = importlib.import_module("pyEdgeEval.utils.progressbar")
    return _mods["t"], _mods["p"]


def from_behaviours(mode, beh, tier, rng):
    return [dict(kind="history", ops=b["ops"], uid=i) for i, b in enumerate(beh)]


def gen(mode, tier, rng):
    ks = list(itertools.product(("seq", "iter"), (0, 1, 2, 7), ("list", "pair", "tuplelist", "range"), (0, 1), (0, 5)))
    for helper, n, form, nobar, plus in ks:
        yield dict(kind="track", helper=helper, n=n, form=form, nobar=nobar if helper == "seq" else 0,
                   plus=plus if helper == "seq" else 0, nproc=1, chunk=1, skip=0, keep=1, badtype=0, tot=n)
    for helper, n, form, d, nobar in itertools.product(("seq", "iter"), (1, 4, 9), ("pair", "tuplelist"), (-1, -3, 1, 20), (0, 1)):
        if n + d > 0:   # the announced total is only announced
            yield dict(kind="track", helper=helper, n=n, form=form, nobar=nobar if helper == "seq" else 0, plus=0,
                       nproc=1, chunk=1, skip=0, keep=1, badtype=0, tot=n + d)
    par = list(itertools.product((0, 1, 3, 8), ("list", "pair"), (0, 1), (1, 2, 3), (1, 2, 3), (0, 1), (0, 1)))
    if tier != "thorough":
        par = rng.sample(par, 90)
    for n, form, nobar, nproc, chunk, skip, keep in par:
        yield dict(kind="track", helper="parallel", n=n, form=form, nobar=nobar, plus=0, nproc=nproc, chunk=chunk,
                   skip=skip, keep=keep, badtype=0, tot=n)
    for helper in ("seq", "iter", "parallel"):
        yield dict(kind="track", helper=helper, n=5, form="int", nobar=0, plus=0, nproc=1, chunk=1, skip=0, keep=1, badtype=1, tot=5)


def parse(text):
    a = re.findall(r"(\d+)/(\d+),", text)
    if a:
        return [(int(x), int(y)) for x, y in a]
    return [(int(x), 0) for x in re.findall(r"completed: (\d+)", text)]


def q(x):
    v = float(x) * 4
    if v != int(v):
        raise ValueError("clock value %r" % x)
    return int(v)


R = lambda k, v=0, w=0: dict(k=k, v=v, w=w)


def history(c):
    T, P = fake_modules()
    ts, bars, bufs = {}, {}, {}
    res = []
    for o in c["ops"]:
        k, i = o["o"], o["id"]
        r = R("none")
        if k == "tick":
            CLOCK[0] += o["n"] / 4
        elif k == "new":
            ts[i] = T.Timer(start=bool(o["n"]), print_tmpl=None if i == "t1" else "took {:.2f} s")
        elif k == "start":
            ts[i].start()
        elif k == "enter":
            if ts[i].__enter__() is not ts[i]:
                r = R("other")
        elif k == "exit":
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    if o["w"]:
                        e = KeyError("x")
                        ret = ts[i].__exit__(KeyError, e, None)
                    else:
                        ret = ts[i].__exit__(None, None, None)
                m = re.fullmatch(r"(\d+\.\d{3})\n" if i == "t1" else r"took (\d+\.\d\d) s\n", buf.getvalue())
                r = R("print", q(m.group(1))) if m and not ret else R("other")
            except T.TimerError:
                r = R("err")
        elif k in ("since_start", "since_last"):
            try:
                v = ts[i].since_start() if k == "since_start" else ts[i].since_last_check()
                r = R("num", q(v))
            except T.TimerError:
                r = R("err")
        elif k == "is_running":
            r = R("flag", int(ts[i].is_running))
        elif k == "mark":
            r = R("num", q(T.check_time("" if c["uid"] == 0 and i == "p" else "%s-%d" % (i, c["uid"]))))
        else:
            if k == "bar":
                bufs[i] = io.StringIO()
                bars[i] = P.ProgressBar(o["n"], start=bool(o["w"]), file=bufs[i])
            else:
                bufs[i].truncate(0)
                bufs[i].seek(0)
            try:
                if k == "bar_start":
                    bars[i].start()
                elif k == "update":
                    bars[i].update(o["n"]) if o["n"] != 1 else bars[i].update()
                s = parse(bufs[i].getvalue())
                r = R("bar", *s[-1]) if s else R("none")
            except AssertionError:
                r = R("err")
        res.append(r)
    return dict(res=res)


LOG = [None]


def job(t, plus=0):
    with open(LOG[0], "a") as f:
        f.write("%d\n" % t)
    return t * 3 + plus


def track(c):
    from pyEdgeEval.utils import progressbar as P
    buf = io.StringIO()
    LOG[0] = os.path.join(os.environ["TMPDIR"], "log")
    open(LOG[0], "w").close()
    n = c["n"]
    base = list(range(1, n + 1))
    tasks = {"list": base, "pair": (iter(base), c["tot"]), "tuplelist": (base, c["tot"]), "range": range(1, n + 1), "int": 7}[c["form"]]
    out = dict(err="", results=[], executed=[], shows=[])
    try:
        if c["helper"] == "seq":
            r = P.track_progress(job, tasks, file=buf, no_bar=bool(c["nobar"]), **({"plus": c["plus"]} if c["plus"] else {}))
        elif c["helper"] == "iter":
            r = []
            for t in P.track_iter_progress(tasks, file=buf):
                job(t)
                r.append(t)
        else:
            r = P.track_parallel_progress(job, tasks, c["nproc"], chunksize=c["chunk"], skip_first=bool(c["skip"]),
                                          keep_order=bool(c["keep"]), file=buf, no_bar=bool(c["nobar"]))
        out["results"] = [int(x) for x in r]
    except TypeError as e:
        out["err"] = type(e).__name__
    out["executed"] = [int(l) for l in open(LOG[0])]
    out["shows"] = [list(x) for x in parse(buf.getvalue())]
    if buf.getvalue() and not buf.getvalue().endswith("\n") and not out["err"]:
        out["shows"].append([-1, -1])
    return out


def run(mode, c):
    return history(c) if c["kind"] == "history" else track(c)
