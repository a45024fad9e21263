"""C11: the worker pool under schedules generated from the specification"""
import io, os, random, signal, time
from .util import *
from pyEdgeEval.utils import track_parallel_progress
from pyEdgeEval.common.multi_label.calculate_metrics import calculate_metrics as ml
from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics as bl

D = [None]          # folder of the current case: gates and log


class Boom(Exception):
    pass


def logged():
    try:
        return [int(l) for l in open(D[0] + "/log") if l.endswith("\n")]
    except OSError:
        return []


ERRORS = dict(boom=Boom, value=ValueError, key=KeyError, index=IndexError, check=AssertionError, file=FileNotFoundError, run=RuntimeError)
ERR = [None]
SLOW = set()        # free-running tasks that take long: later chunks finish earlier
NOTHING = set()     # tasks whose result is None


def controller(order, n):
    """opens the gates in the given order, each after the previous task was done"""
    for t in order:
        open(D[0] + "/go%d" % t, "w").close()
        end = time.time() + 2
        while t not in logged() and time.time() < end:
            time.sleep(.0005)
        if t not in logged():
            break
    for t in range(1, n + 1):
        open(D[0] + "/go%d" % t, "w").close()


def gated(t, fails, free=False):
    end = time.time() + 10
    if free:
        time.sleep(.06 if t in SLOW else t * 7919 % 4 * .0004)
    while not free and not os.path.exists(D[0] + "/go%d" % t) and time.time() < end:
        time.sleep(.0003)
    with open(D[0] + "/log", "a") as f:
        f.write("%d\n" % t)
    if t in fails:
        raise ERRORS[ERR[0]](t)


def task(t):
    gated(t[0], t[1], t[2])
    return None if t[0] in NOTHING else t[0]


def named(results):
    """tasks without a result stand for themselves, in order"""
    rest = iter(sorted(NOTHING))
    return [next(rest, -1) if r is None else r for r in results]


def sample_counts(s):
    if s["gate"]:
        gated(s["i"], s["fails"], s["free"])
    return tuple(np.array(x, float) for x in s["c"])


def from_behaviours(mode, beh, tier, rng):
    out = []
    quota = {"schedule": 260, "metrics": 120}[mode] * (10 if tier == "thorough" else 1)
    for b in beh:
        if mode == "metrics" and (b["n"] == 0 or b["w"] < 2 or b["c"] != 1 or not b["keep"]):
            continue
        c = dict(b, kind=mode, form=rng.choice(("list", "pair", "gen")), nobar=rng.choice((0, 1)), init=rng.choice((0, 0, 1)), skip=rng.choice((0, 0, 1)))
        c["impl"] = rng.choice(("ml", "bl"))
        c["seed"] = rng.randrange(10 ** 6)
        c["free"] = 0
        c["slow"] = []
        c["nothing"] = rng.choice(([], [], [], [1], [b["n"]], list(range(1, b["n"] + 1, 2)), list(range(1, b["n"] + 1))))
        c["error"] = rng.choice(sorted(ERRORS))
        out.append(c)
        if len(out) >= quota:
            break
    return out


def gen(mode, tier, rng):
    """many tasks, as they come"""
    for k in range(36 if tier == "quick" else 300):
        kind = rng.choice(("schedule", "schedule", "metrics"))
        n = rng.choice((30, 75, 130, 260, 420, 700)) if kind == "schedule" else rng.choice((31, 64, 130))
        yield dict(kind=kind, n=n, w=rng.choice((2, 2, 3, 4)), c=rng.choice((1, 1, 2, 5, 16, 100)) if kind == "schedule" else 1,
                   keep=rng.choice((1, 1, 0)) if kind == "schedule" else 1,
                   fails=[rng.choice((1, n, rng.randrange(1, n + 1)))] if rng.random() < .3 else [], order=[], form=rng.choice(("list", "pair", "gen")),
                   nobar=rng.choice((0, 1)), init=rng.choice((0, 0, 1)), skip=rng.choice((0, 0, 1)), impl=rng.choice(("ml", "bl")),
                   slow=rng.choice(([], [1], [1, 40])), nothing=rng.choice(([], [], [1], [n], [2, 3, n])),
                   seed=rng.randrange(10 ** 6), free=1, error=rng.choice(sorted(ERRORS)))


def noop(*a):
    pass


def run(mode, c):
    return forked(lambda: once(mode, c))


def once(mode, c):
    D[0] = os.path.join(os.environ["TMPDIR"], "case")
    os.makedirs(D[0], exist_ok=True)
    for f in os.listdir(D[0]):
        os.unlink(os.path.join(D[0], f))
    n, fails, free = c["n"], set(c["fails"]), bool(c["free"])
    ERR[0] = c["error"]
    SLOW.update(c["slow"])
    NOTHING.update(t for t in c["nothing"] if t not in fails)
    ctl = os.fork()
    if ctl == 0:
        try:
            signal.alarm(60)
            if not free:
                controller(c["order"], n)
        finally:
            os._exit(0)
    out = dict(raised=0, results=[])
    buf = io.StringIO()
    try:
        if c["kind"] == "schedule":
            tasks = [(i, fails, free) for i in range(1, n + 1)]
            t = {"list": tasks, "pair": (tasks, n), "gen": (iter(tasks), n)}[c["form"]]
            kw = dict(initializer=noop, initargs=(1,)) if c["init"] else {}
            out["results"] = named(track_parallel_progress(task, t, c["w"], chunksize=c["c"], keep_order=bool(c["keep"]),
                                                          file=buf, no_bar=bool(c["nobar"]), skip_first=bool(c["skip"]), **kw))
        else:
            r = random.Random(c["seed"])
            thr = [.2, .5, .8]
            data = []
            for i in range(1, n + 1):
                sr, sp = r.randrange(1, 50), r.randrange(1, 50)
                cr = sorted((r.randrange(0, sr + 1) for _ in thr), reverse=True)
                cp = sorted(r.randrange(0, sp + 1) for _ in thr)
                data.append(dict(name="s%d" % i, i=i, fails=fails, free=free, gate=1, c=(cr, [sr] * 3, cp, [sp] * 3)))
            fn = ml if c["impl"] == "ml" else bl
            def table(x):
                rows_, tab, ov = x
                def num(v):
                    return v if isinstance(v, str) else round(float(v) * 10 ** 7)
                return [[[k, num(v)] for k, v in sorted(d.items())] for d in list(rows_) + list(tab) + [ov]]
            par = fn(sample_counts, thr, data, nproc=c["w"])
            out["results"] = [int(d["name"][1:]) for d in par[0]]
            out["parallel"] = str(table(par))
            out["sequential"] = str(table(fn(sample_counts, thr, [dict(d, gate=0) for d in data], nproc=1)))
    except Exception as e:
        if not fails:
            raise
        out.update(raised=1, parallel="", sequential="")
    os.waitpid(ctl, 0)
    if out["raised"]:
        end = time.time() + 5       # tasks already handed to workers may still finish
        k = -1
        while time.time() < end and len(logged()) != k:
            k = len(logged())
            time.sleep(.02)
    out["log"] = logged()
    return out
