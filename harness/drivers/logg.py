"""C22: histories of logger requests and messages, each in a process of its own"""
import contextlib, io, logging, os, sys, tempfile
from .util import *
from pyEdgeEval.utils import logger as L


def from_behaviours(mode, beh, tier, rng):
    return [dict(ops=b["ops"]) for b in beh]


def run(mode, c):
    return forked(lambda: once(c))


def ask(fn, args, kw, name, got, r):
    try:
        got[name] = fn(*args, **kw)
        r["hs"] = len(got[name].handlers) if got[name].name == name else -1
    except OSError:
        r["err"] = 2


def once(c):
    d = tempfile.mkdtemp()
    path = lambda k, name: "%s/%d-%s.log" % (d, k, name) if k != 9 else "%s/missing/%s.log" % (d, name)
    con, std = io.StringIO(), io.StringIO()
    sys.stderr, old = con, sys.stderr
    got = {}
    for n in {".".join(o["name"]) for o in c["ops"]}:     # what an earlier process left behind
        for k in (1, 2):
            with open(path(k, n), "w") as f:
                f.write("an earlier run\n")
    sent = []
    res = []

    def count():
        for h in [h for lg in list(logging.Logger.manager.loggerDict.values()) if isinstance(lg, logging.Logger) for h in lg.handlers]:
            h.flush()
        t = [con.getvalue(), std.getvalue()]
        for k in (1, 2):
            t.append("".join(open(d + "/" + f).read() for f in sorted(os.listdir(d)) if f.startswith("%d-" % k)))
        return t

    for i, o in enumerate(c["ops"]):
        name = ".".join(o["name"])
        r = dict(out=0, con=0, f1=0, f2=0, err=0, hs=0)
        msg = "message <%d>" % i
        with contextlib.redirect_stdout(std):
            if o["o"] == "get":
                kw = dict(log_level=o["lv"])
                if o["file"]:
                    kw["log_file"] = path(o["file"], name)
                if o["mode"] != "w" or i % 2:
                    kw["file_mode"] = o["mode"]
                ask(L.get_logger, (name,), kw, name, got, r)
            elif o["o"] == "root":
                kw = dict(log_level=o["lv"])
                if o["file"]:
                    kw["log_file"] = path(o["file"], name)
                ask(L.get_root_logger, (), kw, name, got, r)
            elif o["o"] == "level":
                got.setdefault(name, logging.getLogger(name)).setLevel(o["lv"])
            elif o["o"] == "log":
                got.setdefault(name, logging.getLogger(name)).log(o["lv"], msg)
            else:
                k = o["kind"]
                lg = {"none": None, "silent": "silent", "name": name, "bad": (7, 2.5, ["x"], print)[i % 4],
                      "logger": got.get(name) or logging.getLogger(name)}[k]
                try:
                    if o["lv"] == 20:
                        L.print_log(msg, lg)
                    else:
                        L.print_log(msg, lg, level=o["lv"])
                except TypeError:
                    r["err"] = 1
        r["lost"] = sum(not open(d + "/" + f).read().startswith("an earlier run\n") for f in os.listdir(d))
        t = count()
        for k, s in zip(("con", "out", "f1", "f2"), t):
            r[k] = s.count(msg)
        if r["con"]:        # the line names logger and level
            ln = [x for x in t[0].splitlines() if msg in x][0]
            if name not in ln or logging.getLevelName(o["lv"]) not in ln:
                r["con"] = -1
        sent.append((i, dict(r)))
        res.append(r)
    # nothing emitted later on for an earlier message
    t = count()
    for i, r in sent:
        if [s.count("message <%d>" % i) for s in t] != [max(r["con"], 0) if r["con"] >= 0 else t[0].count("message <%d>" % i), r["out"], r["f1"], r["f2"]]:
            res[i]["con"] = -2
    sys.stderr = old
    return dict(res=res)
