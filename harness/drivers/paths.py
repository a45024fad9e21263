"""C25: histories of path operations inside a scratch folder"""
import os, pathlib, shutil, tempfile
from .util import *
from pyEdgeEval.utils import path as P


def from_behaviours(mode, beh, tier, rng):
    return [dict(ops=b["ops"]) for b in beh]


def tree(root):
    out = []

    def walk(d, rel):
        for n in sorted(os.listdir(d)):
            f = os.path.join(d, n)
            p = rel + [n]
            if os.path.islink(f):
                out.append(dict(p=p, k="link", t=os.path.relpath(os.readlink(f), root).split("/")))
            elif os.path.isdir(f):
                out.append(dict(p=p, k="dir", t=[]))
                walk(f, p)
            else:
                out.append(dict(p=p, k="file", t=[]))
    walk(root, [])
    return out


def run(mode, c):
    root = tempfile.mkdtemp(prefix="tree")
    cwd, home = os.getcwd(), os.environ.get("HOME")
    os.environ["HOME"] = root
    os.chdir(root)
    try:
        return dict(res=[one(root, o) for o in c["ops"]])
    finally:
        os.chdir(cwd)
        os.environ["HOME"] = home
        shutil.rmtree(root)


def one(root, o):
    r = dict(err="", files=[])
    p = os.path.join(root, *o["p"])
    f = o["form"]
    try:
        if o["o"] == "touch":
            open(p, "w").close()
        elif o["o"] == "mkdir":
            if not o["p"]:
                P.mkdir_or_exist(("", root, "~", ".")[f])
            else:
                rel = os.path.join(*o["p"])
                P.mkdir_or_exist((p, rel, "~/" + rel, p + "/" if not os.path.lexists(p) or os.path.isdir(p) else p)[f])
        elif o["o"] == "link":
            src = os.path.join(root, *o["t"])
            if o["ow"] and f:
                P.symlink(src, p)
            else:
                P.symlink(src, p, overwrite=o["ow"])
        elif o["o"] == "check":
            if f:
                try:
                    P.check_file_exist(p, "nothing at {} here")
                except FileNotFoundError as e:
                    if str(e) != "nothing at %s here" % p:
                        raise ValueError("message")
                    raise
            else:
                P.check_file_exist(p)
        elif o["o"] == "scan":
            suf = None if o["any"] else o["sufs"][0] if len(o["sufs"]) == 1 and f % 2 == 0 else tuple(o["sufs"])
            d = (p, pathlib.Path(p), os.path.join(".", *o["p"]), p.rstrip("/") + "/")[f]
            r["files"] = [x.split("/") for x in P.scandir(d, suffix=suf, recursive=o["rec"], case_sensitive=o["cs"])]
        elif o["o"] == "badscan":
            list([lambda: P.scandir(7), lambda: P.scandir(None), lambda: P.scandir(root, suffix=[".png"]),
                  lambda: P.scandir(root, suffix=5), lambda: P.scandir([root]),
                  lambda: P.scandir(root, suffix={".png"}, case_sensitive=False)][f]())
    except FileNotFoundError:
        r["err"] = "FileNotFoundError"
    except OSError:
        r["err"] = "OSError"
    except TypeError:
        r["err"] = "TypeError"
    r["tree"] = tree(root)
    return r
