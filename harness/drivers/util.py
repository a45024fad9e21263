import numpy as np

DT = {"bool": bool, "u8": np.uint8, "i32": np.int32, "i64": np.int64, "f32": np.float32, "f64": np.float64}


def arr(rows, dt="u8", shape=None):
    a = np.array(rows)
    if shape is not None:
        a = a.reshape(shape)
    return a.astype(DT[dt])


def rows(a):
    """integer image -> list of rows (fails loudly when values are not integers)"""
    a = np.asarray(a)
    b = a.astype(np.int64)
    if not (b == a).all():
        raise ValueError("non-integer output")
    return b.tolist()


def rnd_img(rng, h, w, p, values=(1,)):
    return [[rng.choice(values) if rng.random() < p else 0 for _ in range(w)] for _ in range(h)]


def blob_img(rng, h, w, n):
    """a few filled rectangles / lines: realistic thick edges"""
    a = [[0] * w for _ in range(h)]
    for _ in range(n):
        y0, x0 = rng.randrange(h), rng.randrange(w)
        y1, x1 = min(h, y0 + rng.randrange(1, 6)), min(w, x0 + rng.randrange(1, 6))
        v = 0 if rng.random() < .3 else 1
        for y in range(y0, y1):
            for x in range(x0, x1):
                a[y][x] = v
    return a


CHILD = 0       # process group of the case being run


def forked(fn, timeout=50):
    """run fn in a process group of its own that is killed afterwards (whatever it left behind)"""
    import json, os, signal, tempfile, time, traceback
    fd, path = tempfile.mkstemp()
    os.close(fd)
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            try:
                r = dict(ok=fn())
            except BaseException as e:
                r = dict(err=type(e).__name__, msg=str(e) + traceback.format_exc()[-600:])
            with open(path, "w") as f:
                json.dump(r, f)
        finally:
            os._exit(0)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    global CHILD
    CHILD = pid
    end = time.time() + timeout
    status = None
    while time.time() < end:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        time.sleep(.001)
    else:
        status = None
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if status is None:
        os.waitpid(pid, 0)
    CHILD = 0
    s = open(path).read()
    os.unlink(path)
    if status is None:
        raise ForkError("Hang", "no answer within %ds" % timeout)
    if not s:
        raise ForkError("Crash", "status %s" % status)
    r = json.loads(s)
    if "err" in r:
        raise ForkError(r["err"], r["msg"])
    return r["ok"]


class ForkError(Exception):
    """an exception raised inside a forked case, under its original name"""
    def __init__(self, name, msg):
        super().__init__(msg)
        self.name = name
