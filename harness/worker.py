"""Executes one shard of a driver's cases on the real code (runs in the repository's Python)."""
import importlib, json, os, random, signal, sys, time, traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    driver, mode, tier, seed, k, n, out = sys.argv[1:8]
    opts = dict(zip(sys.argv[8::2], sys.argv[9::2]))
    seed, k, n = int(seed), int(k), int(n)
    import pyEdgeEval
    assert os.path.realpath(pyEdgeEval.__file__).startswith(os.path.realpath(os.environ["VP_REPO_BUILD"])), pyEdgeEval.__file__
    mod = importlib.import_module("drivers." + driver)
    if "--replay" in opts:
        cases = [json.load(open(opts["--replay"]))["record"]["in"]]
    elif "--behaviours" in opts:
        cases = [json.loads(l) for l in open(opts["--behaviours"])]
        if hasattr(mod, "from_behaviours"):
            cases = mod.from_behaviours(mode, cases, tier, random.Random(seed))
    else:
        cases = mod.gen(mode, tier, random.Random("%s/%s/%d" % (driver, mode, seed)))
    limit = getattr(mod, "CASE_LIMIT", 60)
    f = open(out, "w")

    def on_alarm(*_):
        f.flush()
        child = getattr(sys.modules.get("drivers.util"), "CHILD", 0)
        if child:
            try:
                os.killpg(child, signal.SIGKILL)
            except OSError:
                pass
        os._exit(77)

    signal.signal(signal.SIGALRM, on_alarm)
    real_out = sys.stdout
    for i, case in enumerate(cases):
        if i % n != k:
            continue
        with open(out + ".cur", "w") as c:
            json.dump({"in": case}, c)
        signal.alarm(limit)
        rec = {"in": case, "err": "", "out": {}}
        try:
            rec["out"] = mod.run(mode, case)
            s = json.dumps(rec)
        except mod.HarnessError if hasattr(mod, "HarnessError") else () :
            raise
        except Exception as e:  # error behaviour of the code under test is part of the observation
            rec["out"] = {}
            rec["err"] = getattr(e, "name", None) if type(e).__name__ == "ForkError" else type(e).__name__
            rec["msg"] = (str(e) + " @ " + traceback.format_exc()[-400:])
            s = json.dumps(rec)
        signal.alarm(0)
        f.write(s + "\n")
    f.close()
    if os.path.exists(out + ".cur"):
        os.remove(out + ".cur")


main()
