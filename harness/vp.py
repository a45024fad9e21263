#!/usr/bin/env python3
"""Runner of the checks.  Usage: vp.py <property> [quick|thorough] [--replay FILE] [--keep]

For one property it
  1. copies /repo's current working tree to a scratch folder and builds it,
  2. model-checks the property's TLA+ modules (small exhaustive configs),
  3. lets TLC generate behaviours where the property is about histories,
  4. executes the real code on them / on generated inputs and records traces,
  5. lets TLC validate every recorded trace against the specification.
Exit 0: nothing found; 1: VIOLATION line printed; 2: machinery failure.
"""
import argparse, importlib.util, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)


class Machinery(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ----------------------------------------------------------------- build
def build(scratch):
    dst = os.path.join(scratch, "repo")
    skip = {".git", "build", "data", "docs", "tests", "__pycache__"}
    # development only (tools/mut.py): the extension modules of the copy are known to be up to date
    reuse = REPO != "/repo" and os.environ.get("VP_REUSE_BUILD") == "1"

    def ign(d, names):
        out = []
        for n in names:
            if d == REPO and n in skip:
                out.append(n)
            elif n == "__pycache__" or n.endswith(".egg-info"):
                out.append(n)
            elif reuse:
                pass
            elif n.endswith(".so") or n in ("correspond_pixels.cpp", "nms.cpp", "correspond_pixels.c"):
                out.append(n)
        return out

    shutil.copytree(REPO, dst, ignore=ign, symlinks=True)
    os.makedirs(os.path.join(dst, "data"), exist_ok=True)
    if reuse:
        return dst
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", CC="/usr/bin/gcc", CXX="/usr/bin/g++",
               PYTHONHASHSEED="0", MPLBACKEND="Agg")
    r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace"], cwd=dst, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode:
        raise Machinery("build failed:\n" + r.stdout[-3000:])
    return dst


def venv_env(repo, scratch):
    e = dict(os.environ)
    e.update(PYTHONPATH=repo + ":" + HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             MPLBACKEND="Agg", VP_SCRATCH=scratch, VP_REPO_BUILD=repo, OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", HOME=scratch, TMPDIR=scratch, MPLCONFIGDIR=scratch)
    return e


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.prints = []
        self.ok = False
        self.violated = None
        self.out = ""


def tlc(scratch, module, cfg=None, env=None, workers=None, timeout=600, extra=(), heap="6g", props=()):
    """run TLC; returns TlcResult.  Printed tuples <<"TAG", ...>> are collected."""
    name = cfg or module
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", *["-D" + p for p in props],
           "-Djava.io.tmpdir=" + scratch, "-cp", TLAJARS, "tlc2.TLC", "-metadir", meta,
           "-noGenerateSpecTE", "-workers", str(workers or NPROC), "-deadlock",
           "-config", os.path.join(SPEC, name + ".cfg"), *extra, os.path.join(SPEC, module + ".tla")]
    res = TlcResult()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timeout on %s" % name)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res.out = r.stdout
    m = None
    for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", r.stdout):
        pass
    if m:
        res.states, res.distinct = (int(x.replace(",", "")) for x in m.groups())
    else:
        m = re.search(r"number of states generated: ([\d,]+)", r.stdout)
        if m:
            res.states = int(m.group(1).replace(",", ""))
    res.prints = [l for l in r.stdout.splitlines() if l.startswith("<<") or l.startswith('"')]
    v = re.search(r"(Invariant \S+ is violated|Action property \S+ is violated|Temporal properties were violated|"
                  r"Assumption .* is false|Invariant \S+ is equal to FALSE)", r.stdout)
    if v:
        res.violated = v.group(1)
    res.rc = r.returncode
    res.ok = r.returncode == 0 and not v
    return res


def tail(out):
    i = out.find("Error:")
    if i < 0:
        return out[-2500:]
    j = out.find("Error: The behavior up to this point", i)
    k = out.find("Error: The error occurred", i)
    return out[i:i + 2500] if j < 0 or k < 0 else out[i:j][:1500] + out[j:j + 300] + out[k:k + 1500]


VERD = re.compile(r'^<<"VERDICT", (\d+), "([^"]*)">>$')


def validate(scratch, module, trace, n, cfg=None, timeout=800, env=None, heap="8g"):
    """validate a trace file; returns ({case index (1-based): {clauses}}, TlcResult)"""
    ev = {"TRACE": trace}
    ev.update(env or {})
    res = tlc(scratch, module, cfg, env=ev, timeout=timeout, heap=heap)
    bad, seen = {}, set()
    for l in res.prints:
        m = VERD.match(l)
        if m:
            i = int(m.group(1))
            seen.add(i)
            if m.group(2) != "ok":
                bad.setdefault(i, set()).add(m.group(2))
    if not res.ok or len(seen) != n:
        raise Machinery("trace validation with %s failed (%d of %d verdicts, rc %s)\n%s" %
                        (module, len(seen), n, res.rc, tail(res.out)))
    return bad, res


# -------------------------------------------------------------- drivers
def drive(scratch, repo, driver, mode, tier, seed, shards, timeout, behaviours=None, replay=None):
    """run the driver's cases on the real code; returns list of records"""
    env = venv_env(repo, scratch)
    procs = []
    if replay:
        shards = 1
    for k in range(shards):
        out = os.path.join(scratch, "%s-%s-%d.ndjson" % (driver, mode, k))
        work = os.path.join(scratch, "w-%s-%s-%d" % (driver, mode, k))
        os.makedirs(work)
        cmd = [PY, os.path.join(HERE, "worker.py"), driver, mode, tier, str(seed), str(k), str(shards), out]
        if behaviours:
            cmd += ["--behaviours", behaviours]
        if replay:
            cmd += ["--replay", replay]
        e = dict(env, TMPDIR=work)
        p = subprocess.Popen(cmd, cwd=work, env=e, stdout=open(out + ".log", "w"),
                             stderr=subprocess.STDOUT, start_new_session=True)
        procs.append((p, out, work))
    t0 = time.time()
    recs, crashes = [], []
    for p, out, work in procs:
        crash = None
        try:
            rc = p.wait(max(1, timeout - (time.time() - t0)))
            if rc < 0:
                crash = "Crash:signal%d" % -rc
            elif rc == 77:
                crash = "Hang"
            elif rc:
                raise Machinery("driver %s/%s failed:\n%s" % (driver, mode, open(out + ".log").read()[-4000:]))
        except subprocess.TimeoutExpired:
            # a machine too busy to finish them all is no violation: only a case that stands still is
            try:
                stuck = time.time() - os.path.getmtime(out + ".cur") > 100
            except OSError:
                stuck = False
            print("[%s] %s shard out of time%s" % (driver, mode, ", a case stands still" if stuck else ": judged what it recorded"), flush=True)
            crash = "Hang" if stuck else None
            try:
                p.send_signal(signal.SIGALRM)
                p.wait(10)
            except (OSError, subprocess.TimeoutExpired):
                pass
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.poll()
        if os.path.exists(out):
            for l in open(out):
                if l.endswith("\n"):
                    recs.append(json.loads(l))
        if crash:
            cur = out + ".cur"
            if not os.path.exists(cur):
                raise Machinery("driver %s/%s died before its first case: %s\n%s" % (
                    driver, mode, crash, open(out + ".log").read()[-3000:]))
            try:
                c = json.load(open(cur))
            except ValueError:
                raise Machinery("driver %s/%s ran out of time" % (driver, mode))
            c["err"] = crash
            crashes.append(c)
        shutil.rmtree(work, ignore_errors=True)
    return recs, crashes


# ----------------------------------------------------------------- main
def load_known():
    known = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                known.append(m.groups())
    return known


def run(prop, tier, seed, replay=None, keep=False):
    from checks import CHECKS
    spec = CHECKS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    os.chmod(scratch, 0o755)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], model_runs=[],
               trace_runs=[])
    violations = []
    try:
        # the build runs while the specification is being model-checked
        box = {}

        def _build():
            try:
                box["repo"] = build(scratch)
            except BaseException as e:
                box["err"] = e
        th = threading.Thread(target=_build)
        th.start()
        # --- model checking of the specification itself
        skip_models = REPO != "/repo" and os.environ.get("VP_SKIP_MODELS") == "1"   # development only
        for job in [] if replay or skip_models else spec.get("models", []):
            if tier not in job.get("tiers", ("quick", "thorough")):
                continue
            t = time.time()
            r = tlc(scratch, job["module"], job.get("cfg"), env=job.get("env"), timeout=job.get("timeout", 600),
                    extra=job.get("extra", ()))
            if not r.ok:
                raise Machinery("specification %s does not satisfy its own properties: %s\n%s" % (
                    job.get("cfg", job["module"]), r.violated, tail(r.out)))
            cov["states"] += r.distinct
            cov["transitions"] += r.states
            cov["model_runs"].append(dict(config=job.get("cfg", job["module"]), distinct=r.distinct,
                                          generated=r.states, wall_s=round(time.time() - t, 1)))
            log("[%s] model %s: %d distinct states, %.1fs" % (prop, job.get("cfg", job["module"]), r.distinct, time.time() - t))
        th.join()
        if "err" in box:
            raise box["err"] if isinstance(box["err"], Machinery) else Machinery(repr(box["err"]))
        repo = box["repo"]
        log("[%s] built and specification checked in %.1fs" % (prop, time.time() - t0))
        # --- conformance
        for job in spec["traces"]:
            if tier not in job.get("tiers", ("quick", "thorough")):
                continue
            driver, mode = job["driver"], job.get("mode", "main")
            rp = None
            if replay:
                rj = json.load(open(replay))
                if rj.get("driver") != driver or rj.get("mode") != mode:
                    continue
                rp = replay
            beh = None
            t = time.time()
            if job.get("generate") and not replay:
                g = job["generate"]
                beh = os.path.join(scratch, "beh-%s-%s.ndjson" % (driver, mode))
                n = generate(scratch, g, tier, seed, beh, cov)
                log("[%s] %d behaviours generated by %s, %.1fs" % (prop, n, g.get("cfg", g["module"]), time.time() - t))
            t = time.time()
            recs, crashes = drive(scratch, repo, driver, mode, tier, seed, job.get("shards", 4),
                                  job.get("drive_timeout", 400 if tier == "quick" else 900), beh, rp)
            if not recs and not crashes:
                raise Machinery("driver %s/%s produced nothing" % (driver, mode))
            for c in crashes:
                violations.append((job, c, [c["err"]]))
            td = time.time() - t
            # split in chunks to bound memory
            chunk = job.get("chunk", 70000)
            for a in range(0, len(recs), chunk):
                part = recs[a:a + chunk]
                tf = os.path.join(scratch, "trace.ndjson")
                with open(tf, "w") as f:
                    for i, rcd in enumerate(part):
                        # the field "h" of a case is for the driver only
                        f.write(json.dumps(dict(rcd, **{"in": {a: b for a, b in rcd["in"].items() if a != "h"}})) + "\n")
                t1 = time.time()
                bad, r = validate(scratch, job["module"], tf, len(part), job.get("cfg"),
                                  timeout=job.get("timeout", 800 if tier == "quick" else 3000))
                cov["states"] += r.distinct
                cov["transitions"] += r.states
                cov["traces_validated_against_impl"] += len(part)
                cov["trace_runs"].append(dict(spec=job.get("cfg", job["module"]), driver=driver, mode=mode,
                                              traces=len(part), distinct=r.distinct, drive_s=round(td, 1),
                                              tlc_s=round(time.time() - t1, 1), rejected=len(bad)))
                log("[%s] %s/%s: %d traces (%.1fs), validated by %s (%.1fs), %d rejected" % (
                    prop, driver, mode, len(part), td, job["module"], time.time() - t1, len(bad)))
                for i in sorted(bad):
                    violations.append((job, part[i - 1], sorted(bad[i])))
            for i in {0, len(recs) // 2, len(recs) - 1} if recs else ():
                s = json.dumps(recs[i])
                if len(cov["samples"]) < 12:
                    cov["samples"].append(json.loads(s) if len(s) < 3000 else s[:3000])
    finally:
        th.join()
        if keep:
            log("scratch kept:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    # --- report
    known = [k for k in load_known() if k[0] == prop]
    new, listed = [], {}
    for job, rec, clauses in violations:
        key = "%s/%s:%s" % (job["driver"], job.get("mode", "main"), "+".join(clauses))
        tag = rec.get("tag", "")
        hit = [k for k in known if k[1] in (key, key + "@" + str(tag))]
        if hit:
            listed[hit[0][1]] = hit[0]
        else:
            new.append((job, rec, clauses, key))
    for k in listed.values():
        log("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    if not replay:
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if new:
        shown = set()
        for job, rec, clauses, key in new:
            if key in shown or len(shown) > 5:
                continue
            shown.add(key)
            rp = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (prop, len(shown)))
            if replay:
                rp = replay
            else:
                with open(rp, "w") as f:
                    json.dump(dict(driver=job["driver"], mode=job.get("mode", "main"), clauses=clauses, record=rec), f)
            log("rejected: %s  (%d cases in all)" % (key, len(new)))
            log("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    log("[%s] ok in %.1fs" % (prop, time.time() - t0))
    return 0


def generate(scratch, g, tier, seed, path, cov):
    """let TLC produce behaviours: every printed <<"BEH", "json">> line becomes one"""
    extra = list(g.get("extra", ()))
    if g.get("simulate"):
        num, depth = g["simulate"][tier]
        extra += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    r = tlc(scratch, g["module"], g.get("cfg"), env=g.get("env"), timeout=g.get("timeout", 600), extra=extra,
            workers=1 if g.get("simulate") else None)
    if not r.ok:
        raise Machinery("behaviour generation %s failed\n%s" % (g["module"], tail(r.out)))
    n = 0
    seen = set()
    with open(path, "w") as f:
        for l in r.prints:
            m = re.match(r'^<<"BEH", (".*")>>$', l)
            if m:
                s = json.loads(m.group(1))
                if s not in seen:
                    seen.add(s)
                    f.write(s + "\n")
                    n += 1
    if not n:
        raise Machinery("no behaviours generated by %s\n%s" % (g["module"], r.out[-2000:]))
    cov["states"] += r.distinct
    cov["transitions"] += r.states
    cov["model_runs"].append(dict(config=g.get("cfg", g["module"]), generated=r.states, behaviours=n))
    return n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    try:
        return run(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1")), a.replay, a.keep)
    except Machinery as e:
        print("MACHINERY-FAILURE:", e, flush=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())
