"""Runs the sub-checks of one property: generation (Hypothesis, sharded over processes), shrinking,
replay files, known findings, evidence."""
import argparse, contextlib, hashlib, json, multiprocessing as mp, os, shutil, signal, sys, tempfile, time, traceback

from boot import VERIF, HarnessError

LEVEL = "exploration"


class Violation(AssertionError):
    """The property does not hold on this case.  `sig` names the root cause class (known findings)."""
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


def check(cond, msg, sig=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig)


class Hang(BaseException):
    """A case has used far more processor time than any case needs."""


CASE_CPU = float(os.environ.get("GEMVERIF_CASE_CPU", "60"))   # processor seconds for one case (the slowest needs a few)


def _on_hang(signum, frame):
    raise Hang()


@contextlib.contextmanager
def cpu_limit(seconds):
    """Interrupt a case that doesn't end.  Processor time, so that a busy machine makes no difference."""
    old = signal.signal(signal.SIGPROF, _on_hang)
    signal.setitimer(signal.ITIMER_PROF, seconds, 2)    # again every 2 s, in case a bare "except:" swallows it
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def _cpu_of(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return 0.0


class Cov:
    """Per-case coverage notes: what the case exercised."""
    def __init__(self):
        self.reset()

    def reset(self):
        self.nt, self.labels = False, []

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def label(self, name, cond=True):
        if cond:
            self.labels.append(name)


cov = Cov()


class Sub:
    def __init__(self, name, strategy, func, quick, thorough=None, examples=(), rule="", maxw=8):
        self.name, self.strategy, self.func = name, strategy, func
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 12
        self.examples, self.rule, self.maxw = list(examples), rule, maxw


def _key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


def _short(case, lim=700):
    s = json.dumps(case, default=str)
    return json.loads(s) if len(s) <= lim else s[:lim] + "..."


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == prop]


@contextlib.contextmanager
def scratch():
    """A fresh scratch directory as the current directory."""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="gv")
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """Silence output of the code under test (Python level and file descriptors)."""
    if os.environ.get("GEMVERIF_VERBOSE"):
        yield
        return
    sys.stdout.flush(); sys.stderr.flush()
    so, se = sys.stdout, sys.stderr
    with open(os.devnull, "w") as dn:
        sys.stdout = sys.stderr = dn
        try:
            yield
        finally:
            sys.stdout, sys.stderr = so, se


def _classify_exc(e):
    """None for a harness problem, else (message, sig) of a violation."""
    if isinstance(e, Violation):
        return (str(e), e.sig)
    if isinstance(e, (MemoryError, HarnessError)) or (isinstance(e, OSError) and e.errno in (28, 12, 24, 23)):
        return None
    tb = traceback.extract_tb(e.__traceback__)
    where = "; ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-4:])
    return ("unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:300], where), None)


def run_case(sub, case, known, cpu=None):
    """Run one case.  Returns None (held), ('known', sig) or ('bad', msg, sig)."""
    cov.reset()
    try:
        with scratch(), quiet(), cpu_limit(cpu or CASE_CPU):
            sub.func(case)
    except KeyboardInterrupt:
        raise
    except Hang:
        return ("bad", "does not end: more than %g s of processor time used" % (cpu or CASE_CPU), None)
    except BaseException as e:
        if isinstance(e, SystemExit):
            c = ("unexpected SystemExit(%r)" % (e.code,), None)
        elif type(e).__module__.startswith("hypothesis"):
            raise
        else:
            c = _classify_exc(e)
        if c is None:
            raise HarnessError("%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
        if c[1] is not None and any(k.get("sig") == c[1] for k in known):
            return ("known", c[1])
        return ("bad", c[0], c[1])
    return None


def _worker(sub, widx, n, seed, known, outdir, deadline, shrink_s):
    import random as _random
    import numpy as np
    from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
    devnull = os.open(os.devnull, os.O_WRONLY)
    log = open(os.path.join(outdir, "w%d.log" % widx), "w")
    os.dup2(devnull, 1)
    os.dup2(log.fileno(), 2)
    st = {"evals": 0, "nt": set(), "labels": {}, "samples": [], "known": {}, "skipped": 0, "distinct": set()}
    cur = os.path.join(outdir, "w%d.cur" % widx)
    res = {"status": "ok"}
    first_fail = [None]
    best = {}

    def fail(case, msg, sig):     # one place, so that Hypothesis takes all failures for the same one
        res.update(status="bad", case=case, msg=msg, sig=sig)
        raise Violation(msg, sig)

    def once(case):
        if time.time() > deadline:
            st["skipped"] += 1
            return
        k = _key(case)
        if k in best:
            fail(*best[k])
        if first_fail[0] is not None and time.time() - first_fail[0] > shrink_s:
            return
        with open(cur, "w") as f:
            json.dump(case, f, default=str)
        _random.seed(0); np.random.seed(0)
        t_cpu = time.process_time()
        # while shrinking, don't spend a minute on every variation of a case that doesn't end
        r = run_case(sub, case, known, None if first_fail[0] is None else min(CASE_CPU, max(10, 4 * st.get("max_cpu", 0))))
        os.unlink(cur)
        if first_fail[0] is None:
            if not (r and r[0] == "bad"):
                st["max_cpu"] = max(st.get("max_cpu", 0), time.process_time() - t_cpu)
            st["evals"] += 1
            st["distinct"].add(k[:16])
            for l in cov.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if cov.nt:
                new = k[:16] not in st["nt"]
                st["nt"].add(k[:16])
                if new and len(st["samples"]) < 2:
                    st["samples"].append(_short(case))
        if r is None:
            return
        if r[0] == "known":
            st["known"][r[1]] = st["known"].get(r[1], 0) + 1
            return
        if first_fail[0] is None:
            first_fail[0] = time.time()
        best[k] = (case, r[1], r[2])
        fail(*best[k])

    try:
        exs = sub.examples[widx::max(1, sub._w)]
        bad = False
        for c in exs:
            try:
                once(json.loads(json.dumps(c)))
            except Violation:
                bad = True
                break
        if not bad and n > 0:
            test = given(sub.strategy)(once)
            test = settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False, derandomize=False,
                            suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))(test)
            test = hseed(seed)(test)
            try:
                test()
            except Violation:
                pass
            except BaseException as e:
                if res["status"] != "bad":
                    raise
    except BaseException as e:
        if res["status"] != "bad":
            res = {"status": "error", "msg": "".join(traceback.format_exception(e))[-4000:]}
    st["nt"], st["distinct"] = sorted(st["nt"]), sorted(st["distinct"])
    res["stats"] = st
    with open(os.path.join(outdir, "w%d.json.tmp" % widx), "w") as f:
        json.dump(res, f, default=str)
    os.rename(os.path.join(outdir, "w%d.json.tmp" % widx), os.path.join(outdir, "w%d.json" % widx))
    log.flush()
    os._exit(0)


def _kill(procs):
    for p in procs:
        if p.is_alive():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                p.kill()


def _entry(*a):
    os.setpgid(0, 0)
    _worker(*a)


def main(prop, subs, assumptions=()):
    sys.exit(_main(prop, subs, assumptions))


def _main(prop, subs, assumptions):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--sub")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("GEMVERIF_WORKERS", "8")))
    a = ap.parse_args()
    t0 = time.time()
    known = load_known(prop)
    names = {s.name: s for s in subs}
    if a.replay:
        d = json.load(open(a.replay))
        r = run_case(names[d["sub"]], d["case"], [])
        if r is None:
            print("replay: property held"); return 0
        print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
        print(r[1]); return 1
    budget = 420 if a.tier == "quick" else 5400
    shrink_s = 45 if a.tier == "quick" else 300
    outroot = tempfile.mkdtemp(prefix="gvrun")
    os.environ["TMPDIR"] = outroot; tempfile.tempdir = outroot
    per, bad, total_known = {}, None, {}
    try:
        todo = [s for s in subs if not a.sub or s.name in a.sub.split(",")]
        jobs = []
        for s in todo:
            n = int((s.quick if a.tier == "quick" else s.thorough) * a.scale)
            w = max(1, min(s.maxw, a.workers, max(1, n)))
            s._w = w
            d = os.path.join(outroot, s.name); os.makedirs(d)
            for i in range(w):
                ni = n // w + (1 if i < n % w else 0)
                sd = int(hashlib.sha256(("%s/%s/%d/%d" % (prop, s.name, a.seed, i)).encode()).hexdigest()[:12], 16)
                jobs.append((s, i, ni, sd, d))
        ctx = mp.get_context("fork")
        running, queue = [], list(jobs)
        mark = {}       # worker -> (case file's time stamp, processor time then)
        deadline = t0 + budget
        while queue or running:
            while queue and len(running) < a.workers and bad is None:
                s, i, ni, sd, d = queue.pop(0)
                p = ctx.Process(target=_entry, args=(s, i, ni, sd, known, d, deadline, shrink_s))
                p.start()
                running.append((p, s, i, d))
            if bad is not None:
                queue = []
            time.sleep(0.03)
            still = []
            for (p, s, i, d) in running:
                if p.is_alive():
                    try:    # a case stuck in C code, where Python can't interrupt it
                        cur = os.path.join(d, "w%d.cur" % i)
                        m, c = os.stat(cur).st_mtime_ns, _cpu_of(p.pid)
                        if mark.get((s.name, i), (None,))[0] != m:
                            mark[(s.name, i)] = (m, c)
                        elif c - mark[(s.name, i)][1] > 2 * CASE_CPU + 20 and bad is None:
                            case = json.load(open(cur))
                            bad = (s, {"case": case, "msg": "does not end: stuck for %d s of processor time" % (c - mark[(s.name, i)][1]), "sig": None})
                    except OSError:
                        pass
                    if time.time() > deadline + shrink_s + 150:
                        _kill([p])
                        cur = os.path.join(d, "w%d.cur" % i)
                        raise HarnessError("%s: worker stuck past the time budget; case: %s" % (s.name, open(cur).read()[:2000] if os.path.exists(cur) else "?"))
                    still.append((p, s, i, d)); continue
                p.join()
                f = os.path.join(d, "w%d.json" % i)
                if not os.path.exists(f):
                    cur = os.path.join(d, "w%d.cur" % i)
                    code = p.exitcode
                    if code in (-11, -6, -7, -8, -4, -14) and os.path.exists(cur):
                        res = {"status": "bad", "case": json.load(open(cur)), "msg": "process killed by signal %d" % -code, "sig": None,
                               "stats": {"evals": 1, "nt": [], "labels": {}, "samples": [], "known": {}, "skipped": 0, "distinct": []}}
                    else:
                        raise HarnessError("%s: worker died, exit code %s\n%s" % (s.name, code, open(os.path.join(d, "w%d.log" % i)).read()[-3000:]))
                else:
                    res = json.load(open(f))
                if res["status"] == "error":
                    raise HarnessError("%s: %s" % (s.name, res["msg"]))
                e = per.setdefault(s.name, {"evaluations": 0, "nt": set(), "distinct": set(), "labels": {}, "samples": [], "skipped_by_time_budget": 0, "max_cpu": 0})
                x = res["stats"]
                e["max_cpu"] = max(e["max_cpu"], x.get("max_cpu", 0))
                e["evaluations"] += x["evals"]; e["nt"] |= set(x["nt"]); e["distinct"] |= set(x["distinct"])
                e["samples"] += x["samples"]; e["skipped_by_time_budget"] += x["skipped"]
                for l, c in x["labels"].items():
                    e["labels"][l] = e["labels"].get(l, 0) + c
                for l, c in x["known"].items():
                    total_known[l] = total_known.get(l, 0) + c
                if res["status"] == "bad" and bad is None:
                    bad = (s, res)
            running = still
            if bad is not None:
                _kill([p for (p, _, _, _) in running])
                for (p, _, _, _) in running:
                    p.join()
                running = []
        # known findings: reproduce each listed case
        kf_lines = []
        for k in known:
            if "case" in k and k.get("sub") in names and bad is None:
                s = names[k["sub"]]
                r = run_case(s, k["case"], [])
                if r is not None and r[0] == "bad" and r[2] == k.get("sig"):
                    kf_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                elif r is not None:
                    bad = (s, {"case": k["case"], "msg": "known-finding case fails differently: " + r[1], "sig": r[2]})
    except HarnessError as e:
        print("HARNESS ERROR (%s): %s" % (prop, e), file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(outroot, ignore_errors=True)
    wall = time.time() - t0
    samples = []
    for n, e in per.items():
        for s in e["samples"][:3]:
            samples.append({"check": n, "case": s})
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": LEVEL,
          "coverage": {"evaluations": sum(e["evaluations"] for e in per.values()),
                       "distinct_nontrivial": sum(len(e["nt"]) for e in per.values()),
                       "rule": " | ".join("%s: %s" % (s.name, s.rule) for s in subs),
                       "samples": samples or ["none"],
                       "per_check": {n: {"evaluations": e["evaluations"], "distinct": len(e["distinct"]), "distinct_nontrivial": len(e["nt"]),
                                         "labels": e["labels"], "slowest_case_cpu_s": round(e["max_cpu"], 2), "skipped_by_time_budget": e["skipped_by_time_budget"]} for n, e in per.items()},
                       "known_finding_hits": total_known},
          "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": 1 if bad else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.sub:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for l in kf_lines:
        print(l)
    for n, e in per.items():
        print("%s/%s: %d cases, %d distinct non-trivial%s %s" % (prop, n, e["evaluations"], len(e["nt"]),
              ", %d skipped (time budget)" % e["skipped_by_time_budget"] if e["skipped_by_time_budget"] else "", json.dumps(e["labels"])))
    if bad:
        s, res = bad
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s.json" % (prop, s.name))
        with open(rp, "w") as f:
            json.dump({"property": prop, "sub": s.name, "case": res["case"], "message": res["msg"], "sig": res.get("sig")}, f, indent=1, default=str)
        print("failing check %s: %s" % (s.name, res["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s held (%.1f s)" % (prop, wall))
    return 0
