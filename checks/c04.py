import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
from hypothesis import strategies as st
import rawgen, gens, recorded
from oracles import valid_g, g_time
from runner import Sub, check, cov, main
core = gemlog.core
TOL = 0.003          # seconds
ALL = rawgen.VERSIONS


def slope(w):
    return sum(2 * np.pi * abs(a) * f for a, f, p in w["sines"])


def curv(w):
    """Bound on the interpolation error: fourth derivative, 10 ms spacing, and count rounding."""
    return 4.0 + sum(abs(a) * (2 * np.pi * f) ** 4 for a, f, p in w["sines"]) * (0.0125 ** 4)


def check_stream(stream, w, what, tol=TOL):
    for tr in stream:
        t = float(tr.stats.starttime) + 0.01 * np.arange(tr.stats.npts)
        y = rawgen.wave(w, t)
        err = np.abs(tr.data - y)
        lim = slope(w) * tol + curv(w)
        i = int(np.argmax(err))
        check(err[i] <= lim, lambda: "%s: sample at %.2f reads %d, the signal there is %.1f (over %.1f ms off)" % (what, t[i], tr.data[i], y[i], 1e3 * err[i] / max(slope(w), 1)))


def read(spec, Fs, **kw):
    for F in Fs:
        rawgen.write(F, "raw")
    return gemlog.read_gem("raw", np.arange(10000), spec["sn"], **kw)


def judge(spec, Fs, L, what, tol=TOL):
    check(L["problems"] == [], lambda: "%s: problems reported for good files: %s" % (what, L["problems"]))
    w = spec["wave"]
    check_stream(L["data"], w, what, tol)
    # header times of each file
    h = L["header"]
    check(len(h) == len(Fs), "header rows")
    for i, F in enumerate(Fs):
        for col, tt in (("t1", F.t[0]), ("t2", F.t[-1])):
            check(abs(h[col].iloc[i] - tt) < tol, lambda: "%s: header %s of file %d is %.4f, truth %.4f" % (what, col, i, h[col].iloc[i], tt))
    # state-of-health rows stamped within their file's samples
    M = L["metadata"]
    cnts = [m[0] for F in Fs for m in F.M]
    inside = [F.cnt[0] + rawgen.TCORR <= m[0] <= F.cnt[-1] for F in Fs for m in F.M]
    check(len(M) == len(cnts), lambda: "%s: %d state rows, %d written" % (what, len(M), len(cnts)))
    if cnts:
        e = np.abs(np.array(M["t"], float) - rawgen.true_time(spec, np.array(cnts)))[np.array(inside)]
        check(not len(e) or (np.isfinite(e).all() and e.max() < tol), lambda: "%s: state-of-health time off by %.4f s" % (what, np.nanmax(e)))
    # extent: nothing of the recording is missing at the ends
    check(abs(float(L["data"][0].stats.starttime) - Fs[0].t[0]) < 0.03, lambda: "%s: record starts %.3f s from the first sample" % (what, float(L["data"][0].stats.starttime) - Fs[0].t[0]))
    check(abs(float(L["data"][-1].stats.endtime) - Fs[-1].t[-1]) < 0.04, lambda: "%s: record ends %.3f s from the last sample" % (what, float(L["data"][-1].stats.endtime) - Fs[-1].t[-1]))


@st.composite
def s_clean(draw):
    return {"spec": draw(gens.timing_spec(ALL, nfiles=(1, 4), secs=(14, 50)))}


def f_clean(c):
    spec = c["spec"]
    Fs = rawgen.build(spec)
    L = read(spec, Fs)
    cov.nontrivial(); cov.label(F_v(spec)); cov.label("files %d" % len(Fs)); cov.label("drift", spec["ppm"] != 0); cov.label("gap between files", any(f.get("gap_before") for f in spec["files"]))
    judge(spec, Fs, L, spec["version"])
    # files recorded without a break form one trace
    if len(Fs) > 1 and not any(f["gaps"] or f.get("gap_before") for f in spec["files"]):
        cov.label("continuous")
        check(len(L["data"]) == 1, lambda: "%d traces from an unbroken recording of %d files" % (len(L["data"]), len(Fs)))


def F_v(spec):
    return spec["version"]


@st.composite
def s_faults(draw):
    """GPS faults: rare wrong fixes and lines with invalid fields."""
    spec = draw(gens.timing_spec(ALL, nfiles=(1, 2), secs=(70, 130), every=(1,)))
    for f in spec["files"]:
        n = f["gps"]["n"] - 3
        kmax = 1 if n < 100 else 2
        bad = {}
        for _ in range(draw(st.integers(0, kmax))):
            j = draw(st.one_of(st.sampled_from([0, n - 1, n]), st.integers(0, n)))
            bad[j] = ["time", draw(st.one_of(st.sampled_from([1.0, -1.0, 2.0, 17.0, -18.0, 3600.0, -3600.0, 86400.0, -86400.0, 619315200.0 / 8]), st.integers(-300, 300).filter(bool).map(float)))]
        for _ in range(draw(st.integers(0, 5))):
            j = draw(st.integers(0, n))
            bad[j] = draw(st.sampled_from([["lat", 0.0], ["lat", 99.0], ["lon", 0.0], ["lon", -190.0], ["lag", 1500.0], ["lag", -3.0], ["frac", 0.3], ["frac", 0.9],
                                           ["date", [0, 1980]], ["date", [0, 2080]], ["date", [1, 13]], ["date", [2, 32]], ["date", [1, 0]], ["date", [2, 0]], ["date", [3, 25]], ["date", [4, 61]],
                                           ["date", [[1, 2], [2, 30]]], ["date", [[1, 6], [2, 31]]], ["date", [3, 24]], ["date", [4, 60]], ["second", 60.0]]))
        f["gps"]["bad"] = [[j] + b for j, b in sorted(bad.items())]
    return {"spec": spec}


def f_faults(c):
    spec = c["spec"]
    Fs = rawgen.build(spec)
    bads = [b for f in spec["files"] for b in f["gps"]["bad"]]
    cov.nontrivial(bool(bads))
    for b in bads:
        cov.label("bad " + b[1])
    L = read(spec, Fs)
    judge(spec, Fs, L, spec["version"])


@st.composite
def s_pulse(draw):
    """Rare fixes whose pulse was timed wrongly by less than a second: nothing in the fix itself shows it."""
    spec = draw(gens.timing_spec(ALL, nfiles=(1, 2), secs=(70, 130), every=(1,)))
    for f in spec["files"]:
        n = f["gps"]["n"] - 3
        size = st.integers(20, 450).map(lambda x: x).flatmap(lambda x: st.sampled_from([x, -x]))
        j = draw(st.integers(0, n))
        w = {str(j): draw(size)}
        if n >= 100 and draw(st.booleans()):
            w[str(draw(st.one_of(st.just(min(j + 1, n)), st.integers(0, n))))] = draw(st.one_of(st.just(w[str(j)]), size))
        f["steps_counts"] = w
    return {"spec": spec}


def f_pulse(c):
    spec = c["spec"]
    Fs = rawgen.build(spec)
    cov.nontrivial(); cov.label("two", any(len(f["steps_counts"]) > 1 for f in spec["files"])); cov.label("at an end", any(set(f["steps_counts"]) & {"0", str(f["gps"]["n"] - 3)} for f in spec["files"]))
    L = read(spec, Fs)
    judge(spec, Fs, L, spec["version"])


@st.composite
def s_long(draw):
    """Long files with GPS cycles (20 fixes every few minutes) and slow curvature."""
    spec = draw(gens.timing_spec(("0.9", "0.91", "1.10"), nfiles=(1, 1), secs=(500, 1500), every=(10, 20, 30)))
    spec["quad"] = draw(st.sampled_from([0, 10, -25, 25]))
    cov_ = draw(st.sampled_from([0.6, 0.8, 1.0])) if spec["version"] != "0.9" else 1.0
    g = spec["files"][0]["gps"]
    g["n"] = max(12, int(g["n"] * cov_) + 1)
    g["start"] = draw(st.sampled_from([0.0, 0.0, 5.0])) if cov_ == 1.0 else 0.0
    return {"spec": spec}


def f_long(c):
    spec = c["spec"]
    Fs = rawgen.build(spec)
    cov.nontrivial(); cov.label("curved", spec["quad"] != 0)
    L = read(spec, Fs)
    judge(spec, Fs, L, spec["version"] + " long")


@st.composite
def s_recorded(draw):
    return {"file": draw(gens.seeds), "cycle": draw(st.floats(0, 1)), "ncyc": draw(st.sampled_from([1, 1, 2])), "before": draw(st.sampled_from([0, 40, 300])), "after": draw(st.sampled_from([3, 200, 500])),
            "from": draw(st.floats(0, 0.2)), "num": draw(st.integers(0, 9990))}


def f_recorded(c):
    """Pieces of the sample recordings around their GPS fixes."""
    S = [p for p in recorded.sources() if not p.endswith(".128")] + [p for p in recorded.sources() if p.endswith(".128")][::4]
    S = [p for p in S if recorded.cycles(p)]
    if not S:
        return
    p = S[c["file"] % len(S)]
    cy = [y for y in recorded.cycles(p) if y[2] > 17] or recorded.cycles(p)
    i = int(c["cycle"] * len(cy)) % len(cy)
    j = min(len(cy) - 1, i + c["ncyc"] - 1)
    a, b = cy[i][0] + int(c["from"] * (cy[i][1] - cy[i][0])) - c["before"], cy[j][1] + c["after"]
    F = recorded.between(p, a, min(b, a + 150000))
    V = [g for g in F.G if valid_g(g)]
    if len(V) < 15 or F.kinds[0] != "D":
        return
    x, t = np.array([g["ms"] for g in V]), np.array([g_time(g) for g in V])
    # a line through the fixes (these recordings' fixes lie within a millisecond of one)
    k, t0 = np.ones(len(V), bool), t[0]
    for _ in range(3):
        co = np.polyfit(x[k] - x[0], t[k] - t0, 1)
        r = t - t0 - np.polyval(co, x - x[0])
        k = np.abs(r) < max(0.002, 4 * np.median(np.abs(r)))
    data = np.array(F.cnt)
    length = (data[-1] - data[0]) * co[0]
    if not k.all() or np.abs(r[k]).max() > 0.002 or length / (t[k][-1] - t[k][0]) > 1.8:
        return
    if np.diff(data).max() > 23 or np.diff(data).min() <= 0:
        return
    recorded.write(F, "raw/FILE%04d.%s" % (c["num"], F.sn))
    L = gemlog.read_gem("raw", SN=F.sn)
    what = "%s, lines %d-%d" % (os.path.basename(p), a, b)
    h = L["header"].iloc[0]
    cov.nontrivial(); cov.label(os.path.basename(p)); cov.label("cycles %d" % (j - i + 1))
    ts = t0 + np.polyval(co, data + rawgen.TCORR - x[0])
    # how well a line through the fixes is known at the ends
    tol = TOL + 0.001 * max(1, length / (t[k][-1] - t[k][0]))
    for name, y in (("t1", ts[0]), ("t2", ts[-1])):
        check(abs(float(h[name]) - y) < tol, lambda: "%s: %s is %.4f, by its fixes %.4f" % (what, name, float(h[name]), y))
    check(len(L["data"]) == 1, lambda: "%s: %d traces" % (what, len(L["data"])))
    tr = L["data"][0]
    check(abs(tr.stats.npts - (ts[-1] - ts[0]) / 0.01) < 3, lambda: "%s: %d samples for %.3f s" % (what, tr.stats.npts, ts[-1] - ts[0]))
    import scipy.interpolate
    f = scipy.interpolate.CubicSpline(ts - t0, np.array(F.adc, float))
    g = float(tr.stats.starttime) - t0 + np.arange(tr.stats.npts) * 0.01
    g, y = g[2:-2], np.asarray(tr.data, float)[2:-2]
    e = y - f(g)
    rate = np.sqrt(np.mean(f(g, 1) ** 2))
    check(np.sqrt(np.mean(e ** 2)) < 1 + rate * tol, lambda: "%s: the waveform differs from the recorded one by %.1f counts (rms; it changes by %.0f counts per second)" % (what, np.sqrt(np.mean(e ** 2)), rate))


main("C04", [
    Sub("clean", s_clean(), f_clean, 500, 8000, rule="1-4 files of any version, adequate GPS, drift, gaps, any counter start; all non-trivial"),
    Sub("faults", s_faults(), f_faults, 250, 4000, rule="1-2 files with rare wrong fixes and invalid GPS lines; non-trivial: at least one bad fix"),
    Sub("pulse", s_pulse(), f_pulse, 150, 3000, rule="1-2 files, each with one or two fixes whose pulse is 20 to 450 counts early or late; all non-trivial"),
    Sub("recorded", s_recorded(), f_recorded, 48, 2000, rule="piece of a sample recording around one or two runs of GPS fixes; non-trivial: at least 15 consistent fixes that cover it"),
    Sub("long", s_long(), f_long, 60, 1000, rule="8-25 minute file with sparse fixes and curved drift; all non-trivial"),
], ["wrong fixes are rare: at most one per about sixty", "clock error within 60 ppm"])
