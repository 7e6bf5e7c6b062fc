import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import math, re
import numpy as np
import obspy
import pandas as pd
from hypothesis import strategies as st
from runner import Sub, check, cov, main
import gemlog.xcorr
xc = sys.modules["gemlog.xcorr"]
UTC = obspy.UTCDateTime


def trace(code, t0, dt, data):
    tr = obspy.Trace(np.array(data))
    tr.stats.network, tr.stats.station, tr.stats.location, tr.stats.channel = code
    tr.stats.delta, tr.stats.starttime = dt, t0
    return tr


def fails(f, what):
    try:
        f()
    except Exception:
        return
    check(False, what)


# ---------------------------------------------------------------- windows of one record
@st.composite
def s_windows(draw):
    fs = draw(st.sampled_from([100, 100, 50, 20, 1, 10]))
    w = draw(st.integers(2, 60))  # window length in samples
    n = draw(st.one_of(st.integers(w + 1, w + 3), st.integers(w + 1, 12 * w + 3), st.integers(1, 8).map(lambda k: k * w + 1)))
    frac = draw(st.sampled_from([0, 0, 0, 0.5, 0.37]))
    if frac == 0 and draw(st.integers(0, 9)) == 0:
        n = w  # a single window
    return {"fs": fs, "w": w, "n": n, "frac": frac,
            "overlap": draw(st.one_of(st.none(), st.sampled_from([0, 0, 0.25, 0.5, 0.5, 0.75, 0.9]), st.floats(0, 0.95).map(lambda x: round(x, 3)))), "k": draw(st.integers(1, 3)),
            "t0": draw(st.sampled_from(["2020-03-01T00:00:00", "2021-12-31T23:59:58.13", "2019-06-30T12:34:56.789", "1999-02-03T04:05:06.000001"])),
            "keys": draw(st.lists(st.integers(0, 9), max_size=3)), "spoil": draw(st.booleans())}


def f_windows(c):
    dt = 1 / c["fs"]
    win = (c["w"] + c["frac"]) * dt
    n = c["n"] + 1
    t0 = UTC(c["t0"])
    base = [np.arange(n, dtype=float) + 1e6 * k for k in range(c["k"])]
    stream = obspy.Stream([trace(("XX", "S%d" % k, "", "HDF"), t0, dt, base[k].copy()) for k in range(c["k"])])
    seen = []
    passed = {"anything": 5}

    def f(s, args):
        check(args is passed or args == passed, "the arguments did not reach the function")
        seen.append([(tr.stats.starttime, tr.stats.delta, np.array(tr.data)) for tr in s])
        i = len(seen) - 1
        out = {"i": i, "mean": s[0].data.mean() if len(s) else np.nan}
        if i % 10 in c["keys"]:
            out["some"] = i * 2.0
        if c["spoil"]:
            for tr in s:
                tr.data[:] = -1
                tr.stats.starttime += 100
        return out
    ov = c["overlap"]
    out = xc.apply_function_windows(stream, f, win, args=passed) if ov is None else xc.apply_function_windows(stream, f, win, ov, passed)
    if ov is None:
        ov = 0.5  # documented signature
    dur = (n - 1) * dt
    m = len(seen)
    lab = 1 + (dur - win) / (win * (1 - ov))
    need = [1 + math.ceil(x) if x > 0 else 1 for x in (lab - 1 - 1e-5, lab - 1 + 1e-5)]
    cov.nontrivial(m > 2); cov.label("one window", m == 1); cov.label("overlap", ov > 0); cov.label("function changes its data", c["spoil"])
    check(min(need) <= m <= max(need), lambda: "%d windows of %g s with overlap %g over %g s; %s are needed" % (m, win, ov, dur, need))
    step = (dur - win) / (m - 1) if m > 1 else 0
    check(step <= win * (1 - ov) * (1 + 1e-4) + 1e-9, lambda: "windows overlap by %.4f, requested %.4f" % (1 - step / win, ov))
    for key in out:
        check(len(out[key]) == m, lambda: "%d values of %s for %d windows" % (len(out[key]), key, m))
    for i in range(m):
        a = i * step  # seconds after the start
        mid = float(out["t_mid"][i] - t0)
        check(abs(mid - a - win / 2) < 2e-6, lambda: "window %d has mid-time %.6f s, expected %.6f" % (i, mid, a + win / 2))
        check(len(seen[i]) == c["k"], lambda: "window %d holds %d of %d channels" % (i, len(seen[i]), c["k"]))
        for k in range(c["k"]):
            ts, d_, data = seen[i][k]
            check(d_ == stream[k].stats.delta, "the sample period changed")
            first = int(round(data[0] - 1e6 * k)) if len(data) else -1
            check(len(data) and np.array_equal(data, base[k][first:first + len(data)]), lambda: "window %d of channel %d does not hold its own samples" % (i, k))
            check(abs(float(ts - t0) - first * dt) < 2e-6, lambda: "window %d of channel %d: samples from %.4f s are timed %.4f s" % (i, k, first * dt, float(ts - t0)))
            exp = range(math.ceil(a / dt - 1e-3), math.ceil((a + win) / dt - 1e-3))
            lo, hi = math.ceil(a / dt - 2e-3), math.floor((a + win) / dt + 2e-3)
            check(first >= lo and first + len(data) - 1 <= hi and abs(len(data) - win / dt) < 1 and first - lo <= 1,
                  lambda: "window %d (%.4f to %.4f s) holds samples %d to %d, expected %d to %d" % (i, a, a + win, first, first + len(data) - 1, exp[0], exp[-1]))
        check(out["i"][i] == i and out["mean"][i] == seen[i][0][2].mean(), lambda: "results of window %d are not in row %d" % (i, i))
        if "some" in out:
            v = out["some"][i]
            check(v == 2 * i if i % 10 in c["keys"] else np.isnan(v), lambda: "row %d of a result given by some windows only is %r" % (i, v))
    check(("some" in out) == any(i % 10 in c["keys"] for i in range(m)), "a result is missing from the output")
    a0, b0 = seen[0][0][2][0], seen[-1][0][2][-1]
    check(a0 == 0 and b0 >= n - 2 - (m == 1 and dur - win > dt), lambda: "the windows cover samples %d to %d of %d" % (a0, b0, n))
    for k in range(c["k"]):
        check(np.array_equal(stream[k].data, base[k]) and stream[k].stats.starttime == t0, "the analysis changed the record it was given")


# ---------------------------------------------------------------- files and days
CODES = ["NM.077..HDF", "NM.107..HDF", "NM.07..HDF", ".77..HDF", "XP.PARK.00.HDF", "XP.PARK.01.HDF", "XP.PARK.01.BDF", "NM.077.01.HDF", "A.B..HDF"]


def tcode(x):
    return tuple(x.split("."))


@st.composite
def s_days(draw):
    dt = draw(st.sampled_from([10.0, 10.0, 4.0, 30.0]))
    ids = draw(st.lists(st.sampled_from(CODES), min_size=1, max_size=4, unique=True))
    off = draw(st.one_of(st.sampled_from([0, 0, 0.5, 1]), st.integers(0, 86399), st.integers(86300, 86399)))
    days = draw(st.sampled_from([0.02, 0.3, 0.9, 1.0, 1.2, 2.0, 2.5, 3.4]))
    n = max(20, int(days * 86400 / dt) + draw(st.integers(-3, 3)))
    ch = []
    for x in ids:
        a = draw(st.sampled_from([0, 0, 0, 0.1, 0.4])); b = draw(st.sampled_from([1, 1, 1, 0.9, 0.7]))
        cuts = draw(st.lists(st.floats(0.01, 0.99), max_size=5, unique=True))
        ch.append({"id": x, "a": a, "b": b, "cuts": sorted(cuts)})
    ta = draw(st.one_of(st.none(), st.floats(-0.1, 0.6))); tb = draw(st.one_of(st.none(), st.floats(0.61, 1.1)))
    return {"dt": dt, "day": draw(st.sampled_from(["2020-02-28", "2020-12-31", "2016-12-31", "2021-06-01"])), "off": off, "n": n, "ch": ch, "group": draw(st.booleans()),
            "t1": ta, "t2": tb, "tm": draw(st.sampled_from(["", "", "1", "2"])), "fmt": draw(st.sampled_from([None, str, None])) is not None, "shuffle": draw(st.integers(0, 99)), "bad": draw(st.integers(0, 3)),
            "pick": draw(st.sampled_from([None, None, "codes", "pattern"])), "fail": draw(st.one_of(st.none(), st.none(), st.integers(0, 3)))}


def write_files(c):
    """The pieces of every channel; returns {id: (start index, values)}."""
    t0 = UTC(c["day"]) + c["off"]
    truth, groups = {}, {}
    for k, h in enumerate(c["ch"]):
        i0, i1 = int(h["a"] * c["n"]), max(int(h["b"] * c["n"]), int(h["a"] * c["n"]) + 12)
        v = np.arange(i0, i1, dtype=np.int32) + 10000000 * (k + 1)
        truth[h["id"]] = (i0, v)
        cut = [0] + sorted({int(x * len(v)) for x in h["cuts"]} - {0}) + [len(v)]
        for p, (a, b) in enumerate(zip(cut[:-1], cut[1:])):
            if b > a:
                groups.setdefault(p if c["group"] else (k, p), []).append(trace(tcode(h["id"]), t0 + (i0 + a) * c["dt"], c["dt"], v[a:b]))
    names = []
    rng = np.random.default_rng(c["shuffle"])
    keys = list(groups)
    for j, i in enumerate(rng.permutation(len(keys))):
        names.append("f%02d.mseed" % j)
        obspy.Stream(groups[keys[i]]).write(names[-1], format="MSEED")
    for b in range(c["bad"]):
        x = ["junk.mseed", "missing.mseed", "empty.mseed"][b]
        if b != 1:
            open(x, "w").write("this is no waveform\n" if b == 0 else "")
        names.insert(int(rng.integers(0, len(names) + 1)), x)
    return t0, truth, names


def f_days(c):
    dt = c["dt"]
    t0, truth, names = write_files(c)
    N = c["n"]
    kw = {}
    sel = sorted(truth)
    if c["pick"] == "codes":
        sel = sel[: max(1, len(sel) - 1)]
        kw["IDs"] = list(reversed(sel))
    elif c["pick"] == "pattern":
        kw["IDs"] = ["HDF"]
        sel = [x for x in sel if "HDF" in x]
    if not sel:
        return
    lo = min(truth[x][0] for x in truth); hi = max(truth[x][0] + len(truth[x][1]) for x in truth) - 1
    mid = [t0 + i * dt for i in (lo, hi)]
    t1 = t2 = None
    if c["t1"] is not None:
        t1 = t0 + int(c["t1"] * N) * dt
    if c["t2"] is not None:
        t2 = t0 + int(c["t2"] * N) * dt
    nd = UTC(t0.year, t0.month, t0.day) + 86400
    if c["tm"] == "1" and nd < mid[1]:
        t1 = nd
    if c["tm"] == "2" and nd > (t1 or mid[0]):
        t2 = nd
    if t1 is not None and t2 is not None and t1 >= t2:
        t2 = None
    if t1 is not None:
        kw["t1"] = str(t1) if c["fmt"] else t1
    if t2 is not None:
        kw["t2"] = str(t2) if c["fmt"] else t2
    a, b = max(t1 or mid[0], mid[0]), min(t2 or mid[1], mid[1])
    if a >= b or not any(t0 + truth[x][0] * dt <= b and t0 + (truth[x][0] + len(truth[x][1]) - 1) * dt >= a for x in sel):
        return
    calls, asked = [], {"x": 1}

    def f(s, args):
        check(args == asked, "the arguments did not reach the function")
        calls.append([(tr.id, tr.stats.starttime, np.array(tr.data), np.ma.isMaskedArray(tr.data) and np.ma.count_masked(tr.data) > 0) for tr in s])
        i = len(calls) - 1
        for tr in s:
            tr.data = tr.data * 0
        if c["fail"] == i:
            raise ValueError("no result for this day")
        return pd.DataFrame({"call": [i, i], "row": [0, 1]})
    out = xc.loop_through_days(f, names, quiet=True, args=asked, **kw)
    days = [x for x in calls if x]
    nday = (UTC(b.year, b.month, b.day) - UTC(a.year, a.month, a.day)) / 86400
    cov.nontrivial(len(calls) > 1); cov.label("midnight crossed", nday >= 1); cov.label("t1 after the start", t1 is not None and t1 > mid[0]); cov.label("t2 before the end", t2 is not None and t2 < mid[1])
    cov.label("unreadable files", c["bad"] > 0); cov.label("file holds several channels", c["group"]); cov.label("selection", c["pick"] is not None); cov.label("a day fails", c["fail"] is not None and c["fail"] < len(calls))
    check(set(t[0] for x in calls for t in x) <= set(sel), lambda: "channels %s were analysed, selected %s" % (sorted({t[0] for x in calls for t in x}), sel))
    for x in calls:
        check(len({t[0] for t in x}) == len(x), lambda: "a channel comes in several pieces in one day: %s" % [t[0] for t in x])
    for code in sel:
        i0, v = truth[code]
        count = np.zeros(len(v), int)
        for x in calls:
            for t in x:
                if t[0] != code:
                    continue
                check(not t[3] and len(t[2]), lambda: "%s was analysed with missing samples" % code)
                j = int(t[2][0] - v[0])
                check(0 <= j and j + len(t[2]) <= len(v) and np.array_equal(t[2], v[j:j + len(t[2])]), lambda: "%s was analysed with wrong samples" % code)
                check(abs(float(t[1] - t0) - (i0 + j) * dt) < 1e-3, lambda: "%s was analysed with wrong times" % code)
                count[j:j + len(t[2])] += 1
        tm = np.array([float(t0 + (i0 + j) * dt - a) for j in range(len(v))])
        dur = float(b - a)
        edge = 0.51 * dt
        inside = (tm > edge) & (tm < dur - edge)
        outside = (tm < -edge) | (tm > dur + edge)
        check(not count[outside].any(), lambda: "%s was analysed outside the requested time interval" % code)
        check(np.all(count[inside] >= 1), lambda: "%d samples of %s, from %s, were not analysed" % ((count[inside] == 0).sum(), code, a + tm[inside][np.where(count[inside] == 0)[0][0]]))
        k = np.where(count > 1)[0]
        if len(k):
            tod = (np.array([float(UTC(t0 + (i0 + j) * dt).timestamp) for j in k]) + 43200) % 86400 - 43200
            check(np.all(np.abs(tod) < dt) and count.max() <= 2, lambda: "%d samples of %s were analysed twice, not only at midnight" % (len(k), code))
    for x in calls:  # one day per call
        if x:
            s_ = min(t[1] for t in x); e_ = max(t[1] + (len(t[2]) - 1) * dt for t in x)
            m0 = s_ + dt
            check(e_ - dt <= UTC(m0.year, m0.month, m0.day) + 86400, lambda: "one call spans %s to %s" % (s_, e_))
    good = [i for i in range(len(calls)) if c["fail"] != i]
    if not good:
        check(out is None or len(out) == 0, "results of failed days")
    else:
        check(list(out["call"]) == [i for i in good for _ in (0, 1)] and list(out["row"]) == [0, 1] * len(good), "the output is not the results of the days in order")
        check(list(out.index) == list(range(len(out))), "the output rows are not numbered in order")


# ---------------------------------------------------------------- channel selection
PAT = ["077", "77", "07", "NM", "PARK", "HDF", "BDF", "^XP", r"\.01\.", "B", "NM.*HDF", r"P[A-Z]RK\.00", "zz"]


@st.composite
def s_pick(draw):
    what = lambda: st.lists(st.one_of(st.sampled_from(PAT), st.sampled_from(CODES), st.sampled_from([77, 107])), max_size=3)
    return {"ids": draw(st.lists(st.sampled_from(CODES), min_size=3, max_size=9, unique=True)), "inc": draw(st.one_of(st.none(), what())), "exc": draw(st.one_of(st.none(), what())), "cli": draw(st.sampled_from([False, False, False, True]))}


def chosen(c):
    def match(p, code):
        p = str(p)
        return p == code if p in CODES else re.search(p, code) is not None
    s = [x for x in c["ids"] if not c["inc"] or any(match(p, x) for p in c["inc"])]
    # an absent channel's full code as exclusion excludes nothing that is not it ... unless it also reads as a pattern
    return sorted(s)


def f_pick(c):
    if c["exc"] is not None:  # full codes of channels not in the data also act as patterns when excluding: not claimed
        c = dict(c, exc=[p for p in c["exc"] if str(p) not in CODES or str(p) in c["ids"]])
    t0 = UTC("2020-03-01T10:00:00")
    names = []
    rng = np.random.default_rng(5)
    for k, x in enumerate(c["ids"]):
        names.append("d%d.mseed" % k)
        trace(tcode(x), t0, 0.01, (rng.standard_normal(2101) * 1000).astype(np.int32)).write(names[-1], format="MSEED")
    full = {str(p) for p in (c["inc"] or []) if str(p) in CODES}
    exp = chosen(c)
    if c["exc"]:
        exp = [x for x in exp if not any((str(p) == x) if str(p) in CODES else re.search(str(p), x) for p in c["exc"])]
    cov.nontrivial(0 < len(exp) < len(c["ids"])); cov.label("full code", bool(full)); cov.label("exclusion", bool(c["exc"])); cov.label("nothing selected", not exp)
    if c["cli"]:
        short = [".".join(x.split(".")[:3]) for x in exp]
        if len(exp) < 2 or len(set(short)) < len(short) or not all(str(p) for p in (c["inc"] or []) + (c["exc"] or [])):
            return
        args = names + ["-o", "o.csv", "-w", "5", "-q"]
        if c["inc"]:
            args += ["-i", ",".join(map(str, c["inc"]))]
        if c["exc"]:
            args += ["-x", ",".join(map(str, c["exc"]))]
        cov.label("command")
        xc.xcorr_all_terminal(args)
        got = sorted(k[4:] for k in pd.read_csv("o.csv").columns if k.startswith("rms_"))
        check(got == sorted(short), lambda: "the command analysed %s instead of %s for -i %s -x %s" % (got, short, c["inc"], c["exc"]))
        return
    seen = []

    def f(s, args):
        seen.append(sorted(tr.id for tr in s))
        return pd.DataFrame({"n": [len(s)]})
    run = lambda: xc.loop_through_days(f, names, IDs=c["inc"], exclude_IDs=c["exc"], quiet=True)
    if not exp:
        try:
            run()
        except Exception:
            pass
        check(not any(seen), lambda: "%s analysed although nothing is selected by %s minus %s" % (seen, c["inc"], c["exc"]))
        return
    run()
    check(seen == [exp], lambda: "%s analysed instead of %s for IDs %s minus %s" % (seen, exp, c["inc"], c["exc"]))


# ---------------------------------------------------------------- the cross-correlation over days and files
@st.composite
def s_xc(draw):
    ids = draw(st.lists(st.sampled_from([x for x in CODES if not x.endswith("BDF")]), min_size=2, max_size=3, unique=True))
    before = draw(st.one_of(st.just(0), st.integers(10, 40)))
    return {"ids": ids, "before": before, "secs": draw(st.integers(25, 60)), "win": draw(st.sampled_from([5, 5.0, 7, 2.5])), "overlap": draw(st.sampled_from([0, 0, 0.5, 0.3])), "u": draw(st.sampled_from([1, 1, 2])),
            "cuts": [draw(st.lists(st.integers(100, 9000), max_size=4, unique=True)) for _ in ids], "seed": draw(st.integers(0, 999)), "cli": draw(st.booleans()),
            "t1": draw(st.one_of(st.none(), st.integers(0, 9))), "t2": draw(st.one_of(st.none(), st.integers(0, 4)))}


def f_xc(c):
    rng = np.random.default_rng(c["seed"])
    midn = UTC("2020-03-02")
    t0 = midn - c["before"]
    n = int((c["before"] + c["secs"]) * 100) + 1
    data = {x: rng.standard_normal(n) * 1000 for x in c["ids"]}
    one, many = [], []
    for k, x in enumerate(c["ids"]):
        one.append("one%d.mseed" % k)
        trace(tcode(x), t0, 0.01, data[x]).write(one[-1], format="MSEED")
        cut = [0] + sorted(i for i in c["cuts"][k] if i < n) + [n]
        for a, b in zip(cut[:-1], cut[1:]):
            many.append("m%d_%d.mseed" % (k, a))
            trace(tcode(x), t0 + a * 0.01, 0.01, data[x][a:b]).write(many[-1], format="MSEED")
    many = [many[i] for i in rng.permutation(len(many))]
    kw = dict(fl=5, fh=20, win_length_sec=c["win"], overlap=c["overlap"], upsample_ratio=c["u"], quiet=True)
    a, b = t0, t0 + (n - 1) * 0.01
    if c["t1"] is not None:
        a = t0 + c["t1"]; kw["t1"] = str(a)
    if c["t2"] is not None:
        b = b - c["t2"]; kw["t2"] = str(b)
    d1 = xc.xcorr_all(one, **kw)
    cuts = sum(len(x) for x in c["cuts"])
    cov.nontrivial(len(many) > len(one)); cov.label("midnight", c["before"] > 0); cov.label("command", c["cli"])
    if c["cli"]:
        arg = many + ["-o", "x.csv", "-L", "5", "-H", "20", "-w", str(c["win"]), "-p", str(c["overlap"]), "-u", str(c["u"]), "-q"]
        if "t1" in kw:
            arg += ["-1", kw["t1"]]
        if "t2" in kw:
            arg += ["-2", kw["t2"]]
        xc.xcorr_all_terminal(arg)
        d2 = pd.read_csv("x.csv")
        d2["t_mid"] = [UTC(t) for t in d2["t_mid"]]
    else:
        d2 = xc.xcorr_all(many, **kw)
    check(list(d1.columns) == list(d2.columns) and len(d1) == len(d2), lambda: "cutting the data into files changes the results from %d rows to %d" % (len(d1), len(d2)))
    for col in d1.columns:
        if col == "t_mid":
            e = max(abs(x - y) for x, y in zip(d1[col], d2[col]))
        else:
            e = np.max(np.abs(np.array(d1[col], float) - np.array(d2[col], float)) / (1 if "rms" not in col else 1e3))
        check(e < 1e-5, lambda: "cutting the data into files changes %s by %g" % (col, e))
    # mid-times
    parts = [(a, b)] if not (a < midn < b) else [(a, midn), (midn, b)]
    exp = []
    for p, q in parts:
        dur = q - p
        if c["u"] != 1:
            dur = dur - 0.01 / c["u"]  # the spline stops short of the last sample
        m = 1 + math.ceil((dur - c["win"]) / (c["win"] * (1 - c["overlap"])) - 1e-6)
        if dur < c["win"] + 0.1:
            return  # shorter than a window
        exp += [p + i * (dur - c["win"]) / max(1, m - 1) + c["win"] / 2 for i in range(m)]
    got = sorted(d1["t_mid"])
    check(len(got) == len(exp) and max(abs(x - y) for x, y in zip(got, exp)) < 0.011, lambda: "windows at %s, expected %s" % ([str(x) for x in got][:6], [str(x) for x in exp][:6]))


# ---------------------------------------------------------------- invalid arguments
BADARG = {"fl": [-1, -0.001, "x", 40, 50], "fh": [-3, "y", 5, 4.9, 0], "win_length_sec": [0, -5, "z"], "overlap": [1, 1.5, -0.1, float("nan"), "w"], "upsample_ratio": [0.99, 0, -2, float("nan"), "v"]}


@st.composite
def s_bad(draw):
    k = draw(st.sampled_from(sorted(BADARG) + [""]))
    v = draw(st.sampled_from(BADARG[k])) if k else None
    return {"k": k, "v": "nan" if v != v else v, "how": draw(st.sampled_from(["all", "day", "terminal"])),
            "base": [draw(st.sampled_from([0, 1, 5])), draw(st.sampled_from([20, 40])), draw(st.sampled_from([3, 5.0])), draw(st.sampled_from([0, 0.9])), draw(st.sampled_from([1, 2]))]}


def f_bad(c):
    names = ["fl", "fh", "win_length_sec", "overlap", "upsample_ratio"]
    kw = dict(zip(names, c["base"]))
    if kw["fl"] == 0:
        kw["fl"] = 5  # zero is allowed but the filter has no use for it
    if c["k"] == "fl":
        kw["fh"] = 40
    if c["k"] == "fh":
        kw["fl"] = 5
    if c["k"]:
        kw[c["k"]] = float("nan") if c["v"] == "nan" and c["k"] in ("overlap", "upsample_ratio") else c["v"]
    rng = np.random.default_rng(1)
    s = obspy.Stream([trace(("", "A%d" % i, "", "HDF"), UTC("2020-01-01"), 0.01, rng.standard_normal(1500)) for i in range(3)])
    files = []
    for tr in s:
        files.append(tr.stats.station + ".mseed")
        tr.write(files[-1], format="MSEED")
    flag = dict(zip(names, ["-L", "-H", "-w", "-p", "-u"]))

    def run():
        if c["how"] == "all":
            return xc.xcorr_all(files, quiet=True, **kw)
        if c["how"] == "day":
            return xc.xcorr_one_day(s, dict(kw, quiet=True))
        arg = files + ["-o", "o.csv", "-q"]
        for k, v in kw.items():
            arg += [flag[k] + str(v)] if not str(v).startswith("-") else [flag[k] + str(v)]
        try:
            xc.xcorr_all_terminal(arg)
        except SystemExit as e:
            raise ValueError("exit %s" % e.code)
        return pd.read_csv("o.csv")
    cov.nontrivial(bool(c["k"])); cov.label(c["how"]); cov.label("valid arguments", not c["k"])
    if c["k"]:
        fails(run, lambda: "%s = %r is accepted (%s)" % (c["k"], c["v"], c["how"]))
        check(not os.path.exists("o.csv"), "output is written for invalid arguments")
    else:
        d = run()
        check(len(d) > 0, "no windows")


main("C18", [
    Sub("windows", s_windows(), f_windows, 1500, 30000, rule="a record of 1-3 channels divided into windows with a recording callback; non-trivial: at least three windows"),
    Sub("days", s_days(), f_days, 600, 9000, rule="1-4 channels of up to 3.4 days cut into files, with time limits, selections and unreadable files; non-trivial: more than one day"),
    Sub("pick", s_pick(), f_pick, 700, 9000, rule="include and exclude lists of full codes and patterns over up to seven channels; non-trivial: a proper non-empty selection"),
    Sub("xcorr", s_xc(), f_xc, 150, 2500, rule="cross-correlation of the same data in one file per channel and cut into files, around midnight; non-trivial: at least one channel is cut"),
    Sub("invalid", s_bad(), f_bad, 200, 2000, rule="each argument in and out of its range, by the library and the command; non-trivial: an invalid argument"),
], ["gap-free data; the sample at midnight may belong to both days; samples within half a sample period of the limits of the requested interval are not claimed either way",
    "records shorter than a window are not claimed", "the last sample of a record (window ends are exclusive) is not claimed to be in a window"])
