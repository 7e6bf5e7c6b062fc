import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import fnmatch
import numpy as np
import obspy
import pandas as pd
import scipy.signal as ss
from hypothesis import strategies as st
from runner import Sub, check, cov, main
T = obspy.UTCDateTime


def samples(f):
    rng = np.random.default_rng(f["seed"])
    n, k = f["n"], f["kind"]
    t = np.arange(n) * f["delta"]
    x = {"noise": lambda: rng.normal(size=n), "zero": lambda: np.zeros(n), "ramp": lambda: t / max(t[-1], 1), "sine": lambda: np.sin(2 * np.pi * 1.3 * t), "slow": lambda: np.sin(2 * np.pi * 0.02 * t),
         "spike": lambda: (np.arange(n) == n // 3).astype(float), "tail": lambda: np.where(np.arange(n) > 0.9 * n, rng.normal(size=n), 0)}[k]() * f["amp"] + f["off"] + f["slope"] * t
    return x.astype("float32") if f["float"] else np.clip(np.round(x), -2**31 + 1, 2**31 - 1).astype("int32")


@st.composite
def s_db(draw):
    fs = []
    for i in range(draw(st.integers(0, 6))):
        fs.append({"t": draw(st.integers(0, 10**6)), "sta": draw(st.sampled_from(["AAA", "001", "1", "ZZ"])), "loc": draw(st.sampled_from(["", "00", "01", "1"])), "n": draw(st.sampled_from([1, 2, 7, 100, 101, 2000, 2000, 9000, 9000, 367890])), "delta": draw(st.sampled_from([0.01, 0.01, 0.02])),
                   "kind": draw(st.sampled_from(["noise", "noise", "zero", "ramp", "sine", "slow", "spike", "tail"])), "amp": draw(st.sampled_from([0.3, 5, 1000, 100000, 1e6])), "off": draw(st.sampled_from([0, 0, -5000, 12345])), "slope": draw(st.sampled_from([0, 0, 3.5])),
                   "float": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)), "fmt": draw(st.sampled_from(["mseed", "mseed", "sac"])), "frac": draw(st.sampled_from([0, 0, 0.37, 0.999]))})
    return {"files": fs, "bad": draw(st.lists(st.sampled_from(["notes.txt", "x.mseed", "a.sac", "2020.wav", "zzz", "sub"]), max_size=3, unique=True)), "pattern": draw(st.sampled_from([None, "*", "*.mseed", "*.sac", "*AAA*", "2020*", "nothing*"])),
            "save": draw(st.sampled_from([None, "db.csv", "db.csv"])), "path": draw(st.sampled_from(["files", "./files", "a/files", "abs"])), "verbose": draw(st.booleans())}


def reference(x, delta):
    n = len(x)
    x = x.astype(float)
    if n > 1:
        t = np.linspace(-1, 1, n)
        x = x - x.mean()
        x = x - t * (t @ x) / (t @ t)
    else:
        x = x - x
    y = ss.sosfilt(ss.butter(4, 0.5 * 2 * delta, "highpass", output="sos"), x)
    return np.sqrt(np.mean((y - y.mean()) ** 2))


def f_db(c):
    d = os.path.abspath("files") if c["path"] == "abs" else c["path"]
    os.makedirs(d)
    truth = {}
    for f in c["files"]:
        tr = obspy.Trace(samples(f))
        tr.stats.delta, tr.stats.station, tr.stats.location, tr.stats.channel = f["delta"], f["sta"], f["loc"], "HDF"
        tr.stats.starttime = T(2020, 1, 1) + f["t"] + f["frac"]
        name = "%s.%s.%s.HDF.%s" % (tr.stats.starttime.strftime("%Y-%m-%dT%H_%M_%S"), f["sta"], f["loc"], f["fmt"])
        tr.write(os.path.join(d, name), format=f["fmt"])
        truth[name] = tr
    bad = [b for b in c["bad"]]
    for b in bad:
        os.makedirs(os.path.join(d, b)) if b == "sub" else open(os.path.join(d, b), "wb").write(b"this is not a waveform file\n" * 20)
    pat = c["pattern"] or "*"
    want = sorted(n for n in truth if fnmatch.fnmatchcase(n, pat))
    cov.nontrivial(bool(want)); cov.label("no file", not want); cov.label("unreadable", bool(bad)); cov.label("filtered by pattern", len(want) < len(truth)); cov.label("saved", bool(c["save"]))
    kw = {} if c["pattern"] is None else {"pattern": c["pattern"]}
    DB = gemlog.make_db(d, savefile=c["save"], verbose=c["verbose"], **kw)
    check(all(k in DB.columns for k in ["filename", "station", "location", "amp_HP", "max", "min", "t1", "t2"]), lambda: "columns %s" % list(DB.columns))
    check([os.path.basename(f) for f in DB["filename"]] == want, lambda: "rows for %s, readable files matching '%s': %s" % (list(DB["filename"]), pat, want))
    for j, n in enumerate(want):
        r, tr = DB.iloc[j], truth[n]
        check(os.path.exists(r["filename"]) and os.path.samefile(r["filename"], os.path.join(d, n)), lambda: "row %d names %s" % (j, r["filename"]))
        check(r["station"] == tr.stats.station and r["location"] == tr.stats.location, lambda: "%s: codes %r.%r, file has %s" % (n, r["station"], r["location"], tr.id))
        tol = 0.0011 if n.endswith("sac") else 2e-6  # SAC keeps milliseconds
        check(abs(r["t1"] - tr.stats.starttime) < tol and abs(r["t2"] - tr.stats.endtime) < tol + 1e-6 * len(tr), lambda: "%s: times %s - %s, file has %s - %s" % (n, r["t1"], r["t2"], tr.stats.starttime, tr.stats.endtime))
        check(float(r["max"]) == float(np.float32(tr.data.max()) if n.endswith("sac") else tr.data.max()) and float(r["min"]) == float(np.float32(tr.data.min()) if n.endswith("sac") else tr.data.min()),
              lambda: "%s: extremes %r, %r; file has %r, %r" % (n, r["min"], r["max"], tr.data.min(), tr.data.max()))
        x = tr.data.astype("float32") if n.endswith("sac") else tr.data
        ref = reference(x, tr.stats.delta)
        check(abs(r["amp_HP"] - ref) <= 1e-5 * ref + 1e-6 * np.abs(x).max() + 1e-9, lambda: "%s: high-passed amplitude %r, expected %r" % (n, r["amp_HP"], ref))
    if c["save"]:
        s = pd.read_csv(c["save"], dtype={"station": str, "location": str, "filename": str}, keep_default_na=False)
        check(len(s) == len(DB), lambda: "saved table has %d rows, returned %d" % (len(s), len(DB)))
        for k in ["filename", "station", "location", "amp_HP", "max", "min", "t1", "t2"]:
            check(k in s.columns, lambda: "saved table has no column %s" % k)
            for a, b in zip(s[k], DB[k]):
                same = T(a) == T(b) if k in ("t1", "t2") else a == b if k in ("filename", "station", "location") else abs(float(a) - float(b)) <= 1e-6 * abs(float(b))
                check(same, lambda: "saved table: %s is %r, returned %r" % (k, a, b))
    else:
        check(not os.path.exists("db.csv"), "a table was saved without asking")


@st.composite
def s_stats(draw):
    H = draw(st.integers(1, 60))
    rows = []
    for sta in draw(st.lists(st.sampled_from(["AAA", "BBB", "001", "Z9"]), min_size=1, max_size=4, unique=True)):
        for h in draw(st.lists(st.integers(-4, H + 4), max_size=30, unique=True)):
            rows.append([sta, h, draw(st.sampled_from([3599.99] * 6 + [3600, 3598.5, 3601, 100, 3597, 1800, 0.01])), draw(st.sampled_from([0.0, 0.4, 0.6, 30, 30.5, 47, 1999.0, 19999.0, 20001.0, 1e5])), draw(st.sampled_from([0, 0, 0, 0.01, 0.5]))])
    return {"hours": H, "rows": rows, "base": draw(st.sampled_from(["2020-04-14T00:00:00", "2021-12-31T23:00:00", "2024-02-28T12:00:00"])), "times": draw(st.sampled_from(["str", "float", "UTC"])), "stored": draw(st.sampled_from(["UTC", "str", "csv"])),
            "order": draw(st.integers(0, 10**6)), "edge": draw(st.sampled_from([0, 0, 0.5, 1800]))}


def f_stats(c):
    t0 = T(c["base"])
    rows = [c["rows"][i] for i in np.random.default_rng(c["order"]).permutation(len(c["rows"]))]
    a, b = t0 + c["edge"], t0 + 3600 * c["hours"] + c["edge"]
    tab = [["mseed/%d" % i, sta, "", amp, int(3 * amp), -int(3 * amp), t0 + 3600 * h + dt, t0 + 3600 * h + dt + dur] for i, (sta, h, dur, amp, dt) in enumerate(rows)]
    cols = ["filename", "station", "location", "amp_HP", "max", "min", "t1", "t2"]
    DB = pd.DataFrame(tab, columns=cols, index=[0] * len(tab))
    if c["stored"] != "UTC":
        DB["t1"], DB["t2"] = DB["t1"].astype(str), DB["t2"].astype(str)
    if c["stored"] == "csv":
        DB.to_csv("db.csv")
        DB = pd.read_csv("db.csv", dtype={"station": str})
    copy = DB.copy(deep=True)
    q = {"str": str, "float": float, "UTC": lambda x: x}[c["times"]]
    out = gemlog.calc_channel_stats(DB, q(a), q(b))
    check(DB.equals(copy) and list(DB.columns) == list(copy.columns), "the database was changed")
    exp = {}
    for _, sta, _, amp, _, _, s, e in tab:
        if s >= a and e <= b:
            exp.setdefault(sta, []).append((amp, e - s))
    cov.nontrivial(bool(exp)); cov.label("station outside the window", len(exp) < len(set(r[0] for r in rows))); cov.label("from csv", c["stored"] == "csv")
    cov.label("file at the window edge", any(r[6] == a for r in tab))
    check(sorted(map(str, out["station"])) == sorted(exp), lambda: "stations %s, with files in the window: %s" % (list(out["station"]), sorted(exp)))
    for j in range(len(out)):
        r = out.iloc[j]
        x = exp[str(r["station"])]
        good = sum(0.5 < amp < 2e4 and 3598 < d < 3602 for amp, d in x)
        anyd = sum(amp > 0 for amp, d in x)
        check(abs(r["goodData"] - good / c["hours"]) < 1e-9, lambda: "%s: good data %r, %d good hours of %d" % (r["station"], r["goodData"], good, c["hours"]))
        check(abs(r["anyData"] - anyd / c["hours"]) < 1e-9, lambda: "%s: any data %r, %d hours of %d" % (r["station"], r["anyData"], anyd, c["hours"]))
        am = sorted(amp for amp, d in x)
        for k, p in (("q1", 0.25), ("q3", 0.75)):
            h = p * (len(am) - 1)
            i = min(int(h), len(am) - 2) if len(am) > 1 else 0
            v = am[i] + (h - i) * (am[i + 1] - am[i]) if len(am) > 1 else am[0]
            check(abs(r[k] - v) <= 1e-9 * max(1, v), lambda: "%s: %s is %r, expected %r" % (r["station"], k, r[k], v))


@st.composite
def s_whole(draw):
    """Hour-long files of noise, summarized and counted."""
    return {"files": draw(st.lists(st.tuples(st.sampled_from(["A1", "B2"]), st.integers(0, 5), st.sampled_from([0, 3, 30, 300, 1e6])), min_size=1, max_size=5, unique_by=lambda r: r[:2])), "hours": draw(st.integers(6, 10)), "seed": draw(st.integers(0, 10**6)), "savetwice": draw(st.booleans())}


def f_whole(c):
    rng = np.random.default_rng(c["seed"])
    os.makedirs("mseed")
    t0 = T(2021, 5, 6)
    exp = {}
    for sta, h, amp in c["files"]:
        tr = obspy.Trace(np.round(rng.normal(size=36000) * amp).astype("int32"))
        tr.stats.delta, tr.stats.station, tr.stats.channel, tr.stats.starttime = 0.1, sta, "HDF", t0 + 3600 * h
        tr.write("mseed/%s.%s.mseed" % (tr.stats.starttime.strftime("%Y-%m-%dT%H_%M_%S"), sta), format="mseed")
        exp.setdefault(sta, []).append(amp)
    DB = gemlog.make_db("mseed", "*", "db.csv")
    a = gemlog.calc_channel_stats(DB, t0, t0 + 3600 * c["hours"])
    b = gemlog.calc_channel_stats(pd.read_csv("db.csv"), str(t0), str(t0 + 3600 * c["hours"]))
    cov.nontrivial()
    check(list(a["station"]) == list(b["station"]) == sorted(exp, key=lambda s: [s == x for x in DB["station"]].index(True)), lambda: "stations %s, %s" % (list(a["station"]), list(b["station"])))
    for out in (a, b):
        for j in range(len(out)):
            x = exp[out["station"].iloc[j]]
            check(abs(out["anyData"].iloc[j] - sum(v > 0 for v in x) / c["hours"]) < 1e-9 and abs(out["goodData"].iloc[j] - sum(0 < v < 1e6 for v in x) / c["hours"]) < 1e-9,
                  lambda: "%s: any %r good %r from amplitudes %s in %d hours" % (out["station"].iloc[j], out["anyData"].iloc[j], out["goodData"].iloc[j], x, c["hours"]))
            check(0 <= out["q1"].iloc[j] <= out["q3"].iloc[j] <= 1.1 * max(x) + 1e-6, "amplitude quartiles")


@st.composite
def s_day(draw):
    return {"hours": 24, "files": 1}


def f_day(c):
    t0 = T(2021, 5, 6)
    DB = pd.DataFrame([["x", "A1", "", 30.0, 90, -90, t0, t0 + 3600 * c["hours"] - 0.01]], columns=["filename", "station", "location", "amp_HP", "max", "min", "t1", "t2"])
    out = gemlog.calc_channel_stats(DB, t0, t0 + 86400)
    cov.nontrivial()
    check(abs(out["anyData"].iloc[0] - 1) < 1e-3 and abs(out["goodData"].iloc[0] - 1) < 1e-3, lambda: "a good 24-hour file (the default file length) covers a 24-hour window, reported proportions: any %.4f, good %.4f" % (out["anyData"].iloc[0], out["goodData"].iloc[0]), "day-long file counted as an hour")


main("C24", [
    Sub("db", s_db(), f_db, 700, 14000, rule="0-6 waveform files plus unreadable ones; non-trivial if a readable one matches the pattern"),
    Sub("stats", s_stats(), f_stats, 700, 20000, rule="tables of up to 120 hour-long, short and long files around a window; non-trivial if a station has files in the window"),
    Sub("whole", s_whole(), f_whole, 60, 1500, rule="1-5 hour-long files summarized, saved, and counted; all non-trivial"),
    Sub("day", s_day(), f_day, 1, 1, rule="one good file of the default length (24 h) in a 24 h window"),
], ["channel statistics are claimed for hour-long files; files partly outside the window do not count"])
