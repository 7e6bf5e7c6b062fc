import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
import obspy
import pandas as pd
from hypothesis import strategies as st
import gpstab
from runner import Sub, check, cov, main


@st.composite
def s_summary(draw):
    p = draw(gpstab.project())
    t0 = p["t0"]
    edge = st.one_of(st.none(), st.none(), st.sampled_from([0, 10, 20.5, 100, 100000, 200000, 300000, -1000, 3000, 3010]), st.integers(-100, 250000))
    return {"p": p, "folders": draw(st.sampled_from(["gps", "proj", "list"])), "t1": draw(edge), "t2": draw(edge), "tform": draw(st.sampled_from(["utc", "iso", "under"])),
            "include": draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(p["sns"] + ["999"]), min_size=1, max_size=3, unique=True))),
            "exclude": draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(p["sns"] + ["999"]), max_size=2, unique=True))),
            "info": draw(st.sampled_from([None, "file", "frame", "file"])), "unlisted": draw(st.sampled_from([None, 0, 1])), "elev": draw(st.booleans()), "home": draw(st.sampled_from([None, None, "pre", "post"]))}


def tval(t, form):
    if t is None:
        return None
    u = obspy.UTCDateTime(t)
    return {"utc": u, "iso": u.strftime("%Y-%m-%dT%H:%M:%S.%f"), "under": u.strftime("%Y-%m-%d_%H:%M:%S.%f")}[form]


def f_summary(c):
    p = c["p"]
    names = {"gps": ["gps_%d" % i for i in range(3)], "proj": ["proj%d/gps" % i for i in range(3)], "list": ["a%d" % i for i in range(3)]}[c["folders"]][:p["nf"]]
    if c["home"]:  # a longer recording elsewhere before or after the period asked for
        p = dict(p, tables=[dict(t, far=[max(1, int(t["n"] * 0.6)), 0.5, 0.5, "start" if c["home"] == "pre" else "end"]) for t in p["tables"]])
    for d in names:
        os.makedirs(d)
    latest = gpstab.put(p, names)
    pattern = {"gps": "gps_*", "proj": "proj*/gps", "list": names}[c["folders"]]
    if p["nf"] == 1 and c["folders"] == "gps":
        pattern = "gps_0"
    t1 = None if c["t1"] is None else p["t0"] + c["t1"]
    t2 = None if c["t2"] is None else p["t0"] + c["t2"]
    if c["home"] and p["tables"]:
        tb = p["tables"][-1]
        cut = tb["t0"] + tb["step"] * max(1, int(tb["n"] * 0.6)) if c["home"] == "pre" else tb["t0"] + tb["step"] * (tb["n"] - max(1, int(tb["n"] * 0.6)) - 0.5)
        t1, t2 = (cut, None) if c["home"] == "pre" else (None, cut)
    rows = []
    for i, sn in enumerate(p["sns"]):
        if i != c["unlisted"]:
            rows.append([sn, ["NM", "", "XP", "7D"][i], "ST%d" % i, ["", "00", "01", ""][i], [12.5, 0.0, 1983.0, -3.0][i]])
    rows = rows[::-1]
    info, cols = None, ["SN", "Network", "Station", "Location"] + (["Elevation"] if c["elev"] else [])
    if c["info"] and rows:
        if c["info"] == "file":
            open("info.txt", "w").write(",".join(cols) + "\n" + "".join(",".join(str(x) for x in r[:len(cols)]) + "\n" for r in rows))
            info = "info.txt"
        else:
            info = pd.DataFrame([r[:len(cols)] for r in rows], columns=cols)
    got = gemlog.summarize_gps(pattern, station_info=info, output_file="sum.csv", t1=tval(t1, c["tform"]), t2=tval(t2, c["tform"]), include_SN=c["include"], exclude_SN=c["exclude"])
    exp, border = {}, False
    for sn, fx in latest.items():
        if (c["include"] is not None and sn not in c["include"]) or (c["exclude"] is not None and sn in c["exclude"]):
            continue
        w = [x for x in fx if (t1 is None or x[2] >= round(t1 * 1e6)) and (t2 is None or x[2] <= round(t2 * 1e6))]
        k, b = gpstab.robust(w)
        border = border or b
        if len(k):
            exp[sn] = (k, w)
    cov.nontrivial(len(exp) > 0); cov.label("outliers discarded", any(len(k) < len(w) for k, w in exp.values())); cov.label("loggers without fixes in the window", any(len(v) == 0 for v in exp.values()) or len(exp) < len(latest)); cov.label("several folders", p["nf"] > 1)
    if border:
        return
    check(list(got.SN) == sorted(exp), lambda: "loggers in the summary: %s, expected %s" % (list(got.SN), sorted(exp)))
    written = pd.read_csv("sum.csv", dtype={k: str for k in ("SN", "network", "station", "location")}, keep_default_na=False)
    check(list(written.columns) == list(got.columns) and len(written) == len(got), lambda: "the written summary has columns %s and %d rows" % (list(written.columns), len(written)))
    for i, sn in enumerate(sorted(exp)):
        k, w = exp[sn]
        n = len(k)
        for src, what in ((got, "returned"), (written, "written")):
            r = src.iloc[i]
            what = "%s summary of %s" % (what, sn)
            check(r.SN == sn, lambda: "%s: serial number %r" % (what, r.SN))
            check(int(r.num_samples) == n, lambda: "%s: %s fixes, expected %d" % (what, r.num_samples, n))
            for name, v in (("lat", k[:, 0].mean()), ("lon", k[:, 1].mean())):
                check(abs(float(r[name]) - v) < 1e-9, lambda: "%s: %s %r, expected %r" % (what, name, r[name], v))
            for name, v in (("lat_SE", k[:, 0].std() / np.sqrt(n)), ("lon_SE", k[:, 1].std() / np.sqrt(n))):
                check(abs(float(r[name]) - v) < 1e-10, lambda: "%s: %s %r, expected %r" % (what, name, r[name], v))
            for name, v in (("starttime", k[:, 2].min()), ("endtime", k[:, 2].max())):
                check(obspy.UTCDateTime(str(r[name]))._ns // 1000 == int(v), lambda: "%s: %s %s, expected %s" % (what, name, r[name], obspy.UTCDateTime(ns=int(v) * 1000)))
            row = [x for x in rows if x[0] == sn] if info is not None else []
            e = row[0] if row else [sn, "", "", "", -9999]
            check(float(r.elevation) == (e[4] if c["elev"] else -9999), lambda: "%s: elevation %r" % (what, r.elevation))
            if info is not None:
                check([r.network, r.station, r.location] == e[1:4], lambda: "%s: codes %s, expected %s" % (what, [r.network, r.station, r.location], e[1:4]))
            else:
                check("station" not in src.columns, "station codes from nowhere")


@st.composite
def s_brief(draw):
    n = draw(st.integers(60, 500))
    return {"site": list(draw(st.sampled_from(gpstab.SITES))), "n": n, "k": draw(st.integers(1, max(1, n // 60))), "d": draw(st.floats(0.002, 30)), "az": draw(st.floats(0, 6.28)), "seed": draw(st.integers(0, 2 ** 31 - 1)),
            "sigma": draw(st.sampled_from([1e-6, 1e-5, 3e-5])), "place": draw(st.sampled_from(["start", "mid", "end"])), "two": draw(st.booleans())}


def f_brief(c):
    """Few fixes from elsewhere do not move the result."""
    far = [c["k"], c["d"] * np.cos(c["az"]), c["d"] * np.sin(c["az"]), c["place"]]
    clean = gpstab.fixes(c["site"], c["n"], c["seed"], c["sigma"], None, 1600000000, 1)
    dirty = gpstab.fixes(c["site"], c["n"], c["seed"], c["sigma"], far, 1600000000, 1)
    bad = [i for i in range(c["n"]) if clean[i] != dirty[i]]
    if c["two"] and c["k"] > 1:  # two different places, one far closer than the other
        for i in bad[::2]:
            dirty[i] = [round(clean[i][0] + 0.01, 7), round(clean[i][1] - 0.005, 7), dirty[i][2]]
    gpstab.write("gps", "077", 0, dirty)
    got = gemlog.summarize_gps("gps")
    cov.nontrivial(); cov.label("two places", c["two"] and c["k"] > 1)
    keep = np.array([r for i, r in enumerate(clean) if i not in bad])
    tol = 4 * c["sigma"] / np.sqrt(c["n"]) + 1e-6
    check(len(got) == 1, "no summary")
    check(abs(got.lat.iloc[0] - keep[:, 0].mean()) < tol and abs(got.lon.iloc[0] - keep[:, 1].mean()) < tol, lambda: "%d of %d fixes recorded elsewhere moved the mean by %.6f, %.6f degrees" % (
        c["k"], c["n"], got.lat.iloc[0] - keep[:, 0].mean(), got.lon.iloc[0] - keep[:, 1].mean()))
    check(abs(got.num_samples.iloc[0] - len(keep)) <= 0.02 * c["n"] and obspy.UTCDateTime(got.starttime.iloc[0]) >= obspy.UTCDateTime(ns=min(keep[:, 2].astype(np.int64)) * 1000), "fixes recorded elsewhere counted")


main("C15", [
    Sub("summary", s_summary(), f_summary, 1500, 30000, rule="up to 4 loggers, 3 folders and several tables each, with windows and lists, against an independent computation; non-trivial: at least one logger in the summary"),
    Sub("brief", s_brief(), f_brief, 500, 10000, rule="one logger with up to 1 in 60 fixes from elsewhere; every case is non-trivial"),
], ["positions away from the +-180 degree meridian", "cases where a fix lies within rounding error of the discarding limit are skipped"])
