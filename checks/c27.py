import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import glob, shutil
import numpy as np
import obspy
import pandas as pd
from hypothesis import strategies as st
import gemlog.gemconvert, gemlog.xcorr, gemlog.gem_cat
from gemlog.gem_network import summarize_gps_terminal
import rawgen
from runner import Sub, check, cov, main
xc, GC, CAT = sys.modules["gemlog.xcorr"], sys.modules["gemlog.gemconvert"], sys.modules["gemlog.gem_cat"]
UTC = obspy.UTCDateTime
NETS, LOCS = ["", "NM", "X1"], ["", "00", "01"]
STAS = ["A", "LADR1", "BB2", "077", "210", "S10"]
DUR = 28


@st.composite
def s_campaign(draw):
    n = draw(st.integers(3, 5))
    sns = draw(st.lists(st.sampled_from(["003", "014", "041", "077", "096", "121", "210", "450", "999"]), min_size=n, max_size=n, unique=True))
    codes = draw(st.lists(st.tuples(st.sampled_from(NETS), st.sampled_from(STAS), st.sampled_from(LOCS)), min_size=n, max_size=n, unique=True))
    day = 86400 * draw(st.integers(16800, 19600))
    return {"sns": sns, "codes": [list(x) for x in codes], "t0": day + draw(st.sampled_from([-16, 3600 * 5 - 10, 12345, 80000])) + draw(st.sampled_from([0, 0.25, 0.996])), "seed": draw(st.integers(0, 10 ** 6)),
            "loggers": [{"version": draw(st.sampled_from(["0.85C", "0.9", "0.91", "1.10", "1.10"])), "off": draw(st.sampled_from([0, 1.5, 4, 4.98])), "ppm": draw(st.sampled_from([0, 20, -45])), "ms0": draw(st.integers(0, 8191)),
                         "dt": draw(st.sampled_from([9.77, 9.766, 9.9])), "split": draw(st.sampled_from([None, None, 22, "cat"]))} for _ in sns],
            "baz": draw(st.floats(-180, 180)), "slow": draw(st.sampled_from([2.9, 3.4, 1.5])), "lat": draw(st.sampled_from([35.0, -13.0, 60.0])), "lon": draw(st.sampled_from([-116.2, 12.25, 100.5])), "scale": draw(st.sampled_from([0.05, 0.08])),
            "how": draw(st.sampled_from(["convert", "codes", "codes", "rename", "rename", "plain"])), "merge": draw(st.booleans()), "length": draw(st.sampled_from([None, 1, 10 / 3600])), "procs": draw(st.sampled_from([1, 1, 3])),
            "library": draw(st.booleans()), "win": draw(st.sampled_from([8, 10]))}


def points(seed, n, scale):
    rng = np.random.default_rng(seed)
    while True:
        p = rng.uniform(-1, 1, (n, 2)) * scale
        s = np.linalg.svd(p - p.mean(0), compute_uv=False)
        if s[1] > 0.4 * s[0] and min(np.hypot(*(p[i] - p[j])) for i in range(n) for j in range(i)) > 0.4 * scale:
            return p


def f_campaign(c):
    n, rng = len(c["sns"]), np.random.default_rng(c["seed"] + 1)
    P = points(c["seed"], n, c["scale"])
    lats, lons = np.round(c["lat"] + P[:, 1] / 110.95, 5), np.round(c["lon"] + P[:, 0] / 111.3 / np.cos(np.radians(c["lat"])), 5)
    from obspy.geodetics import gps2dist_azimuth
    Q = []
    for la, lo in zip(lats, lons):
        m, az, _ = gps2dist_azimuth(c["lat"], c["lon"], la, lo)
        Q.append([m / 1000 * np.sin(np.radians(az)), m / 1000 * np.cos(np.radians(az))])
    Q = np.array(Q)
    w = -c["slow"] * np.array([np.sin(np.radians(c["baz"])), np.cos(np.radians(c["baz"]))])
    f, ph = rng.uniform(2.2, 9, 50), rng.uniform(0, 6.28, 50)
    a = rng.uniform(100, 500, 50)
    for sn, l, q, la, lo in zip(c["sns"], c["loggers"], Q, lats, lons):
        cut = 28 if l["split"] == "cat" else l["split"]
        secs = [45] if cut is None else [cut, 45 - cut]
        s = {"version": l["version"], "sn": sn, "seed": c["seed"] + int(sn), "t0": c["t0"] - l["off"], "ms0": l["ms0"], "ppm": l["ppm"], "dt": l["dt"], "jit": 1, "lat": float(la), "lon": float(lo),
             "wave": {"tref": round(c["t0"]), "off": int(sn), "sines": [[x, y, z - 2 * np.pi * y * float(q @ w)] for x, y, z in zip(a, f, ph)]},
             "files": [{"n": int(k / (l["dt"] * 0.001024)), "m_first": 300, "m_every": 1000, "gaps": [], "gps": {"start": 0.0, "every": 1, "n": k + 2, "bad": []}} for k in secs]}
        if l["split"] == "cat":
            s["files"][1]["gps"]["n"] = 0
        for F in rawgen.build(s):
            rawgen.write(F, "raw" if l["split"] != "cat" else "cat_in")
        if l["split"] == "cat":
            CAT.gem_cat("cat_in", "cat_out", sn)
            for p in glob.glob("cat_out/*"):
                shutil.move(p, "raw/" + os.path.basename(p)) if os.path.isdir("raw") else (os.makedirs("raw"), shutil.move(p, "raw/" + os.path.basename(p)))
            shutil.rmtree("cat_in")
    cov.nontrivial(); cov.label("codes by " + c["how"]); cov.label("merged raw files", any(l["split"] == "cat" for l in c["loggers"])); cov.label("library" if c["library"] else "commands"); cov.label("over midnight", (c["t0"] + 2) // 86400 != (c["t0"] + 30) // 86400)
    codes = [["", sn, ""] for sn in c["sns"]] if c["how"] == "plain" else c["codes"]
    with open("codes.csv", "w") as h:
        h.write("SN,Network,Station,Location\n" + "".join("%s,%s\n" % (sn, ",".join(k)) for sn, k in zip(c["sns"], codes)))
    ext = "*"
    if c["how"] == "convert":
        for sn, k in zip(c["sns"], codes):
            gemlog.convert("raw", "out", SN=sn, network=k[0], station=k[1], location=k[2], **({} if c["length"] is None else {"file_length_hour": c["length"]}))
    else:
        GC.main(["-i", "raw", "-o", "out", "-p", str(c["procs"])] + ([] if c["length"] is None else ["-l", repr(c["length"])]) + (["-c", "codes.csv"] if c["how"] == "codes" else []))
    folder = "out"
    if c["how"] == "rename":
        gemlog.rename_files("out/*", "codes.csv", "named")
        folder = "named"
        if c["merge"]:
            gemlog.merge_files_day("named", outfile_dir="days")
            folder = "days"
    files = sorted(glob.glob(folder + "/*"))
    ids = {tuple(k): i for i, k in enumerate(codes)}
    have = {tuple(obspy.read(x, headonly=True)[0].id.split(".")[:3]) for x in files}
    check(have == set(ids), lambda: "converted files have the codes %s, expected %s" % (sorted(have), sorted(ids)))
    t1, t2 = UTC(c["t0"] + 2), UTC(c["t0"] + 2 + DUR)
    if c["library"]:
        co = gemlog.summarize_gps("gps", station_info="codes.csv", output_file="sum.csv")
        gemlog.make_gem_inventory("codes.csv", co, gemlog.get_gem_response()).write("net.xml", format="STATIONXML")
        xc.xcorr_all(files, t1=t1, t2=t2, fl=3, fh=8, win_length_sec=c["win"], upsample_ratio=4, quiet=True).to_csv("lags.csv", index=False)
        d = xc.invert_for_slowness(pd.read_csv("lags.csv"), xc.get_coordinates(obspy.read_inventory("net.xml")))
    else:
        summarize_gps_terminal(["gps", "-s", "codes.csv", "-o", "net"])
        xc.xcorr_all_terminal(["-o", "lags.csv", "-1", t1.isoformat(), "-2", t2.isoformat(), "-L", "3", "-H", "8", "-w", str(c["win"]), "-u", "4", "-q"] + files)
        xc.calculate_direction_terminal(["-i", "lags.csv", "-l", "net.xml", "-o", "dirs.csv"])
        d = pd.read_csv("dirs.csv")
    check(len(d) >= DUR // c["win"], lambda: "%d windows in %d s" % (len(d), DUR))
    o = sorted(range(n), key=lambda i: ".".join(codes[i]))
    G = np.array([Q[o[i]] - Q[o[i + 1]] for i in range(n - 1)])
    H = np.linalg.inv(G.T @ G) @ G.T
    lag_err = 0.0025 + 0.0035 + 0.0015 * c["slow"]      # sampling, timing of two loggers, 1.5 m of GPS
    tol = np.hypot(*(np.abs(H).sum(1) * lag_err)) + 0.004 * c["slow"]
    for r in range(len(d)):
        e = np.hypot(*(-d["slowness"][r] * np.array([np.sin(np.radians(d["backazimuth"][r])), np.cos(np.radians(d["backazimuth"][r]))]) - w))
        check(e <= 0.6 * tol, lambda: "wave from %.2f deg with slowness %.2f s/km is found at %.2f deg, %.2f s/km (tolerance %.2f s/km)" % (c["baz"], c["slow"], d["backazimuth"][r], d["slowness"][r], 0.6 * tol))
        check(d["mean_coef"][r] > 0.88 and bool(d["consistency"][r]), lambda: "window %d: coefficient %.2f, consistency %s" % (r, d["mean_coef"][r], d["consistency"][r]))
        q = np.array([d["rms_" + ".".join(k)][r] for k in codes])
        check(q.max() / q.min() < 1.15, lambda: "amplitudes of the same wave differ: %s" % q)


main("C27", [
    Sub("campaign", s_campaign(), f_campaign, 400, 5000, rule="raw files of 3-5 loggers recording a plane wave, through merging, conversion, renaming, GPS summary, inventory, correlation and direction finding; every case is non-trivial"),
], ["arrays of 50-80 m radius, delays below the correlation's 1 s limit"])
