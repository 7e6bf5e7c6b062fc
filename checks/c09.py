import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np, obspy, pandas as pd
from hypothesis import strategies as st
import rawgen, gens, conv
from oracles import valid_g, g_time, M_COLS, M_COLS_08
from runner import Sub, check, cov, main
U = obspy.UTCDateTime


@st.composite
def s_tables(draw):
    spec = draw(gens.timing_spec(("0.8", "0.85", "0.85C", "0.9", "0.91", "1.10"), nfiles=(1, 4), secs=(18, 36)))
    for f in spec["files"]:
        bad = {}
        for _ in range(draw(st.integers(0, 2))):
            bad[draw(st.integers(0, 14))] = draw(st.sampled_from([["lat", 0.0], ["lat", 91.0], ["lon", 0.0], ["lon", -200.0], ["lag", 1500.0], ["frac", 0.5], ["date", [0, 1980]], ["date", [1, 13]]]))
        f["gps"]["bad"] = [[j] + b for j, b in bad.items()]
        f["gps"]["n"] += 3
    if draw(st.integers(0, 2)) == 0 and len(spec["files"]) > 1:       # some files lack the GPS to be converted
        for j in draw(st.sets(st.integers(0, len(spec["files"]) - 1), min_size=1, max_size=len(spec["files"]) - 1)):
            g = spec["files"][j]["gps"]
            g["n"], g["bad"] = draw(st.integers(1, 8)), []
            spec["files"][j]["refused"] = True
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        runs.append({"bd": draw(st.sampled_from([1, 1, 0.25, 1 / 12])), "gfile": draw(st.sampled_from(["", "", "", "mygps.csv"])), "mfile": draw(st.sampled_from(["", "", "", "mymeta.csv"])),
                     "dir": draw(st.sampled_from(["", "sub/"]))})
    pre = draw(st.lists(st.tuples(st.sampled_from(["gps", "metadata"]), st.sampled_from([0, 1, 2, 3, 10])), max_size=4))
    return {"spec": spec, "runs": runs, "pre": pre, "rate": draw(st.sampled_from([1, 1, 2]))}


def judge_gps(path, Fs, what):
    d = pd.read_csv(path)
    check(list(d.columns) == ["year", "date", "lat", "lon", "t"], lambda: "%s: columns %s" % (what, list(d.columns)))
    first = min(F.t[0] for F in Fs)
    lo = np.ceil(first) - 1
    exp, opt = [], set()
    for F in Fs:
        for g in F.G:
            if valid_g(g):
                if F is Fs[0] and g_time(g) <= lo + 1.0001 and g_time(g) < np.ceil(first + 0.01):
                    opt.add(len(exp))        # before the default start time: may be left out
                exp.append(g)
    if len(d) != len(exp) and opt:
        exp = [g for i, g in enumerate(exp) if i not in opt]
    check(len(d) == len(exp), lambda: "%s: %d rows, %d valid fixes recorded" % (what, len(d), len(exp)))
    for i, g in enumerate(exp):
        tt = U(g_time(g))
        r = d.iloc[i]
        check(abs(U(r["t"]) - tt) < 1e-6, lambda: "%s: row %d is at %s, fix at %s" % (what, i, r["t"], tt))
        check(r["year"] == tt.year and abs(r["date"] - (tt.julday + (float(tt) % 86400) / 86400)) < 2e-6, lambda: "%s: row %d date %r %r, fix at %s" % (what, i, r["year"], r["date"], tt))
        check(abs(r["lat"] - g["lat"]) < 1e-7 and abs(r["lon"] - g["lon"]) < 1e-7, lambda: "%s: row %d position differs" % (what, i))
    return len(exp)


def judge_meta(path, Fs, what):
    d = pd.read_csv(path)
    v08 = Fs[0].version == "0.8"
    cols = M_COLS_08 if v08 else M_COLS
    check(list(d.columns)[0] == "millis" and list(d.columns)[-1] == "t" and all(c in d.columns for c in cols), lambda: "%s: columns %s" % (what, list(d.columns)))
    exp = [(F, m) for F in Fs for m in F.M]
    check(len(d) == len(exp), lambda: "%s: %d rows, %d state-of-health lines recorded" % (what, len(d), len(exp)))
    n = 0
    for i, (F, m) in enumerate(exp):
        r = d.iloc[i]
        for c, x in zip(cols, m[1:]):
            check(abs(float(r[c]) - x) < 1e-6, lambda: "%s: row %d %s is %r, recorded %r" % (what, i, c, r[c], x))
        tm = float(rawgen.true_time(F.spec, m[0]))
        if F.t[0] + 0.02 < tm < F.t[-1] - 0.02:
            n += 1
            check(isinstance(r["t"], str) or np.isfinite(r["t"]), lambda: "%s: row %d has no time" % (what, i))
            got = float(U(r["t"])) if isinstance(r["t"], str) else float(r["t"])
            check(abs(got - tm) < 0.011 + 0.004, lambda: "%s: row %d is at %r, recorded at %r" % (what, i, got, tm))
    return n


def f_tables(c):
    spec = c["spec"]
    Fs = rawgen.build(spec)
    for F in Fs:
        F.spec = spec
        rawgen.write(F, "raw")
    sn = spec["sn"]
    Fs = [F for F, f in zip(Fs, spec["files"]) if not f.get("refused")]
    cov.label("some files refused", len(Fs) < len(spec["files"]))
    for kind, n in c["pre"]:
        os.makedirs("T/" + ("gps" if kind == "gps" else "md"), exist_ok=True)
        with open("T/%s/%s%s_%03d.txt" % ("gps" if kind == "gps" else "md", sn, kind, n), "w") as f:
            f.write("earlier %s %d\n" % (kind, n))
    cov.nontrivial(len(c["runs"]) > 1 or bool(c["pre"]) or len(Fs) > 1)
    cov.label("existing tables", bool(c["pre"])); cov.label("repeated", len(c["runs"]) > 1); cov.label("explicit names", any(r["gfile"] or r["mfile"] for r in c["runs"]))
    os.makedirs("T", exist_ok=True)
    for q, r in enumerate(c["runs"]):
        before = conv.digest("T")
        gp, mp = "T/" + r["dir"] + "gps", "T/" + r["dir"] + "md"
        kw = {}
        if r["gfile"]:
            kw["gpsfile"] = "X%d%s" % (q, r["gfile"])
        if r["mfile"]:
            kw["metadatafile"] = "X%d%s" % (q, r["mfile"])
        exist = set(os.listdir(gp) if os.path.isdir(gp) else []), set(os.listdir(mp) if os.path.isdir(mp) else [])
        want = []
        for kind, have in zip(("gps", "metadata"), exist):
            k = 0
            while "%s%s_%03d.txt" % (sn, kind, k) in have:
                k += 1
            want.append("%s%s_%03d.txt" % (sn, kind, k))
        gemlog.convert("raw", "out%d" % q, metadatapath=mp, gpspath=gp, SN=sn, blockdays=r["bd"], **kw)
        after = conv.digest("T")
        for f, h in before.items():
            check(after.get(f) == h, lambda: "run %d changed the earlier table %s" % (q, f))
        new = set(after) - set(before)
        exp = set()
        if not r["gfile"]:
            exp.add(os.path.relpath(os.path.join(gp, want[0]), "T"))
        if not r["mfile"]:
            exp.add(os.path.relpath(os.path.join(mp, want[1]), "T"))
        check(new == exp, lambda: "run %d wrote tables %s, expected %s" % (q, sorted(new), sorted(exp)))
        judge_gps(kw.get("gpsfile") or os.path.join(gp, want[0]), Fs, "run %d (blockdays %.3g) GPS table" % (q, r["bd"]))
        n = judge_meta(kw.get("metadatafile") or os.path.join(mp, want[1]), Fs, "run %d (blockdays %.3g) state-of-health table" % (q, r["bd"]))
        cov.label("state rows", n > 5)


main("C09", [
    Sub("tables", s_tables(), f_tables, 500, 9000, rule="recording of 1-4 files converted one to three times into folders that may hold earlier tables; non-trivial: several files, several runs or earlier tables"),
], ["fixes up to one second before the first whole second may be left out; state-of-health rows outside the sampled time have no claimed time"])
