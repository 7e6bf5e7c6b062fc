import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
from hypothesis import strategies as st
import rawgen, gens
from oracles import valid_g, g_time
from runner import Sub, check, cov, main
ALL = ("0.8", "0.85", "0.85C", "0.9", "0.91", "1.10")


@st.composite
def s_header(draw):
    wrong = draw(st.integers(0, 2)) == 0
    spec = draw(gens.timing_spec(ALL, nfiles=(1, 2), secs=(70, 100), every=(1,)) if wrong else gens.timing_spec(ALL, nfiles=(1, 5), secs=(16, 36)))
    spec["adc_range"] = draw(st.sampled_from([0, 0, 1]))
    spec["cfg"] = draw(st.sampled_from([None, [0, 15, 20], [2, 30, 20], [1, 15, 40], [1, 120, 20]]))
    spec["led"], spec["ser"] = draw(st.sampled_from([[0, 0], [1, 0], [0, 1], [12, 0]]))
    refuse = draw(st.integers(0, 2)) == 0
    for i, f in enumerate(spec["files"]):
        f["gps"]["n"] += 3
        n = f["gps"]["n"]
        bad = {}
        for _ in range(draw(st.integers(0, 2))):
            bad[draw(st.integers(0, n - 1))] = draw(st.sampled_from([["lat", 0.0], ["lat", 91.0], ["lon", 0.0], ["lag", 1500.0], ["frac", 0.5], ["date", [1, 13]], ["elat", 10.0], ["elon", 20.0]]))
        if wrong:
            bad[draw(st.integers(0, n - 7))] = ["time", draw(st.sampled_from([5.0, -3.0, 3600.0]))]
        f["gps"]["bad"] = [[j] + b for j, b in sorted(bad.items())]
        # loggers get moved between files
        f["move"] = draw(st.sampled_from([0, 0, 0, 1e-3, -0.4]))
        # a state-of-health line may be the last one of a file
        f["tail"] = draw(st.sampled_from([0, 0, 3, 400, 900]))
        f["kind"] = draw(st.sampled_from(["good", "nogps", "few", "cut"])) if refuse and i else "good"
    return {"spec": spec, "swap": refuse and draw(st.booleans()), "force": not wrong and draw(st.integers(0, 4)) == 0, "dbg": draw(st.booleans())}


def f_header(c):
    spec = c["spec"]
    if c["swap"]:
        fs = spec["files"]
        fs[0]["kind"], fs[-1]["kind"] = fs[-1]["kind"], fs[0]["kind"]
    for f in spec["files"]:
        if f["kind"] == "few":
            f["gps"]["n"], f["gps"]["bad"] = 5, []
    Fs = rawgen.build(spec)
    v = spec["version"]
    hascfg = v in ("0.9", "0.91", "1.10")
    cfg = spec["cfg"] or [1, 15, 20]
    want_cfg = dict(zip(("gps_mode", "gps_cycle", "gps_quota", "adc_range", "led_shutoff", "serial_output"), cfg + [spec["adc_range"], spec["led"], spec["ser"]] if hascfg else [1, 15, 20, 0, 0, 0]))
    for F, f in zip(Fs, spec["files"]):
        if hascfg:
            k = [i for i, l in enumerate(F.header) if l.startswith("C,")]
            check(len(k) == 1, "harness: header")
            F.header[k[0]] = "C,%d,%d,%d,%d,%d,%d%s" % (cfg[0], cfg[1], cfg[2], spec["adc_range"], spec["led"], spec["ser"], spec.get("eol", "\n"))
        if f["move"] and f["kind"] != "nogps":
            for g in F.G:
                if -80 < g["lat"] + f["move"] < 80 and g["lat"] != 0 and abs(g["lat"]) < 90:
                    new = round(g["lat"] + f["move"], 5)
                    i = [j for j, l in enumerate(F.lines) if F.kinds[j] == "G"][F.G.index(g)]
                    p = F.lines[i].rstrip("\r\n").split(",")
                    end = F.lines[i][len(F.lines[i].rstrip("\r\n")):]
                    p[9] = "%.5f" % new
                    F.lines[i] = ",".join(p) + end
                    g["lat"] = new
        if f["tail"] and F.M:
            last = [l for l, k in zip(F.lines, F.kinds) if k == "M"][-1].split(",")
            last[1] = "%d" % ((F.cnt[-1] + f["tail"] + spec.get("ms0", 0)) % rawgen.rollover(v))
            F.lines.append(",".join(last))
            F.kinds.append("M")
            F.M.append(F.M[-1])
        if f["kind"] == "nogps":
            F.lines = [l for l, k in zip(F.lines, F.kinds) if k != "G"]
            F.G = []
        rawgen.write(F, "raw")
        if f["kind"] == "cut":
            p = "raw/" + F.name
            lines = F.header + F.lines
            open(p, "w", newline="").write("".join(lines[:len(F.header) + 12]))
    good = [F for F, f in zip(Fs, spec["files"]) if f["kind"] == "good"]
    kw = {}
    if c["dbg"]:
        kw["return_debug_output"] = True
    force = c["force"] and all(f["kind"] == "good" for f in spec["files"])
    if force:
        kw["require_gps"] = False
    L = gemlog.read_gem("raw", SN=spec["sn"], **kw)
    h = L["header"].reset_index(drop=True)
    cov.nontrivial()
    cov.label(v); cov.label("refused files", len(good) < len(Fs)); cov.label("moved", any(f["move"] for f in spec["files"])); cov.label("not requiring GPS", force); cov.label("wrong fix", any(b[1] == "time" for f in spec["files"] for b in f["gps"]["bad"]))
    check(("debug_output" in L) == c["dbg"], "debug output")
    check([os.path.basename(x) for x in h.file] == sorted(F.name for F in Fs), lambda: "files listed: %s, in the folder: %s" % (list(h.file), sorted(F.name for F in Fs)))
    nd = 0
    for i, (F, f) in enumerate(zip(Fs, spec["files"])):
        r = h.iloc[i]
        w = "%s (%s)" % (F.name, v)
        for k, x in want_cfg.items():
            check(int(r[k]) == x, lambda: "%s: setting %s is %r, the file says %r" % (w, k, r[k], x))
        check(str(r["file_format_version"]) == v, lambda: "%s: format version %r" % (w, r["file_format_version"]))
        check(r["bitweight_Pa"] > 0 and r["bitweight_V"] > 0, lambda: "%s: factors %r %r" % (w, r["bitweight_Pa"], r["bitweight_V"]))
        if f["kind"] != "good":
            check(r["num_data_pts"] == 0 and r["num_gps_pts"] == 0, lambda: "%s was refused but %r samples and %r fixes are counted" % (w, r["num_data_pts"], r["num_gps_pts"]))
            continue
        nd += 1
        V = [g for g in F.G if valid_g(g)]
        wrong = [b for b in f["gps"]["bad"] if b[1] == "time"]
        check(r["SN"] == F.sn, lambda: "%s: serial number %r" % (w, r["SN"]))
        check(r["num_data_pts"] == len(F.cnt), lambda: "%s: %r samples, %d recorded" % (w, r["num_data_pts"], len(F.cnt)))
        check(r["num_gps_pts"] == len(V), lambda: "%s: %r fixes, %d valid ones recorded" % (w, r["num_gps_pts"], len(V)))
        for k in ("lat", "lon"):
            m = float(np.median([g[k] for g in V]))
            check(abs(r[k] - m) < 1e-7, lambda: "%s: %s %r, median of the fixes %r" % (w, k, r[k], m))
        for k, tt in (("t1", F.t[0]), ("t2", F.t[-1])):
            check(abs(float(r[k]) - tt) < 0.011, lambda: "%s: %s is %.4f, true %.4f" % (w, k, float(r[k]), tt))
        check(abs((r["end_ms"] - r["start_ms"]) - (F.cnt[-1] - F.cnt[0])) < 1e-3, lambda: "%s: spans %r counts, recorded %r" % (w, r["end_ms"] - r["start_ms"], F.cnt[-1] - F.cnt[0]))
        if not wrong:
            check(r["num_gps_nonoutliers"] <= len(V) and r["num_gps_nonoutliers"] >= min(len(V), 10), lambda: "%s: %r of %d fixes used" % (w, r["num_gps_nonoutliers"], len(V)))
        else:
            check(10 <= r["num_gps_nonoutliers"] <= len(V) - len(wrong), lambda: "%s: %r of %d fixes used, %d wrong ones" % (w, r["num_gps_nonoutliers"], len(V), len(wrong)))
        check(r["drift_resid_std"] <= r["drift_resid_MAD"] + 1e-9 and 0 <= r["drift_resid_MAD"] < 0.0101, lambda: "%s: residuals %r, %r" % (w, r["drift_resid_std"], r["drift_resid_MAD"]))
        # the clock model maps counts to times
        shift = r["start_ms"] - (F.cnt[0] + rawgen.TCORR)
        poly = lambda x: r["drift_deg0"] + x * (r["drift_deg1"] + x * (r["drift_deg2"] + x * r["drift_deg3"]))
        res = np.array([g_time(g) - poly(g["ms"] + shift) for g in V])
        ok = np.abs(res) <= r["drift_resid_MAD"] + 2e-6
        check(ok.sum() >= r["num_gps_nonoutliers"], lambda: "%s: the clock model misses %d of %d fixes by more than its stated worst residual %r; %r used" % (w, (~ok).sum(), len(V), r["drift_resid_MAD"], r["num_gps_nonoutliers"]))
        x = np.array([F.cnt[0], F.cnt[len(F.cnt) // 2], F.cnt[-1]]) + rawgen.TCORR
        e = poly(x + shift) - np.array([F.t[0], F.t[len(F.cnt) // 2], F.t[-1]])
        check(np.abs(e).max() < 0.011, lambda: "%s: the clock model is off by %s s" % (w, e))
    check(len(L["gps"]) == sum(sum(map(valid_g, F.G)) for F in good), "GPS rows")
    check(len(L["metadata"]) == sum(len(F.M) for F in good), "state-of-health rows")
    check(nd == len(good) and len(L["problems"]) == len(Fs) - len(good), lambda: "problems: %s" % L["problems"])


main("C29", [
    Sub("header", s_header(), f_header, 500, 8000, rule="1-5 raw files of any format, settings, positions, refused files among them; every case reads files and is non-trivial"),
], ["the settings and the gain are the same in all files of a folder"])
