import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
from hypothesis import strategies as st
import rawgen, gens
from oracles import valid_g
from runner import Sub, check, cov, main
core = gemlog.core
from badgps import KINDS, REFUSED, gps_file


@st.composite
def s_one(draw):
    base = draw(gens.timing_spec(rawgen.VERSIONS, nfiles=(1, 1)))
    base["quad"] = 0
    kind = draw(st.sampled_from(KINDS + ["invalid"] * 6))
    base["files"] = [dict(draw(gps_file(kind, base["dt"])), num=base["files"][0]["num"])]
    return {"spec": base, "kind": kind}


def total(stream):
    return sum(tr.stats.npts for tr in stream) * 0.01


def kind_of(msg):
    m = msg.lower()
    return "step" if "discontinuity" in m else "no gps" if "no gps" in m else "inadequate" if ("insufficient" in m or "inadequate" in m) else "other"


def expected_duration(F):
    """Seconds of data, without the gaps over 25 ms."""
    d = np.diff(F.t)
    return d[d <= 0.025].sum()


def ends(n):
    return 0.05 * (n + 1)


def check_wave(stream, w, shift, tol, what):
    sl = sum(2 * np.pi * abs(a) * f for a, f, p in w["sines"])
    cv = 4 + sum(abs(a) * (2 * np.pi * f) ** 4 for a, f, p in w["sines"]) * 0.0125 ** 4
    for tr in stream:
        t = float(tr.stats.starttime) - shift + 0.01 * np.arange(tr.stats.npts)
        err = np.abs(tr.data - rawgen.wave(w, t))
        check(err.max() <= sl * tol + cv, lambda: "%s: at %.2f counts are %.1f off (time error over %.1f ms)" % (what, t[int(err.argmax())], err.max(), 1e3 * err.max() / max(sl, 1)))


def f_one(c):
    spec, kind = c["spec"], c["kind"]
    F = rawgen.build(spec)[0]
    p = rawgen.write(F, "raw")
    gv = [g for g in F.G if valid_g(g)]
    if kind in ("ok", "ok_edge") and (len(gv) < 11 or (gv[-1]["t"] - gv[0]["t"]) < 0.54 * (F.t[-1] - F.t[0])):
        return
    if kind.startswith("short") and (gv[-1]["t"] - gv[0]["t"] if kind == "short" else gv[-2]["t"] - gv[0]["t"]) > 0.45 * (F.t[-1] - F.t[0]):
        return
    cov.label(kind); cov.nontrivial()
    core_err = None
    try:
        L = gemlog.read_gem("raw", np.arange(10000), spec["sn"])
    except gemlog.CorruptRawFile as e:
        core_err = e
    if kind in ("ok", "ok_edge"):
        check(core_err is None, lambda: "a file with %d fixes over %.0f%% of its data was refused: %s" % (len(gv), 100 * (gv[-1]["t"] - gv[0]["t"]) / (F.t[-1] - F.t[0]), core_err))
        check(L["problems"] == [], lambda: "problems for a good file: %s" % L["problems"])
        check(abs(total(L["data"]) - expected_duration(F)) < ends(len(spec["files"][0]["gaps"])), lambda: "%.2f s of data from a file of %.2f s" % (total(L["data"]), expected_duration(F)))
    else:
        check(core_err is not None, lambda: "%s: file converted although its GPS is not adequate (%d valid fixes)" % (kind, len(gv)))
        with_several = core._read_several([p], **({"version": spec["version"]} if spec["version"] in ("0.8", "0.85") else {}))
        check(len(with_several["problems"]) == 1 and os.path.basename(p) in with_several["problems"][0], lambda: "%s: problems reported: %r" % (kind, with_several["problems"]))
        check(len(with_several["data"]) == 0, "refused file gave samples")
        got = kind_of(with_several["problems"][0])
        want = REFUSED[kind]
        if kind == "invalid":
            check(got in ("no gps", "inadequate", "other"), lambda: "invalid fixes reported as %s" % got)
        else:
            check(got == want, lambda: "%s: reported as '%s', expected '%s': %s" % (kind, got, want, with_several["problems"][0]))
    # on request the file is converted whatever its GPS
    L = gemlog.read_gem("raw", np.arange(10000), spec["sn"], require_gps=False)
    check(abs(total(L["data"]) - expected_duration(F)) < ends(len(spec["files"][0]["gaps"])), lambda: "%s, GPS not required: %.2f s of data from a file of %.2f s" % (kind, total(L["data"]), expected_duration(F)))
    w = spec["wave"]
    if kind in ("none", "invalid"):
        start = float(L["data"][0].stats.starttime)
        # unknown absolute time, nominal clock rate: the waveform up to one shift (found to within the grid)
        shift = start - F.t[0]
        check_wave(L["data"], w, shift, 0.012 + 1e-4 * (F.t[-1] - F.t[0]), kind + ", GPS not required")
    elif kind != "step" and kind != "short_out":
        check_wave(L["data"], w, 0, 0.004 + 1e-4 * (F.t[-1] - F.t[0]), kind + ", GPS not required")


@st.composite
def s_mix(draw):
    """Good files around one refused file."""
    base = draw(gens.timing_spec(rawgen.VERSIONS, nfiles=(1, 1)))
    k = draw(st.integers(2, 4))
    bad = draw(st.integers(0, k - 1))
    kind = draw(st.sampled_from(sorted(REFUSED)))
    num, fs = 0, []
    for i in range(k):
        f = draw(gps_file(kind if i == bad else "ok", base["dt"]))
        f["num"] = num
        if i:
            f["gap_before"] = draw(st.sampled_from([0, 0, 40, 5000, 100000]))
        num += draw(st.sampled_from([1, 1, 5]))
        fs.append(f)
    base["files"] = fs
    base["quad"] = 0
    return {"spec": base, "bad": bad, "kind": kind}


def f_mix(c):
    spec, bad, kind = c["spec"], c["bad"], c["kind"]
    Fs = rawgen.build(spec)
    for F in Fs:
        rawgen.write(F, "raw")
    cov.nontrivial(); cov.label(kind); cov.label("position %d" % bad)
    L = gemlog.read_gem("raw", np.arange(10000), spec["sn"])
    check(len(L["problems"]) == 1 and Fs[bad].name in L["problems"][0], lambda: "problems %r, expected one about %s" % (L["problems"], Fs[bad].name))
    check_wave(L["data"], spec["wave"], 0, 0.004, "files beside a refused one")
    good = [F for i, F in enumerate(Fs) if i != bad]
    want = sum(expected_duration(F) for F in good)
    ng = sum(len(f["gaps"]) for f in spec["files"])
    check(abs(total(L["data"]) - want) < 0.05 * (ng + len(Fs) + 1), lambda: "%.2f s of data, %.2f s in the good files" % (total(L["data"]), want))
    for F in good:
        tot = sum(max(0.0, min(float(tr.stats.endtime), F.t[-1]) - max(float(tr.stats.starttime), F.t[0])) for tr in L["data"])
        check(abs(tot - expected_duration(F)) < 0.06 * (len(F.cnt) and 3), lambda: "%s: %.2f s of %.2f s converted" % (F.name, tot, expected_duration(F)))
    # on request everything is converted
    L = gemlog.read_gem("raw", np.arange(10000), spec["sn"], require_gps=False)
    want = sum(expected_duration(F) for F in Fs)
    check(abs(total(L["data"]) - want) < 0.05 * (ng + len(Fs) + 1), lambda: "GPS not required: %.2f s of data, %.2f s in the files" % (total(L["data"]), want))
    check(L["problems"] == [], lambda: "GPS not required, problems: %s" % L["problems"])


main("C05", [
    Sub("one", s_one(), f_one, 800, 8000, rule="one file whose GPS coverage is clearly adequate or clearly not, ten kinds; all non-trivial"),
    Sub("mix", s_mix(), f_mix, 240, 4000, rule="2-4 files of which one is refused; all non-trivial"),
], ["GPS coverage is kept a few per cent away from the one-half boundary", "clock error within 60 ppm"])
