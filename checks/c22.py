import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import base64, warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from runner import Sub, check, cov, main
import huddle
import gemlog.huddle_test
ht = sys.modules["gemlog.huddle_test"]
import matplotlib.figure
warnings.simplefilter("ignore")
PNG = base64.b64decode("iVBORw0KGgoAAAANSUhEUgAAAAEAAAABCAYAAAAfFcSJAAAADUlEQVR42mNk+M9QDwADhgGAWjR9awAAAABJRU5ErkJggg==")
# drawing the figures in full takes most of the time: write a small picture instead
matplotlib.figure.Figure.savefig = lambda self, fname, *a, **k: open(fname, "wb").write(PNG)
SNS = ["059", "061", "182", "199", "210"]


@st.composite
def s_logger(draw, sn, dt, secs, plain, phase=31.77):
    L = {"sn": sn, "seed": draw(st.integers(0, 9999)), "dt": dt, "drift": draw(st.sampled_from([0, 0, 0, 0, 0, 0, 0, 1e-5, -1e-5, 2e-5])) if not plain else 0, "start": 0, "phase": phase,
         "secs": secs, "trend": 0, "toff": 0, "A2": {"flat": 0.1, "at": None}, "A3": {"flat": 0.2, "at": None}, "fifo": {"part": 0, "v": 1}, "over": 0, "gps0": draw(st.integers(0, 10)),
         "gps": [[draw(st.sampled_from([300, 600])), 300]] + draw(st.lists(st.tuples(st.sampled_from([30, 30, 50, 100, 170]), st.sampled_from([130, 300, 600])).map(list), max_size=6)), "stack": {}, "ext": {}, "bump": None}
    if plain:
        return L
    for what in draw(st.lists(st.sampled_from(["batt", "batt", "temp", "temp", "A2", "A3", "fifo", "over", "stack", "gps", "gps"]), max_size=4)):
        fr = draw(st.floats(0.02, 0.98))
        if what == "batt":
            L["ext"]["batt"] = [draw(st.sampled_from([1.0, 1.69, 1.7, 1.71, 2.1, 2.19, 2.21, 2.3, 14.4, 14.5, 14.51, 14.9, 15.0, 15.01, 20.0])), fr]
        elif what == "temp":
            L["ext"]["temp"] = [draw(st.sampled_from([-60.0, -20.5, -20.01, -20.0, -19.9, -15.1, -15.0, -14.9, 54.9, 55.0, 55.1, 59.9, 60.0, 60.01, 61.0, 90.0])), fr]
        elif what in ("A2", "A3"):
            L[what] = {"flat": draw(st.sampled_from([0.0, 0.5, 0.9, 0.945, 0.955, 0.97, 0.985, 0.989, 0.991, 0.995, 1.0])), "at": draw(st.sampled_from([None, None, 0.0, 3.1, 3.11, -0.01, 3.05, 5.0]))}
        elif what == "fifo":
            L["fifo"] = {"part": draw(st.sampled_from([0.001, 0.005, 0.009, 0.011, 0.02, 0.3])), "v": draw(st.sampled_from([5, 6, 20, 50, 51, 75]))}
        elif what == "over":
            L["over"] = draw(st.sampled_from([0, 1, 1, 7]))
        elif what == "stack":
            L["stack"] = {draw(st.sampled_from(["unusedStack1", "unusedStackIdle"])): draw(st.sampled_from([0, 10, 29, 30, 31, 40]))}
        elif what == "gps":
            L["gps"].append([draw(st.sampled_from([60, 150, 176, 177, 182, 185, 250, 500])), 300])
    return L


@st.composite
def s_huddle(draw):
    dt = draw(st.sampled_from([1.0] * 9 + [10.0]))
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    group = draw(st.sampled_from([None, None, "times", "temp", "temp"]))
    secs = draw(st.sampled_from([2700, 3600, 4500]))
    sns = draw(st.permutations(SNS))[:n + 1]
    plain = draw(st.booleans()) if group else False
    trend = draw(st.sampled_from([0, 0, 0.15, -0.3])) if group else 0
    LL = []
    phase = draw(st.sampled_from([20.3, 31.77, 38.0]))
    for k in range(n):
        L = draw(s_logger(sns[k], dt, secs, plain, phase if k == 0 or draw(st.booleans()) else draw(st.sampled_from([20.3, 31.77, 38.0]))))
        L["trend"] = trend
        if group == "times":
            d = draw(st.sampled_from([0, 0, 0, 240, 1080, 1140, 1260, 1500]))
            e = draw(st.sampled_from([0, 0, 0, 240, 1080, 1140, 1260, 1500]))
            if secs - d - e > 1260 + 300:
                L["start"], L["secs"] = d, secs - d - e
        if group == "temp":
            L["toff"] = draw(st.sampled_from([0, 0, 0, 1.0, -1.0, 1.4, -1.4, 1.6, -1.6, 3.0, -8.0]))
            L["start"] = draw(st.sampled_from([0] * 9 + [300]))
            L["secs"] -= L["start"]
            if draw(st.integers(0, 3)) == 0:
                a = draw(st.integers(400, secs - 1000))
                L["bump"] = [a, a + draw(st.sampled_from([130, 400])), draw(st.sampled_from([1.0, 1.3, 2.0, -4.0, 6.0]))]
        LL.append(L)
    if group == "temp" or group == "times":
        LL[0]["start"], LL[0]["secs"] = 0, secs  # the figures need the first logger's times
    x = draw(st.sampled_from(["none", "none", "exclude", "list", "both"]))
    return {"L": LL, "x": x, "extra": sns[n], "report": draw(st.integers(0, 4)) == 0, "nan": draw(st.integers(0, 11)) == 0}


COLS = ["Battery min", "Battery max", "Temperature min", "Temperature max", "A2 flat", "A2 range", "A3 flat", "A3 range", "Unusual FIFO use", "Excessive FIFO use", "Max overruns", "Unused stack", "GPS run time"]


def expected(d, runs):
    """Statuses and statistics of one logger from its table."""
    S, Q = {}, {}
    lo, hi = d.batt.min(), d.batt.max()
    S["Battery min"] = "ERROR" if lo < 1.7 else "WARNING" if lo < 2.2 else "OKAY"
    S["Battery max"] = "ERROR" if hi > 15 else "WARNING" if hi > 14.5 else "OKAY"
    Q["Battery min"], Q["Battery max"] = lo, hi
    lo, hi = d.temp.min(), d.temp.max()
    S["Temperature min"] = "ERROR" if lo < -20 else "WARNING" if lo < -15 else "OKAY"
    S["Temperature max"] = "ERROR" if hi > 60 else "WARNING" if hi > 55 else "OKAY"
    Q["Temperature min"], Q["Temperature max"], Q["Temperature average"] = lo, hi, d.temp.mean()
    for k in ("A2", "A3"):
        v = d[k].values
        f = np.mean(v[1:] == v[:-1])
        S[k + " flat"] = "ERROR" if f > 0.99 else "WARNING" if f > 0.95 else "OKAY"
        S[k + " range"] = "ERROR" if v.min() < 0 or v.max() > 3.1 else "OKAY"
        Q[k + " flat"] = f
    f = np.mean(d.maxFifoUsed > 5)
    S["Unusual FIFO use"] = "NOTE" if f > 0.01 else "OKAY"
    S["Excessive FIFO use"] = "NOTE" if d.maxFifoUsed.max() > 50 else "OKAY"
    Q["fifo over limit"] = f
    S["Max overruns"] = "WARNING" if d.maxOverruns.max() > 0 else "OKAY"
    Q["Max overruns"] = d.maxOverruns.max()
    S["Unused stack"] = "WARNING" if min(d.unusedStack1.min(), d.unusedStackIdle.min()) <= 30 else "OKAY"
    t = d.t.values
    ln = [t[b] - t[a - 1] for a, b in runs]
    S["GPS run time"] = "WARNING" if any(x > 180 for x in ln) else "OKAY"
    Q["Mean GPS run time"] = np.mean(ln) if ln else np.nan
    Q["GPS on-time ratio"] = min(180, 900 * d.gpsOnFlag.mean())
    return S, Q, ln


def temp_flags(tabs, margin, off=0):
    """Loggers more than the margin from the median once per minute."""
    t0 = min(d.t.min() for d in tabs.values()); t1 = max(d.t.max() for d in tabs.values())
    out = set()
    for tm in np.arange(t0 // 60 * 60 + off, t1 // 60 * 60 - 600, 60):
        v = {}
        for sn, d in tabs.items():
            d = d[d.t.notna()]
            i = np.abs(d.t.values - tm).argmin()
            if d.t.values[0] <= tm <= d.t.values[-1]:
                v[sn] = d.temp.values[i]
        if v:
            m = np.median(list(v.values()))
            out |= {sn for sn, x in v.items() if abs(x - m) > margin}
    return out


A_INT = "sampling interval just under one second"
B_TEMP = "temperatures compared at different times"
R_NONE = "results not returned"
LONG = "long options refused"


class Observed:
    """What the test prints: its two tables and its messages."""

    def __enter__(self):
        self.msgs, self.tables, self.exc = {"error": [], "warning": [], "note": []}, [], None
        self.old = ht._metadata_status
        status = lambda kind, message, *a, **k: (self.msgs[kind].append(message), self.old(kind, message, *a, **k))[1]
        ht._metadata_status = status
        ht.print = lambda *a, **k: self.tables.extend(x for x in a if isinstance(x, pd.DataFrame))
        return self

    def __exit__(self, *e):
        ht._metadata_status = self.old
        del ht.print
        if e[0] is not None and issubclass(e[0], Exception) and len(self.tables) == 2:
            self.exc = e[1]
            return True

    def results(self, r):
        if isinstance(r, dict):
            return r
        return {"errors": self.msgs["error"], "warnings": self.msgs["warning"], "results": self.tables[0], "stats": self.tables[1]}


def f_huddle(c):
    loggers = [dict(L) for L in c["L"]]
    for L in loggers:  # values outside the usual range sit away from whole minutes and from the seconds at which loggers start
        n = int(L["secs"] // L["dt"])
        for k, v in L["ext"].items():
            i = int(v[1] * (n - 1))
            while not 4 <= (L["start"] + L["phase"] + i * L["dt"]) % 60 <= 14:
                i = (i + 1) % n
            v[1] = (i + 0.5) / (n - 1) if i < n - 1 else 1.0
    extra = dict(loggers[-1], sn=c["extra"], broken=True)
    tabs = huddle.write("p", loggers + ([extra] if c["x"] != "none" else []))
    tabs = {k: v for k, v in tabs.items() if k != c["extra"]}
    sns = sorted(tabs)
    if c["nan"]:  # a missing time
        for sn in sns:
            d = tabs[sn][0]
            off = np.where(d.gpsOnFlag.values == 0)[0]
            w = [i for i in off[15:] if i + 2 < len(d) and i > 12 and d.gpsOnFlag.values[i - 2:i + 3].sum() == 0]
            if w:
                d.loc[w[len(w) // 2], "t"] = np.nan
                d.to_csv("p/metadata/%smetadata_000.txt" % sn, index=False)
    kw = {"generate_report": c["report"]}
    if c["x"] in ("list", "both"):
        kw["SN_list"] = list(sns) + ([c["extra"]] if c["x"] == "both" else [])
    if c["x"] in ("exclude", "both"):
        kw["SN_to_exclude"] = [c["extra"], "777"]
    r = None
    with Observed() as o:
        r = ht.verify_huddle_test("p", **kw)
    r = o.results(r)
    res, q = r["results"], r["stats"]
    check(sorted(res.index) == sns and sorted(q.index) == sns, lambda: "results for %s, loggers are %s" % (sorted(res.index), sns))
    mention = lambda sn, msgs: [m for m in msgs if re.search(r"(?<![\d.])%s(?![\d.])" % sn, m)]
    ne = nw = 0
    own = {}
    for sn in sns:
        d, runs = tabs[sn]
        S, Q, ln = expected(d, runs)
        for k, v in S.items():
            if k == "GPS run time" and any(abs(x - 180) < 0.05 for x in ln):
                v = res.loc[sn, k]
            check(k in res.columns and str(res.loc[sn, k]) == v, lambda: "%s of logger %s is %s, expected %s" % (k, sn, res.loc[sn, k] if k in res.columns else None, v))
            cov.label("%s %s" % (k, v), v != "OKAY")
        for k, v in Q.items():
            g = q.loc[sn, k]
            check((np.isnan(v) and np.isnan(g)) or abs(g - v) <= 1e-6 * max(1, abs(v)), lambda: "statistic %s of logger %s is %r, the data give %r" % (k, sn, g, v))
        own[sn] = [sum(v == s for v in res.loc[sn, COLS]) for s in ("ERROR", "WARNING")]
        ne += own[sn][0]; nw += own[sn][1]
    # group comparisons
    uneven = len({L["start"] + L["phase"] for L in loggers}) > 1 or len({L["secs"] for L in loggers}) > 1 or any(L["dt"] != 1 for L in loggers) or c["nan"]
    sig = B_TEMP if uneven or any(L["drift"] for L in loggers) else None
    if o.exc is not None:
        short = any(np.nanmedian(np.diff(tabs[sn][0].t)) < 1 for sn in sns)
        check(False, lambda: "no comparison of the loggers: %r" % o.exc, A_INT if short and isinstance(o.exc, ZeroDivisionError) else sig)
    t = {sn: (tabs[sn][0].t.min(), tabs[sn][0].t.max()) for sn in sns}
    late = [sn for sn in sns if t[sn][0] > min(x[0] for x in t.values()) + 1200]
    early = [sn for sn in sns if t[sn][1] < max(x[1] for x in t.values()) - 1200]
    T = {sn: tabs[sn][0] for sn in sns}
    # which second of the minute is compared does not matter
    offs = [0] + sorted({L["phase"] + L["start"] % 60 for L in loggers})
    a = set().union(*[temp_flags(T, 1.45, x) for x in offs])
    b = set.intersection(*[temp_flags(T, 1.55, x) for x in offs])
    cov.label("late start", bool(late)); cov.label("early end", bool(early)); cov.label("temperature departs", bool(b)); cov.label("one logger", len(sns) == 1); cov.label("excluded logger", c["x"] != "none")
    cov.nontrivial(ne + nw + len(late) + len(early) + len(b) > 0)
    base = ne + len(late) + len(early)
    if b:
        check(len(r["errors"]) > base, lambda: "logger %s departs from the others' temperature but there is no error for it" % sorted(b), sig)
    elif not a:
        check(len(r["errors"]) == base, lambda: "%d errors are reported, expected %d: %s" % (len(r["errors"]), base, r["errors"][:6]), sig if len(r["errors"]) > base else None)
    for sn in sns:
        m = len(mention(sn, r["errors"]))
        e = own[sn][0] + (sn in late) + (sn in early)
        if sn in b:
            check(m > e, lambda: "no error says that logger %s departs from the others' temperature" % sn, sig)
        elif sn not in a:
            check(m == e, lambda: "%d errors for logger %s (start late: %s, end early: %s, own errors %d): %s" % (m, sn, sn in late, sn in early, own[sn][0], mention(sn, r["errors"])[:6]), sig if m > e else None)
    check(len(r["warnings"]) == nw + (len(sns) == 1), lambda: "%d warnings, expected %d: %s" % (len(r["warnings"]), nw, r["warnings"][:6]))
    check(not mention(c["extra"], r["errors"] + r["warnings"]), "an excluded logger is reported")
    pdf = [x for x in os.listdir("p/reports")] if os.path.isdir("p/reports") else []
    check(len(pdf) == (1 if c["report"] else 0), lambda: "reports: %s" % pdf)


def f_returns(c):
    huddle.write("p", c["L"])
    r = ht.verify_huddle_test("p", generate_report=False)
    cov.nontrivial()
    check(isinstance(r, dict) and {"errors", "warnings", "stats", "results"} <= set(r), lambda: "the documented results are not returned: %r" % (r,), R_NONE)


# ---------------------------------------------------------------- time lags
@st.composite
def s_lags(draw):
    n = draw(st.integers(2, 4))
    sns = draw(st.permutations(SNS))[:n + 1]
    secs = draw(st.sampled_from([2700, 3600]))
    kind = draw(st.sampled_from(["zero", "zero", "shift", "shift", "part", "excluded"]))
    reg = [[secs, "zero"]]
    sign = draw(st.sampled_from([1, -1]))  # lags up to 10 samples are searched
    if kind == "shift":
        reg = [[secs, "shift"]]
    elif kind == "part":
        reg = [[draw(st.integers(300, 1600)), draw(st.sampled_from(["zero", "zero", "shift", "shift", "noise"]))] for _ in range(draw(st.integers(2, 5)))]
    return {"L": [draw(s_logger(sn, 1.0, secs, True)) for sn in sns], "excluded": draw(st.booleans()) or kind == "excluded", "how": draw(st.sampled_from(["exclude", "list"])), "reg": reg, "shift": [sign * draw(st.integers(0, 9)) for _ in sns], "seed": draw(st.integers(0, 10 ** 6)), "fs": draw(st.sampled_from([5.0, 10.0])), "report": draw(st.integers(0, 3)) == 0, "only": draw(st.booleans())}


def f_lags(c):
    """Loggers recording one signal, some parts of it late by whole samples or not at all."""
    import glob
    import obspy
    loggers = c["L"]
    if not c["excluded"]:
        loggers = loggers[:-1]
    out = huddle.write("p", [dict(L, drift=0) for L in loggers])
    for f in glob.glob("p/mseed/*"):
        os.unlink(f)
    sns = [L["sn"] for L in loggers]
    take = sns[:-1] if c["excluded"] else sns
    shift = dict(zip(sns, c["shift"]))
    if c["only"]:  # a single logger is late
        shift = {sn: (shift[sn] or 3) if k == 0 else 0 for k, sn in enumerate(sns)}
    if c["excluded"]:
        shift[sns[-1]] = c["shift"][-1] or 7
    late = len({shift[sn] for sn in take}) > 1
    start = obspy.UTCDateTime(round(out[sns[0]][0].t.iloc[0]))
    N = int(loggers[0]["secs"] * c["fs"])
    rng = np.random.default_rng(c["seed"])
    s = rng.standard_normal(N + 40)
    what, k = np.full(N, "", dtype="U8"), 0
    for n, kind in c["reg"]:
        what[int(k):int(k + n * c["fs"])] = kind
        k += n * c["fs"]
    what[int(k):] = c["reg"][-1][1]
    for sn in sns:
        y = s[20:20 + N].copy()
        w = what == "shift"
        if c["excluded"] and sn == sns[-1]:
            w = np.ones(N, bool)
        y[w] = s[20 - shift[sn]:20 - shift[sn] + N][w]
        w = what == "noise"
        y[w] = rng.standard_normal(w.sum())
        tr = obspy.Trace(np.round(1000 * (y + 0.03 * rng.standard_normal(N))).astype("int32"), {"station": sn, "channel": "HDF", "starttime": start, "sampling_rate": c["fs"]})
        tr.write("p/mseed/%s..%s..HDF.mseed" % (start.strftime("%Y-%m-%dT%H_%M_%S"), sn), format="MSEED")
    kw = {"run_crosscorrelation_checks": True, "generate_report": c["report"]}
    if c["excluded"]:
        kw.update({"SN_list": take} if c["how"] == "list" else {"SN_to_exclude": [sns[-1]]})
    said = []
    with Observed():
        p = ht.print
        ht.print = lambda *a, **k: (said.extend(x for x in a if isinstance(x, str)), p(*a, **k))[1]
        ht.verify_huddle_test("p", **kw)
    bad = [x for x in said if "lag" in x.lower() and "nonzero" in x.lower()]
    good = [x for x in said if "lag" in x.lower() and "zero" in x.lower() and x not in bad]
    hour = obspy.UTCDateTime(start.year, start.month, start.day, start.hour)
    z = sh = mixed = 0
    for k in range(1, 100):
        a, b = [int((k * 100 + d - (start - hour)) * c["fs"]) for d in (0, 100)]
        if a < N and b > 0:
            kinds = set(what[max(a - 10, 0):b + 10])
            kinds = {"shift" if x == "shift" and late else "zero" if x == "shift" else x for x in kinds}
            if a < 0 or b > N or len(kinds) > 1:
                mixed += 1
            elif kinds == {"zero"}:
                z += 1
            elif kinds == {"shift"}:
                sh += 1
    if z + sh == 0:
        return
    lo, hi = z / (z + sh + mixed), (z + mixed) / (z + sh + mixed)
    cov.nontrivial(lo >= 0.81 or hi < 0.79); cov.label("late logger", hi < 0.79); cov.label("noise as well", "noise" in what); cov.label("late logger excluded", c["excluded"] and lo >= 0.81); cov.label("late for a short time", lo >= 0.81 and sh > 0)
    if hi < 0.79 and len(take) > 1:
        check(bad and not good, lambda: "loggers are late by %s samples in %d of %d windows but the test says %s" % ([shift[sn] for sn in take], sh, z + sh, good))
    if lo >= 0.81 and len(take) > 1:
        check(good and not bad, lambda: "lags are zero in %d of %d windows but the test says %s" % (z, z + sh + mixed, bad))


# ---------------------------------------------------------------- the command
@st.composite
def s_cli(draw):
    return {"i": draw(st.sampled_from([None, "p", "some/folder"])), "s": draw(st.one_of(st.none(), st.lists(st.sampled_from(SNS), min_size=1, max_size=3, unique=True))), "x": draw(st.one_of(st.none(), st.lists(st.sampled_from(SNS), min_size=1, max_size=3, unique=True))), "long": draw(st.lists(st.booleans(), min_size=3, max_size=3)), "eq": draw(st.booleans())}


def f_cli(c):
    args = []
    for k, (o, l) in enumerate((("-i", "--inputdir"), ("-s", "--serialnumbers"), ("-x", "--exclude_serialnumbers"))):
        v = c[o[1]]
        if v is None:
            continue
        v = v if isinstance(v, str) else ",".join(v)
        args += [l + "=" + v] if c["long"][k] and c["eq"] else [l if c["long"][k] else o, v]
    got = []
    old = ht.verify_huddle_test
    ht.verify_huddle_test = lambda path, SN_list=[], SN_to_exclude=[], *a, **k: got.append((path, list(SN_list), list(SN_to_exclude)))
    try:
        ht.main(args)
    except SystemExit:
        check(False, lambda: "%s is refused" % args, LONG if any(a.startswith(("--serialnumbers", "--exclude_serialnumbers")) for a in args) else None)
    finally:
        ht.verify_huddle_test = old
    cov.nontrivial(len(args) > 0); cov.label("long option", any(a.startswith("--") for a in args))
    check(got == [(c["i"] or ".", c["s"] or [], c["x"] or [])], lambda: "%s runs the test with %s" % (args, got))


main("C22", [
    Sub("huddle", s_huddle(), f_huddle, 160, 3500, rule="synthetic state-of-health tables and waveforms of 1-4 loggers with values around the limits; non-trivial: at least one limit is breached"),
    Sub("returns", s_logger("059", 1.0, 2700, True).map(lambda L: {"L": [dict(L, drift=0)]}), f_returns, 2, 10, rule="one logger without problems"),
    Sub("lags", s_lags(), f_lags, 60, 1200, rule="2-4 loggers recording one signal, some parts of it late by up to 9 samples or not at all, an excluded logger that is late; non-trivial: the share of windows without lag is clear of 80%"),
    Sub("command", s_cli(), f_cli, 200, 2000, rule="short and long options of the command; non-trivial: at least one option"),
], ["figures are not drawn to file (replaced by one pixel)", "recordings longer than 35 minutes that overlap; the first logger starts first and ends last or within the limits of the others", "values within 0.05 degrees of the group temperature limit are not claimed", "shares of windows without lag that may lie on either side of 80% are not claimed"])
