import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
import obspy
import pandas as pd
import scipy.signal
from hypothesis import strategies as st
from runner import Sub, check, cov, main
import gemlog.xcorr
xc = sys.modules["gemlog.xcorr"]
T0 = obspy.UTCDateTime("2020-03-01T00:00:00")


def tones(rng, fl, fh, n=80):
    """A band-limited signal as a function of time."""
    f = rng.uniform(fl, fh, n); a = rng.uniform(0.3, 1, n); ph = rng.uniform(0, 2 * np.pi, n)
    def s(t):
        y = np.zeros(len(t))
        for x, b, p in zip(f, a, ph):
            y += b * np.sin(2 * np.pi * x * t + p)
        return y
    return s


@st.composite
def s_base(draw, n=(2, 6)):
    fl = draw(st.sampled_from([1.0, 2.0, 5.0]))
    win = draw(st.sampled_from([4.0, 5.0, 8.0, 10.0])) * (2 if fl == 1.0 else 1)
    k = draw(st.integers(*n))
    ids = draw(st.lists(st.tuples(st.sampled_from(["", "NM", "XP"]), st.sampled_from(["A", "B", "077", "LADR1", "100"]), st.sampled_from(["", "00", "01"])), min_size=k, max_size=k, unique=True))
    return {"ids": [list(x) for x in ids], "fl": fl, "fh": draw(st.sampled_from([3, 4, 5])) * fl, "win": win, "nwin": draw(st.integers(3, 6)), "overlap": draw(st.sampled_from([0, 0, 0.25, 0.5])), "u": draw(st.sampled_from([1, 1, 2, 4])),
            "seed": draw(st.integers(0, 2 ** 31 - 1)), "how": draw(st.sampled_from(["files", "files", "direct", "terminal"])), "gain": draw(st.sampled_from([1.0, 1e-3, 500.0]))}


def run(c, data, how=None, **more):
    """data: {id: array at 100 Hz} -> DataFrame"""
    stream = obspy.Stream()
    for (net, sta, loc), y in data.items():
        tr = obspy.Trace(np.array(y, float))
        tr.stats.network, tr.stats.station, tr.stats.location, tr.stats.channel, tr.stats.delta, tr.stats.starttime = net, sta, loc, "HDF", 0.01, T0
        stream += tr
    kw = dict(fl=c["fl"], fh=c["fh"], win_length_sec=c["win"], overlap=c["overlap"], upsample_ratio=c["u"], quiet=True)
    how = how or c["how"]
    if how == "direct":
        a = dict(kw)
        if c["overlap"] == 0:
            a.pop("overlap")
        if c["u"] == 1:
            a.pop("upsample_ratio")
        stream.sort()
        return xc.xcorr_one_day(stream, a)
    names = []
    for i, tr in enumerate(stream):
        names.append("d%d.mseed" % i)
        tr.write(names[-1], format="MSEED")
    if how == "files":
        return xc.xcorr_all(names, **kw)
    xc.xcorr_all_terminal(names + ["-o", "out.csv", "-L", str(c["fl"]), "-H", str(c["fh"]), "-w", str(c["win"]), "-p", str(c["overlap"]), "-u", str(c["u"]), "-q"])
    d = pd.read_csv("out.csv")
    d["t_mid"] = [obspy.UTCDateTime(t) for t in d["t_mid"]]
    return d


def order(c):
    return sorted([tuple(x) for x in c["ids"]])


def pairs(c):
    o = [".".join(x) for x in order(c)]
    return [(o[i], o[(i + 1) % len(o)], i, (i + 1) % len(o)) for i in range(len(o))]


def inside(c, d):
    """Windows free of the filter's response to the abrupt start."""
    t = np.array([float(x - T0) for x in d["t_mid"]])
    return np.where(t - c["win"] / 2 > 3.0 / c["fl"] + 0.6)[0]


def flags(c, d):
    """The consistency flag and the mean coefficient follow from the lags and coefficients reported."""
    P = pairs(c)
    dt = 0.01 / c["u"]
    tot = sum(np.round(np.array(d["lag_%s_%s" % p[:2]], float) / dt) for p in P)
    r = np.mean([np.array(d["r_%s_%s" % p[:2]], float) for p in P], axis=0)
    got = np.array([str(x) == "True" for x in d["consistency"]])
    exp = np.abs(tot) <= len(P)
    bad = np.where(got != exp)[0]
    check(len(bad) == 0, lambda: "window %d: lags add up to %d samples around %d stations but consistency is %s" % (bad[0], tot[bad[0]], len(P), got[bad[0]]))
    check(np.allclose(d["mean_coef"], r, atol=1e-9), "the mean coefficient is not the mean of the coefficients")
    for p in P:
        L = np.array(d["lag_%s_%s" % p[:2]], float) / dt
        check(np.all(np.abs(L - np.round(L)) < 1e-6), "a lag is not a whole number of samples")
        check(np.all(np.abs(np.array(d["r_%s_%s" % p[:2]], float)) <= 1 + 1e-9), "a coefficient exceeds 1")
    return got, tot


@st.composite
def s_delay(draw):
    c = draw(s_base())
    m = min(0.03 * c["win"], 0.48)  # lags up to one second are searched
    if draw(st.integers(0, 2)) == 0:
        m = 0.48
        c["win"], c["fl"] = max(c["win"], 5.0), max(c["fl"], 2.0); c["fh"] = max(c["fh"], c["fl"] + 8)
    c["T"] = [draw(st.one_of(st.floats(-m, m).map(lambda x: round(x, 4)), st.integers(int(-m * 100), int(m * 100)).map(lambda i: i / 100))) for _ in c["ids"]]
    c["g"] = [draw(st.sampled_from([1.0, 1.0, 0.01, 30.0])) for _ in c["ids"]]
    c["off"] = [[draw(st.sampled_from([0, 0, 100.0, -3e4])), draw(st.sampled_from([0, 0, 5.0, -0.3]))] for _ in c["ids"]]
    c["one"] = draw(st.sampled_from([False, False, True])) and len(c["ids"]) > 2
    return c


def f_delay(c):
    rng = np.random.default_rng(c["seed"])
    s = tones(rng, c["fl"] * 1.15, c["fh"] * 0.9)
    t = np.arange(int(round(c["win"] * (c["nwin"] + 1) * 100)) + 1) / 100
    base = {tuple(x): c["gain"] * s(t - T) for x, T in zip(c["ids"], c["T"])}
    Ts = dict(zip(map(tuple, c["ids"]), c["T"]))
    d = run(c, base)
    w = inside(c, d)
    dt = 0.01 / c["u"]
    cov.nontrivial(len(w) > 0 and max(c["T"]) - min(c["T"]) > dt); cov.label("upsampled", c["u"] > 1); cov.label("overlap", c["overlap"] > 0); cov.label(c["how"]); cov.label("%d stations" % len(c["ids"]))
    check(len(d) >= c["nwin"], lambda: "%d windows" % len(d))
    o = order(c)
    for a, b, i, j in pairs(c):
        check("lag_%s_%s" % (a, b) in d.columns and "r_%s_%s" % (a, b) in d.columns and "rms_" + a in d.columns, lambda: "no lag of %s and %s; columns %s" % (a, b, list(d.columns)))
        true = Ts[o[i]] - Ts[o[j]]
        lag = np.array(d["lag_%s_%s" % (a, b)], float)[w]
        r = np.array(d["r_%s_%s" % (a, b)], float)[w]
        e = np.abs(lag - true)
        tol = dt + 0.0005 + abs(true) / c["win"] / (c["fl"] + c["fh"])  # the two windows hold slightly different parts of the signal
        check(np.all(e <= tol), lambda: "lag of %s and %s is %.5f in window %d, imposed %.5f (sample period %.4f)" % (a, b, lag[e.argmax()], w[e.argmax()], true, dt))
        check(np.all(r > 0.9 - 2.5 * max(0.04, abs(true) / c["win"])), lambda: "coefficient of %s and %s is %.3f for copies of one signal" % (a, b, r.min()))
    got, tot = flags(c, d)
    check(np.all(got[w]), "lags of one signal are flagged inconsistent")
    # amplitudes: standard deviation of the filtered waveform in the window
    sos = scipy.signal.butter(4, [c["fl"], c["fh"]], "bandpass", fs=100, output="sos")
    for k, x in zip(c["ids"], c["T"]):
        y = scipy.signal.sosfilt(sos, base[tuple(k)] - base[tuple(k)][0])
        for n in w:
            a = float(d["t_mid"].iloc[n] - T0) - c["win"] / 2
            seg = y[int(round(a * 100)):int(round((a + c["win"]) * 100))]
            m = np.hanning(2 * int(0.05 * len(seg)))
            tap = np.ones(len(seg)); h = len(m) // 2
            tap[:h], tap[-h:] = m[:h], m[-h:]
            ref = np.std((seg - seg.mean()) * tap)
            v = float(d["rms_" + ".".join(k)].iloc[n])
            check(abs(v / ref - 1) < 0.03, lambda: "amplitude of %s in window %d is %g, filtered waveform has %g" % (".".join(k), n, v, ref))
    # scaling, offset and trend change nothing
    changed = {tuple(x): g * base[tuple(x)] + c["gain"] * g * (o_ + tr * t) for x, g, (o_, tr) in zip(c["ids"], c["g"], c["off"])}
    d2 = run(c, changed, "files" if c["how"] == "terminal" else None)
    check(len(d2) == len(d), "the number of windows changed with the scale")
    for col in d.columns:
        if col.startswith(("lag_", "r_", "mean_coef")):
            e = np.max(np.abs(np.array(d[col], float) - np.array(d2[col], float)))
            check(e < 1e-5, lambda: "scaling, offset or trend of a trace changes %s by %g" % (col, e))


@st.composite
def s_noise(draw):
    c = draw(s_base(n=(3, 6)))
    c["win"] = max(c["win"], 8.0)
    c["fh"] = max(c["fh"], c["fl"] + 6)
    c["nwin"] = 3
    return c


def f_noise(c):
    """Uncorrelated noise."""
    rng = np.random.default_rng(c["seed"])
    n = int(c["win"] * (c["nwin"] + 1) * 100) + 1
    d = run(c, {tuple(x): c["gain"] * rng.standard_normal(n) for x in c["ids"]})
    cov.nontrivial(); cov.label("upsampled", c["u"] > 1)
    got, tot = flags(c, d)
    cov.label("inconsistent windows", not got.all())
    check(np.all(np.array(d["mean_coef"], float) < 0.55), lambda: "uncorrelated noise has mean coefficient %.3f" % np.max(d["mean_coef"]))


@st.composite
def s_mix(draw):
    c = draw(s_base(n=(3, 5)))
    c["fl"], c["fh"], c["win"], c["nwin"] = 2.0, 14.0, 20.0, 2
    k = len(c["ids"])
    c["L"] = [draw(st.integers(-40, 40)) for _ in range(k)]
    if draw(st.booleans()):  # lags that (nearly) add up
        c["L"][-1] = -sum(c["L"][:-1]) + draw(st.sampled_from([0, 0, k - 1, -k + 1, k + 1, -k - 1, 2 * k, k * k - 1]))
        c["L"][-1] = max(-80, min(80, c["L"][-1]))
    return c


def f_mix(c):
    """Each pair of neighbours shares its own signal, with lags of our choice in samples."""
    o = order(c)
    k = len(o)
    t = np.arange(int(c["win"] * (c["nwin"] + 1) * 100) + 1) / 100
    data = {x: np.zeros(len(t)) for x in o}
    for i in range(k):
        s = tones(np.random.default_rng([c["seed"], i]), c["fl"] * 1.1, c["fh"] * 0.95, 150)
        data[o[i]] += s(t - c["L"][i] / 100)
        data[o[(i + 1) % k]] += s(t)
    d = run(c, data)
    got, tot = flags(c, d)
    w = inside(c, d)
    S = sum(c["L"])
    cov.nontrivial(len(w) > 0); cov.label("lags that do not add up", abs(S) > k + 1); cov.label("lags that add up", abs(S) <= 1)
    for a, b, i, j in pairs(c):
        lag = np.array(d["lag_%s_%s" % (a, b)], float)[w]
        check(np.all(np.abs(lag - c["L"][i] / 100) <= 0.0101), lambda: "lag of %s and %s: %s, imposed %.2f" % (a, b, lag, c["L"][i] / 100))
    if abs(S) > 2 * k:  # up to one sample of error in each pair
        check(not got[w].any(), lambda: "lags that add up to %d samples around %d stations are flagged consistent" % (S, k))
    if S == 0 and c["u"] == 1:
        check(got[w].all(), "lags that add up to nothing are flagged inconsistent")


@st.composite
def s_echo(draw):
    c = draw(s_base(n=(2, 4)))
    c["fl"], c["fh"], c["win"], c["nwin"] = 2.0, 14.0, 20.0, 2
    c["T"] = [draw(st.integers(-20, 20)) for _ in c["ids"]]
    c["echo"] = [[draw(st.sampled_from([0, -0.6, -1.15, -1.3, 0.7])), draw(st.integers(15, 45)) * draw(st.sampled_from([-1, 1]))] for _ in c["ids"][1:]]
    return c


def f_echo(c):
    """Some stations also record an echo: weaker, or inverted and possibly stronger.  The best (positive) match is still that of the direct signal."""
    s = tones(np.random.default_rng(c["seed"]), 2.2, 13.3, 200)
    t = np.arange(int(c["win"] * (c["nwin"] + 1) * 100) + 1) / 100
    data, T, E = {}, {}, {}
    for x, lag, e in zip(c["ids"], c["T"], [[0, 0]] + c["echo"]):
        data[tuple(x)] = c["gain"] * (s(t - lag / 100) + e[0] * s(t - (lag + e[1]) / 100))
        T[".".join(x)], E[".".join(x)] = lag / 100, e
    d = run(c, data)
    flags(c, d)
    w = inside(c, d)
    cov.nontrivial(len(w) > 0 and any(e[0] for e in c["echo"])); cov.label("inverted stronger echo", any(e[0] < -1 for e in c["echo"]))
    for a, b, i, j in pairs(c):
        if E[a][0] and E[b][0]:
            continue  # two echoes may match each other
        lag, r = np.array(d["lag_%s_%s" % (a, b)], float)[w], np.array(d["r_%s_%s" % (a, b)], float)[w]
        check(np.all(np.abs(lag - (T[a] - T[b])) <= 0.0101), lambda: "lag of %s and %s: %s, direct signals %.2f (echoes %s, %s)" % (a, b, lag, T[a] - T[b], E[a], E[b]))
        check(np.all(r > 0.3), lambda: "coefficient of %s and %s: %s" % (a, b, r))


@st.composite
def s_windows(draw):
    n = draw(st.integers(2, 5))
    m = draw(st.sampled_from([None, None, 5, 30]))
    top = (m or 10) // 2
    fs = draw(st.sampled_from([10.0, 20.0, 100.0]))
    return {"n": n, "lag": [draw(st.integers(-top, top)) for _ in range(n)], "max": m, "fs": fs, "win": draw(st.sampled_from([20, 50, 100])), "start": draw(st.sampled_from([0, 0.5, 61, 1804.25, 3000])), "secs": draw(st.integers(150, 500)),
            "seed": draw(st.integers(0, 10 ** 6)), "files": draw(st.integers(1, 2)), "stations": draw(st.permutations(["003", "A", "077", "LADR1", "100"]))[:n], "noise": draw(st.sampled_from([0, 0.02, 0.1])), "other": draw(st.booleans())}


def f_windows(c):
    """check_lags: lags of neighbouring stations in windows of the converted files."""
    import gemlog.gemlog_aux
    aux = sys.modules["gemlog.gemlog_aux"]
    rng = np.random.default_rng(c["seed"])
    N = int(c["secs"] * c["fs"])
    s = rng.standard_normal(N + 200)
    t0 = T0 + c["start"]
    os.mkdir("m")
    for sta, L in list(zip(c["stations"], c["lag"])) + ([("ZZ", None)] if c["other"] else []):
        y = s[100 - (L or 0):100 - (L or 0) + N] if L is not None else rng.standard_normal(N)
        y = np.round(1000 * (y + c["noise"] * rng.standard_normal(N))).astype("int32")
        tr = obspy.Trace(y, {"station": sta, "channel": "HDF", "starttime": t0, "sampling_rate": c["fs"]})
        cut = N // 2
        for k, part in enumerate([tr] if c["files"] == 1 else [tr.slice(endtime=t0 + (cut - 1) / c["fs"]), tr.slice(starttime=t0 + cut / c["fs"])]):
            part.write("m/%s..%s..HDF.mseed" % (part.stats.starttime.strftime("%Y-%m-%dT%H_%M_%S"), sta), format="MSEED")
    DB = gemlog.make_db("m", "*")
    DB = DB.loc[DB.station != "ZZ", :]
    kw = {} if c["max"] is None else {"maxshift": c["max"]}
    t, lag, r, cons = aux.check_lags(DB, winlength=c["win"], **kw)
    L = dict(zip(c["stations"], c["lag"]))
    o = sorted(c["stations"])
    n = c["n"]
    check(len(t) == len(cons) and lag.shape == (n, len(t)) and r.shape == (n, len(t)), lambda: "%d times, lags %s, coefficients %s" % (len(t), lag.shape, r.shape))
    if len(t) == 0:
        return
    check(np.array_equal(cons, lag.sum(axis=0)), lambda: "consistency %s is not the sum of the lags %s" % (cons, lag))
    hour = obspy.UTCDateTime(t0.year, t0.month, t0.day, t0.hour)
    have = [float(x - hour) for x in t]
    end = c["start"] % 3600 + (N - 1) / c["fs"]
    full = [k * c["win"] for k in range(1, int(end / c["win"]) + 1) if k * c["win"] >= c["start"] % 3600 and (k + 1) * c["win"] + 1 <= end]
    cov.nontrivial(len(full) > 0 and len(set(c["lag"])) > 1); cov.label("another station left out", c["other"]); cov.label("several files", c["files"] > 1)
    for a in full:
        w = [i for i, x in enumerate(have) if abs(x - a) < 0.01]
        check(len(w) == 1, lambda: "%d windows start %s s after the hour; all are %s" % (len(w), a, have))
        cut = c["start"] % 3600 + (N // 2) / c["fs"]
        if c["files"] > 1 and a - 1 < cut < a + c["win"] + 1:
            continue  # the window holds parts of two files
        for i in range(n):
            p, q = o[i], o[(i + 1) % n]
            check(lag[i, w[0]] == L[p] - L[q], lambda: "lag of %s and %s is %g samples in the window at %g s, imposed %d" % (p, q, lag[i, w[0]], a, L[p] - L[q]))
            check(0.85 - 2 * abs(L[p] - L[q]) / (c["win"] * c["fs"]) < r[i, w[0]] <= 1 + 1e-6, lambda: "coefficient of %s and %s is %.3f" % (p, q, r[i, w[0]]))


main("C17", [
    Sub("windows", s_windows(), f_windows, 160, 3000, rule="2-5 stations recording one signal with lags in whole samples, one other station; non-trivial: a full window and different lags"),
    Sub("echo", s_echo(), f_echo, 200, 4000, rule="2-4 stations recording one signal, some with an echo that is weaker or inverted; non-trivial: at least one echo"),
    Sub("delay", s_delay(), f_delay, 400, 8000, rule="2-6 stations recording delayed copies of a band-limited signal; non-trivial: delays differ by more than a sample"),
    Sub("noise", s_noise(), f_noise, 200, 4000, rule="uncorrelated noise at 3-6 stations; every case is non-trivial"),
    Sub("mix", s_mix(), f_mix, 200, 4000, rule="neighbours share signals with imposed lags that may not add up; non-trivial: at least one window away from the start"),
], ["delays up to 3% of the window and lags under the one second searched; windows within about three periods of the start of the record are excluded (filter start-up)", "gap-free data covering the same time at every station"])
