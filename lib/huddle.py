"""Synthetic converted data of a huddle test."""
import os
import numpy as np
import obspy
import pandas as pd

COLS = ["millis", "batt", "temp", "A2", "A3", "maxWriteTime", "minFifoFree", "maxFifoUsed", "maxOverruns", "gpsOnFlag", "unusedStack1", "unusedStackIdle", "index", "t"]
T0 = 1600000020.0


def table(L):
    """State-of-health table of one logger from its description (see checks/c22.py)."""
    rng = np.random.default_rng(L["seed"])
    dt = L["dt"] * (1 + L["drift"])
    n = int(L["secs"] // L["dt"])
    t = T0 + L["start"] + L["phase"] + dt * np.arange(n)
    d = {"millis": np.round((np.arange(n) * L["dt"] * 1000 + 500) % 2 ** 13)}
    d["batt"] = np.round(3.5 + 0.05 * rng.standard_normal(n).clip(-3, 3), 3)
    base = 20 + L["trend"] * (t - T0) / 60
    d["temp"] = base + L["toff"]
    for k in ("A2", "A3"):
        v = np.round(1.0 + 0.5 * (np.arange(n) % 2) + 0.3 * rng.random(n), 4)
        flat = np.zeros(n, bool)
        m = int(round(L[k]["flat"] * (n - 1)))
        a = 1
        flat[a:a + m] = True
        v[:a + m] = v[0]  # the first m differences are zero
        for i in range(a + m, n):  # the others are not
            if v[i] == v[i - 1]:
                v[i] += 0.01
        if L[k]["at"] is not None:
            v[-1] = L[k]["at"]
            if m >= n - 1:
                v[:] = L[k]["at"]
        d[k] = v
    d["maxWriteTime"] = np.full(n, 20.0); d["minFifoFree"] = np.full(n, 70.0)
    f = rng.integers(1, 4, n).astype(float)
    w = rng.permutation(n)[:int(round(L["fifo"]["part"] * n))]
    f[w] = L["fifo"]["v"]
    d["maxFifoUsed"] = f
    o = np.zeros(n)
    if L["over"]:
        o[rng.integers(n // 2, n)] = L["over"]
    d["maxOverruns"] = o
    g = np.zeros(n)
    i = L["gps0"]
    runs = []
    for k, (on, off) in enumerate(L["gps"]):
        a, b = i, i + max(1, int(on // L["dt"]))
        if b >= n - 1:
            break
        g[a:b] = 1
        if k > 0:
            runs.append((a, b))
        i = b + max(11, int(off // L["dt"]))
    d["gpsOnFlag"] = g
    d["unusedStack1"] = np.full(n, 300.0); d["unusedStackIdle"] = np.full(n, 60.0)
    for k, v in L["stack"].items():
        d[k][rng.integers(0, n)] = v
    for k, v in L["ext"].items():  # single values of battery or temperature
        d[k][int(v[1] * (n - 1))] = v[0]
    if L["bump"]:
        a, b, h = L["bump"]
        d["temp"][(t >= T0 + a) & (t <= T0 + b)] += h
    d["temp"] = np.round(d["temp"], 3)
    d["index"] = np.arange(n, dtype=float); d["t"] = t
    return pd.DataFrame(d)[COLS], runs


def write(path, loggers, drop=()):
    out = {}
    for s in ("metadata", "gps", "mseed"):
        os.makedirs(os.path.join(path, s), exist_ok=True)
    for L in loggers:
        sn = L["sn"]
        d, runs = table(L)
        out[sn] = (d, runs)
        open(os.path.join(path, "gps", sn + "gps_000.txt"), "w").write("year,date,lat,lon,t\n" + "".join(
            "2020,%.6f,35.0%d,-106.0%d,%s\n" % (257.5 + i / 24, i % 7, i % 5, obspy.UTCDateTime(d.t.iloc[0] + i * 60)) for i in range(5)))
        if L.get("broken"):
            open(os.path.join(path, "metadata", sn + "metadata_000.txt"), "w").write("nothing\n")
            continue
        d.to_csv(os.path.join(path, "metadata", sn + "metadata_000.txt"), index=False)
        t0, t1 = d.t.iloc[0], d.t.iloc[-1]
        rng = np.random.default_rng(L["seed"] + 1)
        tr = obspy.Trace(rng.integers(-1000, 1000, int(t1 - t0)).astype(np.int32))
        tr.stats.station, tr.stats.channel, tr.stats.starttime, tr.stats.delta = sn, "HDF", obspy.UTCDateTime(round(t0)), 1.0
        cut = len(tr) // 2
        for k, part in enumerate((tr.slice(endtime=tr.stats.starttime + cut - 1), tr.slice(starttime=tr.stats.starttime + cut))):
            part.write(os.path.join(path, "mseed", "%s..%s..HDF.mseed" % (part.stats.starttime.strftime("%Y-%m-%dT%H_%M_%S"), sn)), format="MSEED")
    return out
