import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
import obspy
import pandas as pd
from hypothesis import strategies as st
from obspy.core.inventory import Channel, Inventory, Network, Station
from obspy.core import AttribDict
from runner import Sub, check, cov, main
import gemlog.xcorr
xc = sys.modules["gemlog.xcorr"]
UTC = obspy.UTCDateTime


@st.composite
def s_ids(draw, lo=3, hi=8):
    k = draw(st.integers(lo, hi))
    return [list(x) for x in draw(st.lists(st.tuples(st.sampled_from(["", "NM", "XP"]), st.sampled_from(["A", "B", "077", "LADR1", "100", "10", "B-2", "A0"]), st.sampled_from(["", "00", "01"])), min_size=k, max_size=k, unique=True))]


def geometry(seed, n, scale):
    """n points, not nearly collinear, not nearly coincident (km)."""
    rng = np.random.default_rng(seed)
    while True:
        p = rng.uniform(-1, 1, (n, 2)) * scale
        s = np.linalg.svd(p - p.mean(0), compute_uv=False)
        if s[1] > 0.25 * s[0] and min(np.hypot(*(p[i] - p[j])) for i in range(n) for j in range(i)) > 0.1 * scale:
            return p


def wave(baz, slow):
    return -slow * np.array([np.sin(np.radians(baz)), np.cos(np.radians(baz))])


def angle(a, b):
    return abs((a - b + 180) % 360 - 180)


@st.composite
def s_inv(draw):
    ids = draw(s_ids())
    baz = st.one_of(st.sampled_from([0.0, 90.0, 180.0, -90.0, 45.0, 179.9999]), st.floats(-180, 180))
    return {"ids": ids, "seed": draw(st.integers(0, 10 ** 6)), "scale": draw(st.sampled_from([0.02, 0.05, 0.2, 1.0, 5.0])), "origin": [draw(st.sampled_from([0, 0, 3.0, -40.0])), draw(st.sampled_from([0, 7.0]))],
            "waves": [[draw(baz), draw(st.sampled_from([0.5, 1.0, 2.9, 3.0, 6.0, 0.01]))] for _ in range(draw(st.integers(1, 6)))], "extra": draw(st.integers(0, 3)),
            "order": draw(st.sampled_from(["sorted", "sorted", "any"])), "rows": draw(st.sampled_from(["all", "all", "some", "one"])), "nan": draw(st.booleans()), "col": draw(st.sampled_from(["lag r", "rms first"])), "csv": draw(st.booleans()),
            "pick": draw(st.booleans()), "sens": draw(st.sampled_from(["", "", "dup"]))}


def table(ids, pts, waves, col="lag r"):
    """The cross-correlation table for plane waves over stations ids (in this order)."""
    short = [".".join(x) for x in ids]
    d = {}
    if col == "rms first":
        for s in short:
            d["rms_" + s] = np.full(len(waves), 1.5)
    d["t_mid"] = [UTC("2020-01-01") + 5 * i for i in range(len(waves))]
    d["mean_coef"] = np.full(len(waves), 0.9)
    for i in range(len(ids)):
        j = (i + 1) % len(ids)
        if col == "lag r":
            d["rms_" + short[i]] = np.full(len(waves), 1.5)
        d["lag_%s_%s" % (short[i], short[j])] = np.array([(pts[i] - pts[j]) @ wave(*w) for w in waves])
        d["r_%s_%s" % (short[i], short[j])] = np.full(len(waves), 0.9)
    d["consistency"] = np.full(len(waves), True)
    return pd.DataFrame(d)


def f_inv(c):
    n = len(c["ids"])
    rng = np.random.default_rng(c["seed"] + 1)
    pts = geometry(c["seed"], n, c["scale"])
    o = list(range(n)) if c["order"] == "any" else sorted(range(n), key=lambda i: ".".join(c["ids"][i]))
    ids = [c["ids"][i] for i in o]
    P = pts[o]
    d = table(ids, P, c["waves"], c["col"])
    if c["csv"]:
        d.to_csv("x.csv", index=False)
        d = pd.read_csv("x.csv")
    if c["nan"] and len(d) > 1:
        lag = [k for k in d if k.startswith("lag_")][:-1]
        d.loc[0, lag[0]] = np.nan
    keep = np.arange(len(d))
    if c["rows"] == "some":
        keep = keep[len(d) % 2::2] if len(d) > 1 else keep
    elif c["rows"] == "one":
        keep = keep[-1:]
    d = d.iloc[keep] if c["rows"] != "all" else d
    d = d.copy()
    rows = [(x, y) for x, y in zip([list(i) for i in c["ids"]], pts)] + [(["ZZ", "X%d" % k, ""], rng.uniform(-9, 9, 2)) for k in range(c["extra"])]
    if c["sens"] == "dup":
        rows.append(rows[0])  # two channels of one station
    rows = [rows[i] for i in rng.permutation(len(rows))]
    loc = pd.DataFrame({"x": [r[1][0] + c["origin"][0] for r in rows], "y": [r[1][1] + c["origin"][1] for r in rows], "z": 0.0, "network": [r[0][0] for r in rows], "station": [r[0][1] for r in rows], "location": [r[0][2] for r in rows]})
    if c["pick"]:
        loc = loc[loc.network != "ZZ"]
    before = d.copy()
    out = xc.invert_for_slowness(d, loc)
    cov.nontrivial(len(keep) > 1 or n > 3); cov.label("more than three stations", n > 3); cov.label("extra stations", c["extra"] > 0); cov.label("part of the windows", len(keep) < len(c["waves"])); cov.label("a window without lag", bool(c["nan"]))
    check(len(out) == len(keep), "the number of windows changed")
    for k in before.columns:
        check(k in out.columns and (out[k].isna() == before[k].isna()).all() and (out[k][~before[k].isna()] == before[k][~before[k].isna()]).all(), lambda: "column %s changed" % k)
    for r, i in enumerate(keep):
        b, s = float(out["backazimuth"].iloc[r]), float(out["slowness"].iloc[r])
        if c["nan"] and len(c["waves"]) > 1 and i == 0:
            check(np.isnan(b) and np.isnan(s), "a window without a lag has a direction")
            continue
        wb, ws = c["waves"][i]
        check(abs(s - ws) <= 1e-6 * max(ws, 1) and angle(b, wb) < 1e-3, lambda: "wave from %.4f deg with slowness %.4f is inverted to %.4f deg, %.4f" % (wb, ws, b, s))
        check(-180 <= b <= 180, "backazimuth %r" % b)


# ---------------------------------------------------------------- coordinates
@st.composite
def s_coord(draw):
    ids = draw(s_ids(1, 7))
    return {"ids": ids, "seed": draw(st.integers(0, 10 ** 6)), "lat": draw(st.floats(-65, 65)), "lon": draw(st.floats(-179, 179)), "scale": draw(st.sampled_from([0.05, 0.3, 2.0])), "elev": [draw(st.floats(-100, 4000)) for _ in ids],
            "how": draw(st.sampled_from(["inventory", "inventory", "lonlat", "xy", "arrays", "file"])), "chans": draw(st.sampled_from([1, 1, 2]))}


def inventory(ids, lats, lons, elev, chans=1):
    nets = {}
    for (n, s, l), la, lo, e in zip(ids, lats, lons, elev):
        C = [Channel(code="HD" + "FG"[k], location_code=l, latitude=la, longitude=lo, elevation=e, depth=0) for k in range(chans)]
        nets.setdefault(n, {}).setdefault(s, []).append((la, lo, e, C))
    N = []
    for n, sts in nets.items():
        S = []
        for s, parts in sts.items():
            S.append(Station(code=s, latitude=parts[0][0], longitude=parts[0][1], elevation=parts[0][2], channels=[x for p in parts for x in p[3]]))
        N.append(Network(code=n, stations=S))
    return Inventory(networks=N, source="x")


def lonlat(c, n):
    rng = np.random.default_rng(c["seed"])
    lats = c["lat"] + rng.uniform(-1, 1, n) * c["scale"] / 111
    lons = c["lon"] + rng.uniform(-1, 1, n) * c["scale"] / 111 / np.cos(np.radians(c["lat"]))
    return lats, lons


def f_coord(c):
    n = len(c["ids"])
    lats, lons = lonlat(c, n)
    elev = c["elev"]
    key = {tuple(x): i for i, x in enumerate(map(tuple, c["ids"]))}
    rng = np.random.default_rng(c["seed"] + 2)
    how = c["how"]
    cov.nontrivial(n > 1); cov.label(how)
    if how == "arrays":
        x, y = rng.uniform(-3, 3, n), rng.uniform(-3, 3, n)
        d = xc.get_coordinates(x, y)
        check(np.array_equal(d["x"], x) and np.array_equal(d["y"], y), "coordinates given as arrays changed")
        return
    if how in ("xy", "lonlat"):
        s = obspy.Stream()
        xs, ys = rng.uniform(-3, 3, n), rng.uniform(-3, 3, n)
        for i, x in enumerate(c["ids"]):
            tr = obspy.Trace(np.zeros(5))
            tr.stats.network, tr.stats.station, tr.stats.location, tr.stats.channel = x[0], x[1], x[2], "HDF"
            tr.stats.coordinates = AttribDict({"x": xs[i], "y": ys[i], "elevation": elev[i]} if how == "xy" else {"latitude": lats[i], "longitude": lons[i], "elevation": elev[i]})
            s += tr
        d = xc.get_coordinates(s)
    else:
        inv = inventory(c["ids"], lats, lons, elev, c["chans"])
        if how == "file":
            inv.write("i.xml", format="STATIONXML")
            inv = obspy.read_inventory("i.xml")
        d = xc.get_coordinates(inv)
    rows = [key[(d.network[i], d.station[i], d.location[i])] for i in range(len(d))]
    check(set(rows) == set(range(n)), lambda: "coordinates are given for %d of %d stations" % (len(set(rows)), n))
    for i, r in enumerate(rows):
        check(abs(d.z[i] - elev[r]) < 1e-3, lambda: "elevation %r of a station at %r m" % (d.z[i], elev[r]))
        if how == "xy":
            check(d.x[i] == xs[r] and d.y[i] == ys[r], "x/y coordinates of a stream changed")
    if how == "xy":
        return
    from obspy.geodetics import gps2dist_azimuth
    for i in range(len(rows)):
        for j in range(i):
            if rows[i] == rows[j]:
                check(d.x[i] == d.x[j] and d.y[i] == d.y[j], "channels of one station have different coordinates")
                continue
            m, az, _ = gps2dist_azimuth(lats[rows[j]], lons[rows[j]], lats[rows[i]], lons[rows[i]])
            e = m / 1000 * np.array([np.sin(np.radians(az)), np.cos(np.radians(az))])
            v = np.array([d.x[i] - d.x[j], d.y[i] - d.y[j]])
            check(np.hypot(*(v - e)) < 0.003 * c["scale"] + 1e-5, lambda: "station is at %s km of another, geodetic position is %s km" % (v, e))


# ---------------------------------------------------------------- whole chain: waveforms, commands
@st.composite
def s_chain(draw):
    ids = draw(s_ids(3, 5))
    return {"ids": ids, "seed": draw(st.integers(0, 10 ** 6)), "lat": draw(st.sampled_from([35.0, -13.0, 60.0])), "lon": draw(st.floats(-170, 170)), "scale": draw(st.sampled_from([0.04, 0.06])),
            "baz": draw(st.floats(-180, 180)), "slow": draw(st.sampled_from([2.9, 2.5, 3.5])), "extra": draw(st.integers(0, 2)), "synthetic": draw(st.booleans())}


def f_chain(c):
    n = len(c["ids"])
    P = geometry(c["seed"], n, c["scale"])
    lats = c["lat"] + P[:, 1] / 110.95
    lons = c["lon"] + P[:, 0] / 111.3 / np.cos(np.radians(c["lat"]))
    from obspy.geodetics import gps2dist_azimuth
    Q = []
    for la, lo in zip(lats, lons):
        m, az, _ = gps2dist_azimuth(c["lat"], c["lon"], la, lo)
        Q.append([m / 1000 * np.sin(np.radians(az)), m / 1000 * np.cos(np.radians(az))])
    Q = np.array(Q)
    rng = np.random.default_rng(c["seed"] + 5)
    ids = c["ids"] + [["QQ", "E%d" % k, ""] for k in range(c["extra"])]
    la = list(lats) + [c["lat"] + 0.001 * (k + 1) for k in range(c["extra"])]
    lo = list(lons) + [c["lon"] - 0.002 * (k + 1) for k in range(c["extra"])]
    perm = rng.permutation(len(ids))
    inventory([ids[i] for i in perm], [la[i] for i in perm], [lo[i] for i in perm], [0.0] * len(ids)).write("inv.xml", format="STATIONXML")
    w = wave(c["baz"], c["slow"])
    cov.nontrivial(); cov.label("waveforms", not c["synthetic"]); cov.label("extra stations", c["extra"] > 0)
    if c["synthetic"]:
        o = sorted(range(n), key=lambda i: ".".join(c["ids"][i]))
        table([c["ids"][i] for i in o], Q[o], [[c["baz"], c["slow"]]] * 3).to_csv("lags.csv", index=False)
        dt = 0
    else:
        f = rng.uniform(5.5, 18, 60); a = rng.uniform(0.3, 1, 60); ph = rng.uniform(0, 6.28, 60)
        t = np.arange(2001) / 100
        files = []
        for x, q in zip(c["ids"], Q):
            tr = obspy.Trace(1000 * np.sum(a[:, None] * np.sin(2 * np.pi * f[:, None] * (t - q @ w) + ph[:, None]), 0))
            tr.stats.network, tr.stats.station, tr.stats.location, tr.stats.channel, tr.stats.delta, tr.stats.starttime = x[0], x[1], x[2], "HDF", 0.01, UTC("2020-05-05T05:05:00")
            files.append("d%d.mseed" % len(files))
            tr.write(files[-1], format="MSEED")
        xc.xcorr_all_terminal(files + ["-o", "lags.csv", "-H", "20", "-u", "4", "-q"])
        dt = 0.0025
    xc.calculate_direction_terminal(["-i", "lags.csv", "-l", "inv.xml", "-o", "out.csv"])
    d, d0 = pd.read_csv("out.csv"), pd.read_csv("lags.csv")
    check(len(d) == len(d0) and set(d.columns) == set(d0.columns) | {"backazimuth", "slowness"}, "the output does not extend the input table")
    # the error that lag errors of a sample can cause
    G = np.array([Q[i] - Q[j] for i, j in zip(range(n), list(range(1, n)) + [0])][:n])
    o = sorted(range(n), key=lambda i: ".".join(c["ids"][i]))
    G = np.array([Q[o[i]] - Q[o[i + 1]] for i in range(n - 1)])
    H = np.linalg.inv(G.T @ G) @ G.T
    tol = np.abs(H).sum(1) * (dt + 0.0008 * (dt > 0)) * 1.5 + 0.004 * c["slow"]
    tol = np.hypot(*tol)
    for r in range(1 if dt else 0, len(d)):
        b, s = d["backazimuth"][r], d["slowness"][r]
        e = np.hypot(*(wave(b, s) - w))
        check(e <= tol, lambda: "wave from %.3f deg with slowness %.3f s/km gives %.3f deg, %.3f s/km (tolerance %.3f s/km)" % (c["baz"], c["slow"], b, s, tol))


main("C19", [
    Sub("invert", s_inv(), f_inv, 800, 15000, rule="lags of plane waves over 3-8 stations, any geometry and order; non-trivial: several windows or more than three stations"),
    Sub("coordinates", s_coord(), f_coord, 600, 9000, rule="inventories, streams and arrays of 1-7 stations compared with geodesics on the ellipsoid; non-trivial: at least two stations"),
    Sub("chain", s_chain(), f_chain, 120, 2000, rule="plane waves or their waveforms through both commands and a stationXML file; every case is non-trivial"),
], ["arrays smaller than 5 km, below 65 degrees latitude and not straddling the 180 degree meridian; no two stations closer than a tenth of the aperture"])
