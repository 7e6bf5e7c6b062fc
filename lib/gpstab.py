"""GPS table folders as the conversion writes them, and the documented robust mean."""
import os
import numpy as np
import obspy
from hypothesis import strategies as st

SNS = ["003", "010", "077", "088", "103", "107", "1077", "0771", "210"]
SITES = [(43.6, -116.2), (-12.5, 12.25), (0.0005, 0.0005), (-77.5, 166.3), (64.1, -21.9), (10.0, 179.2)]


def fixes(site, n, seed, sigma, far, t0, step):
    """n fixes [lat, lon, t(us)] around site, `far` = [count, dlat, dlon, place] recorded elsewhere."""
    rng = np.random.default_rng(seed)
    lat = site[0] + sigma * rng.standard_normal(n)
    lon = site[1] + sigma * rng.standard_normal(n)
    if far:
        k = min(far[0], n)
        w = {"start": np.arange(k), "end": np.arange(n - k, n), "mid": n // 2 - k // 2 + np.arange(k)}[far[3]]
        lat[w] += far[1]
        lon[w] += far[2]
    t = int(t0) * 1000000 + np.arange(n) * int(step * 1e6) + (rng.integers(0, 2) * 500000)
    return [[round(float(a), 7), round(float(o), 7), int(x)] for a, o, x in zip(np.clip(lat, -89.9, 89.9), np.clip(lon, -179.9, 179.9), t)]


def write(folder, sn, idx, rows, kind="gps"):
    os.makedirs(folder, exist_ok=True)
    with open("%s/%s%s_%03d.txt" % (folder, sn, kind, idx), "w") as f:
        f.write("year,date,lat,lon,t\n")
        for lat, lon, us in rows:
            t = obspy.UTCDateTime(ns=us * 1000)
            f.write("%d,%r,%r,%r,%s\n" % (t.year, t.julday + t.hour / 24 + t.minute / 1440 + t.second / 86400, lat, lon, t))


def robust(rows, N=5):
    """Repeatedly discard positions more than N standard deviations from the median.  -> kept rows, borderline?"""
    x = np.array(rows, float).reshape(-1, 3)
    border = False
    while len(x):
        keep = np.ones(len(x), bool)
        for j in (0, 1):
            lim = N * (1e-5 + np.sqrt(np.mean((x[:, j] - x[:, j].mean()) ** 2)))
            d = np.abs(x[:, j] - np.median(x[:, j]))
            border = border or bool(np.any(np.abs(d - lim) < 1e-9 * (1 + lim)))
            keep &= d < lim
        if keep.all():
            break
        x = x[keep]
    return x, border


@st.composite
def project(draw, nsn=(1, 4)):
    """Loggers x folders of GPS tables."""
    sns = draw(st.lists(st.sampled_from(SNS), min_size=nsn[0], max_size=nsn[1], unique=True))
    nf = draw(st.integers(1, 3))
    t0 = draw(st.sampled_from([1500000000, 1577836790, 1588291200, 1650000000]))
    out = []
    when = draw(st.permutations(range(nf)))  # folder names need not be in the order of time
    for sn in sns:
        site = draw(st.sampled_from(SITES))
        for f in range(nf):
            if f and draw(st.integers(0, 2)) == 0:
                continue
            for idx in sorted(draw(st.lists(st.sampled_from([0, 1, 2, 9, 10, 11, 99, 100]), min_size=1, max_size=3, unique=True))):
                n = draw(st.one_of(st.integers(0, 6), st.integers(7, 60), st.integers(60, 300)))
                far = draw(st.one_of(st.none(), st.tuples(st.integers(1, max(1, n // 12)), st.sampled_from([0.001, 0.02, -1.5, 0.0]), st.sampled_from([0.001, -0.3, 2.0]), st.sampled_from(["start", "mid", "end"]))))
                out.append({"sn": sn, "folder": f, "idx": idx, "site": list(site), "n": n, "seed": draw(st.integers(0, 2 ** 31 - 1)), "sigma": draw(st.sampled_from([0.0, 1e-6, 1e-5, 5e-5])),
                            "far": list(far) if far else None, "t0": t0 + 100000 * when[f] + draw(st.sampled_from([0, 0, 3000])), "step": draw(st.sampled_from([1, 1, 60.5]))})
    return {"t0": t0, "nf": nf, "sns": sns, "tables": out, "decoy": draw(st.booleans())}


def put(p, folders):
    """Write the project; -> {sn: fixes of the most recent table of each folder}"""
    latest = {}
    for tb in p["tables"]:
        rows = fixes(tb["site"], tb["n"], tb["seed"], tb["sigma"], tb["far"], tb["t0"], tb["step"])
        write(folders[tb["folder"]], tb["sn"], tb["idx"], rows)
        latest[(tb["sn"], tb["folder"])] = rows
        if p["decoy"]:
            with open("%s/%smetadata_%03d.txt" % (folders[tb["folder"]], tb["sn"], tb["idx"]), "w") as f:
                f.write("millis,batt,temp\n1,2,3\n")
    out = {}
    for (sn, f), rows in sorted(latest.items()):
        out.setdefault(sn, []).extend(rows)
    return out
