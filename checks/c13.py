import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
import obspy
import pandas as pd
from hypothesis import strategies as st
import conv, gens
from runner import Sub, check, cov, main
from gemlog.gem_network import merge_files_day

PATTERNS = ["{year}-{mon}-{day}T{hour}_{min}_{sec}.{net}.{sta}.{loc}.{chan}.{fmt}", "{net}.{sta}.{loc}.{chan}.{year}.{jd}.{hour}{min}{sec}.{fmt}",
            "{sta}_{year}_{mon}_{day}_{jd}_{hour}_{min}_{sec}_{net}_{loc}_{chan}_{fmt}", "{year}{jd}T{hour}{min}{sec}.{net}.{sta}.{loc}.{chan}.{fmt}"]
NETS = ["", "M", "NM", "XP", "X"]
STAS = ["STA", "A", "AA", "BA", "077", "1077", "LADR1"]
LOCS = ["", "0", "00", "01", "1"]


@st.composite
def s_pieces(draw, n=(1, 6)):
    """Pieces of a recording: [start index (10 ms), samples], not overlapping."""
    day = draw(st.sampled_from([1577836800, 1582934400, 1609372800, 1704067200])) * 100
    at = day + draw(st.one_of(st.integers(0, 300), st.integers(8639000, 8639990), st.integers(0, 8640000)))
    out = []
    for _ in range(draw(st.integers(*n))):
        m = draw(st.one_of(st.integers(1, 30), st.integers(30, 900)))
        out.append([at, m])
        at += m + draw(st.one_of(st.just(0), st.integers(1, 60), st.integers(60, 700), st.integers(5000, 9000000)))
    return out


def put(folder, idx, n, seed, net, sta, loc, used, mode):
    t = obspy.UTCDateTime(ns=int(idx) * 10000000)
    rng = np.random.default_rng([seed, idx % (2 ** 31)])
    hi = 2 ** 23 if mode == "big" else 3000
    tr = obspy.Trace(rng.integers(-hi, hi, n).astype("int32"))
    tr.stats.delta, tr.stats.starttime, tr.stats.channel, tr.stats.network, tr.stats.station, tr.stats.location = 0.01, t, "HDF", net, sta, loc
    base = t.strftime("%Y-%m-%dT%H_%M_%S")
    name = "%s.%s.%s.%s.HDF.mseed" % (base, net, sta, loc)
    if name in used:
        name = "%s_%02d.%s.%s.%s.HDF.mseed" % (base, idx % 100, net, sta, loc)
    used.append(name)
    os.makedirs(folder, exist_ok=True)
    tr.write(folder + "/" + name, format="mseed")
    return name, tr


@st.composite
def s_rename(draw):
    sns = draw(st.one_of(st.lists(st.sampled_from(["003", "014", "077", "107", "210", "1234"]), min_size=1, max_size=4, unique=True), st.lists(st.sampled_from(["005", "050", "055", "105", "500", "505", "1005", "5055"]), min_size=2, max_size=5, unique=True)))
    codes = draw(st.lists(st.tuples(st.sampled_from(NETS), st.sampled_from(STAS), st.sampled_from(LOCS)), min_size=len(sns), max_size=len(sns), unique=True))
    listed = [draw(st.sampled_from([True, True, True, False])) for _ in sns]
    return {"sns": sns, "codes": [list(x) for x in codes], "listed": listed, "pieces": [draw(s_pieces()) for _ in sns], "seed": draw(gens.seeds), "mode": draw(st.sampled_from(["big", "small"])),
            "fmt": draw(st.sampled_from(["mseed", "mseed", "MSEED", "sac"])), "pattern": draw(st.sampled_from([None, None] + PATTERNS)), "table": draw(st.sampled_from(["file", "frame"])),
            "extra": draw(st.booleans()), "order": draw(st.permutations(list(range(len(sns))))), "glob": draw(st.sampled_from(["in/*", "in/*.mseed", "./in/20*"]))}


def f_rename(c):
    used, inputs = [], []
    for j, sn in enumerate(c["sns"]):
        for idx, n in c["pieces"][j]:
            name, tr = put("in", idx, n, c["seed"] + j, "", sn, "", used, c["mode"])
            inputs.append((j, idx, name, tr))
    rows = [[c["sns"][j]] + c["codes"][j] for j in c["order"] if c["listed"][j]]
    if c["extra"]:
        rows.insert(0, ["555", "ZZ", "EXTRA", "99"])
    if not rows:
        rows = [["556", "ZZ", "EXTRA", "99"]]
    if c["table"] == "file":
        open("table.txt", "w").write("SN,Network,Station,Location\n" + "".join(",".join(r) + "\n" for r in rows))
        table = "table.txt"
    else:
        table = pd.DataFrame(rows, columns=["SN", "network", "station", "location"])
    before = conv.digest("in")
    kw = {} if c["pattern"] is None else {"outfile_pattern": c["pattern"]}
    gemlog.rename_files(c["glob"], table, "out/sub", c["fmt"], **kw)
    check(conv.digest("in") == before, "the input files were changed")
    pat = c["pattern"] or PATTERNS[0]
    want, names, coll = {}, [], False
    for j, idx, name, tr in sorted(inputs, key=lambda x: x[2]):
        if not c["listed"][j]:
            continue
        t = tr.stats.starttime
        net, sta, loc = c["codes"][j]
        d = {"{year}": "%04d" % t.year, "{mon}": "%02d" % t.month, "{day}": "%02d" % t.day, "{hour}": "%02d" % t.hour, "{min}": "%02d" % t.minute, "{sec}": "%02d" % t.second, "{jd}": "%03d" % t.julday,
             "{net}": net, "{sta}": sta, "{loc}": loc, "{chan}": "HDF", "{fmt}": c["fmt"]}
        n = pat
        for k, v in d.items():
            n = n.replace(k, v)
        coll = coll or n in names
        names.append(n)
        want.setdefault(j, []).append(tr)
    got = conv.files("out/sub")
    cov.nontrivial(len(names) > 0); cov.label("pieces starting in one second", coll); cov.label("unlisted loggers", not all(c["listed"])); cov.label(c["fmt"].lower())
    missing = [n for n in names if n not in got]
    check(not missing, lambda: "no output file %s; output: %s" % (missing[0], got))
    check(len(got) == len(names), lambda: "%d output files for %d input files of listed loggers: %s" % (len(got), len(names), got[:8]))
    out = {}
    for f in got:
        s = obspy.read("out/sub/" + f)
        check(len(s) == 1, lambda: "%s holds %d traces" % (f, len(s)))
        out.setdefault((s[0].stats.network, s[0].stats.station, s[0].stats.location, s[0].stats.channel), []).append(s[0])
    exp = {tuple(c["codes"][j]) + ("HDF",): v for j, v in want.items()}
    check(set(out) == set(exp), lambda: "codes written: %s, table says %s" % (sorted(out), sorted(exp)))
    for k in exp:
        conv.equal_series(conv.series(out[k], "renamed"), conv.series(exp[k], "input"), "renamed data of %s vs input" % ".".join(k))
        check(sorted((t.stats.starttime, t.stats.npts) for t in out[k]) == sorted((t.stats.starttime, t.stats.npts) for t in exp[k]) or c["fmt"] == "sac", "pieces differ")


@st.composite
def s_gappy(draw):
    return {"files": [[draw(s_pieces((1, 4))), draw(st.integers(0, 5))] for _ in range(draw(st.integers(1, 3)))], "seed": draw(gens.seeds), "pattern": draw(st.sampled_from([None, None] + PATTERNS)), "code": [draw(st.sampled_from(NETS)), draw(st.sampled_from(STAS)), draw(st.sampled_from(LOCS))]}


def f_gappy(c):
    """Converted files that hold several traces, in any order."""
    want = {}
    os.mkdir("in")
    pat = c["pattern"] or PATTERNS[0]
    net, sta, loc = c["code"]
    for k, (pieces, order) in enumerate(c["files"]):
        S = []
        for idx, n in pieces:
            t = obspy.UTCDateTime(ns=int(idx + k * 864000000) * 10000000)      # the files lie apart
            S.append(obspy.Trace(np.random.default_rng([c["seed"], idx % 2 ** 31]).integers(-3000, 3000, n).astype("int32"), {"delta": 0.01, "starttime": t, "channel": "HDF", "station": "055"}))
        t = S[0].stats.starttime
        S = [S[i] for i in np.random.default_rng(order).permutation(len(S))]
        obspy.Stream(S).write("in/%s..055..HDF.mseed" % t.strftime("%Y-%m-%dT%H_%M_%S"), format="MSEED")
        n = pat
        for a, b in {"{year}": "%04d" % t.year, "{mon}": "%02d" % t.month, "{day}": "%02d" % t.day, "{hour}": "%02d" % t.hour, "{min}": "%02d" % t.minute, "{sec}": "%02d" % t.second, "{jd}": "%03d" % t.julday,
                     "{net}": net, "{sta}": sta, "{loc}": loc, "{chan}": "HDF", "{fmt}": "mseed"}.items():
            n = n.replace(a, b)
        want[n] = S
        cov.label("out of order", S[0].stats.starttime > t)
    cov.nontrivial(any(len(p) > 1 for p, _ in c["files"]))
    kw = {} if c["pattern"] is None else {"outfile_pattern": c["pattern"]}
    gemlog.rename_files("in/*", pd.DataFrame([["055", net, sta, loc]], columns=["SN", "network", "station", "location"]), "out", "mseed", **kw)
    got = conv.files("out")
    check(got == sorted(want), lambda: "output files %s, expected %s" % (got, sorted(want)))
    for n, S in want.items():
        s = obspy.read("out/" + n)
        check({(t.stats.network, t.stats.station, t.stats.location) for t in s} == {(net, sta, loc)}, lambda: "%s holds %s" % (n, [t.id for t in s]))
        conv.equal_series(conv.series(s, "renamed"), conv.series(S, "input"), "renamed data of %s vs input" % n)


@st.composite
def s_merge(draw):
    ids = draw(st.lists(st.tuples(st.sampled_from(NETS), st.sampled_from(STAS), st.sampled_from(LOCS)), min_size=1, max_size=4, unique=True))
    if draw(st.booleans()):  # a code that ends in another one
        net, sta, loc = ids[0]
        new = draw(st.sampled_from([("N" + net, sta, loc), ("XY"[:2 - len(net)] + net, sta, loc), (net, "Q" + sta, loc)]))
        ids = ids + [new] if new not in ids and len(new[0]) <= 2 and len(new[1]) <= 5 else ids
    return {"ids": [list(x) for x in ids], "pieces": [draw(s_pieces((1, 7))) for _ in ids], "seed": draw(gens.seeds), "mode": draw(st.sampled_from(["big", "small"])), "only": draw(st.sampled_from([None, None, 0, 1])), "slash": draw(st.booleans()), "again": draw(st.booleans())}


def f_merge(c):
    used, exp = [], {}
    pick = None if c["only"] is None or c["only"] >= len(c["ids"]) else c["only"]
    for j, (net, sta, loc) in enumerate(c["ids"]):
        for idx, n in c["pieces"][j]:
            name, tr = put("in", idx, n, c["seed"] + j, net, sta, loc, used, c["mode"])
            if pick is None or j == pick:
                exp.setdefault((name[:10], net, sta, loc), []).append(tr)
    before = conv.digest("in")
    pattern = "*" if pick is None else "20??-??-??T??_??_??*." + ".".join(c["ids"][pick]) + ".HDF.mseed"
    if pick is not None:  # the pattern may also match a longer code
        import fnmatch
        if any(fnmatch.fnmatch(n, pattern) and n.split(".")[1:4] != c["ids"][pick] for n in used):
            pick, pattern, exp = None, "*", {}
            for j, (net, sta, loc) in enumerate(c["ids"]):
                for n in [u for u in used if u.split(".")[1:4] == [net, sta, loc]]:
                    exp.setdefault((n[:10], net, sta, loc), []).append(obspy.read("in/" + n)[0])
    kw = {"infile_pattern": pattern} if pattern != "*" else {}
    for _ in range(2 if c["again"] else 1):
        merge_files_day("in/" if c["slash"] else "in", outfile_dir="out", **kw)
    check(conv.digest("in") == before, "the input files were changed")
    names = {"%sT00_00_00.%s.%s.%s.HDF.mseed" % k: v for k, v in exp.items()}
    got = conv.files("out")
    cov.nontrivial(len(used) > len(names) or len(names) > 1); cov.label("several channels", len(c["ids"]) > 1); cov.label("several days", len({k[0] for k in exp}) > 1); cov.label("one code ends in another", any(a != b and ".".join(a).endswith(".".join(b).lstrip(".")) for a in c["ids"] for b in c["ids"]))
    check(got == sorted(names), lambda: "output files %s, expected %s" % (got, sorted(names)))
    for f, trs in names.items():
        s = obspy.read("out/" + f)
        for t in s:
            check((t.stats.network, t.stats.station, t.stats.location) == tuple(f.split(".")[1:4]), lambda: "%s holds data of %s" % (f, t.id))
        check(len(s) == 1, lambda: "%s holds %d traces" % (f, len(s)))
        i, v = conv.series(s, f)
        ie, ve = conv.series(trs, "inputs")
        check(i[0] == ie[0] and i[-1] == ie[-1], lambda: "%s runs from %.2f to %.2f, its inputs from %.2f to %.2f" % (f, i[0] / 100, i[-1] / 100, ie[0] / 100, ie[-1] / 100))
        m = np.searchsorted(i, ie)
        check(np.array_equal(v[m], ve), lambda: "%s: a sample differs from the input" % f)
        hold = ve[np.searchsorted(ie, i, side="right") - 1]
        check(np.array_equal(v, hold), lambda: "%s: a gap is not filled with the last sample before it" % f)


main("C13", [
    Sub("rename", s_rename(), f_rename, 900, 18000, rule="1-4 loggers with up to 6 converted pieces each, partly listed in the table; non-trivial: something to rename"),
    Sub("gappy", s_gappy(), f_gappy, 200, 4000, rule="1-3 converted files of one logger holding 1-4 traces in any order; non-trivial: a file with several traces"),
    Sub("merge", s_merge(), f_merge, 900, 18000, rule="1-4 channels with up to 7 pieces over up to several days, similar codes; non-trivial: several pieces in a day or several outputs"),
], ["each logger appears once in the station table and no two loggers share codes"])
