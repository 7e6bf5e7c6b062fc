import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
import obspy
import pandas as pd
from hypothesis import strategies as st
import conv
from runner import Sub, check, cov, main

NETS = ["", "NM", "XP", "NA", "01", "1", "0", "IM", "7D", "TR", "n", "1E"]
STAS = ["LADR1", "MANZ3", "001", "1", "01", "NA", "nan", "NULL", "None", "TRUE", "1e5", "STA", "007", "12345", "inf", "SN1", "A B", "X-1"]
LOCS = ["", "00", "01", "1", "10", "NA", "0", "AB", "1e"]
OPT = ["network", "location", "elevation"]


@st.composite
def s_rows(draw):
    n = draw(st.integers(1, 6))
    sns = draw(st.lists(st.one_of(st.sampled_from(["003", "014", "077", "096", "099", "100", "128", "210", "028", "010", "110", "030", "300"]), st.integers(1, 999).map(lambda i: "%03d" % i), st.integers(1000, 9999).map(str)), min_size=n, max_size=n, unique=True))
    blank = {k: draw(st.sampled_from(["some", "some", "all", "none"])) for k in OPT}
    rows = []
    for sn in sns:
        net = draw(st.sampled_from(NETS)) if blank["network"] == "some" else "" if blank["network"] == "all" else draw(st.sampled_from(NETS[1:]))
        loc = draw(st.sampled_from(LOCS)) if blank["location"] == "some" else "" if blank["location"] == "all" else draw(st.sampled_from(LOCS[1:]))
        el = {"all": st.none(), "some": st.one_of(st.none(), st.sampled_from([0.0, 1983.0, -12.5, 1022.25, 8848.0])), "none": st.sampled_from([0.0, 1983.0, -12.5, 4.0])}[blank["elevation"]]
        rows.append([sn, net, draw(st.sampled_from(STAS)), loc, draw(el)])
    names = ["SN", "network", "station", "location", "elevation"]
    order = draw(st.permutations(names))
    caps = [draw(st.sampled_from(["lower", "upper", "title", "std", "odd"])) for _ in names]
    return {"rows": rows, "order": list(order), "caps": caps, "omit": [k for k in OPT if draw(st.booleans())], "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])), "last": draw(st.booleans()),
            "quote": draw(st.sampled_from([False, False, True])), "index": draw(st.sampled_from(["range", "shift", "sn", "reversed"])), "five": draw(st.booleans()), "intel": draw(st.booleans()),
            "blankas": draw(st.sampled_from(["", "nan", "none"])), "bad": draw(st.sampled_from(["no SN", "no station", "three columns", "six columns", "two columns", "elevation text", "list", "none", "dict", "frame no SN", "frame no station", "empty file", "no file"]))}


def cap(k, how):
    return {"lower": k.lower(), "upper": k.upper(), "title": k.title(), "std": k, "odd": "".join(x.upper() if i % 2 else x.lower() for i, x in enumerate(k))}[how]


def use(table):
    """The station table as the library understands it."""
    return gemlog.rename_files("one/*", table, "renamed")


def compare(got, rows, what):
    check(len(got) == len(rows), lambda: "%s: %d entries, table has %d" % (what, len(got), len(rows)))
    for j, r in enumerate(rows):
        for k, v in zip(["SN", "network", "station", "location"], r):
            x = got[k].iloc[j]
            check(isinstance(x, str) and x == v, lambda: "%s: %s of entry %d is %r, written %r" % (what, k, j, x, v))
        e = got["elevation"].iloc[j]
        check(not isinstance(e, str) and float(e) == (-9999 if r[4] is None else r[4]), lambda: "%s: elevation of entry %d is %r, written %r" % (what, j, e, r[4]))


def f_table(c):
    rows = c["rows"]
    os.makedirs("one")
    tr = obspy.Trace(np.arange(100, dtype="int32"))
    tr.stats.delta, tr.stats.channel, tr.stats.station, tr.stats.starttime = 0.01, "HDF", rows[0][0], obspy.UTCDateTime(2020, 1, 2, 3, 4, 5)
    tr.write("one/2020-01-02T03_04_05..%s..HDF.mseed" % rows[0][0], format="mseed")
    idx = {"SN": 0, "network": 1, "station": 2, "location": 3, "elevation": 4}
    fmtel = lambda e: "" if e is None else "%d" % e if c["intel"] and e == int(e) else repr(e)
    q = (lambda x: '"%s"' % x) if c["quote"] else (lambda x: x)
    cell = lambda r, k: q(fmtel(r[4]) if k == "elevation" else r[idx[k]])

    def put(name, lines):
        text = c["eol"].join(lines) + (c["eol"] if c["last"] else "")
        open(name, "w", newline="").write(text)
        return name

    def strip(omit):
        return [[r[0], "" if "network" in omit else r[1], r[2], "" if "location" in omit else r[3], None if "elevation" in omit else r[4]] for r in rows]
    cov.nontrivial(); cov.label("omitted columns", bool(c["omit"])); cov.label("missing elevation", any(r[4] is None for r in rows)); cov.label("one entry", len(rows) == 1)
    # header, any capitalization and order, optional columns possibly omitted
    cols = [(k, cap(k, c["caps"][i])) for i, k in enumerate(c["order"]) if k not in c["omit"]]
    f = put("header.txt", [",".join(q(n) for _, n in cols)] + [",".join(cell(r, k) for k, _ in cols) for r in rows])
    compare(use(f), strip(c["omit"]), "table with header %s" % [n for _, n in cols])
    # no header: fixed order, four or five columns
    std = ["SN", "network", "station", "location"] + (["elevation"] if c["five"] else [])
    f = put("plain.csv", [",".join(cell(r, k) for k in std) for r in rows])
    compare(use(f), strip([] if c["five"] else ["elevation"]), "table without header, %d columns" % len(std))
    # the path given with header in standard form
    f = put("std.csv", [",".join(std)] + [",".join(cell(r, k) for k in std) for r in rows])
    compare(use(f), strip([] if c["five"] else ["elevation"]), "table with header, standard order")
    # in memory
    def mem(k, r):
        v = r[idx[k]]
        if k == "elevation":
            return np.nan if v is None else v
        if v == "" and k in ("network", "location"):
            return {"": "", "nan": np.nan, "none": None}[c["blankas"]]
        return v
    d = pd.DataFrame({n: [mem(k, r) for r in rows] for k, n in cols})
    d.index = {"range": d.index, "shift": d.index + 7, "sn": [r[0] for r in rows], "reversed": d.index[::-1]}[c["index"]]
    before = d.copy(deep=True)
    compare(use(d), strip(c["omit"]), "in-memory table with columns %s, index %s" % ([n for _, n in cols], c["index"]))
    check(list(d.columns) == list(before.columns) and d.equals(before), "the in-memory table was changed")
    # the renaming followed the table
    got = conv.files("renamed")
    check("2020-01-02T03_04_05.%s.%s.%s.HDF.mseed" % (rows[0][1], rows[0][2], rows[0][3]) in got, lambda: "renamed files: %s" % got)
    # tables that make no sense
    b = c["bad"]
    body = [",".join([r[0], r[1], r[2], r[3]]) for r in rows]
    if b == "no SN":
        t = put("bad.txt", ["network,station,location,elevation"] + [",".join([r[1], r[2], r[3], "5"]) for r in rows])
    elif b == "no station":
        t = put("bad.txt", ["SN,network,location"] + [",".join([r[0], r[1], r[3]]) for r in rows])
    elif b == "two columns":
        t = put("bad.txt", [",".join([r[0], r[2]]) for r in rows])
    elif b == "three columns":
        t = put("bad.txt", [",".join([r[0], r[1], r[2]]) for r in rows])
    elif b == "six columns":
        t = put("bad.txt", [x + ",5,x" for x in body])
    elif b == "elevation text":
        t = put("bad.txt", ["SN,network,station,location,elevation"] + [x + ",high" for x in body])
    elif b == "frame no SN":
        t = pd.DataFrame({"network": [r[1] for r in rows], "station": [r[2] for r in rows], "location": [r[3] for r in rows]})
    elif b == "frame no station":
        t = pd.DataFrame({"sn": [r[0] for r in rows], "SN": [r[0] for r in rows], "network": [r[1] for r in rows], "location": [r[3] for r in rows]})
    elif b == "empty file":
        t = put("bad.txt", [""])
    elif b == "no file":
        t = "nothere.txt"
    else:
        t = {"list": rows, "none": None, "dict": {"SN": ["001"]}}[b]
    try:
        out = use(t)
    except Exception:
        return
    check(False, lambda: "a station table that cannot be understood (%s) was accepted: %s" % (b, out.to_dict("list")))


main("C14", [
    Sub("table", s_rows(), f_table, 1200, 24000, rule="the same 1-6 entry table written with a header (any order, capitalization, omissions), without one, and in memory, plus one table to reject; every case is non-trivial"),
], [])
