import os, sys, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
import obspy
import pandas as pd
from hypothesis import strategies as st
import gpstab
from runner import Sub, check, cov, main
from gemlog.gem_network import summarize_gps_terminal

NETS, STAS, LOCS = ["NM", "XP", "", "7D", "01"], ["AA", "BB", "001", "LADR1", "1"], ["", "00", "01", "10", "1"]
COORD = st.tuples(st.floats(-85, 85).map(lambda x: round(x, 6)), st.floats(-179, 179).map(lambda x: round(x, 6)), st.sampled_from([0.0, 1983.0, -12.5, 4321.25, -9999.0]))


@st.composite
def s_inv(draw):
    codes = draw(st.lists(st.tuples(st.sampled_from(NETS[:draw(st.integers(1, 5))]), st.sampled_from(STAS[:draw(st.integers(1, 5))]), st.sampled_from(LOCS)), min_size=1, max_size=8, unique=True))
    by = draw(st.sampled_from(["sn", "sn", "snint", "codes", "codes"]))
    k = len(codes)
    if by == "codes":  # a logger that moved has several entries
        sns = [draw(st.sampled_from(["003", "014", "077", "107", "1077", "177", "103"])) for _ in codes]
    else:
        sns = draw(st.lists(st.sampled_from(["003", "014", "030", "077", "088", "107", "140", "1077", "210", "300", "103", "177"]), min_size=k, max_size=k, unique=True))
    has = [draw(st.sampled_from([True, True, True, False])) for _ in codes]
    times = draw(st.booleans())
    return {"codes": [list(c) for c in codes], "sns": sns, "by": by, "has": has, "pos": [list(draw(COORD)) for _ in codes],
            "times": [[draw(st.integers(1420000000, 1430000000)), draw(st.integers(1430000001, 1440000000))] for _ in codes] if times else None, "tstr": draw(st.booleans()),
            "form": draw(st.sampled_from(["frame", "file"])), "order": draw(st.permutations(list(range(k)))), "extra": draw(st.booleans()), "resp": draw(st.sampled_from(["given", "given", "default"])), "shift": draw(st.booleans())}


_base = gemlog.get_gem_response()


def expected(c):
    """{(net, sta, loc): (sn, lat, lon, elev, t1, t2)} of the located entries"""
    out = {}
    for j, code in enumerate(c["codes"]):
        if c["has"][j]:
            t = [obspy.UTCDateTime(c["times"][j][0]) - 3600, obspy.UTCDateTime(c["times"][j][1]) + 3600] if c["times"] else [None, None]
            out[tuple(code)] = [c["sns"][j]] + c["pos"][j] + t
    return out


def judge(inv, exp, resp, what, times=True):
    got = {}
    for net in inv:
        for sta in net:
            for ch in sta:
                k = (net.code, sta.code, ch.location_code)
                check(k not in got, lambda: "%s: %s appears more than once" % (what, ".".join(k)))
                got[k] = (net, sta, ch)
    check(len({n.code for n in inv}) == len(list(inv)), "%s: a network appears more than once" % what)
    for n in inv:
        check(len({s.code for s in n}) == len(list(n)), "%s: a station appears more than once" % what)
    check(set(got) == set(exp), lambda: "%s: channels %s, expected %s" % (what, sorted(got), sorted(exp)))
    for k, (net, sta, ch) in got.items():
        sn, lat, lon, el, t1, t2 = exp[k]
        w = "%s: channel %s" % (what, ".".join(k))
        check(ch.code == "HDF", lambda: "%s: code %r" % (w, ch.code))
        check(abs(ch.latitude - lat) < 1e-7 and abs(ch.longitude - lon) < 1e-7 and abs(ch.elevation - el) < 1e-6, lambda: "%s: at %s, %s, %s; expected %s, %s, %s" % (w, ch.latitude, ch.longitude, ch.elevation, lat, lon, el))
        check(ch.sample_rate == 100, lambda: "%s: sample rate %r" % (w, ch.sample_rate))
        eq = [ch.sensor] + list(ch.equipments)
        check(all(e is not None and e.serial_number == sn for e in eq) and len(eq) >= 1, lambda: "%s: serial number %s, expected %s" % (w, [e and e.serial_number for e in eq], sn))
        check(ch.response is not None and abs(ch.response.instrument_sensitivity.value - resp.instrument_sensitivity.value) < 1e-6 * abs(resp.instrument_sensitivity.value) and len(ch.response.response_stages) == len(resp.response_stages), lambda: "%s: not the given response" % w)
        if times:
            a, b = t1 or obspy.UTCDateTime("1970-01-01T00:00:00"), t2 or obspy.UTCDateTime("9999-12-31T23:59:59")
            check(abs(ch.start_date - a) < 1e-5 and abs(ch.end_date - b) < 1e-5, lambda: "%s: operating %s - %s, expected %s - %s" % (w, ch.start_date, ch.end_date, a, b))
    for net in inv:
        chans = [ch for s in net for ch in s]
        check(len(chans) > 0, "%s: empty network %s" % (what, net.code))
        if times:
            check(abs(net.start_date - min(ch.start_date for ch in chans)) < 1e-5 and abs(net.end_date - max(ch.end_date for ch in chans)) < 1e-5, lambda: "%s: network %s interval %s - %s" % (what, net.code, net.start_date, net.end_date))
        for sta in net:
            m = exp_mean = [np.mean([exp[(net.code, sta.code, ch.location_code)][i] for ch in sta]) for i in (1, 2, 3)]
            check(abs(sta.latitude - m[0]) < 1e-7 and abs(sta.longitude - m[1]) < 1e-7 and abs(sta.elevation - m[2]) < 1e-6, lambda: "%s: station %s.%s at %s, %s, %s; mean of its channels %s" % (what, net.code, sta.code, sta.latitude, sta.longitude, sta.elevation, m))
            if times:
                check(abs(sta.start_date - min(ch.start_date for ch in sta)) < 1e-5 and abs(sta.end_date - max(ch.end_date for ch in sta)) < 1e-5, lambda: "%s: station %s interval %s - %s" % (what, sta.code, sta.start_date, sta.end_date))


def f_inv(c):
    exp = expected(c)
    rows = [[c["sns"][j]] + c["codes"][j] for j in range(len(c["codes"]))]
    if c["form"] == "file":
        open("info.csv", "w").write("SN,Network,Station,Location\n" + "".join(",".join(r) + "\n" for r in rows))
        info = "info.csv"
    else:
        info = pd.DataFrame(rows, columns=["SN", "network", "station", "location"])
    co = []
    for j in c["order"]:
        if not c["has"][j]:
            continue
        r = {"lat": c["pos"][j][0], "lon": c["pos"][j][1], "elevation": c["pos"][j][2]}
        if c["by"] == "codes":
            r.update(zip(["network", "station", "location"], c["codes"][j]), SN=c["sns"][j])
        else:
            r["SN"] = c["sns"][j] if c["by"] == "sn" else int(c["sns"][j])
        if c["times"]:
            t = [obspy.UTCDateTime(x) for x in c["times"][j]]
            r["starttime"], r["endtime"] = (str(t[0]), str(t[1])) if c["tstr"] else t
        co.append(r)
    if c["extra"]:  # a located logger that is in no table
        r = dict(co[0]) if co else {"lat": 1.0, "lon": 2.0, "elevation": 3.0}
        r.update({"SN": "555" if c["by"] != "snint" else 555, "lat": -1.0, "lon": -2.0})
        if c["by"] == "codes":
            r.update(network="ZZ", station="ZZZ", location="99")
        if c["times"] and "starttime" not in r:
            r["starttime"], r["endtime"] = [str(obspy.UTCDateTime(x)) for x in (1, 2)]
        co.insert(0, r)
    keys = ["SN", "lat", "lon", "elevation"] + (["network", "station", "location"] if c["by"] == "codes" else []) + (["starttime", "endtime"] if c["times"] else [])
    coords = pd.DataFrame(co, columns=keys)
    if c["shift"]:
        coords.index = coords.index + 5
    resp = copy.deepcopy(_base)
    if c["resp"] == "given":
        resp.instrument_sensitivity.value = 12345.5
        inv = gemlog.make_gem_inventory(info, coords, resp)
    else:
        inv = gemlog.make_gem_inventory(info, coords)
    stations = {}
    for k in exp:
        stations.setdefault(k[:2], []).append(k)
    cov.nontrivial(len(exp) > 0); cov.label("several channels at a station", any(len(v) > 1 for v in stations.values())); cov.label("unlocated entries", not all(c["has"]))
    cov.label("network without located stations", {x[0] for x in c["codes"]} != {k[0] for k in exp}); cov.label("by " + c["by"])
    judge(inv, exp, resp, "inventory")
    if exp:
        inv.write("inv.xml", format="STATIONXML")
        judge(obspy.read_inventory("inv.xml"), exp, resp, "re-read inventory")


@st.composite
def s_terminal(draw):
    p = draw(gpstab.project())
    k = len(p["sns"])
    codes = draw(st.lists(st.tuples(st.sampled_from(NETS), st.sampled_from(STAS), st.sampled_from(LOCS)), min_size=k, max_size=k, unique=True))
    return {"p": p, "codes": [list(x) for x in codes], "listed": [draw(st.sampled_from([True, True, True, False])) for _ in codes], "info": draw(st.booleans()), "elev": draw(st.booleans()), "paths": draw(st.sampled_from(["folders", "files"])),
            "include": draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(p["sns"]), min_size=1, max_size=3, unique=True))),
            "exclude": draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(p["sns"]), min_size=1, max_size=2, unique=True))),
            "t1": draw(st.one_of(st.none(), st.none(), st.integers(0, 3200))), "t2": draw(st.one_of(st.none(), st.none(), st.integers(0, 200000))), "form": draw(st.sampled_from(["%Y-%m-%d_%H:%M:%S", "%Y-%m-%dT%H:%M:%S"])), "long": draw(st.booleans())}


def f_terminal(c):
    p = c["p"]
    names = ["g%d" % i for i in range(p["nf"])]
    for n in names:
        os.makedirs(n)
    gpstab.put(p, names)
    paths = names if c["paths"] == "folders" else sorted("%s/%s" % (d, f) for d in names for f in os.listdir(d) if "gps_" in f)
    if not paths:
        paths = names
    o = lambda s, l: l if c["long"] else s
    args = list(paths)
    kw = {}
    if c["info"] and any(c["listed"]):
        open("info.csv", "w").write("SN,Network,Station,Location" + (",Elevation" if c["elev"] else "") + "\n" + "".join("%s,%s%s\n" % (sn, ",".join(k), ",%d" % (100 + i) if c["elev"] else "") for i, (sn, k, l) in enumerate(zip(p["sns"], c["codes"], c["listed"])) if l))
        args += [o("-s", "--station_info_file"), "info.csv"]
        kw["station_info"] = "info.csv"
    for opt, key in (("include", "include_SN"), ("exclude", "exclude_SN")):
        if c[opt] is not None:
            args += [o("-" + {"include": "i", "exclude": "x"}[opt], "--%s_SNs" % opt), ",".join(c[opt])]
            kw[key] = c[opt]
    for opt in ("t1", "t2"):
        if c[opt] is not None:
            s = obspy.UTCDateTime(p["t0"] + c[opt]).strftime(c["form"])
            args += [o("-" + opt[1], "--" + opt), s]
            kw[opt] = s
    name = "gem_network"
    if c["long"]:
        name = "res"
        args += ["-o", "res"]
    summarize_gps_terminal(args)
    lib = gemlog.summarize_gps(paths, output_file="lib.csv", **kw)
    check(open(name + ".csv").read() == open("lib.csv").read(), "the summary written by the command differs from the library's")
    exp = {}
    for i in range(len(lib)):
        r = lib.iloc[i]
        j = p["sns"].index(r.SN)
        if "station_info" in kw and not c["listed"][j]:
            continue
        k = tuple(c["codes"][j]) if "station_info" in kw else ("", r.SN, "")
        exp[k] = [r.SN, r.lat, r.lon, float(r.elevation), obspy.UTCDateTime(r.starttime) - 3600, obspy.UTCDateTime(r.endtime) + 3600]
    cov.nontrivial(len(exp) > 0); cov.label("with station table", "station_info" in kw); cov.label("include or exclude", "include_SN" in kw or "exclude_SN" in kw); cov.label("window", "t1" in kw or "t2" in kw)
    check(os.path.exists(name + ".xml") and os.path.exists(name + ".kml"), lambda: "files written: %s" % sorted(os.listdir(".")))
    if exp:
        judge(obspy.read_inventory(name + ".xml"), exp, _base, "stationXML written by the command")
    import re
    kml = open(name + ".kml").read()
    pts = re.findall(r"<coordinates>([^<]*)</coordinates>", kml)
    check(len(pts) == len({k[:2] for k in exp}), lambda: "KML holds %d points for %d stations" % (len(pts), len({k[:2] for k in exp})))
    means = {}
    for k, v in exp.items():
        means.setdefault(k[:2], []).append(v[1:3])
    want = sorted(tuple(np.round(np.mean(v, axis=0), 5)) for v in means.values())
    have = sorted((round(float(x.split(",")[1]), 5), round(float(x.split(",")[0]), 5)) for x in pts)
    check(len(want) == 0 or np.allclose(np.array(want, float), np.array(have, float), atol=3e-5), lambda: "KML positions %s, expected %s" % (have, want))


main("C16", [
    Sub("inventory", s_inv(), f_inv, 1200, 24000, rule="1-8 table entries sharing networks and stations, any subset located, coordinates by serial number or codes; non-trivial: at least one located entry"),
    Sub("command", s_terminal(), f_terminal, 400, 8000, rule="command-line runs over generated GPS tables against library calls; non-trivial: at least one logger in the inventory"),
], [])
