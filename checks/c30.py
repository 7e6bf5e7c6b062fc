import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import boot as B
gemlog = B.boot()
import glob, subprocess
import numpy as np, obspy, pandas as pd
from hypothesis import strategies as st
import gemlog.xcorr
import conv, gens, gpstab, rawgen
from runner import Sub, check, cov, main
import gemlog.gem_cat
xc, GCAT = sys.modules["gemlog.xcorr"], sys.modules["gemlog.gem_cat"]
U = obspy.UTCDateTime
ENTRY = {"gemconvert": ("gemlog.gemconvert", "main"), "gem2ms": ("gemlog.gemconvert", "main"), "gemconvert_single": ("gemlog.gemconvert_single", "main"), "gem_cat": ("gemlog.gem_cat", "main"),
         "waveform_calc_lags": ("gemlog.xcorr", "xcorr_all_terminal"), "waveform_calc_directions": ("gemlog.xcorr", "calculate_direction_terminal"),
         "gem_make_inventory": ("gemlog.gem_network", "summarize_gps_terminal"), "verify_huddle_test": ("gemlog.huddle_test", "main")}
START = """import sys
sys.path.insert(0, %r)
import boot
boot.boot()
sys.path.remove(%r)
sys.argv[0] = %r
from %s import %s as f
sys.exit(f())
"""


def run(tool, args, cwd="."):
    lib = os.path.dirname(B.__file__)
    mod, fn = ENTRY[tool]
    env = dict(os.environ, GEMVERIF_BOOTED="1")
    r = subprocess.run([sys.executable, "-c", START % (lib, lib, "/usr/local/bin/" + tool, mod, fn)] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=240)
    return r


def succeed(tool, args):
    r = run(tool, args)
    check(r.returncode == 0, lambda: "%s %s: exit code %r: %s" % (tool, " ".join(args), r.returncode, r.stderr[-600:]))
    return r


def everything():
    return {k: v for k, v in conv.digest(".").items()}


LONGS = {"gemconvert": {"-i": "--inputdir", "-o": "--outputdir", "-s": "--serialnumbers", "-x": "--exclude_serialnumbers", "-f": "--format", "-l": "--length", "-p": "--parallel", "-c": "--codesfile", "-t": "--test", "-h": "--help", "-d": "--debug"},
         "gemconvert_single": {"-i": "--input_file", "-o": "--output_file", "-f": "--force-conversion", "-h": "--help"},
         "waveform_calc_lags": {"-o": "--output_file", "-i": "--include_IDs", "-x": "--exclude_IDs", "-1": "--t1", "-2": "--t2", "-L": "--freq_low", "-H": "--freq_high", "-w": "--win_length_sec", "-p": "--overlap", "-u": "--upsample_ratio", "-q": "--quiet", "-h": "--help"},
         "waveform_calc_directions": {"-i": "--input_file", "-l": "--location_file", "-o": "--output_file", "-h": "--help"},
         "gem_make_inventory": {"-o": "--output_file", "-s": "--station_info_file", "-i": "--include_SNs", "-x": "--exclude_SNs", "-1": "--t1", "-2": "--t2", "-h": "--help"}}
LONGS["gem2ms"] = LONGS["gemconvert"]


def spell(tool, opts, long, seed):
    """Options in any order, by their short or long names."""
    out = []
    for i in np.random.default_rng(seed).permutation(len(opts)):
        o, v = opts[i]
        name = LONGS[tool][o] if long and tool in LONGS else o
        out += [name] if v is None else [name, v]
    return out


@st.composite
def s_raw(draw):
    tool = draw(st.sampled_from(["gemconvert", "gemconvert", "gem2ms", "gemconvert_single", "gem_cat", "gem_cat"]))
    sns = draw(st.lists(st.sampled_from(["003", "014", "077", "128", "210"]), min_size=1, max_size=2 if tool != "gemconvert_single" else 1, unique=True))
    L = []
    v = draw(st.sampled_from(["0.85C", "0.9", "0.91", "1.10", "0.85"]))
    for sn in sns:
        s = draw(gens.timing_spec((v,), nfiles=(1, 3), secs=(16, 20), gaps=False))
        s["sn"] = sn
        if tool == "gem_cat":
            for f in s["files"][1:]:
                f["nog"] = draw(st.booleans())
        L.append(s)
    if draw(st.integers(0, 2)) == 0:    # no options at all
        return {"tool": tool, "L": L[:1], "in": None, "out": None, "len": None, "fmt": None, "pick": None, "all": True, "procs": None, "force": False, "long": False, "order": 0}
    return {"tool": tool, "L": L, "in": draw(st.sampled_from([None, None, "r2"])), "out": draw(st.sampled_from([None, "o2"])), "len": draw(st.sampled_from([None, None, "1", "0.0025"])), "fmt": draw(st.sampled_from([None, None, "sac", "MSEED"])),
            "pick": draw(st.sampled_from([None, None, 0])), "all": draw(st.booleans()), "procs": draw(st.sampled_from([None, "2"])), "force": draw(st.booleans()), "long": draw(st.booleans()), "order": draw(gens.seeds)}


def f_raw(c):
    tool = c["tool"]
    ind = c["in"] or "raw"
    for s in c["L"]:
        for F, f in zip(rawgen.build(s), s["files"]):
            if f.get("nog"):
                F.lines = [l for l, k in zip(F.lines, F.kinds) if k != "G"]
            rawgen.write(F, ind)
    sns = sorted(s["sn"] for s in c["L"])
    raw = conv.digest(ind)
    cov.nontrivial(); cov.label(tool); cov.label("long options", c["long"]); cov.label("defaults only", not (c["in"] or c["out"] or c["len"] or c["fmt"] or c["procs"] or c["pick"] is not None)); cov.label("merging everything", tool == "gem_cat" and len(sns) == 1 and c["all"])
    if tool in ("gemconvert", "gem2ms"):
        opts = [("-i", ind)] if c["in"] else []
        opts += [("-o", c["out"])] if c["out"] else []
        opts += [("-l", c["len"])] if c["len"] else []
        opts += [("-f", c["fmt"])] if c["fmt"] else []
        opts += [("-p", c["procs"])] if c["procs"] else []
        if c["pick"] is not None:
            sns = [c["L"][c["pick"]]["sn"]]
            opts += [("-s", sns[0])]
        succeed(tool, spell(tool, opts, c["long"], c["order"]))
        fmt = c["fmt"] or "MSEED"
        out = c["out"] or fmt.lower()
        for sn in sns:
            gemlog.convert(ind, SN=sn, convertedpath="lib/out", metadatapath="lib/metadata", gpspath="lib/gps", output_format=fmt, file_length_hour=24 if c["len"] is None else float(c["len"]))
        for a, b in ((out, "lib/out"), ("metadata", "lib/metadata"), ("gps", "lib/gps")):
            x, y = conv.digest(a), conv.digest(b)
            check(x == y and x, lambda: "%s %s: %s holds %s, the library writes %s" % (tool, opts, a, sorted(x), sorted(y)))
    elif tool == "gemconvert_single":
        p = sorted(glob.glob(ind + "/*"))[0]
        opts = [("-i", p)] + ([("-o", c["out"] + ".mseed")] if c["out"] else []) + ([("-f", None)] if c["force"] else [])
        succeed(tool, spell(tool, opts, c["long"], c["order"]))
        out = c["out"] + ".mseed" if c["out"] else os.path.basename(p) + ".mseed"
        check(os.path.exists(out), lambda: "%s %s wrote %s" % (tool, opts, sorted(os.listdir("."))))
        exp = gemlog.read_gem(ind, [int(p[-8:-4])], sns[0], require_gps=not c["force"])["data"]
        conv.equal_series(conv.series(obspy.read(out), tool), conv.series(exp, "library"), "%s against the library" % tool)
    else:
        sn = c["L"][0]["sn"]
        opts = [("-i", ind)] if c["in"] else []
        opts += [("-o", c["out"])] if c["out"] else []
        if len(sns) > 1 or not c["all"]:
            opts.append(("-e", sn))
        succeed(tool, spell(tool, opts, False, c["order"]))
        GCAT.gem_cat(ind, "lib/cat", sn)
        x, y = conv.digest(c["out"] or "raw_merged"), conv.digest("lib/cat")
        check(x == y and x, lambda: "%s %s wrote %s, the library %s" % (tool, opts, sorted(x), sorted(y)))
    check(conv.digest(ind) == raw, "the raw files were changed")


@st.composite
def s_array(draw):
    n = draw(st.integers(3, 5))
    return {"n": n, "secs": draw(st.integers(21, 60)), "t0": draw(st.sampled_from([1600000000, 1609459180, 1700000000])), "seed": draw(gens.seeds), "net": draw(st.sampled_from(["", "XX"])),
            "lat": draw(st.sampled_from([43.5, -12.0, 0.1])), "lon": draw(st.sampled_from([-116.3, 20.0])), "sx": draw(st.floats(-3, 3)), "sy": draw(st.floats(-3, 3)),
            "L": draw(st.sampled_from([None, None, 2.5, 8.0])), "H": draw(st.sampled_from([None, None, 20.0, 45.0])), "w": draw(st.sampled_from([None, None, 2.0, 10.0])), "p": draw(st.sampled_from([None, None, 0.5, 0.25])), "u": draw(st.sampled_from([None, None, 2.0, 4.0])),
            "cut": draw(st.booleans()), "incl": draw(st.booleans()), "excl": draw(st.booleans()), "q": draw(st.booleans()), "long": draw(st.booleans()), "order": draw(gens.seeds)}


def f_array(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    xy = rng.uniform(-0.04, 0.04, (n, 2))
    f, ph = rng.uniform(3, 18, 60), rng.uniform(0, 7, 60)
    t = np.arange(c["secs"] * 100) * 0.01
    files = []
    stas = ["S%d" % i for i in range(n)]
    chans = []
    os.makedirs("d")
    for i, s in enumerate(stas):
        d = xy[i, 0] * c["sx"] + xy[i, 1] * c["sy"]
        tr = obspy.Trace(np.round(200 * sum(np.sin(2 * np.pi * f[k] * (t - d) + ph[k]) for k in range(60))).astype("int32"))
        tr.stats.update(dict(network=c["net"], station=s, channel="HDF", delta=0.01, starttime=U(c["t0"])))
        files.append("d/%s.mseed" % s)
        tr.write(files[-1], format="MSEED")
        la, lo = c["lat"] + xy[i, 1] / 111.2, c["lon"] + xy[i, 0] / 111.2 / np.cos(np.radians(c["lat"]))
        inv = obspy.core.inventory
        chans.append(inv.Station(s, la, lo, 0, channels=[inv.Channel("HDF", "", la, lo, 0, 0)]))
    obspy.Inventory(networks=[obspy.core.inventory.Network(c["net"] or "", stations=chans)]).write("n.xml", format="STATIONXML")
    names = {"-L": "fl", "-H": "fh", "-w": "win_length_sec", "-p": "overlap", "-u": "upsample_ratio"}
    opts, kw = [("-o", "lags.csv")], {"fl": 5, "fh": 40, "win_length_sec": 5, "overlap": 0, "upsample_ratio": 1}    # the documented defaults
    for o, k in names.items():
        v = c[o[1]]
        if v is not None:
            opts.append((o, repr(v)))
            kw[k] = v
    if c["cut"]:
        a, b = U(c["t0"] + 3.5), U(c["t0"] + c["secs"] - 2)
        opts += [("-1", a.strftime("%Y-%m-%d_%H:%M:%S.%f")), ("-2", b.isoformat())]
        kw["t1"], kw["t2"] = a, b
    left = list(stas)
    if c["incl"] and n > 3:
        left = stas[:3] + stas[4:]
        opts.append(("-i", ",".join(left)))
        kw["IDs"] = list(left)
    if c["excl"] and len(left) > 3:
        opts.append(("-x", left[0]))
        kw["exclude_IDs"] = [left[0]]
        left = left[1:]
    if c["q"]:
        opts.append(("-q", None))
    tool = "waveform_calc_lags"
    args = files + spell(tool, opts, c["long"], c["order"]) if c["order"] % 2 else spell(tool, opts + ([] if c["q"] else [("-q", None)]), c["long"], c["order"]) + ["--"] + files
    before = everything()
    succeed(tool, args)
    now = everything()
    check({k: v for k, v in now.items() if k != "lags.csv"} == before, lambda: "%s changed %s" % (tool, sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k))))
    exp = xc.xcorr_all(files, quiet=True, **kw)
    exp.to_csv("lib.csv", index=False)
    same_table("lags.csv", "lib.csv", "%s %s" % (tool, opts))
    cov.nontrivial(); cov.label("defaults only", len(opts) < 3); cov.label("long options", c["long"]); cov.label("time limits", c["cut"]); cov.label("selection", len(left) < n)
    check(len(exp) > 0, "no windows")
    tool = "waveform_calc_directions"
    before = everything()
    opts = [("-i", "lags.csv"), ("-l", "n.xml"), ("-o", "dir.csv")]
    succeed(tool, spell(tool, opts, c["long"], c["order"] + 1))
    now = everything()
    check({k: v for k, v in now.items() if k != "dir.csv"} == before, lambda: "%s changed %s" % (tool, sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k))))
    xc.invert_for_slowness(pd.read_csv("lags.csv"), xc.get_coordinates(obspy.read_inventory("n.xml"))).to_csv("libd.csv", index=False)
    same_table("dir.csv", "libd.csv", tool)


def same_table(a, b, what):
    x, y = pd.read_csv(a), pd.read_csv(b)
    check(list(x.columns) == list(y.columns) and len(x) == len(y), lambda: "%s: table of %d rows, columns %s; by the library %d rows, columns %s" % (what, len(x), list(x.columns), len(y), list(y.columns)))
    for k in x.columns:
        if x[k].dtype.kind in "fiu" and y[k].dtype.kind in "fiu":
            ok = np.allclose(x[k], y[k], rtol=1e-6, atol=1e-9, equal_nan=True)
        else:
            ok = list(x[k].astype(str)) == list(y[k].astype(str))
        check(ok, lambda: "%s: column %s is %s, by the library %s" % (what, k, list(x[k])[:6], list(y[k])[:6]))


@st.composite
def s_inv(draw):
    p = draw(gpstab.project())
    return {"p": p, "info": draw(st.booleans()), "name": draw(st.sampled_from([None, "net1"])), "excl": draw(st.booleans()), "incl": draw(st.booleans()), "long": draw(st.booleans()), "order": draw(gens.seeds)}


def f_inv(c):
    p = c["p"]
    names = ["g%d" % i for i in range(p["nf"])]
    for n in names:
        os.makedirs(n)
    gpstab.put(p, names)
    opts, kw = [], {}
    if c["info"]:
        open("info.csv", "w").write("SN,Network,Station,Location\n" + "".join("%s,XX,ST%d,\n" % (sn, i) for i, sn in enumerate(p["sns"])))
        opts.append(("-s", "info.csv")); kw["station_info"] = "info.csv"
    if c["excl"] and len(p["sns"]) > 1:
        opts.append(("-x", p["sns"][0])); kw["exclude_SN"] = [p["sns"][0]]
    if c["incl"]:
        opts.append(("-i", ",".join(p["sns"][-2:]))); kw["include_SN"] = p["sns"][-2:]
    if c["name"]:
        opts.append(("-o", c["name"]))
    name = c["name"] or "gem_network"
    lib = gemlog.summarize_gps(names, output_file="lib.csv", **kw)
    before = everything()
    tool = "gem_make_inventory"
    r = succeed(tool, names + spell(tool, opts, c["long"], c["order"]))
    now = everything()
    new = sorted(k for k in now if now[k] != before.get(k))
    check(new == sorted(name + e for e in (".csv", ".xml", ".kml")), lambda: "%s %s wrote %s" % (tool, opts, new))
    check(open(name + ".csv").read() == open("lib.csv").read(), "the summary differs from the library's")
    inv = obspy.read_inventory(name + ".xml")
    got = sorted(s.code for n in inv for s in n)
    exp = sorted(lib["station"] if c["info"] else lib["SN"]) if len(lib) else []
    check(got == exp, lambda: "%s: stations %s, located loggers %s" % (tool, got, exp))
    cov.nontrivial(len(exp) > 0); cov.label("options %d" % len(opts)); cov.label("long options", c["long"])


@st.composite
def s_refuse(draw):
    tool = draw(st.sampled_from(sorted(ENTRY)))
    return {"tool": tool, "how": draw(st.sampled_from(["help", "long help", "unknown", "unknown long", "no value"])), "spec": draw(gens.timing_spec(("0.91",), nfiles=(1, 1), secs=(16, 18), gaps=False)), "more": draw(st.booleans())}


def f_refuse(c):
    tool, how = c["tool"], c["how"]
    for F in rawgen.build(c["spec"]):
        rawgen.write(F, "raw")
    getopt = tool in ("gemconvert", "gem2ms", "gemconvert_single", "gem_cat", "verify_huddle_test")
    if how == "long help" and (tool in ("gem_cat", "verify_huddle_test")):
        how = "help"
    arg = {"help": ["-h"], "long help": ["--help"], "unknown": ["-Z"], "unknown long": ["--no_such_option"], "no value": ["-o"] if tool != "verify_huddle_test" else ["-i"]}[how]
    if c["more"] and how != "no value":
        arg = (["-i", "raw"] if getopt and tool != "gemconvert_single" else ["-o", "x"] if tool != "verify_huddle_test" else []) + arg
    before = everything()
    r = run(tool, arg)
    cov.nontrivial(); cov.label(tool); cov.label(how)
    if "help" in how:
        check(r.returncode == 0, lambda: "%s %s: exit code %r: %s" % (tool, arg, r.returncode, r.stderr[-400:]))
        check("-i" in r.stdout and "-" in r.stdout, lambda: "%s %s prints no help: %r" % (tool, arg, r.stdout[-400:]))
    else:
        check(r.returncode > 0, lambda: "%s %s: exit code %r" % (tool, arg, r.returncode))
    check(everything() == before, lambda: "%s %s wrote %s" % (tool, arg, sorted(k for k, v in everything().items() if before.get(k) != v)))


main("C30", [
    Sub("raw", s_raw(), f_raw, 48, 800, rule="conversion, single-file and merging commands as processes over generated raw files; every case is non-trivial"),
    Sub("array", s_array(), f_array, 28, 600, rule="lag and direction commands as processes over generated arrays; every case is non-trivial"),
    Sub("inventory", s_inv(), f_inv, 20, 500, rule="inventory command as a process; non-trivial: at least one located logger"),
    Sub("refuse", s_refuse(), f_refuse, 40, 500, rule="help requests and invalid options to every command, in a folder with raw files; every case is non-trivial"),
], ["the commands are started as the installed scripts start them: argv set before import, return value passed to sys.exit"])
