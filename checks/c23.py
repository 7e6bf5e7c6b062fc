import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import contextlib, glob, logging
import numpy as np
import obspy
from hypothesis import strategies as st
import gemlog.gemconvert, gemlog.gemconvert_single
import conv, gens, rawgen
from badgps import gps_file
from runner import Sub, check, cov, main
GC, GS = sys.modules["gemlog.gemconvert"], sys.modules["gemlog.gemconvert_single"]
STRAY = [".DS_Store", "notes.txt", "README", "FILE0001.bak", "gemconvert_logfile.txt", "station_codes_list.csv", "FILE00.001", "._FILE0000.003"]


@st.composite
def s_command(draw):
    sns = draw(st.lists(st.sampled_from(["003", "014", "021", "077", "096", "128", "210", "450", "103", "121", "045"]), min_size=1, max_size=3, unique=True))
    loggers = []
    txt = draw(st.integers(0, 7)) == 0
    for j, sn in enumerate(sns):
        s = draw(gens.timing_spec(["0.8"] if txt and j == 0 else ["0.85C", "0.9", "0.91", "1.10", "0.85"], nfiles=(1, 2), secs=(18, 24), gaps=False))
        s["sn"] = sn
        if txt and j == 0:
            s["files"] = s["files"][:1]
        loggers.append({"spec": s, "state": draw(st.sampled_from(["ok"] * 5 + ["garbage", "no gps"]))})
    pick = draw(st.lists(st.sampled_from(sns + ["999"]), max_size=4))
    excl = draw(st.lists(st.sampled_from(sns + ["888"]), max_size=2))
    return {"loggers": loggers, "select": pick, "exclude": excl, "format": draw(st.sampled_from(["mseed", "MSEED", "mseed", "sac", "SAC", "wav", "tspair"])), "length": draw(st.sampled_from([None, None, "1", "24", "0.005", "0.0025"])),
            "procs": draw(st.sampled_from([None, 1, 2, 3, 4])), "out": draw(st.sampled_from([None, "out", "a/b"])), "indir": draw(st.sampled_from(["raw", "raw", "data/in"])), "long": draw(st.booleans()), "attached": draw(st.booleans()),
            "codes": draw(st.one_of(st.none(), st.lists(st.tuples(st.sampled_from(sns + ["777"]), st.sampled_from(["NM", "XP", ""]), st.sampled_from(["AAA", "BB2", "C"]), st.sampled_from(["", "00", "01"])), min_size=1, max_size=4, unique_by=(lambda r: r[0], lambda r: tuple(r[1:]))))),
            "intcodes": draw(st.booleans()), "stray": draw(st.lists(st.sampled_from(STRAY), max_size=2, unique=True)), "test": draw(st.integers(0, 9)) == 0, "race": draw(st.booleans()), "order": draw(st.integers(0, 10**6)), "debug": draw(st.booleans())}


LONG = {"i": "inputdir", "s": "serialnumbers", "x": "exclude_serialnumbers", "c": "codesfile", "t": "test", "o": "outputdir", "f": "format", "l": "length", "p": "parallel", "d": "debug"}


def argv(c, opts):
    out = []
    for o, v in opts:
        if c["long"]:
            out += ["--" + LONG[o]] if v is None else ["--%s=%s" % (LONG[o], v)] if c["attached"] else ["--" + LONG[o], v]
        else:
            out += ["-" + o] if v is None else ["-" + o + v] if c["attached"] else ["-" + o, v]
    return out


def fresh_log():
    r = logging.getLogger()
    for h in list(r.handlers):
        r.removeHandler(h)
        h.close()


@contextlib.contextmanager
def racing_folders(on):
    """Another process creates each folder right before this one does."""
    real = os.makedirs

    def makedirs(name, mode=0o777, exist_ok=False):
        real(name, exist_ok=True)
        return real(name, mode, exist_ok)
    if on:
        os.makedirs = makedirs
    try:
        yield
    finally:
        os.makedirs = real


def f_command(c):
    there = {}
    for l in c["loggers"]:
        s = l["spec"]
        for F in rawgen.build(s):
            p = rawgen.write(F, c["indir"])
            if l["state"] == "garbage":
                open(p, "wb").write(b"\x00\x01garbage\n" * 30)
            elif l["state"] == "no gps":
                lines = [x for x in open(p, "rb").read().split(b"\n") if not x.startswith((b"G", b"R"))]
                open(p, "wb").write(b"\n".join(lines))
        there[s["sn"]] = s["version"]
    for f in c["stray"]:
        open(os.path.join(c["indir"], f), "w").write("SN,network,station,location\n003,XX,YYY,00\n")
    wanted = sorted(set(c["select"])) if c["select"] else sorted(there)
    for l in c["loggers"]:
        if l["state"] == "garbage" and l["spec"]["version"] == "0.8" and not c["select"]:
            wanted.remove(l["spec"]["sn"])  # nothing tells which logger wrote it
    wanted = [s for s in wanted if s not in c["exclude"]]
    codes = None
    if c["codes"] is not None:
        codes = {r[0]: r[1:] for r in c["codes"]}
        with open("codes.txt", "w") as h:
            h.write("SN,network,station,location\n" + "".join(",".join([str(int(r[0])) if c["intcodes"] else r[0]] + list(r[1:])) + "\n" for r in c["codes"]))
        wanted = [s for s in wanted if s in codes]
    ok = [s for s in wanted if s in there and [l["state"] for l in c["loggers"] if l["spec"]["sn"] == s] == ["ok"]]
    failing = [s for s in wanted if s not in ok]
    out = c["out"] or c["format"].lower()
    opts = [("i", c["indir"])] if c["indir"] != "raw" or c["order"] % 2 else []
    opts += [("s", ",".join(c["select"]))] if c["select"] else []
    opts += [("x", ",".join(c["exclude"]))] if c["exclude"] else []
    opts += [("c", "codes.txt")] if codes is not None else []
    opts += [("o", c["out"])] if c["out"] else []
    opts += [("f", c["format"])] if c["format"] != "mseed" or c["order"] % 3 else []
    opts += [("l", c["length"])] if c["length"] else []
    opts += [("p", str(c["procs"]))] if c["procs"] else []
    opts += [("t", None)] if c["test"] else []
    opts += [("d", None)] if c["debug"] else []
    opts = [opts[i] for i in np.random.default_rng(c["order"]).permutation(len(opts))]
    cov.label("%s processes" % c["procs"]); cov.label(c["format"].lower()); cov.label("codes", codes is not None); cov.label("failing logger", bool(failing)); cov.label("stray file", bool(c["stray"])); cov.label("test mode", c["test"])
    cov.label("excluded logger", any(s in c["exclude"] for s in there)); cov.label("several converted", len(ok) > 1); cov.nontrivial(len(ok) > 0)
    before = conv.digest(c["indir"])
    had = set(os.listdir("."))
    fresh_log()
    with racing_folders(c["race"]):
        GC.main(argv(c, opts))
    fresh_log()
    check(conv.digest(c["indir"]) == before, "the raw files were changed")
    new = set(os.listdir(".")) - had
    if c["test"]:
        check(new <= {"gemconvert_logfile.txt"}, lambda: "test mode wrote %s" % sorted(new))
        return
    check("gemconvert_logfile.txt" in new, "no log file")
    log = open("gemconvert_logfile.txt").read()
    for s in wanted:
        failed = any("atal error" in x and s in x[24:] for x in log.split("\n"))  # after the time stamp
        check(failed == (s in failing), lambda: "logger %s: %s in the log" % (s, "failure" if failed else "no failure"))
    length = 24 if c["length"] is None else float(c["length"])
    # each logger on its own, by the library
    for s in ok:
        n, sta, loc = codes[s] if codes is not None else ("", "", "")
        d = "lib/" + s
        gemlog.convert(c["indir"], SN=s, convertedpath="lib/out", metadatapath="lib/metadata", gpspath="lib/gps", output_format=c["format"], file_length_hour=length, network=n, station=sta, location=loc)
    got, exp = conv.digest(out), conv.digest("lib/out")
    check(sorted(got) == sorted(exp), lambda: "loggers %s with options %s: output files %s, the library writes %s" % (ok, opts, sorted(got), sorted(exp)))
    bad = [f for f in got if got[f] != exp[f]]
    check(not bad, lambda: "%s differs from what the library writes" % bad)
    for s in ok:
        n, sta, loc = codes[s] if codes is not None else ("", s, "")
        id = "%s.%s.%s.HDF." % (n, sta, loc)
        check(any(("." + id) in f for f in got), lambda: "no output for logger %s (%s): %s" % (s, id, sorted(got)))
    for t in ("metadata", "gps"):
        a, b = conv.digest(t), conv.digest("lib/" + t)
        check(a == b, lambda: "%s tables %s, the library writes %s" % (t, sorted(a), sorted(b)))
        check(sorted(a) == ["%s%s_000.txt" % (s, t) for s in ok], lambda: "%s tables: %s for loggers %s" % (t, sorted(a), ok))
    check(new <= {"metadata", "gps", "gemconvert_logfile.txt", out.split("/")[0]}, lambda: "unexpected files: %s" % sorted(new))


@st.composite
def s_single(draw):
    kind = draw(st.sampled_from(["ok", "ok", "ok_edge", "ok", "none", "few", "missing file", "garbage"]))
    base = draw(gens.timing_spec(rawgen.VERSIONS, nfiles=(1, 1), secs=(18, 40), gaps=draw(st.booleans())))
    base["quad"] = 0
    if kind in ("ok_edge", "none", "few"):
        base["files"] = [dict(draw(gps_file(kind, base["dt"])), num=base["files"][0]["num"])]
    return {"spec": base, "kind": kind, "force": draw(st.sampled_from([None, None, "-f", "--force-conversion"])), "out": draw(st.sampled_from([None, "x.mseed", "x.sac", "sub/x.mseed"])), "long": draw(st.booleans())}


def f_single(c):
    spec, kind = c["spec"], c["kind"]
    F = rawgen.build(spec)[0]
    p = rawgen.write(F, "in")
    if kind == "garbage":
        open(p, "wb").write(b"\x00\x01garbage\n" * 30)
    elif kind == "missing file":
        os.remove(p)
    os.makedirs("sub")
    a = ["--input_file", p] if c["long"] else ["-i", p]
    if c["out"]:
        a += ["--output_file=" + c["out"]] if c["long"] else ["-o", c["out"]]
    if c["force"]:
        a += [c["force"]]
    if c["out"] == "x.sac" and (len(spec["files"][0].get("gaps", [])) or spec["files"][0].get("dropped")):
        return  # several pieces do not fit in one SAC file
    out = c["out"] or os.path.basename(p) + ".mseed"
    try:
        GS.main(a)
    except SystemExit as e:
        check(kind in ("none", "few", "missing file", "garbage") and not c["force"], lambda: "exit with %s" % e.code)
    written = sorted(f for f in glob.glob("*") + glob.glob("sub/*") if os.path.isfile(f))
    cov.label(kind); cov.label("forced", bool(c["force"]))
    if kind in ("missing file", "garbage") or (kind in ("none", "few") and not c["force"]):
        check(written == [], lambda: "%s: wrote %s" % (kind, written))
        return
    cov.nontrivial()
    L = gemlog.read_gem("in", np.arange(10000), spec["sn"], require_gps=not c["force"])
    if c["out"] == "x.sac" and len(L["data"]) != 1:
        return
    check(written == [out], lambda: "wrote %s, expected %s" % (written, out))
    got = obspy.read(out)
    check(all(t.stats.channel == "HDF" for t in got), "wrong channel")
    conv.equal_series(conv.series(got), conv.series(L["data"]), "converted file against the library", 0)


main("C23", [
    Sub("command", s_command(), f_command, 300, 5000, rule="1-3 loggers with files, of which some may be unreadable, any options; non-trivial if some logger is converted"),
    Sub("single", s_single(), f_single, 300, 5000, rule="one raw file, readable or not, with or without enough GPS; non-trivial if it is converted"),
], ["another process creating the output folders is simulated by creating them right before the library does"])
