import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import contextlib, glob, logging, random, shutil, time
import numpy as np
import obspy
from hypothesis import strategies as st
import gemlog.gemconvert
import conv, gens, rawgen
from runner import Sub, check, cov, main, Violation
GC = sys.modules["gemlog.gemconvert"]
LENGTHS = [24, 1, 10 / 3600, 7 / 3600, 0.0125]


class Interrupted(BaseException):
    pass


@contextlib.contextmanager
def interruption(k, kind):
    """The k-th waveform file written is left unfinished and the conversion ends there."""
    T, S = obspy.core.trace.Trace, obspy.core.stream.Stream
    left, inside = [k], [0]

    def wrap(real):
        def write(self, filename, *a, **kw):
            if inside[0]:
                return real(self, filename, *a, **kw)
            inside[0] += 1
            try:
                left[0] -= 1
                if left[0] < 0:
                    if kind != "disk full":
                        real(self, filename, *a, **kw)
                    with open(filename, "ab") as f:
                        f.truncate(os.path.getsize(filename) // 3)
                    raise OSError(28, "No space left on device") if kind == "disk full" else Interrupted()
                return real(self, filename, *a, **kw)
            finally:
                inside[0] -= 1
        return write
    rt, rs = T.write, S.write
    T.write, S.write = wrap(rt), wrap(rs)
    try:
        yield left
    except (OSError, Interrupted):
        pass
    except Exception as e:          # the disk error may have been rephrased
        if left[0] >= 0:
            raise
    finally:
        T.write, S.write = rt, rs


@st.composite
def s_history(draw):
    spec = draw(gens.timing_spec(("0.91", "1.10", "0.9"), nfiles=(2, 4), secs=(16, 30)))
    k = len(spec["files"])
    op = st.one_of(
        st.tuples(st.just("all")),
        st.tuples(st.just("nums"), st.lists(st.integers(0, k - 1), min_size=1, max_size=3, unique=True)),
        st.tuples(st.just("span"), st.floats(0, 1), st.floats(0.02, 1)),
        st.tuples(st.just("stop"), st.integers(0, 5), st.sampled_from(["killed", "disk full"])),
        st.tuples(st.just("add")), st.tuples(st.just("add")))
    return {"spec": spec, "ops": draw(st.lists(op, min_size=1, max_size=4)), "start": draw(st.integers(1, k)), "len": draw(st.sampled_from(LENGTHS)), "bd": draw(st.sampled_from([1, 1, 1 / 12])), "fmt": draw(st.sampled_from(["mseed", "mseed", "sac"])),
            "cmd": draw(st.booleans()), "procs": draw(st.sampled_from([1, 1, 2])), "other": draw(st.booleans())}


def convert(c, raw, out, **kw):
    gemlog.convert(raw, out + "w", metadatapath=out + "m", gpspath=out + "g", SN=c["spec"]["sn"], file_length_hour=c["len"], blockdays=c["bd"], output_format=c["fmt"], **kw)


def command(c, raw, out):
    for h in list(logging.getLogger().handlers):
        logging.getLogger().removeHandler(h)
        h.close()
    GC.main(["-i", raw, "-o", out, "-f", c["fmt"], "-l", repr(c["len"]), "-s", c["spec"]["sn"], "-p", str(c["procs"])])


def f_history(c):
    spec = c["spec"]
    Fs = rawgen.build(spec)
    n = c["start"]
    for F in Fs[:n]:
        rawgen.write(F, "raw")
    T = np.concatenate([F.t for F in Fs])
    partial = 0
    kinds = []
    for o in c["ops"]:
        before = {d: conv.digest(d) for d in ("am", "ag")}
        kinds.append(o[0])
        if o[0] == "add":
            if n < len(Fs):
                rawgen.write(Fs[n], "raw")
                n += 1
            continue
        raised = None
        try:
            if o[0] == "all":
                convert(c, "raw", "a")
            elif o[0] == "nums":
                convert(c, "raw", "a", nums=[Fs[i].num for i in o[1] if i < n] or [Fs[0].num])
            elif o[0] == "span":
                a = np.floor(T[0]) + o[1] * (T[-1] - T[0])
                convert(c, "raw", "a", t1=float(a), t2=float(a + max(3, o[2] * (T[-1] - a))))
            else:
                with interruption(o[1], o[2]) as left:
                    convert(c, "raw", "a")
                cov.label("interrupted", left[0] < 0)
        except gemlog.MissingRawFiles:
            pass
        for d in before:
            now = conv.digest(d)
            check(all(now.get(f) == h for f, h in before[d].items()), lambda: "operation %s changed or removed an earlier table: %s" % (o, [f for f, h in before[d].items() if now.get(f) != h]))
    for F in Fs[n:]:
        rawgen.write(F, "raw")
    raw0 = conv.digest("raw")
    cov.nontrivial(any(k != "add" for k in kinds)); cov.label("files added later", "add" in kinds or c["start"] < len(Fs)); cov.label("partial conversions", "nums" in kinds or "span" in kinds); cov.label("command", c["cmd"]); cov.label("repeated", "all" in kinds)
    old = conv.files("aw")
    stale = conv.digest("aw")
    if c["cmd"]:
        c = dict(c, bd=1)
        # the command keeps its tables in folders of its own
        before = {d: conv.digest(d) for d in ("gps", "metadata")}
        command(c, "raw", "aw")
        os.makedirs("clean"); shutil.copytree("raw", "clean/raw")
        os.chdir("clean"); command(c, "raw", "bw"); os.chdir("..")
        b = "clean/bw"
    else:
        convert(c, "raw", "a")
        convert(c, "raw", "b")
        b = "bw"
    check(conv.digest("raw") == raw0, "the raw files were changed")
    have, want = conv.digest("aw"), conv.digest(b)
    check(len(want) > 0, "nothing was written")
    bad = [f for f in sorted(want) if have.get(f) != want[f]]
    if bad:                         # not byte for byte: compare the contents
        for f in bad:
            check(f in have, lambda: "%s is missing after the operations %s" % (f, kinds))
            x, y = obspy.read("aw/" + f), obspy.read(b + "/" + f)
            conv.equal_series(conv.series(x), conv.series(y), "%s after the operations %s" % (f, kinds))
            check([tr.id for tr in x] == [tr.id for tr in y], "codes differ")
    extra = [f for f in have if f not in want]
    check(all(f in old for f in extra), lambda: "a complete conversion wrote %s only because of earlier operations" % [f for f in extra if f not in old])
    check(all(have[f] == stale[f] for f in extra), lambda: "files of other conversions changed: %s" % [f for f in extra if have[f] != stale[f]])


@st.composite
def s_parts(draw):
    spec = draw(gens.timing_spec(("0.91", "1.10"), nfiles=(2, 4), secs=(16, 30)))
    return {"spec": spec, "len": draw(st.sampled_from(LENGTHS)), "bd": 1, "fmt": draw(st.sampled_from(["mseed", "sac"])), "by": draw(st.sampled_from(["nums", "span"])),
            "cuts": sorted(draw(st.lists(st.floats(0.03, 0.97), min_size=1, max_size=3, unique=True))), "order": draw(st.integers(0, 5))}


def f_parts(c):
    spec = c["spec"]
    Fs = rawgen.build(spec)
    for F in Fs:
        rawgen.write(F, "raw")
    T = np.concatenate([F.t for F in Fs])
    convert(c, "raw", "whole")
    whole = conv.series(conv.read_folder("wholew", c["fmt"]).values())
    joins = []
    if c["by"] == "nums":
        k = sorted({1 + int(x * (len(Fs) - 1)) for x in c["cuts"]})
        k = [0] + [x for x in k if x < len(Fs)] + [len(Fs)]
        parts = [{"nums": [F.num for F in Fs[a:b]]} for a, b in zip(k[:-1], k[1:])]
        joins = [(Fs[i - 1].t[-1] - 0.05, max(np.ceil(Fs[i].t[0] + 0.008) + 0.02, Fs[i].t[0] + 0.04)) for i in k[1:-1]]
    else:
        cut = sorted({int(round(T[0] + x * (T[-1] - T[0]))) for x in c["cuts"]})
        ends = [int(T[0]) - 10] + cut + [int(T[-1]) + 10]
        parts = [{"t1": obspy.UTCDateTime(a), "t2": obspy.UTCDateTime(b) - (0.01 if b is not ends[-1] else 0)} for a, b in zip(ends[:-1], ends[1:])]
    np.random.default_rng(c["order"]).shuffle(parts)
    cov.nontrivial(len(parts) > 1); cov.label("by " + c["by"])
    for p in parts:
        convert(c, "raw", "a", **p)
    got = conv.series(conv.read_folder("aw", c["fmt"]).values(), "parts in one folder")
    if joins:
        keep = lambda s: np.all([(s[0] * 0.01 < a) | (s[0] * 0.01 > b) for a, b in joins], axis=0)
        kw, kg = keep(whole), keep(got)
        # clocks fitted to other sets of files differ by a fraction of a millisecond
        sl = sum(2 * np.pi * abs(a) * f for a, f, p in spec["wave"]["sines"]) * 0.003 + 4
        wi, gi = set(whole[0][kw].tolist()), set(got[0][kg].tolist())
        d = sorted(wi ^ gi)
        brk = np.concatenate([T[:1], T[-1:], T[:-1][np.diff(T) > 0.02], T[1:][np.diff(T) > 0.02]])
        far = [x for x in d if np.abs(brk - x * 0.01).min() > 0.035 and not (x * 0.01 < np.ceil(T[0]) + 1)]
        check(not far, lambda: "converting in parts: sample at %.2f is %s" % (far[0] * 0.01, "missing" if far[0] in wi else "extra"))
        both = np.intersect1d(whole[0][kw], got[0][kg])
        e = np.abs(whole[1][np.isin(whole[0], both)].astype(float) - got[1][np.isin(got[0], both)])
        check(len(e) == 0 or e.max() <= sl, lambda: "converting in parts changes a sample by %.1f counts" % e.max())
    else:
        late = lambda s: tuple(x[s[0] * 0.01 > np.ceil(T[0]) + 1.005] for x in s)       # what a conversion drops before the first whole second depends on its start time
        conv.equal_series(late(got), late(whole), "converting consecutive intervals into one folder")


ZONES = ["UTC", "America/Boise", "Asia/Kolkata", "XYZ-13:45", "EST5EDT"]
RAWS = ["raw", "raw[1]", "day*", "raw/", "./raw", "ABS", "a/b.c/raw", "raw data", "raw.059", "r\u00e9seau/FILE0001", "FILE0000.077"]
OUTS = ["out", "out/", "ABS", "x/y.z/out", "out put", "converted.mseed"]


@st.composite
def s_env(draw):
    spec = draw(gens.timing_spec(("0.85C", "0.91", "1.10"), nfiles=(1, 3), secs=(16, 24)))
    if draw(st.integers(0, 4)) == 0:
        spec["version"] = "0.8"
        spec["files"] = spec["files"][:1]
    return {"spec": spec, "len": draw(st.sampled_from(LENGTHS)), "bd": draw(st.sampled_from([1, 1 / 12])), "fmt": draw(st.sampled_from(["mseed", "sac"])), "zone": draw(st.sampled_from(ZONES)), "raw": draw(st.sampled_from(RAWS)), "out": draw(st.sampled_from(OUTS)),
            "shuffle": draw(st.integers(0, 10 ** 6)), "mtime": draw(st.booleans()), "tables": draw(st.sampled_from([["m", "g"], ["t", "t"], ["ABS", "p/q r"], ["t/", "./u"]])), "other": draw(st.booleans())}


@contextlib.contextmanager
def shuffled(seed):
    """Folders are listed in no particular order."""
    R = random.Random(seed)
    rl, rg = os.listdir, glob.glob

    def listdir(*a, **k):
        x = rl(*a, **k)
        R.shuffle(x)
        return x

    def gglob(*a, **k):
        x = rg(*a, **k)
        R.shuffle(x)
        return x
    os.listdir, glob.glob = listdir, gglob
    try:
        yield
    finally:
        os.listdir, glob.glob = rl, rg


def f_env(c):
    spec = c["spec"]
    here = os.getcwd()
    fix = lambda p, n: os.path.join(here, "abs", n) if p == "ABS" else p
    raw, out, mp, gp = fix(c["raw"], "raw"), fix(c["out"], "out"), fix(c["tables"][0], "m"), fix(c["tables"][1], "g")
    loggers = [spec]
    if c["other"]:
        other = dict(spec, sn="%03d" % ((int(spec["sn"]) + 7) % 990 + 3), seed=spec["seed"] + 1)
        loggers.append(other)
    for s in loggers:
        for F in rawgen.build(s):
            if s["version"] == "0.8" and s is not spec:
                F.name = "FILE%04d.%s" % (F.num, F.sn)
            rawgen.write(F, "plain")
            p = rawgen.write(F, raw)
            if c["mtime"]:
                t = 1.4e9 + (hash((c["shuffle"], F.num)) % 10 ** 8)
                os.utime(p, (t, t))
    kw = dict(SN=spec["sn"], file_length_hour=c["len"], blockdays=c["bd"], output_format=c["fmt"])
    gemlog.convert("plain", "ref", metadatapath="refm", gpspath="refg", **kw)
    old = os.environ.get("TZ")
    cov.nontrivial(); cov.label("zone " + c["zone"]); cov.label("path " + c["raw"])
    try:
        os.environ["TZ"] = c["zone"]
        time.tzset()
        with shuffled(c["shuffle"]):
            gemlog.convert(raw, out, metadatapath=mp, gpspath=gp, **kw)
    finally:
        os.environ.pop("TZ") if old is None else os.environ.__setitem__("TZ", old)
        time.tzset()
    have, want = conv.digest(out), conv.digest("ref")
    check(set(have) == set(want), lambda: "files %s, expected %s" % (sorted(have), sorted(want)))
    for f in want:
        if have[f] != want[f]:
            conv.equal_series(conv.series(obspy.read(os.path.join(out, f))), conv.series(obspy.read("ref/" + f)), f)
    for a, b in ((mp, "refm"), (gp, "refg")):
        for f in conv.files(b):
            q = os.path.join(a, f)
            check(os.path.exists(q), lambda: "table %s is missing" % q)
            check(open(q).read() == open(b + "/" + f).read(), lambda: "table %s differs" % q)
    check(set(conv.files(mp)) | set(conv.files(gp)) == set(conv.files("refm")) | set(conv.files("refg")), "other tables were written")


@st.composite
def s_tools(draw):
    spec = draw(gens.timing_spec(("0.91", "1.10"), nfiles=(2, 4), secs=(16, 22), gaps=False))
    nogps = [i > 0 and draw(st.integers(0, 2)) == 0 for i in range(len(spec["files"]))]
    nogps = [x and not y for x, y in zip(nogps, [False] + nogps)]
    for f, x in zip(spec["files"], nogps):
        if x:
            f["n"] = 400
    plain = ["x", "./v", "x y", "x.d/e", "r\u00e9seau", "ABS", "..x", "077.mseed", "FILE0001.077"]
    magic = ["x[2]", "[a-c]", "q?", "u*"]           # not for the folders that obspy reads, which takes names for patterns
    dirs = draw(st.lists(st.sampled_from(plain), min_size=5, max_size=5, unique=True))
    for i in (0, 1):
        if draw(st.integers(0, 2)) == 0:
            dirs[i] = magic[2 * i + draw(st.integers(0, 1))]
    return {"spec": spec, "nogps": nogps, "dirs": dirs, "shuffle": draw(st.integers(0, 10 ** 6)), "zone": draw(st.sampled_from(ZONES)), "len": 10 / 3600, "pat": draw(st.sampled_from(["*", "*.mseed", "20*HDF*"]))}


def f_tools(c):
    """Merging raw files, converting by command, renaming, merging days and listing files: the names of the folders don't matter."""
    import gemlog.gem_cat, gemlog.gemconvert_single
    spec, here = c["spec"], os.getcwd()
    cov.nontrivial(); cov.label("special characters", any(x in "".join(c["dirs"][:4]) for x in "[?*"))
    res = []
    for which in ("plain", "special"):
        d = ["d%d" % i for i in range(5)] if which == "plain" else [os.path.join(here, which, "abs", "z") if x == "ABS" else x for x in c["dirs"]]
        os.makedirs(which)
        os.chdir(which)
        Fs = rawgen.build(spec)
        for i, F in enumerate(Fs):
            if i and c["nogps"][i]:
                F.lines = [l for l in F.lines if not l.startswith(("G", "R", "P"))]
            rawgen.write(F, d[0])
        old = os.environ.get("TZ")
        with shuffled(c["shuffle"]) if which == "special" else contextlib.nullcontext():
            if which == "special":
                os.environ["TZ"] = c["zone"]
                time.tzset()
            try:
                gemlog.gem_cat(d[0], d[1], spec["sn"])
                for h in list(logging.getLogger().handlers):
                    logging.getLogger().removeHandler(h)
                    h.close()
                GC.main(["-i", d[1], "-o", d[2], "-l", repr(c["len"])])
                open("codes.csv", "w").write("SN,network,station,location\n%s,XX,STA,01\n" % spec["sn"])
                gemlog.rename_files(glob.escape(d[2]) + "/*", "codes.csv", d[3])
                gemlog.merge_files_day(d[3], outfile_dir=d[4])
                DB = gemlog.make_db(d[3], c["pat"], savefile="db.csv")
                sys.modules["gemlog.gemconvert_single"].main(["-i", os.path.join(d[1], "FILE0000." + spec["sn"]), "-o", os.path.join(d[4], "one.mseed")])
            finally:
                os.environ.pop("TZ") if old is None else os.environ.__setitem__("TZ", old)
                time.tzset()
        DB["filename"] = [os.path.basename(x) for x in DB["filename"]]
        res.append(([conv.digest(x) for x in d], DB.to_csv()))
        os.chdir(here)
    (a, da), (b, db) = res
    check(len(a[1]) and len(a[2]) and len(a[3]) and len(a[4]) > 1, "nothing was written")
    for i, what in enumerate(["raw", "merged raw", "converted", "renamed", "day"]):
        check(a[i] == b[i], lambda: "%s files in the folder %r differ from those in a plainly named one: %s" % (what, c["dirs"][i], sorted(f for f in set(a[i]) | set(b[i]) if a[i].get(f) != b[i].get(f))))
    check(da == db, "the database of files differs")


@st.composite
def s_repeat(draw):
    c = draw(s_tools())
    k = len(c["spec"]["files"])
    return {"spec": c["spec"], "nogps": c["nogps"], "ops": draw(st.lists(st.tuples(st.integers(1, k), st.booleans()), max_size=3)), "all": draw(st.booleans()), "bd": draw(st.sampled_from([1, 1 / 12])), "named": draw(st.sampled_from(["first", "junk", "none"]))}


def f_repeat(c):
    """Merging raw files into a folder, and writing tables by name, where that was done before."""
    spec = c["spec"]
    Fs = rawgen.build(spec)
    for i, F in enumerate(Fs):
        if i and c["nogps"][i]:
            F.lines = [l for l in F.lines if not l.startswith(("G", "R", "P"))]
    cov.nontrivial(bool(c["ops"])); cov.label("all into one", c["all"]); cov.label("named tables")
    for n, every in c["ops"]:
        for F in Fs[:n]:
            rawgen.write(F, "raw%d" % n)
        gemlog.gem_cat("raw%d" % n, "out", spec["sn"], cat_all=every)
    for F in Fs:
        rawgen.write(F, "raw")
    gemlog.gem_cat("raw", "out", spec["sn"], cat_all=c["all"])
    gemlog.gem_cat("raw", "ref", spec["sn"], cat_all=c["all"])
    have, want = conv.digest("out"), conv.digest("ref")
    check(len(want) > 0, "nothing was written")
    bad = [f for f in want if have.get(f) != want[f]]
    check(not bad, lambda: "%s differs from a merge into an empty folder, after %s" % (bad, c["ops"]))
    os.mkdir("tab")
    for f in ("m", "g"):
        if c["named"] == "junk":
            open("tab/" + f, "w").write("what was here before,1\n" * 500)
    kw = dict(SN=spec["sn"], blockdays=c["bd"])
    for _ in range(2 if c["named"] == "first" else 1):
        gemlog.convert("ref", "conv", metadatafile="tab/m", gpsfile="tab/g", **kw)
    gemlog.convert("ref", "conv", metadatapath="tm", gpspath="tg", **kw)
    for f, d in (("m", "tm"), ("g", "tg")):
        names = conv.files(d)
        check(len(names) == 1, lambda: "tables %s" % names)
        a, b = open("tab/" + f).read(), open(d + "/" + names[0]).read()
        check(a == b, lambda: "the table written by name has %d lines, the table written into a folder %d" % (a.count("\n"), b.count("\n")))
    check(conv.files("metadata") == [] and conv.files("gps") == [], "tables were also written elsewhere")


main("C28", [
    Sub("repeat", s_repeat(), f_repeat, 120, 2000, rule="up to 3 merges of some of the raw files, in either way, into a folder, then one of all, compared with a merge into an empty folder; tables written by name over earlier ones; non-trivial: at least one earlier merge"),
    Sub("history", s_history(), f_history, 300, 5000, rule="1-4 earlier conversions (whole, partial, interrupted, before more raw files came) into the folders, then a complete one, compared with a conversion into empty folders; non-trivial: at least one earlier conversion"),
    Sub("parts", s_parts(), f_parts, 250, 4000, rule="a recording converted in 2-4 parts, in any order, into one folder, compared with converting it at once; non-trivial: several parts"),
    Sub("environment", s_env(), f_env, 250, 4000, rule="time zone, spelling of paths, listing order, file dates and other loggers' files varied against a plain conversion; every case is non-trivial"),
    Sub("tools", s_tools(), f_tools, 150, 2500, rule="the same for merging raw files, both commands, renaming, day files and the file database; every case is non-trivial"),
], ["interruptions strike while a waveform file is being written"])
