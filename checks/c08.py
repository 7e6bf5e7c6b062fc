import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np, obspy
from hypothesis import strategies as st
import rawgen, gens, conv
from runner import Sub, check, cov, main
U = obspy.UTCDateTime


def convert(out, spec, **kw):
    gemlog.convert(kw.pop("raw", "raw"), out, metadatapath="m" + out, gpspath="g" + out, **{"SN": spec["sn"], **kw})
    return conv.series(conv.read_folder(out).values(), out) if os.path.isdir(out) else (np.zeros(0, np.int64), np.zeros(0))


@st.composite
def s_when(draw):
    """A time described relative to the recording: resolved when the recording is known."""
    k = draw(st.sampled_from(["frac", "frac", "frac", "fileend", "gap", "before", "after", "second", "mid", "abs"]))
    return [k, draw(st.floats(0, 1)), draw(st.sampled_from([0, 0, 0.001, 0.005, -0.01, 0.01, 0.0033, -0.5])), draw(st.sampled_from([0, 0, 1, 2, 3]))]


@st.composite
def s_interval(draw):
    spec = draw(gens.timing_spec(("0.91", "1.10"), nfiles=(1, 4), secs=(15, 30)))
    if draw(st.integers(0, 4)) == 0:
        spec["quad"] = 0
        for f in spec["files"][1:]:
            f["gap_before"] = draw(st.sampled_from([0, 84375000, 42187500]))
    asks = []
    for _ in range(draw(st.integers(1, 3))):
        asks.append([draw(st.one_of(st.none(), s_when())), draw(st.one_of(st.none(), s_when())), draw(st.sampled_from(["utc", "float", "np", "int"])),
                     draw(st.sampled_from(["utc", "float", "np", "int"])), draw(st.sampled_from([24, 24, 10 / 3600, 1 / 60, 7 / 3600]))])
    return {"spec": spec, "asks": asks, "bd": draw(st.sampled_from([1, 1, 0.25, 1 / 12]))}


def resolve(w, t, Fs):
    if w is None:
        return None
    k, f, off, j = w
    x = {"frac": t[0] + f * (t[-1] - t[0]), "fileend": Fs[min(len(Fs) - 1, j)].t[-1], "before": t[0] - 3600 * f - 3, "after": t[-1] + 3600 * f + 3,
         "second": round(t[0] + f * (t[-1] - t[0])), "mid": (Fs[0].t[-1] + Fs[-1].t[0]) / 2}.get(k)
    if k == "abs":          # far from any recording; 0 is a time like any other
        return [0.0, 0.0, 1.0, 946684800.0, 4.0e9][int(f * 4.999)]
    if k == "gap":
        d = np.diff(t)
        g = np.where(d > 0.02)[0]
        x = t[0] if not len(g) else t[g[int(f * (len(g) - 1))]] + d[g[int(f * (len(g) - 1))]] / 2
    return round(x + off, 4)


def cast(x, how):
    if x is None:
        return None
    return U(x) if how == "utc" else float(x) if how == "float" else np.float64(x) if how == "np" else int(np.floor(x))


def blockends(Fs, bd):
    nums = [F.num for F in Fs]
    grp = [int((n - min(nums)) // (12 * bd) + 1e-9) for n in nums]
    out = []
    for a, b, F, G in zip(grp, grp[1:], Fs, Fs[1:]):
        if a != b:
            out += [F.t[-1], G.t[0]]
    return out


def f_interval(c):
    spec = c["spec"]
    Fs = rawgen.build(spec)
    for F in Fs:
        rawgen.write(F, "raw")
    t = np.concatenate([F.t for F in Fs])
    full = convert("full", spec, t1=0, blockdays=c["bd"])
    check(len(full[0]) > 0 and abs(full[0][0] * 0.01 - t[0]) < 0.03 or np.diff(t[:40]).max() > 0.02, lambda: "converting from time 0 starts at %.3f, recording at %.3f" % (full[0][0] * 0.01, t[0]))
    dflt = convert("dflt", spec, blockdays=c["bd"])
    m = full[0] >= 100 * int(np.ceil(full[0][0] * 0.01 - 1e-6))
    conv.equal_series(dflt, (full[0][m], full[1][m]), "conversion without times versus from time 0")
    be = blockends(Fs, c["bd"])
    for q, (w1, w2, h1, h2, length) in enumerate(c["asks"]):
        t1, t2 = cast(resolve(w1, t, Fs), h1), cast(resolve(w2, t, Fs), h2)
        if any(x is not None and abs(float(x) - b) < 0.1 for x in (t1, t2) for b in be):
            continue            # the few samples that bridge two separately read blocks
        kw = {}
        if t1 is not None:
            kw["t1"] = t1
        if t2 is not None:
            kw["t2"] = t2
        if not kw:
            continue
        ref = full if t1 is not None else dflt
        T = ref[0] * 0.01
        m = np.ones(len(T), bool)
        if t1 is not None:
            m &= T >= float(t1) - 1e-6
        if t2 is not None:
            m &= T <= float(t2) + 1e-6
        cov.nontrivial(0 < m.sum() < len(m)); cov.label("empty", not m.any()); cov.label("reversed", t1 is not None and t2 is not None and float(t1) > float(t2))
        cov.label("one bound", len(kw) == 1); cov.label("beyond first block", t1 is not None and bool(be) and float(t1) > be[0])
        got = convert("o%d" % q, spec, blockdays=c["bd"], file_length_hour=length, **kw)
        conv.equal_series(got, (ref[0][m], ref[1][m]), "conversion with %r of %.3f-%.3f" % (kw, t[0], t[-1]))


@st.composite
def s_select(draw):
    spec = draw(gens.timing_spec(("0.91", "1.10"), nfiles=(2, 4), secs=(14, 20)))
    other = draw(gens.timing_spec(("0.91", "1.10"), nfiles=(1, 2), secs=(14, 16)))
    other["sn"] = draw(gens.other_sn(spec["sn"]))
    nums = [f["num"] for f in spec["files"]]
    n = draw(st.one_of(st.lists(st.sampled_from(nums + [nums[0] + 1, 7777]), min_size=1, max_size=4), st.just([]), st.just([8888])))
    return {"spec": spec, "other": other, "nums": n, "as": draw(st.sampled_from(["list", "array", "int", "range"])), "txt": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
            "bd": draw(st.sampled_from([1, 0.25]))}


def f_select(c):
    spec, other = c["spec"], c["other"]
    Fs, Os = rawgen.build(spec), rawgen.build(other)
    for i, F in enumerate(Fs):
        txt = c["txt"][i]
        rawgen.write(F, "raw", "FILE%04d.TXT" % F.num if txt else None)
        rawgen.write(F, "all")
    taken = set(os.listdir("raw"))
    for F in Os:
        n = "FILE%04d.TXT" % F.num if c["txt"][-1] else F.name
        if n not in taken:
            rawgen.write(F, "raw", n)
    have = [F.num for F in Fs]
    nums = c["nums"]
    if c["as"] == "int":
        nums = nums[:1]
    elif c["as"] == "range" and nums:
        nums = list(range(min(nums), max(nums) + 1))
    want = [F for F in Fs if F.num in nums] if len(nums) else Fs
    arg = {"list": nums, "array": np.array(nums), "int": nums[0] if nums else [], "range": range(min(nums), max(nums) + 1) if nums else []}[c["as"]]
    cov.nontrivial(0 < len(want) < len(Fs) or any(c["txt"])); cov.label("none match", not want)
    if not want:
        try:
            convert("out", spec, nums=arg)
        except gemlog.MissingRawFiles:
            return
        check(False, "file numbers %r match no file but no missing-files error was raised" % (nums,))
    for F in want:
        rawgen.write(F, "sub")
    if [F.num for F in want][0] != have[0]:       # block grouping starts at the first selected file either way
        cov.label("first file not selected")
    exp = convert("exp", spec, raw="sub", blockdays=c["bd"])
    got = convert("got", spec, nums=arg, blockdays=c["bd"])
    conv.equal_series(got, exp, "nums=%r" % (arg,))
    # a serial number that no file carries
    free = [s for s in gens.SNS if s not in (spec["sn"], other["sn"])][0]
    try:
        gemlog.convert("raw", "none", SN=free)
    except gemlog.MissingRawFiles:
        pass
    else:
        check(False, "no error for a serial number that no file carries")
    check(not os.path.exists("none"), "output folder made for an absent serial number")
    # the other logger's files too
    mine = [F for F in Os if ("FILE%04d.TXT" % F.num if c["txt"][-1] else F.name) not in taken]
    if mine:
        for F in mine:
            rawgen.write(F, "oraw")
        conv.equal_series(convert("oth", other), convert("oexp", other, raw="oraw"), "other logger")
    # reading directly follows the same selection
    L = gemlog.read_gem("raw", np.array([F.num for F in want]), spec["sn"])
    R = gemlog.read_gem("sub", np.arange(10000), spec["sn"])
    conv.equal_series(conv.series(L["data"]), conv.series(R["data"]), "read_gem of selected numbers")


main("C08", [
    Sub("interval", s_interval(), f_interval, 320, 6000, rule="recording converted fully and for 1-3 intervals relative to it (inside, on file ends, in gaps, outside, reversed; four number types); non-trivial: part of the recording is selected"),
    Sub("select", s_select(), f_select, 140, 2600, rule="folder with two loggers' files (some named .TXT) converted with a choice of file numbers; non-trivial: a proper subset or .TXT names"),
], ["intervals starting or ending within 0.1 s of the join of two separately read blocks are not compared"])
