import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
from hypothesis import strategies as st
import rawgen, gens, recorded
from oracles import compare_single, valid_g
from runner import Sub, check, cov, main
core = gemlog.core


@st.composite
def s_decode(draw):
    spec = draw(gens.decode_spec(rawgen.VERSIONS))
    return {"spec": spec, "offset": draw(st.one_of(st.just(0), st.integers(0, 10 ** 7), st.floats(0, 10 ** 6).map(lambda x: round(x, 2))))}


def f_decode(c):
    spec = c["spec"]
    F = rawgen.build(spec)[0]
    p = rawgen.write(F, "raw")
    nvalid = sum(valid_g(g) for g in F.G)
    R = rawgen.rollover(F.version)
    cov.label(F.version)
    cov.label("rollover", (F.cnt[-1] + spec["ms0"]) // R > (F.cnt[0] + spec["ms0"]) // R)
    cov.label("badgps", nvalid < len(F.G))
    if not nvalid or not F.M:
        # no valid fix / no state rows: decoding is not defined with GPS required; only the no-GPS refusal is checked
        if F.M:
            try:
                core._read_single(p, c["offset"], version=F.version)
            except gemlog.CorruptRawFile:
                cov.label("refused")
                return
            check(False, "a file without any valid GPS fix was read although GPS is required")
        return
    cov.nontrivial()
    L = core._read_single(p, c["offset"], version=F.version)
    compare_single(L, F, spec, c["offset"], F.version)
    L2 = core._read_single(p, c["offset"], require_gps=False, version=F.version)
    compare_single(L2, F, spec, c["offset"], F.version + " without GPS requirement")


@st.composite
def s_steady(draw):
    """Samples at exactly 10 counts, so that counts are left out of most lines, across the rollover of the counter."""
    c = draw(s_decode())
    spec = c["spec"]
    f = spec["files"][0]
    spec["version"], spec["dt"], spec["jit"], spec["enc"] = "1.10", 10.0, 0, draw(st.sampled_from(["one", "one", "mixed", "auto"]))
    spec["mode"], spec["amp"] = draw(st.sampled_from(["full", "walk", "small"])), draw(st.sampled_from([12, 30, 400]))
    f["n"] = draw(st.integers(60, 400))
    if draw(st.booleans()):
        f["gaps"] = []
    k = draw(st.integers(1, f["n"] - 20))  # the sample at which the counter rolls over
    spec["ms0"] = int(-spec["c0"] - 10 * k + draw(st.integers(0, 9))) % 2 ** 13
    return c


@st.composite
def s_junk(draw):
    c = draw(s_decode())
    c["spec"]["version"] = draw(st.sampled_from(["0.85C", "0.9", "0.91", "1.10"]))
    c["junk"] = draw(st.lists(st.tuples(st.floats(0, 1), st.sampled_from(
        ["P,123.45", "R,1,$GPGGA,000356.127,,,,,0,0,,,M,,M,,*4A", "R,6,$GPRMC,000356.127,V,,,,,0.36,196.79,291220,,,N*46", "#GemCSV0.9", "#comment,1,2", "", "S,123",
         "C,1,15,20,0,0,0", "$GPRMC", "*", "1", "Q,1,2", "E,5", "Z", " D100,5", "#D1,1"])), min_size=1, max_size=12))
    return c


def f_junk(c):
    spec = c["spec"]
    F = rawgen.build(spec)[0]
    if not any(valid_g(g) for g in F.G) or not F.M:
        return
    cov.nontrivial(); cov.label(F.version)
    for pos, txt in c["junk"]:
        i = int(pos * len(F.lines))
        F.lines.insert(i, txt + spec["eol"])
    p = rawgen.write(F, "raw")
    L = core._read_single(p, c["offset"], version=F.version)
    compare_single(L, F, spec, c["offset"], F.version + " with debug lines")


@st.composite
def s_big(draw):
    """Files of a real length and longer: merged files can exceed the first buffer of the compiled reader (1 560 000 lines)."""
    spec = draw(gens.decode_spec(["0.85C", "0.9", "0.91", "1.10"]))
    f = spec["files"][0]
    f["n"] = draw(st.one_of(st.integers(1555000, 1560000), st.integers(1560000, 1575000), st.just(730000)))
    f["m_every"] = 1000
    f["gps"].update(n=draw(st.sampled_from([900, 16000])), every=1, start=0.4)
    spec["debug"] = 0
    return {"spec": spec, "offset": draw(st.sampled_from([0, 10 ** 7]))}


@st.composite
def s_recorded(draw):
    """Slices of the sample recordings that come with the package."""
    return {"file": draw(gens.seeds), "start": draw(st.floats(0, 1)), "n": draw(st.one_of(st.integers(2, 300), st.integers(300, 20000))), "near": draw(st.booleans()), "how": draw(st.sampled_from(["as is", "as is", "plain", "plain marked 1.10", "CRLF"])),
            "offset": draw(st.one_of(st.just(0), st.integers(0, 10 ** 7)))}


def f_recorded(c):
    S = recorded.sources()
    if not S:
        return
    src = S[c["file"] % len(S)]
    F = recorded.take(src, c["start"], c["n"], c["near"])
    F.cnt, F.adc = np.array(F.cnt), np.array(F.adc)
    if not len(F.cnt) or abs((F.cnt[0] - c["offset"]) % 2 ** 13 - 2 ** 12) < 1:   # exactly between two rollovers
        return
    plain = c["how"].startswith("plain")
    v = "0.91" if c["how"] == "plain" else "1.10" if plain else F.version
    what = "%d lines of %s from %.3f, %s" % (c["n"], os.path.basename(src), c["start"], c["how"])
    F.version = v
    recorded.write(F, "raw/FILE0000." + F.sn, "\r\n" if c["how"] == "CRLF" else "\n", recorded.plain(F) if plain else None, v)
    good = [g for g in F.G if valid_g(g)]
    L = core._read_single("raw/FILE0000." + F.sn, c["offset"], require_gps=False, version=v)
    cov.nontrivial(len(good) > 0 and len(F.M) > 0); cov.label(os.path.basename(src)); cov.label(c["how"]); cov.label("short lines", any(k == "D" and "," not in l for l, k in zip(F.lines, F.kinds)))
    if F.kinds[0] != "D":
        return
    compare_single(L, F, {}, c["offset"], what)


main("C01", [
    Sub("decode", s_decode(), f_decode, 3000, 40000, rule="one synthetic file (any version, 2-900 samples, gaps, valid and invalid fixes) and a starting count; non-trivial: at least one valid fix and one state row"),
    Sub("steady", s_steady(), f_decode, 600, 10000, rule="one file of format 1.10 whose samples come at exactly 10 counts, across the rollover; non-trivial as above"),
    Sub("junk", s_junk(), f_junk, 1200, 15000, rule="difference-format file with inserted debug, header or unknown lines; non-trivial as above"),
    Sub("recorded", s_recorded(), f_recorded, 400, 8000, rule="slice of 2-20000 lines of a sample recording of the package, as it is or rewritten, against an independent decoder; non-trivial: it holds valid fixes and state rows"),
    Sub("big", s_big(), f_decode, 6, 40, maxw=2, rule="one file of 730 000 to 1 575 000 data lines; non-trivial as above"),
], ["raw files follow the line formats of the sample recordings and the format notes in the source"])
