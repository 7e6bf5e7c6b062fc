import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
from hypothesis import strategies as st
import rawgen, gens
from oracles import compare_single, valid_g, M_COLS, G_COLS, same
from runner import Sub, check, cov, main
core = gemlog.core
PLAIN = ["0.85C", "0.9", "0.91"]


def table(L, gcols=("msPPS", "msLag") + tuple(G_COLS)):
    d = np.asarray(L["data"], float)
    M = np.array([[float(x) for x in L["metadata"][c]] for c in ["millis"] + M_COLS])
    G = L["gps"]
    t = np.array([float(x) for x in G["t"]])
    g = np.array([[float(x) for x in G[c]] for c in gcols])
    ok = ~np.isnan(t)
    return {"data": d, "state": M, "gps": g[:, ok], "gps times": t[ok]}


def agree(A, B, what, tol=1e-6):
    for k in A:
        check(A[k].shape == B[k].shape, lambda: "%s: %s: shapes %s and %s" % (what, k, A[k].shape, B[k].shape))
        check(same(A[k], B[k], tol), lambda: "%s: %s differ by up to %g" % (what, k, np.max(np.abs(A[k] - B[k]))))


@st.composite
def s_readers(draw):
    spec = draw(gens.decode_spec(PLAIN, nmax=500))
    return {"spec": spec, "offset": draw(st.one_of(st.just(0), st.integers(0, 10 ** 6)))}


def f_readers(c):
    spec = c["spec"]
    F = rawgen.build(spec)[0]
    if not F.M or not any(valid_g(g) for g in F.G):
        return
    cov.nontrivial(); cov.label(F.version); cov.label("debug", spec["debug"]); cov.label("offset", c["offset"] > 0)
    p = rawgen.write(F, "raw")
    T = {}
    for name, rd in (("compiled", core._read_with_cython), ("table", core._read_with_pandas)):
        L = core._process_gemlog_data(rd(p), c["offset"], version=F.version)
        T[name] = table(L)
    agree(T["compiled"], T["table"], "compiled vs table reader")
    # the reference reader starts from the offset modulo the rollover, and has no valid-date test
    Ls = core._slow__read_single_v0_9(p, c["offset"])
    S = table(Ls)
    k = c["offset"] - c["offset"] % 2 ** 13
    S["data"][:, 0] += k
    S["state"][0] += k
    S["gps"][0] += k
    d = round((T["compiled"]["data"][0, 0] - S["data"][0, 0]) / 2 ** 13) * 2 ** 13   # whole rollovers
    S["data"][:, 0] += d; S["state"][0] += d; S["gps"][0] += d
    check(d == 0 or c["offset"] > 0, "compiled vs reference reader: counts differ by %d" % d)
    agree(T["compiled"], S, "compiled vs reference reader")


@st.composite
def s_compact(draw):
    spec = draw(gens.decode_spec(["0.91"], nmax=900))
    spec["mode"] = draw(st.sampled_from(["small", "small", "walk"]))
    spec["amp"] = draw(st.sampled_from([3, 12, 20]))
    spec["enc"] = "plain"
    return {"spec": spec, "enc": draw(st.sampled_from(["auto", "one", "mixed", "plain"])), "offset": draw(st.sampled_from([0, 777, 99999]))}


def f_compact(c):
    a = dict(c["spec"])
    b = dict(a, version="1.10", enc=c["enc"])
    if c["enc"] == "one":
        a["jit"] = b["jit"] = 0
        a["dt"] = b["dt"] = 10.0
    Fa, Fb = rawgen.build(a)[0], rawgen.build(b)[0]
    assert np.array_equal(Fa.cnt, Fb.cnt) and np.array_equal(Fa.adc, Fb.adc) and Fa.M == Fb.M and Fa.G == Fb.G
    if not Fa.M or not any(valid_g(g) for g in Fa.G):
        return
    ncomp = sum(l[0].islower() for l in Fb.lines)
    cov.nontrivial(ncomp > 0); cov.label("one-letter", any(l[0].islower() and not l[1].islower() for l in Fb.lines))
    cov.label("two-letter", any(l[0].islower() and l[1].islower() for l in Fb.lines)); cov.label("D-single", any(l[0] == "D" and "," not in l for l in Fb.lines))
    pa, pb = rawgen.write(Fa, "a"), rawgen.write(Fb, "b")
    A = table(core._read_single(pa, c["offset"], version="0.91"))
    B = table(core._read_single(pb, c["offset"], version="1.10"))
    agree(A, B, "plain vs compact encoding")
    # the block reader must give the same as well (it reads every format with one setting)
    A2, B2 = core._read_single(pa, c["offset"]), core._read_single(pb, c["offset"])
    agree(A, table(A2), "plain encoding, default version")
    agree(A, table(B2), "compact encoding, default version")


@st.composite
def s_layout(draw):
    spec = draw(gens.decode_spec(["0.8", "0.85"] + PLAIN + ["1.10"], nmax=300))
    spec["eol"] = "\n"
    spec["debug"] = 0
    return {"spec": spec, "eol": draw(st.sampled_from(["\n", "\r\n"])), "blank": draw(st.lists(st.floats(0, 1), max_size=6)),
            "dbg": draw(st.lists(st.tuples(st.floats(0, 1), st.sampled_from(["P,101.25", "R,0,$GPRMC,000407.000,A,4340.0465,N,11617.6065,W,0.11,230.16,291220,,,A*72", "R,2,$GPGGA,1,2"])), max_size=6))}


def f_layout(c):
    spec = c["spec"]
    F = rawgen.build(spec)[0]
    if not F.M or not any(valid_g(g) for g in F.G):
        return
    cov.nontrivial(bool(c["blank"] or c["dbg"] or c["eol"] != "\n"))
    cov.label(F.version); cov.label("crlf", c["eol"] == "\r\n")
    p = rawgen.write(F, "a")
    A = core._read_single(p, 0, version=F.version)
    F2 = rawgen.build(spec)[0]
    ins = [(x, "") for x in c["blank"]] + [tuple(x) for x in c["dbg"]]
    for pos, txt in ins:
        F2.lines.insert(1 + int(pos * (len(F2.lines) - 1)), txt + "\n")
    F2.header = [l.replace("\n", c["eol"]) for l in F2.header]
    F2.lines = [l.replace("\n", c["eol"]) for l in F2.lines]
    q = rawgen.write(F2, "b")
    B = core._read_single(q, 0, version=F.version)
    for k in ("data",):
        check(same(A[k], B[k], 1e-9), "layout changes alter the samples read")
    for k in ("metadata", "gps"):
        cols = [x for x in A[k].columns if x != "index"]
        check(len(A[k]) == len(B[k]), "layout changes alter the number of %s rows" % k)
        for col in cols:
            check(same([float(x) for x in A[k][col]], [float(x) for x in B[k][col]], 1e-9), lambda: "layout changes alter %s column %s" % (k, col))


main("C02", [
    Sub("readers", s_readers(), f_readers, 1200, 15000, rule="one plain-format file read by the three readers; non-trivial: a valid fix and a state row present"),
    Sub("compact", s_compact(), f_compact, 900, 15000, rule="one recording encoded plain and compact; non-trivial: compact lines present"),
    Sub("layout", s_layout(), f_layout, 400, 6000, rule="file with changed line ends, blank and debug lines; non-trivial: something changed"),
], ["the compact line code follows the comments of the format converter in the source"])
