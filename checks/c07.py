import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np, obspy
from hypothesis import strategies as st
import rawgen, gens, conv
from runner import Sub, check, cov, main

LENGTHS = [86400, 3600, 60, 10, 7, 30, 12.5, 1, 2, 25.25, 3600 / 7, 100 / 7, 33.333, 20.005]


@st.composite
def convs(draw):
    # ["edge", ...]: a length that puts a boundary beside the first or last sample of a piece of the recording
    return {"len": draw(st.one_of(st.sampled_from(LENGTHS), st.tuples(st.just("edge"), st.integers(0, 9), st.booleans(), st.integers(-2, 3), st.integers(0, 20)))), "bd": draw(st.sampled_from([1, 1, 1, 0.5, 0.25, 1 / 12, 0.1, 2, 7])), "fmt": draw(st.sampled_from(["MSEED", "MSEED", "mseed", "SAC"])),
            "net": draw(st.sampled_from(["", "XY"])), "sta": draw(st.sampled_from(["", "ABC", "S0001"])), "loc": draw(st.sampled_from(["", "01"]))}


@st.composite
def s_chunks(draw):
    spec = draw(gens.timing_spec(("0.91", "1.10", "0.9"), nfiles=(1, 4), secs=(16, 40)))
    days = draw(st.integers(0, 3))
    if days == 3 and len(spec["files"]) > 1:
        spec["quad"] = 0
        for f in spec["files"][1:]:
            if draw(st.booleans()):
                f["gap_before"] = draw(st.sampled_from([84375000, 84375000 * 3, 84375000 - 40000, 3515625, 42187500]))
    if draw(st.integers(0, 3)) == 0:        # several short breaks close together
        f = spec["files"][draw(st.integers(0, len(spec["files"]) - 1))]
        a = draw(st.floats(0.05, 0.9))
        f["gaps"] = [[a, draw(st.integers(30, 400))], [a + draw(st.floats(0.002, 0.03)), draw(st.integers(30, 400))]]
    return {"align": draw(st.sampled_from([None, None, None, 0, 0, 0.01, -0.01])), "spec": spec, "a": draw(convs()), "b": draw(convs())}


def resolve(length, t):
    if not isinstance(length, (list, tuple)):
        return length
    _, seg, end, off, pick = length
    brk = np.where(np.diff(t) > 0.025)[0]
    ends = t[np.hstack([brk, len(t) - 1])] if end else t[np.hstack([0, brk + 1])]
    N = int(round(ends[seg % len(ends)] * 100)) - off
    div = [d for d in range(90, 6000) if N % d == 0]
    return div[pick % len(div)] / 100 if div else 10


def blocks(nums, bd):
    out, n1 = [], min(nums)
    while n1 <= max(nums):
        b = tuple(n for n in nums if n1 <= n < n1 + 12 * bd)
        if b:
            out.append(b)
        n1 += 12 * bd
    return out


def fname(tr, c, sn, hundredths=False):
    t = obspy.UTCDateTime(ns=int(round(tr.stats.starttime._ns, -6)))
    s = t.strftime("%Y-%m-%dT%H_%M_%S")
    if hundredths:
        s += "_%02d" % (t.microsecond // 10000)
    return "%s.%s.%s.%s.HDF.%s" % (s, c["net"], c["sta"] or sn, c["loc"], c["fmt"].lower())


def run(c, spec, out):
    gemlog.convert("raw", out, metadatapath="m" + out, gpspath="g" + out, SN=spec["sn"], blockdays=c["bd"], file_length_hour=c["len"] / 3600,
                   network=c["net"], station=c["sta"], location=c["loc"], output_format=c["fmt"])
    trs = conv.read_folder(out, c["fmt"])
    plain = {}
    L = float(c["len"] / 3600) * 3600
    for f, tr in trs.items():
        a, b = tr.stats.starttime._ns / 1e9, tr.stats.endtime._ns / 1e9
        check(int((a + 2e-6) // L) == int((b - 2e-6) // L) or a == b, lambda: "%s (%.3f-%.3f) spans two intervals of %r s" % (f, a, b, L))
        n = fname(tr, c, spec["sn"])
        plain.setdefault(n, []).append((tr.stats.starttime._ns, f, tr))
        check(tr.id == "%s.%s.%s.HDF" % (c["net"], c["sta"] or spec["sn"], c["loc"]), lambda: "%s: codes are %s" % (f, tr.id))
    for n, l in plain.items():
        l.sort(key=lambda x: x[0])
        check(l[0][1] == n, lambda: "%s should be named %s" % (l[0][1], n))
        for ns, f, tr in l[1:]:
            check(f == fname(tr, c, spec["sn"], True), lambda: "%s should be named %s" % (f, fname(tr, c, spec["sn"], True)))
    cov.label("same second", any(len(l) > 1 for l in plain.values()))
    return conv.series(trs.values(), out)


def f_chunks(c):
    spec = c["spec"]
    Fs = rawgen.build(spec)
    if c["align"] is not None:  # first sample on, or next to, a whole second
        spec = dict(spec, t0=spec["t0"] + float(np.ceil(Fs[0].t[0]) + c["align"] - Fs[0].t[0]))
        Fs = rawgen.build(spec)
        cov.label("first sample on a whole second", c["align"] == 0)
    for F in Fs:
        rawgen.write(F, "raw")
    before = conv.digest("raw")
    t = np.concatenate([F.t for F in Fs])
    d = np.diff(t)
    if np.any(np.abs(d - 0.025) < 1.5e-3) or np.any(np.abs(d - 0.031) < 6e-3):
        return
    nums = [F.num for F in Fs]
    cov.label("boundary at an end", not np.isscalar(c["a"]["len"]))
    c = dict(c, a=dict(c["a"], len=resolve(c["a"]["len"], t)), b=dict(c["b"], len=resolve(c["b"]["len"], t)))
    cov.nontrivial(len(Fs) > 1 or c["a"]["len"] < 60)
    ba, bb = blocks(nums, c["a"]["bd"]), blocks(nums, c["b"]["bd"])
    cov.label("several blocks", len(ba) > 1); cov.label("day gaps", bool(np.any(d > 40000))); cov.label("fractional length", c["a"]["len"] % 1 != 0)
    A = run(c["a"], spec, "outA")
    check(conv.digest("raw") == before, "the raw files were changed")
    # the first sample: the first whole second of the recording
    first = A[0][0] * 0.01
    rec0 = t[0]
    err = 0.0015 if spec["version"] in ("0.91", "1.10") else 0.003  # of the clock
    e0s = [np.ceil(np.round(rec0 + x, 2)) for x in (-err, err)]  # sample times are whole hundredths
    ok0 = any(abs(first - e0) < 1e-6 for e0 in e0s)
    if not ok0 and first >= e0s[0]:
        # a gap may be where that whole second would be: then nothing but bits too short to resample may precede the first sample
        brk = np.where(np.diff(t) > 0.024)[0]
        e0 = e0s[-1]
        ok0 = all((y if x < e0 - 0.0065 else min(y, first)) - max(x, e0) < 0.033 for x, y in zip(t[np.hstack([0, brk + 1])], t[np.hstack([brk, len(t) - 1])]))
    check(ok0, lambda: "conversion of a recording from %.3f starts at %.2f" % (rec0, first))
    conv.covered(A[0], t, np.ceil(rec0 + 0.0065), "output", slack=0.033 if len(ba) == 1 else 0.055)
    w = spec["wave"]
    sl = sum(2 * np.pi * abs(a) * f for a, f, p in w["sines"])
    s4 = sum(abs(a) * (2 * np.pi * f) ** 4 for a, f, p in w["sines"]) * 0.025 ** 4 / 24
    s2 = sum(abs(a) * (2 * np.pi * f) ** 2 for a, f, p in w["sines"]) * 0.04 ** 2 / 8
    e = np.abs(A[1] - rawgen.wave(w, A[0] * 0.01))
    # samples that bridge short gaps are interpolated linearly between neighbours
    k = int(e.argmax())
    lim = 4 + s4 + sl * (0.0005 if spec["version"] in ("0.91", "1.10") else 0.0015)
    edge = np.zeros(len(t), bool)
    tt = A[0] * 0.01
    j = np.searchsorted(t, tt)
    near = (np.abs(t[np.clip(j - 3, 0, len(t) - 1)] - tt) > 0.045) | (np.abs(t[np.clip(j + 2, 0, len(t) - 1)] - tt) > 0.045)
    nb = np.zeros(len(tt), bool)
    for F in Fs:
        for x in (F.t[0], F.t[-1]):
            nb |= np.abs(tt - x) < 0.045
    L = np.where(near | nb, lim + s2, lim)
    k = int((e - L).argmax())
    check(e[k] <= L[k], lambda: "at %.2f the output reads %r, off by %.1f (limit %.1f)" % (tt[k], A[1][k], e[k], L[k]))
    # a differently chunked conversion of the same recording
    B = run(c["b"], spec, "outB")
    if ba == bb:
        conv.equal_series(B, A, "output with %r versus %r" % (c["b"], c["a"]))
    else:
        bt = [F.t[0] for F in Fs] + [F.t[-1] for F in Fs] + list(t[1:][d > 0.025]) + list(t[:-1][d > 0.025])
        def away(S):
            m = np.ones(len(S[0]), bool)
            for x in bt:
                m &= np.abs(S[0] * 0.01 - x) > 0.06
            return S[0][m], S[1][m]
        conv.equal_series(away(B), away(A), "output with %r versus %r" % (c["b"], c["a"]), tol=1 + sl * 2e-5)
        conv.covered(B[0], t, np.ceil(rec0 + 0.0065), "output B", slack=0.055)
    check(conv.digest("raw") == before, "the raw files were changed")


main("C07", [
    Sub("chunks", s_chunks(), f_chunks, 400, 6000, rule="recording of 1-4 files converted twice with different output lengths, block sizes, formats and codes; non-trivial: several files or outputs shorter than a minute"),
], ["recordings sampled from an analytic waveform below 4 Hz; samples within 60 ms of a raw file's ends may differ between block sizes"])
