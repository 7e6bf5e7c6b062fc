import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
from hypothesis import strategies as st
import rawgen, gens
from runner import Sub, check, cov, main
core = gemlog.core


def tolerance(w, dtmax):
    """Rounding of input and output plus cubic interpolation error at spacing up to dtmax."""
    return 4.0 + sum(abs(a) * (2 * np.pi * f) ** 4 for a, f, p in w["sines"]) * dtmax ** 4 / 24


def judge_stream(stream, t, w, what, exact=False):
    """t: sample times of the recording (increasing).  exact: the input isn't rounded to counts, so only the output's rounding is left."""
    slope = sum(2 * np.pi * abs(a) * f for a, f, p in w["sines"])
    d = np.diff(t)
    brk = np.where((d > 0.025) | (d < 0))[0]       # the clock can be set back, too: the runs then overlap in time
    ends = list(zip(np.hstack([0, brk + 1]), np.hstack([brk, len(t) - 1])))
    segs = [(t[a], t[b]) for a, b in ends]
    prev, pk = -np.inf, 0
    ivals = []
    for tr in stream:
        check(tr.stats.delta == 0.01 and abs(tr.stats.sampling_rate - 100) < 1e-9, lambda: "%s: sample interval %r" % (what, tr.stats.delta))
        ns = tr.stats.starttime._ns
        check((ns + 500) % 10000000 < 1000, lambda: "%s: trace starts off the 10 ms grid: %s" % (what, tr.stats.starttime))
        check(np.issubdtype(tr.data.dtype, np.integer), lambda: "%s: data type %s" % (what, tr.data.dtype))
        check(not np.ma.is_masked(tr.data), "masked samples")
        s = ns / 1e9
        tt = s + 0.01 * np.arange(tr.stats.npts)
        # within the recorded segments, give or take the rounding of the first sample time
        k = [i for i, (a, b) in enumerate(segs) if i >= pk and a - 0.0051 <= tt[0] and tt[-1] <= b + 0.0051 and not (i == pk and s <= prev)]
        check(len(k) >= 1, lambda: "%s: trace %.3f-%.3f lies within no run of samples without a gap over 25 ms, or comes twice or out of order" % (what, tt[0], tt[-1]))
        pk, prev = k[0], tt[-1]
        y = rawgen.wave(w, tt)
        lim = tolerance(w, 0.025) - (3.49 - 1e-6 * slope if exact else 0)
        if ends[k[0]][1] - ends[k[0]][0] < 4:      # too few samples for cubic accuracy
            lim += sum(abs(a) * (2 * np.pi * f) ** 2 for a, f, p in w["sines"]) * 2.5e-4
        e = np.abs(tr.data - y)
        i = int(e.argmax())
        check(e[i] <= lim, lambda: "%s: at %.2f the trace reads %d, the waveform is %.2f (limit %.2f)" % (what, tt[i], tr.data[i], y[i], lim))
        ivals.append((k[0], tt[0], tt[-1]))
    for i, (a, b) in enumerate(segs):
        mine = sorted((x, y) for k, x, y in ivals if k == i)
        pos = a
        lost = 0.0
        for x, y in mine:
            check(x - pos < 0.031, lambda: "%s: recorded interval %.3f-%.3f missing from the output" % (what, pos, x))
            pos = y
        check(b - pos < 0.0311, lambda: "%s: recorded interval %.3f-%.3f missing from the output" % (what, pos, b))
    return len(segs)


@st.composite
def s_table(draw):
    w = draw(gens.waves(fmax=3.0))
    n = draw(st.integers(30, 900))
    gaps = draw(st.lists(st.tuples(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0])), st.sampled_from([0.0153, 0.0149, 0.016, 0.02, 0.05, 0.3, 1.0, 0.995, 7.3, 3600.0, 0.0301])), max_size=5))
    t0 = draw(gens.t0s())
    w["tref"] = round(t0)
    back = draw(st.lists(st.tuples(st.sampled_from([0.25, 0.5, 0.75]), st.sampled_from([0.002, 0.008, 0.015, 0.02, 0.024, 0.03, 0.1, 0.3])), max_size=2, unique_by=lambda x: x[0])) if n >= 200 and draw(st.integers(0, 3)) == 0 else []
    if back:
        gaps = [g for g in gaps if all(abs(g[0] - b[0]) > 0.1 for b in back)]
    return {"n": n, "back": back, "gaps": gaps, "t0": t0, "seed": draw(gens.seeds), "jit": draw(st.sampled_from([0, 1e-4, 4e-4, 1e-3])), "dt": draw(st.sampled_from([0.0098304, 0.01, 0.0100352, 0.00999])),
            "wave": w, "dup": draw(st.lists(st.floats(0, 0.99), max_size=2)), "nan": draw(st.sampled_from([0, 0, 0, 3])), "exact": draw(st.booleans()), "quiet": draw(st.sampled_from([0, 0, 1, 2]))}


def make_times(c):
    rng = np.random.default_rng(c["seed"])
    t = c["t0"] + c["dt"] * np.arange(c["n"]) + (rng.uniform(-c["jit"], c["jit"], c["n"]) if c["jit"] else 0)
    for frac, g in c["gaps"]:
        i = min(c["n"] - 1, max(1, int(frac * c["n"])))
        t[i:] += g
    for frac, g in c.get("back", []):
        i = int(frac * c["n"])
        t[i:] -= g + c["dt"] + 2 * c["jit"]
    return t


def f_table(c):
    t = make_times(c)
    w = c["wave"]
    if c["quiet"]:                  # signals of a few counts
        w = dict(w, off=w["off"] % 41 - 20, sines=[[a / 3000 if c["quiet"] == 1 else 0, f, ph] for a, f, ph in w["sines"]])
    p = rawgen.wave(w, t)
    if not c["exact"]:
        p = np.round(p)
    d = np.diff(t)
    if np.any(np.abs(d - 0.025) < 2e-4):
        return                      # too close to the 25 ms rule to tell
    # only runs long enough to hold an output sample are claimed
    tab = np.column_stack([np.arange(len(t), dtype=float), p, t])
    idx = np.arange(len(t))
    for frac in c["dup"]:           # repeated lines: same time, same value
        i = int(frac * len(t))
        idx = np.sort(np.append(idx, i))
    tab = tab[idx]
    if c["nan"]:
        tab = np.vstack([[[0, 5, np.nan]] * c["nan"], tab])
    cov.nontrivial(bool(c["gaps"]) or c["jit"] > 0)
    cov.label("gap", bool(np.any(d > 0.025))); cov.label("bridged", bool(np.any((d > 0.012) & (d < 0.025)))); cov.label("repeated", bool(c["dup"])); cov.label("clock set back", bool(np.any(d < 0))); cov.label("exact", c["exact"])
    first = bool(d[0] > 0.025); cov.label("isolated end sample", first or bool(d[-1] > 0.025))
    st_ = core._interp_time(tab)
    judge_stream(st_, t, w, "table", c["exact"])


@st.composite
def s_read(draw):
    return {"spec": draw(gens.timing_spec(("0.91", "1.10"), nfiles=(1, 2), secs=(14, 40)))}


def f_read(c):
    spec = c["spec"]
    Fs = rawgen.build(spec)
    for F in Fs:
        rawgen.write(F, "raw")
    t = np.concatenate([F.t for F in Fs])
    if np.any(np.abs(np.diff(t) - 0.025) < 1.5e-3):
        return
    cov.nontrivial(any(f["gaps"] for f in spec["files"]) or len(Fs) > 1)
    cov.label("gaps", any(f["gaps"] for f in spec["files"]))
    L = gemlog.read_gem("raw", np.arange(10000), spec["sn"])
    w = dict(spec["wave"])
    # the clock fit is good to a fraction of a millisecond: widen by that times the slope
    sl = sum(2 * np.pi * abs(a) * f for a, f, p in w["sines"])
    n = len(L["data"])
    lim = tolerance(w, 0.025) + sl * 0.0005
    for tr in L["data"]:
        tt = tr.stats.starttime._ns / 1e9 + 0.01 * np.arange(tr.stats.npts)
        check((tr.stats.starttime._ns + 500) % 10000000 < 1000 and tr.stats.delta == 0.01, lambda: "trace off the 10 ms grid: %s" % tr.stats)
        e = np.abs(tr.data - rawgen.wave(w, tt))
        check(e.max() <= lim, lambda: "read: at %.2f off by %.1f counts (limit %.1f)" % (tt[int(e.argmax())], e.max(), lim))
        # no sample inside a gap
        j = np.searchsorted(t, tt)
        lo, hi = t[np.clip(j - 1, 0, len(t) - 1)], t[np.clip(j, 0, len(t) - 1)]
        inside = (hi - lo > 0.026) & (tt - lo > 0.0065) & (hi - tt > 0.0065)
        check(not inside.any(), lambda: "read: a sample at %.2f lies inside a gap in the recording" % tt[inside][0])
    d = np.diff(t)
    brk = np.where(d > 0.025)[0]
    segs = [(t[a], t[b]) for a, b in zip(np.hstack([0, brk + 1]), np.hstack([brk, len(t) - 1]))]
    for a, b in segs:
        pos = a
        for tr in L["data"]:
            x, y = float(tr.stats.starttime), float(tr.stats.endtime)
            if x < b and y > a:
                check(x - pos < 0.033, lambda: "read: interval %.3f-%.3f of the recording is missing" % (pos, x))
                pos = y
        check(b - pos < 0.033, lambda: "read: interval %.3f-%.3f of the recording is missing" % (pos, b))
    for tr in L["data"]:
        check(tr.stats.channel == "HDF" and tr.stats.station == spec["sn"], lambda: "codes %s" % tr.id)


main("C06", [
    Sub("table", s_table(), f_table, 3000, 60000, rule="table of sample times (jitter, gaps around 25 ms, isolated end samples, repeated lines) and waveform values; non-trivial: jitter or gaps"),
    Sub("read", s_read(), f_read, 300, 5000, rule="1-2 raw files read; non-trivial: gaps or several files"),
], ["waveforms below 4 Hz, so cubic interpolation is accurate to the stated bound"])
