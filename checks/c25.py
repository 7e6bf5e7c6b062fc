import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
import obspy
from hypothesis import strategies as st
import gemlog.gemlog_aux
from runner import Sub, check, cov, main
core, aux = gemlog.core, sys.modules["gemlog.gemlog_aux"]
T = obspy.UTCDateTime


@st.composite
def s_pieces(draw, spline):
    delta = draw(st.sampled_from([0.01, 0.01, 0.01, 0.02, 0.005]))
    limit = draw(st.sampled_from([0.1, 0.1, 0.05, 0.03, 0.25])) if spline else draw(st.sampled_from([None, None, 0.031, 0.021, 0.055, 0.105]))
    L = int(round((0.031 if limit is None else limit) / delta))
    n = draw(st.integers(1, 7))
    pieces = [draw(st.one_of(st.integers(1, 4), st.integers(2, 40), st.integers(30, 400))) for _ in range(n)]
    gaps = [draw(st.one_of(st.integers(0, max(L, 1)), st.sampled_from([1, 1, 2, L - 2, L - 1, L, L + 1, 10, 1000]).filter(lambda x: x >= 0), st.integers(0, 60))) for _ in range(n - 1)]
    if gaps and draw(st.integers(0, 5)) == 0:  # a gap of about a whole number of seconds, minutes or hours
        sec = draw(st.sampled_from([1, 1, 2, 10, 60, 60, 120, 600, 3600]))
        gaps[draw(st.integers(0, len(gaps) - 1))] = max(0, int(round(sec / delta)) + draw(st.sampled_from([-2, -1, -1, -1, 0, 1])))
    return {"delta": delta, "limit": limit, "pieces": pieces, "gaps": gaps, "jit": [draw(st.integers(-2, 2)) for _ in pieces] if draw(st.booleans()) else [0] * n, "t0": draw(st.sampled_from([0, 86399, 1577836799, 1709164800])), "frac": draw(st.sampled_from([0, 0.01, 0.99, 0.37])),
            "kind": draw(st.sampled_from(["noise", "noise", "line", "sine", "const", "extreme"])), "a": draw(st.sampled_from([3, 500, 30000, 10**6])), "off": draw(st.sampled_from([0, 0, -12345, 10**6])), "seed": draw(st.integers(0, 10**6)), "float": draw(st.integers(0, 3)) == 0, "form": draw(st.sampled_from(["pieces", "pieces", "masked", "mixed"])), "shuffle": draw(st.integers(0, 10**6)) if spline and draw(st.booleans()) else None}


def build(c):
    """-> pieces [(first index, values)], function of the index"""
    starts, k = [], 0
    for j, n in enumerate(c["pieces"]):
        starts.append(k)
        k += n + (c["gaps"][j] if j < len(c["gaps"]) else 0)
    i = np.arange(k)
    rng = np.random.default_rng(c["seed"])
    x = {"noise": lambda: rng.normal(size=k), "line": lambda: 1 + i / 40.0, "sine": lambda: np.sin(2 * np.pi * i / 60.0 + 0.7), "const": lambda: np.ones(k), "extreme": lambda: rng.choice([-1.0, 1.0], size=k)}[c["kind"]]() * c["a"] + c["off"]
    x = x if c["float"] else np.round(x).astype("int32")
    return starts, x


def stream(c, starts, x):
    trs = []
    t0 = T(c["t0"]) + c["frac"]
    for j, (s, n) in enumerate(zip(starts, c["pieces"])):
        tr = obspy.Trace(x[s:s + n].copy())
        tr.stats.delta, tr.stats.station, tr.stats.channel = c["delta"], "003", "HDF"
        tr.stats.starttime = t0 + s * c["delta"] + c["jit"][j] * 1e-6
        trs.append(tr)
    S = obspy.Stream(trs)
    if c["form"] == "masked":
        S.merge()
    elif c["form"] == "mixed" and len(trs) > 2:
        S = obspy.Stream(trs[:2]).merge() + obspy.Stream(trs[2:])
    if c["shuffle"] is not None:
        S.traces = [S.traces[k] for k in np.random.default_rng(c["shuffle"]).permutation(len(S))]
    return S, t0


def pieces_out(c, out, t0, what):
    I, V, last = [], [], -1
    for tr in out:
        check(not np.ma.isMaskedArray(tr.data) or not np.ma.getmaskarray(tr.data).any(), lambda: "%s: a piece still holds a gap" % what)
        check(abs(tr.stats.delta - c["delta"]) < 1e-9 and tr.id == ".003..HDF", lambda: "%s: %s" % (what, tr))
        off = (tr.stats.starttime - t0) / c["delta"]
        s = int(round(off))
        check(abs(off - s) * c["delta"] < 5e-6, lambda: "%s: a piece starts %.6f s off its samples" % (what, (off - s) * c["delta"]))
        check(s > last, lambda: "%s: pieces overlap or are out of order: sample %d after %d" % (what, s, last))
        check(s > last + 1 or last < 0, lambda: "%s: pieces touch at sample %d but were not joined" % (what, s))
        last = s + tr.stats.npts - 1
        I.append((s, tr.stats.npts))
        V.append(np.asarray(tr.data))
    return I, V


def judge(c, spline):
    starts, x = build(c)
    S, t0 = stream(c, starts, x)
    lim = 0.031 if c["limit"] is None else c["limit"]
    if spline:
        out = aux._interpolate_stream(S, gap_limit_sec=lim) if c["limit"] != 0.1 or c["seed"] % 2 else aux._interpolate_stream(S)
    else:
        out = core._merge_gaps(S) if c["limit"] is None else core._merge_gaps(S, max_gap=lim)
    I, V = pieces_out(c, out, t0, "spline" if spline else "merge")
    exp = []  # expected stretches
    bridged = []
    for j, (s, n) in enumerate(zip(starts, c["pieces"])):
        if j:
            g = c["gaps"][j - 1]
            dt = (g + 1) * c["delta"]
            if abs(dt - lim) < 1e-5 and g > 0:
                return  # exactly at the limit
        if j and (g == 0 or dt < lim):
            exp[-1] = (exp[-1][0], s + n - exp[-1][0])
            if g:
                bridged.append((s - g, g))
        else:
            exp.append((s, n))
    cov.nontrivial(bool(bridged)); cov.label("bridged", bool(bridged)); cov.label("open", len(exp) > 1); cov.label("several bridged", len(bridged) > 1); cov.label("one-sample piece", 1 in c["pieces"]); cov.label("masked input", c["form"] != "pieces")
    cov.label("bridged and open", bool(bridged) and len(exp) > 1)
    check(I == exp, lambda: "stretches (first sample, length) %s, expected %s (gaps %s of %s s, limit %s s)" % (I, exp, c["gaps"], c["delta"], lim))
    y = np.full(len(x), np.nan)
    for (s, n), v in zip(I, V):
        check(c["float"] or v.dtype.kind == "i", lambda: "integer samples became %s" % v.dtype)
        y[s:s + n] = v
    for s, n in zip(starts, c["pieces"]):
        d = np.where(y[s:s + n] != x[s:s + n])[0]
        check(len(d) == 0, lambda: "sample %d was %r, is now %r" % (s + d[0], x[s + d[0]], y[s + d[0]]))
    for s, g in bridged:
        a, b = float(x[s - 1]), float(x[s + g])
        line = a + (b - a) * np.arange(1, g + 1) / (g + 1)
        v = y[s:s + g]
        tol = 1.001 if not c["float"] else 1e-6 * (abs(a) + abs(b)) + 1e-9
        if not spline or c["kind"] in ("line", "const"):
            # the recorded line itself is rounded to integers: splines follow its neighbours
            tl = tol if not spline or c["float"] or c["kind"] == "const" else tol + 2 * g
            check(np.abs(v - line).max() <= tl, lambda: "gap of %d at sample %d: %s, line between its neighbours %s" % (g, s, v, line))
        elif c["kind"] == "sine":
            # smooth data: the wave itself, when enough of it is known around the gap
            near = [k for k in range(s - 4, s)] + [k for k in range(s + g, s + g + 4)]
            known = np.zeros(len(x), bool)
            for p, n in zip(starts, c["pieces"]):
                known[p:p + n] = True
            if all(0 <= k < len(x) and known[k] for k in near) and g * 2 < 60:
                e = c["a"] * (0.002 + 0.1 * (g / 20.0) ** 4) + 2.5 * (not c["float"]) * (1 + g)
                if lim / c["delta"] >= 4:
                    check(np.abs(v - x[s:s + g]).max() <= e, lambda: "gap of %d at sample %d of a smooth wave: off by %g of %g" % (g, s, np.abs(v - x[s:s + g]).max(), c["a"]))
        else:
            m = np.abs(x[max(0, s - 60):s + g + 60]).max()
            check(np.all(np.isfinite(v)) and np.abs(v).max() < 1e3 * (g + 2) ** 3 * (m + 1), lambda: "gap of %d at sample %d: %s" % (g, s, v))
    if len(starts) == 1:
        check(len(out) == 1 and np.array_equal(V[0], x), "a recording without gaps was changed")


@st.composite
def s_list(draw):
    c = draw(s_pieces(False))
    c["form"], c["shuffle"] = "pieces", None
    return {"c": c, "order": draw(st.integers(0, 10 ** 6)), "per": draw(st.integers(1, 3))}


def f_list(c0):
    """check_discontinuity: names the stretches of a set of files, if there is more than one."""
    import contextlib, io
    c = c0["c"]
    c["jit"] = [0] * len(c["pieces"])
    starts, x = build(c)
    S, t0 = stream(c, starts, x)
    names = []
    for k in range(0, len(S), c0["per"]):
        names.append("d%d.mseed" % k)
        obspy.Stream(S.traces[k:k + c0["per"]]).write(names[-1], format="MSEED")
    names = [names[k] for k in np.random.default_rng(c0["order"]).permutation(len(names))]
    exp = []
    for s, n in zip(starts, c["pieces"]):
        if exp and exp[-1][1] == s:
            exp[-1][1] = s + n
        else:
            exp.append([s, s + n])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        aux.check_discontinuity(names)
    lines = [l for l in out.getvalue().split("\n") if l.strip()]
    cov.nontrivial(len(exp) > 1); cov.label("contiguous", len(exp) == 1); cov.label("touching pieces", len(exp) < len(starts)); cov.label("files out of order", names != sorted(names))
    if len(exp) == 1:
        check(not lines, lambda: "contiguous files are reported: %s" % lines)
        return
    check(len(lines) == len(exp), lambda: "%d stretches are named, the files hold %d: %s" % (len(lines), len(exp), lines))
    for l, (a, b) in zip(sorted(lines, key=lambda l: l.split()[1]), exp):
        p, q = [T(v) for v in l.split()[1].split("--")]
        check(l.split()[0] == ".003..HDF" and abs(p - (t0 + a * c["delta"])) < 1e-4 and abs(q - (t0 + (b - 1) * c["delta"])) < 1e-4, lambda: "stretch %s, expected %s--%s" % (l, t0 + a * c["delta"], t0 + (b - 1) * c["delta"]))


main("C25", [
    Sub("list", s_list(), f_list, 300, 6000, rule="1-7 pieces in files named in any order; non-trivial if there is more than one stretch"),
    Sub("merge", s_pieces(False), lambda c: judge(c, False), 1500, 40000, rule="1-7 pieces in time order; non-trivial if a gap is bridged"),
    Sub("spline", s_pieces(True), lambda c: judge(c, True), 1500, 40000, rule="1-7 pieces in any order; non-trivial if a gap is bridged"),
], ["gaps exactly at the limit may go either way", "pieces lie on one sampling grid to within 2 microseconds"])
