"""Helpers for checks that run conversions and read the results back."""
import glob, hashlib, os
import numpy as np
import obspy
from runner import check, Violation


def series(traces, what="output"):
    """traces -> (sorted grid indices [10 ms], values); no grid point twice."""
    I, V = [], []
    for tr in traces:
        ns = tr.stats.starttime._ns
        check((ns + 2000) % 10000000 < 4000, lambda: "%s: starts off the 10 ms grid: %s" % (what, tr.stats.starttime))
        check(abs(tr.stats.delta - 0.01) < 1e-7, lambda: "%s: interval %r" % (what, tr.stats.delta))
        i0 = (ns + 5000000) // 10000000
        I.append(i0 + np.arange(tr.stats.npts, dtype=np.int64))
        V.append(np.asarray(tr.data))
    if not I:
        return np.zeros(0, np.int64), np.zeros(0)
    i, v = np.concatenate(I), np.concatenate(V)
    o = np.argsort(i, kind="stable")
    i, v = i[o], v[o]
    d = np.where(np.diff(i) == 0)[0]
    check(len(d) == 0, lambda: "%s: the sample at %.2f appears more than once" % (what, i[d[0]] * 0.01))
    return i, v


def files(folder):
    return sorted(os.listdir(folder)) if os.path.isdir(folder) else []


def read_folder(folder, fmt="mseed"):
    """{file name: trace}; every file must be readable and hold one trace."""
    out = {}
    for f in files(folder):
        check(f.endswith("." + fmt.lower()), lambda: "unexpected output file %s" % f)
        st = obspy.read(os.path.join(folder, f))
        check(len(st) == 1, lambda: "%s holds %d traces" % (f, len(st)))
        out[f] = st[0]
    return out


def digest(folder):
    out = {}
    for root, _, names in os.walk(folder):
        for n in names:
            p = os.path.join(root, n)
            out[os.path.relpath(p, folder)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    return out


def equal_series(a, b, what, tol=0):
    (ia, va), (ib, vb) = a, b
    if len(ia) != len(ib) or np.any(ia != ib):
        x = np.setxor1d(ia, ib)
        t = x[0]
        raise Violation("%s: sample at %.2f is %s (%d points differ; %d vs %d samples)" % (
            what, t * 0.01, "missing" if t in set(ib.tolist()) else "extra", len(x), len(ia), len(ib)))
    if len(ia):
        e = np.abs(np.asarray(va, float) - np.asarray(vb, float))
        k = int(e.argmax())
        check(e[k] <= tol, lambda: "%s: sample at %.2f is %r, expected %r" % (what, ia[k] * 0.01, va[k], vb[k]))


def covered(i, t, tstart, what, slack=0.033):
    """Grid indices i cover every stretch of recorded times t (no gap over 25 ms), from tstart on; nothing inside gaps."""
    d = np.diff(t)
    b = np.where(d > 0.025)[0]
    tt = i * 0.01
    for x, y in zip(t[np.hstack([0, b + 1])], t[np.hstack([b, len(t) - 1])]):
        x = max(x, tstart)
        if y - x < 0.07:
            continue
        m = tt[(tt >= x - 0.0051) & (tt <= y + 0.0051)]
        check(len(m) > 0 and m[0] - x < slack and y - m[-1] < slack and (len(m) < 2 or np.diff(m).max() < slack),
              lambda: "%s: part of the recording %.3f - %.3f is missing" % (what, x, y))
    j = np.searchsorted(t, tt)
    lo, hi = t[np.clip(j - 1, 0, len(t) - 1)], t[np.clip(j, 0, len(t) - 1)]
    ins = (hi - lo > 0.036) & (tt - lo > 0.0065) & (hi - tt > 0.0065)
    check(not ins.any(), lambda: "%s: sample at %.2f lies inside a gap of the recording" % (what, tt[ins][0]))
    check(len(tt) == 0 or (tt[0] >= t[0] - 0.0065 and tt[-1] <= t[-1] + 0.0065), lambda: "%s: samples outside the recording" % what)
