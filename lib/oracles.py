import numpy as np
from runner import check
import rawgen

M_COLS = ["batt", "temp", "A2", "A3", "maxWriteTime", "minFifoFree", "maxFifoUsed", "maxOverruns", "gpsOnFlag", "unusedStack1", "unusedStackIdle"]
M_COLS_08 = [c for c in M_COLS if c not in ("A2", "A3")]
G_COLS = ["year", "month", "day", "hour", "minute", "second", "lat", "lon"]


def valid_g(g):
    """Documented validity of a GPS fix (independent restatement)."""
    import datetime
    if not (-90 <= g["lat"] <= 90 and -180 <= g["lon"] <= 180) or g["lat"] == 0 or g["lon"] == 0:
        return False
    if not 0 <= g["lag"] <= 1000 or g["second"] != round(g["second"]):
        return False
    if not 2014 <= g["year"] <= 2040:
        return False
    try:
        datetime.datetime(int(g["year"]), int(g["month"]), int(g["day"]), int(g["hour"]), int(g["minute"]), int(g["second"]))
    except ValueError:
        return False
    return True


def g_time(g):
    import calendar
    return float(calendar.timegm((int(g["year"]), int(g["month"]), int(g["day"]), int(g["hour"]), int(g["minute"]), int(g["second"]), 0, 0, 0)))


def anchor(first_saw, offset, R):
    """The count congruent to first_saw (mod R) within half a rollover of the offset."""
    k = np.floor((offset - first_saw) / R + 0.5)
    return first_saw + k * R


def same(a, b, tol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def compare_single(L, F, spec, offset, what, gps_ms_tol=0.006):
    """Compare the result of reading one file against the generator's truth."""
    R = rawgen.rollover(F.version)
    d = np.asarray(L["data"], float)
    check(d.shape == (len(F.cnt), 2), lambda: "%s: %d samples read, %d written" % (what, d.shape[0], len(F.cnt)))
    check(same(d[:, 1], F.adc), lambda: "%s: sample values differ, first at %d: read %r wrote %r" % (
        what, int(np.argmax(d[:, 1] != F.adc)), d[np.argmax(d[:, 1] != F.adc), 1], int(F.adc[np.argmax(d[:, 1] != F.adc)])))
    saw0 = int((F.cnt[0] + spec.get("ms0", 0)) % R)
    a0 = anchor(saw0, offset, R)
    shift = a0 - F.cnt[0]
    exp = F.cnt + shift + rawgen.TCORR
    check(same(d[:, 0], exp, 1e-4), lambda: "%s: sample counts differ, first at %d: read %r expected %r" % (
        what, int(np.argmax(np.abs(d[:, 0] - exp) > 1e-4)), d[np.argmax(np.abs(d[:, 0] - exp) > 1e-4), 0], exp[np.argmax(np.abs(d[:, 0] - exp) > 1e-4)]))
    M = L["metadata"]
    cols = M_COLS_08 if F.version == "0.8" else M_COLS
    check(len(M) == len(F.M), lambda: "%s: %d state rows read, %d written" % (what, len(M), len(F.M)))
    if len(F.M):
        tm = np.array(F.M, float)
        check(same(np.array(M["millis"]), tm[:, 0] + shift, 1e-4), lambda: "%s: state-of-health counts differ" % what)
        for i, c in enumerate(cols):
            check(same(np.array(M[c]), tm[:, i + 1], 1e-9), lambda: "%s: state column %s differs" % (what, c))
    G = L["gps"]
    tg = [g for g in F.G if valid_g(g)]
    check(len(G) == len(tg), lambda: "%s: %d GPS fixes read, %d valid ones written" % (what, len(G), len(tg)))
    if tg:
        check(same(np.array(G["msPPS"]), np.array([g["ms"] for g in tg]) + shift, gps_ms_tol), lambda: "%s: GPS counts differ: %r vs %r" % (what, list(G["msPPS"])[:4], [g["ms"] + shift for g in tg][:4]))
        check(same(np.array(G["msLag"]), [g["lag"] for g in tg], 1e-6), lambda: "%s: GPS lag differs" % what)
        for c in G_COLS:
            check(same(np.array(G[c]), [g[c] for g in tg], 1e-9), lambda: "%s: GPS column %s differs" % (what, c))
        check(same(np.array([float(x) for x in G["t"]]), [g_time(g) for g in tg], 1e-6), lambda: "%s: GPS fix times differ" % what)
