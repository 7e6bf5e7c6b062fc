"""Synthetic Gem recordings with known ground truth.

A *recording* spec is plain JSON.  Counts are the logger's "milliseconds" (1024 us nominally).  True
(GPS) time of count c is  t0 + 0.001024*(1+ppm*1e-6)*c + quad*1e-9*(c*0.001024)**2 .  The logger stamps
a sample 8.93 counts early (the documented timing correction), so a sample stamped m was taken at
true time T(m + 8.93)."""
import datetime, os
import numpy as np

TCORR = 8.93
VERSIONS = ["0.8", "0.85", "0.85C", "0.9", "0.91", "1.10"]
DIFF = {"0.85C", "0.9", "0.91", "1.10"}


def rollover(version):
    return 2 ** 16 if version in ("0.8", "0.85") else 2 ** 13


def true_time(spec, c):
    c = np.asarray(c, dtype=float)
    s = c * 0.001024
    return spec["t0"] + s * (1 + spec.get("ppm", 0) * 1e-6) + spec.get("quad", 0) * 1e-9 * s ** 2


def count_at(spec, t):
    """Inverse of true_time (Newton)."""
    c = (t - spec["t0"]) / 0.001024
    for _ in range(6):
        d = 0.001024 * (1 + spec.get("ppm", 0) * 1e-6) + 2 * spec.get("quad", 0) * 1e-9 * c * 0.001024 ** 2
        c = c - (true_time(spec, c) - t) / d
    return c


def wave(w, t, k=None):
    """Evaluate a wave spec at times t (seconds relative to w['tref'])."""
    t = np.asarray(t, dtype=float) - w.get("tref", 0)
    y = np.full(t.shape, float(w.get("off", 0)))
    for a, f, p in w.get("sines", []):
        y += a * np.sin(2 * np.pi * f * t + p)
    return y


def header(version, sn, adc_range=0, config=True, eol="\n", gps_cfg=(1, 15, 20), led=0, ser=0):
    L = ["#GemCSV" + version]
    if version == "1.10":
        L.append("#adcMSSAMP")
    L.append("#DmsSamp,ADC" if version in DIFF else "#D,msSamp,ADC")
    L.append("#G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon")
    L.append("#M,ms,batt(V),temp(C),A2,A3,maxLag,minFree,maxUsed,maxOver,gpsFlag,freeStack1,freeStackIdle"
             if version != "0.8" else "#M,ms,batt(V),temp(C),maxLag,minFree,maxUsed,maxOver,gpsFlag,freeStack1,freeStackIdle")
    L.append("S," + sn)
    L.append("#Firmware0.962")
    if config and version not in ("0.8", "0.85", "0.85C"):
        L.append("C,%d,%d,%d,%d,%d,%d" % (tuple(gps_cfg) + (adc_range, led, ser)))
    return [l + eol for l in L]


class File:
    """One raw file: text lines plus truth."""
    pass


def _g_line(version, pps, lag, dt, sec, lat, lon):
    if version in ("0.91", "1.10"):
        a, b = "%.2f" % pps, "%.2f" % lag
    else:
        a, b = "%d" % pps, "%d" % lag
    return "G,%s,%s,%d,%d,%d,%d,%d,%s,%.5f,%.5f" % (a, b, dt[0], dt[1], dt[2], dt[3], dt[4], sec, lat, lon)


def build(spec):
    """spec -> list of File."""
    rng = np.random.default_rng(spec["seed"])
    version, sn = spec["version"], spec["sn"]
    R = rollover(version)
    ms0 = spec.get("ms0", 0)       # counter value at count 0
    eol = spec.get("eol", "\n")
    dt, jit = spec.get("dt", 9.9), spec.get("jit", 1)
    w = spec.get("wave")
    files = []
    c = float(spec.get("c0", 0))   # running count
    lat0, lon0 = spec.get("lat", 43.6), spec.get("lon", -116.2)
    batt = spec.get("batt", 3.7)
    for fi, fs in enumerate(spec["files"]):
        c += fs.get("gap_before", 0)
        n = fs["n"]
        k = np.arange(n)
        base = c + k * dt
        for frac, ln in fs.get("gaps", []):
            base[int(frac * n):] += ln
        if jit:
            base = base + rng.integers(-jit, jit + 1, n)
        cnt = np.round(base).astype(np.int64)
        cnt = np.maximum.accumulate(cnt + 0)
        # strictly increasing
        d = np.diff(cnt)
        while np.any(d <= 0):
            cnt[1:][d <= 0] += 1
            d = np.diff(cnt)
            cnt = np.maximum.accumulate(cnt)
            d = np.diff(cnt)
        t = true_time(spec, cnt + TCORR)
        if w is not None:
            adc = np.round(wave(w, t)).astype(np.int64)
        else:
            amp = spec.get("amp", 12)
            mode = spec.get("mode", "walk")
            if mode == "walk":
                adc = np.cumsum(rng.integers(-amp, amp + 1, n))
            elif mode == "small":   # mostly compactable differences
                dd = rng.integers(-12, 13, n)
                big = rng.random(n) < 0.1
                dd[big] = rng.integers(-3000, 3001, big.sum())
                adc = np.cumsum(dd)
            else:                   # full range
                adc = rng.integers(-2 ** 15, 2 ** 15, n) * int(spec.get("gain", 1))
            adc = adc + int(fs.get("adc0", spec.get("adc0", 0)))
        adc = adc.astype(np.int64)
        ev = []                     # (sort count, order, text, kind)
        prev_ms = None
        prev_adc = 0
        enc = spec.get("enc", "auto") if version == "1.10" else "plain"
        encr = np.random.default_rng(spec["seed"] + 7919 + fi).random(n) if enc == "mixed" else None
        ms = (cnt + ms0) % R
        diffs = np.diff(np.concatenate([[0], adc])) if version in DIFF else adc
        dms = np.concatenate([[10 ** 6], np.diff(cnt)])
        for i in range(n):
            if version not in DIFF:
                s = "D,%d,%d" % (ms[i], adc[i])
            elif enc == "plain" or i == 0:
                s = "D%d,%d" % (ms[i], diffs[i])
            else:
                p, q = int(diffs[i]), int(dms[i])
                can1 = q == 10 and -12 <= p <= 12
                can2 = -12 <= p <= 12 and -12 <= q - 10 <= 12
                u = 0.99 if encr is None else encr[i]
                if enc == "auto":
                    s = chr(q - 10 + 109) + chr(p + 109) if can2 else "D%d,%d" % (ms[i], p)
                elif enc == "one" or enc == "mixed":
                    if can1 and u > 0.4:
                        s = chr(p + 109)
                    elif can2 and u > 0.2:
                        s = chr(q - 10 + 109) + chr(p + 109)
                    elif q == 10 and u > 0.1:
                        s = "D%d" % p
                    else:
                        s = "D%d,%d" % (ms[i], p)
            ev.append((cnt[i], 0, s, "D"))
        # state-of-health rows
        M = []
        mi = fs.get("m_every", spec.get("m_every", 1000))
        mc = cnt[0] + fs.get("m_first", 540)
        while mi and mc < cnt[-1]:
            vals = [round(batt + 0.01 * float(rng.integers(-5, 6)), 2), round(19 + 0.1 * float(rng.integers(-20, 20)), 1)]
            if version != "0.8":
                vals += [round(float(rng.integers(0, 3000)) / 1000, 3), round(float(rng.integers(0, 3000)) / 1000, 3)]
            vals += [int(rng.integers(0, 100)), int(rng.integers(0, 76)), int(rng.integers(0, 76)), int(rng.integers(0, 3)),
                     int(rng.integers(0, 2)), int(rng.integers(20, 60)), int(rng.integers(60, 130))]
            m = int(mc)
            txt = "M,%d,%.2f,%.1f," % ((m + ms0) % R, vals[0], vals[1])
            if version != "0.8":
                txt += "%.3f,%.3f," % (vals[2], vals[3])
            txt += ",".join(str(v) for v in vals[-7:])
            ev.append((m + int(rng.integers(-25, 26)), 1, txt, "M"))
            M.append([m] + vals)
            mc += mi
        # GPS fixes
        G = []
        g = fs.get("gps", spec.get("gps"))
        if g:
            tstart = float(true_time(spec, cnt[0]))
            sec0 = int(np.ceil(tstart + g.get("start", 0.2)))
            times = [sec0 + j * g.get("every", 1) for j in range(g["n"])]
            bads = {int(b[0]): b[1:] for b in g.get("bad", [])}
            for j, ts in enumerate(times):
                pc = float(count_at(spec, ts))
                if pc > cnt[-1] + g.get("past", 0):
                    break
                if version in ("0.91", "1.10"):
                    pps = round(pc, 2)
                    lag = round(float(rng.integers(6000, 30000)) / 100, 2)
                else:
                    pps = round(pc)
                    lag = int(rng.integers(60, 300))
                if g.get("late") and rng.random() < g["late"]:   # message long after its pulse, still within the limit
                    lag = round(float(rng.integers(30000, 99900)) / 100, 2) if version in ("0.91", "1.10") else int(rng.integers(300, 1000))
                pps += fs.get("steps_counts", {}).get(str(j), 0)
                tt = ts
                latj = round(lat0 + 1e-5 * float(rng.integers(-3, 4)), 5)
                lonj = round(lon0 + 1e-5 * float(rng.integers(-3, 4)), 5)
                for (frm, step) in g.get("steps", []):
                    if j >= frm:
                        tt = tt + step
                bad = bads.get(j)
                valid = True
                sec_override = None
                if bad:
                    kind, val = bad
                    if kind == "time":      # plausible but wrong time
                        tt = tt + val
                    elif kind == "lat":
                        latj = val; valid = False
                    elif kind == "lon":
                        lonj = val; valid = False
                    elif kind == "lag":
                        lag = val; valid = False
                    elif kind == "elag":    # valid values at the limits
                        lag = val
                    elif kind == "elat":
                        latj = val
                    elif kind == "elon":
                        lonj = val
                    elif kind == "frac":
                        sec_override = val; valid = False
                    elif kind in ("date", "second"):
                        valid = False
                whole = int(np.floor(tt))
                D = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=whole)
                dtl = [D.year, D.month, D.day, D.hour, D.minute]
                sec = "%.1f" % (D.second + (tt - whole))
                if abs(tt - whole) > 1e-9:
                    valid = False
                if sec_override is not None:
                    sec = "%.1f" % (D.second + sec_override)
                if bad and bad[0] == "date":
                    for f, v in ([bad[1]] if not isinstance(bad[1][0], (list, tuple)) else bad[1]):
                        dtl[f] = v
                if bad and bad[0] == "second":
                    sec = "%.1f" % bad[1]
                txt = _g_line(version, (pps + ms0) % R, lag, dtl, sec, latj, lonj)
                at = pc + min(max(float(lag), 0), 1000 if g.get("late") else 900)
                if spec.get("debug"):
                    ev.append((at - 1, 2, "P,%.2f" % ((pps + ms0) % R), "P"))
                ev.append((at, 3, txt, "G"))
                if spec.get("debug"):
                    ev.append((at + 1, 4, "R,0,$GPRMC,%02d%02d%02d.000,A,4340.0465,N,11617.6065,W,0.11,230.16,291220,,,A*72" % (D.hour, D.minute, D.second), "R"))
                G.append({"ms": pps, "lag": float(lag), "year": dtl[0], "month": dtl[1], "day": dtl[2], "hour": dtl[3], "minute": dtl[4],
                          "second": float(sec), "lat": latj, "lon": lonj, "t": float(whole), "valid": valid})
        order = sorted(range(len(ev)), key=lambda i: (ev[i][0], ev[i][1], i))
        # the first line of the data section must be a data line
        order.sort(key=lambda i: 0 if (ev[i][3] == "D" and i == 0) else 1)
        F = File()
        F.version, F.sn, F.num = version, fs.get("sn", sn), fs.get("num", spec.get("num0", 0) + fi)
        F.header = header(version, F.sn, spec.get("adc_range", 0), spec.get("config", True), eol)
        F.lines = [ev[i][2] + eol for i in order]
        F.kinds = [ev[i][3] for i in order]
        # truth in file order
        F.cnt, F.adc, F.t = cnt, adc, t
        mord = {id(None): 0}
        mi_ = [i for i in order if ev[i][3] == "M"]
        first_m = min([i for i in range(len(ev)) if ev[i][3] == "M"], default=0)
        F.M = [M[i - first_m] for i in mi_]
        gi = [i for i in range(len(ev)) if ev[i][3] == "G"]
        rank = {i: r for r, i in enumerate(gi)}
        F.G = [G[rank[i]] for i in order if ev[i][3] == "G"]
        F.name = "FILE%04d.%s" % (F.num, "TXT" if version == "0.8" else F.sn)
        F.first_count = cnt[0]
        files.append(F)
        c = float(cnt[-1] + round(dt))
    return files


def text(F):
    return "".join(F.header) + "".join(F.lines)


def write(F, folder, name=None):
    os.makedirs(folder, exist_ok=True)
    p = os.path.join(folder, name or F.name)
    with open(p, "w", newline="") as f:
        f.write(text(F))
    return p
