import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
import obspy
from hypothesis import strategies as st
from scipy.io import wavfile
import conv, gens, rawgen
from runner import Sub, check, cov, main
core = gemlog.core
T = obspy.UTCDateTime


@st.composite
def s_formats(draw):
    s = draw(gens.timing_spec(nfiles=(1, 3), secs=(18, 40)))
    return {"spec": s, "codes": draw(st.sampled_from([("", "", ""), ("NM", "STA1", "00"), ("XP", "A", "")])), "units": draw(st.sampled_from(["Pa", "Pa", "V", "counts"])), "hours": draw(st.sampled_from([24, 24, 1, 0.005, "0.01"])),
            "format": draw(st.sampled_from(["sac", "SAC", "tspair", "TSPAIR", "wav", "WAV"])), "t1": draw(st.sampled_from([None, None, 3.27, 10])), "low": draw(st.integers(0, 4)) == 0}


def wav(path):
    rate, d = wavfile.read(path)
    return rate, d


def same_wave(d, x, what):
    """d is x, up to offset and positive scale, with peak magnitude one."""
    check(d.ndim == 1 and len(d) == len(x), lambda: "%s: %s samples, %d recorded" % (what, d.shape, len(x)))
    check(d.dtype.kind == "f", lambda: "%s: samples stored as %s" % (what, d.dtype))
    y = x.astype(float) - np.mean(x.astype(float))
    m = np.abs(y).max()
    if np.all(x == x[0]):
        check(np.abs(d).max() <= 1e-6 or np.abs(np.abs(d).max() - 1) < 1e-9, lambda: "%s: constant trace gives %r" % (what, d[:3]))
        check(np.ptp(d) <= 1e-6, lambda: "%s: constant trace gives %r" % (what, d[:3]))
        return
    e = np.abs(d - y / m)
    tol = 1e-6 + 1e-12 * np.abs(x.astype(float)).max() / m
    check(e.max() <= tol, lambda: "%s: sample %d is %r, expected %r" % (what, int(e.argmax()), d[int(e.argmax())], (y / m)[int(e.argmax())]))
    check(abs(np.abs(d).max() - 1) < 1e-6, lambda: "%s: peak %r" % (what, np.abs(d).max()))


def f_formats(c):
    spec = dict(c["spec"], adc_range=1 if c["low"] else 0)
    if spec["version"] in ("0.8", "0.85", "0.85C"):
        spec["adc_range"] = 0
    for F in rawgen.build(spec):
        rawgen.write(F, "raw")
    net, sta, loc = c["codes"]
    kw = dict(SN=spec["sn"], network=net, station=sta, location=loc, units=c["units"], file_length_hour=c["hours"])
    if c["t1"] is not None:
        kw["t1"] = T(F.t[0] if spec.get("n") else spec["t0"]) + c["t1"]
    fmt = c["format"].lower()
    try:
        gemlog.convert("raw", "ms", output_format="MSEED", metadatapath="m1", gpspath="g1", **kw)
    except gemlog.MissingRawFiles:
        return
    gemlog.convert("raw", "other", output_format=c["format"], metadatapath="m2", gpspath="g2", **kw)
    A = conv.read_folder("ms")
    B = conv.files("other")
    cov.nontrivial(bool(A)); cov.label(fmt); cov.label("several files", len(A) > 1); cov.label(c["units"])
    stem = lambda f: f.rsplit(".", 1)[0]
    check([stem(f) for f in sorted(A)] == [stem(f) for f in B] and all(f.endswith("." + fmt) for f in B), lambda: "%s files %s, miniSEED files %s" % (fmt, B, sorted(A)))
    check(conv.digest("m1") == conv.digest("m2") and conv.digest("g1") == conv.digest("g2"), "metadata or GPS tables depend on the waveform format")
    for f in sorted(A):
        tr, g = A[f], os.path.join("other", stem(f) + "." + fmt)
        if fmt == "wav":
            rate, d = wav(g)
            check(rate == 100, lambda: "%s: rate %r" % (g, rate))
            same_wave(d, tr.data, g)
            continue
        S = obspy.read(g)
        check(len(S) == 1, lambda: "%s holds %d traces" % (g, len(S)))
        o = S[0]
        check(o.id == tr.id, lambda: "%s: codes %s, miniSEED %s" % (g, o.id, tr.id))
        check(len(o) == len(tr) and abs(o.stats.delta - tr.stats.delta) < 1e-7, lambda: "%s: %d samples at %r s, miniSEED %d at %r s" % (g, len(o), o.stats.delta, len(tr), tr.stats.delta))
        check(abs(o.stats.starttime - tr.stats.starttime) < 0.0011, lambda: "%s: starts %s, miniSEED %s" % (g, o.stats.starttime, tr.stats.starttime))
        x = np.asarray(tr.data)
        e = np.abs(np.asarray(o.data, float) - x)
        check(np.all(e <= 1e-6 * np.abs(x)), lambda: "%s: sample %d is %r, miniSEED %r" % (g, int(e.argmax()), o.data[int(e.argmax())], x[int(e.argmax())]))
        if fmt == "sac":
            bw = gemlog.read_gem("raw", np.arange(10000), spec["sn"])["header"].iloc[0]
            want = {"Pa": bw["bitweight_Pa"], "V": bw["bitweight_V"], "counts": 1}[c["units"]]
            check(abs(o.stats.calib / want - 1) < 1e-5, lambda: "%s: scale %r for %s, expected %r" % (g, o.stats.calib, c["units"], want))


@st.composite
def s_wav(draw):
    return {"n": draw(st.sampled_from([1, 2, 3, 10, 100, 1000, 4097])), "rate": draw(st.sampled_from([100, 100, 50, 200, 1, 40, 8000, 44100])), "dtype": draw(st.sampled_from(["int32", "int32", "float64", "float32", "int16", "int64"])), "kind": draw(st.sampled_from(["noise", "const", "impulse", "neg impulse", "ramp", "skewed", "two"])),
            "amp": draw(st.sampled_from([1, 3, 1000, 30000, 2**31 - 1, 1e-6, 1e9])), "off": draw(st.sampled_from([0, 0, 5, -30000, 10**6])), "seed": draw(st.integers(0, 10**6)), "name": draw(st.sampled_from([None, "x.wav", "y z.wav"])), "path": draw(st.sampled_from([None, "out", "."])), "codes": draw(st.sampled_from([("", "077", "", "HDF"), ("NM", "STA", "01", "BDF")])),
            "t": draw(st.sampled_from([0, 86399.99, 1.6e9, 1582934399.5])), "fmt": draw(st.sampled_from([None, "%Y%j_%H%M%S"])), "bad_rate": draw(st.integers(0, 15)) == 0}


def f_wav(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    z = np.zeros(n)
    z[n // 2] = 1
    x = {"noise": lambda: rng.normal(size=n) / 4, "const": lambda: np.ones(n), "impulse": lambda: z, "neg impulse": lambda: -z, "ramp": lambda: np.arange(n) / n, "skewed": lambda: -rng.random(n) ** 6, "two": lambda: rng.choice([-1.0, 1.0], size=n)}[c["kind"]]() * c["amp"] + c["off"]
    if c["dtype"].startswith("int"):
        i = np.iinfo(c["dtype"])
        x = np.clip(np.round(x), max(i.min, -2.0**53), min(i.max, 2.0**53)).astype(c["dtype"])
    else:
        x = x.astype(c["dtype"])
    tr = obspy.Trace(x.copy())
    tr.stats.sampling_rate = c["rate"] + (0.5 if c["bad_rate"] else 0)
    tr.stats.network, tr.stats.station, tr.stats.location, tr.stats.channel = c["codes"]
    tr.stats.starttime = T(c["t"])
    os.makedirs("out")
    kw = {}
    if c["path"] is not None:
        kw["path"] = c["path"]
    if c["name"] is not None:
        kw["filename"] = c["name"]
    if c["fmt"] is not None:
        kw["time_format"] = c["fmt"]
    keep = tr.copy()
    if c["bad_rate"]:  # a WAV file cannot say this rate
        try:
            core.write_wav(tr, **kw)
        except Exception:
            check(not [f for f in os.listdir(c["path"] or ".") if f.endswith(".wav")], "a file was left behind")
            return
        check(False, lambda: "a sampling rate of %r was accepted" % tr.stats.sampling_rate)
    core.write_wav(tr, **kw)
    cov.nontrivial(c["kind"] != "const" and n > 1); cov.label(c["dtype"]); cov.label("named", c["name"] is not None)
    check(tr.stats == keep.stats and tr.data.dtype == keep.data.dtype and np.array_equal(tr.data, keep.data), "the trace was changed")
    got = [os.path.join(r, f) for r, _, fs in os.walk(".") for f in fs]
    name = c["name"] or tr.stats.starttime.strftime(c["fmt"] or "%Y-%m-%dT%H_%M_%S") + "." + tr.id + ".wav"
    check(len(got) == 1 and os.path.normpath(got[0]) == os.path.normpath(os.path.join(c["path"] or ".", name)), lambda: "wrote %s, expected %s" % (got, name))
    rate, d = wav(got[0])
    check(rate == c["rate"], lambda: "rate %r, trace has %r" % (rate, c["rate"]))
    if c["dtype"].startswith("float"):
        xx = x.astype(float)
        if np.ptp(xx) <= 1e-5 * np.abs(xx).max():
            return  # hardly more than rounding
        same = d.astype(float)
        y = xx - xx.mean()
        tol = 1e-5 + 4e-7 * np.abs(xx).max() / np.abs(y).max() * (c["dtype"] == "float32") + 1e-12 * np.abs(xx).max() / np.abs(y).max()
        e = np.abs(same - y / np.abs(y).max())
        check(len(d) == n and e.max() <= tol, lambda: "sample %d is %r, expected %r" % (int(e.argmax()), d[int(e.argmax())], (y / np.abs(y).max())[int(e.argmax())]))
        check(abs(np.abs(d).max() - 1) < 1e-6, lambda: "peak %r" % np.abs(d).max())
    else:
        same_wave(d, x, "WAV file")


main("C26", [
    Sub("formats", s_formats(), f_formats, 400, 8000, rule="1-3 raw files converted to miniSEED and to another format; non-trivial if there is output"),
    Sub("wav", s_wav(), f_wav, 2500, 60000, rule="one trace of any type; non-trivial if its samples differ"),
], ["WAV files hold no times: they are in the file name"])
