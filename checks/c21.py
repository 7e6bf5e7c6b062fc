import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
import obspy
from hypothesis import strategies as st
from runner import Sub, check, cov, main
import gemlog.gem_network
net = sys.modules["gemlog.gem_network"]
import gemlog.core
R = os.path.join(os.path.dirname(net.__file__), "data", "response")
SENSORS = ["RESP.XX.IS000..BDF.GEMV0.26.0_0005", "RESP.XX.IS000..BDF.GEMV0.26.0_0016", "RESP.XX.IS000..BDF.GEMV0.26.0_0023", "RESP.XX.IS025..BDF.GEMV1.26.0_0022"]
LOGGERS = ["RESP.XX.GM000..HHZ.GEMINFRAV0.0.100", "RESP.XX.GM001..HHZ.GEMINFRAV1.1.100", "RESP.XX.GM002..HHZ.GEMINFRAV1.0.100"]


def fields(path):
    """Own reading of the parts of a RESP file used below."""
    out = {"zeros": [], "poles": [], "gain": {}, "fir": [], "an": {}}
    stage = None
    for line in open(path):
        m = re.match(r"B(\d+)F(\d+)(?:-\d+)?\s+(.*)", line)
        if not m:
            continue
        b, f, rest = int(m[1]), int(m[2]), m[3]
        if b in (53, 54, 61, 58) and "tage sequence number" in rest:
            stage = int(rest.split(":")[1])
        elif b == 53 and f == 10:
            v = rest.split(); out["zeros"].append(complex(float(v[1]), float(v[2])))
        elif b == 53 and f == 15:
            v = rest.split(); out["poles"].append(complex(float(v[1]), float(v[2])))
        elif b == 58 and f == 4:
            out["gain"][stage] = float(rest.split(":")[1].split()[0])
        elif b == 58 and f == 5:
            out["an"][stage] = float(rest.split(":")[1].split()[0])
        elif b == 54 and f == 8 and stage == 4:
            out["fir"].append(float(rest.split()[1]))
        elif b == 61 and f == 9 and stage == 4:
            out["fir"].append(float(rest.split()[1]))
    return out


S = {x: fields(os.path.join(R, "sensor", x)) for x in SENSORS}
L = {x: fields(os.path.join(R, "datalogger", x)) for x in LOGGERS}


def transfer(f, sensor=SENSORS[3], logger=LOGGERS[2], factor=1.0):
    """Counts per Pa at frequencies f, from the files."""
    a, b = S[sensor], L[logger]
    def pz(f):
        s = 2j * np.pi * np.asarray(f, float)
        h = np.ones(s.shape, complex)
        for z in a["zeros"]:
            h = h * (s - z)
        for p in a["poles"]:
            h = h / (s - p)
        return h
    c = np.array(b["fir"])
    k = np.arange(len(c)) - (len(c) - 1) / 2
    fir = np.exp(-2j * np.pi * np.asarray(f)[..., None] / 400 * k) @ c
    return factor * a["gain"][1] * pz(f) / abs(pz(a["an"][1])) * b["gain"].get(2, 1) * b["gain"][3] * b["gain"].get(4, 1) * fir


def trace(y, code=("NM", "077", "", "HDF"), t0="2020-03-01T00:00:00"):
    tr = obspy.Trace(np.array(y, float))
    tr.stats.network, tr.stats.station, tr.stats.location, tr.stats.channel = code
    tr.stats.delta, tr.stats.starttime = 0.01, obspy.UTCDateTime(t0)
    return tr


def pick(draw):
    """Which response: keyword arguments and the files and factor that they stand for."""
    w = draw(st.sampled_from(["default", "high", "low", "low", "files", "own sensor", "own logger"]))
    c = {"w": w, "word": draw(st.integers(0, 2))}
    if w == "files":
        c["s"] = draw(st.sampled_from([""] + SENSORS)); c["l"] = draw(st.sampled_from([""] + LOGGERS))
    if w.startswith("own"):
        c["f"] = draw(st.sampled_from([0.5, 3.0, 10.0]))
    return c


def args(c):
    w = c["w"]
    hi, lo = ["high", "High", "HIGH"][c["word"]], ["low", "Low", "LOW"][c["word"]]
    if w == "default":
        return {}, {}
    if w == "high":
        return {"gain": hi}, {}
    if w == "low":
        return {"gain": lo}, {"logger": LOGGERS[1]}
    if w == "files":
        return {k: v for k, v in (("sensor_file", c["s"]), ("logger_file", c["l"])) if v}, {k: v for k, v in (("sensor", c["s"]), ("logger", c["l"])) if v}
    if w == "own sensor":
        t = open(os.path.join(R, "sensor", SENSORS[3])).read()
        t2 = t.replace("2.231378e-03", "%e" % (2.231378e-03 * c["f"]))
    else:
        t = open(os.path.join(R, "datalogger", LOGGERS[2])).read()
        t2 = re.sub(r"(B058F04 +Gain: +)1\.2800*e\+05", lambda m: m[1] + "%e" % (128000 * c["f"]), t, flags=re.I)
    assert t2 != t, "the response file could not be edited"
    open("own.resp", "w").write(t2)
    return {"sensor_file" if w == "own sensor" else "logger_file": os.path.abspath("own.resp")}, {"factor": c["f"]}


@st.composite
def s_resp(draw):
    return {"r": pick(draw), "f": draw(st.lists(st.floats(-2, 1.68).map(lambda x: round(10 ** x, 5)), min_size=2, max_size=12, unique=True))}


def f_resp(c):
    kw, own = args(c["r"])
    r = net.get_gem_response(**kw)
    f = np.array(sorted(c["f"]))
    cov.nontrivial(c["r"]["w"] not in ("default",)); cov.label(c["r"]["w"])
    e = transfer(f, **own)
    v = r.get_evalresp_response_for_frequencies(f)
    bad = np.abs(v - e) > 0.005 * np.abs(e) + 1e-3
    check(not bad.any(), lambda: "response at %g Hz is %s counts/Pa, the files give %s" % (f[bad][0], v[bad][0], e[bad][0]))
    s = r.instrument_sensitivity
    check("PA" == s.input_units.upper() and "COUNT" in s.output_units.upper(), "units of the response are %s to %s" % (s.input_units, s.output_units))
    check(abs(s.value / abs(transfer(np.array([s.frequency]), **own)[0]) - 1) < 0.02, lambda: "overall sensitivity %g at %g Hz, the response there is %g" % (s.value, s.frequency, abs(transfer(np.array([s.frequency]), **own)[0])))
    if c["r"]["w"] in ("default", "high", "low"):
        for sn in ("060", "107", "108", "250"):
            b = gemlog.core.get_bitweight_info(sn, {"adc_range": int(c["r"]["w"] == "low")})["bitweight_Pa"]
            k = abs(r.get_evalresp_response_for_frequencies(np.array([1.0]))[0]) * b
            check(abs(k - 1) < 0.06, lambda: "sensitivity times the conversion's factor is %.3f" % k)


@st.composite
def s_restore(draw):
    n = draw(st.sampled_from([6000, 9000, 12001, 20000]))
    lo = max(-1.0, np.log10(10 / (n / 100)))
    return {"r": pick(draw), "n": n, "tones": [[round(10 ** draw(st.floats(lo, 1.5)), 4), draw(st.sampled_from([1, 0.3, 3])), draw(st.floats(0, 6.28))] for _ in range(draw(st.integers(1, 5)))],
            "amp": draw(st.sampled_from([1, 1, 20, 1e-2, 1e3])), "round": draw(st.booleans()), "offset": draw(st.sampled_from([0, 0, 1e4, -500.0])), "k": draw(st.integers(0, 3)), "t0": draw(st.sampled_from(["2020-03-01T00:00:00", "2021-12-31T23:59:58.13"])), "had": draw(st.sampled_from(["no", "no", "other", "same"]))}


def f_restore(c):
    kw, own = args(c["r"])
    t = np.arange(c["n"]) / 100
    f = np.array([x[0] for x in c["tones"]])
    h = transfer(f, **own)
    P = np.zeros(len(t)); Y = np.zeros(len(t))
    for (fr, a, ph), g in zip(c["tones"], h):
        P += c["amp"] * a * np.sin(2 * np.pi * fr * t + ph)
        Y += c["amp"] * a * abs(g) * np.sin(2 * np.pi * fr * t + ph + np.angle(g))
    Y += c["offset"]
    if c["round"] and c["amp"] >= 20:
        Y = np.round(Y)
    codes = [("NM", "07%d" % k, "0%d" % k if k else "", "HDF") for k in range(max(c["k"], 1))]
    data = trace(Y, codes[0], c["t0"]) if c["k"] == 0 else obspy.Stream([trace((k + 1) * Y, x, c["t0"]) for k, x in enumerate(codes)])
    if c["had"] != "no":  # the traces already carry a response, possibly of another gain
        old = net.get_gem_response(**(kw if c["had"] == "same" else {"gain": "high" if c["r"]["w"] == "low" else "low"}))
        for tr in [data] if c["k"] == 0 else data:
            tr.stats.response = old
    out = net.deconvolve_gem_response(data, **kw)
    check(type(out) is type(data), "a %s is returned for a %s" % (type(out), type(data)))
    trs = [out] if c["k"] == 0 else list(out)
    cov.nontrivial(); cov.label(c["r"]["w"]); cov.label("stream", c["k"] > 0); cov.label("response attached before: " + c["had"]); cov.label("whole counts", bool(c["round"] and c["amp"] >= 20))
    check([x.id for x in trs] == [".".join(x) for x in codes], "the codes or the order of the traces changed")
    m = slice(int(0.25 * c["n"]), int(0.75 * c["n"]))
    for k, tr in enumerate(trs):
        check(tr.stats.npts == c["n"] and tr.stats.starttime == obspy.UTCDateTime(c["t0"]) and tr.stats.delta == 0.01, "times or length changed")
        e = tr.data[m] - (k + 1) * P[m]
        x = np.linspace(-1, 1, len(e))
        e = np.abs(e - np.polyval(np.polyfit(x, e, 3), x))  # the taper leaves a slow drift
        scale = (k + 1) * np.max(np.abs(P))
        tol = 0.01 * scale + ((k + 1) * 10 / abs(h).min() if c["round"] and c["amp"] >= 20 else 0)
        check(e.max() <= tol, lambda: "restored pressure differs by %.2f%% of the amplitude (%s)" % (100 * e.max() / scale, c["tones"]))


@st.composite
def s_lin(draw):
    return {"r": pick(draw), "n": draw(st.integers(300, 4000)), "seed": draw(st.integers(0, 10 ** 6)), "a": [draw(st.sampled_from([0, 1, -2.5, 1e-3, 1e4])), draw(st.sampled_from([1, -1, 7, 0]))], "kind": draw(st.sampled_from(["noise", "walk", "spike", "int"]))}


def f_lin(c):
    kw, _ = args(c["r"])
    rng = np.random.default_rng(c["seed"])
    def sig():
        x = rng.standard_normal(c["n"]) * 100
        if c["kind"] == "walk":
            x = np.cumsum(x)
        if c["kind"] == "spike":
            x = x * 0; x[rng.integers(0, c["n"])] = 1000
        return np.round(x) if c["kind"] == "int" else x
    x, y = sig(), sig()
    a, b = c["a"]
    d = lambda z: net.deconvolve_gem_response(trace(z), **kw).data
    X, Y, Z = d(x), d(y), d(a * x + b * y)
    cov.nontrivial(a != 0 or b != 0); cov.label(c["kind"])
    s = max(abs(a) * np.abs(X).max() + abs(b) * np.abs(Y).max(), 1e-12)
    D = Z - a * X - b * Y
    nyq = (-1.0) ** np.arange(len(D))
    D = D - nyq * (D @ nyq) / len(D)  # at the Nyquist frequency obspy keeps no phase
    check(np.max(np.abs(D)) <= 1e-6 * s, lambda: "deconvolution is not linear: off by %.2g of the amplitude" % (np.max(np.abs(D)) / s))
    st_ = net.deconvolve_gem_response(obspy.Stream([trace(x, ("A", "B", "", "HDF")), trace(y, ("A", "C", "", "HDF"))]), **kw)
    check(np.allclose(st_[0].data, X, rtol=0, atol=1e-9 * np.abs(X).max() + 1e-300) and np.allclose(st_[1].data, Y, rtol=0, atol=1e-9 * np.abs(Y).max() + 1e-300), "a stream is not treated as its traces one by one")
    xi = trace(x)
    check(net.deconvolve_gem_response(xi, **kw) is xi, "the trace returned is not the input trace")


@st.composite
def s_bad(draw):
    return {"what": draw(st.sampled_from(["gain", "gain response", "type"])), "i": draw(st.integers(0, 20)), "gain": draw(st.one_of(st.text(max_size=6), st.sampled_from(["medium", "", "hi", "0", "1", "highlow", "high "])))}


def f_bad(c):
    cov.nontrivial(); cov.label(c["what"])
    if c["what"] != "type":
        if c["gain"].lower() in ("high", "low"):
            return
        call = (lambda: net.get_gem_response(gain=c["gain"])) if c["what"].endswith("response") else (lambda: net.deconvolve_gem_response(trace(np.ones(100)), gain=c["gain"]))
        want = ValueError
    else:
        v = [None, 5, np.zeros(200), [1, 2, 3], "FILE0001.059", [trace(np.ones(100))], {"data": 1}, obspy.Inventory][c["i"] % 8]
        call = lambda: net.deconvolve_gem_response(v)
        want = TypeError
    try:
        call()
    except want:
        return
    except Exception as e:
        check(False, "%s instead of %s for %s" % (type(e).__name__, want.__name__, c["gain"] if c["what"] != "type" else c["i"]))
    check(False, "%s is accepted" % (repr(c["gain"]) if c["what"] != "type" else type(v)))


main("C21", [
    Sub("response", s_resp(), f_resp, 300, 5000, rule="responses by gain, file name or own file compared at random frequencies with an evaluation of the RESP files; non-trivial: not the default"),
    Sub("restore", s_restore(), f_restore, 160, 3000, rule="tones of pressure turned into counts with the response evaluated independently; every case is non-trivial"),
    Sub("linear", s_lin(), f_lin, 150, 3000, rule="random signals and combinations, traces and streams; non-trivial: a non-zero combination"),
    Sub("invalid", s_bad(), f_bad, 200, 2000, rule="unknown gains and inputs that are neither trace nor stream; every case is non-trivial"),
], ["tones of 0.1 to 32 Hz with at least ten periods in the record; the outer quarters of the record (taper) are not compared; 1% of the amplitude, apart from a slow drift (cubic)",
    "linearity up to the Nyquist frequency itself, where obspy keeps no phase", "the response files shipped are taken as the truth; the conversion's factor differs from them by 4%, up to 6% is allowed"])
