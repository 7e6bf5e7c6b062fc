import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from runner import Sub, check, cov, main
import gemlog.gemlog_aux
aux = sys.modules["gemlog.gemlog_aux"]
D = os.path.join(os.path.dirname(aux.__file__), "data", "noise")
_g = np.loadtxt(os.path.join(D, "Gem_v0.98_Noise_spec.txt"), delimiter=",", skiprows=1)
_i = np.loadtxt(os.path.join(D, "IMSNOISE_MIN_MED_MAX.txt"))
TAB = {"gem": (_g[:, 0], _g[:, 1] ** 2), "low": (_i[:, 0], 10 ** _i[:, 1]), "medium": (_i[:, 0], 10 ** _i[:, 2]), "high": (_i[:, 0], 10 ** _i[:, 3])}
NAMES = {"low": ["low", "Low", "min", "MIN"], "medium": ["medium", "med", "Med"], "high": ["high", "HIGH", "hi", "max"], "gem": ["1.0", "0.98", "0.97", "1.1", "1.10", 1.0, 1.1]}
TYPES = {"power": ["power", "Power"], "amp": ["amp", "amplitude", "Amp"], "db": ["dB", "db", "DB"]}
UNITS = {"power": ("Pa^2/Hz", "Pa^2"), "amp": ("Pa/sqrt(Hz)", "Pa"), "db": ("dB Pa/sqrt(Hz)", "dB Pa")}
CONV = {"power": lambda p: p, "amp": np.sqrt, "db": lambda p: 10 * np.log10(p)}
X, W = np.polynomial.legendre.leggauss(6)


def call(model, name, **kw):
    return aux.gem_noise(version=name, **kw) if model == "gem" else aux.ims_noise(model=name, **kw)


@st.composite
def s_band(draw):
    m = draw(st.sampled_from(["gem", "gem", "low", "medium", "high"]))
    f = TAB[m][0]
    lo, hi = max(f[0], 1e-3), f[-1]
    fr = st.one_of(st.floats(0, 1).map(lambda u: float(lo * (hi / lo) ** u)), st.sampled_from([float(x) for x in f[::17]]), st.sampled_from([float(f[0]), float(f[-1])]))
    b = sorted([draw(fr), draw(fr), draw(fr)])
    return {"model": m, "name": draw(st.sampled_from(NAMES[m])), "b": b, "type": draw(st.sampled_from(sorted(TYPES))), "word": draw(st.integers(0, 1)),
            "freq": draw(st.one_of(st.none(), st.lists(st.one_of(fr, st.sampled_from([0.0, 0.001, 60.0, 1e3, -1.0])), min_size=1, max_size=30))), "as": draw(st.sampled_from(["array", "list", "series", "scalar"]))}


def f_band(c):
    m, t = c["model"], c["type"]
    T = TYPES[t][c["word"] % len(TYPES[t])]
    f, p = TAB[m]
    raw = c["freq"]
    fq = None if raw is None else {"array": np.array(raw), "list": list(raw), "series": pd.Series(raw), "scalar": raw[0]}[c["as"]]
    ref = np.array(raw if c["as"] != "scalar" else raw[:1], float) if raw is not None else f
    a, b, d = c["b"]
    r = call(m, c["name"], freq=fq, spectype=T, freq_min=a, freq_max=d)
    rp = call(m, c["name"], freq=fq, freq_min=a, freq_max=d)
    cov.nontrivial(d > a * 1.01); cov.label(m); cov.label(t); cov.label("frequencies out of range", bool(((ref < f[0]) | (ref > f[-1])).any()))
    check(np.array_equal(np.atleast_1d(r["freqs"]), ref), "the frequencies returned are not those asked for")
    s, sp = np.atleast_1d(np.array(r["spectrum"], float)), np.atleast_1d(np.array(rp["spectrum"], float))
    check(len(s) == len(ref), "spectrum and frequencies differ in length")
    out = (ref < f[0]) | (ref > f[-1])
    check(np.isnan(s[out]).all(), "a value is given for a frequency outside the model")
    check(np.isfinite(s[~out]).all() and (sp[~out] > 0).all(), "no value is given for a frequency in the model")
    check(np.allclose(s[~out], CONV[t](sp[~out]), rtol=1e-9), lambda: "%s spectrum does not follow from the power spectrum" % T)
    for k, x in enumerate(ref):
        j = np.where(f == x)[0]
        if len(j):
            check(abs(sp[k] / p[j[0]] - 1) < 1e-6, lambda: "power at %g Hz is %g, the table has %g" % (x, sp[k], p[j[0]]))
        elif not out[k] and x > f[2] and x < f[-3]:
            i = np.searchsorted(f, x)
            lo, hi = p[i - 2:i + 2].min(), p[i - 2:i + 2].max()
            check(lo * 0.6 <= sp[k] <= hi * 1.6, lambda: "power at %g Hz is %g, the table has %g and %g around it" % (x, sp[k], p[i - 1], p[i]))
    check((r["spectrum_units"], r["noise_units"]) == UNITS[t], lambda: "units %r" % ((r["spectrum_units"], r["noise_units"]),))
    check(r["freq_min"] == a and r["freq_max"] == d, "the band is not returned")
    P = lambda u, v: float(call(m, c["name"], freq_min=u, freq_max=v)["noise"])
    whole = P(a, d)
    check(abs(rp["noise"] - whole) <= 1e-12 * abs(whole), "band noise depends on the frequencies asked for")
    if whole > 0:
        check(abs(r["noise"] - CONV[t](whole)) <= 1e-9 * max(abs(CONV[t](whole)), 1e-9), lambda: "noise %r as %s, power %r" % (r["noise"], T, whole))
    # integral of the spectrum as returned
    kn = np.unique(np.concatenate([[a, d], f[(f > a) & (f < d)]]))
    if d > a:
        x = (kn[:-1, None] + kn[1:, None]) / 2 + X[None, :] * np.diff(kn)[:, None] / 2
        v = np.array(call(m, c["name"], freq=x.ravel())["spectrum"]).reshape(x.shape)
        ref_i = float(np.sum(v * W[None, :] * np.diff(kn)[:, None] / 2))
        check(abs(whole - ref_i) <= 2e-4 * ref_i, lambda: "noise in %g-%g Hz is %g, the integral of the spectrum %g" % (a, d, whole, ref_i))
    else:
        check(abs(whole) < 1e-15, "noise in an empty band")
    one, two = P(a, b), P(b, d)
    check(abs(one + two - whole) <= 2e-4 * whole + 1e-18, lambda: "noise %g in %g-%g Hz and %g in %g-%g Hz do not add up to %g" % (one, a, b, two, b, d, whole))
    check(one <= whole * (1 + 1e-9) + 1e-18 and two <= whole * (1 + 1e-9) + 1e-18 and one >= 0, "noise does not increase with the band")
    check(np.isnan(call(m, c["name"], spectype=T)["noise"]), "a noise value without a band")
    if f[-1] >= 50:
        n50 = call(m, c["name"], spectype=T, freq_min=a)
        check(n50["freq_max"] == 50 and abs(n50["noise"] - CONV[t](P(a, 50))) <= 1e-9 * abs(n50["noise"]) if a < 50 else True, "the band does not end at 50 Hz by default")


@st.composite
def s_models(draw):
    f = TAB["low"][0]
    x = st.floats(0, 1).map(lambda u: float(0.001 * (f[-1] / 0.001) ** u))
    return {"f": draw(st.lists(x, min_size=1, max_size=20)), "b": sorted([draw(x), draw(x)]), "type": draw(st.sampled_from(["power", "amp", "dB"])), "n": [draw(st.sampled_from(NAMES[k])) for k in ("low", "medium", "high")]}


def f_models(c):
    r = [aux.ims_noise(n, np.array(c["f"]), c["type"], c["b"][0], c["b"][1]) for n in c["n"]]
    cov.nontrivial(c["b"][1] > c["b"][0]); cov.label(c["type"])
    for a, b, what in ((r[0], r[1], "low and medium"), (r[1], r[2], "medium and high")):
        check(np.all(np.array(a["spectrum"]) < np.array(b["spectrum"])), "the %s models are not in order" % what)
        if c["b"][1] > c["b"][0] * 1.0001:
            check(a["noise"] < b["noise"], "band noises of the %s models are not in order" % what)
    if c["type"] == "power":
        d = aux.ims_noise(freq=np.array(c["f"]), freq_min=c["b"][0], freq_max=c["b"][1])
        check(np.array_equal(d["spectrum"], r[0]["spectrum"]), "the model used by default is not the low one")


@st.composite
def s_bad(draw):
    return {"what": draw(st.sampled_from(["model", "version", "type", "type gem"])), "text": draw(st.one_of(st.text(max_size=6), st.sampled_from(["lowest", "mid", "0.9", "0.91", "0.85C", "0.96", "0.969", "pow", "decibel", "am", "db20", "", "1,0", "powers", "medium-high"])))}


def f_bad(c):
    x = c["text"]
    cov.nontrivial(); cov.label(c["what"])
    if c["what"] == "model":
        if x.lower() in ("low", "min", "med", "medium", "high", "hi", "max"):
            return
        f = lambda: aux.ims_noise(model=x)
    elif c["what"] == "version":
        try:
            if float(x) >= 0.97 or x.strip().lower().endswith("nan"):
                return
        except ValueError:
            pass
        f = lambda: aux.gem_noise(version=x)
    else:
        if x.lower() in ("power", "db") or x.lower().startswith("amp"):
            return
        f = lambda: (aux.ims_noise if c["what"] == "type" else aux.gem_noise)(spectype=x, freq_min=0.1, freq_max=1)
    try:
        f()
    except Exception:
        return
    check(False, "%s %r is accepted" % (c["what"], x))


main("C20", [
    Sub("bands", s_band(), f_band, 700, 12000, rule="a model, spectrum type, frequencies and three band limits; non-trivial: a band of some width"),
    Sub("models", s_models(), f_models, 300, 5000, rule="the three global models at the same frequencies and band; non-trivial: a band of some width"),
    Sub("invalid", s_bad(), f_bad, 300, 3000, rule="unknown models, versions and spectrum types; every case is non-trivial"),
], ["between tabulated frequencies the spectrum is only bounded by its neighbours in the table (factor 1.6)", "bands inside the frequency range of the model; integrals to 0.02%"])
