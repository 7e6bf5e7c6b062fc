import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
from hypothesis import strategies as st
import rawgen, gens, conv
from runner import Sub, check, cov, main
core = gemlog.core

# documented hardware table: first serial number of each version, version, amplifier resistor, supply voltage
TABLE = [(3, 0.5), (8, 0.7), (15, 0.8), (20, 0.82), (38, 0.9), (41, 0.91), (44, 0.92), (47, 0.98), (50, 0.99), (52, 0.991), (55, 0.992), (58, 1), (108, 1.01)]


def expected(sn):
    v = [v for lo, v in TABLE if lo <= sn][-1]
    gain = 1 + (50 if sn >= 47 else 49.4) / 0.470          # version 0.98 on
    volt = 0.256 / 2 ** 15 / gain
    sens = (3.1 if sn >= 38 else 3.373) / 7.0 * 45.13e-6   # version 0.90 on
    return v, volt, volt / sens


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * abs(b)


EDGES = sorted({lo + d for lo, _ in TABLE for d in (-1, 0, 1)} - {2} | {59, 77, 96, 99, 100, 128, 999, 1000, 9999})


@st.composite
def s_specs(draw):
    return {"sn": draw(st.one_of(st.sampled_from(EDGES), st.integers(3, 400), st.integers(400, 100000))), "form": draw(st.sampled_from(["int", "str", "%03d", "%04d", "npint", "npstr"])),
            "range": draw(st.sampled_from([0, 1])), "units": draw(st.sampled_from(["Pa", "V", "counts", "PA", "pa", "v", "Counts", "COUNTS"])), "series": draw(st.booleans()),
            "badsn": draw(st.sampled_from([2, 1, 0, -5, "002"])), "badrange": draw(st.sampled_from([2, 3, -1, 9])), "badunits": draw(st.sampled_from(["kPa", "", "volts", "Pascal", "m/s"]))}


def rejected(f, what):
    try:
        out = f()
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        return
    check(False, "%s was accepted: %r" % (what, out))


def f_specs(c):
    sn = c["sn"]
    key = {"int": sn, "str": str(sn), "npint": np.int64(sn), "npstr": np.str_("%03d" % sn)}.get(c["form"], None)
    key = key if key is not None else c["form"] % sn
    v, V, Pa = expected(sn)
    cov.nontrivial(); cov.label("version %s" % v); cov.label("units " + c["units"].lower()); cov.label("low gain", c["range"] == 1)
    s = gemlog.get_gem_specs(key)
    check(s["version"] == v, lambda: "serial number %r: version %r, documented %r" % (key, s["version"], v))
    check(close(s["bitweight_V"], V), lambda: "serial number %r: %r V per count, expected %r" % (key, s["bitweight_V"], V))
    check(close(s["bitweight_Pa"], Pa), lambda: "serial number %r: %r Pa per count, expected %r" % (key, s["bitweight_Pa"], Pa))
    check(s["bitweight_Pa"] > 0 and s["bitweight_V"] > 0, "factor not positive")
    cfg = {"gps_mode": 1, "gps_cycle": 15, "gps_quota": 20, "adc_range": c["range"], "led_shutoff": 0, "serial_output": 0}
    import pandas as pd
    cfg = pd.Series(cfg) if c["series"] else cfg
    b = core.get_bitweight_info(key, cfg, c["units"])
    m = 1 + c["range"]
    check(close(b["bitweight_V"], V * m) and close(b["bitweight_Pa"], Pa * m), lambda: "gain setting %d of %r: %r V, %r Pa per count" % (c["range"], key, b["bitweight_V"], b["bitweight_Pa"]))
    exp = {"pa": Pa * m, "v": V * m, "counts": 1}[c["units"].lower()]
    check(close(b["bitweight"], exp), lambda: "%r in %s: factor %r, expected %r" % (key, c["units"], b["bitweight"], exp))
    check(b["version"] == v, "version differs in get_bitweight_info")
    b2 = core.get_bitweight_info(key, cfg)
    check(close(b2["bitweight"], Pa * m), "default units are not Pa")
    # asking again gives the same answer (nothing accumulates)
    s2 = gemlog.get_gem_specs(key)
    check(s2["bitweight_Pa"] == s["bitweight_Pa"] and s2["bitweight_V"] == s["bitweight_V"], "the factors changed on the second call")
    rejected(lambda: gemlog.get_gem_specs(c["badsn"]), "serial number %r" % (c["badsn"],))
    bad = dict(cfg); bad["adc_range"] = c["badrange"]
    rejected(lambda: core.get_bitweight_info(key, bad), "gain setting %r" % c["badrange"])
    rejected(lambda: core.get_bitweight_info(key, dict(cfg), c["badunits"]), "unit %r" % c["badunits"])


@st.composite
def s_scale(draw):
    v = draw(st.sampled_from(["0.9", "0.91", "1.10", "1.10", "0.85C"]))
    spec = draw(gens.timing_spec((v,), nfiles=(1, 2), secs=(16, 22), gaps=draw(st.booleans())))
    spec["sn"] = "%03d" % draw(st.one_of(st.sampled_from([e for e in EDGES if e < 1000]), st.integers(3, 999)))
    spec["adc_range"] = draw(st.sampled_from([0, 1, 1]))
    spec["config"] = draw(st.sampled_from([True, True, True, False]))
    return {"spec": spec, "first": draw(st.sampled_from(["no", "no", "header", "headcut", "short", "empty"])), "units": draw(st.sampled_from(["Pa", "Pa", "V", "counts", "default", "Counts"])),
            "user": draw(st.sampled_from([None, None, None, 1.0, 0.25, 3.5e-5])), "fmt": draw(st.sampled_from(["sac", "SAC"]))}


def f_scale(c):
    spec = c["spec"]
    spec = dict(spec, files=[dict(f, num=f["num"] + 5) for f in spec["files"]])
    Fs = rawgen.build(spec)
    for F in Fs:
        rawgen.write(F, "raw")
    sn = spec["sn"]
    low = spec["adc_range"] == 1 and spec["config"] and spec["version"] != "0.85C"
    if c["first"] != "no":
        F = Fs[0]
        h = [l for l in F.header]
        k = [i for i, l in enumerate(h) if l.startswith("S,")]
        text = {"header": "".join(h), "headcut": "".join(h[:k[0] + 1]) if k else "".join(h[:3]), "short": "".join(h + F.lines[:40]), "empty": ""}[c["first"]]
        open("raw/FILE%04d.%s" % (Fs[0].num - 1, sn), "w").write(text)
    v, V, Pa = expected(int(sn))
    m = 2 if low else 1
    cov.nontrivial(); cov.label("low gain", low); cov.label("units " + c["units"]); cov.label("own factor", c["user"] is not None); cov.label("unusable first file", c["first"] != "no"); cov.label("no config line", not spec["config"])
    R = gemlog.read_gem("raw", SN=sn)
    h = R["header"]
    check(all(close(x, Pa * m) for x in h["bitweight_Pa"]) and all(close(x, V * m) for x in h["bitweight_V"]), lambda: "read: %r Pa, %r V per count; expected %r, %r" % (list(h["bitweight_Pa"]), list(h["bitweight_V"]), Pa * m, V * m))
    kw = {} if c["units"] == "default" else {"units": c["units"]}
    if c["user"] is not None:
        kw["bitweight"] = c["user"]
    gemlog.convert("raw", SN=sn, convertedpath="sac", output_format=c["fmt"], **kw)
    gemlog.convert("raw", SN=sn, convertedpath="ms", gpspath="g2", metadatapath="m2")
    exp = c["user"] if c["user"] is not None else {"pa": Pa * m, "v": V * m, "counts": 1.0}[c["units"].lower() if c["units"] != "default" else "pa"]
    S, M = conv.read_folder("sac", c["fmt"]), conv.read_folder("ms")
    for n, tr in S.items():
        check(close(tr.stats.calib, exp, 1e-6), lambda: "%s: scale %r, expected %r (serial number %s, %s gain, %s)" % (n, tr.stats.calib, exp, sn, "low" if low else "high", kw))
        check(close(tr.stats.sac.scale, exp, 1e-6), lambda: "%s: SAC scale %r" % (n, tr.stats.sac.scale))
    conv.equal_series(conv.series(S.values(), "SAC"), conv.series(M.values(), "miniSEED"), "SAC counts vs miniSEED")
    # scaled output equals counts times the factor
    import obspy
    for n in list(S)[:1]:
        scaled = obspy.read("sac/" + n, apply_calib=True)[0].data
        raw = M[n.rsplit(".", 1)[0] + ".mseed"].data
        check(np.allclose(scaled, raw * exp, rtol=1e-5, atol=abs(exp) * 1e-3), "%s: scaled output is not counts times the factor" % n)


main("C12", [
    Sub("specs", s_specs(), f_specs, 6000, 60000, rule="any serial number from 3 up in any form, both gains, all units, plus rejected inputs; every case is non-trivial"),
    Sub("scale", s_scale(), f_scale, 360, 6000, rule="conversion of generated recordings in either gain to SAC, possibly after an unusable first file; non-trivial: output written"),
], ["the gain setting does not change during a conversion"])
