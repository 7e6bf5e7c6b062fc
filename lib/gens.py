"""Shared Hypothesis strategies.  Every strategy yields plain JSON values."""
from hypothesis import strategies as st

seeds = st.integers(0, 2 ** 31 - 1)
SNS = ["003", "014", "037", "046", "048", "059", "077", "101", "107", "108", "210", "999"]


def other_sn(sn):
    """Serial numbers of another logger, among them ones that are easily confused with sn."""
    like = [x for x in ("1" + sn[1:], "0" + sn[1:], sn[1:] + sn[0], sn[::-1], sn[:2] + "0", "9" + sn[1:]) if x != sn and int(x) >= 3]
    return st.one_of(st.sampled_from([s for s in SNS if s != sn]), st.sampled_from(like))


# start times between 2015 and 2025, biased to awkward instants
EPOCHS = [1420070400, 1456704000, 1483228790, 1546300800 - 20, 1582934400, 1592630400 - 30, 1609459200 - 25,
          1645056000, 1645142390, 1700000000, 1709164800 - 40, 1735689600 - 35]


@st.composite
def t0s(draw, frac=True):
    base = draw(st.one_of(st.sampled_from(EPOCHS), st.integers(1420070400, 1735000000)))
    f = draw(st.sampled_from([0.0, 0.25, 0.5, 0.123, 0.004, 0.996, 0.7315])) if frac else 0.0
    return base + f


@st.composite
def decode_spec(draw, versions, nmax=900, require_g=True):
    """One short file, no timing constraints: for decoding checks."""
    v = draw(st.sampled_from(versions))
    R = 2 ** 16 if v in ("0.8", "0.85") else 2 ** 13
    n = draw(st.integers(2, nmax))
    f = {"n": n, "gaps": draw(st.lists(st.tuples(st.floats(0.1, 0.9), st.integers(15, min(900, R // 2 - 200))), max_size=2)),
         "m_first": draw(st.integers(0, 15)), "m_every": draw(st.sampled_from([7, 100, 333, 1000])), "num": draw(st.integers(0, 9999))}
    g = {"start": draw(st.sampled_from([-0.9, 0.0, 0.4])), "every": draw(st.sampled_from([1, 1, 2])), "n": draw(st.integers(1, 12)), "past": 2000, "bad": []}
    g["late"] = draw(st.sampled_from([0, 0, 0.3, 1]))
    for _ in range(draw(st.integers(0, 3))):
        j = draw(st.integers(0, 11))
        g["bad"].append(draw(st.one_of(
            st.tuples(st.just(j), st.just("lat"), st.sampled_from([0.0, 90.5, -91.0, 100.0])),
            st.tuples(st.just(j), st.just("lon"), st.sampled_from([0.0, 180.5, -181.0, 500.0])),
            st.tuples(st.just(j), st.just("lag"), st.sampled_from([-5.0, 1001.0, 1500.0])),
            st.tuples(st.just(j), st.just("elag"), st.sampled_from([0, 1000])),
            st.tuples(st.just(j), st.just("elat"), st.sampled_from([90.0, -90.0, 0.00001])),
            st.tuples(st.just(j), st.just("elon"), st.sampled_from([180.0, -180.0, -0.00001])),
            st.tuples(st.just(j), st.just("frac"), st.sampled_from([0.1, 0.5, 0.9])),
            st.tuples(st.just(j), st.just("date"), st.sampled_from([(0, 2013), (0, 2041), (1, 0), (1, 13), (2, 0), (2, 32), (3, 25), (4, 61), (0, 1980), [(1, 2), (2, 30)], [(1, 4), (2, 31)], (3, 24), (4, 60)])),
            st.tuples(st.just(j), st.just("second"), st.sampled_from([60.0, -1.0])),
            st.tuples(st.just(j), st.just("time"), st.sampled_from([86400.0, -3600.0, 17.0])))))
    f["gps"] = g
    return {"version": v, "sn": draw(st.sampled_from(SNS)), "seed": draw(seeds), "t0": draw(st.one_of(t0s(), t0s(), st.sampled_from([1388534401, 2240524700]))), "ms0": draw(st.integers(0, R - 1)),
            "c0": draw(st.sampled_from([0, 0, 5000, 123456])), "ppm": draw(st.sampled_from([0, 20, -35])), "dt": draw(st.sampled_from([9.6, 9.77, 10.0, 10.24])),
            "jit": draw(st.integers(0, 2)), "mode": draw(st.sampled_from(["walk", "small", "full"])), "amp": draw(st.sampled_from([3, 12, 400])),
            "gain": draw(st.sampled_from([1, 1, 120])), "adc0": draw(st.sampled_from([0, -7, 30000])), "debug": draw(st.integers(0, 1)),
            "enc": draw(st.sampled_from(["auto", "one", "mixed", "plain"])), "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])),
            "lat": draw(st.sampled_from([43.6, -12.5, 0.3, -89.9])), "lon": draw(st.sampled_from([-116.2, 12.25, 179.9, -0.4])), "files": [f]}


@st.composite
def waves(draw, amax=30000, fmax=4.0):
    n = draw(st.integers(1, 4))
    return {"tref": 0, "off": draw(st.sampled_from([0, 0, -5000, 12345])),
            "sines": [[draw(st.sampled_from([200, 3000, amax])), draw(st.floats(0.05, fmax).map(lambda x: round(x, 3))), draw(st.floats(0, 6.3).map(lambda x: round(x, 2)))] for _ in range(n)]}


@st.composite
def timing_spec(draw, versions=("0.85C", "0.9", "0.91", "1.10"), nfiles=(1, 3), secs=(18, 60), gaps=True, wave=True, every=(1, 1, 2)):
    """A recording with adequate GPS in every file."""
    v = draw(st.sampled_from(list(versions)))
    R = 2 ** 16 if v in ("0.8", "0.85") else 2 ** 13
    k = draw(st.integers(*nfiles))
    t0 = draw(t0s())
    dt = draw(st.sampled_from([9.6, 9.77, 9.766, 9.9]))
    num0 = draw(st.sampled_from([0, 0, 3, 95, 9000]))
    files, num = [], num0
    for i in range(k):
        s = draw(st.integers(*secs))
        e = draw(st.sampled_from(list(every)))
        e = e if s // e >= 13 else 1
        f = {"n": int(s / (dt * 0.001024)), "m_first": draw(st.integers(20, 900)), "m_every": draw(st.sampled_from([333, 1000, 5000])),
             "gaps": [], "gps": {"start": 0.0, "every": e, "n": s // e + 2, "bad": []}, "num": num}
        f["gps"]["late"] = draw(st.sampled_from([0, 0, 0, 0.2, 1]))
        if gaps:
            f["gaps"] = draw(st.lists(st.tuples(st.floats(0.05, 0.95), st.one_of(st.integers(15, 60), st.integers(60, 480))), max_size=2))
        if i and gaps:
            f["gap_before"] = draw(st.sampled_from([0, 0, 0, 5, 30, 4000, 5000, 8192, 9000, 100000, 3000000]))
        files.append(f)
        num += draw(st.sampled_from([1, 1, 1, 2, 14]))
    spec = {"version": v, "sn": draw(st.sampled_from(SNS)), "seed": draw(seeds), "t0": t0, "ms0": draw(st.one_of(st.sampled_from([0, R - 1, R // 2]), st.integers(0, R - 1))), "c0": 0,
            "ppm": draw(st.sampled_from([0, 0, 13.5, -40, 60, -60])), "quad": draw(st.sampled_from([0, 0, 5, -20])), "dt": dt, "jit": draw(st.integers(0, 1)), "mode": draw(st.sampled_from(["walk", "small"])),
            "amp": draw(st.sampled_from([3, 40])), "enc": draw(st.sampled_from(["auto", "mixed", "one"])), "eol": draw(st.sampled_from(["\n", "\r\n"])), "debug": draw(st.sampled_from([0, 0, 1])),
            "lat": draw(st.sampled_from([43.6, -12.5, 0.3])), "lon": draw(st.sampled_from([-116.2, 12.25, 179.9])), "files": files}
    if wave:
        w = draw(waves())
        w["tref"] = round(t0)
        spec["wave"] = w
    return spec
