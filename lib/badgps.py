"""Generator of raw files whose GPS coverage is of a given kind (see KINDS)."""
from hypothesis import strategies as st
KINDS = ["ok", "ok_edge", "none", "invalid", "few", "few_half", "short", "short_out", "step", "nine"]
REFUSED = {"none": "no gps", "invalid": "no gps", "few": "inadequate", "few_half": "inadequate", "nine": "inadequate", "short": "inadequate", "short_out": "inadequate", "step": "step"}


@st.composite
def gps_file(draw, kind, dt):
    """File dict whose GPS coverage is of the given kind, clearly away from the accept boundary."""
    s = draw(st.integers(44, 90))
    f = {"n": int(s / (dt * 0.001024)), "m_first": draw(st.integers(20, 500)), "m_every": 1000, "gaps": [], "kind": kind}
    if draw(st.booleans()):
        f["gaps"] = [[draw(st.floats(0.2, 0.8)), draw(st.integers(30, 480))]]
    g = {"start": 0.0, "every": 1, "n": s + 2, "bad": [], "late": draw(st.sampled_from([0, 0, 0, 0.3, 1]))}
    if kind == "ok_edge":
        # at least 12 fixes covering a little more than half the file
        frac = draw(st.floats(0.58, 0.75))
        e = draw(st.sampled_from([1, 2]))
        g["every"], g["n"] = e, int(frac * s / e) + 2
        if g["n"] < 12:
            g["every"], g["n"] = 1, int(frac * s) + 2
        g["start"] = round(draw(st.floats(0, 0.95)) * (s - g["every"] * g["n"]), 1) if s > g["every"] * g["n"] + 2 else 0.0
    elif kind == "none":
        g = None
    elif kind == "invalid":
        # every fix unusable for one reason; apart from that most of them look like a good record
        if draw(st.integers(0, 2)) == 0:
            g["n"] = draw(st.integers(1, 20))
        b = draw(st.sampled_from([["lat", 0.0], ["lon", 0.0], ["lat", 91.0], ["lon", -181.0], ["lag", 1500.0], ["lag", -3.0], ["date", [0, 1980]], ["date", [0, 2099]],
                                  ["date", [1, 0]], ["date", [1, 13]], ["date", [2, 0]], ["date", [2, 32]], ["date", [3, 25]], ["date", [4, 61]], ["frac", 0.5], ["date", [[1, 2], [2, 30]]],
                                  ["time", -1024 * 7 * 86400.0], ["time", -2048 * 7 * 86400.0], ["time", 2048 * 7 * 86400.0]]))
        g["bad"] = [[j] + b for j in range(g["n"])]
    elif kind == "few":
        g["n"] = draw(st.integers(1, 8))
        g["every"] = 1
    elif kind == "few_half":
        g["n"] = draw(st.integers(2, 9)); g["every"] = max(1, int(0.9 * s / g["n"]))
    elif kind == "nine":
        g["n"] = 9; g["every"] = int(s * 0.85 / 9)
    elif kind == "short":
        g["n"] = max(10, int(draw(st.floats(0.25, 0.42)) * s)); g["start"] = round(draw(st.floats(0, 0.9)) * (s - g["n"] - 3), 1)
        if g["n"] > 0.44 * s:
            g["n"] = int(0.42 * s)
    elif kind == "short_out":
        # consistent fixes over less than half of the file, then one isolated wrong fix
        k = max(18, int(0.3 * s)); s = max(s, 60)
        f["n"] = int(s / (dt * 0.001024))
        k = max(20, int(0.35 * s))
        g["n"] = k
        g["bad"] = [[k - 1, "time", draw(st.sampled_from([40.0, 60.0, 300.0, 3600.0, 86400.0]))]]
    elif kind == "step":
        j = int(g["n"] * draw(st.floats(0.25, 0.75)))
        g["steps"] = [[j, draw(st.sampled_from([1.0, -1.0, 2.0, -2.0, 17.0, 3600.0]))]]
    f["gps"] = g
    return f
