import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
from hypothesis import strategies as st
import rawgen, gens, conv
from oracles import valid_g, g_time, M_COLS, M_COLS_08, G_COLS, same
from runner import Sub, check, cov, main
core = gemlog.core
import gemlog.gem_cat
gem_cat = sys.modules["gemlog.gem_cat"]


@st.composite
def s_merge(draw):
    spec = draw(gens.timing_spec(rawgen.VERSIONS, nfiles=(1, 6), secs=(8, 16), wave=False))
    spec["mode"] = draw(st.sampled_from(["walk", "small", "full"])); spec["adc0"] = draw(st.sampled_from([0, 500, -20000]))
    spec["batt"] = 3.7
    R = rawgen.rollover(spec["version"])
    for i, f in enumerate(spec["files"]):
        f["n"] = draw(st.one_of(st.integers(2, 40), st.integers(100, 700)))
        if draw(st.integers(0, 1)):
            f["gps"] = None
        else:
            f["gps"] = {"start": 0.0, "every": 1, "n": draw(st.integers(1, 9)), "bad": draw(st.sampled_from([[], [], [[0, "lat", 0.0]]])), "past": 0}
        f["gap_before"] = draw(st.sampled_from([0, 0, 3, 700, 2900])) if i else 0
    return {"spec": spec, "how": draw(st.sampled_from(["call", "call", "main"])), "ext": draw(st.sampled_from(["sn", "sn", "none"])), "exists": draw(st.booleans()),
            "cut": draw(st.lists(st.integers(0, 5), max_size=2, unique=True))}


def f_merge(c):
    spec = c["spec"]
    Fs = rawgen.build(spec)
    sn, v = spec["sn"], spec["version"]
    for i, F in enumerate(Fs):
        p = rawgen.write(F, "in")
        if i in c["cut"]:  # the last line of the file was written without its line end
            p = "in/" + F.name
            raw = open(p, "rb").read()
            open(p, "wb").write(raw.rstrip(b"\r\n"))
    # the first data line may be missing its fixes if a file is too short: go by the text
    has = [any(l.startswith("G") for l in F.lines) for F in Fs]
    groups = []
    for i, F in enumerate(Fs):
        if not groups:
            if has[i]:
                groups.append([F])
        elif has[i] and has[i - 1]:
            groups.append([F])
        else:
            groups[-1].append(F)
    before = conv.digest("in")
    ext = {"sn": "TXT" if v == "0.8" else sn, "none": ""}[c["ext"]]
    if c["exists"]:
        os.makedirs("out")
    cov.nontrivial(any(len(g) > 1 for g in groups)); cov.label("leading files without GPS", not has[0] and any(has)); cov.label(v); cov.label("no GPS at all", not any(has))
    if c["how"] == "main":
        gem_cat.main(["-i", "in", "-o", "out", "-e", ext])
    else:
        gem_cat.gem_cat("in", "out", ext)
    check(conv.digest("in") == before, "the input files were changed")
    names = conv.files("out") if os.path.isdir("out") else []
    check(names == ["FILE%04d.%s" % (i, sn) for i in range(len(groups))], lambda: "output files %s for GPS pattern %s" % (names, has))
    off = 0
    for g, n in zip(groups, names):
        what = "%s (from %s)" % (n, [F.name for F in g])
        L = core._read_single("out/" + n, 0, require_gps=False, version=v)
        d = np.asarray(L["data"], float)
        adc, cnt = np.concatenate([F.adc for F in g]), np.concatenate([F.cnt for F in g])
        check(len(d) == len(adc), lambda: "%s: %d samples, inputs hold %d" % (what, len(d), len(adc)))
        check(same(d[:, 1], adc), lambda: "%s: sample %d is %r, recorded %r" % (what, int(np.argmax(d[:, 1] != adc)), d[np.argmax(d[:, 1] != adc), 1], adc[np.argmax(d[:, 1] != adc)]))
        sh = d[0, 0] - cnt[0]
        check(same(d[:, 0] - d[0, 0], cnt - cnt[0], 1e-4), lambda: "%s: sample times differ" % what)
        M, exp = L["metadata"], [m for F in g for m in F.M]
        check(len(M) == len(exp), lambda: "%s: %d state-of-health rows, inputs hold %d" % (what, len(M), len(exp)))
        if exp:
            e = np.array(exp, float)
            for i, col in enumerate(M_COLS_08 if v == "0.8" else M_COLS):
                check(same(np.array(M[col], float), e[:, i + 1], 1e-9), lambda: "%s: state-of-health column %s differs" % (what, col))
            check(same(np.array(M["millis"], float) - sh, e[:, 0] - rawgen.TCORR, 1e-4) or same(np.array(M["millis"], float) - sh, e[:, 0], rawgen.TCORR + 0.1), lambda: "%s: state-of-health times differ" % what)
        G, exp = L["gps"], [x for F in g for x in F.G if valid_g(x)]
        if not exp:
            check(len(G) == 0, lambda: "%s: %d fixes from nowhere" % (what, len(G)))
            continue
        check(len(G) == len(exp), lambda: "%s: %d GPS fixes, inputs hold %d" % (what, len(G), len(exp)))
        for col in G_COLS:
            check(same(np.array(G[col], float), [x[col] for x in exp], 1e-9), lambda: "%s: GPS column %s differs" % (what, col))
        check(same(np.array(G["msPPS"], float) - sh, [x["ms"] for x in exp], rawgen.TCORR + 0.1), lambda: "%s: GPS counts differ" % what)
    # merging everything regardless of GPS
    gem_cat.gem_cat("in", "all", ext, cat_all=True)
    check(conv.files("all") == ["FILE9999." + sn], lambda: "merging everything gave %s" % conv.files("all"))
    d = np.asarray(core._read_single("all/FILE9999." + sn, 0, require_gps=False, version=v)["data"], float)
    check(same(d[:, 1], np.concatenate([F.adc for F in Fs])), "merging everything: samples differ")
    check(conv.digest("in") == before, "the input files were changed")


main("C11", [
    Sub("merge", s_merge(), f_merge, 900, 20000, rule="folder of 1-6 files with any pattern of GPS presence, all formats; non-trivial: at least one file is appended to another"),
], ["breaks between files shorter than half a counter rollover"])
