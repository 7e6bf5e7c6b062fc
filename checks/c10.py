import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
from hypothesis import strategies as st
import rawgen, gens, conv
from badgps import gps_file
from runner import Sub, check, cov, main

# kind -> is the serial number readable
KINDS = {"empty": False, "tiny": False, "noheader": False, "binary": False, "cut_header": False, "header_only": True, "garbage_body": True, "short_cut": True,
         "none": True, "invalid": True, "few": True, "short": True, "step": True, "version_none": True, "config_none": True, "jump": True, "other": None, "other_bad": None,
         "txt_other": None, "txt_garbage": None, "noise": None}


@st.composite
def s_folder(draw, allbad=False):
    spec = draw(gens.timing_spec(("0.91", "1.10", "0.9"), nfiles=(1, 3), secs=(16, 26)))
    nums = [f["num"] for f in spec["files"]]
    bad = []
    used = set(nums)
    pool = [k for k in KINDS if not allbad or KINDS[k] is not None or k == "other"]
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(pool))
        num = draw(st.sampled_from([n for n in sorted({max(0, min(nums) - 1), max(0, min(nums) - 13), min(nums) + 1, max(nums) + 1, max(nums) + 2, max(nums) + 15, *[n + 1 for n in nums], *[max(0, n - 1) for n in nums]}) if n not in used and n < 10000] or [9999]))
        if num in used:
            continue
        used.add(num)
        b = {"kind": kind, "num": num, "seed": draw(gens.seeds)}
        g = {"version_none": "none", "config_none": "none", "other": "ok", "other_bad": "none", "txt_other": "ok", "jump": "ok"}.get(kind, kind)
        if g in ("none", "invalid", "few", "short", "step", "ok"):
            b["file"] = draw(gps_file(g, spec["dt"]))
            b["file"]["num"] = num
            if kind == "jump":
                b["file"]["gaps"] = [[draw(st.floats(0.1, 0.9)), draw(st.integers(1100, 3900))]]
        bad.append(b)
    return {"spec": spec, "bad": bad, "bd": draw(st.sampled_from([1, 1, 1, 0.25, 1 / 12])), "osn": draw(gens.other_sn(spec["sn"])), "allbad": allbad}


def make_bad(b, spec, osn):
    sn, num = spec["sn"], b["num"]
    rng = np.random.default_rng(b["seed"])
    k = b["kind"]
    name = "raw/FILE%04d.%s" % (num, sn)
    os.makedirs("raw", exist_ok=True)
    head = "".join(rawgen.header(spec["version"], sn))
    if "file" in b:
        s2 = dict(spec, files=[b["file"]], seed=b["seed"], t0=spec["t0"] - 3000 + int(rng.integers(0, 6000)), quad=0)
        if k.startswith("other") or k == "txt_other":
            s2["sn"] = osn
        F = rawgen.build(s2)[0]
        if k == "version_none":
            F.header[0] = "#GemC%s\n" % ["SV", "", "SV9.99", "SV0.", "XX0.9"][int(rng.integers(0, 5))]
        if k == "config_none":
            F.header = [h for h in F.header if not h.startswith("C")] + ["C,1,15,20,%d,0,0\n" % int(rng.integers(2, 9))]
        F.num = num
        rawgen.write(F, "raw", "FILE%04d.TXT" % num if k == "txt_other" else "FILE%04d.%s" % (num, s2["sn"]))
        return name
    data = {"empty": b"", "tiny": b"#GemCSV0", "noheader": b"D100,5\nD110,3\n" * 50, "binary": bytes(rng.integers(0, 256, 3000).astype(np.uint8)), "cut_header": head[:int(rng.integers(12, 60))].encode(),
            "header_only": head.encode(), "garbage_body": head.encode() + bytes(rng.integers(0, 256, 3000).astype(np.uint8)),
            "short_cut": head.encode() + b"D100,5\nD110,3\n", "txt_garbage": bytes(rng.integers(0, 256, 500).astype(np.uint8)), "noise": b"hello\n"}[k]
    if k == "txt_garbage":
        name = "raw/FILE%04d.TXT" % num
    if k == "noise":
        name = "raw/FILE%04d.%s" % (num, ["bak", "zip", "ABC"][int(rng.integers(0, 3))])
    with open(name, "wb") as f:
        f.write(data)
    return name


def groups(nums, good, bd):
    out, n1 = [], min(nums)
    while n1 <= max(nums):
        b = tuple(n for n in good if n1 <= n < n1 + 12 * bd)
        if b:
            out.append(b)
        n1 += 12 * bd
    return out


def f_folder(c):
    spec = c["spec"]
    Fs = rawgen.build(spec)
    sn = spec["sn"]
    names = {}
    for b in c["bad"]:
        names[make_bad(b, spec, c["osn"])] = b["kind"]
    good = [F.num for F in Fs]
    if not c["allbad"]:
        for F in Fs:
            rawgen.write(F, "raw"); rawgen.write(F, "good")
    kinds = set(names.values())
    for k in kinds:
        cov.label(k)
    cov.nontrivial(bool(kinds - {"empty", "noise"}))
    if c["allbad"]:
        if not c["bad"]:
            return
        try:
            p = gemlog.convert("raw", "out", SN=sn, blockdays=c["bd"])
        except Exception:
            return
        check(False, "converting a folder with no usable file (%s) reported success: %r" % (sorted(kinds), p))
    gemlog.convert("good", "exp", metadatapath="me", gpspath="ge", SN=sn, blockdays=c["bd"])
    problems = gemlog.convert("raw", "out", metadatapath="mo", gpspath="go", SN=sn, blockdays=c["bd"])
    E, O = conv.read_folder("exp"), conv.read_folder("out")
    readable = [b["num"] for b in c["bad"] if KINDS[b["kind"]]]
    ge, go = groups(good, good, c["bd"]), groups(good + readable, good, c["bd"])
    what = "with bad files %s" % sorted((b["num"], b["kind"]) for b in c["bad"])
    if ge == go:
        check(list(E) == list(O), lambda: "%s: output files %s, from good files alone %s" % (what, list(O), list(E)))
        conv.equal_series(conv.series(O.values()), conv.series(E.values()), what)
        for d1, d2, kind in (("ge", "go", "gps"), ("me", "mo", "metadata")):
            a, b = (open("%s/%s%s_000.txt" % (d, sn, kind)).read() for d in (d1, d2))
            check(a == b, lambda: "%s: the %s table differs from that of the good files alone" % (what, kind))
    else:
        cov.label("blocks shifted")
        away = []
        t = np.concatenate([F.t for F in Fs])
        d = np.diff(t)
        bt = [F.t[0] for F in Fs] + [F.t[-1] for F in Fs] + list(t[1:][d > 0.015]) + list(t[:-1][d > 0.015])
        for S in (conv.series(O.values()), conv.series(E.values())):
            m = np.ones(len(S[0]), bool)
            for x in bt:
                m &= np.abs(S[0] * 0.01 - x) > 0.06
            away.append((S[0][m], S[1][m]))
        sl = sum(2 * np.pi * abs(a) * f for a, f, p in spec["wave"]["sines"])
        conv.equal_series(away[0], away[1], what, tol=1 + sl * 2e-5)
    for n, k in names.items():
        base = os.path.basename(n)
        if KINDS[k]:
            check(any(base in p for p in problems), lambda: "%s: the skipped file %s (%s) is not reported; problems %r" % (what, base, k, problems))
    for F in Fs:
        check(not any(F.name in p for p in problems), lambda: "%s: the good file %s is reported: %r" % (what, F.name, problems))


main("C10", [
    Sub("folder", s_folder(), f_folder, 420, 8000, rule="1-3 good files and 1-5 bad or foreign files of 21 kinds at chosen numbers; non-trivial: a bad file that is not just empty"),
    Sub("allbad", s_folder(True), f_folder, 60, 1200, rule="folder with only bad or foreign files; non-trivial as above"),
], ["block boundaries move with the lowest readable file number; then samples within 60 ms of file ends are not compared"])
