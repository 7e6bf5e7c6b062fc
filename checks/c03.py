import os, sys, ctypes, re, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
gemlog = boot()
import numpy as np
from hypothesis import strategies as st
import rawgen, gens
from oracles import valid_g, M_COLS, M_COLS_08, same
from runner import Sub, check, cov, main
core = gemlog.core
NEW = ["0.85C", "0.9", "0.91", "1.10"]
OK_EXC = Exception
# full well-formed lines of the difference formats
RE_D2 = re.compile(rb"^D\d{1,5}(?:\.\d{1,6})?,-?\d{1,7}\r?$")
RE_D1 = re.compile(rb"^D-?\d{1,6}\r?$")
RE_G = re.compile(rb"^G,\d{1,5}(?:\.\d{1,6})?,-?\d{1,5}(?:\.\d{1,6})?,\d{1,5},\d{1,4},\d{1,4},\d{1,4},\d{1,4},\d{1,4}(?:\.\d{1,6})?,-?\d{1,4}(?:\.\d{1,9})?,-?\d{1,4}(?:\.\d{1,9})?\r?$")
RE_M = re.compile(rb"^M,\d{1,5}(?:\.\d{1,6})?(?:,-?\d{1,6}(?:\.\d{1,6})?){4}(?:,-?\d{1,6}){7}\r?$")
RE_C = re.compile(rb"^[a-y]{1,2}\r?$")
libc = ctypes.CDLL(None)


def watchdog(s=100):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)   # a hang kills the worker, which is reported with the case
    signal.alarm(s)


NUM = rb"[ \t]*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|[+-]?(?:nan|inf)[a-z]*)"


def fields(line, n):
    """Leading numbers of the comma-separated fields of a line, as far as they go (None where absent)."""
    out = []
    for f in line.split(b",")[:n]:
        m = re.match(NUM, f, re.I)
        if not m:
            break
        try:
            out.append(float(m.group(1)))
        except ValueError:
            out.append(float("nan"))
    return out


def byfield(line, n):
    """The comma-separated fields of a line as numbers, NaN where a field is empty or no number."""
    out = []
    for f in line.split(b",")[:n]:
        try:
            out.append(float(f.decode("ascii", "ignore").strip() or "nan"))
        except ValueError:
            out.append(float("nan"))
    return out


def c_scan(kind, line):
    """The numbers the C library finds in a data line (fields after the type letter)."""
    buf = line.split(b"\0")[0] + b"\0"
    dbl = [ctypes.c_double() for _ in range(5)]
    if kind == "G":
        d = [ctypes.c_double() for _ in range(5)]; i = [ctypes.c_int() for _ in range(5)]
        n = libc.sscanf(buf, b"%lf,%lf,%d,%d,%d,%d,%d,%lf,%lf,%lf", *[ctypes.byref(x) for x in d[:2] + i + d[2:]])
        v = [x.value for x in d[:2] + i + d[2:]]
    else:
        d = [ctypes.c_double() for _ in range(5)]; i = [ctypes.c_int() for _ in range(7)]
        n = libc.sscanf(buf, b"%lf,%lf,%lf,%lf,%lf,%d,%d,%d,%d,%d,%d,%d", *[ctypes.byref(x) for x in d + i])
        v = [x.value for x in d + i]
    return v[:max(n, 0)]


def asc(ln):
    return bytes(x for x in ln if x < 128)


def classify(raw, version):
    """-> list of (kind, status, values) per line: status intact / damaged / other."""
    out = []
    for ln in raw.split(b"\n"):
        if not ln:
            continue
        c = ln[:1]
        if RE_C.match(ln) and version == "1.10":
            out.append(("C", "intact", ln.rstrip(b"\r")))
        elif RE_D2.match(ln) and len(ln) < 200:
            a, b = ln[1:].split(b",")
            out.append(("D", "intact", (float(a), int(b))))
        elif RE_D1.match(ln) and version == "1.10":
            out.append(("D1", "intact", int(ln[1:])))
        elif RE_G.match(ln):
            out.append(("G", "intact", fields(ln[2:], 10)))
        elif RE_M.match(ln):
            out.append(("M", "intact", fields(ln[2:], 12)))
        elif asc(ln)[:1] in b"DGM" and asc(ln) and c not in b"DGM":     # the table reader ignores undecodable bytes
            out.append((asc(ln)[:1].decode(), "damaged", asc(ln)))
        elif c in b"DGM" or c.islower():
            out.append((c.decode("latin1") if c in b"DGM" else "C", "damaged", ln))
        else:
            out.append(("?", "other", ln))
    return out


def gdict(v):
    return {"lag": v[1], "year": v[2], "month": v[3], "day": v[4], "hour": v[5], "minute": v[6], "second": v[7], "lat": v[8], "lon": v[9]}


def subseq(must, rows, eq, what):
    """must is a subsequence of rows (greedy); returns number matched."""
    j = 0
    for i, m in enumerate(must):
        while j < len(rows) and not eq(m, rows[j]):
            j += 1
        check(j < len(rows), lambda: "%s: intact line %d of %d (%r) was not decoded" % (what, i, len(must), m))
        j += 1


def judge(raw, L, version, what):
    lines = classify(raw, version)
    M, G = L["metadata"], L["gps"]
    # provenance of every state row and fix
    cand_m, cand_g = [], []
    for k, s, v in lines:
        if k == "M":
            cand_m.append([v] if s == "intact" else [c_scan("M", v[2:]), byfield(v[2:], 12)])
        elif k == "G":
            cand_g.append([v] if s == "intact" else [c_scan("G", v[2:]), byfield(v[2:], 10)])
    mrows = np.array([[float(x) for x in M[c]] for c in M_COLS]).T if len(M) else np.zeros((0, 11))
    grows = np.array([[float(x) for x in G[c]] for c in ["msLag", "year", "month", "day", "hour", "minute", "second", "lat", "lon"]]).T if len(G) else np.zeros((0, 9))
    mms = np.array(M["millis"], float); gms = np.array(G["msPPS"], float) if len(G) else np.zeros(0)

    def from_lines(rows, ms, cands, what2):
        j = 0
        for r, m in zip(rows, ms):
            while j < len(cands) and not any(matches(r, m, x) for x in cands[j]):
                j += 1
            check(j < len(cands), lambda: "%s: %s row %r (count %r) corresponds to no line of the file" % (what, what2, list(r), m))
            j += 1

    def matches(r, m, c):
        c = list(c)
        vals = list(r)
        for x, y in zip(vals, c[1:]):
            if not (x == y or (np.isnan(x) and np.isnan(y)) or abs(x - y) < 1e-9 * max(1, abs(x))):
                return False
        if len(c) - 1 < len(vals):          # fields absent from the line must be absent from the row
            return all(np.isnan(x) for x in vals[len(c) - 1:])
        return True
    from_lines(mrows, mms, cand_m, "state-of-health")
    from_lines(grows, gms, cand_g, "GPS")
    # intact lines decoded
    im = [v for k, s, v in lines if k == "M" and s == "intact"]
    subseq(im, list(zip(mrows, mms)), lambda a, b: bool(np.all(np.abs(np.array(a[1:]) - b[0]) < 1e-6) and abs((b[1] - a[0] + 1) % 8192 - 1) < 1e-3), what + ": state rows")
    ig = [v for k, s, v in lines if k == "G" and s == "intact" and valid_g(gdict(v))]
    subseq(ig, list(zip(grows, gms)), lambda a, b: bool(np.all(np.abs(np.array(a[1:]) - b[0]) < 1e-6) and abs((b[1] - a[0] + 1) % 8192 - 1) < 1e-3), what + ": GPS fixes")
    # samples: (count mod rollover or None, difference)
    d = np.asarray(L["data"], float)
    must, prev, ndam = [], 0.0, 0
    for k, s, v in lines:
        if k == "D" and s == "intact":
            prev = v[0] % 8192 if v[0] < 8192 else None
            must.append((v[0] % 8192, v[1]))
        elif k in ("D1", "C") and s == "intact":
            if k == "D1":
                p, q = v, 10
            elif len(v) == 1:
                p, q = v[0] - 109, 10
            else:
                p, q = v[1] - 109, v[0] - 109 + 10
            prev = None if prev is None else (prev + q) % 8192
            must.append((prev, p))
        elif k in ("D", "C") and s == "damaged":
            ndam += 1
            prev = None
    dd = np.diff(np.concatenate([[0.0], d[:, 1]]))
    ms = d[:, 0] - rawgen.TCORR
    ok = np.abs(d[:, 1]) < 1e9               # an absurd number in a damaged line swamps later sums
    if ok.all():
        subseq(must, list(zip(ms, dd)), lambda a, b: abs(a[1] - b[1]) < 1e-3 and (a[0] is None or abs((b[0] - a[0] + 1) % 8192 - 1) < 1e-3), what + ": samples")
    check(len(must) <= len(d) <= len(must) + ndam, lambda: "%s: %d samples returned; %d intact and %d damaged sample lines" % (what, len(d), len(must), ndam))
    return len(must), len(im), len(ig), ndam


@st.composite
def mutations(draw, nmax=8):
    out = []
    for _ in range(draw(st.integers(1, nmax))):
        k = draw(st.sampled_from(["trunc", "cut", "bytes", "dupline", "delline", "insline", "fields", "fields", "fields", "long", "setfield", "gset", "join", "bit", "tail"]))
        m = {"k": k, "at": draw(st.floats(0, 1)), "kind": draw(st.sampled_from("DGMGM*"))}
        if k == "cut":
            m["n"] = draw(st.integers(1, 60))
        elif k == "bytes":
            m["b"] = draw(st.binary(min_size=1, max_size=20)).hex()
        elif k == "insline":
            m["t"] = draw(st.sampled_from(["G", "M", "D", "G,", "M,", "D,", "G,1", "M,5,3.3", "D\x00", "a", "zz", "abcdef", "D-", "G,,,,,,,,,,", "M,,,,,,,,,,,",
                                           "D5,", "D5,x", "Dx,5", "G,1,2,3,4", "M,1,2,3,4,5,6", "G,x,y", "D12", "D+3,4", "M,9,-,-", "DDDD", "GG,5,5", "Gx100,70", "$GPRMC,1,2"]))
        elif k == "fields":
            m["keep"] = draw(st.integers(0, 11))
        elif k == "long":
            m["n"] = draw(st.sampled_from([240, 253, 254, 255, 256, 300, 510, 600])); m["c"] = draw(st.sampled_from(["1", " ", "x", ",", "0", "D7,5", "G,1,2"]))
        elif k == "setfield":
            m["f"] = draw(st.integers(0, 11)); m["v"] = draw(st.sampled_from(["", "x", "-", "1e3", "-5", "9999", "0", "1.5", " 7", "7 "]))
        elif k == "gset":       # a fix that is garbled but well-formed
            m["kind"] = "G"
            m["set"] = draw(st.sampled_from([[[4, "2"], [5, "30"]], [[4, "4"], [5, "31"]], [[6, "24"]], [[7, "60"]], [[8, "60.0"]], [[8, "7.5"]], [[9, "0.00000"]], [[10, "0"]],
                                             [[3, "1980"]], [[3, "2080"]], [[4, "13"]], [[4, "0"]], [[5, "0"]], [[2, "1200"]], [[9, "-91.5"]], [[10, "200"]]]))
        elif k == "bit":
            m["n"] = draw(st.integers(0, 7))
        elif k == "tail":
            m["t"] = draw(st.sampled_from(["G", "M", "D", "G,1", "M,1", "D1", "a"]))
        out.append(m)
    return out


def mutate(lines, muts):
    """lines: list of bytes (with newline).  Returns bytes."""
    L = list(lines)
    tailcut = None
    for m in muts:
        if not L:
            break
        idx = [i for i in range(len(L)) if m["kind"] == "*" or L[i][:1] == m["kind"].encode()]
        i = idx[min(len(idx) - 1, int(m["at"] * len(idx)))] if idx else min(len(L) - 1, int(m["at"] * len(L)))
        k = m["k"]
        body, eol = L[i].rstrip(b"\r\n"), b"\n"
        if k == "trunc":
            tailcut = max(tailcut or 0, m["at"]) if tailcut is not None else m["at"]
        elif k == "cut":
            j = int(m["at"] * 997) % max(1, len(L[i]))
            L[i] = L[i][:j] + L[i][j + m["n"]:]
        elif k == "bytes":
            j = int(m["at"] * 991) % max(1, len(L[i]))
            L[i] = L[i][:j] + bytes.fromhex(m["b"]) + L[i][j:]
        elif k == "dupline":
            L.insert(i, L[i])
        elif k == "delline":
            del L[i]
        elif k == "insline":
            L.insert(i, m["t"].encode() + b"\n")
        elif k == "fields":
            L[i] = b",".join(body.split(b",")[:m["keep"] + 1]) + eol
        elif k == "long":
            L[i] = (body + b"," + (m["c"].encode() * 700))[:m["n"]] + eol
        elif k == "setfield":
            f = body.split(b",")
            f[min(m["f"], len(f) - 1)] = m["v"].encode()
            L[i] = b",".join(f) + eol
        elif k == "gset":
            f = body.split(b",")
            for j, v in m["set"]:
                if j < len(f):
                    f[j] = v.encode()
            L[i] = b",".join(f) + eol
        elif k == "join":
            L[i] = body
        elif k == "bit" and body:
            j = int(m["at"] * 983) % len(body)
            L[i] = body[:j] + bytes([body[j] ^ (1 << m["n"])]) + body[j + 1:] + eol
        elif k == "tail":
            L.append(m["t"].encode())
    raw = b"".join(L)
    if tailcut is not None:
        raw = raw[:len(raw) - int((1 - tailcut) * len(raw) * 0.5)]
    return raw


@st.composite
def s_mutate(draw):
    spec = draw(gens.decode_spec(NEW, nmax=120))
    f = spec["files"][0]
    f["gps"]["bad"] = []
    f["n"], f["m_every"], f["gps"]["start"] = max(f["n"], 8), min(f["m_every"], 100), -0.9
    return {"spec": spec, "muts": draw(mutations())}


def f_mutate(c):
    spec = c["spec"]
    F = rawgen.build(spec)[0]
    raw = mutate([l.encode() for l in F.header + F.lines], [m for m in c["muts"]])
    # lines longer than the reader's buffer, or holding NULs, are damaged; so is a line cut from its newline by one
    open("f.059", "wb").write(raw)
    ls = classify(raw, F.version)
    n = {(k, s): sum(1 for x in ls if x[0] == k and x[1] == s) for k in ("D", "D1", "C", "M", "G") for s in ("intact", "damaged")}
    okd = n["D", "intact"] + n["D1", "intact"] + n["C", "intact"]
    okg = sum(1 for k, s, v in ls if k == "G" and s == "intact" and valid_g(gdict(v)))
    for k in "DCMG":
        cov.label("damaged " + k, n[k, "damaged"] > 0)
    cov.nontrivial(okd and n["M", "intact"] and okg and any(n[k, "damaged"] for k in "DCMG"))
    watchdog()
    for rq in (True, False):
        try:
            L = core._read_single("f.059", 0, require_gps=rq, version=F.version)
        except OK_EXC as e:
            check(not (okd and n["M", "intact"] and (okg or not rq)), lambda: "a damaged file with intact lines of every kind was not read: %s: %s" % (type(e).__name__, e))
            cov.label("exception")
            continue
        judge(raw, L, F.version, "require_gps=%s" % rq)
    signal.alarm(0)


@st.composite
def s_trunc(draw):
    spec = draw(gens.decode_spec(rawgen.VERSIONS, nmax=150))
    f = spec["files"][0]
    f["n"], f["m_every"], f["gps"]["start"] = max(f["n"], 8), min(f["m_every"], 100), -0.9
    return {"spec": spec, "at": draw(st.floats(0.2, 1)), "back": draw(st.integers(0, 70))}


def f_trunc(c):
    """Reading the first part of a file gives the first part of what reading all of it gives."""
    spec = c["spec"]
    F = rawgen.build(spec)[0]
    raw = rawgen.text(F).encode()
    hl = len("".join(F.header))
    k = max(hl + 1, int(len(raw) * c["at"]) - c["back"])
    open("a.059", "wb").write(raw); open("b.059", "wb").write(raw[:k])
    nl = raw[hl:k].count(b"\n")                 # complete lines of the data section
    part = raw[hl:k].split(b"\n")[-1]
    kinds = F.kinds[:nl]
    nd, nm = kinds.count("D"), kinds.count("M")
    gv = [valid_g(g) for g in F.G]
    ng = sum(gv[:kinds.count("G")])
    if not (nd and nm and ng):
        return
    cov.nontrivial(part != b""); cov.label(F.version); cov.label("cut in " + F.kinds[nl] if nl < len(F.kinds) else "whole")
    watchdog()
    A = core._read_single("a.059", 0, version=F.version)
    B = core._read_single("b.059", 0, version=F.version)
    signal.alarm(0)
    cutkind = F.kinds[nl] if (nl < len(F.kinds) and part) else ""
    for key, cnt, kk in (("data", nd, "D"), ("metadata", nm, "M"), ("gps", ng, "G")):
        a = np.asarray(A[key], float) if key == "data" else np.array(A[key].drop(columns="index"), float)
        b = np.asarray(B[key], float) if key == "data" else np.array(B[key].drop(columns="index"), float)
        check(cnt <= len(b) <= cnt + (cutkind == kk), lambda: "%s %s: %d complete rows before the cut, %d returned" % (F.version, key, cnt, len(b)))
        check(same(a[:cnt], b[:cnt], 1e-6), lambda: "%s %s: rows before the cut differ from the whole file's" % (F.version, key))
        if len(b) > cnt and kk == "D":
            check(np.isfinite(b[-1]).all(), lambda: "%s: the cut-off last line produced the sample %r" % (F.version, list(b[-1])))
        if len(b) > cnt and kk in "MG":          # a cut line may lose fields or digits, but must not show other lines' values
            full = a[cnt] if cnt < len(a) else None
            nf = len(part.decode("latin1").split(",")) - 1
            if full is not None:
                row = b[cnt]
                lab = A[key].drop(columns="index").columns
                for i in range(1, min(len(row), len(full))):
                    if lab[i] == "t":
                        continue
                    check(i < nf or np.isnan(row[i]), lambda: "%s: field %s is missing from the cut %s line but reads %r" % (F.version, lab[i], kk, row[i]))
                check(kk != "G" or not np.isnan(row[1:10]).any(), lambda: "%s: a fix with missing fields is returned as valid: %r" % (F.version, list(row)))


TOK = st.one_of(st.sampled_from(["D", "G,", "M,", ",", "\n", "\r\n", "#", "S,059", "C,1,15,20,0,0,0", "#GemCSV0.91", "#GemCSV0.8", "#GemCSV1.10", "#GemCSV", "0", "-1", "1e400",
                                 "2020", "nan", "\x00", "P,1", "R,1", "a", "zz", "99999999999999999999", '"', "'", "D100,5\n", "M,8001,3.02,22.1,1.412,2.052,94,66,9,0,0,57,86\n",
                                 "G,8171,70,2020,6,20,5,21,22.0,43.62226,-116.20594\n", "C,1,15,20,7,0,0\n"]).map(lambda s: s.encode("latin1")), st.binary(max_size=30), st.integers(0, 9000).map(lambda i: str(i).encode()))


@st.composite
def s_garbage(draw):
    hdr = draw(st.sampled_from(["", "#GemCSV0.91\n", "#GemCSV0.8\n", "#GemCSV1.10\n#x\n", "#GemCSV0.85\n#a\n#b\n#c\nS,059\n", "#GemCSV0.91\n#DmsSamp,ADC\n#G\n#M\nS,059\nC,1,15,20,0,0,0\n"]))
    body = b"".join(draw(st.lists(st.tuples(TOK, st.sampled_from([b"", b"", b"\n", b","])).map(b"".join), min_size=8, max_size=60)))
    return {"hdr": hdr, "body": body.hex(), "version": draw(st.sampled_from(rawgen.VERSIONS)), "offset": draw(st.sampled_from([0, 5000, 1e6]))}


def f_garbage(c):
    raw = c["hdr"].encode() + bytes.fromhex(c["body"])
    os.mkdir("raw")
    fn = "raw/FILE0001.059"
    open(fn, "wb").write(raw)
    cov.nontrivial(any(l[:1] in (b"D", b"G", b"M") for l in raw.split(b"\n")))
    watchdog()

    def run(name, f):
        try:
            return f()
        except Exception:
            cov.label(name + " exception")
        else:
            cov.label(name + " result")
    for rq in (True, False):
        L = run("read", lambda: core._read_single(fn, c["offset"], require_gps=rq, version=c["version"]))
        if L is not None:
            nd = sum(1 for l in re.split(rb"[\r\n]", raw) if l[:1] == b"D" or l[:1].islower() or b"D" in l)
            check(len(L["data"]) <= max(nd, 1), lambda: "%d samples from a file with %d sample-like lines" % (len(L["data"]), nd))
    run("SN", lambda: core._read_SN(fn)); run("version", lambda: core._read_format_version(fn)); run("config", lambda: core._read_config(fn))
    run("several", lambda: core._read_several([fn]))
    run("slow", lambda: core._slow__read_single_v0_9(fn))
    run("table", lambda: core._read_with_pandas(fn))
    run("folder", lambda: gemlog.read_gem("raw", np.arange(10), "059"))
    signal.alarm(0)


@st.composite
def s_nodata(draw):
    spec = draw(gens.decode_spec(rawgen.VERSIONS, nmax=150))
    spec["debug"] = 1
    spec["files"][0]["gps"]["bad"] = []
    return {"spec": spec, "edits": draw(st.lists(st.tuples(st.floats(0, 1), st.integers(1, 60), st.binary(max_size=8).map(bytes.hex)), min_size=1, max_size=8))}


def f_nodata(c):
    spec = c["spec"]
    F = rawgen.build(spec)[0]
    if not F.M or not any(valid_g(g) for g in F.G):
        return
    old = F.version in ("0.8", "0.85")
    A_raw = [l.encode() for l in F.header + F.lines]
    B_raw = list(A_raw)
    idx = [i for i, l in enumerate(B_raw) if l[:1] in b"#PR"]
    for at, j, b in c["edits"]:
        i = idx[min(len(idx) - 1, int(at * len(idx)))]
        eol = b"\r\n" if B_raw[i].endswith(b"\r\n") else b"\n"
        body = B_raw[i][:-len(eol)]
        ins = bytes.fromhex(b).replace(b"\n", b"").replace(b"\r", b"")
        if old:
            ins = bytes(x for x in ins if 32 <= x < 127 and x not in b'",')
        B_raw[i] = (body[:j] + ins + body[j + 3:]) + eol if j > 0 else body + eol
    if B_raw == A_raw:
        return
    cov.nontrivial(); cov.label(F.version)
    open("a.059", "wb").write(b"".join(A_raw)); open("b.059", "wb").write(b"".join(B_raw))
    watchdog()
    A = core._read_single("a.059", 0, version=F.version)
    B = core._read_single("b.059", 0, version=F.version)
    signal.alarm(0)
    check(same(A["data"], B["data"], 1e-9), "damage in header or debug lines changes the samples")
    for k in ("metadata", "gps"):
        a, b = [np.array(X[k].drop(columns="index"), float) for X in (A, B)]
        check(same(a, b, 1e-9), "damage in header or debug lines changes the %s rows" % k)


main("C03", [
    Sub("mutate", s_mutate(), f_mutate, 2500, 40000, rule="file in a difference format with up to 8 mutations (truncation, lost or duplicated lines, missing fields, overlong lines, binary bytes); non-trivial: intact lines of each kind remain beside damaged ones"),
    Sub("trunc", s_trunc(), f_trunc, 1200, 20000, rule="file of any version cut at a byte; non-trivial: the cut is inside a line"),
    Sub("garbage", s_garbage(), f_garbage, 600, 20000, rule="arbitrary bytes and tokens given to every reader; non-trivial: some line starts like a data line"),
    Sub("nodata", s_nodata(), f_nodata, 600, 8000, rule="damage in header comments and debug lines only; non-trivial: something changed"),
], ["numbers in damaged lines are read as the C library reads them"])
