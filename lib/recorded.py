"""Slices of the sample recordings that come with gemlog, decoded independently from the format notes."""
import functools, glob, os, re
import boot
FULL = re.compile(r"D(\d+),(-?\d+)$")


@functools.lru_cache(None)
def sources():
    """Recordings of whole files (header, data)."""
    out = []
    for p in sorted(glob.glob(boot.REPO + "/data/**/FILE[0-9][0-9][0-9][0-9].[0-9][0-9][0-9]", recursive=True)):
        with open(p, errors="replace") as f:
            if f.readline().startswith("#GemCSV") and os.path.getsize(p) > 50000:
                out.append(p)
    return out


@functools.lru_cache(None)
def lines(p):
    with open(p, errors="replace") as f:
        L = f.read().split("\n")
    k = next(i for i, l in enumerate(L) if l[:1] not in "#SC")
    return L[:k], L[k:-1]      # the last line may be cut short


class Slice:
    pass


@functools.lru_cache(6)
def fix_lines(p):
    return [i for i, l in enumerate(lines(p)[1]) if l.startswith("G,")]


def take(p, start, n, near=False):
    """The n lines of data from about a relative position; near: with the GPS fix at that relative position in the middle."""
    head, body = lines(p)
    i = int(start * max(1, len(body) - n))
    if near and fix_lines(p):
        g = fix_lines(p)
        i = max(0, g[min(len(g) - 1, int(start * len(g)))] - n // 2)
    while i and not FULL.match(body[i]):
        i -= 1
    F = Slice()
    F.header, F.version = head, head[0][7:].strip()
    # the recordings hold a few garbled lines
    F.lines = [l for l in body[i:i + n] if l[:1] != "D" or FULL.match(l) or (F.version == "1.10" and re.fullmatch(r"D-?\d+", l))]
    F.sn = [l for l in head if l.startswith("S,")][0].split(",")[1].strip()
    decode(F)
    return F


def cycles(p):
    """First and last line and number of fixes of each run of GPS fixes."""
    out = []
    for i in fix_lines(p):
        if out and i - out[-1][1] < 3000:
            out[-1][1:] = [i, out[-1][2] + 1]
        else:
            out.append([i, i, 1])
    return out


def between(p, a, b):
    """The data lines from a to b."""
    n = len(lines(p)[1])
    a, b = max(0, a), min(n, b)
    return take(p, a / max(1, n - (b - a)), b - a)


def decode(F):
    """What the lines of a slice say: counts (unrolled from line to line), accumulated samples, states, fixes."""
    R = 2 ** 13
    F.cnt, F.adc, F.M, F.G, F.kinds = [], [], [], [], []
    last = None       # unrolled count of the last line of any kind
    ms = adc = 0      # count and sample of the last data line

    def unroll(x):
        nonlocal last
        if last is None:
            last = x
        else:
            last += (x - last + R / 2) % R - R / 2
        return last
    for l in F.lines:
        k = ""
        m = FULL.match(l)
        if m:
            k, ms, d = "D", int(m.group(1)), int(m.group(2))
        elif re.fullmatch(r"D-?\d+", l):
            k, ms, d = "D", ms + 10, int(l[1:])
        elif re.fullmatch("[a-y]", l):
            k, ms, d = "D", ms + 10, ord(l) - 109
        elif re.fullmatch("[a-y][a-y]", l):
            k, ms, d = "D", ms + 10 + ord(l[0]) - 109, ord(l[1]) - 109
        elif l[:2] in ("M,", "G,"):
            k = l[0]
            v = [float(x) for x in l[2:].split(",")]
            if k == "M":
                F.M.append([unroll(v[0] % R)] + v[1:])
            else:
                F.G.append(dict(zip(("ms", "lag", "year", "month", "day", "hour", "minute", "second", "lat", "lon"), [unroll(v[0] % R)] + v[1:])))
        if k == "D":
            adc += d
            F.cnt.append(unroll(ms % R)); F.adc.append(adc)
        F.kinds.append(k)


def plain(F):
    """The same recording with every data line written in full."""
    out, i, prev = [], 0, 0
    for l, k in zip(F.lines, F.kinds):
        if k == "D":
            out.append("D%d,%d" % (round(F.cnt[i]) % 2 ** 13, F.adc[i] - prev))
            prev = F.adc[i]
            i += 1
        else:
            out.append(l)
    return out


def write(F, path, eol="\n", body=None, version=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    head = ["#GemCSV" + (version or F.version)] + [l for l in F.header[1:]]
    with open(path, "w", newline="") as f:
        f.write("".join(l + eol for l in head + (F.lines if body is None else body)))
    return path
