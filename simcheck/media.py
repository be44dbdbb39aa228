"""YUV4MPEG2 files built from a small description, and the frames a decoder must deliver for them."""
import functools, os, random

CS = {"420jpeg": ("420", 8, 0), "420": ("420", 8, 0), "420paldv": ("420", 8, 0), "420mpeg2": ("420", 8, 1), "": ("420", 8, 0),
      "422": ("422", 8, 1), "444": ("444", 8, 0), "420p10": ("420", 10, 0), "420p12": ("420", 12, 0),
      "422p10": ("422", 10, 1), "422p12": ("422", 12, 1), "444p10": ("444", 10, 0), "444p12": ("444", 12, 0)}

MONO = {"mono": ("400", 8, 0), "mono12": ("400", 12, 0)}


def fmt(cs):
    return CS.get(cs) or MONO[cs]


def planes(w, h, cs):
    f = fmt(cs)[0]
    c = (0, 0) if f == "400" else {"420": ((w + 1) // 2, (h + 1) // 2), "422": ((w + 1) // 2, h), "444": (w, h)}[f]
    return [(w, h), c, c]


def bps(cs):
    return 2 if fmt(cs)[1] > 8 else 1


def frame_size(m):
    return sum(a * b for a, b in planes(m["w"], m["h"], m["cs"])) * bps(m["cs"])


@functools.lru_cache(4096)
def payload(seed, k, w, h, cs, noise=0):
    """Bytes of frame k.  noise: a second clip that resembles the first."""
    r = random.Random("y4m/%d/%d/%d/%d/%s" % (seed, k, w, h, cs))
    n = sum(a * b for a, b in planes(w, h, cs))
    depth = fmt(cs)[1]
    b = bytearray(r.randbytes(n * bps(cs)))
    if noise:
        r2 = random.Random("noise/%d/%d/%d" % (noise, seed, k))
        step = 1 + r2.randrange(6)
        lo = 0 if bps(cs) == 1 else 0
        for i in range(lo, len(b), (3 + step) * bps(cs)):
            b[i] ^= r2.randrange(1, 16)
    if depth > 8:
        mask = bytes(x & ((1 << (depth - 8)) - 1) for x in range(256))
        b[1::2] = b[1::2].translate(mask)
    return bytes(b)


def _vals(b, n, off, d):
    if d == 1:
        return list(b[off:off + n])
    return [b[off + 2 * i] | b[off + 2 * i + 1] << 8 for i in range(n)]


def _realign(v, w, h, mx):
    out = []
    for y in range(h):
        r = v[y * w:(y + 1) * w]
        last = w - 1
        for x in range(w):
            # the two left taps at the border both repeat it; 6-tap filter [4 -17 114 35 -9 1]
            if x < 2:
                a, b = r[0], r[x - 1 if x else 0]
            else:
                a, b = r[x - 2], r[x - 1]
            s = (4 * a - 17 * b + 114 * r[x] + 35 * r[min(x + 1, last)] - 9 * r[min(x + 2, last)] + r[min(x + 3, last)] + 64) >> 7
            out.append(0 if s < 0 else mx if s > mx else s)
    return out


def fnv(vals):
    h = 0xcbf29ce484222325
    for v in vals:
        h = ((h ^ v) * 0x100000001b3) & 0xffffffffffffffff
    return "%016x" % h


def describe(b, w, h, cs):
    """What the harness reports for a frame with these bytes."""
    d = bps(cs)
    _, depth, filt = fmt(cs)
    out, off = [], 0
    for p, (pw, ph) in enumerate(planes(w, h, cs)):
        v = _vals(b, pw * ph, off, d)
        off += pw * ph * d
        if p and filt:
            v = _realign(v, pw, ph, (1 << depth) - 1)
        out.append([fnv(v), pw, ph])
    return out


@functools.lru_cache(4096)
def expected(seed, k, w, h, cs, noise=0):
    return describe(payload(seed, k, w, h, cs, noise), w, h, cs)


def header(m):
    return ("YUV4MPEG2 W%d H%d F%s %sA1:1%s%s\n" % (m["w"], m["h"], m.get("fps", "25:1"), "Ip " if m.get("ip", 1) else "",
                                                     " C" + m["cs"] if m["cs"] else "", m.get("extra", ""))).encode()


def fhead(m, k):
    h = m.get("hdr", {}).get(str(k))
    if h is not None:
        return bytes.fromhex(h)
    p = m.get("fparams")
    return b"FRAME" + (b" " + p.encode() if p and k % 2 else b"") + b"\n"


def build(m):
    parts = [header(m)]
    for k in range(m["n"]):
        parts += [fhead(m, k), payload(m["seed"], k + m.get("first", 0), m["w"], m["h"], m["cs"], m.get("noise", 0))]
    b = b"".join(parts)
    if m.get("cut") is not None:
        b = b[:m["cut"]]
    for pos, x in m.get("flip", []):
        if pos < len(b):
            b = b[:pos] + bytes([b[pos] ^ x]) + b[pos + 1:]
    if m.get("tail"):
        b += random.Random(m["tail"]).randbytes(m["tail"] % 400 + 1).replace(b"\n", b"N")
    return b


def layout(m):
    """[(start of the frame's header, start of its pixels, end)] and the file header's length."""
    pos = len(header(m))
    out = []
    for k in range(m["n"]):
        s = pos
        d = s + len(fhead(m, k))
        pos = d + frame_size(m)
        out.append((s, d, pos))
    return len(header(m)), out


def write(m, path):
    with open(path, "wb") as f:
        f.write(build(m))
    return path


def expect(m, k):
    return expected(m["seed"], k + m.get("first", 0), m["w"], m["h"], m["cs"], m.get("noise", 0))
