"""Whole-video metric calls: scenario generation, reference model and oracles (C01..C08)."""
import json, math, struct
from .zyg import status

USIZE_MAX_LOG = -1            # usize::MAX as the i64 the log carries
METRICS = ["psnr", "apsnr", "hvs", "ssim", "msssim", "ciede", "psnr", "apsnr", "hvs", "ssim", "msssim", "ciede_nosimd"]


# ------------------------------------------------------------------ scenario generation
def sched(r, heavy=False):
    """One simulator configuration: who runs when, and which scheduling faults happen."""
    k = r.random()
    if k < 0.08:
        s = "policy=0"
    elif k < 0.45:
        s = "policy=1 gap=%d" % r.choice([3, 8, 20, 60, 200, 600])
    elif k < 0.65:
        s = "policy=2 pctd=%d pctlen=%d" % (r.choice([1, 2, 3, 5, 10]), r.choice([500, 2000, 6000, 20000, 60000]))
    else:
        s = "policy=3 victims=%d starve=%d gap=%d" % (r.randrange(1, 1 << 10), r.choice([300, 2000, 10000, 30000]),
                                                     r.choice([5, 20, 80]))
    if r.random() < 0.4:
        s += " spur=%d" % r.choice([500, 3000, 15000])
    if r.random() < 0.4:
        s += " wake=%d" % r.choice([5000, 30000])
    if r.random() < 0.4:
        s += " stall=%d stall_len=%d" % (r.choice([100, 600, 3000]), r.choice([200, 2000, 20000]))
    if r.random() < 0.3:
        # a thread is stopped for milliseconds to minutes of (simulated) time, at any point
        s += " pause=%d pause_ms=%d max_pause=%d" % (r.choice([30, 200, 1000, 5000]), r.choice([1, 30, 300, 3000, 30000, 300000]),
                                                     r.choice([1, 3, 8, 30]))
    return "seed=%d %s" % (r.getrandbits(60), s)


def memory(r, sp, p):
    """In some runs plain memory accesses are scheduling points too (another build of the same code): all accesses to
    static data, and every so many of the others."""
    if r.random() < p:
        d = sp.get("decs") or [x for t in sp["threads"] for j in t for x in (j["a"], j["b"])]
        if sum(x["w"] * x["h"] * x.get("len", 1) for x in d) < 400000:
            sp["mem"] = r.choice([0, 0, 30, 300, 3000])
    return sp


def clip(r, metric, pool_seeds=6):
    """Size and format of a clip pair; few distinct contents, so that reference results can be reused."""
    m = metric
    chroma = r.choice(["420", "420", "420", "422", "444"])
    depth = r.choice([8, 8, 8, 10, 12])
    if m == "msssim":
        w, h = r.choice([(128, 32), (128, 64), (64, 32)])
    elif m.startswith("ciede"):
        w, h = r.choice([(64, 16), (128, 16), (64, 24)])
    else:
        w, h = r.choice([(64, 16), (128, 16), (128, 32), (72, 24), (136, 16)])
    if r.random() < 0.1:
        w, h = r.choice([(8, 8), (16, 16), (16, 8), (24, 24), (32, 16), (72, 24), (104, 32), (136, 40), (200, 16)])
    return dict(seed=1 + r.randrange(pool_seeds), w=w, h=h, depth=depth, chroma=chroma)


def pair(r, metric, la, lb, **kw):
    c = clip(r, metric)
    if r.random() < 0.015:
        # large pictures: whatever happens only beyond some number of pixels, rows or columns
        c["w"], c["h"] = r.choice([(640, 360), (640, 360), (1280, 720), (128, 720), (1920, 64), (256, 256)])
    a = dict(c, len=la)
    b = dict(c, len=lb, noise=100 + r.randrange(4))
    if r.random() < 0.03:
        b["noise"] = 0            # identical clips
    return a, b


def one_call(r, metric=None, la=None, lb=None, limit=None):
    metric = metric or r.choice(METRICS)
    la = la if la is not None else r.randrange(1, 16)
    lb = lb if lb is not None else la
    a, b = pair(r, metric, la, lb)
    g = r.choice([1, 2, 2, 3, 4, 5, 8]) if r.random() < 0.96 else r.choice([6, 7, 12, 16, 33])
    return dict(op="calls", sim=sched(r), decs=[a, b], pools=[], **{"global": g},
                threads=[dict(pool=-1, par=False, calls=[dict(id=0, metric=metric, d=[0, 1], limit=limit)])])


PAUSES = [20_000_000, 120_000_000, 600_000_000, 1_500_000_000, 6_000_000_000, 12_000_000_000, 40_000_000_000, 700_000_000_000]


def long_pauses(r, sp):
    """Decoders and callbacks that take seconds or minutes (of simulated time, so they cost nothing)."""
    for d in sp["decs"]:
        if r.random() < 0.6:
            n = max(1, d.get("len", 1))
            for _ in range(r.choice([1, 1, 2])):
                d.setdefault("faults", []).append([r.choice([0, r.randrange(n), n - 1, n]), "delay", r.choice(PAUSES)])
    for t in sp["threads"]:
        for c in t["calls"]:
            if r.random() < 0.2:
                c.setdefault("cb", {})["delay_ns"] = r.choice(PAUSES[:6])


def delays(r, sp):
    """Slow or bursty decoding (in simulated time) and extra scheduling points inside the decoders."""
    if r.random() < 0.12:
        long_pauses(r, sp)
    for d in sp["decs"]:
        k = r.random()
        if k < 0.25:
            d["delay"] = [r.choice([10, 50, 100]), r.choice([1000, 100000, 5000000])]
        elif k < 0.4:
            d["points"] = r.choice([3, 30, 300])
    return sp


def maybe_pool(r, sp, p=0.25):
    if r.random() < p:
        sp["pools"] = [r.choice([1, 2, 3, 4, 6]) if r.random() < 0.95 else r.choice([8, 12, 17])]
        for t in sp["threads"]:
            t["pool"] = 0
    return sp


def long_call(r, **kw):
    """Many frames, or many rows: whatever happens only beyond some number of them."""
    m = r.choice(METRICS)
    n = r.choice([40, 70, 130, 150, 260, 300]) if m != "msssim" else r.choice([40, 70])
    if m not in ("msssim", "ciede", "ciede_nosimd") and r.random() < 0.25:
        n = r.choice([513, 700, 1030, 1300, 2050])
    if m.startswith("ciede") and r.random() < 0.5:
        n = r.randrange(1, 5)
    sp = one_call(r, metric=m, la=n, lb=n if r.random() < 0.7 else r.choice([n - 1, n + 1, n // 2]), **kw)
    h = r.choice([128, 160]) if n < 5 else 16
    sp["global"] = min(sp["global"], 8)
    for d in sp["decs"]:
        if m.startswith("ciede"):
            d.update(w=64, h=h)
        elif m != "msssim":
            d.update(w=64, h=16)
    return sp


def huge_call(r):
    """More frames than fit in 16 bits."""
    sp = one_call(r, metric=r.choice(["psnr", "apsnr", "ssim", "hvs"]), la=65536 + r.choice([0, 1, 70]), lb=65536 + r.choice([1, 2, 100]),
                  limit=r.choice([None, None, 65537]))
    sp["global"] = r.choice([1, 2, 3])
    for d in sp["decs"]:
        d.update(w=8, h=8, depth=8, chroma="444")
    sp["sim"] = "seed=%d policy=1 gap=%d" % (r.getrandbits(60), r.choice([60, 200, 600]))
    return sp


def gen_c01(r):
    if r.random() < 0.05:
        return maybe_pool(r, delays(r, long_call(r)))
    return maybe_pool(r, delays(r, one_call(r, la=r.randrange(2, 20))))


def lens(r):
    la = r.randrange(0, 18)
    return (la, la) if r.random() < 0.5 else (la, r.randrange(0, 18))


def gen_c02(r):
    if r.random() < 0.0005:
        return huge_call(r)
    if r.random() < 0.04:
        return maybe_pool(r, delays(r, long_call(r, limit=r.choice([None, None, 64, 100, 256, 299]))))
    la, lb = lens(r)
    lim = None if r.random() < 0.5 else r.choice([0, 1, 2, 5, max(0, min(la, lb) - 1), min(la, lb), min(la, lb) + 1, 40])
    if r.random() < 0.06:
        # a limit that is none, and that a narrow counter takes for a small one, or overflows on
        lim = r.choice([(1 << 64) - 1, (1 << 64) - 2, 1 << 63, (1 << 63) - 1, (1 << 32) + r.randrange(4), (1 << 31) - 1, (1 << 16) + r.randrange(4), 256 + r.randrange(4)])
    return maybe_pool(r, delays(r, one_call(r, la=la, lb=lb, limit=lim)))


def gen_c03(r):
    if r.random() < 0.0003:
        return huge_call(r)
    sp = gen_c02(r) if r.random() < 0.98 else maybe_pool(r, delays(r, long_call(r)))
    if r.random() < 0.5:
        for t in sp["threads"]:
            for c in t["calls"]:
                c["cb"] = {"delay_ns": r.choice([10, 1000, 100000, 10000000])}
    if r.random() < 0.25:
        fault(r, sp)
    return sp


def fault(r, sp):
    """One thing that makes the call fail."""
    n = max(1, min(sp["decs"][0].get("len", 1), sp["decs"][1].get("len", 1)))
    d = sp["decs"][r.randrange(2)]
    c = sp["threads"][0]["calls"][0]
    k = r.random()
    at = r.choice([0, r.randrange(n), n - 1] if n < 30 else [0, r.randrange(n), n - 1, r.randrange(12), r.randrange(12)])
    if k < 0.30:
        d.setdefault("faults", []).append([at, "dim", r.choice([1, 2, 3])])
    elif k < 0.50:
        d.setdefault("faults", []).append([r.choice([at, n]), "panic"])
    elif k < 0.62:
        c.setdefault("cb", {})["panic_at"] = r.choice([1, at + 1, n, 18446744073709551615])
    elif k < 0.72:
        d["depth_decl"] = {8: 10, 10: 12, 12: 10}.get(d["depth"], 8)
        if r.random() < 0.3:
            d["depth_decl"] = {8: 12, 10: 8, 12: 8}.get(d["depth"], 10)
    elif k < 0.82:
        d["chroma_decl"] = {"420": "422", "422": "444", "444": "420"}[d["chroma"]]
    elif k < 0.90:
        # a depth the CIEDE2000 kernels have no code for: they panic while a frame is processed
        for x in sp["decs"]:
            x["depth"] = 9
        c["metric"] = "ciede"
    else:
        d["len"] = 0
    return sp


def gen_c05(r):
    sp = one_call(r, la=r.randrange(1, 26), lb=r.randrange(1, 26)) if r.random() < 0.95 else long_call(r)
    if r.random() < 0.3:
        sp["threads"][0]["calls"][0]["limit"] = r.choice([0, 1, 3, 30])
    delays(r, sp)
    fault(r, sp)
    if r.random() < 0.2:
        fault(r, sp)
    return maybe_pool(r, sp)


def gen_c04(r):
    k = r.random()
    if k < 0.45:
        sp = gen_c05(r)
    elif k < 0.60:
        la, lb = lens(r)
        sp = one_call(r, la=la, lb=lb, limit=r.choice([0, 1, 3, 1000, 1 << 40, 1 << 62, (1 << 64) - 1]))
        maybe_pool(r, delays(r, sp))
    elif k < 0.72:
        # decoders that run jobs on a worker pool other than the one the call works on
        sp = delays(r, one_call(r, la=r.randrange(1, 20)))
        sp["pools"] = [r.choice([1, 2, 3, 4])]
        tgt = 0
        if r.random() < 0.4:
            sp["threads"][0]["pool"] = 0
            tgt = -1
        for d in sp["decs"]:
            if r.random() < 0.7:
                d["pool_work"] = tgt
    elif k < 0.85:
        sp = gen_c08(r)
    else:
        sp = maybe_pool(r, delays(r, one_call(r, la=r.randrange(1, 20))))
        sp["sim"] += " t_eagain=%d max_flt=%d" % (r.choice([20000, 65535]), 3)
    return sp


def gen_c06(r):
    m = r.choice(["psnr", "psnr", "apsnr", "hvs", "ssim", "ciede"])
    n = r.randrange(20, 90)
    sp = one_call(r, metric=m, la=n, lb=n)
    for d in sp["decs"]:
        d.update(w=64, h=16)
    sp["global"] = r.choice([1, 2, 3, 4])
    k = r.random()
    if k < 0.4:
        # workers much slower than the decoders
        sp["sim"] = "seed=%d policy=3 victims=%d starve=%d gap=20" % (r.getrandbits(60), 0x3e | (r.randrange(2)),
                                                                     r.choice([5000, 30000]))
    if r.random() < 0.25:
        fault(r, sp)
    if r.random() < 0.15:
        sp["threads"][0]["calls"][0]["limit"] = r.choice([10, n - 1, 1 << 50])
    return maybe_pool(r, sp, 0.15)


def gen_c07(r):
    la = r.randrange(1, 30)
    lb = la if r.random() < 0.5 else r.randrange(1, 30)
    m = r.choice(METRICS)
    sp = one_call(r, metric=m, la=la, lb=lb)
    lims, most = [0, 1, 2, 3, 5], 4
    if r.random() < 0.03:
        # long clips taken in large parts, or in many small ones
        sp = long_call(r)
        m = sp["threads"][0]["calls"][0]["metric"]
        la, lb = (d["len"] for d in sp["decs"])
        lims = r.choice([[64, 100, 128, 250], [7, 16, 33]])
        most = 8
    elif r.random() < 0.1:
        most = 12
    calls = []
    left = min(la, lb)
    while len(calls) < most:
        lim = r.choice(lims + ([left, left + 1, None, (1 << 64) - 1] if most == 4 or len(calls) > 2 else []))
        calls.append(dict(id=len(calls), metric=m, d=[0, 1] if r.random() < 0.9 else [1, 0], limit=lim))
        if lim is None or lim > left:
            break
        left -= lim
    sp["threads"][0]["calls"] = calls
    if r.random() < 0.15:
        fault(r, sp)
    if r.random() < 0.3:
        sp["global"] = r.choice([5, 8])
    return maybe_pool(r, delays(r, sp))


def gen_c08(r):
    n = r.choice([2, 2, 3, 4])
    decs, threads, cid = [], [], 0
    npools = r.choice([0, 0, 1, 2])
    pools = [r.choice([1, 2, 3, 4]) for _ in range(npools)]
    par = r.random() < 0.3
    groups = [[] for _ in range(1 if par else n)]
    same = r.choice(METRICS) if r.random() < 0.4 else None
    for i in range(n):
        m = same or r.choice(METRICS)
        la = r.randrange(1, 12)
        lb = la if r.random() < 0.7 else r.randrange(1, 12)
        a, b = pair(r, m, la, lb)
        groups[i % len(groups)].append(dict(id=cid, metric=m, d=[len(decs), len(decs) + 1],
                                            limit=None if r.random() < 0.7 else r.randrange(0, 12)))
        decs += [a, b]
        cid += 1
    if not par and r.random() < 0.3:
        # a second call on one of the threads, on decoders of its own
        m = r.choice(METRICS)
        a, b = pair(r, m, 4, 4)
        groups[0].append(dict(id=cid, metric=m, d=[len(decs), len(decs) + 1], limit=None))
        decs += [a, b]
    for g in groups:
        threads.append(dict(pool=r.choice([-1] + list(range(npools))), par=par, calls=g))
    if npools and r.random() < 0.5:
        # all in one pool, which is large enough to take up a call while another one is under way
        pools[0] = r.choice([2, 3, 3, 4, 5])
        for t in threads:
            t["pool"] = 0
    staggered = len(threads) > 1 and r.random() < 0.25
    if staggered:
        # slow decoders, and each call begins while those before it are under way, in the same pool
        pools[:] = pools or [2]
        pools[0] = r.choice([2, 3, 3, 4])
        for k, t in enumerate(threads):
            t["pool"] = 0
            t["start"] = 1000 + k * r.randrange(1000, 25000000)
    elif len(threads) > 1 and r.random() < 0.5:
        for t in threads[1:]:
            t["start"] = r.choice([1000, 30000, 1000000, 30000000, 400000000])
    elif r.random() < 0.3:
        for t in threads:
            for c in t["calls"][1:]:
                c["start"] = r.choice([1000, 30000, 1000000, 30000000])
    sp = dict(op="calls", sim=sched(r), decs=decs, pools=pools, threads=threads, **{"global": r.choice([1, 2, 3, 4, 6])})
    if r.random() < 0.25:
        # a failing call must not disturb the others
        i = r.randrange(0, len(decs), 2)
        sub = dict(decs=decs[i:i + 2], threads=[dict(calls=[c for g in groups for c in g if c["d"][0] == i])])
        if sub["threads"][0]["calls"]:
            fault(r, sub)
    delays(r, sp)
    if staggered or r.random() < 0.3:
        for d in sp["decs"]:
            d["delay"] = [r.choice([30, 100]), r.choice([100000, 5000000, 5000000])]
    return sp


# ------------------------------------------------------------------ reference model
class Dec:
    """What a decoder does, read by read."""

    def __init__(self, d):
        self.d = d
        self.pos = d.get("start", 0)
        self.left = {i: 1 for i in range(len(d.get("faults", [])))}
        self.reads = 0

    def read(self):
        self.reads += 1
        k = self.pos
        dim = 0
        for i, f in enumerate(self.d.get("faults", [])):
            if f[0] == k and self.left[i]:
                if f[1] == "panic":
                    self.left[i] = 0
                    self.pos += 1
                    return "panic", k
                if f[1] == "none":
                    self.left[i] = 0
                    return None, k
                if f[1] == "dim":
                    dim = max(1, f[2])
        if k >= self.d.get("len", 4):
            return None, k
        self.pos += 1
        return (("dim", k, dim) if dim else ("frame", k, 0)), k


def tiny(d):
    """Some plane has no complete 8x8 block."""
    return min(d["w"] // (1 if d["chroma"] == "444" else 2), d["h"] // (2 if d["chroma"] == "420" else 1)) < 8


def expect(call, A, B):
    """Sequential meaning of one call.  Leaves A and B where the call leaves them, if it succeeds."""
    dA, dB = A.d, B.d
    depA, depB = dA.get("depth_decl", dA["depth"]), dB.get("depth_decl", dB["depth"])
    e = dict(pairs=[], cbs=[], out=None, ok=False, early=None, a0=A.pos, b0=B.pos, errs=set())
    if depA != depB or dA.get("chroma_decl", dA["chroma"]) != dB.get("chroma_decl", dB["chroma"]):
        e.update(errs={"InputMismatch"}, noread=True)
        return e
    if depA != dA["depth"] or dA.get("chroma_decl", dA["chroma"]) != dA["chroma"]:
        e["unsure"] = True            # both decoders misdescribe their frames in the same way
    limit = call.get("limit")
    cbp = (call.get("cb") or {}).get("panic_at")
    n = 0
    ended = None
    while limit is None or n < limit:
        a, _ = A.read()
        if a == "panic":
            e["errs"].add("SendError"); ended = "panic"; break
        b, _ = B.read()
        if b == "panic":
            e["errs"].add("SendError"); ended = "panic"; break
        if a is None or b is None:
            ended = "end"
            break
        n += 1
        e["cbs"].append(n)
        if cbp == n:
            e["errs"].add("SendError"); ended = "panic"; break
        e["pairs"].append((a[1], b[1]))
        if a[2] != b[2] and e["early"] is None:
            e["early"] = n
            e["errs"].add("ProcessError")
        if (a[2] or b[2]) and a[2] == b[2]:
            e["unsure"] = True
        if call["metric"].startswith("ciede") and depA not in (8, 10, 12):
            e["early"] = e["early"] or n
            e["errs"] |= {"panic", "ProcessError", "VideoError", "SendError"}
        if call["metric"] == "hvs" and tiny(dA):
            e["early"] = e["early"] or n
            e["errs"].add("ProcessError")
    if ended != "panic" and cbp == 18446744073709551615:
        e["errs"].add("SendError")
    e["end"] = ended
    if not e["errs"]:
        if not e["pairs"]:
            e["errs"].add("UnsupportedInput")
        else:
            e["ok"] = True
    return e


def unhex(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


def close(x, y, tol):
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


def near_one(x, y):
    """(ms)ssim in dB is 10*log10(1/(1 - s)): for nearly identical clips 1 - s is all rounding error (below 0 it gives NaN)."""
    p = [0.0 if v == float("inf") or v != v else 10.0 ** (-v / 10.0) for v in (x, y)]
    return abs(p[0] - p[1]) <= 1e-11


def log10_(x):
    return math.log10(x) if x > 0 else (float("-inf") if x == 0 else float("nan"))


CW = {"420": 0.25, "422": 0.5, "444": 1.0, "400": 0.0}


def aggregate(metric, clipd, frames):
    """Score of a clip from its per-frame scores (and squared errors); None where the model has no opinion."""
    n = len(frames)
    w, h = clipd["w"], clipd["h"]
    cs = clipd["chroma"]
    cw = CW[cs]
    dims = {"420": (w // 2) * (h // 2), "422": (w // 2) * h, "444": w * h}[cs]
    npix = [w * h, dims, dims]
    mx2 = float(((1 << clipd["depth"]) - 1) ** 2)

    def ps(se, np_):
        return 100.0 if se <= 2.3e-16 else 10.0 * (math.log10(mx2) + math.log10(np_) - math.log10(se))
    if metric in ("psnr", "apsnr"):
        ses = [f[1] for f in frames]
        if metric == "psnr":
            t = [sum(s[p] for s in ses) for p in range(3)]
            return [ps(t[p], npix[p] * n) for p in range(3)] + [ps(sum(t), sum(npix) * n)]
        return [sum(ps(s[p], npix[p]) for s in ses) / n for p in range(3)] + [sum(ps(sum(s), sum(npix)) for s in ses) / n]
    fs = []
    for f in frames:
        if "ok" not in f[0]:
            return None
        fs.append([unhex(x) for x in f[0]["ok"]])
    if metric.startswith("ciede"):
        return [sum(f[0] for f in fs) / n]
    out = []

    def p10(x):
        return 0.0 if x == float("inf") else 10.0 ** (-x / 10.0)
    if metric in ("ssim", "msssim"):
        d = [sum(p10(f[p]) for f in fs) for p in range(3)]        # n - sum of the scores
        for p in range(3):
            out.append(10.0 * (math.log10(n) - log10_(d[p])) if not math.isnan(d[p]) else float("nan"))
        wt = (1 + 2 * cw) * n
        tot = d[0] + cw * (d[1] + d[2])
        out.append(10.0 * (math.log10(wt) - log10_(tot)) if not math.isnan(tot) else float("nan"))
        return out
    d = [sum(p10(f[p]) for f in fs) for p in range(3)]
    for p in range(3):
        out.append(-10.0 * log10_(d[p] / n) if not math.isnan(d[p]) else float("nan"))
    tot = d[0] + cw * (d[1] + d[2])
    out.append(-10.0 * log10_(tot * (1 + 2 * cw) / n) if not math.isnan(tot) else float("nan"))
    return out


def strip(d):
    return {k: d[k] for k in ("seed", "noise", "w", "h", "depth", "chroma") if k in d}


class Refs:
    """Reference results, computed by the same build on one worker, frame by frame or call by call."""

    def __init__(self, z):
        self.z = z
        self.fr, self.bits = {}, {}

    def frames(self, metric, a, b, pairs):
        mm = "psnr" if metric == "apsnr" else metric
        key = json.dumps([mm, strip(a), strip(b)], sort_keys=True)
        c = self.fr.setdefault(key, {})
        need = [p for p in pairs if p not in c]
        if need:
            r = self.z.run(dict(op="model", sim="seed=1 policy=0", metric=mm, a=strip(a), b=strip(b), pairs=need))
            if status(r) != "done":
                return None
            for p, f in zip(need, r["res"]["frames"]):
                c[p] = f
        return [c[p] for p in pairs]

    def call(self, metric, a, b, pairs):
        if not pairs or any(x != y for x, y in pairs):
            return None
        lo, hi = pairs[0][0], pairs[-1][0] + 1
        key = json.dumps([metric, strip(a), strip(b), lo, hi], sort_keys=True)
        if key not in self.bits:
            sp = dict(op="calls", sim="seed=1 policy=0", pools=[], decs=[dict(strip(a), start=lo, len=hi),
                      dict(strip(b), start=lo, len=hi)], threads=[dict(pool=-1, par=False, calls=[
                          dict(id=0, metric=metric, d=[0, 1], limit=None)])], **{"global": 1})
            r = self.z.run(sp)
            self.bits[key] = r["res"]["calls"][0].get("ok") if status(r) == "done" else None
        return self.bits[key]


# ------------------------------------------------------------------ oracles
def unfinished(sp, multi, t_fault):
    """The properties that a call which does not return breaks: C04, and those that say what it returns."""
    if t_fault:
        return ["C04"]
    if multi:
        return ["C04", "C08"]
    calls = [c for t in sp["threads"] for c in t["calls"]]
    if len(calls) > 1:
        return ["C04", "C07"]
    c = calls[0]
    e = expect(c, Dec(sp["decs"][c["d"][0]]), Dec(sp["decs"][c["d"][1]]))
    if e.get("unsure"):
        return ["C04"]
    return ["C04", "C01", "C02"] if e["ok"] else ["C04", "C05"]


def evaluate(sp, r, refs, probes):
    """All violations of C01..C08 this run shows: a list of (property, message)."""
    out = []
    st = status(r)
    sim = r.get("sim") or {}
    multi = len(sp["threads"]) > 1 or any(t.get("par") for t in sp["threads"])
    t_fault = sim.get("faults", [0] * 16)[10]
    if st in ("deadlock", "step-cap", "spin", "hung"):
        return [(p, "the call never returns: %s %s" % (st, sim.get("note", ""))) for p in unfinished(sp, multi, t_fault)]
    if st == "crash":
        return [(p, "the process died (exit %s) during the call" % r.get("exit")) for p in unfinished(sp, multi, t_fault)]
    if st != "done":
        return []
    res = r["res"]
    if "calls" not in res:
        return []
    ev = res["ev"]
    decs = [Dec(d) for d in sp["decs"]]
    begin, endp, cbs, reads = {}, {}, {}, {}
    for e in ev:
        step, tid, kind, a, b, c = e
        if kind == 2:
            begin[a] = step
        elif kind == 3:
            endp[a] = step
        elif kind == 1:
            cbs.setdefault(a, []).append((step, b))
        elif kind == 0:
            reads.setdefault(a, []).append((step, b, c))
    workers_total = 0
    for t in sp["threads"]:
        p = t.get("pool", -1)
        W = sp["global"] if p < 0 else sp["pools"][p]
        for call in t["calls"]:
            workers_total += W if (t.get("par") or call is t["calls"][0]) else 0
            cid = call["id"]
            A, B = decs[call["d"][0]], decs[call["d"][1]]
            if t.get("_lost"):
                continue
            e = expect(call, A, B)
            got = res["calls"][cid]
            if got is None:
                out.append(("C04", "call %d did not complete" % cid))
                t["_lost"] = True
                continue
            tag = "C08" if multi else None
            seq = len(t["calls"]) > 1
            who = "call %d (%s)" % (cid, call["metric"])
            cb = [v for _, v in cbs.get(cid, [])]
            r1 = [x for x in reads.get(call["d"][0], []) if begin[cid] <= x[0] <= endp[cid]]
            r2 = [x for x in reads.get(call["d"][1], []) if begin[cid] <= x[0] <= endp[cid]]
            n = len(e["pairs"])
            if e.get("unsure"):
                t["_lost"] = True
                continue
            # --- result
            if e["ok"]:
                probes["ok_calls"] = probes.get("ok_calls", 0) + 1
                if "ok" not in got:
                    if not t_fault:
                        out += [(x, "%s on %d good pairs failed: %s" % (who, n, json.dumps(got)[:200])) for x in
                                ([tag] if tag else ["C02", "C01", "C07"] if seq and e["a0"] else ["C02", "C01"])]
                else:
                    if t_fault:
                        probes["ok_despite_thread_fault"] = probes.get("ok_despite_thread_fault", 0) + 1
                    val = [unhex(x) for x in got["ok"]]
                    cd = sp["decs"][call["d"][0]]
                    fr = refs.frames(call["metric"], cd, sp["decs"][call["d"][1]], e["pairs"])
                    if fr is not None:
                        m = aggregate(call["metric"], cd, fr)
                        if m is not None:
                            probes["scores_checked"] = probes.get("scores_checked", 0) + 1
                            bad = [i for i in range(len(m)) if not close(m[i], val[i], 1e-6) and not
                                   (call["metric"] in ("ssim", "msssim") and near_one(m[i], val[i]))]
                            if len(m) != len(val) or bad:
                                out.append((tag or ("C07" if seq and e["a0"] else "C02"), "%s over pairs %d..%d scores %s, frame by frame it is %s"
                                            % (who, e["pairs"][0][0] + 1, e["pairs"][-1][0] + 1,
                                               ["%.9g" % v for v in val], ["%.9g" % v for v in m])))
                    bits = refs.call(call["metric"], cd, sp["decs"][call["d"][1]], e["pairs"])
                    if bits is not None and bits != got["ok"]:
                        out += [(x, "%s gives %s, on one worker and an undisturbed schedule it gives %s"
                                 % (who, ["%.17g" % v for v in val], ["%.17g" % unhex(x) for x in bits])) for x in
                                ([tag] if tag else ["C01", "C07"] if seq and e["a0"] else ["C01"])]
            else:
                probes["failing_calls"] = probes.get("failing_calls", 0) + 1
                for x in e["errs"]:
                    probes["expect_" + x] = probes.get("expect_" + x, 0) + 1
                if "ok" in got:
                    out += [(x, "%s must fail with %s but returned %s" %
                             (who, "/".join(sorted(e["errs"])), ["%.9g" % unhex(x) for x in got["ok"]])) for x in
                            ([tag] if tag else ["C05", "C02"] if e["errs"] == {"UnsupportedInput"} else ["C05"])]
                elif not t_fault:
                    cat = "panic" if got.get("panic") else got.get("err")
                    if cat not in e["errs"]:
                        out.append((tag or "C05", "%s must fail with %s but failed with %s (%s)" %
                                    (who, "/".join(sorted(e["errs"])), cat, got.get("msg", ""))))
            # --- progress callback
            late = [v for s, v in cbs.get(cid, []) if s > endp[cid]]
            if late:
                out.append((tag or "C03", "%s: callback(%d) after the call had returned" % (who, late[0])))
            if e["ok"] and "ok" in got:
                if cb != e["cbs"] + [USIZE_MAX_LOG]:
                    out.append((tag or "C03", "%s over %d pairs reported progress %s" % (who, n, short(cb))))
            else:
                body = cb[:-1] if cb and cb[-1] == USIZE_MAX_LOG else cb
                if body != list(range(1, len(body) + 1)) or len(body) > len(e["cbs"]):
                    out.append((tag or "C03", "%s (failing) reported progress %s" % (who, short(cb))))
            # --- consumption
            if e.get("noread"):
                if r1 or r2:
                    out.append((tag or "C07", "%s read frames of clips it cannot compare" % who))
            else:
                lim = call.get("limit")
                cap = n + 1 if e.get("end") else n
                if e["early"] is not None:
                    cap = min(cap, e["early"] + 3 * W + 6)
                if e.get("end") == "panic":
                    cap = max(cap, n + 1)
                if lim is not None:
                    cap = min(cap, lim)
                for nm, rr in (("first", r1), ("second", r2)):
                    if len(rr) > cap:
                        out.append((tag or "C07", "%s read %d frames of its %s clip, %d are enough (limit %s, %d pairs)"
                                    % (who, len(rr), nm, cap, lim, n)))
                if e["ok"] and "ok" in got and (len(r1) < n or len(r2) < n):
                    out.append((tag or "C02", "%s over %d pairs read only %d and %d frames" % (who, n, len(r1), len(r2))))
                if e["ok"] and lim is not None and n == lim:
                    probes["limit_reached"] = probes.get("limit_reached", 0) + 1
            if not e["ok"] or e.get("end") != None or "ok" not in got:
                # where the decoders stand now is not specified; later calls on them are not judged
                if len(t["calls"]) > 1 and any(set(c["d"]) & set(call["d"]) for c in t["calls"] if c["id"] > cid):
                    t["_lost"] = True
    for t in sp["threads"]:
        t.pop("_lost", None)
    # --- memory
    bound = 6 * (3 * workers_total + 8)
    probes["peak_planes"] = max(probes.get("peak_planes", 0), res["peak"])
    if res["peak"] > bound:
        out.append(("C06", "%d planes were alive at once (%d workers in total; bound %d)" % (res["peak"], workers_total, bound)))
    if res["live"] > 0:
        out.append(("C06", "%d planes are still allocated after all calls returned" % res["live"]))
    return out


def short(x):
    return json.dumps(x if len(x) < 24 else x[:10] + ["..."] + x[-10:])
