"""C10, C11, C15, C16: decoders reading files and pipes under I/O faults."""
import copy, json, os
from . import calls, media
from .checks_calls import ZygCheck, shrink_sim
from .zyg import status

SIZES = [(128, 16), (64, 16), (72, 24), (256, 64), (130, 10), (50, 6)]


def gen_media(r, nmax=9, sizes=SIZES):
    w, h = r.choice(sizes)
    if r.random() < 0.15:
        w, h = r.randrange(1, 24), r.choice([1, 2, 3, 8, r.randrange(1, 24)])
    m = dict(seed=r.randrange(5), n=r.choice([1, 2, 3, r.randrange(1, nmax)]), w=w, h=h, cs=r.choice(list(media.CS)))
    k = r.random()
    if k < 0.01:
        m.update(seed=0, w=320, h=240, n=3)
    elif k < 0.025:
        m.update(seed=0, w=64, h=16, n=r.choice([20, 70, 150]))
    if r.random() < 0.2:
        m["extra"] = r.choice([" XYSCSS=420JPEG", " XCOLORRANGE=FULL", " XVENDOR"])
    if r.random() < 0.2:
        m["fparams"] = r.choice(["Ip", "Xfoo", "XVENDOR=frame"])
    if r.random() < 0.3:
        m["fps"] = r.choice(["30000:1001", "24:1", "1:1", "1:5", "1000000:33333"])
    return m


def soft(r):
    """Read behaviour a correct program never notices: short reads and interrupted calls."""
    return r.choice(["r_short=%d" % r.choice([3000, 20000, 50000, 65535]),
                     "r_eintr=%d" % r.choice([2000, 10000, 30000]),
                     "r_short=%d r_eintr=%d" % (r.choice([3000, 20000, 60000]), r.choice([2000, 20000, 40000]))])


def at(r, m, hard=False):
    """Reads that end exactly where a header, a plane or a frame ends; the next one may be interrupted (hard: or fail) right there."""
    hl, lay = media.layout(m)
    b = [hl - 1, hl]
    for a, d, e in lay:
        p, ends = d, []
        for pw, ph in media.planes(m["w"], m["h"], m["cs"]):
            p += pw * ph * media.bps(m["cs"])
            ends.append(p)
        b += [a, a + 5, d - 1, d, e] + ends
    b = sorted(set(b))
    pick = r.sample(b, min(len(b), r.choice([1, 2, 3, 6, 12])))
    return "r_at=" + ":".join(map(str, pick)) + r.choice(["", "", " at_eintr=1"] + ([" at_eio=1", " at_eio=2"] if hard else []))


def consecutive(r, mt, n):
    """One call, or some limited ones that go on where the one before has stopped."""
    if r.random() < 0.75:
        return [dict(id=0, metric=mt, d=[0, 1], limit=r.choice([None, None, None, 2]))]
    lim = [r.choice([1, 1, 2, r.randrange(1, n + 1)]) for _ in range(r.choice([1, 1, 2]))] + [r.choice([None, 1, 2])]
    return [dict(id=i, metric=mt if r.random() < 0.8 or mt == "msssim" else r.choice([x for x in calls.METRICS if x != "msssim"]), d=[0, 1], limit=x)
            for i, x in enumerate(lim)]


class MediaCheck(ZygCheck):
    builds = ("harness",)
    real = ["av_metrics_decoders y4m decoder, y4m crate, std::io (BufReader, File, Stdin)"] + ZygCheck.real
    stub = ["results of open/read system calls (libavsim decides length and error; the bytes come from a real scratch file)"] + \
        ZygCheck.stub

    def prepare(self, spec):
        sp = super().prepare(spec)
        d = os.path.join(self.scratch, "in")
        os.makedirs(d, exist_ok=True)
        for i, m in enumerate(spec.get("media", [])):
            media.write(m, os.path.join(d, "%d.y4m" % i))
        s = json.dumps(sp).replace("@D", d)
        return json.loads(s)

    def plain(self, m):
        """The y4m file with the pictures of this clip."""
        return {k: v for k, v in m.items() if k not in ("codec", "ext", "gop", "bf", "audio")}

    def judge_calls(self, sp, r, probes):
        """Every call gives what it gives alone, without disturbances, for y4m files with just the part of the clips that is its turn."""
        used, med = 0, [self.plain(m) for m in sp["media"]]
        for n, call in enumerate(sp["threads"][0]["calls"]):
            c = r["res"]["calls"][n]
            if c is None:
                return "a clip could not be opened: %s" % json.dumps(r["res"]["open"])
            ref = self.reference([dict(m, first=m.get("first", 0) + used, n=m["n"] - used) for m in med], call)
            k = "scores_of_later_parts" if used else "scores"
            probes[k] = probes.get(k, 0) + 1
            if ("ok" in c or "ok" in ref or c.get("err") != ref.get("err") or c.get("panic") != ref.get("panic")) and {k: v for k, v in c.items() if k != "msg"} != ref:
                return "%s%s gives %s; with undisturbed reads of a y4m file %s" % (call["metric"], " of the clips from frame %d on" % used if used else "", json.dumps(c)[:200], json.dumps(ref)[:200])
            if "ok" not in c or call["limit"] is None or used + call["limit"] > min(m["n"] for m in med):
                return None
            used += call["limit"]

    def reference(self, med, call):
        call = dict(call, id=0)
        key = json.dumps([med, call], sort_keys=True)
        cache = self.__dict__.setdefault("cache", {})
        if key not in cache:
            q = dict(op="calls", sim="seed=1 policy=0", media=med, decs=[dict(kind="y4m", path="@D/%d.y4m" % i) for i in range(2)], pools=[],
                     threads=[dict(pool=-1, par=False, calls=[call])], **{"global": 1})
            x = self.refz().run(self.prepare(q))
            cache[key] = {k: y for k, y in x["res"]["calls"][0].items() if k != "msg"} if status(x) == "done" and x["res"]["calls"][0] else {"reference": status(x)}
        return cache[key]

    def shrink(self, sp):
        yield from shrink_sim(sp)
        if len(sp.get("threads", [{}])[0].get("calls", [])) > 1:
            c = copy.deepcopy(sp)
            c["threads"][0]["calls"].pop()
            yield c
        for i, m in enumerate(sp["media"]):
            for k in ("extra", "fparams", "tail", "hdr", "fps"):
                if k in m:
                    c = copy.deepcopy(sp)
                    c["media"][i].pop(k)
                    yield c
            if m["n"] > 1 and "cut" not in m and "flip" not in m:
                for n in (m["n"] // 2, m["n"] - 1):
                    c = copy.deepcopy(sp)
                    c["media"][i]["n"] = n
                    yield c

    def info(self, spec, res):
        s = res.get("sim") or {}
        return json.dumps([spec["media"], s.get("hash"), s.get("io_hash"), s.get("io")]), sum(s.get("faults", [0])) > 0 or \
            any("cut" in m or "flip" in m or "hdr" in m or "tail" in m for m in spec["media"])


class C10(MediaCheck):
    prop = "C10"
    quick = (40000, 75)
    rule = ("one case = one seed: a generated y4m stream (13 pixel formats and monochrome, sizes from 1x1 to 320x240) delivered with short and interrupted reads, through a "
            "file, through standard input or to a whole metric call. Distinct = different stream or fault placement; non-trivial = at "
            "least one injected read fault.")
    assumptions = ["a read that is cut short or interrupted by a signal is not an error (POSIX)"]

    def gen(self, r, i):
        k = r.random()
        if k < 0.7:
            m = gen_media(r)
            if r.random() < 0.01:
                m["cs"] = r.choice(list(media.MONO))
            kind = "stdin" if r.random() < 0.35 else "y4m"
            how = at(r, m) if r.random() < 0.2 else soft(r)
            sp = dict(op="decode", sim="seed=%d policy=0 dir=@D/ stdin=1 %s" % (r.getrandbits(60), how), media=[m], again=r.choice([0, 2]),
                      dec=dict(kind=kind, path="@D/0.y4m"))
            if kind == "stdin":
                sp["stdin"] = "@D/0.y4m"
            return sp
        mt = r.choice(calls.METRICS)
        w, h = (128, 32) if mt == "msssim" else r.choice([(64, 16), (128, 16), (64, 16), (128, 16), (16, 16), (8, 8), (6, 40), (31, 9)])
        cs = r.choice([c for c in media.CS])
        n = r.randrange(1, 9)
        a = dict(seed=r.randrange(5), n=n, w=w, h=h, cs=cs)
        b = dict(a, noise=1 + r.randrange(3), n=n if r.random() < 0.6 else r.randrange(1, 9))
        sim = calls.sched(r) + " dir=@D/ stdin=1 " + soft(r)
        sp = dict(op="calls", sim=sim, media=[a, b], decs=[dict(kind="y4m", path="@D/0.y4m"), dict(kind="y4m", path="@D/1.y4m")],
                  pools=[], threads=[dict(pool=-1, par=False, calls=consecutive(r, mt, n))],
                  **{"global": r.choice([1, 2, 3, 4])})
        if r.random() < 0.25:
            sp["decs"][1] = dict(kind="stdin")
            sp["stdin"] = "@D/1.y4m"
        return sp

    def judge(self, sp, r, probes):
        st = status(r)
        if st == "crash" and sp["op"] == "decode" and sp["media"][0]["cs"] in media.MONO:
            return [("C10", "a monochrome stream is not decoded: the process dies at its first frame")]
        if st != "done":
            return [("C10", "reading does not complete: %s" % st)]
        if sp["op"] == "decode":
            m = sp["media"][0]
            v = r["res"]["v"]
            if v["open"] is not None:
                return [("C10", "a complete %s stream of %d frames could not be opened: %s" % (m["cs"] or "default", m["n"], v["open"]))]
            fr = v["r"]["frames"]
            probes["streams"] = probes.get("streams", 0) + 1
            f, depth, _ = media.fmt(m["cs"])
            if (v["w"], v["h"], v["depth"], v["cs"]) != (m["w"], m["h"], depth, "Cs" + f):
                return [("C10", "details differ: %s" % json.dumps([v["w"], v["h"], v["depth"], v["cs"]]))]
            if v["tb"] != [int(x) for x in m.get("fps", "25:1").split(":")][::-1]:
                return [("C10", "time base differs: %s for %s frames per second" % (v["tb"], m.get("fps", "25:1")))]
            if v["r"].get("panic") and m["cs"] in media.MONO and not fr:
                return [("C10", "a monochrome stream is not decoded: the decoder panics at its first frame")]
            if v["r"].get("panic"):
                return [("C10", "panic after %d of %d frames" % (len(fr), m["n"]))]
            if len(fr) != m["n"]:
                return [("C10", "%d frames delivered, the stream holds %d" % (len(fr), m["n"]))]
            for k, x in enumerate(fr):
                if x["h"] != media.expect(m, k):
                    return [("C10", "frame %d is not the one stored" % k)]
            if any(x is not None for x in v["r"].get("after") or []):
                return [("C10", "a frame is delivered after the end")]
            return []
        v = self.judge_calls(sp, r, probes)
        return [("C10", v)] if v else []


class C11(MediaCheck):
    prop = "C11"
    quick = (60000, 75)
    rule = ("one case = one seed: a y4m stream cut at an arbitrary byte (the state a crashed or unfinished writer leaves), with flipped bytes "
            "from the first frame header on, a frame header replaced or missing, followed by garbage, or whose reads fail with EIO or EAGAIN, plus short and interrupted reads. "
            "Distinct = different stream or fault placement; non-trivial = damaged stream or injected fault.")

    def plain(self, m):
        m = dict(m)
        size, (_, lay) = m.pop("cut", 1 << 60), media.layout(m)
        m.pop("tail", None)
        return dict(m, n=sum(e <= size for _, _, e in lay))

    def gen_calls(self, r):
        """Scores of clips that are cut: those of the complete frames."""
        mt = r.choice(calls.METRICS)
        w, h = (128, 32) if mt == "msssim" else r.choice([(64, 16), (128, 16), (16, 16), (31, 9)])
        cs, n = r.choice(list(media.CS)), r.randrange(1, 9)
        a = dict(seed=r.randrange(5), n=n, w=w, h=h, cs=cs)
        b = dict(a, noise=1 + r.randrange(3), n=n if r.random() < 0.6 else r.randrange(1, 9))
        for m in r.sample([a, b], r.choice([1, 1, 2])):
            if r.random() < 0.2:
                m["tail"] = r.randrange(1, 100000)
            else:
                b0 = [t[-1] for t in media.layout(m)[1]]
                m["cut"] = max(len(media.header(m)), r.choice([r.randrange(len(media.build(m))), r.choice(b0) + r.choice([-1, 0, 1, 5, 7])]))
        sp = dict(op="calls", sim=calls.sched(r) + " dir=@D/ stdin=1 " + (soft(r) if r.random() < 0.6 else ""), media=[a, b],
                  decs=[dict(kind="y4m", path="@D/0.y4m"), dict(kind="y4m", path="@D/1.y4m")],
                  pools=[], threads=[dict(pool=-1, par=False, calls=consecutive(r, mt, n))], **{"global": r.choice([1, 2, 3, 4])})
        if r.random() < 0.2:
            sp["decs"][1] = dict(kind="stdin")
            sp["stdin"] = "@D/1.y4m"
        return sp

    def gen(self, r, i):
        if r.random() < 0.08:
            return self.gen_calls(r)
        m = gen_media(r)
        size = len(media.build(m))
        hl, lay = media.layout(m)
        k = r.random()
        flt = ""
        if k < 0.4:
            # cut: anywhere, or right at a boundary
            b = [0, hl] + [x for t in lay for x in t]
            m["cut"] = r.randrange(size + 1) if r.random() < 0.5 else max(0, min(size, r.choice(b) + r.choice([-2, -1, 0, 1, 2, 5])))
        elif k < 0.65:
            s, d, e = r.choice(lay)
            pos = r.choice([s, s + r.randrange(d - s), d - 1, r.randrange(d, e)])
            m["flip"] = [[pos, 1 << r.randrange(8)]]
        elif k < 0.72:
            j = r.randrange(m["n"])
            m["hdr"] = {str(j): r.choice([b"", b"\n", b"FRAM\n", b"frame\n", b"\nFRAME\n", b"xFRAME\n", b"lost\nFRAME\n", b"lost\n", b"FRAME",
                                          b"\0\0\0\0\0\n", b" FRAME\n", b"FRAMEx\n", b"FRAME\0\n", b"FRAMEFRAME\n", b"YUV4MPEG2\n",
                                          b"E\n", b"RAME\n", media.header(m), media.header(m) + b"FRAME\n", b"x" * r.choice([1030, 5000]) + b"\n",
                                          b"\r\nFRAME\n", b"FRAME\r\n", b"FRAME I" + b"p" * r.choice([3, 200, 900]) + b"\n"]).hex()}
            if r.random() < 0.3:
                m["tail"] = r.randrange(1, 100000)
        elif k < 0.78:
            m["tail"] = r.randrange(1, 100000)
        else:
            flt = r.choice(["r_eio=%d", "r_sticky=%d", "r_eagain=%d"]) % r.choice([4000, 12000, 30000]) + " max_flt=%d" % r.choice([1, 1, 2])
            if r.random() < 0.5:
                flt += " r_short=%d" % r.choice([3000, 20000, 60000])
        x = r.random()
        if x < 0.3:
            flt += " " + soft(r)
        elif x < 0.45:
            flt += " " + at(r, m, True)
        kind = "stdin" if r.random() < 0.35 else "y4m"
        sp = dict(op="decode", sim="seed=%d policy=0 dir=@D/ stdin=1 %s" % (r.getrandbits(60), flt), media=[m], again=r.choice([0, 1, 4]),
                  dec=dict(kind=kind, path="@D/0.y4m"))
        if kind == "stdin":
            sp["stdin"] = "@D/0.y4m"
        return sp

    def judge(self, sp, r, probes):
        st = status(r)
        m = sp["media"][0]
        if st != "done":
            return [("C11", "reading does not end: %s" % st)]
        if sp["op"] == "calls":
            x = self.judge_calls(sp, r, probes)
            return [("C11", x)] if x else []
        data = media.build(m)
        hl, lay = media.layout(m)
        s = r["sim"]
        failed = s["faults"][2] + s["faults"][3] + s["faults"][4] + s["faults"][5]
        v = r["res"]["v"]
        base = media.build({k: x for k, x in m.items() if k not in ("cut", "flip", "tail")})
        if v["open"] is not None:
            if v["open"].startswith("panic"):
                return [("C11", "opening the stream panics")]
            probes["not_opened"] = probes.get("not_opened", 0) + 1
            if not failed and len(data) >= hl and data[:hl] == base[:hl]:
                return [("C11", "a stream with a complete header could not be opened: %s" % v["open"])]
            return []
        if len(data) < hl:
            return [("C11", "a stream cut inside its header (%d of %d bytes) was opened" % (len(data), hl))]
        fr = v["r"]["frames"]
        if v["r"].get("panic"):
            return [("C11", "panic after %d frames" % len(fr))]
        if not v["r"]["ended"]:
            return [("C11", "more than 200 frames delivered from a stream of %d" % m["n"])]
        # frames whose header and pixels are completely there (parameters in a header are not interpreted)
        def valid(hd):
            return hd[:5] == b"FRAME" and hd[-1:] == b"\n" and b"\n" not in hd[:-1] and (len(hd) == 6 or hd[5:6] == b" ")
        whole = []
        for k, (a, d, e) in enumerate(lay):
            if e > len(data) or not valid(data[a:d]):
                break
            whole.append(data[d:e])
        # a damaged header can also end earlier or later than the original: then what follows is out of step
        amb = False
        if len(whole) < len(lay):
            a, d, e = lay[len(whole)]
            hd = data[a:d]
            amb = len(data) >= d and hd[:5] == b"FRAME" and (hd != base[a:d] or "hdr" in m)
        probes["frames_checked"] = probes.get("frames_checked", 0) + len(fr)
        want = len(whole)
        if amb:
            probes["ambiguous"] = probes.get("ambiguous", 0) + 1
            fr = fr[:want]
        if len(fr) > want:
            return [("C11", "%d frames delivered, only %d are complete in the stream" % (len(fr), want))]
        for k, x in enumerate(fr):
            p = whole[k]
            exp = media.expect(m, k) if p == base[lay[k][1]:lay[k][2]] else media.describe(p, m["w"], m["h"], m["cs"])
            if x["h"] != exp:
                return [("C11", "frame %d is not the one stored" % k)]
        if not failed and len(fr) < want:
            return [("C11", "only %d of %d complete frames delivered" % (len(fr), want))]
        if failed:
            probes["read_failed"] = probes.get("read_failed", 0) + 1
        if not amb:
            # (whoever reads on after the end may get a later frame of the stream, but nothing else)
            later = []
            if failed or "hdr" in m or "flip" in m:
                later = [media.expect(m, k) for k in range(len(fr), m["n"])]
                later += [media.describe(data[d:e], m["w"], m["h"], m["cs"]) for a, d, e in lay[len(fr):] if e <= len(data) and data[d:e] != base[d:e]]
            for x in v["r"].get("after") or []:
                if x == "panic":
                    return [("C11", "panic when asked for another frame after the end")]
                if x is not None and x["h"] not in later:
                    return [("C11", "a frame that is not in the stream is delivered after a failed read")]
        return []


ALL = [C10, C11]
