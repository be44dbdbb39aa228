"""C15, C16: the FFmpeg decoder, reading real container files under I/O faults and damage."""
import hashlib, json, os, pickle, subprocess
from . import calls, media
from .checks_media import MediaCheck, gen_media, soft, at, consecutive
from .zyg import status

# extension, encoder, pixel formats, B-frames possible, lossless, may carry an audio track first
KINDS = [("mkv", "ffv1", ("420jpeg", "422", "444", "420p10", "422p10", "444p12"), 0, 1, 1),
         ("nut", "ffv1", ("420jpeg", "444", "420p10"), 0, 1, 1),
         ("nut", "rawvideo", ("420jpeg", "422", "420p10"), 0, 1, 1),
         ("avi", "ffvhuff", ("420jpeg", "422", "420p10"), 0, 1, 1),
         ("avi", "utvideo", ("420jpeg", "444"), 0, 1, 1),
         ("mp4", "libx264", ("420jpeg", "422", "420p10"), 1, 0, 0),
         ("mkv", "libx264", ("420jpeg", "444"), 1, 0, 1),
         ("mkv", "libx265", ("420jpeg",), 1, 0, 1),
         ("webm", "libvpx-vp9", ("420jpeg", "444"), 0, 0, 0),
         ("avi", "mjpeg", ("420jpeg",), 0, 0, 1),
         ("avi", "mpeg4", ("420jpeg",), 1, 0, 1),
         ("mpg", "mpeg2video", ("420jpeg",), 1, 0, 0),
         ("mkv", "libaom-av1", ("420jpeg",), 0, 0, 1)]
SIZES = [(128, 16), (64, 16), (72, 24), (130, 10), (50, 6)]
ODD = [(63, 15), (65, 17), (33, 9), (200, 40), (16, 16), (31, 2)]
# files that can be put one behind the other: the pictures' size or format changes in the middle
JOINED = [("mpg", "mpeg2video", ("420jpeg",)), ("h264", "libx264", ("420jpeg", "422", "444", "420p10")), ("mjpeg", "mjpeg", ("420jpeg",)),
          ("hevc", "libx265", ("420jpeg",))]
DAMAGE = ("cut", "flip", "sof")
# fields of the header of a JPEG picture: offset from its marker, bytes
SOF = [(5, b"\0\x40"), (5, b"\0\x08"), (7, b"\1\0"), (7, b"\0\x10"), (7, b"\0\0"), (11, b"\x11"), (11, b"\x21"), (11, b"\x12"), (11, b"\x41"), (4, b"\x0c"), (9, b"\x01"),
       (2, b"\0\x0b\x08\0\x10\0\x40\x01"), (9, b"\x04")]


class C15(MediaCheck):
    prop = "C15"
    builds = ("ffmpeg", "mkvid")
    binary = "ffmpeg"
    quick = (8000, 110)
    real = ["av_metrics_decoders FFmpeg decoder, ffmpeg-the-third, libavformat, libavcodec"] + MediaCheck.real[1:]
    rule = ("one case = one seed: a video file (13 container and codec combinations made with libavcodec, B-frames, audio tracks, 5 sizes, 4 to 12 "
            "bit) read with short and interrupted reads, failing reads, cut short or with flipped bytes; frame by frame or through a whole "
            "metric call. Distinct = different file or fault placement; non-trivial = damage or at least one injected fault.")
    assumptions = ["libavformat/libavcodec called in the plainest way (one packet in, all frames out) give the right pictures",
                   "the decoder promises termination and no panic for damaged files; which pictures survive is libavcodec's choice"]

    def open(self, paths, scratch):
        super().open(paths, scratch)
        self.files_of(paths, scratch)

    def files_of(self, paths, scratch):
        self.paths, self.scratch = paths, scratch
        self.files, self.failed, self.made = {}, {}, os.path.join(scratch, "made")
        os.makedirs(self.made, exist_ok=True)

    def make(self, m):
        """(bytes of the file, reference frames)"""
        key = json.dumps(m, sort_keys=True)
        if key not in self.files:
            # made once for all workers
            kept = os.path.join(os.path.dirname(self.scratch.rstrip("/")), "made." + hashlib.sha1(key.encode()).hexdigest()[:20])
            if os.path.exists(kept):
                x = pickle.load(open(kept, "rb"))
                self.files[key] = x
                return x
            dst = os.path.join(self.made, "d." + m["ext"])
            if key in self.failed:
                raise RuntimeError(self.failed[key])
            try:
                data = b"".join(self.encode(x, dst) for x in [m] + ([dict(m, **m["then"])] if m.get("then") else []))
            except RuntimeError as e:
                self.failed[key] = str(e)
                raise
            with open(dst, "wb") as f:
                f.write(data)
            o = subprocess.run([self.paths["mkvid"], "dec", dst], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
            cs, depth, _ = media.CS[m["cs"]]
            fr = []
            for ln in o.splitlines():
                t, f = ln.split(), []
                for i in range(3):
                    pw, ph, by = (int(x) for x in t[4 * i:4 * i + 3])
                    v = media._vals(bytes.fromhex(t[4 * i + 3]), pw * ph, 0, by)
                    if i and (cs == "422" if "then" not in m else ph == int(t[1]) and pw < int(t[0])):
                        v = media._realign(v, pw, ph, (1 << (8 if by == 1 else depth)) - 1)
                    f.append([media.fnv(v), pw, ph])
                fr.append(f)
            self.files[key] = (data, fr)
            with open(kept + ".%d" % os.getpid(), "wb") as f:
                pickle.dump(self.files[key], f)
            os.rename(kept + ".%d" % os.getpid(), kept)
        return self.files[key]

    def encode(self, m, dst):
        src = os.path.join(self.made, "s.y4m")
        media.write({k: v for k, v in m.items() if k != "then"}, src)
        c = [self.paths["mkvid"], "enc", src, dst, m["codec"], str(m["gop"]), str(m["bf"]), str(m["audio"])]
        p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise RuntimeError("mkvid: %s %s" % (c, p.stderr[-300:]))
        return open(dst, "rb").read()

    def prepare(self, spec):
        sp = super(MediaCheck, self).prepare(spec)
        d = os.path.join(self.scratch, "in")
        os.makedirs(d, exist_ok=True)
        for i, m in enumerate(spec["media"]):
            if "codec" not in m:
                media.write(m, os.path.join(d, "%d.y4m" % i))
                continue
            b = self.make({k: v for k, v in m.items() if k not in DAMAGE})[0]
            if "sof" in m:
                at = [k for k in range(len(b)) if b[k:k + 2] == b"\xff\xc0"]
                for n, (off, x) in m["sof"]:
                    k = at[n % len(at)] + off if at else 0
                    b = b[:k] + bytes.fromhex(x) + b[k + len(x) // 2:]
            if m.get("cut") is not None:
                b = b[:int(m["cut"] * len(b) / 10000)]
            for pos, x in m.get("flip", []):
                p = int(pos * len(b) / 1000000)
                b = b[:p] + bytes([b[p] ^ x]) + b[p + 1:]
            with open(os.path.join(d, "%d.%s" % (i, m["ext"])), "wb") as f:
                f.write(b)
        m = spec["media"][0]
        if "then" in m:
            sp["sizes"] = [f[0][1:] for f in self.make({k: v for k, v in m.items() if k not in DAMAGE})[1]]
        return json.loads(json.dumps(sp).replace("@D", d))

    def media_of(self, r, kinds=KINDS):
        ext, codec, css, bf, lossless, audio = r.choice(kinds)
        w, h = r.choice(SIZES if codec not in ("libaom-av1", "libx265") else SIZES[:3])
        if r.random() < 0.25:
            w, h = r.choice(ODD)
        if r.random() < 0.02 and codec != "libaom-av1":
            return dict(seed=0, n=3, w=320, h=240, cs=css[0], ext=ext, codec=codec, gop=4 if not lossless else 1, bf=2 if bf else 0, audio=0)
        return dict(seed=r.randrange(2), n=r.choice([1, 2, 3, 5, 8]) if r.random() < 0.95 else r.choice([21, 37]), w=w, h=h, cs=r.choice(css), ext=ext, codec=codec,
                    gop=r.choice([1, 4]) if lossless == 0 else 1, bf=r.choice([0, 2]) if bf else 0, audio=r.choice([0, 1, 2, 3] + [5] * (ext == "mkv")) if audio else r.choice([0, 3]) if ext == "mp4" else r.choice([0, 4, 4]) if ext == "webm" else 0)

    def usable(self, m):
        """An encoder that fails (libvpx crashes on some small pictures) is not the decoder's fault."""
        try:
            self.make(m)
        except RuntimeError:
            m = dict(m, ext="mkv", codec="ffv1", gop=1, bf=0, audio=0)
            m.pop("then", None)
        return m

    def gen(self, r, i):
        k = r.random()
        if k < 0.75:
            m = self.usable(self.media_of(r))
            j = r.random()
            if r.random() < 0.08:
                ext, codec, css = r.choice(JOINED)
                z = [x for x in SIZES + ODD[3:5] + [(320, 240)] if codec != "libx265" or x in SIZES[:3]]
                (w, h), (w2, h2) = r.choice(z), r.choice(z)
                m = dict(seed=r.randrange(2), n=r.choice([1, 3]), w=w, h=h, cs=r.choice(css[:2] if r.random() < 0.7 else css), ext=ext, codec=codec, gop=r.choice([1, 4]),
                         bf=r.choice([0, 2]) if codec != "mjpeg" else 0, audio=0)
                m["then"] = dict(w=w2, h=h2, n=r.choice([1, 2, 5]), seed=1)
                if r.random() < 0.3:
                    m["then"].update(cs=r.choice(css), w=w, h=h)
                m = self.usable(m)
            elif m["codec"] == "mjpeg" and r.random() < 0.5:
                m["sof"] = [[r.randrange(m["n"]), [o, x.hex()]] for o, x in [r.choice(SOF) for _ in range(r.choice([1, 1, 2]))]]
            flt = ""
            if j < 0.35:
                flt = soft(r)
            elif j < 0.6:
                flt = r.choice(["r_eio=%d", "r_sticky=%d", "r_eagain=%d"]) % r.choice([5000, 15000, 40000]) + " max_flt=%d" % r.choice([1, 2, 5, 100])
                if r.random() < 0.4:
                    flt += " r_short=%d" % r.choice([3000, 20000])
            elif j < 0.8:
                m["cut"] = r.choice([r.randrange(10000), r.randrange(9000, 10000)])
            else:
                m["flip"] = [[r.randrange(1000000), 1 << r.randrange(8)] for _ in range(r.choice([1, 1, 4, 20]))]
            if j >= 0.6 and r.random() < 0.3:
                flt = soft(r)
            return dict(op="decode", sim="seed=%d policy=0 dir=@D/ stepcap=400000 cpu_ms=15000 %s" % (r.getrandbits(60), flt), media=[m],
                        again=r.choice([0, 2]), dec=dict(kind="ffmpeg", path="@D/0." + m["ext"]))
        # a whole call: lossless, so the score must be the one the y4m files give
        mt = r.choice(calls.METRICS)
        w, h = (128, 32) if mt == "msssim" else r.choice([(64, 16), (72, 24)])
        cs = r.choice(["420jpeg", "420p10"])
        n = r.choice([1, 3, 5])
        ks = [x for x in KINDS if x[4] and cs in x[2]]
        med = []
        for j in range(2):
            ext, codec, _, _, _, au = r.choice(ks)
            m = dict(seed=r.randrange(2), n=n if r.random() < 0.7 else r.choice([1, 3, 5]), w=w, h=h, cs=cs)
            if j:
                m.update(noise=1 + r.randrange(2), seed=med[0]["seed"])
            if r.random() < 0.8:
                m.update(ext=ext, codec=codec, gop=1, bf=0, audio=r.choice([0, 1, 2, 3]) if au else 0)
            med.append(m)
        return dict(op="calls", sim=calls.sched(r) + " dir=@D/ " + soft(r), media=med,
                    decs=[dict(kind="ffmpeg" if "codec" in m else "y4m", path="@D/%d.%s" % (j, m.get("ext", "y4m"))) for j, m in enumerate(med)],
                    pools=[], threads=[dict(pool=-1, par=False, calls=consecutive(r, mt, n))],
                    **{"global": r.choice([1, 2, 4])})

    def judge(self, sp, r, probes):
        st = status(r)
        s = r.get("sim") or {}
        flt = s.get("faults", [0] * 32)
        if sp["op"] == "decode":
            m = sp["media"][0]
            damaged = any(x in m for x in DAMAGE)
            mixed = "cs" in m.get("then", {}) and m["then"]["cs"] != m["cs"]
            hard = sum(flt[2:6])
            why = "damaged file" if damaged else "failing reads" if hard else "undisturbed reads" if not sum(flt) else "short or interrupted reads"
            if st != "done":
                return [("C15", "%s (%s): decoding does not complete: %s" % (m["codec"], why, st))]
            v = r["res"]["v"]
            if v["open"] is not None:
                if v["open"].startswith("panic"):
                    return [("C15", "%s (%s): opening panics" % (m["codec"], why))]
                probes["not_opened"] = probes.get("not_opened", 0) + 1
                return [] if damaged or hard else [("C15", "%s (%s): cannot be opened: %s" % (m["codec"], why, v["open"]))]
            fr = [x["h"] for x in v["r"]["frames"]]
            if v["r"].get("panic"):
                return [("C15", "%s (%s): panic after %d frames" % (m["codec"], why, len(fr)))]
            if not v["r"]["ended"]:
                return [("C15", "%s (%s): %d frames and no end, the file holds %d" % (m["codec"], why, len(fr), m["n"]))]
            if "panic" in (v["r"].get("after") or []):
                return [("C15", "%s (%s): panic when read after the end" % (m["codec"], why))]
            probes["frames"] = probes.get("frames", 0) + len(fr)
            ref = self.make({k: x for k, x in m.items() if k not in DAMAGE})[1]
            if mixed and not damaged and not hard:
                probes["pictures_of_several_formats"] = probes.get("pictures_of_several_formats", 0) + 1
                if any(x not in ref for x in fr):
                    return [("C15", "%s (the format changes in the middle): a frame that is not in the file" % m["codec"])]
            elif not damaged and not hard:
                if "then" in m:
                    probes["pictures_of_several_sizes"] = probes.get("pictures_of_several_sizes", 0) + 1
                f, depth, _ = media.CS[m["cs"]]
                if "then" not in m and (v["w"], v["h"], v["depth"], v["cs"]) != (m["w"], m["h"], depth, "Cs" + f):
                    return [("C15", "details differ: %s" % json.dumps([v["w"], v["h"], v["depth"], v["cs"]]))]
                if len(fr) != len(ref):
                    return [("C15", "%s (%s): %d frames, the file holds %d" % (m["codec"], why, len(fr), len(ref)))]
                for k in range(len(fr)):
                    if fr[k] != ref[k]:
                        return [("C15", "%s (%s): frame %d is not the one in the file" % (m["codec"], why, k))]
                if any(x is not None for x in v["r"].get("after") or []):
                    return [("C15", "%s: a frame is delivered after the end" % m["codec"])]
            else:
                probes["damaged_or_failing"] = probes.get("damaged_or_failing", 0) + 1
                probes["ended_early"] = probes.get("ended_early", 0) + (len(fr) < len(ref))
                if m["codec"] == "rawvideo" and not damaged and any(x not in ref for x in fr[:-1]):
                    return [("C15", "%s (%s): a frame that is not in the file" % (m["codec"], why))]
            return []
        if st != "done":
            return [("C15", "the call does not complete: %s" % st)]
        v = self.judge_calls(sp, r, probes)
        return [("C15", v)] if v else []


class C16(C15):
    prop = "C16"
    quick = (20000, 75)
    real = ["av_metrics decode::Decoder (fetching by position), av_metrics_decoders y4m and FFmpeg decoders, y4m crate, ffmpeg-the-third, "
            "libavformat, libavcodec"] + C15.real[1:]
    assumptions = C15.assumptions[:1]
    rule = ("one case = one seed: a y4m stream (possibly cut short) or a file made with libavcodec (13 container and codec combinations, reordered "
            "pictures) read with short and interrupted reads, and a position to fetch, before, at or past the end, followed by further reads. Distinct = different stream, position or fault placement; non-trivial = fault or cut.")

    def gen(self, r, i):
        ff = r.random() < 0.3
        m = self.usable(self.media_of(r)) if ff else gen_media(r)
        if not ff and r.random() < 0.4:
            m["cut"] = r.randrange(len(media.header(m)), len(media.build(m)) + 1)
        n = r.choice([0, 1, m["n"] - 1, m["n"], m["n"] + 1, r.randrange(12), 1000])
        if r.random() < 0.1:
            # what a counter that is too narrow takes for a position near the beginning
            n = r.choice([1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63, (1 << 64) - 4]) + r.randrange(4)
        x = r.random()
        how = at(r, m) if x < 0.12 and not ff else soft(r) if x < 0.7 else ""
        ops = [["at", n]] + [["next"]] * r.randrange(3)
        sp = dict(op="decode", sim="seed=%d policy=0 dir=@D/ stdin=1 stepcap=3000000 cpu_ms=%d %s" % (
            r.getrandbits(60), 15000 if ff else 4000, how), media=[m], ops=ops,
            dec=dict(kind="ffmpeg", path="@D/0." + m["ext"]) if ff else dict(kind="stdin" if r.random() < 0.3 else "y4m", path="@D/0.y4m"))
        if sp["dec"]["kind"] == "stdin":
            sp["stdin"] = "@D/0.y4m"
        return sp

    def judge(self, sp, r, probes):
        st = status(r)
        m = sp["media"][0]
        n = sp["ops"][0][1]
        if "codec" in m:
            frames = self.make(m)[1]
        else:
            size = m.get("cut", 1 << 60)
            _, lay = media.layout(m)
            frames = [media.expect(m, k) for k in range(m["n"]) if lay[k][2] <= size]
        have = len(frames)
        if st != "done":
            return [("C16", "fetching frame %d of a stream of %d never returns: %s" % (n, have, st))]
        v = r["res"]["v"]
        if v["open"] is not None:
            return [("C16", "a readable clip could not be opened: %s" % v["open"])]
        pos = 0
        for o, x in zip(sp["ops"], v["r"]["frames"]):
            k = o[1] if o[0] == "at" else pos
            pos = k + 1
            probes["past_end" if k >= have else "found"] = probes.get("past_end" if k >= have else "found", 0) + 1
            if x == "panic":
                return [("C16", "panic when fetching frame %d of %d" % (k, have))]
            if k >= have:
                if x is not None:
                    return [("C16", "frame %d delivered, the stream holds %d" % (k, have))]
                pos = have
            elif x is None or x["h"] != frames[k]:
                return [("C16", "%s instead of frame %d of %d" % ("nothing" if x is None else "another frame", k, have))]
        if len(v["r"]["frames"]) != len(sp["ops"]):
            return [("C16", "missing answers")]
        return []


ALL = [C15, C16]
