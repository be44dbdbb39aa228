"""C18: the VapourSynth decoder, against a simulated frame server (harness/src/vs.rs)."""
import copy, functools, json, os, random
from . import calls, media
from .checks_calls import shrink_sim
from .checks_media import MediaCheck, soft, consecutive
from .zyg import status

# family, sw, sh -> what the decoder has to call it
LAYOUTS = {("yuv", 1, 1): "420", ("yuv", 1, 0): "422", ("yuv", 0, 0): "444", ("ycocg", 0, 0): "444", ("rgb", 0, 0): "444", ("gray", 0, 0): "400"}
BITS = [8, 8, 8, 9, 10, 12, 14, 16]
NAMES = ["clip.mkv", "a b.mkv", "it's.mkv", "q\"uote.mkv", "back\\slash.mkv", "\\n.mkv", "uni\u00e9\u4e16.mkv", "{}.mkv", "#x.mkv", "\\", "\\\"", "new\nline.mkv",
         "%s.mkv", "tab\t.mkv", "-x.mkv", "cr\r.mkv"]


def planes(d):
    c = (0, 0) if d["family"] in ("gray", "compat") else (d["w"] >> d["sw"], d["h"] >> d["sh"])
    return [(d["w"], d["h"]), c, c]


@functools.lru_cache(4096)
def picture(seed, k, n, bits):
    b = bytearray(random.Random("vs/%d/%d/%d/%d" % (seed, k, n, bits)).randbytes(n * (1 if bits <= 8 else 2 if bits <= 16 else 4)))
    if 8 < bits < 16:
        b[1::2] = b[1::2].translate(bytes(x & ((1 << (bits - 8)) - 1) for x in range(256)))
    return bytes(b)


def raw(d, k):
    if "y4m" in d:
        y = d["y4m"]
        return media.payload(y["seed"], k, y["w"], y["h"], y["cs"], y.get("noise", 0))
    return picture(d["seed"], k, sum(a * b for a, b in planes(d)), d["bits"])


@functools.lru_cache(4096)
def _expect(key, k):
    d = json.loads(key)
    b, off, out = raw(d, k), 0, []
    s = 1 if d["bits"] <= 8 else 2
    for pw, ph in planes(d):
        out.append([media.fnv(media._vals(b, pw * ph, off, s)), pw, ph])
        off += pw * ph * s
    return out


def expect(d, k):
    return _expect(json.dumps({x: d[x] for x in ("family", "w", "h", "sw", "sh", "bits", "seed", "y4m") if x in d}, sort_keys=True), k)


def sequence(d, ops, again=0, cap=400):
    """What a decoder reading with `ops` (None: to the end, then `again` more) has to deliver."""
    fail = {k: c for k, c in d.get("fail", [])}
    pos = 0

    def nxt():
        nonlocal pos
        if pos >= d["n"]:
            return None
        if fail.get(pos, 0) > 0:
            fail[pos] -= 1
            return None
        pos += 1
        return expect(d, pos - 1)
    if ops is None:
        out = []
        while len(out) < cap:
            f = nxt()
            if f is None:
                break
            out.append(f)
        return out, [nxt() for _ in range(again)]
    out = []
    for o in ops:
        f = None
        for _ in range(o[1] + 1 if o[0] == "at" else 1):
            f = nxt()
            if f is None:
                break
        out.append(f)
    return out, []


class C18(MediaCheck):
    prop = "C18"
    builds = ("vs",)
    binary = "vs"
    quick = (30000, 70)
    real = ["av_metrics_decoders VapourSynth decoder, vapoursynth crate"] + MediaCheck.real[1:]
    stub = ["the VapourSynth library and its script interpreter: a simulated frame server behind the same C interface (harness/src/vs.rs)"] + MediaCheck.stub
    rule = ("one case = one seed: a script (or a video file opened through the generated script) whose output node is a generated clip (8 to 16 bit, 420/422/444, "
            "odd sizes, padded rows, several outputs, alpha), served by a simulated VapourSynth that is slow or fails at chosen frames, for a while or for "
            "good, read to the end, beyond it, by position or by a whole metric call; or a script that cannot be used. Distinct = different clip, "
            "request history or schedule; non-trivial = a slow or failed request, an injected read fault or an unusable script.")
    assumptions = ["the simulated frame server keeps VapourSynth's documented contract (API 3.6): padded rows, reference counting, errors by message"]

    def prepare(self, spec):
        sp = super(MediaCheck, self).prepare(spec)
        for x in ("in", "vs"):
            os.makedirs(os.path.join(self.scratch, x), exist_ok=True)
        d = os.path.join(self.scratch, "in")
        for i, m in enumerate(spec["media"]):
            if "family" not in m:
                media.write(m, os.path.join(d, "%d.y4m" % i))
                continue
            out = []
            for j, x in enumerate([m] + m.get("others", [])):
                with open(os.path.join(self.scratch, "vs", "%d.%d.raw" % (i, j)), "wb") as f:
                    f.write(b"".join(raw(x, k) for k in range(x["n"])))
                nd = {k: v for k, v in x.items() if k not in ("others", "y4m", "script", "name")}
                out.append([x.get("index", 0), dict(nd, file="../vs/%d.%d.raw" % (i, j))])
                if x.get("alpha"):
                    out[-1].append(dict(nd, family="gray", sw=0, sh=0, file="../vs/%d.%d.raw" % (i, j)))
            text = json.dumps(dict(outputs=out))
            s = m.get("script")
            if s == "error":
                text = json.dumps(dict(error="Traceback (most recent call last): \u00e9"))
            elif s == "none":
                text = json.dumps(dict(outputs=[]))
            elif s == "text":
                text = "import vapoursynth as vs"
            b = text.encode()
            if s == "binary":
                b = b"\xff\xfe" + b
            elif s == "nul":
                b = b + b"\0"
            p = os.path.join(d, m.get("name", "%d.vpy" % i))
            if s == "missing":
                if os.path.exists(p):
                    os.unlink(p)
            else:
                with open(p, "wb") as f:
                    f.write(b)
        return json.loads(json.dumps(sp).replace("@D", d))

    def clip(self, r, i=0):
        fam, sw, sh = r.choice([("yuv", 1, 1)] * 4 + [("yuv", 1, 0)] * 3 + [("yuv", 0, 0)] * 3 + [("ycocg", 0, 0), ("rgb", 0, 0)])
        w, h = r.choice([(64, 16), (72, 24), (16, 8), (50, 6), (130, 10), (2, 2), (66, 34), (256, 32), (r.randrange(1, 40) * 2, r.randrange(1, 20) * 2)])
        if r.random() < 0.3:
            if sw == 0:
                w += r.randrange(2)
            if sh == 0:
                h += r.randrange(2)
        d = dict(family=fam, sw=sw, sh=sh, w=w, h=h, bits=r.choice(BITS), seed=r.randrange(5), n=r.choice([1, 2, 3, 5, 8]) if r.random() < 0.97 else r.choice([40, 130]),
                 pad=r.choice([0, 32, 32, 64, 480]))
        if d["n"] > 8:
            d.update(w=16, h=8)
        if r.random() < 0.3:
            d["num"], d["den"] = r.choice([(30000, 1001), (24, 1), (1, 5), (1000000, 33333)])
        return d

    def trouble(self, r, d):
        if r.random() < 0.5:
            d["delay"] = [r.choice([10, 60, 100]), r.choice([1000, 1000000, 5000000000, 100000000000])]
        if r.random() < 0.4:
            d["fail"] = sorted({r.choice([0, d["n"] - 1, r.randrange(d["n"])]): r.choice([1, 1, 2, 1000]) for _ in range(r.choice([1, 1, 2]))}.items())
            d["fail"] = [list(x) for x in d["fail"]]
        return d

    def gen(self, r, i):
        k = r.random()
        by = "script" if r.random() < 0.7 else r.choice(["lsmash", "bestsource", "default"])
        if k < 0.75:
            d = self.trouble(r, self.clip(r))
            if r.random() < 0.004:
                d.update(family="gray", sw=0, sh=0)
            flt = soft(r) if r.random() < 0.4 else ""
            if by != "script":
                d["name"] = r.choice(NAMES)
            elif r.random() < 0.3:
                d["others"] = [dict(self.clip(r), index=x) for x in r.sample([1, 2, 7], r.choice([1, 2]))]
                d["alpha"] = r.choice([0, 1])
            j = r.random()
            if j < 0.12:
                if by == "script" and r.random() < 0.5:
                    d["script"] = r.choice(["error", "none", "text", "binary", "nul", "missing"])
                    if d["script"] == "none":
                        d.pop("others", None)
                else:
                    x = r.choice(["float", "format", "size", "fps", "bits", "440", "411", "410", "packed", "index", "missing"])
                    if x == "float":
                        d.update(float=1, bits=r.choice([16, 32]))
                    elif x in ("format", "size", "fps"):
                        d["variable"] = x
                    elif x == "bits":
                        d["bits"] = r.choice([17, 24, 32])
                    elif x == "packed":
                        d.update(family="compat", bits=r.choice([16, 32]), sw=r.choice([0, 1]), sh=0)
                    elif x == "index":
                        d["index"] = r.choice([1, -1, 3])
                        d.pop("others", None)
                    elif x == "missing":
                        d["script"] = "missing"
                    else:
                        d.update(family="yuv", sw={"440": 0, "411": 2, "410": 2}[x], sh={"440": 1, "411": 0, "410": 2}[x], w=64, h=16)
                    d["unusable"] = x
                d.pop("alpha", None)
            elif j < 0.2:
                flt = r.choice(["r_eio=%d", "r_sticky=%d", "r_eagain=%d", "o_err=%d"]) % r.choice([20000, 60000]) + " max_flt=%d" % r.choice([1, 2])
            sp = dict(op="decode", sim="seed=%d policy=0 dir=@D/ stepcap=400000 cpu_ms=15000 %s" % (r.getrandbits(60), flt), media=[d],
                      dec=dict(kind="vs", by=by, path="@D/" + d.get("name", "0.vpy")))
            if r.random() < 0.3:
                sp["ops"] = [["at", r.choice([0, 1, d["n"] - 1, d["n"], r.randrange(12), 1000])]] + [["next"]] * r.randrange(4)
                # (fetching by position may or may not come across frames before it that fail)
                if r.random() < 0.3 or any(k < sp["ops"][0][1] for k, _ in d.get("fail", [])):
                    sp["ops"].pop(0)
            else:
                sp["again"] = r.choice([0, 2, 12])
            return sp
        # a whole call: the score the same pictures give in y4m files
        mt = r.choice(calls.METRICS)
        w, h = (128, 32) if mt == "msssim" else r.choice([(64, 16), (72, 24), (16, 16)])
        cs = r.choice(["420jpeg", "444", "420p10", "444p12"])
        f, bits, _ = media.CS[cs]
        n = r.choice([1, 3, 5, 12])
        med = []
        for j in range(2):
            y = dict(seed=r.randrange(2), n=n if r.random() < 0.7 else r.choice([1, 3, 5]), w=w, h=h, cs=cs)
            if j:
                y.update(noise=1 + r.randrange(2), seed=med[0].get("y4m", med[0])["seed"])
            if j or r.random() < 0.7:
                sub = 1 if f == "420" else 0
                y = self.trouble(r, dict(family="yuv", sw=sub, sh=sub, w=w, h=h, bits=bits, seed=1, n=y["n"], pad=r.choice([0, 32, 64]), y4m=y))
            med.append(y)
        return dict(op="calls", sim=calls.sched(r) + " dir=@D/ " + soft(r), media=med,
                    decs=[dict(kind="vs", path="@D/%d.vpy" % j) if "family" in m else dict(kind="y4m", path="@D/%d.y4m" % j) for j, m in enumerate(med)],
                    pools=[], threads=[dict(pool=-1, par=False, calls=consecutive(r, mt, n))],
                    **{"global": r.choice([1, 2, 4])})

    def info(self, spec, res):
        s = res.get("sim") or {}
        v = (res.get("res") or {}).get("vs") or {}
        return json.dumps([spec["media"], spec.get("ops"), s.get("hash"), s.get("io_hash"), s.get("io"), v]), sum(s.get("faults", [0])) > 0 or \
            v.get("failed", 0) + v.get("slow", 0) > 0 or any("unusable" in m or "script" in m for m in spec["media"])

    def shrink(self, sp):
        yield from shrink_sim(sp)
        for i, m in enumerate(sp["media"]):
            for k in ("others", "alpha", "delay", "fail", "num", "den"):
                if k in m:
                    c = copy.deepcopy(sp)
                    c["media"][i].pop(k)
                    if k in ("num", "den"):
                        c["media"][i].pop("den" if k == "num" else "num", None)
                    yield c

    def judge(self, sp, r, probes):
        return [("C18", m) for m in self.verdict(sp, r, probes)][:1]

    def verdict(self, sp, r, probes):
        st = status(r)
        m = sp["media"][0]
        gray = sp["op"] == "decode" and m.get("family") == "gray"
        if st == "crash" and gray:
            return ["a gray clip is not decoded: the process dies at its first frame"]
        if st != "done":
            return ["reading does not complete: %s" % st]
        s = r.get("sim") or {}
        hard = sum(s.get("faults", [0] * 32)[2:6])
        vs = r["res"]["vs"]
        for k in ("requests", "failed", "slow"):
            probes["frame_server_" + k] = probes.get("frame_server_" + k, 0) + vs[k]
        if vs["bad"]:
            return ["the frame server is misused: %s" % "; ".join(vs["bad"])]
        if vs["frames"] or vs["nodes"]:
            return ["%d frames and %d nodes of the frame server are never given back" % (vs["frames"], vs["nodes"])]
        if vs["peak"] > 64:
            return ["%d frames of the frame server are held at a time" % vs["peak"]]
        if sp["op"] == "decode":
            v = r["res"]["v"]
            unusable = m.get("unusable") or m.get("script")
            what = unusable or "%s %d bit" % (LAYOUTS[m["family"], m["sw"], m["sh"]], m["bits"])
            if v["open"] is not None:
                if v["open"].startswith("panic"):
                    return ["opening panics (%s)" % what]
                probes["not_opened"] = probes.get("not_opened", 0) + 1
                if vs["scripts"]:
                    return ["a script that could not be used is never freed"]
                return [] if unusable or hard else ["a usable script could not be opened (%s): %s" % (what, v["open"])]
            if unusable:
                return ["a script that cannot be used was opened (%s)" % what]
            if vs["scripts"]:
                return ["the script is not freed with its decoder"]
            det = (v["w"], v["h"], v["depth"], v["cs"], v["tb"])
            want = (m["w"], m["h"], m["bits"], "Cs" + LAYOUTS[m["family"], m["sw"], m["sh"]], [m.get("den", 1), m.get("num", 25)])
            if det != want:
                return ["details differ: %s, not %s" % (json.dumps(det), json.dumps(want))]
            if v["count"] != m["n"]:
                return ["%s frames are announced, the script gives %d" % (v["count"], m["n"])]
            fr = v["r"]["frames"]
            if gray and (v["r"].get("panic") or "panic" in fr):
                return ["a gray clip is not decoded: the decoder panics at its first frame"]
            if v["r"].get("panic") or "panic" in fr or "panic" in (v["r"].get("after") or []):
                return ["panic after %d frames (%s)" % (len(fr), what)]
            probes["frames"] = probes.get("frames", 0) + len(fr)
            main, after = sequence(m, sp.get("ops"), sp.get("again", 0))
            got = [x and x["h"] for x in fr]
            if len(got) != len(main) and "ops" not in sp:
                return ["%d frames delivered, the script gives %d%s" % (len(got), len(main), " before the one that fails" if m.get("fail") else "")]
            for k, (a, b) in enumerate(zip(got, main)):
                if a != b:
                    return ["%s instead of %s at read %d (%s)" % ("nothing" if a is None else "another picture", "nothing" if b is None else "the script's frame", k, what)]
            if len(got) != len(main):
                return ["missing answers"]
            for a, b in zip(v["r"].get("after") or [], after):
                if (a and a["h"]) != b:
                    return ["reading on after the end or a failure gives %s" % ("nothing where the frame is there" if a is None else "another picture" if b else "a frame where there is none")]
            return []
        v = self.judge_calls(sp, r, probes)
        return [v] if v else []

    def plain(self, m):
        return dict(m.get("y4m", m), n=min([m["n"]] + [k for k, c in m.get("fail", []) if c]))


ALL = [C18]
