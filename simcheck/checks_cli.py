"""C12, C13, C14: the command line tool as a whole process on a simulated disk."""
import copy, fcntl, json, math, os, re, shutil, struct
from . import calls, media, proc
from .checks_calls import shrink_sim
from .checks_ffmpeg import C15
from .checks_media import soft
from .driver import Check
from .zyg import STATUS, Zyg, status

NAMES = dict(psnr="psnr", apsnr="apsnr", psnrhvs="hvs", ssim="ssim", msssim="msssim", ciede2000="ciede")
KEYS = dict(psnr="psnr", apsnr="apsnr", psnrhvs="psnr_hvs", ssim="ssim", msssim="msssim", ciede2000="ciede2000")
TEXT = dict(psnr="PSNR", apsnr="APSNR", psnrhvs="PSNR HVS", ssim="SSIM", msssim="MSSSIM", ciede2000="CIEDE2000")
ORDER = ["psnr", "apsnr", "psnrhvs", "ssim", "msssim", "ciede2000"]
REPORTS = {"json": "--export-json", "csv": "--export-csv", "md": "--export-markdown", "txt": "--export-file"}


# files that FFmpeg reads, but which hold no pictures a frame can be made of: sound, a GIF
WAV = b"RIFF" + struct.pack("<I", 36 + 800) + b"WAVEfmt " + struct.pack("<IHHIIHH", 16, 1, 1, 8000, 16000, 2, 16) + b"data" + struct.pack("<I", 800) + b"\0\1" * 400
GIF = bytes.fromhex("47494638396101000100800000ff0000ffffff2c00000000010001000002024401003b")


def st_of(r):
    if r["hung"]:
        return "hung"
    s = r.get("sim")
    if s and s["status"] in (3, 4, 5, 7):
        return STATUS[s["status"]]
    return "ended"


def unhex(x):
    return struct.unpack(">d", bytes.fromhex(x))[0]


def flt(x):
    try:
        return float(x)
    except ValueError:
        return None


class CliCheck(Check):
    builds = ("cli", "cliff", "harness", "ffmpeg", "mkvid")
    real = ["av-metrics-tool (whole process: argument parsing, decoding, metrics, reports)", "av_metrics, y4m decoder, rayon, crossbeam, std"]
    stub = ["thread scheduler, clocks, sleeps, randomness, results of open/read/write on the simulated disk and of writes to standard "
            "output (libavsim; the bytes live in a scratch directory)", "terminal detection in the runs that have a terminal"]

    def open(self, paths, scratch):
        self.paths, self.scratch = paths, scratch
        self.zr = Zyg(paths["harness"], paths["sim"])
        self.zf = Zyg(paths["ffmpeg"], paths["sim"])
        self.cache, self.libcache = {}, {}
        self.enc = C15()
        self.enc.files_of(paths, scratch)

    def close(self):
        self.zr.close()
        self.zf.close()

    def fill(self, d, spec):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "io"))
        for f in spec.get("old", []):
            # a report that an earlier run of the tool left
            with open(os.path.join(d, "io", f), "w") as h:
                h.write("|an earlier report, which is longer than any of those that are to be written" * 200 + "\n")
        for i, m in enumerate(spec["media"]):
            p = os.path.join(d, names_of(spec)[i])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            k = m.get("bad")
            if i in spec.get("pipes", []) and k is None:
                self.pipe(m, p, 200 + i)
            elif k is None and "codec" in m:
                with open(p, "wb") as f:
                    f.write(self.enc.make(m)[0])
            elif k is None:
                media.write(m, p)
            elif k == "missing":
                pass
            elif k == "dir":
                os.makedirs(p, exist_ok=True)
            elif os.path.lexists(p):
                pass
            elif k == "dangling":
                os.symlink("nowhere", p)
            else:
                with open(p, "wb") as f:
                    f.write(bytes.fromhex(k))

    def pipe(self, m, path, fd):
        """As a shell's <(...) does: the stream is in a pipe (all of it, so that nothing depends on a writer's timing)."""
        r, w = os.pipe()
        fcntl.fcntl(w, fcntl.F_SETPIPE_SZ, 1 << 20)
        os.write(w, media.build(m))
        os.close(w)
        os.dup2(r, fd)
        os.close(r)
        os.symlink("/proc/self/fd/%d" % fd, path)

    def go(self, spec, sim, threads):
        d = os.path.join(self.scratch, "run")
        self.fill(d, spec)
        if sim is not None and "replay" in spec:
            t = os.path.join(self.scratch, "trace")
            with open(t, "w") as f:
                for a in spec["replay"]["S"]:
                    f.write("S %d %d\n" % tuple(a))
                for x in spec["replay"]["F"]:
                    f.write("F %d %d %d %d\n" % tuple(x))
            sim += " trace=" + t
        fds = [200 + i for i in spec.get("pipes", []) if "bad" not in spec["media"][i]]
        r = proc.run(self.paths["cliff" if spec.get("ff") else "cli"], self.paths["sim"], spec["args"], d, sim, {"RAYON_NUM_THREADS": str(threads)}, bool(spec.get("trace")), fds=fds)
        for x in fds:
            os.close(x)
        r["files"] = {}
        for k in sorted(os.listdir(os.path.join(d, "io"))):
            if not k.endswith(".y4m") and k.startswith("r."):
                r["files"][k] = open(os.path.join(d, "io", k), "rb").read().decode("utf8", "replace")
        return r

    def run(self, spec, fresh=False):
        return self.go(spec, spec["sim"], spec["threads"])

    def clean(self, spec):
        """The same command with nothing going wrong."""
        key = json.dumps([spec["media"], spec["args"], spec.get("names"), spec.get("ff"), "tty=1" in spec["sim"]], sort_keys=True)
        if key not in self.cache:
            if len(self.cache) > 4000:
                self.cache.clear()
            q = {k: v for k, v in spec.items() if k not in ("replay", "trace", "pipes", "old")}
            self.cache[key] = self.go(q, "seed=1 policy=0 stepcap=60000000 dir=io/ stdout=1" + (" tty=1" if "tty=1" in spec["sim"] else ""), 1)
        return self.cache[key]

    def library(self, spec, i, metric):
        """What the library returns for base and input i: list of numbers, or None for an error."""
        ms = [spec["media"][0], spec["media"][i]]
        ff = spec.get("ff")
        key = json.dumps([ms, metric, ff], sort_keys=True)
        if key not in self.libcache:
            d = os.path.join(self.scratch, "lib")
            self.fill(d, dict(media=ms))
            x = (self.zf if ff else self.zr).run(dict(op="calls", sim="seed=1 policy=0", decs=[dict(kind="ffmpeg" if ff else "y4m", path=os.path.join(d, "io", "%d.y4m" % j)) for j in (0, 1)],
                                 pools=[], threads=[dict(pool=-1, par=False, calls=[dict(id=0, metric=NAMES[metric], d=[0, 1], limit=None)])],
                                 **{"global": 1}))
            c = x["res"]["calls"][0] if status(x) == "done" else None
            self.libcache[key] = [unhex(v) for v in c["ok"]] if c and "ok" in c else None
        return self.libcache[key]

    def info(self, spec, res):
        s = res.get("sim") or {}
        return json.dumps([spec["media"], spec["args"], spec.get("old"), spec.get("pipes"), spec.get("ff"), s.get("hash"), s.get("io_hash")]), s.get("switches", 0) > 0 or sum(s.get("faults", [0])) > 0

    def shrink(self, sp):
        yield from shrink_sim(sp)
        for j in sp.get("pipes", []):
            yield dict(copy.deepcopy(sp), pipes=[x for x in sp["pipes"] if x != j])
        if sp["threads"] > 1:
            yield dict(copy.deepcopy(sp), threads=1)
        a = sp["args"]
        for f in list(REPORTS.values()):
            if f in a:
                c = copy.deepcopy(sp)
                j = a.index(f)
                del c["args"][j:j + 2]
                yield c
        if len(sp["media"]) > 2 and not sp.get("pipes"):
            for i in range(1, len(sp["media"])):
                c = copy.deepcopy(sp)
                c["names"] = list(names_of(sp))
                for l in (c["media"], c["names"], c["args"]):
                    l.pop(i)
                yield c
        for i, m in enumerate(sp["media"]):
            if m.get("n", 1) > 1 and "names" not in sp:
                c = copy.deepcopy(sp)
                c["media"][i]["n"] = m["n"] - 1
                yield c
        if "--metric" not in a:
            for m in ("psnr", "ciede2000"):
                yield dict(copy.deepcopy(sp), args=a + ["--metric", m])

    def inputs(self, r, n=None):
        w, h = r.choice([(64, 16), (128, 16), (64, 24)] if r.random() < 0.9 else [(8, 8), (16, 8), (6, 40), (31, 9), (13, 13)])
        cs = r.choice(["420jpeg", "420", "422", "444", "420p10", "444p10"])
        a = dict(seed=r.randrange(4), n=r.choice([1, 2, 3, 4]), w=w, h=h, cs=cs)
        out = [a]
        for _ in range(n or r.choice([1, 1, 2, 3, 3 if r.random() < 0.8 else 7])):
            b = dict(a, noise=1 + r.randrange(6), n=a["n"] if r.random() < 0.7 else r.choice([1, 2, 3, 5]))
            out.append(b)
        return out

    def ff(self, r, sp):
        """The tool as it is built with feature "ffmpeg": it reads other files, too."""
        if r.random() > 0.3 or any("cut" in m and m["cut"] >= len(media.header(m)) or m.get("w", 64) % 8 for m in sp["media"]):
            return sp
        sp["ff"] = 1
        if r.random() < 0.5 and not sp.get("pipes"):
            for m in sp["media"]:
                if "bad" in m or "cut" in m or m["cs"] != "420jpeg" or r.random() < 0.4:
                    continue
                ext, codec, bf = r.choice([("mkv", "ffv1", 0), ("mp4", "libx264", 2), ("avi", "mjpeg", 0), ("avi", "ffvhuff", 0)])
                m2 = dict(m, ext=ext, codec=codec, gop=4, bf=bf, audio=0)
                try:
                    self.enc.make(m2)
                except RuntimeError:
                    continue
                m.update(m2)
        return sp

    def command(self, r, med, reports=None, names=None):
        a = list(names or ["io/%d.y4m" % i for i in range(len(med))])
        reps = reports if reports is not None else [k for k in REPORTS if r.random() < 0.55]
        for k in reps:
            a += [REPORTS[k], "io/r." + k]
        if r.random() < 0.5:
            a += ["--metric", r.choice(ORDER)]
        if r.random() < 0.25:
            a += ["--quiet"]
        return a


def big(r, sp):
    """Many inputs with long names: reports of many kilobytes, which are written in several pieces."""
    del sp["media"][2:]
    n = r.choice([20, 45, 90])
    a = [x for x in sp["args"] if not re.match(r"io/\d+\.y4m$", x)]
    if "--metric" not in a:
        a += ["--metric", r.choice(ORDER)]
    sp["media"] = [sp["media"][0]] + [sp["media"][1]] * n
    long = "/".join("d" * 60 for _ in range(r.choice([1, 3, 6])))
    sp["names"] = ["io/0.y4m"] + ["io/%s/clip.y4m" % long] * n
    sp["args"] = sp["names"] + a
    m = re.search(r"disk_cap=\d+", sp["sim"])
    if m:
        sp["sim"] = sp["sim"].replace(m.group(0), "disk_cap=%d" % r.choice([4000, 8192, 8300, 12000, 16384, 20000, 40000]))
    return sp


def pipes(r, sp):
    """Some inputs are pipes, which can be read once only."""
    med = sp["media"]
    if "--metric" in sp["args"] and "--frames" not in sp["args"] and len(set(names_of(sp))) == len(med) <= 8 and r.random() < 0.2 and \
            all("bad" in m or len(media.build(m)) < 900000 for m in med):
        sp["pipes"] = [j for j in range(len(med)) if (j or len(med) == 2) and r.random() < 0.7]
    return sp


def old(r, sp):
    """Some of the report files exist already."""
    if r.random() < 0.2:
        sp["old"] = sorted(reports_of(sp["args"]).values())[:r.choice([1, 4])]
    return sp


def names_of(spec):
    return spec.get("names") or ["io/%d.y4m" % i for i in range(len(spec["media"]))]


def metrics_of(a):
    return [a[a.index("--metric") + 1]] if "--metric" in a else ORDER


def reports_of(a):
    return {k: "r." + k for k, f in REPORTS.items() if f in a}


ANSI = re.compile(r"\x1b\[[0-9;?]*[A-Za-z]")


def num_eq(x, want):
    """x: value found in a report (float or None)."""
    if math.isnan(want):
        return x is None or math.isnan(x)
    if math.isinf(want):
        return x is None or x == want
    return x == want


def read_reports(spec, r):
    """{kind: {file: {metric: [y, u, v, avg] or [avg]}}} or {kind: "problem"}"""
    out = {}
    a = spec["args"]
    for k, n in reports_of(a).items():
        t = r["files"].get(n)
        out[k] = "is missing" if t is None else parse(k, t, spec)
    if "--quiet" not in a:
        out["stdout"] = parse("txt", r["out"], spec)
    elif r["out"].strip():
        out["stdout"] = "is not empty"
    return out


def parse(kind, t, spec):
    base, files = names_of(spec)[0], names_of(spec)[1:]
    try:
        if kind == "json":
            d = json.loads(t)
            if d["base"] != base or [c["filename"] for c in d["comparisons"]] != files:
                return "names other files"
            res = []
            for c in d["comparisons"]:
                o = {}
                for m, k in KEYS.items():
                    if c.get(k) is None and k not in c:
                        continue
                    v = c[k]
                    o[m] = [v] if m == "ciede2000" else [v["y"], v["u"], v["v"], v["avg"]]
                extra = set(c) - set(KEYS.values()) - {"filename"}
                if extra:
                    return "has unknown fields %s" % sorted(extra)
                res.append(o)
            return res
        if kind in ("csv", "md"):
            ls = t.split("\n")
            if ls[-1] != "" or len(ls) < 2:
                return "does not end with a whole line"
            ls = ls[:-1]
            sep = "," if kind == "csv" else "|"
            rows = [x.split(sep) if kind == "csv" else x.strip("|").split("|") for x in ls]
            if rows[0] != ["filename"] + [KEYS[m] for m in ORDER]:
                return "has another header"
            rows = rows[1:] if kind == "csv" else rows[2:]
            if [x[0] for x in rows] != files:
                return "names other files"
            res = []
            for x in rows:
                if len(x) != 7:
                    return "has a row with %d cells" % len(x)
                res.append({m: [c] for m, c in zip(ORDER, x[1:])})
            return res
        t = ANSI.sub("", t)
        if "Comparing %s\n" % base not in t or not t.endswith("\n"):
            return "is not complete"
        parts = re.split(r"Results for ", t)[1:]
        if [p.split(":")[0].strip() for p in parts] != files:
            return "names other files"
        res = []
        for p in parts:
            o = {}
            for ln in p.split("\n")[1:]:
                ln = ln.strip()
                if not ln:
                    continue
                m = re.match(r"^(.*?)\s*→\s+(.*)$", ln)
                if not m:
                    return "has the line %r" % ln
                name = [k for k, v in TEXT.items() if v == m.group(1)]
                if not name:
                    return "has the line %r" % ln
                v = re.match(r"^Y: (\S+)\s+U/Cb: (\S+)\s+V/Cr: (\S+)\s+Avg value: (\S+)$", m.group(2)) or re.match(r"^Delta: (\S+)$", m.group(2))
                if not v:
                    return "has the line %r" % ln
                o[name[0]] = list(v.groups())
            res.append(o)
        return res
    except (ValueError, KeyError, TypeError, IndexError) as e:
        return "cannot be read (%s)" % e.__class__.__name__


def text4(v):
    if math.isnan(v):
        return "NaN"
    if math.isinf(v):
        return "inf" if v > 0 else "-inf"
    return "%.4f" % v


class C13(CliCheck):
    prop = "C13"
    quick = (20000, 120)
    rule = ("one case = one seed: one command line (1 to 3 inputs, some of them not comparable with the base, report files, metric choice, quiet, "
            "terminal with or without frame counting), 1 to 4 workers and one schedule, with short and interrupted reads and writes. "
            "Every report is compared with the library's results. Distinct = different command, schedule or fault placement; "
            "non-trivial = at least one thread switch or fault.")
    assumptions = ["the library's results (checked by C01 to C09) are what the reports have to show"]

    def gen(self, r, i):
        med = self.inputs(r)
        for j in range(1, len(med)):
            k = r.random()
            if k < 0.12:
                med[j]["w"] *= 2
            elif k < 0.2:
                med[j]["cs"] = "422" if med[j]["cs"] != "422" else "444"
            elif k < 0.26:
                med[j]["cs"] = {"420p10": "420p12", "444p10": "444p12"}.get(med[j]["cs"], "420p10")
            elif k < 0.34:
                med[j]["cut"] = len(media.header(med[j])) + r.randrange(40)
            elif k < 0.4:
                med[j].pop("noise")
        names = None
        k = r.random()
        if k < 0.3:
            # the same name in different directories, one input twice, the base as an input
            names = ["io/%s/clip.y4m" % x for x in "abcdefghijk"[:len(med)]]
            if r.random() < 0.4:
                names = [r.choice(["io/%d.y4m", "io/a/%d.y4m", "io/clip %d.y4m", "io/%d.v1.y4m", "io/%d"]) % j for j in range(len(med))]
            for j in range(2, len(med)):
                if r.random() < 0.3:
                    med[j], names[j] = med[j - 1], names[j - 1]
            if r.random() < 0.2:
                j = r.randrange(1, len(med))
                med[j], names[j] = med[0], names[0]
        a = self.command(r, med, names=names)
        tty = ""
        if r.random() < 0.3:
            tty = " tty=1"
        if r.random() < 0.25:
            a += ["--frames"]
        sim = calls.sched(r) + " stepcap=60000000 dir=io/ stdout=1" + tty
        if r.random() < 0.4:
            sim += " " + soft(r) + r.choice(["", " w_short=%d" % r.choice([5000, 40000]), " w_eintr=20000"])
        sp = dict(media=med, args=a, sim=sim, threads=r.choice([1, 2, 3, 4]))
        if names:
            sp["names"] = names
        elif r.random() < 0.01:
            big(r, sp)
        return self.ff(r, old(r, pipes(r, sp)))

    def judge(self, sp, r, probes):
        st = st_of(r)
        if st != "ended":
            return [("C13", "the tool does not end: %s" % st)]
        if r["exit"] != 0:
            return [("C13", "comparing readable files fails: exit status %s, %s" % (r["exit"], r["err"].strip().split("\n")[-1][:160]))]
        ms = metrics_of(sp["args"])
        if sp.get("ff"):
            probes["ffmpeg_builds"] = probes.get("ffmpeg_builds", 0) + 1
        if sp.get("pipes"):
            probes["pipes"] = probes.get("pipes", 0) + 1
        rep = read_reports(sp, r)
        for kind, res in rep.items():
            probes["reports"] = probes.get("reports", 0) + 1
            if isinstance(res, str):
                return [("C13", "the %s report %s" % (kind, res))]
            for i, o in enumerate(res):
                for m in ORDER:
                    want = self.library(sp, i + 1, m) if m in ms else None
                    got = o.get(m)
                    if want is None:
                        if kind in ("csv", "md"):
                            x = flt(got[0])
                            bad = x is not None and x != 0 and not math.isnan(x)
                        else:
                            bad = got is not None
                        probes["not_computed"] = probes.get("not_computed", 0) + 1
                        if bad:
                            return [("C13", "the %s report shows %s for %s, which %s" % (
                                kind, got, m, "was not asked for" if m not in ms else "could not be computed"))]
                        continue
                    if got is None:
                        return [("C13", "the %s report lacks %s" % (kind, m))]
                    probes["values"] = probes.get("values", 0) + 1
                    if kind in ("csv", "md"):
                        ok = num_eq(flt(got[0]), want[-1])
                    elif kind == "json":
                        ok = len(got) == len(want) and all(num_eq(x, y) for x, y in zip(got, want))
                    else:
                        ok = got == [text4(x) for x in want] or (len(got) == len(want) and all(
                            flt(x) is not None and abs(flt(x) - y) <= 0.5001e-4 for x, y in zip(got, want)))
                    if not ok:
                        return [("C13", "the %s report shows %s for %s, the library returns %s" % (kind, got, m, want))]
        return []


class C12(CliCheck):
    prop = "C12"
    quick = (20000, 100)
    rule = ("one case = one seed: one command line with report files and standard output on a disk that fails: open errors, EIO, ENOSPC at an "
            "arbitrary write, a disk that fills up after an arbitrary number of bytes, a closed pipe, plus short and interrupted writes. "
            "Compared with the same command's reports without faults. Distinct = different command or fault placement; non-trivial = at "
            "least one fault or thread switch.")
    assumptions = ["a write error is reported to the program by write (errors that only close or the kernel's write-back would show are not simulated)"]

    def gen(self, r, i):
        med = self.inputs(r)
        k = r.random()
        reps = [x for x in REPORTS if r.random() < 0.6] or [r.choice(list(REPORTS))]
        a = self.command(r, med, reps)
        if "--metric" not in a and r.random() < 0.7:
            a += ["--metric", r.choice(["psnr", "apsnr", "ciede2000", "ssim"])]
        k = r.random()
        f = ""
        if k < 0.2:
            f = r.choice(["w_short=%d" % r.choice([10000, 50000, 65535]), "w_eintr=%d" % r.choice([10000, 40000]), "w_short=40000 w_eintr=20000"])
        elif k < 0.35:
            f = "o_err=%d after=%d" % (r.choice([15000, 40000]), r.choice([0, 0, 0, 2, 4]))
        elif k < 0.6:
            f = "disk_cap=%d" % r.choice([1, r.randrange(1, 120), r.randrange(1, 1500)])
        else:
            f = r.choice(["w_eio=%d", "w_nospc=%d", "w_epipe=%d stdout_only=1", "w_eio=%d w_short=30000", "w_nospc=%d w_short=50000"]) % r.choice(
                [8000, 20000, 50000])
            f += " max_flt=%d" % r.choice([1, 1, 2])
        sim = "seed=%d policy=0 stepcap=60000000 dir=io/ stdout=1 %s" % (r.getrandbits(60), f)
        sp = dict(media=med, args=a, sim=sim, threads=r.choice([1, 2]))
        if r.random() < 0.05:
            big(r, sp)
        return self.ff(r, old(r, sp))

    def judge(self, sp, r, probes):
        st = st_of(r)
        if st != "ended":
            return [("C12", "the tool does not end: %s" % st)]
        ref = self.clean(sp)
        if ref["exit"] != 0 or st_of(ref) != "ended":
            return [("C12", "the tool fails without any fault: exit status %s" % ref["exit"])]
        s = r["sim"]
        hard = sum(s["faults"][i] for i in (5, 8, 9, 15))
        if r["exit"] != 0:
            probes["failed"] = probes.get("failed", 0) + 1
            if not hard:
                return [("C12", "the tool fails (exit status %s) although every write could be done: %s" % (
                    r["exit"], r["err"].strip().split("\n")[-1][:160]))]
            if not r["err"].strip():
                return [("C12", "the tool fails without saying why")]
            return []
        probes["succeeded"] = probes.get("succeeded", 0) + 1
        if hard:
            probes["succeeded_with_faults"] = probes.get("succeeded_with_faults", 0) + 1
        for n in reports_of(sp["args"]).values():
            x, y = r["files"].get(n), ref["files"].get(n)
            if x != y:
                return [("C12", "exit status 0, but the report %s %s" % (n, "is missing" if x is None else "has %d of %d bytes" % (
                    len(x), len(y or "")) if len(x) != len(y or "") else "is damaged"))]
        if r["out"] != ref["out"]:
            return [("C12", "exit status 0, but standard output has %d of %d bytes" % (len(r["out"]), len(ref["out"])))]
        return []


class C14(CliCheck):
    prop = "C14"
    quick = (20000, 100)
    rule = ("one case = one seed: one command line in which a file is missing, a directory, empty, not a y4m file or has a damaged header, or in "
            "which opening or reading a file fails. Distinct = different command or fault placement; non-trivial = every case.")

    def gen(self, r, i):
        med = self.inputs(r)
        a = self.command(r, med)
        if r.random() < 0.6 and "--metric" not in a:
            a += ["--metric", r.choice(ORDER)]
        f, tty = "", ""
        k = r.random()
        if k < 0.55:
            j = r.randrange(len(med))
            m = med[j]
            h = media.header(m)
            q = r.random()
            if q < 0.3:
                med[j] = dict(bad=r.choice(["missing", "dir", "dangling"]))
            elif q < 0.5:
                med[j] = dict(bad=r.choice([b"", b"\n", b"RIFF\0\0\0\0AVI LIST", b"YUV4MPEG\n", b"YUV4MPEG2", b"\0" * 500, b"YUV4MPEG2\n",
                                            WAV, GIF, b"YUV4MPEG2 W64 F25:1\nFRAME\n", b"YUV4MPEG2 Wx H16 F25:1\n", b"x" * 70000]).hex())
            else:
                m["cut"] = r.randrange(len(h))
        elif k < 0.75:
            f = "o_err=%d" % r.choice([8000, 30000])
        else:
            f = r.choice(["r_eio=%d", "r_sticky=%d", "r_eagain=%d"]) % r.choice([1500, 6000, 20000]) + " max_flt=%d" % r.choice([1, 1, 1000])
        if r.random() < 0.3:
            f += " " + soft(r)
        if r.random() < 0.2:
            tty = " tty=1"
            if r.random() < 0.5:
                a += ["--frames"]
        return self.ff(r, pipes(r, dict(media=med, args=a, sim="seed=%d policy=0 stepcap=60000000 dir=io/ stdout=1%s %s" % (r.getrandbits(60), tty, f),
                                        threads=r.choice([1, 2]))))

    def judge(self, sp, r, probes):
        st = st_of(r)
        if st != "ended":
            return [("C14", "the tool does not end: %s" % st)]
        s = r["sim"]
        bad = [i for i, m in enumerate(sp["media"]) if "bad" in m or ("cut" in m and m["cut"] < len(media.header(m)))]
        opens, reads = s["faults"][5], sum(s["faults"][2:5])
        if r["exit"] == 0:
            if bad:
                return [("C14", "exit status 0, although input %d cannot be read (%s)" % (bad[0], json.dumps(sp["media"][bad[0]])[:120]))]
            if opens:
                return [("C14", "exit status 0, although opening a file failed")]
            if reads:
                probes["read_error_absorbed"] = probes.get("read_error_absorbed", 0) + 1
                ref = self.clean(sp)
                if r["files"] != ref["files"] or r["out"] != ref["out"]:
                    return [("C14", "a failing read in the middle of a file is taken for its end: exit status 0 and scores of fewer frames")]
            return []
        if sp.get("pipes"):
            probes["pipe_refused"] = probes.get("pipe_refused", 0) + 1
        probes["refused"] = probes.get("refused", 0) + 1
        if r["exit"] < 0 and r["exit"] != -6:
            return [("C14", "the tool is killed by signal %d" % -r["exit"])]
        if not r["err"].strip():
            return [("C14", "the tool fails without saying why")]
        if not bad and not opens and not reads:
            return [("C14", "readable files are refused: %s" % r["err"].strip().split("\n")[-1][:160])]
        # nothing may look like a finished report
        for n, x in r["files"].items():
            if x and not (opens or reads):
                p = parse(n[2:], x, sp)
                if not isinstance(p, str):
                    return [("C14", "the tool fails, but leaves a complete report %s" % n)]
        return []


ALL = [C12, C13, C14]
