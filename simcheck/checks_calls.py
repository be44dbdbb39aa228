"""C01..C09: checks whose runs are metric calls inside the harness process."""
import copy, json, os, re
from . import calls
from .driver import Check
from .zyg import Zyg, status


class ZygCheck(Check):
    binary = "harness"
    real = ["av_metrics (all of it)", "rayon, rayon-core, crossbeam, std threads/locks/channels (every atomic operation of "
            "them is a scheduling point)"]
    stub = ["thread scheduler, clocks, sleeps, randomness (libavsim)"]

    def open(self, paths, scratch):
        self.paths, self.scratch = paths, scratch
        self.z = Zyg(paths[self.binary], paths["sim"])
        self.zm = Zyg(paths["mem"], paths["sim"]) if "mem" in paths else None
        self.zr = None

    def refz(self):
        if self.zr is None:
            self.zr = Zyg(self.paths[self.binary], self.paths["sim"])
        return self.zr

    def prepare(self, spec):
        """Turns the stored description into what the harness takes (paths, trace files)."""
        sp = {k: v for k, v in spec.items() if k not in ("replay", "media", "mem")}
        if spec.get("mem"):
            sp["sim"] += " mem=%d" % spec["mem"]
        if sp.get("op") == "calls" and "stepcap" not in sp["sim"]:
            # "bounded" has to allow for the work there is: many workers contend for every frame
            n = sum(min(sp["decs"][k["d"][0]].get("len", 200), 4000) for t in sp["threads"] for k in t["calls"])
            w = max([sp["global"]] + sp["pools"])
            sp["sim"] += " stepcap=%d" % max(20000000, 400 * n * (w + 4) ** 2)
        if "replay" in spec:
            t = os.path.join(self.scratch, "trace")
            with open(t, "w") as f:
                for a, b in spec["replay"]["S"]:
                    f.write("S %d %d\n" % (a, b))
                for x in spec["replay"]["F"]:
                    f.write("F %d %d %d %d\n" % tuple(x))
            sp["sim"] = sp["sim"] + " trace=" + t
        return sp

    def run(self, spec, fresh=False):
        z = self.zm if "mem" in spec else self.z
        if fresh:
            z.close()
        if z.runs > 3000:
            z.close()
            z.runs = 0
        return z.run(self.prepare(spec))

    def close(self):
        self.z.close()
        if self.zm:
            self.zm.close()
        if self.zr:
            self.zr.close()


def memory_probe(spec, res, probes):
    if "mem" in spec and res.get("sim"):
        probes["runs_with_memory_points"] = probes.get("runs_with_memory_points", 0) + 1
        probes["memory_points"] = probes.get("memory_points", 0) + res["sim"]["io"][15]


def strip_opts(sim, keep=r"^(seed|policy|gap|pctd|pctlen|victims|starve|dir|stdin|max_flt|r_\w+)="):
    return " ".join(x for x in sim.split() if re.match(keep, x))


def shrink_sim(sp):
    s = sp["sim"]
    if "mem" in sp:
        for m in (None, 0):
            if sp["mem"] != m:
                c = copy.deepcopy(sp)
                c["mem"] = m
                if m is None:
                    c.pop("mem")
                yield c
    c = copy.deepcopy(sp)
    c["sim"] = strip_opts(s, r"^(seed|dir|stdin|tty|stdout|r_\w+|at_\w+|w_\w+|o_\w+|t_\w+|max_flt|after|disk_cap)=") + " policy=0"
    if c["sim"] != s:
        yield c
    for o in s.split():
        if re.match(r"^(spur|wake|stall|stall_len|pause|r_\w+|at_\w+|w_\w+|o_\w+|t_\w+|after|disk_cap|pctd|starve)=", o):
            c = copy.deepcopy(sp)
            c["sim"] = " ".join(x for x in s.split() if x != o)
            yield c


class CallsCheck(ZygCheck):
    stub = ZygCheck.stub + ["decoders: generated clips with scripted failures and delays (through the Decoder trait)"]
    generator = None
    builds = ("harness", "mem")
    mem = 0.05

    def open(self, paths, scratch):
        super().open(paths, scratch)
        self.refs = calls.Refs(self.refz())

    def gen(self, r, i):
        return calls.memory(r, self.generator(r), self.mem)

    def judge(self, spec, res, probes):
        memory_probe(spec, res, probes)
        return calls.evaluate(spec, res, self.refs, probes)

    def info(self, spec, res):
        s = res.get("sim") or {}
        return json.dumps([s.get("hash"), [(d.get("len"), d.get("faults")) for d in spec["decs"]],
                           [[c["metric"], c["limit"]] for t in spec["threads"] for c in t["calls"]]]), s.get("switches", 0) > 1

    def shrink(self, sp):
        # fewer calls
        allc = [(ti, ci) for ti, t in enumerate(sp["threads"]) for ci in range(len(t["calls"]))]
        if len(allc) > 1:
            for ti, ci in allc:
                c = copy.deepcopy(sp)
                c["threads"][ti]["calls"].pop(ci)
                c["threads"] = [t for t in c["threads"] if t["calls"]]
                used = sorted({d for t in c["threads"] for k in t["calls"] for d in k["d"]})
                c["decs"] = [c["decs"][d] for d in used]
                n = 0
                for t in c["threads"]:
                    for k in t["calls"]:
                        k["d"] = [used.index(d) for d in k["d"]]
                        k["id"] = n
                        n += 1
                yield c
        if sp["pools"]:
            c = copy.deepcopy(sp)
            c["pools"] = []
            for t in c["threads"]:
                t["pool"] = -1
            for d in c["decs"]:
                if d.get("pool_work", -2) >= 0:
                    d.pop("pool_work")
            yield c
        for g in (1, 2, 3):
            if sp["global"] > g:
                yield dict(copy.deepcopy(sp), **{"global": g})
        yield from shrink_sim(sp)
        for i, d in enumerate(sp["decs"]):
            for k in ("delay", "points", "pool_work", "depth_decl", "chroma_decl"):
                if k in d:
                    c = copy.deepcopy(sp)
                    c["decs"][i].pop(k)
                    yield c
            for j in range(len(d.get("faults", []))):
                c = copy.deepcopy(sp)
                c["decs"][i]["faults"].pop(j)
                yield c
                if d["faults"][j][0] > 0:
                    c = copy.deepcopy(sp)
                    c["decs"][i]["faults"][j][0] //= 2
                    yield c
        lens = [d.get("len", 4) for d in sp["decs"]]
        for i in range(0, len(lens), 2):
            for f in (lambda x: x // 2, lambda x: x - 1):
                c = copy.deepcopy(sp)
                for j in (i, i + 1):
                    c["decs"][j]["len"] = max(0, f(lens[j]))
                if [d["len"] for d in c["decs"]] != lens:
                    yield c
        for ti, t in enumerate(sp["threads"]):
            if "start" in t:
                c = copy.deepcopy(sp)
                c["threads"][ti].pop("start")
                yield c
        for ti, ci in allc:
            k = sp["threads"][ti]["calls"][ci]
            if "start" in k:
                c = copy.deepcopy(sp)
                c["threads"][ti]["calls"][ci].pop("start")
                yield c
            if k.get("limit") is not None:
                c = copy.deepcopy(sp)
                c["threads"][ti]["calls"][ci]["limit"] = None
                yield c
                if k["limit"] > 0:
                    c = copy.deepcopy(sp)
                    c["threads"][ti]["calls"][ci]["limit"] = k["limit"] // 2
                    yield c
            if "cb" in k:
                c = copy.deepcopy(sp)
                c["threads"][ti]["calls"][ci].pop("cb")
                yield c
            if k["metric"] != "psnr":
                c = copy.deepcopy(sp)
                c["threads"][ti]["calls"][ci]["metric"] = "psnr"
                yield c


def _mk(pid, g, rule, **kw):
    body = dict(prop=pid, generator=staticmethod(g), rule=rule)
    body.update(kw)
    return type(pid, (CallsCheck,), body)


_R = ("one case = one seed: a generated %s, plus one simulated execution of it (scheduler policy, preemption density, starved or "
      "stalled threads, spurious and reordered wake-ups all drawn from the seed). Distinct = different (schedule hash, workload); "
      "non-trivial = more than one thread switch.")

C01 = _mk("C01", calls.gen_c01, _R % "clip pair (2-19 frames), metric and worker count (1-8, global or private pool)", mem=0.15)
C02 = _mk("C02", calls.gen_c02, _R % "clip pair (0-17 frames each, equal or unequal), metric, frame limit and worker count", mem=0.1)
C03 = _mk("C03", calls.gen_c03, _R % "clip pair, metric, limit, slow or failing callback, possibly a failing decoder")
C04 = _mk("C04", calls.gen_c04, _R % "call or set of calls: failures at any frame, huge limits, decoders using other pools, "
          "failing thread creation, concurrent calls")
C05 = _mk("C05", calls.gen_c05, _R % "call with one or two failures (decoder panic, frame of other dimensions, callback panic, "
          "mismatched clips, unsupported depth, empty clip) placed at any frame")
C06 = _mk("C06", calls.gen_c06, _R % "long clip pair (20-89 frames) with slow workers, possibly a failure", quick=(5000, 75))
C07 = _mk("C07", calls.gen_c07, _R % "sequence of up to four limited calls on the same two decoders")
C08 = _mk("C08", calls.gen_c08, _R % "set of 2-4 calls on 2-4 threads or nested in one pool, sharing pools; some fail", quick=(6000, 90), mem=0.15)


class C09(ZygCheck):
    prop = "C09"
    builds = ("harness", "mem")
    quick = (6000, 75)
    rule = _R % "set of frame-level metric calls on 2-4 threads or pool workers"
    stub = ZygCheck.stub + ["frames: generated pictures"]

    def open(self, paths, scratch):
        super().open(paths, scratch)
        self.refs = calls.Refs(self.refz())

    def gen(self, r, i):
        n = r.choice([2, 2, 3, 4])
        th = []
        same = r.choice(calls.METRICS) if r.random() < 0.6 else None
        shared = None
        tall = r.random() < 0.15
        if tall and r.random() < 0.6:
            same = "ssim"
        for _ in range(n):
            jobs = []
            for _ in range(r.randrange(1, 4)):
                m = same or r.choice(calls.METRICS)
                a, b = calls.pair(r, m, 1, 1)
                if tall and m == "ssim":
                    # sizes that have only one dimension in common; narrow ones limit the window
                    wh = r.choice([(8, 512), (64, 512), (16, 512), (64, 256), (8, 256), (8, 16)])
                    for d in (a, b):
                        d.update(w=wh[0], h=wh[1], depth=8, seed=1, chroma="420")
                if shared and shared[0] == m and r.random() < 0.4:
                    a, b = shared[1:]
                else:
                    shared = (m, a, b)
                k = r.randrange(4)
                jobs.append(dict(m=m, a=calls.strip(a), b=calls.strip(b), ka=k, kb=k))
                if r.random() < 0.12:      # a job that fails must not disturb the others
                    f = r.randrange(3)
                    if f == 0:
                        jobs[-1]["b"] = dict(jobs[-1]["b"], w=jobs[-1]["a"]["w"] + 128)
                    elif f == 1:
                        jobs[-1]["b"] = dict(jobs[-1]["b"], h=jobs[-1]["a"]["h"] + 8)
                    else:
                        jobs[-1].update(m=r.choice(["ciede", "ciede_nosimd"]), a=dict(jobs[-1]["a"], depth=9, w=64), b=dict(jobs[-1]["b"], depth=9, w=64))
            th.append(jobs)
        if r.random() < 0.3:
            # few pictures, each used by several of the comparisons (the same one twice, either way round)
            pool = [j for t in th for j in t]
            one = pool[r.randrange(len(pool))]
            for t in th:
                for j in t:
                    if r.random() < 0.7:
                        j["m"] = r.choice([one["m"], one["m"], j["m"]]) if one["m"].split("_")[0] == j["m"].split("_")[0] else one["m"]
                        j.update(a=one["a"], b=one["b"], ka=one["ka"], kb=one["kb"])
                        k = r.random()
                        if k < 0.3:
                            j.update(a=one["b"], b=one["a"])
                        elif k < 0.45:
                            j.update(b=one["a"])
        return calls.memory(r, dict(op="frames", sim=calls.sched(r), threads=th, inpool=r.random() < 0.3, shared=r.random() < 0.5,
                                    **{"global": r.choice([1, 2, 3, 4, 6])}), 0.4)

    def judge(self, sp, r, probes):
        st = status(r)
        if st != "done":
            return [("C09", "frame-level calls do not complete: %s" % st)]
        memory_probe(sp, r, probes)
        out = []
        for t, jobs in enumerate(sp["threads"]):
            got = r["res"]["out"][t]
            if got is None or len(got) != len(jobs):
                out.append(("C09", "thread %d: missing results" % t))
                continue
            for j, g in zip(jobs, got):
                ref = self.refs.frames(j["m"] if j["m"] != "apsnr" else "psnr", j["a"], j["b"], [(j["ka"], j["kb"])]) \
                    if j["a"]["w"] == j["b"]["w"] and j["a"]["h"] == j["b"]["h"] else None
                if ref is None:
                    if "ok" in g:
                        out.append(("C09", "%s accepts frames of different dimensions" % j["m"]))
                    else:
                        probes["rejected"] = probes.get("rejected", 0) + 1
                    continue
                if sp.get("shared"):
                    probes["scores_of_shared_frames"] = probes.get("scores_of_shared_frames", 0) + 1
                probes["frame_scores"] = probes.get("frame_scores", 0) + 1
                if g != ref[0][0]:
                    out.append(("C09", "%s of frame %d gives %s; called alone it gives %s" % (j["m"], j["ka"], json.dumps(g), json.dumps(ref[0][0]))))
        return out

    def shrink(self, sp):
        for t in range(len(sp["threads"])):
            if len(sp["threads"]) > 1:
                c = copy.deepcopy(sp)
                c["threads"].pop(t)
                yield c
            for j in range(len(sp["threads"][t])):
                if len(sp["threads"][t]) > 1:
                    c = copy.deepcopy(sp)
                    c["threads"][t].pop(j)
                    yield c
        for g in (1, 2):
            if sp["global"] > g:
                yield dict(copy.deepcopy(sp), **{"global": g})
        if sp.get("shared"):
            yield dict(copy.deepcopy(sp), shared=False)
        if sp["inpool"]:
            yield dict(copy.deepcopy(sp), inpool=False)
        yield from shrink_sim(sp)


ALL = [C01, C02, C03, C04, C05, C06, C07, C08, C09]
