"""Runs one check: seeded search over simulated runs on all cores, confirmation, minimisation, evidence."""
import copy, hashlib, json, multiprocessing as mp, os, queue, random, re, shutil, sys, tempfile, time, traceback
from . import build
from .zyg import FAULT_NAMES

ROOT = build.ROOT
WORKERS = 8


class Check:
    """One property's workload and oracle.  `run` must be a pure function of the spec."""
    prop = None
    builds = ("harness",)
    quick = (8000, 75)            # runs, seconds
    thorough = (400000, 900)
    rule = ""
    real, stub, assumptions = [], [], []
    level = "exploration"

    def open(self, paths, scratch):
        pass

    def gen(self, r, i):
        raise NotImplementedError

    def run(self, spec, fresh=False):
        raise NotImplementedError

    def judge(self, spec, res, probes):
        return []

    def shrink(self, spec):
        return iter(())

    def info(self, spec, res):
        """(key that tells executions apart, non-trivial?)"""
        s = res.get("sim") or {}
        return "%s/%s" % (s.get("hash"), s.get("io_hash")), s.get("switches", 0) > 0 or sum(s.get("faults", [0])) > 0

    def sims(self, res):
        s = res.get("sim")
        return [s] if s else []

    def close(self):
        pass


def rng(seed, prop, i):
    return random.Random("%s/%s/%d" % (seed, prop, i))


def result_key(check, res):
    x = {k: v for k, v in res.items() if k not in ("sim", "wall")}
    sims = [[s.get(k) for k in ("status", "steps", "hash", "io_hash", "simtime", "faults", "io")] for s in check.sims(res)]
    return hashlib.sha1(json.dumps([x, sims], sort_keys=True, default=str).encode()).hexdigest()


def known_findings():
    out = []
    try:
        for ln in open(os.path.join(ROOT, "known_findings.txt")):
            ln = ln.strip()
            if ln.startswith("{"):
                out.append(json.loads(ln))
    except OSError:
        pass
    return out


def match_known(kf, check, spec, msg):
    for k in kf:
        if k.get("kind") == "finding" and k["property"] == check.prop and re.search(k["match"], msg):
            return k
    return None


def worker(w, cls, paths, scratch, seed, total, deadline, stop, out, kf):
    st = dict(n=0, keys={}, faults=[0] * 32, steps=0, simtime=0, switches=0, preempt=0, forced=0, status={}, probes={},
              samples=[], known={}, redo=0, redo_bad=0, unrepro=0, other={}, maxthr=0, io=[0] * 16, err=None, wait=0)
    check = cls()
    sc = os.path.join(scratch, "w%d" % w)
    os.makedirs(sc, exist_ok=True)
    try:
        check.open(paths, sc)
        for i in range(w, total, WORKERS):
            if stop.is_set() or time.time() > deadline:
                break
            spec = check.gen(rng(seed, check.prop, i), i)
            res = check.run(spec)
            st["n"] += 1
            for s in check.sims(res):
                for k in range(32):
                    st["faults"][k] += s["faults"][k]
                for k in range(16):
                    st["io"][k] += s["io"][k]
                for k in ("steps", "simtime", "switches", "preempt", "forced"):
                    st[k] += s[k]
                st["maxthr"] = max(st["maxthr"], s["max_runnable"])
                st["status"][str(s["status"])] = st["status"].get(str(s["status"]), 0) + 1
            key, nontriv = check.info(spec, res)
            if nontriv:
                st["keys"][hashlib.sha1(key.encode()).digest()[:8]] = 1
            if len(st["samples"]) < 1 and nontriv:
                st["samples"].append(dict(run=i, spec=spec, schedule=[s.get("hash") for s in check.sims(res)],
                                          steps=[s.get("steps") for s in check.sims(res)]))
            vs = check.judge(spec, res, st["probes"])
            mine = []
            for p, m in vs:
                if p == check.prop:
                    k = match_known(kf, check, spec, m)
                    if k:
                        st["known"].setdefault(k["id"], [0, m])[0] += 1
                    else:
                        mine.append(m)
                else:
                    st["other"][p] = st["other"].get(p, 0) + 1
            if mine:
                # must show the same way in a new process before anything is said about it
                good = 0
                for _ in range(2):
                    r2 = check.run(spec, fresh=True)
                    if mine[0] in [m for p, m in check.judge(spec, r2, {}) if p == check.prop]:
                        good += 1
                if good == 2:
                    out.put(("violation", w, i, spec, mine[0]))
                    stop.set()
                    break
                st["unrepro"] += 1
            elif i % 61 == w:
                r2 = check.run(spec, fresh=(st["redo"] % 8 == 0))
                st["redo"] += 1
                if result_key(check, res) != result_key(check, r2):
                    st["redo_bad"] += 1
                    if "redo_ex" not in st:
                        st["redo_ex"] = spec
    except Exception:
        st["err"] = traceback.format_exc()
    finally:
        try:
            check.close()
        except Exception:
            pass
    out.put(("stats", w, st))


def reproduces(check, spec, fresh=False):
    r = check.run(spec, fresh=fresh)
    for p, m in check.judge(spec, r, {}):
        if p == check.prop:
            return m, r
    return None, r


def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        cut = False
        i = 0
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                cut = True
            else:
                i += size
        if not cut:
            if size == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(n - 1, 2)
    return items


def minimise(check, spec, msg, budget=75):
    t0 = time.time()
    end = t0 + budget
    runs = 0
    progress = True
    while progress and time.time() < t0 + budget * 0.6:
        progress = False
        for cand in check.shrink(copy.deepcopy(spec)):
            if time.time() > t0 + budget * 0.6:
                break
            hit = None
            for k in range(4):
                c = copy.deepcopy(cand)
                if k and "sim" in c:
                    c["sim"] = re.sub(r"^seed=\d+", "seed=%d" % k, c["sim"])
                runs += 1
                m, _ = reproduces(check, c)
                if m:
                    hit = (c, m)
                    break
            if hit:
                spec, msg = hit
                progress = True
                break
    # the schedule and the faults themselves
    out = dict(spec=spec, trace=None)
    if getattr(check, "traceable", True):
        t = dict(copy.deepcopy(spec), trace=True)
        m, r = reproduces(check, t)
        s = check.sims(r)[-1] if check.sims(r) else None
        if m and s and not s.get("devlost") and "S" in s:
            S, F = [list(x) for x in s["S"]], [list(x) for x in s["F"]]

            def test(S_, F_):
                c = copy.deepcopy(spec)
                c["replay"] = dict(S=S_, F=F_)
                return reproduces(check, c)[0]
            full = len(S), len(F)
            if test(S, F):
                F = ddmin(F, lambda f: test(S, f), t0 + budget * 0.7)
                S = ddmin(S, lambda x: test(x, F), end)
                m2 = test(S, F)
                if m2:
                    out["trace"] = dict(S=S, F=F, recorded=full)
                    msg = m2
    out["msg"] = msg
    out["seconds"] = round(time.time() - t0, 1)
    out["runs"] = runs
    return out


def write_replay(check, mi):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    spec = copy.deepcopy(mi["spec"])
    if mi["trace"]:
        spec["replay"] = dict(S=mi["trace"]["S"], F=mi["trace"]["F"])
    body = dict(property=check.prop, message=mi["msg"], spec=spec,
                note="spec.replay: S = at step, run thread; F = site, index, fault kind, argument" if mi["trace"] else
                "the seed in spec.sim decides every scheduling choice and fault")
    p = os.path.join(d, "%s-%s.json" % (check.prop, hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        json.dump(body, f, indent=1)
    return p


def fault_summary(f):
    return {n: f[i] for i, n in enumerate(FAULT_NAMES) if f[i]}


def run_check(cls, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    paths = build.ensure(*cls.builds)
    tb = time.time()
    total, secs = cls.thorough if tier == "thorough" else cls.quick
    if os.environ.get("VERIF_RUNS"):
        total = int(os.environ["VERIF_RUNS"])
    if os.environ.get("VERIF_SECONDS"):
        secs = float(os.environ["VERIF_SECONDS"])
        if not os.environ.get("VERIF_RUNS"):
            total = 1 << 40
    scratch = tempfile.mkdtemp(prefix="avcheck.")
    kf = known_findings()
    ctx = mp.get_context("fork")
    stop, out = ctx.Event(), ctx.Queue()
    print("check %s: tier %s, VERIF_SEED %d, built in %.1f s, up to %d runs in %d s" % (cls.prop, tier, seed, tb - t0, total, secs), flush=True)
    try:
        ps = [ctx.Process(target=worker, args=(w, cls, paths, scratch, seed, total, tb + secs, stop, out, kf), daemon=True)
              for w in range(WORKERS)]
        for p in ps:
            p.start()
        stats, viol = {}, []
        hard = tb + secs + 240
        while len(stats) < WORKERS:
            try:
                m = out.get(timeout=5)
            except queue.Empty:
                if time.time() > hard or not any(p.is_alive() for p in ps):
                    if len(stats) < WORKERS:
                        print("check error: a worker did not report")
                        for p in ps:
                            p.kill()
                        return 2
                continue
            if m[0] == "stats":
                stats[m[1]] = m[2]
            else:
                viol.append(m)
        for p in ps:
            p.join(10)
        sim_wall = time.time() - tb
        errs = [s["err"] for s in stats.values() if s["err"]]
        if errs and not viol:
            print("check error:\n" + errs[0])
            return 2
        agg = dict(n=0, faults=[0] * 32, steps=0, simtime=0, switches=0, preempt=0, redo=0, redo_bad=0, unrepro=0, maxthr=0, forced=0)
        keys, probes, status, known, other, samples, io = {}, {}, {}, {}, {}, [], [0] * 16
        for w in sorted(stats):
            s = stats[w]
            for k in agg:
                if k == "faults":
                    agg[k] = [a + b for a, b in zip(agg[k], s[k])]
                elif k == "maxthr":
                    agg[k] = max(agg[k], s[k])
                else:
                    agg[k] += s[k]
            io = [a + b for a, b in zip(io, s["io"])]
            keys.update(s["keys"])
            for k, v in s["probes"].items():
                probes[k] = max(probes.get(k, 0), v) if k.startswith("peak") else probes.get(k, 0) + v
            for k, v in s["status"].items():
                status[k] = status.get(k, 0) + v
            for k, v in s["other"].items():
                other[k] = other.get(k, 0) + v
            for k, v in s["known"].items():
                known.setdefault(k, [0, v[1]])[0] += v[0]
            samples += s["samples"]
        rc = 0
        violmsg = None
        if viol:
            viol.sort(key=lambda v: v[2])
            _, w, i, spec, msg = viol[0]
            check = cls()
            sc = os.path.join(scratch, "min")
            os.makedirs(sc, exist_ok=True)
            check.open(paths, sc)
            try:
                mi = minimise(check, spec, msg, 60 if tier == "quick" else 240)
                rp = write_replay(check, mi)
                ok = [reproduces(check, json.load(open(rp))["spec"], fresh=True)[0] for _ in range(2)]
                if not all(ok):            # keep the unminimised one, which has already been confirmed
                    mi = dict(spec=spec, trace=None, msg=msg, seconds=0, runs=0)
                    rp = write_replay(check, mi)
            finally:
                check.close()
            violmsg = mi["msg"]
            print("run %d of seed %d: %s" % (i, seed, msg))
            print("minimised in %.0f s to: %s" % (mi["seconds"], json.dumps(mi["spec"])[:900]))
            if mi["trace"]:
                print("schedule: %d forced switches (of %d), %d faults (of %d)" % (
                    len(mi["trace"]["S"]), mi["trace"]["recorded"][0], len(mi["trace"]["F"]), mi["trace"]["recorded"][1]))
            print("what fails: " + violmsg)
            print("VIOLATION property=%s replay=%s" % (cls.prop, os.path.relpath(rp, ROOT)), flush=True)
            rc = 1
        for k in kf:
            if k.get("kind") == "finding" and k["property"] == cls.prop:
                n = known.get(k["id"], [0])[0]
                print("KNOWN-FINDING: property=%s %s (seen in %d runs)" % (cls.prop, k["what"], n))
        wall = time.time() - t0
        ev = dict(property=cls.prop, tier=tier, seed=seed, level=cls.level, wall_s=round(wall, 2), violations=1 if viol else 0,
                  assumptions=cls.assumptions,
                  coverage=dict(
                      evaluations=agg["n"], distinct_nontrivial=len(keys), rule=cls.rule,
                      samples=samples[:3],
                      runs_per_hour=int(agg["n"] / max(sim_wall, 0.001) * 3600), seeds_per_hour=int(agg["n"] / max(sim_wall, 0.001) * 3600),
                      build_s=round(tb - t0, 1), search_s=round(sim_wall, 1),
                      simulated_seconds=round(agg["simtime"] / 1e9, 3), scheduling_points=agg["steps"],
                      thread_switches=agg["switches"], preemptions=agg["preempt"], max_runnable_threads=agg["maxthr"],
                      faults_injected=fault_summary(agg["faults"]), io_events={n: io[i] for i, n in enumerate(
                          ["open", "read", "write", "read_stdin", "write_stdout"]) if io[i]},
                      run_status={{"2": "completed", "3": "deadlock", "4": "step-cap", "5": "spin", "1": "ended-early"}.get(k, k): v
                                  for k, v in status.items()},
                      probes=probes, determinism_reruns=agg["redo"], determinism_mismatches=agg["redo_bad"],
                      unreproducible_reports=agg["unrepro"], seen_for_other_properties=other,
                      known_findings_seen={k: v[0] for k, v in known.items()},
                      components_real=cls.real, components_stub=cls.stub))
        if violmsg:
            ev["coverage"]["violation"] = violmsg
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", cls.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for s in stats.values():
            if "redo_ex" in s:
                print("note: a repeated run differed: %s" % json.dumps(s["redo_ex"])[:600])
                break
        print("%s: %d runs, %d distinct, %.1f s searching, faults %s, probes %s, reruns %d (%d differed), unreproducible %d, other %s" % (
            cls.prop, agg["n"], len(keys), sim_wall, fault_summary(agg["faults"]), probes, agg["redo"], agg["redo_bad"], agg["unrepro"], other))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay_file(classes, path):
    b = json.load(open(path))
    cls = classes[b["property"]]
    paths = build.ensure(*cls.builds)
    scratch = tempfile.mkdtemp(prefix="avcheck.")
    check = cls()
    try:
        os.makedirs(os.path.join(scratch, "replay"))
        check.open(paths, os.path.join(scratch, "replay"))
        m, r = reproduces(check, b["spec"], fresh=True)
    finally:
        check.close()
        shutil.rmtree(scratch, ignore_errors=True)
    for s in check.sims(r):
        print("steps %s, switches %s, schedule hash %s, faults %s" % (s["steps"], s["switches"], s["hash"], fault_summary(s["faults"])))
    if m:
        print("what fails: " + m)
        print("VIOLATION property=%s replay=%s" % (cls.prop, path))
        return 1
    print("the recorded run no longer breaks %s" % cls.prop)
    return 0
