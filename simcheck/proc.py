"""Runs a whole program as one simulated run (LD_PRELOAD), in its own scratch directory."""
import os, re, resource, signal, struct, subprocess

HDR = ["magic", "status", "steps", "switches", "preempt", "nthreads", "futex_waits", "futex_wakes", "yields", "forced", "simtime",
       "hash", "atomics", "clockreads", "sleeps", "exitcode", "max_runnable", "io_hash"]


def read_shm(path, trace):
    with open(path, "rb") as f:
        b = f.read(69 * 8 + 512)
        if len(b) < 69 * 8 + 512:
            return None
        u = struct.unpack("<69Q", b[:69 * 8])
        s = dict(zip(HDR, u))
        s["hash"], s["io_hash"] = "%016x" % u[11], "%016x" % u[17]
        s["faults"], s["io"] = list(u[18:50]), list(u[50:66])
        s["ndev"], s["nflt"], s["devlost"] = u[66:69]
        s["note"] = b[69 * 8:].split(b"\0")[0].decode("latin1")
        if trace:
            x = f.read(s["nflt"] * 16)
            s["F"] = [list(struct.unpack_from("<4I", x, i * 16)) for i in range(len(x) // 16)]
            f.seek(69 * 8 + 512 + 65536 * 16)
            x = f.read(s["ndev"] * 8)
            s["S"] = [list(struct.unpack_from("<2I", x, i * 8)) for i in range(len(x) // 8)]
        return s


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))


def run(binary, so, args, cwd, sim, env=None, trace=False, wall=60, stdin=None, fds=()):
    """sim: simulator configuration, or None for a plain run."""
    shm = "/dev/shm/avsim.%d.p" % os.getpid()
    e = {"PATH": "/usr/bin:/bin", "HOME": cwd, "LC_ALL": "C", "RUST_BACKTRACE": "0", "TERM": "xterm"}
    e.update(env or {})
    if sim is not None:
        e["LD_PRELOAD"] = so
        e["AVSIM_CFG"] = "%s out=%s" % (sim, shm)
    hung = False
    with open(os.path.join(cwd, "stdout"), "wb") as o, open(os.path.join(cwd, "stderr"), "wb") as er, \
            open(stdin or "/dev/null", "rb") as i:
        p = subprocess.Popen([binary] + args, cwd=cwd, stdin=i, stdout=o, stderr=er, env=e, preexec_fn=_limits, pass_fds=fds, start_new_session=True)
        try:
            p.wait(wall)
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    s = None
    if sim is not None:
        try:
            s = read_shm(shm, trace)
            os.unlink(shm)
        except OSError:
            pass
    rd = lambda n: open(os.path.join(cwd, n), "rb").read()
    return dict(exit=p.returncode, hung=hung, out=rd("stdout").decode("utf8", "replace"), err=re.sub(r"\(\d+\) panicked", "panicked", re.sub(r" @ 0x[0-9a-f]+\]", "]", rd("stderr").decode("utf8", "replace")))[-2000:],
                sim=s)
