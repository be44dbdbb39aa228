"""Talks to one harness process, which forks a child per run."""
import json, os, select, signal, subprocess

STATUS = {0: "none", 1: "running", 2: "done", 3: "deadlock", 4: "step-cap", 5: "spin", 6: "limit", 7: "bad-config"}
FAULT_NAMES = ["read_eintr", "read_short", "read_eio", "read_eio_sticky", "read_eagain", "open_error", "write_eintr",
               "write_short", "write_eio", "write_enospc", "thread_create_fail", "spurious_wakeup", "thread_stall",
               "wake_order", "thread_pause", "write_epipe"]


class Zyg:
    def __init__(self, binary, so):
        self.binary, self.so = binary, so
        self.p = None
        self.runs = 0

    def _spawn(self):
        env = {"PATH": "/usr/bin:/bin", "LD_PRELOAD": self.so, "RUST_BACKTRACE": "0", "HOME": "/tmp", "LC_ALL": "C"}
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, start_new_session=True)

    def run(self, spec):
        """Returns {exit, hung, res, sim}; never raises for what the code under test does."""
        for attempt in range(3):
            if self.p is None or self.p.poll() is not None:
                self._spawn()
            try:
                self.p.stdin.write((json.dumps(spec) + "\n").encode())
                self.p.stdin.flush()
                r, _, _ = select.select([self.p.stdout], [], [], spec.get("wall_ms", 60000) / 1000.0 + 30)
                line = self.p.stdout.readline() if r else b""
                if line:
                    self.runs += 1
                    return json.loads(line)
            except (BrokenPipeError, OSError, ValueError):
                pass
            self.close()
        raise RuntimeError("harness process does not answer")

    def close(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            try:
                os.unlink("/dev/shm/avsim.%d" % self.p.pid)
            except OSError:
                pass
            self.p = None


def status(r):
    if r.get("hung"):
        return "hung"
    s = r.get("sim")
    if not s:
        return "done" if r.get("res") is not None else "crash"
    st = STATUS.get(s["status"], "?")
    if st in ("done", "running", "none") and r.get("res") is None:
        return "crash"          # the child ended (abort, signal, exit) without giving a result
    return st
