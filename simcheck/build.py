"""Builds the simulator, the harness and the command line tool from /repo's current working tree."""
import fcntl, hashlib, os, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
TARGET = "x86_64-unknown-linux-gnu"
SO = os.path.join(BUILD, "libavsim.so")


class BuildError(Exception):
    pass


def _env(mem=False):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "LD_PRELOAD", "AVSIM"))}
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="2")
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    # LLVM's thread-sanitizer pass turns every atomic operation into a call; libavsim implements the
    # calls.  Memory accesses and function entries are left alone.
    e["RUSTFLAGS"] = ("-C passes=tsan -C llvm-args=-tsan-instrument-func-entry-exit=0 "
                      "-C llvm-args=-tsan-instrument-memory-accesses=%d -C link-arg=" % mem + SO)
    if mem:
        # the attribute that makes the pass look at plain memory accesses; the runtime is still libavsim
        e["RUSTC_BOOTSTRAP"] = "1"
        e["RUSTFLAGS"] = e["RUSTFLAGS"].replace("-C passes=tsan", "-Z sanitizer=thread -Z external-clangrt -C unsafe-allow-abi-mismatch=sanitizer")
    return e


def _run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stdout.write(p.stdout[-6000:])
        raise BuildError("building %s failed" % what)


def repo_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "testfiles"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def _fresh(name, manifest, tdir, env):
    """Make cargo rebuild the workspace's crates when their contents changed, whatever the times say."""
    stamp = os.path.join(BUILD, name + ".stamp")
    cur = repo_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = None
    if old is not None and old != cur:
        for pkg in ("av-metrics", "av-metrics-decoders", "av-metrics-tool", "avh"):
            subprocess.run(["cargo", "clean", "--offline", "-p", pkg, "--target", TARGET, "--target-dir", tdir],
                           cwd=manifest, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return stamp, cur


def ensure(*what):
    """what: any of 'sim', 'harness', 'mem', 'ffmpeg', 'vs', 'cli', 'cliff', 'mkvid'.  Returns {name: path}."""
    os.makedirs(BUILD, exist_ok=True)
    out = {}
    t0 = time.time()
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(ROOT, "sim", "avsim.c")
        if not os.path.exists(SO) or os.path.getmtime(SO) < os.path.getmtime(src):
            _run(["gcc", "-O2", "-g", "-Wall", "-Wno-nonnull-compare", "-fPIC", "-shared", "-mcx16", "-o", SO + ".tmp",
                  src, "-ldl"], ROOT, dict(os.environ), "libavsim")
            os.replace(SO + ".tmp", SO)
        out["sim"] = SO
        if "mkvid" in what:
            src, exe = os.path.join(ROOT, "media", "mkvid.c"), os.path.join(BUILD, "mkvid")
            if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
                fl = subprocess.run(["pkg-config", "--cflags", "--libs", "libavformat", "libavcodec", "libavutil"],
                                    stdout=subprocess.PIPE, text=True).stdout.split()
                _run(["gcc", "-O1", "-w", src, "-o", exe + ".tmp"] + fl, ROOT, dict(os.environ), "mkvid")
                os.replace(exe + ".tmp", exe)
            out["mkvid"] = exe
        hdir = os.path.join(ROOT, "harness")
        for name, feats in (("harness", []), ("mem", []), ("ffmpeg", ["--features", "ffmpeg"]),
                            ("vs", ["--features", "vapoursynth"])):
            if name in what:
                td = os.path.join(BUILD, name)
                env = _env(name == "mem")
                if name == "vs":
                    env["RUSTFLAGS"] += " --cap-lints=warn"
                    # the library itself is the harness (harness/src/vs.rs): nothing to link
                    env["VAPOURSYNTH_LIB_DIR"] = os.path.join(BUILD, "vslib")
                    os.makedirs(env["VAPOURSYNTH_LIB_DIR"], exist_ok=True)
                    for l in ("vapoursynth", "vapoursynth-script"):
                        with open(os.path.join(env["VAPOURSYNTH_LIB_DIR"], "lib%s.a" % l), "wb") as f:
                            f.write(b"!<arch>\n")
                stamp, cur = _fresh(name, hdir, td, env)
                _run(["cargo", "build", "--offline", "--target", TARGET, "--target-dir", td] + feats, hdir, env, name)
                open(stamp, "w").write(cur)
                out[name] = os.path.join(td, TARGET, "debug", "avh")
        for name, feats in (("cli", []), ("cliff", ["--features", "ffmpeg"])):
            if name not in what:
                continue
            td = os.path.join(BUILD, name)
            env = _env()
            stamp, cur = _fresh(name, REPO, td, env)
            before = open(os.path.join(REPO, "Cargo.lock"), "rb").read()
            try:
                _run(["cargo", "build", "--offline", "--locked", "-p", "av-metrics-tool", "--target", TARGET,
                      "--target-dir", td] + feats, REPO, env, name)
            finally:
                if open(os.path.join(REPO, "Cargo.lock"), "rb").read() != before:
                    open(os.path.join(REPO, "Cargo.lock"), "wb").write(before)
            open(stamp, "w").write(cur)
            out[name] = os.path.join(td, TARGET, "debug", "av-metrics-tool")
    out["seconds"] = time.time() - t0
    return out


if __name__ == "__main__":
    print(ensure(*(sys.argv[1:] or ["harness", "ffmpeg", "cli", "cliff", "mkvid"])))
