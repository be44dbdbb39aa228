//! avh: runs av-metrics' real code under the avsim scheduler, one forked child per run.
//!
//! Protocol (fd 0 / fd 1 of the process): one JSON run description per line in, one JSON result per
//! line out.  The description's "sim" string configures the simulator (absent: plain execution).
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]

mod calls;
mod dec;
mod sim;
mod units;
#[cfg(feature = "vapoursynth")]
mod vs;

use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};

// ---- plane accounting: v_frame allocates every plane's pixels 64-byte aligned; nothing else does
pub static mut LIVE: i64 = 0;
pub static mut PEAK: i64 = 0;
pub static mut ALLOCS: i64 = 0;
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() == 64 && sim::managed() {
            sim::hold(true);
            LIVE += 1;
            ALLOCS += 1;
            if LIVE > PEAK {
                PEAK = LIVE;
            }
            sim::hold(false);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() == 64 && sim::managed() {
            sim::hold(true);
            LIVE -= 1;
            sim::hold(false);
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

// ---- raw control channel
fn read_line(fd: i32, buf: &mut Vec<u8>) -> Option<String> {
    loop {
        if let Some(i) = buf.iter().position(|&b| b == b'\n') {
            let rest = buf.split_off(i + 1);
            let line = std::mem::replace(buf, rest);
            return String::from_utf8(line).ok();
        }
        let mut tmp = [0u8; 65536];
        let n = unsafe { libc::read(fd, tmp.as_mut_ptr() as *mut _, tmp.len()) };
        if n <= 0 {
            return None;
        }
        buf.extend_from_slice(&tmp[..n as usize]);
    }
}
fn write_all(fd: i32, mut s: &[u8]) {
    while !s.is_empty() {
        let n = unsafe { libc::write(fd, s.as_ptr() as *const _, s.len()) };
        if n < 0 {
            return;
        }
        s = &s[n as usize..];
    }
}

fn run_child(spec: &Value) -> Value {
    if let Some(p) = spec["stdin"].as_str() {
        let c = std::ffi::CString::new(p).unwrap();
        unsafe {
            let fd = libc::open(c.as_ptr(), libc::O_RDONLY);
            libc::dup2(fd, 0);
        }
    }
    let op = spec["op"].as_str().unwrap_or("");
    match op {
        "calls" => calls::run(spec),
        "model" => units::model(spec),
        "frames" => units::frames(spec),
        "decode" => units::decode(spec),
        _ => json!({"bad_op": op}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (cin, cout) = unsafe {
        let a = libc::fcntl(0, libc::F_DUPFD_CLOEXEC, 100);
        let b = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 100);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        libc::dup2(n, 0);
        libc::dup2(n, 1);
        libc::close(n);
        (a, b)
    };
    // First use of the feature detection macro, outside any run.
    #[cfg(target_arch = "x86_64")]
    let _ = std::is_x86_feature_detected!("avx2");
    let shm = format!("/dev/shm/avsim.{}", std::process::id());
    let mut buf = Vec::new();
    while let Some(line) = read_line(cin, &mut buf) {
        let spec: Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(e) => {
                write_all(cout, format!("{{\"bad\":\"{e}\"}}\n").as_bytes());
                continue;
            }
        };
        let mut fds = [0i32; 2];
        unsafe { libc::pipe(fds.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                let fd = libc::fcntl(fds[1], libc::F_DUPFD_CLOEXEC, 200);
                libc::close(fds[1]);
                sim::RESULT_FD = fd;
                let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &core);
                let dn = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                libc::dup2(dn, 2);
            }
            sim::set_out(&shm);
            let r = run_child(&spec);
            sim::finish(&r);
        }
        unsafe { libc::close(fds[1]) };
        let limit_ms = spec["wall_ms"].as_i64().unwrap_or(60000);
        let mut out = Vec::new();
        let mut hung = false;
        let start = std::time::Instant::now();
        loop {
            let left = limit_ms - start.elapsed().as_millis() as i64;
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = if left > 0 { unsafe { libc::poll(&mut p, 1, left as i32) } } else { 0 };
            if r == 0 {
                hung = true;
                unsafe { libc::kill(pid, libc::SIGKILL) };
                break;
            }
            let mut tmp = [0u8; 65536];
            let n = unsafe { libc::read(fds[0], tmp.as_mut_ptr() as *mut _, tmp.len()) };
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&tmp[..n as usize]);
        }
        unsafe { libc::close(fds[0]) };
        let mut st = 0;
        let mut ru: libc::rusage = unsafe { std::mem::zeroed() };
        unsafe { libc::wait4(pid, &mut st, 0, &mut ru) };
        let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { -libc::WTERMSIG(st) };
        let res: Value = serde_json::from_slice(&out).unwrap_or(Value::Null);
        let shmv = if spec["sim"].is_string() {
            sim::read_shm(&shm, spec["trace"].as_bool().unwrap_or(false))
        } else {
            Value::Null
        };
        let o = json!({"exit": code, "hung": hung, "res": res, "sim": shmv});
        let mut s = o.to_string();
        s.push('\n');
        write_all(cout, s.as_bytes());
    }
    let _ = std::fs::remove_file(&shm);
}
