//! Binding to libavsim (present in the process through LD_PRELOAD) and its result record.
use serde_json::{json, Value};
use std::ffi::CString;

extern "C" {
    fn avsim_start(cfg: *const libc::c_char) -> i32;
    fn avsim_stop();
    fn avsim_step() -> u64;
    fn avsim_tid() -> i32;
    fn avsim_sleep(ns: u64);
    fn avsim_arm(on: i32);
    fn avsim_point();
    fn avsim_hold(on: i32);
    fn avsim_static_data(lo: *const u8, hi: *const u8);
    static __data_start: u8;
    static _end: u8;
}

pub static mut RESULT_FD: i32 = -1;
static mut OUT: Option<String> = None;
static mut ACTIVE: bool = false;

pub fn set_out(p: &str) {
    unsafe { OUT = Some(p.to_string()) }
}
pub fn start(spec: &Value) {
    if let Some(c) = spec["sim"].as_str() {
        let s = format!("{} out={}", c, unsafe { OUT.clone().unwrap() });
        let c = CString::new(s).unwrap();
        unsafe {
            ACTIVE = true;
            avsim_arm(0);
            avsim_static_data(&raw const __data_start, &raw const _end);
            avsim_start(c.as_ptr());
        }
    }
}
pub fn stop() {
    unsafe {
        if ACTIVE {
            avsim_stop();
        }
    }
}
pub fn arm(on: bool) {
    unsafe {
        if ACTIVE {
            avsim_arm(on as i32)
        }
    }
}
/// While set, memory accesses are no scheduling points.
pub fn hold(on: bool) {
    unsafe { avsim_hold(on as i32) }
}
pub fn managed() -> bool {
    unsafe { ACTIVE }
}
pub fn step() -> u64 {
    unsafe { avsim_step() }
}
pub fn tid() -> i32 {
    unsafe { avsim_tid() }
}
pub fn sleep(ns: u64) {
    unsafe {
        if ACTIVE {
            avsim_sleep(ns)
        }
    }
}
pub fn point() {
    unsafe {
        if ACTIVE {
            avsim_point()
        }
    }
}
pub fn finish(v: &Value) -> ! {
    let s = v.to_string();
    let b = s.as_bytes();
    let mut off = 0;
    unsafe {
        while off < b.len() {
            let n = libc::write(RESULT_FD, b[off..].as_ptr() as *const _, b.len() - off);
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        libc::_exit(0)
    }
}

const HDR: [&str; 18] = [
    "magic", "status", "steps", "switches", "preempt", "nthreads", "futex_waits", "futex_wakes",
    "yields", "forced", "simtime", "hash", "atomics", "clockreads", "sleeps", "exitcode",
    "max_runnable", "io_hash",
];
pub fn read_shm(path: &str, trace: bool) -> Value {
    use std::io::{Read, Seek, SeekFrom};
    let mut f = match std::fs::File::open(path) {
        Ok(f) => f,
        Err(_) => return Value::Null,
    };
    let mut h = vec![0u8; 18 * 8 + 32 * 8 + 16 * 8 + 3 * 8 + 512];
    if f.read_exact(&mut h).is_err() {
        return Value::Null;
    }
    let u = |i: usize| u64::from_le_bytes(h[i * 8..i * 8 + 8].try_into().unwrap());
    let mut m = serde_json::Map::new();
    for (i, n) in HDR.iter().enumerate() {
        m.insert(n.to_string(), json!(u(i)));
    }
    m.insert("hash".into(), json!(format!("{:016x}", u(11))));
    m.insert("io_hash".into(), json!(format!("{:016x}", u(17))));
    m.insert("faults".into(), json!((0..32).map(|i| u(18 + i)).collect::<Vec<_>>()));
    m.insert("io".into(), json!((0..16).map(|i| u(50 + i)).collect::<Vec<_>>()));
    let (nd, nf) = (u(66), u(67));
    m.insert("ndev".into(), json!(nd));
    m.insert("nflt".into(), json!(nf));
    m.insert("devlost".into(), json!(u(68)));
    let note = &h[69 * 8..69 * 8 + 512];
    let e = note.iter().position(|&b| b == 0).unwrap_or(512);
    m.insert("note".into(), json!(String::from_utf8_lossy(&note[..e])));
    if trace {
        let fo = (69 * 8 + 512) as u64;
        let mut b = vec![0u8; nf as usize * 16];
        let _ = f.seek(SeekFrom::Start(fo)).and_then(|_| f.read_exact(&mut b));
        let w = |b: &[u8], i: usize| u32::from_le_bytes(b[i * 4..i * 4 + 4].try_into().unwrap());
        let fl: Vec<_> = (0..nf as usize)
            .map(|i| json!([w(&b, i * 4), w(&b, i * 4 + 1), w(&b, i * 4 + 2), w(&b, i * 4 + 3)]))
            .collect();
        let mut d = vec![0u8; nd as usize * 8];
        let _ = f.seek(SeekFrom::Start(fo + 65536 * 16)).and_then(|_| f.read_exact(&mut d));
        let dv: Vec<_> = (0..nd as usize).map(|i| json!([w(&d, i * 2), w(&d, i * 2 + 1)])).collect();
        m.insert("F".into(), json!(fl));
        m.insert("S".into(), json!(dv));
    }
    Value::Object(m)
}
