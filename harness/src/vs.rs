//! A simulated VapourSynth: the C interface the vapoursynth crate calls, implemented over clips
//! described in JSON.  A script is that JSON, or the Python text new_from_video generates.
//!
//! Every reference handed out is counted, frames are overwritten when given back, requests can be slow
//! or fail, rows are padded and padding holds noise.
use crate::{dec::mix, sim};
use serde_json::{json, Value};
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::mem::MaybeUninit;
use std::path::Path;
use vapoursynth_sys as ffi;

const MAGIC: u64 = 0x5653_4e4f_4445_0001;
struct Node {
    magic: u64,
    vi: ffi::VSVideoInfo,
    dims: [(usize, usize); 3],
    bytes: usize,
    data: Vec<u8>,
    per_frame: usize,
    fail: Vec<(i64, i64)>,
    delay: (u64, u64),
    pad: usize,
    seed: u64,
    refs: i64,
}
struct Frame {
    magic: u64,
    format: *const ffi::VSFormat,
    dims: [(usize, usize); 3],
    stride: [usize; 3],
    data: Vec<Vec<u64>>,
}
struct Script {
    magic: u64,
    error: CString,
    outputs: Vec<(i64, *mut Node, *mut Node)>,
}

#[derive(Default)]
struct World {
    bad: Vec<String>,
    frames: i64,
    peak: i64,
    refs: i64,
    scripts: i64,
    requests: Vec<i64>,
    failed: u64,
    slow: u64,
}
static mut W: Option<World> = None;
fn w() -> &'static mut World {
    unsafe { W.get_or_insert_with(World::default) }
}
fn bad(s: &str) {
    if w().bad.len() < 8 {
        w().bad.push(s.into());
    }
}
pub fn report() -> Value {
    let x = w();
    json!({"bad": x.bad, "frames": x.frames, "peak": x.peak, "nodes": x.refs, "scripts": x.scripts,
           "requests": x.requests.len(), "failed": x.failed, "slow": x.slow})
}

pub fn open(v: &Value) -> Result<av_metrics_decoders::VapoursynthDecoder, String> {
    use av_metrics_decoders::{VapoursynthDecoder as D, VapoursynthDecoderPlugin as P};
    let p = Path::new(v["path"].as_str().unwrap());
    match v["by"].as_str().unwrap_or("script") {
        "script" => D::new_from_script(p),
        "lsmash" => D::new_from_video_with_decoder(p, P::LSmash),
        "bestsource" => D::new_from_video_with_decoder(p, P::BestSource),
        _ => D::new_from_video(p),
    }
    .map_err(|e| format!("{e:#}"))
}

// ---- scripts
fn build(v: &Value, dir: &Path) -> Result<*mut Node, String> {
    let fam = match v["family"].as_str().unwrap_or("yuv") {
        "gray" => ffi::VSColorFamily::cmGray,
        "rgb" => ffi::VSColorFamily::cmRGB,
        "ycocg" => ffi::VSColorFamily::cmYCoCg,
        "compat" => ffi::VSColorFamily::cmCompat,
        _ => ffi::VSColorFamily::cmYUV,
    };
    let n = |k: &str, d: i64| v[k].as_i64().unwrap_or(d);
    let bits = n("bits", 8);
    let bytes = if bits <= 8 { 1 } else if bits <= 16 { 2 } else { 4 };
    let planes = if matches!(fam, ffi::VSColorFamily::cmGray | ffi::VSColorFamily::cmCompat) { 1 } else { 3 };
    let mut name = [0 as c_char; 32];
    name[0] = b'F' as c_char;
    let fmt = Box::leak(Box::new(ffi::VSFormat {
        name,
        id: 1000 + (fam as c_int / 1000000) * 10000 + bits as c_int * 100 + (n("sw", 0) * 10 + n("sh", 0)) as c_int,
        colorFamily: fam as c_int,
        sampleType: n("float", 0) as c_int,
        bitsPerSample: bits as c_int,
        bytesPerSample: bytes,
        subSamplingW: n("sw", 0) as c_int,
        subSamplingH: n("sh", 0) as c_int,
        numPlanes: planes,
    }));
    let (pw, ph) = (n("w", 0) as usize, n("h", 0) as usize);
    let c = if planes == 1 { (0, 0) } else { (pw >> n("sw", 0), ph >> n("sh", 0)) };
    let dims = [(pw, ph), c, c];
    let per_frame = dims.iter().map(|d| d.0 * d.1).sum::<usize>() * bytes as usize;
    let file = dir.join(v["file"].as_str().unwrap_or(""));
    let data = std::fs::read(&file).map_err(|e| format!("cannot open the source: {e}"))?;
    let var = v["variable"].as_str().unwrap_or("");
    Ok(Box::into_raw(Box::new(Node {
        magic: MAGIC,
        vi: ffi::VSVideoInfo {
            format: if var == "format" { std::ptr::null() } else { fmt },
            fpsNum: if var == "fps" { 0 } else { n("num", 25) },
            fpsDen: if var == "fps" { 0 } else { n("den", 1) },
            width: if var == "size" { 0 } else { pw as c_int },
            height: if var == "size" { 0 } else { ph as c_int },
            numFrames: n("n", 1) as c_int,
            flags: 0,
        },
        dims,
        bytes: bytes as usize,
        data,
        per_frame,
        fail: v["fail"].as_array().into_iter().flatten().map(|f| (f[0].as_i64().unwrap(), f[1].as_i64().unwrap())).collect(),
        delay: (v["delay"][0].as_u64().unwrap_or(0), v["delay"][1].as_u64().unwrap_or(0)),
        pad: n("pad", 32) as usize,
        seed: n("seed", 1) as u64,
        refs: 0,
    })))
}
/// The source file a generated Python script names.
fn python_source(text: &str) -> Result<String, String> {
    let from = ["LWLibavSource(", "VideoSource("]
        .iter()
        .find_map(|f| text.find(f).map(|i| i + f.len()))
        .ok_or("SyntaxError: no source filter")?;
    if !text.contains("set_output(") {
        return Err("no output".into());
    }
    let b: Vec<char> = text[from..].chars().collect();
    let q = b.iter().position(|&c| c == '"' || c == '\'').ok_or("SyntaxError: no string")?;
    let raw = q > 0 && (b[q - 1] == 'r' || b[q - 1] == 'R');
    let (quote, mut i, mut out) = (b[q], q + 1, String::new());
    loop {
        match *b.get(i).ok_or("SyntaxError: unterminated string literal")? {
            '\n' | '\r' => return Err("SyntaxError: unterminated string literal".into()),
            c if c == quote => return Ok(out),
            '\\' if !raw => {
                i += 1;
                let e = *b.get(i).ok_or("SyntaxError: unterminated string literal")?;
                let hex = |k: usize| {
                    let s: String = b.iter().skip(i + 1).take(k).collect();
                    u32::from_str_radix(&s, 16).ok().and_then(char::from_u32).ok_or("SyntaxError: bad escape")
                };
                match e {
                    '\\' | '"' | '\'' => out.push(e),
                    'n' => out.push('\n'),
                    'r' => out.push('\r'),
                    't' => out.push('\t'),
                    'b' => out.push('\x08'),
                    'f' => out.push('\x0c'),
                    'v' => out.push('\x0b'),
                    'a' => out.push('\x07'),
                    'x' => {
                        out.push(hex(2)?);
                        i += 2;
                    }
                    'u' => {
                        out.push(hex(4)?);
                        i += 4;
                    }
                    'U' => {
                        out.push(hex(8)?);
                        i += 8;
                    }
                    'N' | '0'..='7' => return Err("SyntaxError: bad escape".into()),
                    '\n' => {}
                    c => {
                        out.push('\\');
                        out.push(c);
                    }
                }
            }
            c => out.push(c),
        }
        i += 1;
    }
}
fn evaluate(s: &mut Script, text: &str, filename: Option<&str>, chdir: bool) -> Result<(), String> {
    let mut dir = std::path::PathBuf::new();
    if chdir {
        dir = Path::new(filename.ok_or("a working directory needs a file name")?).parent().unwrap_or(Path::new("")).into();
    }
    let v: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(_) => {
            let p = python_source(text)?;
            let t = std::fs::read_to_string(&p).map_err(|e| format!("cannot open {p}: {e}"))?;
            dir = Path::new(&p).parent().unwrap_or(Path::new("")).into();
            serde_json::from_str(&t).map_err(|e| format!("not a video: {e}"))?
        }
    };
    if let Some(e) = v["error"].as_str() {
        return Err(e.into());
    }
    for o in v["outputs"].as_array().into_iter().flatten() {
        let a = if o[2].is_object() { build(&o[2], &dir)? } else { std::ptr::null_mut() };
        s.outputs.push((o[0].as_i64().unwrap(), build(&o[1], &dir)?, a));
    }
    Ok(())
}
unsafe fn script<'a>(h: *mut ffi::VSScript) -> &'a mut Script {
    let s = &mut *(h as *mut Script);
    if s.magic != MAGIC + 1 {
        bad("a script that is gone is used");
    }
    s
}
#[no_mangle]
pub extern "system" fn vsscript_getApiVersion() -> c_int {
    (3 << 16) | 2
}
#[no_mangle]
pub extern "system" fn vsscript_init() -> c_int {
    1
}
#[no_mangle]
pub extern "system" fn vsscript_finalize() -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "system" fn vsscript_createScript(h: *mut *mut ffi::VSScript) -> c_int {
    w().scripts += 1;
    *h = Box::into_raw(Box::new(Script { magic: MAGIC + 1, error: CString::default(), outputs: vec![] })) as *mut _;
    0
}
#[no_mangle]
pub unsafe extern "system" fn vsscript_freeScript(h: *mut ffi::VSScript) {
    let s = script(h);
    for o in &s.outputs {
        if (*o.1).refs > 0 {
            bad("the script is freed while its node is referenced");
        }
    }
    s.magic = 0; // kept, so that later use is seen
    w().scripts -= 1;
}
#[no_mangle]
pub unsafe extern "system" fn vsscript_evaluateScript(
    h: *mut *mut ffi::VSScript,
    text: *const c_char,
    filename: *const c_char,
    flags: c_int,
) -> c_int {
    let s = script(*h);
    let name = if filename.is_null() { None } else { CStr::from_ptr(filename).to_str().ok() };
    let r = match CStr::from_ptr(text).to_str() {
        Ok(t) => evaluate(s, t, name, flags & 1 != 0),
        Err(_) => Err("not UTF-8".into()),
    };
    match r {
        Ok(()) => 0,
        Err(e) => {
            s.error = CString::new(e.replace('\0', " ")).unwrap();
            1
        }
    }
}
#[no_mangle]
pub unsafe extern "system" fn vsscript_evaluateFile(h: *mut *mut ffi::VSScript, filename: *const c_char, flags: c_int) -> c_int {
    let name = CStr::from_ptr(filename).to_str().unwrap_or("");
    match std::fs::read(name) {
        Ok(mut t) => {
            t.push(0);
            vsscript_evaluateScript(h, t.as_ptr() as *const c_char, filename, flags)
        }
        Err(e) => {
            script(*h).error = CString::new(e.to_string()).unwrap();
            1
        }
    }
}
#[no_mangle]
pub unsafe extern "system" fn vsscript_getError(h: *mut ffi::VSScript) -> *const c_char {
    script(h).error.as_ptr()
}
unsafe fn hand_out(n: *mut Node) -> *mut ffi::VSNodeRef {
    (*n).refs += 1;
    w().refs += 1;
    n as *mut _
}
#[no_mangle]
pub unsafe extern "system" fn vsscript_getOutput2(h: *mut ffi::VSScript, index: c_int, alpha: *mut *mut ffi::VSNodeRef) -> *mut ffi::VSNodeRef {
    if !alpha.is_null() {
        *alpha = std::ptr::null_mut();
    }
    for o in &script(h).outputs {
        if o.0 == index as i64 {
            if !alpha.is_null() && !o.2.is_null() {
                *alpha = hand_out(o.2);
            }
            return hand_out(o.1);
        }
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "system" fn vsscript_getOutput(h: *mut ffi::VSScript, index: c_int) -> *mut ffi::VSNodeRef {
    vsscript_getOutput2(h, index, std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "system" fn vsscript_clearOutput(h: *mut ffi::VSScript, index: c_int) -> c_int {
    let s = script(h);
    let n = s.outputs.len();
    s.outputs.retain(|o| o.0 != index as i64);
    (n == s.outputs.len()) as c_int
}
#[no_mangle]
pub unsafe extern "system" fn vsscript_clearEnvironment(h: *mut ffi::VSScript) {
    script(h).outputs.clear();
}
static mut CORE: u64 = 0;
#[no_mangle]
pub unsafe extern "system" fn vsscript_getCore(_: *mut ffi::VSScript) -> *mut ffi::VSCore {
    &raw mut CORE as *mut ffi::VSCore
}
#[no_mangle]
pub extern "system" fn vsscript_getVSApi() -> *const ffi::VSAPI {
    getVapourSynthAPI(3 << 16)
}
#[no_mangle]
pub extern "system" fn vsscript_getVSApi2(version: c_int) -> *const ffi::VSAPI {
    getVapourSynthAPI(version)
}
macro_rules! no_variables {
    ($($f:ident($($t:ty),*)),*) => { $(#[no_mangle] pub extern "system" fn $f($(_: $t),*) -> c_int { 1 })* };
}
no_variables!(
    vsscript_getVariable(*mut c_void, *const c_char, *mut c_void),
    vsscript_setVariable(*mut c_void, *const c_void),
    vsscript_clearVariable(*mut c_void, *const c_char)
);

// ---- nodes and frames
unsafe fn node<'a>(n: *mut ffi::VSNodeRef) -> &'a mut Node {
    let x = &mut *(n as *mut Node);
    if x.magic != MAGIC {
        bad("something that is no node is used as one");
    } else if x.refs <= 0 {
        bad("a node is used after it was given back");
    }
    x
}
unsafe fn frame<'a>(f: *const ffi::VSFrameRef, plane: c_int) -> &'a Frame {
    let x = &*(f as *const Frame);
    if x.magic != MAGIC + 2 {
        bad("a frame is used after it was given back");
    }
    if plane < 0 || plane >= (*x.format).numPlanes {
        bad("a plane that does not exist is asked for");
    }
    x
}
unsafe extern "system" fn clone_node(n: *mut ffi::VSNodeRef) -> *mut ffi::VSNodeRef {
    hand_out(node(n))
}
unsafe extern "system" fn free_node(n: *mut ffi::VSNodeRef) {
    if !n.is_null() {
        node(n).refs -= 1;
        w().refs -= 1;
    }
}
unsafe extern "system" fn free_frame(f: *const ffi::VSFrameRef) {
    if f.is_null() {
        return;
    }
    frame(f, 0);
    let x = &mut *(f as *mut Frame);
    x.magic = 0;
    for p in x.data.iter_mut() {
        p.fill(0xa5a5_a5a5_a5a5_a5a5); // kept, so that later use is seen
    }
    w().frames -= 1;
}
unsafe extern "system" fn video_info(n: *mut ffi::VSNodeRef) -> *const ffi::VSVideoInfo {
    &node(n).vi
}
unsafe fn make(n: &Node, k: usize) -> *const ffi::VSFrameRef {
    let mut off = k * n.per_frame;
    let mut f = Frame { magic: MAGIC + 2, format: n.vi.format, dims: n.dims, stride: [0; 3], data: vec![] };
    for p in 0..(if n.dims[1].0 == 0 { 1 } else { 3 }) {
        let (pw, ph) = n.dims[p];
        let row = pw * n.bytes;
        // rows start at multiples of 32, plus whatever this node adds
        let stride = row.div_ceil(32) * 32 + n.pad;
        let mut d = vec![0u64; (stride * ph).div_ceil(8)];
        for (i, x) in d.iter_mut().enumerate() {
            *x = mix(n.seed ^ 0xbad, (k as u64) << 40 | (p as u64) << 32 | i as u64);
        }
        let b = std::slice::from_raw_parts_mut(d.as_mut_ptr() as *mut u8, d.len() * 8);
        for y in 0..ph {
            if let Some(src) = n.data.get(off..off + row) {
                b[y * stride..y * stride + row].copy_from_slice(src);
            }
            off += row;
        }
        f.stride[p] = stride;
        f.data.push(d);
    }
    w().frames += 1;
    w().peak = w().peak.max(w().frames);
    Box::into_raw(Box::new(f)) as *const _
}
unsafe fn produce(n: *mut ffi::VSNodeRef, k: c_int) -> Result<*const ffi::VSFrameRef, &'static CStr> {
    let x = node(n);
    w().requests.push(k as i64);
    if k < 0 || k >= x.vi.numFrames {
        return Err(c"Invalid frame number requested");
    }
    let r = mix(x.seed ^ 0x510, (k as u64) << 20 | w().requests.len() as u64);
    if x.delay.0 > 0 && r % 100 < x.delay.0 {
        w().slow += 1;
        sim::sleep(1 + (r >> 8) % x.delay.1.max(1));
    } else {
        sim::point();
    }
    if let Some(f) = x.fail.iter_mut().find(|f| f.0 == k as i64 && f.1 > 0) {
        f.1 -= 1;
        w().failed += 1;
        return Err(c"the filter failed (injected)");
    }
    Ok(make(x, k as usize))
}
unsafe extern "system" fn get_frame(k: c_int, n: *mut ffi::VSNodeRef, msg: *mut c_char, size: c_int) -> *const ffi::VSFrameRef {
    match produce(n, k) {
        Ok(f) => f,
        Err(e) => {
            if !msg.is_null() && size > 0 {
                let b = e.to_bytes();
                let l = b.len().min(size as usize - 1);
                std::ptr::copy_nonoverlapping(b.as_ptr() as *const c_char, msg, l);
                *msg.add(l) = 0;
            }
            std::ptr::null()
        }
    }
}
unsafe extern "system" fn get_frame_async(k: c_int, n: *mut ffi::VSNodeRef, cb: ffi::VSFrameDoneCallback, data: *mut c_void) {
    // answered from a thread of the frame server's
    struct Job(c_int, *mut ffi::VSNodeRef, ffi::VSFrameDoneCallback, *mut c_void);
    unsafe impl Send for Job {}
    let job = Job(k, n, cb, data);
    std::thread::spawn(move || {
        let j = job;
        let Job(k, n, cb, data) = j;
        match produce(n, k) {
            Ok(f) => (cb.unwrap())(data, f, k, n, std::ptr::null()),
            Err(e) => (cb.unwrap())(data, std::ptr::null(), k, n, e.as_ptr()),
        }
    });
}
unsafe extern "system" fn clone_frame(f: *const ffi::VSFrameRef) -> *const ffi::VSFrameRef {
    let x = frame(f, 0);
    w().frames += 1;
    w().peak = w().peak.max(w().frames);
    Box::into_raw(Box::new(Frame { magic: x.magic, format: x.format, dims: x.dims, stride: x.stride, data: x.data.clone() })) as *const _
}
unsafe extern "system" fn stride(f: *const ffi::VSFrameRef, p: c_int) -> c_int {
    frame(f, p).stride[p as usize] as c_int
}
unsafe extern "system" fn read_ptr(f: *const ffi::VSFrameRef, p: c_int) -> *const u8 {
    frame(f, p).data[p as usize].as_ptr() as *const u8
}
unsafe extern "system" fn frame_format(f: *const ffi::VSFrameRef) -> *const ffi::VSFormat {
    frame(f, 0).format
}
unsafe extern "system" fn frame_width(f: *const ffi::VSFrameRef, p: c_int) -> c_int {
    frame(f, p).dims[p as usize].0 as c_int
}
unsafe extern "system" fn frame_height(f: *const ffi::VSFrameRef, p: c_int) -> c_int {
    frame(f, p).dims[p as usize].1 as c_int
}
unsafe extern "system" fn missing() -> *const c_void {
    bad("an interface function the simulated library does not have is called");
    std::process::abort()
}
#[no_mangle]
pub extern "system" fn getVapourSynthAPI(version: c_int) -> *const ffi::VSAPI {
    static mut API: MaybeUninit<ffi::VSAPI> = MaybeUninit::uninit();
    static mut READY: bool = false;
    if version >> 16 != 3 || version & 0xffff > 6 {
        return std::ptr::null();
    }
    unsafe {
        let p = (&raw mut API) as *mut ffi::VSAPI;
        if !READY {
            let slots = std::mem::size_of::<ffi::VSAPI>() / std::mem::size_of::<usize>();
            for i in 0..slots {
                *(p as *mut usize).add(i) = missing as *const () as usize;
            }
            (*p).cloneNodeRef = clone_node;
            (*p).freeNode = free_node;
            (*p).freeFrame = free_frame;
            (*p).cloneFrameRef = clone_frame;
            (*p).getVideoInfo = video_info;
            (*p).getFrame = get_frame;
            (*p).getFrameAsync = get_frame_async;
            (*p).getStride = stride;
            (*p).getReadPtr = read_ptr;
            (*p).getFrameFormat = frame_format;
            (*p).getFrameWidth = frame_width;
            (*p).getFrameHeight = frame_height;
            READY = true;
        }
        p
    }
}
