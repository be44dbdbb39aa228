//! One or more whole-video metric calls, from several threads and pools, inside one simulated run.
use crate::dec::{log, AnyDec, LOG};
use crate::{sim, ALLOCS, LIVE, PEAK};
use av_metrics::video::decode::Decoder;
use av_metrics::video::*;
use av_metrics::MetricsError;
use serde_json::{json, Value};
use std::error::Error;
use std::panic::{catch_unwind, AssertUnwindSafe};

static mut POOLS: Vec<rayon::ThreadPool> = Vec::new();
pub fn pool(i: usize) -> &'static rayon::ThreadPool {
    unsafe { &POOLS[i] }
}

pub fn planar(p: PlanarMetrics) -> Vec<f64> {
    vec![p.y, p.u, p.v, p.avg]
}
pub fn video<D: Decoder, F: Fn(usize) + Send>(
    metric: &str,
    a: &mut D,
    b: &mut D,
    limit: Option<usize>,
    cb: F,
) -> Result<Vec<f64>, Box<dyn Error>> {
    Ok(match metric {
        "psnr" => planar(psnr::calculate_video_psnr(a, b, limit, cb)?),
        "apsnr" => planar(psnr::calculate_video_apsnr(a, b, limit, cb)?),
        "hvs" => planar(psnr_hvs::calculate_video_psnr_hvs(a, b, limit, cb)?),
        "ssim" => planar(ssim::calculate_video_ssim(a, b, limit, cb)?),
        "msssim" => planar(ssim::calculate_video_msssim(a, b, limit, cb)?),
        "ciede" => vec![ciede::calculate_video_ciede(a, b, limit, cb)?],
        "ciede_nosimd" => vec![ciede::calculate_video_ciede_nosimd(a, b, limit, cb)?],
        m => panic!("unknown metric {m}"),
    })
}
pub fn category(e: &(dyn Error + 'static)) -> &'static str {
    match e.downcast_ref::<MetricsError>() {
        Some(MetricsError::MalformedInput { .. }) => "MalformedInput",
        Some(MetricsError::UnsupportedInput { .. }) => "UnsupportedInput",
        Some(MetricsError::InputMismatch { .. }) => "InputMismatch",
        Some(MetricsError::VideoError { .. }) => "VideoError",
        Some(MetricsError::SendError { .. }) => "SendError",
        Some(MetricsError::ProcessError { .. }) => "ProcessError",
        Some(_) => "other",
        None => "untyped",
    }
}

struct Shared(*mut Vec<Option<AnyDec>>, *mut Vec<Value>);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

fn one(sh: &Shared, c: &Value) {
    let id = c["id"].as_i64().unwrap();
    let (ia, ib) = (c["d"][0].as_u64().unwrap() as usize, c["d"][1].as_u64().unwrap() as usize);
    let limit = c["limit"].as_u64().map(|x| x as usize);
    let decs = unsafe { &mut *sh.0 };
    let (pa, pb) = (decs[ia].as_mut().unwrap() as *mut AnyDec, decs[ib].as_mut().unwrap() as *mut AnyDec);
    let (a, b) = unsafe { (&mut *pa, &mut *pb) };
    let cbp = c["cb"]["panic_at"].as_u64();
    let cbd = c["cb"]["delay_ns"].as_u64().unwrap_or(0);
    if let Some(ns) = c["start"].as_u64() {
        sim::sleep(ns);
    }
    log(2, id, 0, 0);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let r = video(c["metric"].as_str().unwrap(), a, b, limit, move |n| {
            log(1, id, n as i64, 0);
            if cbd > 0 {
                sim::sleep(cbd);
            }
            if cbp == Some(n as u64) {
                panic!("callback fault injected");
            }
        });
        match r {
            Ok(v) => json!({"ok": v.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>()}),
            Err(e) => json!({"err": category(&*e), "msg": e.to_string().chars().take(160).collect::<String>()}),
        }
    }));
    let v = r.unwrap_or_else(|_| json!({"panic": true}));
    log(3, id, unsafe { LIVE }, 0);
    unsafe { (&mut *sh.1)[id as usize] = v };
}

fn thread(sh: &Shared, g: &Value) {
    let calls = g["calls"].as_array().unwrap();
    let body = || {
        if g["par"].as_bool().unwrap_or(false) {
            rayon::scope(|s| {
                for c in calls {
                    s.spawn(move |_| one(sh, c));
                }
            })
        } else {
            for c in calls {
                one(sh, c);
            }
        }
    };
    if let Some(ns) = g["start"].as_u64() {
        sim::sleep(ns);
    }
    let p = g["pool"].as_i64().unwrap_or(-1);
    if p >= 0 {
        pool(p as usize).install(body)
    } else {
        body()
    }
}

pub fn run(spec: &Value) -> Value {
    let n_calls: usize =
        spec["threads"].as_array().unwrap().iter().map(|t| t["calls"].as_array().unwrap().len()).sum();
    let mut results = vec![Value::Null; n_calls];
    sim::start(spec);
    let g = spec["global"].as_u64().unwrap_or(2) as usize;
    rayon::ThreadPoolBuilder::new().num_threads(g).build_global().expect("global pool");
    for n in spec["pools"].as_array().into_iter().flatten() {
        let p = rayon::ThreadPoolBuilder::new().num_threads(n.as_u64().unwrap() as usize).build().expect("pool");
        unsafe { POOLS.push(p) };
    }
    let mut decs: Vec<Option<AnyDec>> = Vec::new();
    let mut open = Vec::new();
    sim::arm(true);
    for (i, d) in spec["decs"].as_array().unwrap().iter().enumerate() {
        match catch_unwind(|| AnyDec::open(i as i64, d)) {
            Ok(Ok(d)) => {
                decs.push(Some(d));
                open.push(Value::Null);
            }
            Ok(Err(e)) => {
                decs.push(None);
                open.push(json!(e));
            }
            Err(_) => {
                decs.push(None);
                open.push(json!("panic"));
            }
        }
    }
    if decs.iter().all(|d| d.is_some()) {
        unsafe {
            LIVE = 0;
            PEAK = 0;
        }
        let sh = Shared(&mut decs, &mut results);
        let threads = spec["threads"].as_array().unwrap();
        if threads.len() == 1 {
            thread(&sh, &threads[0]);
        } else {
            let sh = &sh;
            sim::arm(false);
            std::thread::scope(|s| {
                for t in threads {
                    s.spawn(move || thread(sh, t));
                }
                sim::arm(true);
            });
        }
    }
    sim::arm(false);
    let (live, peak, allocs) = unsafe { (LIVE, PEAK, ALLOCS) };
    sim::stop();
    std::mem::forget(decs);
    let ev: Vec<Value> =
        unsafe { LOG.iter().map(|e| json!([e.step, e.tid, e.kind, e.a, e.b, e.c])).collect() };
    #[cfg(feature = "vapoursynth")]
    let vs = crate::vs::report();
    #[cfg(not(feature = "vapoursynth"))]
    let vs = Value::Null;
    json!({"calls": results, "open": open, "ev": ev, "peak": peak, "live": live, "allocs": allocs, "vs": vs})
}
