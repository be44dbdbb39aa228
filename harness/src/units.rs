//! Smaller scenarios: the sequential per-frame model, concurrent frame-level calls, plain decoding.
use crate::calls::{category, planar};
use crate::dec::{dims, AnyDec, Clip};
use crate::sim;
use av_metrics::video::decode::Decoder;
use av_metrics::video::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::error::Error;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn hex(v: &[f64]) -> Vec<String> {
    v.iter().map(|x| format!("{:016x}", x.to_bits())).collect()
}
pub fn frame_metric<T: Pixel>(
    m: &str,
    a: &Frame<T>,
    b: &Frame<T>,
    depth: usize,
    cs: ChromaSampling,
) -> Result<Vec<f64>, Box<dyn Error>> {
    Ok(match m {
        "psnr" | "apsnr" => planar(psnr::calculate_frame_psnr(a, b, depth, cs)?),
        "hvs" => planar(psnr_hvs::calculate_frame_psnr_hvs(a, b, depth, cs)?),
        "ssim" => planar(ssim::calculate_frame_ssim(a, b, depth, cs)?),
        "msssim" => planar(ssim::calculate_frame_msssim(a, b, depth, cs)?),
        "ciede" => vec![ciede::calculate_frame_ciede(a, b, depth, cs)?],
        _ => vec![ciede::calculate_frame_ciede_nosimd(a, b, depth, cs)?],
    })
}
/// A picture that several comparisons use.
enum Pic {
    B(Frame<u8>),
    W(Frame<u16>),
}
type Pics = HashMap<String, Pic>;
fn pic_key(d: &Value, k: u64) -> String {
    format!("{d}/{k}")
}
fn pics(jobs: &[Value]) -> Pics {
    let mut out = Pics::new();
    for j in jobs.iter().flat_map(|t| t.as_array().unwrap()) {
        for (c, k) in [("a", "ka"), ("b", "kb")] {
            let (clip, k) = (Clip::new(&j[c]), j[k].as_u64().unwrap());
            out.entry(pic_key(&j[c], k))
                .or_insert_with(|| if clip.depth > 8 { Pic::W(clip.frame(k)) } else { Pic::B(clip.frame(k)) });
        }
    }
    out
}
fn metric_shared(m: &str, p: &Pics, j: &Value) -> Value {
    let c = Clip::new(&j["a"]);
    let (a, b) = (
        &p[&pic_key(&j["a"], j["ka"].as_u64().unwrap())],
        &p[&pic_key(&j["b"], j["kb"].as_u64().unwrap())],
    );
    let r = catch_unwind(AssertUnwindSafe(|| {
        let r = match (a, b) {
            (Pic::B(a), Pic::B(b)) => frame_metric::<u8>(m, a, b, c.depth, c.cs),
            (Pic::W(a), Pic::W(b)) => frame_metric::<u16>(m, a, b, c.depth, c.cs),
            _ => panic!("frames of different types"),
        };
        verdict(r)
    }));
    r.unwrap_or_else(|_| json!({"panic": true}))
}
fn verdict(r: Result<Vec<f64>, Box<dyn Error>>) -> Value {
    match r {
        Ok(v) => json!({"ok": hex(&v)}),
        Err(e) => json!({"err": category(&*e)}),
    }
}
fn metric_of(m: &str, a: &Clip, b: &Clip, ka: u64, kb: u64) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let r = if a.depth > 8 {
            frame_metric::<u16>(m, &a.frame(ka), &b.frame(kb), a.depth, a.cs)
        } else {
            frame_metric::<u8>(m, &a.frame(ka), &b.frame(kb), a.depth, a.cs)
        };
        verdict(r)
    }));
    r.unwrap_or_else(|_| json!({"panic": true}))
}
/// Per-frame scores computed one after the other on one worker, and squared errors computed here.
pub fn model(spec: &Value) -> Value {
    sim::start(spec);
    rayon::ThreadPoolBuilder::new().num_threads(1).build_global().expect("pool");
    let (a, b) = (Clip::new(&spec["a"]), Clip::new(&spec["b"]));
    let m = spec["metric"].as_str().unwrap();
    let mut out = Vec::new();
    for p in spec["pairs"].as_array().unwrap() {
        let (ka, kb) = (p[0].as_u64().unwrap(), p[1].as_u64().unwrap());
        let f = metric_of(m, &a, &b, ka, kb);
        let d = dims(a.cs, a.w, a.h);
        let mut se = [0u64; 3];
        let (mut ra, mut rb) = (vec![0u16; a.w], vec![0u16; a.w]);
        for p in 0..3 {
            for y in 0..d[p].1 {
                a.row(ka, p, y, d[p].0, &mut ra);
                b.row(kb, p, y, d[p].0, &mut rb);
                for x in 0..d[p].0 {
                    let e = ra[x] as i64 - rb[x] as i64;
                    se[p] += (e * e) as u64;
                }
            }
        }
        out.push(json!([f, se]));
    }
    sim::stop();
    json!({"frames": out})
}
/// Frame-level metric calls from several threads at once.
pub fn frames(spec: &Value) -> Value {
    sim::start(spec);
    let g = spec["global"].as_u64().unwrap_or(2) as usize;
    rayon::ThreadPoolBuilder::new().num_threads(g).build_global().expect("pool");
    let jobs = spec["threads"].as_array().unwrap();
    let shared = spec["shared"].as_bool().unwrap_or(false).then(|| pics(jobs));
    sim::arm(true);
    let run = |t: &Value| -> Value {
        t.as_array()
            .unwrap()
            .iter()
            .map(|j| {
                if let Some(p) = &shared {
                    return metric_shared(j["m"].as_str().unwrap(), p, j);
                }
                metric_of(
                    j["m"].as_str().unwrap(),
                    &Clip::new(&j["a"]),
                    &Clip::new(&j["b"]),
                    j["ka"].as_u64().unwrap(),
                    j["kb"].as_u64().unwrap(),
                )
            })
            .collect()
    };
    let par = spec["inpool"].as_bool().unwrap_or(false);
    let out: Vec<Value> = if par {
        use rayon::prelude::*;
        jobs.par_iter().map(run).collect()
    } else {
        std::thread::scope(|s| {
            let hs: Vec<_> = jobs.iter().map(|t| s.spawn(move || run(t))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Value::Null)).collect()
        })
    };
    sim::stop();
    json!({"out": out})
}

fn fnv(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x100000001b3)
}
fn describe<T: Pixel>(f: &Frame<T>, size: (usize, usize, ChromaSampling), dump: bool) -> Value {
    let mut hs = Vec::new();
    let (w, h, cs) = size;
    let c = match cs {
        ChromaSampling::Cs420 => (w.div_ceil(2), h.div_ceil(2)),
        ChromaSampling::Cs422 => (w.div_ceil(2), h),
        ChromaSampling::Cs444 => (w, h),
        ChromaSampling::Cs400 => (0, 0),
    };
    // planes may be larger than the picture: dimensions are rounded up
    for (p, d) in f.planes.iter().zip([(w, h), c, c]) {
        let (w, h) = (d.0.min(p.cfg.width), d.1.min(p.cfg.height));
        let mut s = 0xcbf29ce484222325u64;
        for y in 0..h {
            for x in 0..w {
                s = fnv(s, u32::cast_from(p.data[(p.cfg.yorigin + y) * p.cfg.stride + p.cfg.xorigin + x]) as u64);
            }
        }
        hs.push(json!([format!("{s:016x}"), w, h]));
    }
    if dump {
        let d: Vec<Vec<u32>> = f
            .planes
            .iter()
            .map(|p| {
                let mut v = Vec::new();
                for y in 0..p.cfg.height {
                    for x in 0..p.cfg.width {
                        v.push(u32::cast_from(p.data[y * p.cfg.stride + x]));
                    }
                }
                v
            })
            .collect();
        json!({"h": hs, "d": d})
    } else {
        json!({"h": hs})
    }
}
fn drain<T: Pixel>(d: &mut AnyDec, spec: &Value) -> Value {
    let vd = d.get_video_details();
    let size = (vd.width, vd.height, vd.chroma_sampling);
    let max = spec["max"].as_u64().unwrap_or(200);
    let again = spec["again"].as_u64().unwrap_or(0);
    let dump = spec["dump"].as_bool().unwrap_or(false);
    let mut out = Vec::new();
    let mut after = Vec::new();
    if let Some(ops) = spec["ops"].as_array() {
        // explicit sequence: ["next"] or ["at", n]
        for o in ops {
            let r = catch_unwind(AssertUnwindSafe(|| {
                if o[0] == "at" {
                    d.read_specific_frame::<T>(o[1].as_u64().unwrap() as usize)
                } else {
                    d.read_video_frame::<T>()
                }
            }));
            match r {
                Ok(Some(f)) => out.push(describe(&f, size, dump)),
                Ok(None) => out.push(Value::Null),
                Err(_) => {
                    out.push(json!("panic"));
                    break;
                }
            }
        }
        return json!({"frames": out});
    }
    let mut ended = false;
    for k in 0..max as usize {
        let r = catch_unwind(AssertUnwindSafe(|| d.read_video_frame::<T>()));
        // the size of the picture, if it is not the same throughout
        let size = match spec["sizes"][k].as_array() {
            Some(s) => (s[0].as_u64().unwrap() as usize, s[1].as_u64().unwrap() as usize, size.2),
            None => size,
        };
        match r {
            Ok(Some(f)) => out.push(describe(&f, size, dump)),
            Ok(None) => {
                ended = true;
                break;
            }
            Err(_) => return json!({"frames": out, "panic": true}),
        }
    }
    for _ in 0..again {
        let r = catch_unwind(AssertUnwindSafe(|| d.read_video_frame::<T>()));
        after.push(match r {
            Ok(Some(f)) => describe(&f, size, false),
            Ok(None) => Value::Null,
            Err(_) => json!("panic"),
        });
    }
    json!({"frames": out, "ended": ended, "after": after})
}
/// Open one decoder and read it to the end.
pub fn decode(spec: &Value) -> Value {
    sim::start(spec);
    sim::arm(true);
    let t0 = if sim::managed() { sim::step() } else { 0 };
    let r = catch_unwind(|| AnyDec::open(0, &spec["dec"]));
    let v = match r {
        Err(_) => json!({"open": "panic"}),
        Ok(Err(e)) => json!({"open": e}),
        Ok(Ok(mut d)) => {
            let vd = catch_unwind(AssertUnwindSafe(|| d.get_video_details()));
            match vd {
                Err(_) => json!({"open": "panic in details"}),
                Ok(vd) => {
                    let o = if d.get_bit_depth() > 8 { drain::<u16>(&mut d, spec) } else { drain::<u8>(&mut d, spec) };
                    #[cfg(feature = "vapoursynth")]
                    let count = d.frame_count();
                    #[cfg(not(feature = "vapoursynth"))]
                    let count = Value::Null;
                    if cfg!(feature = "vapoursynth") {
                        drop(d);
                    } else {
                        std::mem::forget(d);
                    }
                    json!({"open": null, "count": count, "w": vd.width, "h": vd.height, "depth": vd.bit_depth,
                           "cs": format!("{:?}", vd.chroma_sampling), "tb": [vd.time_base.num, vd.time_base.den], "r": o})
                }
            }
        }
    };
    sim::arm(false);
    let t1 = if sim::managed() { sim::step() } else { 0 };
    sim::stop();
    let reads = unsafe { crate::dec::LOG.iter().filter(|e| e.kind == 4).count() };
    #[cfg(feature = "vapoursynth")]
    let vs = crate::vs::report();
    #[cfg(not(feature = "vapoursynth"))]
    let vs = Value::Null;
    json!({"v": v, "steps": t1 - t0, "reads": reads, "vs": vs})
}
