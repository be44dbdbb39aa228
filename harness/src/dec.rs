//! Decoders driven by the simulator, and the event log.
use crate::sim;
use av_metrics::video::decode::{Decoder, Rational, VideoDetails};
use av_metrics::video::{ChromaSamplePosition, ChromaSampling, Frame, Pixel};
use serde_json::Value;

#[derive(Clone, Copy)]
pub struct Ev {
    pub step: u64,
    pub tid: i32,
    pub kind: u8, // 0 read, 1 callback, 2 call begins, 3 call returned, 4 read entered
    pub a: i64,
    pub b: i64,
    pub c: i64,
}
// Appended to by whichever thread runs; exactly one does at a time.
pub static mut LOG: Vec<Ev> = Vec::new();
pub fn log(kind: u8, a: i64, b: i64, c: i64) {
    sim::hold(true);
    unsafe {
        if LOG.len() < 400_000 {
            LOG.push(Ev { step: sim::step(), tid: sim::tid(), kind, a, b, c })
        }
    }
    sim::hold(false);
}

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9e3779b97f4a7c15) ^ b.wrapping_add(0x7f4a7c15f39cc060);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn chroma(s: &str) -> ChromaSampling {
    match s {
        "422" => ChromaSampling::Cs422,
        "444" => ChromaSampling::Cs444,
        "400" => ChromaSampling::Cs400,
        _ => ChromaSampling::Cs420,
    }
}
pub fn dims(cs: ChromaSampling, w: usize, h: usize) -> [(usize, usize); 3] {
    let c = match cs {
        ChromaSampling::Cs420 => (w / 2, h / 2),
        ChromaSampling::Cs422 => (w / 2, h),
        ChromaSampling::Cs444 => (w, h),
        ChromaSampling::Cs400 => (0, 0),
    };
    [(w, h), c, c]
}

/// Pixel values of frame `k` of a clip: a blocky picture unique to `k`, plus (noise != 0) a distortion
/// whose strength is unique to `k` too.
#[derive(Clone)]
pub struct Clip {
    pub seed: u64,
    pub noise: u64,
    pub w: usize,
    pub h: usize,
    pub depth: usize,
    pub cs: ChromaSampling,
}
impl Clip {
    pub fn new(v: &Value) -> Clip {
        Clip {
            seed: v["seed"].as_u64().unwrap_or(1),
            noise: v["noise"].as_u64().unwrap_or(0),
            w: v["w"].as_u64().unwrap_or(128) as usize,
            h: v["h"].as_u64().unwrap_or(16) as usize,
            depth: v["depth"].as_u64().unwrap_or(8) as usize,
            cs: chroma(v["chroma"].as_str().unwrap_or("420")),
        }
    }
    pub fn row(&self, k: u64, p: usize, y: usize, w: usize, out: &mut [u16]) {
        let base = mix(self.seed, k);
        let max = (1u32 << self.depth) - 1;
        let sh = self.depth - 8;
        let amp = 1 + mix(self.noise, k) % 24;
        let by = mix(base, ((p as u64) << 32) | (y as u64 / 8));
        let ny = mix(mix(self.noise, k), ((p as u64) << 32) | y as u64);
        let mut n = 0u64;
        for x in 0..w {
            let b = mix(by, x as u64 / 8) % 180 + 30 + ((x as u64 ^ y as u64) & 7);
            let mut v = (b as i64) << sh;
            if self.noise != 0 {
                if x % 4 == 0 {
                    n = mix(ny, x as u64);
                }
                let q = (n >> ((x % 4) * 16)) & 0xffff;
                v += ((q % (2 * amp + 1)) as i64 - amp as i64) << sh;
                v = v.clamp(0, max as i64);
            }
            out[x] = v as u16;
        }
    }
    pub fn frame<T: Pixel>(&self, k: u64) -> Frame<T> {
        let mut f: Frame<T> = Frame::new_with_padding(self.w, self.h, self.cs, 0);
        let d = dims(self.cs, self.w, self.h);
        let mut tmp = vec![0u16; self.w];
        for p in 0..3 {
            let stride = f.planes[p].cfg.stride;
            let (w, h) = d[p];
            for y in 0..h {
                self.row(k, p, y, w, &mut tmp);
                let row = &mut f.planes[p].data[y * stride..y * stride + w];
                for x in 0..w {
                    row[x] = T::cast_from(tmp[x]);
                }
            }
        }
        f
    }
}

#[derive(Clone)]
struct Fault {
    k: u64,
    kind: u8, // 1 panic 2 none (transient) 3 other dimensions 4 delay
    arg: u64,
    left: u32,
}

pub struct SimDec {
    pub id: i64,
    pub clip: Clip,
    len: u64,
    pos: u64,
    declared_depth: usize,
    declared_cs: ChromaSampling,
    faults: Vec<Fault>,
    delay_p: u64,
    delay_ns: u64,
    points: u64,
    pool_work: i64, // -2: none, -1: global pool, i: pool i
}
impl SimDec {
    pub fn new(id: i64, v: &Value) -> SimDec {
        let clip = Clip::new(v);
        let faults = v["faults"]
            .as_array()
            .map(|a| {
                a.iter()
                    .map(|f| Fault {
                        k: f[0].as_u64().unwrap(),
                        kind: match f[1].as_str().unwrap() {
                            "panic" => 1,
                            "none" => 2,
                            "dim" => 3,
                            _ => 4,
                        },
                        arg: f[2].as_u64().unwrap_or(0),
                        left: 1,
                    })
                    .collect()
            })
            .unwrap_or_default();
        SimDec {
            id,
            len: v["len"].as_u64().unwrap_or(4),
            pos: v["start"].as_u64().unwrap_or(0),
            declared_depth: v["depth_decl"].as_u64().map(|d| d as usize).unwrap_or(clip.depth),
            declared_cs: v["chroma_decl"].as_str().map(chroma).unwrap_or(clip.cs),
            clip,
            faults,
            delay_p: v["delay"][0].as_u64().unwrap_or(0),
            delay_ns: v["delay"][1].as_u64().unwrap_or(0),
            points: v["points"].as_u64().unwrap_or(0),
            pool_work: v["pool_work"].as_i64().unwrap_or(-2),
        }
    }
    fn read<T: Pixel>(&mut self) -> Option<Frame<T>> {
        let k = self.pos;
        log(4, self.id, k as i64, 0);
        for _ in 0..self.points {
            sim::point();
        }
        if self.delay_p > 0 && mix(self.clip.seed ^ 0xde1a, (self.id as u64) << 32 | k) % 100 < self.delay_p {
            sim::sleep(1 + mix(self.clip.seed, k ^ 77) % self.delay_ns.max(1));
        }
        let mut dim = 0;
        for f in self.faults.iter_mut() {
            if f.k == k && f.left > 0 {
                match f.kind {
                    1 => {
                        f.left -= 1;
                        self.pos += 1;
                        log(0, self.id, k as i64, 2);
                        panic!("decoder fault injected");
                    }
                    2 => {
                        f.left -= 1;
                        log(0, self.id, k as i64, 1);
                        return None;
                    }
                    3 => dim = f.arg.max(1),
                    _ => sim::sleep(f.arg),
                }
            }
        }
        if k >= self.len {
            log(0, self.id, k as i64, 1);
            return None;
        }
        let fr = if dim != 0 {
            let mut c = self.clip.clone();
            match dim {
                1 => c.h += 8,
                2 => c.w += 128,
                _ => c.cs = if c.cs == ChromaSampling::Cs420 { ChromaSampling::Cs444 } else { ChromaSampling::Cs420 },
            }
            c.frame(k)
        } else if self.pool_work > -2 {
            // a decoder that itself uses the shared worker pool
            let c = &self.clip;
            let work = || {
                use rayon::prelude::*;
                (0..4u64).into_par_iter().map(|i| mix(c.seed, i)).reduce(|| 0, |a, b| a ^ b)
            };
            if self.pool_work >= 0 {
                crate::calls::pool(self.pool_work as usize).install(work);
            } else {
                work();
            }
            self.clip.frame(k)
        } else {
            self.clip.frame(k)
        };
        self.pos += 1;
        log(0, self.id, k as i64, 0);
        Some(fr)
    }
}

impl Decoder for SimDec {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        self.read()
    }
    fn get_bit_depth(&self) -> usize {
        self.declared_depth
    }
    fn get_video_details(&self) -> VideoDetails {
        VideoDetails {
            width: self.clip.w,
            height: self.clip.h,
            bit_depth: self.declared_depth,
            chroma_sampling: self.declared_cs,
            chroma_sample_position: ChromaSamplePosition::Colocated,
            time_base: Rational::new(1, 25),
            luma_padding: 0,
        }
    }
}

pub enum AnyDec {
    Sim(SimDec),
    Y4m(i64, i64, av_metrics_decoders::Y4MDecoder<std::io::BufReader<std::fs::File>>),
    Stdin(i64, i64, av_metrics_decoders::Y4MDecoder<std::io::BufReader<std::io::Stdin>>),
    #[cfg(feature = "ffmpeg")]
    Ff(i64, i64, av_metrics_decoders::FfmpegDecoder),
    #[cfg(feature = "vapoursynth")]
    Vs(i64, i64, av_metrics_decoders::VapoursynthDecoder),
}
impl AnyDec {
    pub fn open(id: i64, v: &Value) -> Result<AnyDec, String> {
        match v["kind"].as_str().unwrap_or("sim") {
            "y4m" => Ok(AnyDec::Y4m(
                id,
                0,
                av_metrics_decoders::y4m::new_decoder_from_file(v["path"].as_str().unwrap())?,
            )),
            "stdin" => Ok(AnyDec::Stdin(id, 0, av_metrics_decoders::y4m::new_decoder_from_stdin()?)),
            #[cfg(feature = "ffmpeg")]
            "ffmpeg" => Ok(AnyDec::Ff(
                id,
                0,
                av_metrics_decoders::FfmpegDecoder::new(v["path"].as_str().unwrap())?,
            )),
            #[cfg(feature = "vapoursynth")]
            "vs" => Ok(AnyDec::Vs(id, 0, crate::vs::open(v)?)),
            _ => Ok(AnyDec::Sim(SimDec::new(id, v))),
        }
    }
}
macro_rules! each {
    ($s:expr, $d:ident => $e:expr) => {
        match $s {
            AnyDec::Sim(_) => unreachable!(),
            AnyDec::Y4m(_, _, $d) => $e,
            AnyDec::Stdin(_, _, $d) => $e,
            #[cfg(feature = "ffmpeg")]
            AnyDec::Ff(_, _, $d) => $e,
            #[cfg(feature = "vapoursynth")]
            AnyDec::Vs(_, _, $d) => $e,
        }
    };
}
impl Decoder for AnyDec {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        let (id, n) = match self {
            AnyDec::Sim(d) => return d.read(),
            AnyDec::Y4m(i, n, _) | AnyDec::Stdin(i, n, _) => {
                *n += 1;
                (*i, *n - 1)
            }
            #[cfg(feature = "ffmpeg")]
            AnyDec::Ff(i, n, _) => {
                *n += 1;
                (*i, *n - 1)
            }
            #[cfg(feature = "vapoursynth")]
            AnyDec::Vs(i, n, _) => {
                *n += 1;
                (*i, *n - 1)
            }
        };
        log(4, id, n, 0);
        let f = each!(self, d => d.read_video_frame::<T>());
        log(0, id, n, if f.is_some() { 0 } else { 1 });
        f
    }
    fn read_specific_frame<T: Pixel>(&mut self, n: usize) -> Option<Frame<T>> {
        match self {
            AnyDec::Sim(d) => d.read_specific_frame::<T>(n),
            o => each!(o, d => d.read_specific_frame::<T>(n)),
        }
    }
    fn get_bit_depth(&self) -> usize {
        match self {
            AnyDec::Sim(d) => d.get_bit_depth(),
            o => each!(o, d => d.get_bit_depth()),
        }
    }
    fn get_video_details(&self) -> VideoDetails {
        match self {
            AnyDec::Sim(d) => d.get_video_details(),
            o => each!(o, d => d.get_video_details()),
        }
    }
}

#[cfg(feature = "vapoursynth")]
impl AnyDec {
    pub fn frame_count(&self) -> Value {
        match self {
            AnyDec::Vs(_, _, d) => d.get_frame_count().map(|n| n.into()).unwrap_or(Value::Null),
            _ => Value::Null,
        }
    }
}
