//! Envelopes and the live ADSR: replay of behaviours of Envelope.tla and Adsr.tla.
use crate::util::*;
use crate::{Cfg, Sys};
use fundsp::combinator::An;
use fundsp::envelope::{Envelope, EnvelopeIn};
use fundsp::hacker as h;
use fundsp::hacker32 as h32;
use fundsp::net::Net;
use fundsp::Frame;
use h::{U1, U2};
use std::sync::{Arc, Mutex};

/// Sampling points: time, value.
type Points = Arc<Mutex<Vec<(f64, f64)>>>;

pub struct EnvSys {
    unit: Option<Box<dyn AudioUnit>>,
    id: Option<fundsp::net::NodeId>,
    points: Points,
    exact: bool,
    time: f64,
    rate: f64,
    ival: (f64, f64),
    part: Part,
    rng: Rng,
    variant: usize,
}
impl EnvSys {
    pub fn new(cfg: &Cfg) -> Box<dyn Sys> {
        Box::new(EnvSys {
            unit: None,
            id: None,
            points: Arc::new(Mutex::new(vec![])),
            exact: true,
            time: 0.0,
            rate: 0.0,
            ival: (0.0, 0.0),
            part: Part::new(cfg.variant, cfg.seed + 2),
            rng: Rng::new(cfg.seed + 29),
            variant: cfg.variant / PART_MODES,
        })
    }
}
impl Sys for EnvSys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        match gs(op, "a") {
            "make" => {
                let (a, b, c, k) = (gi(op, "fa") as f64, gi(op, "fb") as f64, gi(op, "fc") as f64, gi(op, "fk") as f64);
                let f = move |t: f64| -> f64 {
                    let t = t * 8192.0;
                    a + (b * t.min(k) + c * (t - k).max(0.0)) / 1000.0
                };
                let pts = self.points.clone();
                let rec = move |t: f64, x: f64| -> f64 {
                    let y = f(t) + x;
                    pts.lock().unwrap().push((t, y));
                    y
                };
                let i = gi(op, "i") as f64 / 8192.0;
                let kind = gs(op, "k").to_string();
                let u: Box<dyn AudioUnit> = match kind.as_str() {
                    "env" => Box::new(An(Envelope::<f64, _, _>::new(i, move |t: f64| {
                        let y = rec(t, 0.0);
                        (y, 2.0 * y + 1.0)
                    }))),
                    "env32" => Box::new(h32::envelope(move |t: f32| {
                        let y = rec(t as f64, 0.0) as f32;
                        (y, 2.0 * y + 1.0)
                    })),
                    "lfo" => Box::new(h::lfo(move |t: f64| {
                        let y = rec(t, 0.0);
                        (y, 2.0 * y + 1.0)
                    })),
                    "env2" => Box::new(h::envelope2(move |t: f64, x: f64| {
                        let y = rec(t, x);
                        (y, 2.0 * y + 1.0)
                    })),
                    "env3" => Box::new(h32::envelope3(move |t: f32, x: f32, z: f32| {
                        let y = rec(t as f64, (x + z) as f64 / 2.0) as f32;
                        (y, 2.0 * y + 1.0)
                    })),
                    "in" => Box::new(An(EnvelopeIn::<f64, _, U1, _>::new(i, move |t: f64, x: &Frame<f32, U1>| {
                        let y = rec(t, x[0] as f64);
                        (y, 2.0 * y + 1.0)
                    }))),
                    _ => Box::new(An(EnvelopeIn::<f32, _, U2, _>::new(i as f32, move |t: f32, x: &Frame<f32, U2>| {
                        let y = rec(t as f64, x[0] as f64) as f32;
                        (y, 2.0 * y + 1.0)
                    }))),
                };
                let iv = if ["env", "in", "in2"].contains(&kind.as_str()) { i } else { 0.002 };
                self.ival = (iv, iv);
                let mut u: Box<dyn AudioUnit> = if self.variant % 3 == 2 {
                    let (net, id) = Net::wrap_id(u);
                    self.id = Some(id);
                    Box::new(net)
                } else {
                    u
                };
                self.rate = gi(op, "r") as f64;
                self.points.lock().unwrap().clear();
                u.set_sample_rate(self.rate);
                u.reset();
                if self.variant % 3 == 1 {
                    u.ping(false, fundsp::math::AttoHash::new(self.rng.next()));
                }
                self.unit = Some(u);
            }
            "rate" => {
                self.rate = gi(op, "r") as f64;
                self.unit.as_mut().unwrap().set_sample_rate(self.rate)
            }
            "reset" => {
                self.points.lock().unwrap().clear();
                self.time = 0.0;
                self.exact = true;
                self.unit.as_mut().unwrap().reset()
            }
            "interval" => {
                let i = gi(op, "i") as f64 / 8192.0;
                self.ival = (self.ival.0.min(i), self.ival.1.max(i));
                let mut setting = Setting::interval(i as f32);
                if let Some(id) = self.id {
                    setting = setting.node(id);
                }
                self.unit.as_mut().unwrap().set(setting);
            }
            "copy" => self.unit = Some(self.unit.as_ref().unwrap().clone()),
            "play" => {
                let n = gi(op, "n") as usize;
                let u = self.unit.as_mut().unwrap();
                let input = vec![vec![gi(op, "in") as f32; n]; u.inputs()];
                let mut part = self.part.clone();
                self.part.rng.next();
                let got = render(u.as_mut(), &input, n, &mut part);
                for i in 0..n {
                    let (lo, hi) = (op["x"][i][0].as_i64().unwrap() as f64 / 1000.0, op["x"][i][1].as_i64().unwrap() as f64 / 1000.0);
                    let y = got[0][i] as f64;
                    let tol = 2e-4 * (1.0 + lo.abs().max(hi.abs()));
                    if !(y >= lo - tol && y <= hi + tol) {
                        return Err(format!("sample {i} of {n}: envelope {y}, specification says {lo} ... {hi}"));
                    }
                    if !close(got[1][i] as f64, 2.0 * y + 1.0, 2e-4) {
                        return Err(format!("sample {i} of {n}: second channel {}, first channel {y}", got[1][i]));
                    }
                }
                // The output follows the recorded sampling points.
                let pts = self.points.lock().unwrap().clone();
                for w in pts.windows(2) {
                    let gap = w[1].0 - w[0].0;
                    if !(gap >= self.ival.0 * 0.7499 && gap <= self.ival.1 * 1.2501) {
                        return Err(format!("sampling points {} and {} are not one interval ({:?}) apart", w[0].0, w[1].0, self.ival));
                    }
                }
                for i in 0..n {
                    let t = self.time + i as f64 / self.rate;
                    if let Some(k) = pts.windows(2).position(|w| w[0].0 <= t && t < w[1].0) {
                        let (a, b) = (pts[k], pts[k + 1]);
                        let want = a.1 + (b.1 - a.1) * (t - a.0) / (b.0 - a.0);
                        if !close(got[0][i] as f64, want, 3e-4) {
                            return Err(format!("sample {i} of {n}, time {t}: envelope {}, between its sampling points {a:?} and {b:?} it is {want}", got[0][i]));
                        }
                    } else {
                        return Err(format!("no sampling points around time {t} ({} points up to {:?})", pts.len(), pts.last()));
                    }
                }
                self.time += n as f64 / self.rate;
            }
            a => panic!("harness: unknown action {a}"),
        }
        Ok(())
    }
}

pub struct AdsrSys {
    units: Vec<Box<dyn AudioUnit>>,
    part: Part,
    variant: usize,
    rng: Rng,
}
impl AdsrSys {
    pub fn new(cfg: &Cfg) -> Box<dyn Sys> {
        Box::new(AdsrSys { units: vec![], part: Part::new(cfg.variant, cfg.seed + 4), variant: cfg.variant / PART_MODES, rng: Rng::new(cfg.seed + 31) })
    }
}
impl Sys for AdsrSys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        match gs(op, "a") {
            "make" => {
                let t = |k: &str| gi(op, k) as f32 / 8192.0;
                let f = if self.variant % 2 == 0 { 0 } else { 1 };
                for _ in 0..2 {
                    let mut u: Box<dyn AudioUnit> = if f == 0 {
                        Box::new(h::adsr_live(t("at"), t("d"), gi(op, "s") as f32 / 1000.0, t("re")))
                    } else {
                        Box::new(Net::wrap(Box::new(h32::adsr_live(t("at"), t("d"), gi(op, "s") as f32 / 1000.0, t("re")))))
                    };
                    u.set_sample_rate(gi(op, "r") as f64);
                    self.units.push(u);
                }
            }
            "rate" => self.units.iter_mut().for_each(|u| u.set_sample_rate(gi(op, "r") as f64)),
            "reset" => self.units[gi(op, "k") as usize - 1].reset(),
            "copy" => {
                let k = gi(op, "k") as usize - 1;
                self.units[1 - k] = self.units[k].clone();
            }
            "play" => {
                let n = gi(op, "n") as usize;
                let k = gi(op, "k") as usize - 1;
                let g = if op["gate"].as_bool().unwrap() { *self.rng.pick(&[1.0, 0.25, 3.0]) } else { *self.rng.pick(&[0.0, 0.0, -1.0]) };
                let mut part = self.part.clone();
                self.part.rng.next();
                let got = render(self.units[k].as_mut(), &[vec![g; n]], n, &mut part);
                for i in 0..n {
                    let y = got[0][i] as f64;
                    if !(y >= -1e-5 && y <= 1.00001) {
                        return Err(format!("sample {i} of {n}: {y} is not in 0 ... 1"));
                    }
                    if i % 8 == 0 {
                        let x = &op["x"][i / 8];
                        let (lo, hi) = (x[0].as_i64().unwrap() as f64 / 1000.0, x[1].as_i64().unwrap() as f64 / 1000.0);
                        if y < lo - 2e-3 || y > hi + 2e-3 {
                            return Err(format!("sample {i} of {n}: {y}, specification says {lo} ... {hi}"));
                        }
                    }
                }
            }
            a => panic!("harness: unknown action {a}"),
        }
        Ok(())
    }
}
