//! Delays, taps and feedback loops: replay of behaviours of Delay.tla.
use crate::util::*;
use crate::{Cfg, Sys};
use fundsp::feedback::FeedbackUnit;
use fundsp::hacker as h;
use fundsp::hacker32 as h32;

type B = Box<dyn AudioUnit>;

pub struct DelaySys {
    unit: Option<B>,
    rate: f64,
    taps: usize,
    part: Part,
    rng: Rng,
}

impl DelaySys {
    pub fn new(cfg: &Cfg) -> Box<dyn Sys> {
        Box::new(DelaySys { unit: None, rate: 1024.0, taps: 0, part: Part::new(cfg.variant, cfg.seed + 3), rng: Rng::new(cfg.seed + 11) })
    }
}

const BASE: f64 = 8.0 * 1024.0;

fn build(k: &str, t: &[f64], g: f32, wide: bool, alt: usize) -> B {
    use h::{U1, U2, U4};
    let d = |i: usize| h::delay(t[i] as f32);
    let _ = wide;
    match k {
        "tick1" => if alt == 0 { Box::new(h::tick()) } else { Box::new(h::multitick::<U1>()) },
        "tick2" => if alt == 0 { Box::new(h::multitick::<U2>()) } else { Box::new(h::tick() | h::tick()) },
        "delay" => if alt == 0 { Box::new(d(0)) } else { Box::new(h32::delay(t[0] as f32)) },
        "neg" => Box::new(-d(0)),
        "fb" => if alt == 0 { Box::new(h::feedback(d(0) * g)) } else { Box::new(h::feedback(h::mul(g) >> d(0))) },
        "fbs" => Box::new(h::feedback((d(0) | d(1)) * g)),
        "fb2" => Box::new(h::feedback2(d(0), d(1) * g)),
        "unit" => Box::new(FeedbackUnit::new(t[1], Box::new(d(0) * g))),
        "chain" => Box::new(d(0) >> d(1)),
        "bus" => if alt == 0 { Box::new(d(0) & d(1)) } else { Box::new(h::split::<U2>() >> (d(0) | d(1)) >> (h::pass() + h::pass())) },
        "fdn" => Box::new(h::fdn::<U4, _>(d(0) | d(1) | d(2) | d(3))),
        "fdn2" => Box::new(h::fdn2::<U4, _, _>(d(0) | d(1) | d(2) | d(3), h::multipass::<U4>() * g)),
        "allnest" => if alt == 0 { Box::new(h::allnest_c(g * 0.5, d(0))) } else { Box::new((h::pass() | h::dc(g * 0.5)) >> h::allnest(d(0))) },
        "tap1" => Box::new(h::tap(t[0] as f32, t[1] as f32)),
        "tap2" => Box::new(h::multitap::<U2>(t[0] as f32, t[1] as f32)),
        "lin1" => Box::new(h::tap_linear(t[0] as f32, t[1] as f32)),
        "lin2" => Box::new(h::multitap_linear::<U2>(t[0] as f32, t[1] as f32)),
        _ => panic!("harness: kind {k}"),
    }
}

impl Sys for DelaySys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        match gs(op, "a") {
            "make" => {
                let t: Vec<f64> = op["t"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as f64 / BASE).collect();
                let k = gs(op, "k");
                self.taps = match k {
                    "tap1" | "lin1" => 1,
                    "tap2" | "lin2" => 2,
                    _ => 0,
                };
                let mut u = build(k, &t, gi(op, "g") as f32, false, self.rng.below(2));
                self.rate = gi(op, "r") as f64;
                u.set_sample_rate(self.rate);
                if self.rng.below(2) == 0 {
                    u.allocate();
                }
                self.unit = Some(u);
            }
            "rate" => {
                self.rate = gi(op, "r") as f64;
                let u = self.unit.as_mut().unwrap();
                u.set_sample_rate(self.rate);
                u.reset();
            }
            "reset" => self.unit.as_mut().unwrap().reset(),
            "copy" => {
                let mut c = self.unit.as_ref().unwrap().clone();
                std::mem::swap(&mut c, self.unit.as_mut().unwrap());
                // the other one plays something else
                let ib: Vec<f32> = vec![0.25; c.inputs()];
                let mut ob = vec![0.0; c.outputs()];
                c.tick(&ib, &mut ob);
            }
            "play" => {
                let frames = op["in"].as_array().unwrap();
                let n = frames.len();
                let u = self.unit.as_mut().unwrap();
                let ins = u.inputs();
                let taps = self.taps;
                let rate = self.rate;
                let input: Vec<Vec<f32>> = (0..ins)
                    .map(|c| frames.iter().map(|f| { let v = f[c].as_i64().unwrap() as f64; (if c >= ins - taps { v / 8.0 / rate } else { v }) as f32 }).collect())
                    .collect();
                let mut part = self.part.clone();
                self.part.rng.next();
                let got = render(u.as_mut(), &input, n, &mut part);
                let x = op["x"].as_array().unwrap();
                for i in 0..n {
                    let f = x[i].as_array().unwrap();
                    if f.len() != got.len() {
                        panic!("harness: outputs");
                    }
                    for c in 0..got.len() {
                        let want = f[c].as_i64().unwrap() as f64 / 16384.0;
                        if !close(got[c][i] as f64, want, 0.03) {
                            return Err(format!("sample {i} of {n}, output {c}: got {}, specification says {want}", got[c][i]));
                        }
                    }
                }
            }
            a => panic!("harness: unknown action {a}"),
        }
        Ok(())
    }
}
