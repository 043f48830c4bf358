//! Look-ahead limiter: replay of behaviours of Limiter.tla.
use crate::util::*;
use crate::{Cfg, Sys};
use fundsp::combinator::An;
use fundsp::dynamics::Limiter;
use fundsp::hacker as h;

pub struct LimitSys {
    unit: Option<Box<dyn AudioUnit>>,
    part: Part,
    rng: Rng,
}
impl LimitSys {
    pub fn new(cfg: &Cfg) -> Box<dyn Sys> {
        Box::new(LimitSys { unit: None, part: Part::new(cfg.variant, cfg.seed + 3), rng: Rng::new(cfg.seed + 11) })
    }
}
impl Sys for LimitSys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        match gs(op, "a") {
            "make" => {
                let attack = (gi(op, "t") as f64 / 8192.0) as f32;
                let release = attack * gi(op, "e") as f32;
                let r = gi(op, "r") as f64;
                let mut u: Box<dyn AudioUnit> = match gi(op, "c") {
                    1 => Box::new(h::limiter(attack, release)),
                    2 => Box::new(h::limiter_stereo(attack, release)),
                    _ => Box::new(An(Limiter::<h::U3>::new(44100.0, attack, release))),
                };
                u.set_sample_rate(r);
                if self.rng.below(2) == 0 {
                    u.allocate();
                }
                self.unit = Some(u);
            }
            "rate" => self.unit.as_mut().unwrap().set_sample_rate(gi(op, "r") as f64),
            "reset" => self.unit.as_mut().unwrap().reset(),
            "copy" => {
                let mut c = self.unit.as_ref().unwrap().clone();
                std::mem::swap(&mut c, self.unit.as_mut().unwrap());
                let ib: Vec<f32> = vec![5.25; c.inputs()];
                let mut ob = vec![0.0; c.outputs()];
                c.tick(&ib, &mut ob);
            }
            "play" => {
                let frames = op["in"].as_array().unwrap();
                let n = frames.len();
                let u = self.unit.as_mut().unwrap();
                let lat = u.latency();
                if lat != Some(gi(op, "lat") as f64) {
                    return Err(format!("reported latency {lat:?}, specification says {}", gi(op, "lat")));
                }
                let ins = u.inputs();
                let input: Vec<Vec<f32>> = (0..ins).map(|c| frames.iter().map(|f| f[c].as_i64().unwrap() as f32 / 100.0).collect()).collect();
                let mut part = self.part.clone();
                self.part.rng.next();
                let got = render(u.as_mut(), &input, n, &mut part);
                let x = op["x"].as_array().unwrap();
                for i in 0..n {
                    let quiet = x[i]["q"].as_bool().unwrap();
                    let peak = gi(&x[i], "p") as f64 / 100.0;
                    let d: Vec<f64> = (0..ins).map(|c| x[i]["d"][c].as_i64().unwrap() as f64 / 100.0).collect();
                    let g: Vec<f64> = (0..ins).map(|c| got[c][i] as f64).collect();
                    let at = |why: &str| Err(format!("sample {i} of {n}: {why}: input delayed by look-ahead {d:?}, output {g:?}, peak so far {peak}"));
                    // the gain, from the loudest channel
                    let l = (0..ins).fold(0, |l, c| if d[c].abs() > d[l].abs() { c } else { l });
                    if d[l] == 0.0 {
                        if g.iter().any(|x| *x != 0.0) {
                            return at("sound out of silence");
                        }
                        continue;
                    }
                    let gain = g[l] / d[l];
                    if !(gain > 0.0 && gain <= 1.0 + 1e-5) {
                        return at("gain not in 0...1");
                    }
                    if quiet && (gain - 1.0).abs() > 1e-4 {
                        return at("quiet signal altered");
                    }
                    if gain < (1.0 - 1e-4) / (1.11 * peak).max(1.0) {
                        return at("limited more than needed for the loudest sound");
                    }
                    for c in 0..ins {
                        if (g[c] - gain * d[c]).abs() > 1e-5 * (1.0 + g[c].abs()) {
                            return at("gain differs between channels");
                        }
                        if g[c].abs() > 1.0 + 1e-5 {
                            return at("output over full scale");
                        }
                    }
                }
            }
            a => panic!("harness: unknown action {a}"),
        }
        Ok(())
    }
}
