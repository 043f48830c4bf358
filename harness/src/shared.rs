//! Shared variables, tables, timers, monitors and meters: replay of behaviours of Shared.tla.
use crate::util::*;
use crate::{Cfg, Sys};
use fundsp::combinator::An;
use fundsp::dynamics::Meter;
use fundsp::hacker as h;
use fundsp::net::Net;
use fundsp::shared::{AtomicSynth, AtomicTable, Interpolation, Shared, Var};
use std::sync::Arc;

pub struct SharedSys {
    vars: Vec<Shared>,
    outs: Vec<Shared>,
    table: Arc<AtomicTable>,
    unit: Option<Box<dyn AudioUnit>>,
    synth: Option<Box<dyn AudioUnit>>,
    rate: f64,
    part: Part,
    rng: Rng,
    variant: usize,
}
impl SharedSys {
    pub fn new(cfg: &Cfg) -> Box<dyn Sys> {
        Box::new(SharedSys {
            vars: vec![],
            outs: vec![],
            table: Arc::new(AtomicTable::new(&[0.0])),
            unit: None,
            synth: None,
            rate: 0.0,
            part: Part::new(cfg.variant, cfg.seed + 5),
            rng: Rng::new(cfg.seed + 17),
            variant: cfg.variant / PART_MODES,
        })
    }
    /// What can be read without rendering.
    fn reads(&self, op: &Value) -> Result<(), String> {
        for k in 0..2 {
            let want = op["v"][k].as_i64().unwrap() as f32;
            let got = [self.vars[k].value(), self.vars[k].clone().value(), Var::new(&self.vars[k]).value()];
            if got.iter().any(|g| *g != want) {
                return Err(format!("shared variable {k} reads {got:?}, last set to {want}"));
            }
        }
        let t = gi(op, "t") as f64 / 8192.0;
        if !close(self.outs[0].value() as f64, t, 1e-6) {
            return Err(format!("timer shows {}, stream time is {t}", self.outs[0].value()));
        }
        Ok(())
    }
}
impl Sys for SharedSys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        match gs(op, "a") {
            "make" => {
                let ts = gi(op, "t") as f64 / 1024.0;
                self.rate = gi(op, "r") as f64;
                for k in 0..2 {
                    self.vars.push(h::shared(op["v"][k].as_i64().unwrap() as f32));
                }
                for _ in 0..4 {
                    self.outs.push(h::shared(99.0));
                }
                let (v, o) = (&self.vars, &self.outs);
                let parts: Vec<Box<dyn AudioUnit>> = vec![
                    Box::new(h::timer(&o[0])),
                    Box::new(h::var(&v[0])),
                    Box::new(h::var_fn(&v[1], |x| (x + 1.0, 2.0 * x))),
                    Box::new(h::monitor(&o[1], Meter::Sample)),
                    Box::new(h::monitor(&o[2], Meter::Peak(ts))),
                    Box::new(h::monitor(&o[3], Meter::Rms(ts))),
                    Box::new(h::meter(Meter::Sample)),
                    Box::new(h::meter(Meter::Peak(ts))),
                    Box::new(h::meter(Meter::Rms(ts))),
                ];
                let mut u: Box<dyn AudioUnit> = match self.variant % 3 {
                    0 => Box::new(
                        h::timer(&o[0])
                            | h::var(&v[0])
                            | h::var_fn(&v[1], |x| (x + 1.0, 2.0 * x))
                            | h::monitor(&o[1], Meter::Sample)
                            | h::monitor(&o[2], Meter::Peak(ts))
                            | h::monitor(&o[3], Meter::Rms(ts))
                            | h::meter(Meter::Sample)
                            | h::meter(Meter::Peak(ts))
                            | h::meter(Meter::Rms(ts)),
                    ),
                    1 => {
                        let mut net = Net::new(6, 9);
                        let (mut i, mut o) = (0, 0);
                        for p in parts {
                            let (a, b) = (p.inputs(), p.outputs());
                            let id = net.push(p);
                            for c in 0..a {
                                net.connect_input(i, id, c);
                                i += 1;
                            }
                            for c in 0..b {
                                net.connect_output(id, c, o);
                                o += 1;
                            }
                        }
                        Box::new(net)
                    }
                    _ => {
                        let mut net = Net::new(0, 0);
                        for p in parts {
                            net = net | Net::wrap(p);
                        }
                        Box::new(net)
                    }
                };
                u.set_sample_rate(self.rate);
                self.unit = Some(u);
                let w: Vec<f32> = op["w"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as f32).collect();
                self.table = Arc::new(AtomicTable::new(&w));
                let mut s = AtomicSynth::<f32>::new(self.table.clone());
                s.set_interpolation([Interpolation::Nearest, Interpolation::Linear, Interpolation::Cubic][gi(op, "m") as usize].clone());
                let mut s: Box<dyn AudioUnit> = Box::new(An(s));
                s.set_sample_rate(self.rate);
                self.synth = Some(s);
            }
            "set" => {
                let k = gi(op, "k") as usize - 1;
                let v = gi(op, "v") as f32;
                let s = self.vars[k].clone();
                match self.rng.below(5) {
                    0 => s.set(v),
                    1 => s.set_value(v),
                    2 => Var::new(&s).set_value(v),
                    3 => h::var(&s).set_value(v),
                    _ => {
                        if self.rng.below(8) == 0 {
                            std::thread::spawn(move || s.set(v)).join().unwrap();
                        } else {
                            s.set_value(v)
                        }
                    }
                }
            }
            "table" => self.table.set(gi(op, "i") as usize, gi(op, "v") as f32),
            "reset" => {
                self.unit.as_mut().unwrap().reset();
                self.synth.as_mut().unwrap().reset();
                self.reads(op)?;
            }
            "rate" => {
                self.rate = gi(op, "r") as f64;
                self.unit.as_mut().unwrap().set_sample_rate(self.rate);
                self.synth.as_mut().unwrap().set_sample_rate(self.rate);
                self.reads(op)?;
            }
            "copy" => {
                self.unit = Some(self.unit.as_ref().unwrap().clone());
                self.synth = Some(self.synth.as_ref().unwrap().clone());
                self.reads(op)?;
            }
            "play" => {
                let x: Vec<f32> = op["in"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as f32).collect();
                let n = x.len();
                let mut part = self.part.clone();
                self.part.rng.next();
                let got = render(self.unit.as_mut().unwrap().as_mut(), &vec![x.clone(); 6], n, &mut part);
                let va = op["v"][0].as_i64().unwrap() as f32;
                let vb = op["v"][1].as_i64().unwrap() as f32;
                let lev = |i: usize, k: usize| -> f64 { op["m"][i][k].as_i64().unwrap() as f64 / 4096.0 };
                for i in 0..n {
                    let c: Vec<f32> = (0..9).map(|c| got[c][i]).collect();
                    let at = |why: &str| Err(format!("sample {i} of {n}: {why}: outputs {c:?}, input {}, variables {va} {vb}, peak {}, power {}", x[i], lev(i, 0), lev(i, 1)));
                    if c[0] != va {
                        return at("variable node does not give the variable");
                    }
                    if c[1] != vb + 1.0 || c[2] != 2.0 * vb {
                        return at("mapped variable node does not give the mapped variable");
                    }
                    if (3..6).any(|k| c[k] != x[i]) {
                        return at("monitor altered the signal");
                    }
                    if c[6] != x[i] {
                        return at("sample meter");
                    }
                    if (c[7] as f64 - lev(i, 0)).abs() > 6e-3 {
                        return at("peak meter");
                    }
                    if (c[8] as f64 * c[8] as f64 - lev(i, 1)).abs() > 6e-3 {
                        return at("rms meter");
                    }
                }
                self.reads(op)?;
                let m: Vec<f64> = (1..4).map(|k| self.outs[k].value() as f64).collect();
                if m[0] != gi(op, "last") as f64 || (m[1] - lev(n - 1, 0)).abs() > 6e-3 || (m[2] * m[2] - lev(n - 1, 1)).abs() > 6e-3 {
                    return Err(format!("monitors show {m:?} (sample, peak, rms), expected {}, {}, {}", gi(op, "last"), lev(n - 1, 0), lev(n - 1, 1).sqrt()));
                }
                let f = (self.rate * gi(op, "step") as f64 / (2 * gi(op, "len")) as f64) as f32;
                let tab = render(self.synth.as_mut().unwrap().as_mut(), &[vec![f; n]], n, &mut part);
                for i in 0..n {
                    let want = op["tab"][i].as_i64().unwrap() as f64 / 16.0;
                    if !close(tab[0][i] as f64, want, 1e-5) {
                        return Err(format!("table oscillator sample {i} of {n}: {}, the table says {want}", tab[0][i]));
                    }
                }
            }
            a => panic!("harness: unknown action {a}"),
        }
        Ok(())
    }
}
