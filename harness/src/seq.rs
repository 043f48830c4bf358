//! Sequencer: replay of behaviours of Sequencer.tla.
use crate::net::on_audio;
use crate::util::*;
use crate::{Cfg, Sys};
use fundsp::realseq::SequencerBackend;
use fundsp::sequencer::{EventId, Sequencer};
use std::sync::atomic::Ordering;
use std::sync::Arc;

/// Probe of an event: sample k of channel c is base * (c + 1) + k, no modulus
/// needed at these lengths.
fn base_of(e: usize) -> i64 {
    10 + 7 * e as i64
}

pub struct SeqSys {
    front: Option<Sequencer>,
    back: Option<SequencerBackend>,
    ids: Vec<EventId>,
    eases: Vec<String>,
    outs: usize,
    /// samples per second when step = 1 (rate = 2 * that when... see `rate`)
    sr1: f64,
    part: Part,
    jitter: Option<Rng>,
    ledger: Option<Arc<Ledger>>,
    coin: bool,
    step: i64,
}

const INF: i64 = 1_000_000;

impl SeqSys {
    pub fn new(cfg: &Cfg) -> Box<dyn Sys> {
        let replay = cfg.has("replay");
        let backend = cfg.has("backend");
        let srs = [1024.0, 44100.0, 48000.0, 22050.0, 32.0, 96000.0];
        let mut rng = Rng::new(cfg.seed);
        let sr1 = srs[cfg.variant % srs.len()];
        let outs = 1 + rng.below(3);
        let mut front = Sequencer::new(replay, outs);
        front.set_sample_rate(sr1);
        let back = if backend { Some(front.backend()) } else { None };
        let jitter = if cfg.variant % 2 == 1 && !cfg.has("rates") { Some(Rng::new(cfg.seed + 77)) } else { None };
        Box::new(SeqSys {
            front: Some(front),
            back,
            ids: vec![],
            eases: vec![],
            outs,
            sr1,
            part: Part::new(cfg.variant, cfg.seed + 1),
            jitter,
            ledger: if cfg.has("ledger") { Some(Arc::new(Ledger::default())) } else { None },
            coin: rng.chance(1, 2),
            step: 1,
        })
    }
    fn secs(&mut self, t: i64, jit: bool) -> f64 {
        if t >= INF {
            return f64::INFINITY;
        }
        let j = match (&mut self.jitter, jit) {
            (Some(r), true) => (r.unit() - 0.5) * 0.8,
            _ => 0.0,
        };
        (t as f64 + j) / self.sr1
    }
}

impl Sys for SeqSys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        match gs(op, "a") {
            a @ ("push" | "pushr") => {
                let (st, en, fi, fo) = (gi(op, "st"), gi(op, "en"), gi(op, "fi"), gi(op, "fo"));
                // Times between samples round to the nearest sample. Fade phases follow
                // the exact times, so only events without fades get jittered.
                let jit = fi == 0 && fo == 0;
                let mut s = self.secs(st, jit);
                let mut e = self.secs(en, jit);
                if st == en {
                    e = s;
                }
                if e < s {
                    std::mem::swap(&mut s, &mut e);
                }
                let (mut f, mut g) = (self.secs(fi, false), self.secs(fo, false));
                // fades may fill the whole event; keep them within after rounding
                f = f.min(e - s);
                g = g.min(e - s);
                let ease = gs(op, "ease").to_string();
                let base = base_of(self.ids.len() + 1);
                let unit = Box::new(match &self.ledger {
                    Some(l) => Probe::tagged(0, self.outs, base, l),
                    None => Probe::new(0, self.outs, base),
                }.rated());
                let id = if a == "push" {
                    if en < INF && !jit && self.ids.len() % 2 == 1 && self.sr1 == 1024.0 {
                        self.front.as_mut().unwrap().push_duration(s, e - s, fade_of(&ease), f, g, unit)
                    } else {
                        self.front.as_mut().unwrap().push(s, e, fade_of(&ease), f, g, unit)
                    }
                } else {
                    self.front.as_mut().unwrap().push_relative(s, e, fade_of(&ease), f, g, unit)
                };
                self.ids.push(id);
                self.eases.push(ease);
            }
            a @ ("edit" | "editr") => {
                let e = self.secs(gi(op, "en"), false);
                let f = self.secs(gi(op, "fo"), false);
                let id = self.ids[gi(op, "id") as usize - 1];
                if a == "edit" {
                    self.front.as_mut().unwrap().edit(id, e, f);
                } else {
                    self.front.as_mut().unwrap().edit_relative(id, e, f);
                }
            }
            "reset" => self.front.as_mut().unwrap().reset(),
            "breset" => {
                let b = self.back.as_mut().unwrap();
                let (_, d) = on_audio(|| rt(|| b.reset()));
                still(true, "reset")?;
                if d > 0 {
                    return Err(format!("{d} units freed on the audio side"));
                }
            }
            "soak" => {
                for i in 0..gi(op, "n") {
                    let unit = Box::new(match &self.ledger {
                        Some(l) => Probe::tagged(0, self.outs, 3, l),
                        None => Probe::new(0, self.outs, 3),
                    });
                    let front = self.front.as_mut().unwrap();
                    front.push_relative(0.0, 1.0 / self.sr1, Fade::Smooth, 0.0, 0.0, unit);
                    let unit: &mut dyn AudioUnit = match &mut self.back {
                        Some(b) => b,
                        None => front,
                    };
                    let part = &mut self.part;
                    let (_, d) = on_audio(|| render(unit, &[], 2, part));
                    still(self.back.is_some(), "rendering")?;
                    if d > 0 {
                        return Err(format!("{d} units freed on the audio side after {i} events"));
                    }
                    if let Some(l) = &self.ledger {
                        let live = l.live.load(Ordering::SeqCst);
                        if live > 60 {
                            return Err(format!("{live} units alive after {i} events that are all over"));
                        }
                    }
                }
            }
            "rate" => {
                self.step = gi(op, "step");
                let sr = self.sr1 / self.step as f64;
                match &mut self.back {
                    Some(b) => b.set_sample_rate(sr),
                    None => self.front.as_mut().unwrap().set_sample_rate(sr),
                }
            }
            "play" => {
                let n = gi(op, "n") as usize;
                let unit: &mut dyn AudioUnit = match &mut self.back {
                    Some(b) => b,
                    None => self.front.as_mut().unwrap(),
                };
                let part = &mut self.part;
                let (out, d) = on_audio(|| render(unit, &[], n, part));
                still(self.back.is_some(), "rendering")?;
                if d > 0 && self.back.is_some() {
                    return Err(format!("{d} units freed on the audio side"));
                }
                let x = op["x"].as_array().unwrap();
                for i in 0..n {
                    for c in 0..self.outs {
                        let mut want = 0.0;
                        for t in x[i].as_array().unwrap() {
                            let g = |j: usize| t[j].as_i64().unwrap();
                            let e = g(0) as usize;
                            let mut v = Probe::value(base_of(e), g(1) + (self.sr1 / self.step as f64 / 1000.0).round() as i64, c, &[]) as f64;
                            let ease = &self.eases[e - 1];
                            if g(3) > 0 {
                                v *= fade_curve(ease, g(2) as f64 / g(3) as f64);
                            }
                            if g(5) > 0 {
                                v *= fade_curve(ease, g(4) as f64 / g(5) as f64);
                            }
                            want += v;
                        }
                        let got = out[c][i] as f64;
                        if !close(got, want, 3e-5) {
                            return Err(format!("sample {i} of {n}, channel {c}: got {got}, specification says {want} ({})", x[i]));
                        }
                    }
                }
                if self.back.is_none() {
                    let t = self.front.as_mut().unwrap().time() * self.sr1;
                    if (t - gi(op, "t") as f64).abs() > 1e-3 {
                        return Err(format!("time() is {t} samples, specification says {}", op["t"]));
                    }
                }
            }
            a => panic!("harness: unknown action {a}"),
        }
        Ok(())
    }
    fn finish(&mut self) -> Result<(), String> {
        if let Some(l) = self.ledger.clone() {
            if self.coin {
                self.front = None;
                self.back = None;
            } else {
                self.back = None;
                self.front = None;
            }
            let live = l.live.load(Ordering::SeqCst);
            if live != 0 {
                return Err(format!("{live} units leaked after both halves were dropped"));
            }
        }
        Ok(())
    }
}
