//! Waves, players and resamplers: replay of behaviours of Wave.tla and Resample.tla.
use crate::util::*;
use crate::{Cfg, Sys};
use fundsp::hacker32::*;
use std::sync::Arc;

pub struct WaveSys {
    ws: Vec<Wave>,
    ps: Vec<Box<dyn AudioUnit>>,
    fs: Vec<Box<dyn AudioUnit>>,
    unit: f32,
    part: Part,
}
impl WaveSys {
    pub fn new(cfg: &Cfg) -> Box<dyn Sys> {
        Box::new(WaveSys { ws: vec![Wave::new(0, 44100.0)], ps: vec![], fs: vec![], unit: [1.0, 1.0 / 64.0, 1.0 / 4096.0][(cfg.seed as usize + cfg.variant) % 3], part: Part::new(cfg.variant, cfg.seed + 5) })
    }
}
fn us(v: &Value, k: &str) -> usize {
    gi(v, k) as usize
}
thread_local! {
    /// What the specification's unit is in the wave: waves are linear.
    static UNIT: std::cell::Cell<f32> = const { std::cell::Cell::new(1.0) };
}
fn unit() -> f32 {
    UNIT.with(|u| u.get())
}
fn floats(v: &Value) -> Vec<f32> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as f32 * unit()).collect()
}
/// A wave is what the specification sees of it, by every way of looking.
fn same(w: &Wave, x: &Value, what: &str) -> Result<(), String> {
    let n = us(x, "n");
    let chans = x["c"].as_array().unwrap();
    if w.channels() != chans.len() || w.len() != n || w.length() != n || w.is_empty() != (n == 0) {
        return Err(format!("{what}: {} channels of length {} = {}, specification says {} of {n}", w.channels(), w.len(), w.length(), chans.len()));
    }
    let r = x["r"].as_i64().unwrap() as f64;
    if w.sample_rate() != r || (w.duration() - n as f64 / r).abs() > 1e-9 * n as f64 {
        return Err(format!("{what}: rate {}, duration {}", w.sample_rate(), w.duration()));
    }
    if w.amplitude() != gi(x, "peak") as f32 * unit() {
        return Err(format!("{what}: amplitude {}, specification says {}", w.amplitude(), gi(x, "peak")));
    }
    for (c, s) in chans.iter().enumerate() {
        let s = floats(s);
        if *w.channel(c) != s {
            return Err(format!("{what}: channel {c} is {:?}, specification says {s:?}", w.channel(c)));
        }
        for i in 0..n {
            if w.at(c, i) != s[i] {
                return Err(format!("{what}: sample {i} of channel {c} is {}, specification says {}", w.at(c, i), s[i]));
            }
        }
    }
    Ok(())
}
fn near(w: &Wave, want: &dyn Fn(usize, usize) -> f64, x: &Value, what: &str) -> Result<(), String> {
    if (w.channels(), w.len(), w.sample_rate()) != (x["c"].as_array().unwrap().len(), us(x, "n"), gi(x, "r") as f64) {
        return Err(format!("{what} changed the dimensions"));
    }
    for c in 0..w.channels() {
        if w.channel(c).len() != w.len() {
            return Err(format!("{what} changed the length"));
        }
        for i in 0..w.len() {
            let e = want(c, i);
            if !((w.at(c, i) as f64 - e).abs() <= 1e-5 * (unit() as f64 + e.abs())) {
                return Err(format!("{what}: sample {i} of {} of channel {c} is {}, specification says {e}", w.len(), w.at(c, i)));
            }
        }
    }
    Ok(())
}
impl Sys for WaveSys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        UNIT.with(|u| u.set(self.unit));
        let a = gs(op, "a");
        let k = op.get("k").and_then(|k| k.as_u64()).unwrap_or(0) as usize;
        let mut changed = None;
        match a {
            "make" => {
                let (r, c) = (gi(op, "r") as f64, us(op, "c"));
                self.ws.push(match gs(op, "how") {
                    "new" => Wave::new(c, r),
                    "cap" => Wave::with_capacity(c, r, us(op, "n")),
                    "zero" => Wave::zero(c, r, gi(op, "q") as f64 / 4.0 / r),
                    _ => Wave::from_samples(r, &floats(&op["s"])),
                });
                changed = Some(self.ws.len() - 1);
            }
            "clone" => {
                self.ws.push(self.ws[k].clone());
                changed = Some(self.ws.len() - 1);
            }
            "drop" => {
                self.ws.remove(k);
            }
            "push_channel" => {
                self.ws[k].push_channel(&floats(&op["s"]));
                changed = Some(k);
            }
            "insert_channel" => {
                self.ws[k].insert_channel(us(op, "c"), &floats(&op["s"]));
                changed = Some(k);
            }
            "remove_channel" => {
                let s = self.ws[k].remove_channel(us(op, "c"));
                if s != floats(&op["s"]) {
                    return Err(format!("removed {s:?}, specification says {:?}", floats(&op["s"])));
                }
                changed = Some(k);
            }
            "mix_channel" => {
                self.ws[k].mix_channel(us(op, "c"), gi(op, "o") as isize, &floats(&op["s"]));
                changed = Some(k);
            }
            "append" => {
                let s = self.ws[us(op, "j")].clone();
                self.ws[k].append(&s);
                changed = Some(k);
            }
            "sample" => {
                let (c, i, v) = (us(op, "c"), us(op, "i"), gi(op, "v") as f32 * unit());
                match gs(op, "how") {
                    "set" => self.ws[k].set(c, i, v),
                    "mix" => self.ws[k].mix(c, i, v),
                    _ => self.ws[k].channel_mut(c)[i] = v,
                }
                changed = Some(k);
            }
            "push" => {
                let f = floats(&op["f"]);
                match f.len() {
                    1 => self.ws[k].push(f[0]),
                    2 => self.ws[k].push((f[0], f[1])),
                    3 => self.ws[k].push((f[0], f[1], f[2])),
                    _ => panic!("harness: frame"),
                }
                changed = Some(k);
            }
            "resize" => {
                self.ws[k].resize(us(op, "n"));
                changed = Some(k);
            }
            "retain" => {
                let n = gi(op, "n");
                self.ws[k].retain(gi(op, "o") as isize, if n < 0 { usize::MAX } else { n as usize });
                changed = Some(k);
            }
            "amplify" => {
                self.ws[k].amplify(gi(op, "v") as f32);
                changed = Some(k);
            }
            "rate" => {
                self.ws[k].set_sample_rate(gi(op, "r") as f64);
                changed = Some(k);
            }
            "replace" => {
                let w = &mut self.ws[k];
                let x = &op["x"];
                w.resize(us(x, "n"));
                for (c, s) in x["c"].as_array().unwrap().iter().enumerate() {
                    w.channel_mut(c).copy_from_slice(&floats(s));
                }
                changed = Some(k);
            }
            "normalize" => {
                let mut w = self.ws[k].clone();
                w.normalize();
                let peak = gi(&op["w"], "peak") as f64;
                let d = if peak == 0.0 { 1.0 } else { peak };
                near(&w, &|c, i| op["w"]["c"][c][i].as_i64().unwrap() as f64 / d, &op["w"], "normalized")?;
            }
            "fade" => {
                let mut w = self.ws[k].clone();
                let how = gs(op, "how");
                let time = gi(op, "q") as f64 / 4.0 / w.sample_rate();
                match how {
                    "in" => w.fade_in(time),
                    "out" => w.fade_out(time),
                    _ => w.fade(time),
                }
                let d = gi(op, "d") as f64;
                let f = |i: usize| {
                    (if how != "out" { op["in"][i].as_i64().unwrap() as f64 / d } else { 1.0 })
                        * (if how != "in" { op["out"][i].as_i64().unwrap() as f64 / d } else { 1.0 })
                };
                near(&w, &|c, i| op["w"]["c"][c][i].as_i64().unwrap() as f64 * f(i) * unit() as f64, &op["w"], "faded")?;
            }
            "player" => {
                let w = Arc::new(self.ws[k].clone());
                let c = us(op, "c");
                let l = gi(op, "l");
                let l = if l < 0 { None } else { Some(l as usize) };
                self.ps.push(if op["whole"].as_bool().unwrap() {
                    Box::new(wavech(&w, c, l))
                } else {
                    Box::new(wavech_at(&w, c, us(op, "f"), us(op, "t"), l))
                });
            }
            "play" => {
                let n = us(op, "n");
                let got = render(self.ps[us(op, "p")].as_mut(), &[], n, &mut self.part);
                let want = floats(&op["x"]);
                for i in 0..n {
                    if got[0][i] != want[i] {
                        return Err(format!("sample {i} of {n} is {}, specification says {}", got[0][i], want[i]));
                    }
                }
            }
            "reset" => self.ps[us(op, "p")].reset(),
            "unplayer" => {
                self.ps.remove(us(op, "p"));
            }
            "render" => {
                let p = us(op, "p");
                let r = gi(op, "r") as f64;
                let time = gi(op, "q") as f64 / 4.0 / r;
                let w = if op["st"].as_bool().unwrap() {
                    let u = std::mem::replace(&mut self.ps[p], Box::new(zero()));
                    let mut net = Net::wrap(u) >> Net::wrap(Box::new(split::<U2>()));
                    let ids: Vec<_> = net.ids().copied().collect();
                    let w = Wave::render(r, time, &mut net);
                    let u = net.remove(*ids.iter().find(|i| net.inputs_in(**i) == 0).unwrap());
                    self.ps[p] = u;
                    w
                } else {
                    Wave::render(r, time, self.ps[p].as_mut())
                };
                same(&w, &op["x"], "rendered")?;
            }
            "proc" => self.fs.push(match gs(op, "k") {
                "tick" => Box::new(tick()),
                "dup" => Box::new(pass() ^ tick()),
                "swap" => Box::new(reverse::<U2>() >> (tick() | pass())),
                _ => Box::new(pass() + tick()),
            }),
            "filter" => {
                let w = &self.ws[k];
                let time = gi(op, "q") as f64 / 4.0 / w.sample_rate();
                let y = w.filter(time, self.fs[us(op, "f")].as_mut());
                same(&y, &op["x"], "filtered")?;
            }
            _ => panic!("harness: unknown action {a}"),
        }
        if let Some(k) = changed {
            same(&self.ws[k], &op["x"], "wave")?;
        }
        Ok(())
    }
}

pub struct ResampleSys {
    rs: Vec<Box<dyn AudioUnit>>,
    part: Part,
    rng: Rng,
}
impl ResampleSys {
    pub fn new(cfg: &Cfg) -> Box<dyn Sys> {
        Box::new(ResampleSys { rs: vec![], part: Part::new(cfg.variant, cfg.seed + 6), rng: Rng::new(cfg.seed + 41) })
    }
}
impl Sys for ResampleSys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        UNIT.with(|u| u.set(1.0));
        match gs(op, "a") {
            "make" => {
                let s = op["s"].as_array().unwrap();
                let mut w = Wave::new(0, 44100.0);
                for c in s {
                    w.push_channel(&floats(c));
                }
                let w = Arc::new(w);
                let l = if op["loop"].as_bool().unwrap() { Some(0) } else { None };
                let mut u: Box<dyn AudioUnit> =
                    if s.len() == 1 { Box::new(resample(wavech(&w, 0, l))) } else { Box::new(resample(wavech(&w, 0, l) | wavech(&w, 1, l))) };
                if self.rng.chance(1, 2) {
                    u.set_sample_rate([1000.0, 48000.0][self.rng.below(2)]);
                    u.allocate();
                }
                self.rs.push(u);
            }
            "play" => {
                let n = us(op, "n");
                let (v, d) = (gi(op, "v"), gi(op, "d"));
                let speed: Vec<f32> = (0..n as i64).map(|i| (v + i * d) as f32 / 4.0).collect();
                let got = render(self.rs[us(op, "k")].as_mut(), &[speed], n, &mut self.part);
                for (c, x) in op["x"].as_array().unwrap().iter().enumerate() {
                    for i in 0..n {
                        let want = x[i].as_i64().unwrap() as f64 / 128.0;
                        if !((got[c][i] as f64 - want).abs() < 1e-4) {
                            return Err(format!("output {c}, sample {i} of {n} is {}, specification says {want}", got[c][i]));
                        }
                    }
                }
            }
            "reset" => self.rs[us(op, "k")].reset(),
            "clone" => {
                let u = self.rs[0].clone();
                self.rs.push(u);
            }
            "drop" => {
                self.rs.remove(us(op, "k"));
            }
            a => panic!("harness: unknown action {a}"),
        }
        Ok(())
    }
}
