//! Crossfades in slots and networks: replay of behaviours of Crossfade.tla.
use crate::net::on_audio;
use crate::util::*;
use crate::{Cfg, Sys};
use fundsp::net::{Net, NodeId};
use fundsp::realnet::NetBackend;
use fundsp::slot::{Slot, SlotBackend};
use std::sync::atomic::Ordering;
use std::sync::Arc;

/// Probe whose output also shows the sample rate it was told.
#[derive(Clone)]
struct RateProbe {
    p: Probe,
    sr1: f64,
}
impl AudioUnit for RateProbe {
    fn reset(&mut self) {
        self.p.reset();
    }
    fn set_sample_rate(&mut self, sr: f64) {
        self.p.set_sample_rate(sr);
    }
    fn allocate(&mut self) {
        self.p.allocate();
    }
    fn tick(&mut self, i: &[f32], o: &mut [f32]) {
        self.p.tick(i, o);
        for y in o.iter_mut() {
            *y += (100.0 * self.p.sr / self.sr1) as f32;
        }
    }
    fn process(&mut self, n: usize, i: &BufferRef, o: &mut BufferMut) {
        self.p.process(n, i, o);
        for c in 0..self.p.outs {
            for j in 0..n {
                o.set_f32(c, j, o.at_f32(c, j) + (100.0 * self.p.sr / self.sr1) as f32);
            }
        }
    }
    fn inputs(&self) -> usize {
        self.p.ins
    }
    fn outputs(&self) -> usize {
        self.p.outs
    }
    fn route(&mut self, i: &SignalFrame, f: f64) -> SignalFrame {
        self.p.route(i, f)
    }
    fn get_id(&self) -> u64 {
        9998
    }
    fn footprint(&self) -> usize {
        1
    }
}

enum Place {
    None,
    Slot(Slot, SlotBackend),
    Net(Net, NodeId),
    Rt(Net, NodeId, NetBackend),
}

pub struct XfadeSys {
    place: Place,
    sr1: f64,
    ins: usize,
    outs: usize,
    mode: String,
    tick: bool,
    rng: Rng,
    t: i64,
    /// updates sent since the last rendering call
    sent: usize,
    ledger: Option<Arc<Ledger>>,
}

impl XfadeSys {
    pub fn new(cfg: &Cfg) -> Box<dyn Sys> {
        let mut rng = Rng::new(cfg.seed + 3);
        let sr1 = [1024.0, 8192.0, 32768.0, 16384.0][cfg.variant % 4];
        let mode = ["slot", "net", "rt"].iter().find(|m| cfg.has(m)).unwrap_or_else(|| panic!("harness: mode")).to_string();
        Box::new(XfadeSys {
            place: Place::None,
            sr1,
            ins: rng.below(3),
            outs: 1 + rng.below(3),
            mode,
            tick: cfg.variant % 3 == 0,
            rng,
            t: 0,
            sent: 0,
            ledger: if cfg.has("ledger") { Some(Arc::new(Ledger::default())) } else { None },
        })
    }
    fn base(u: i64) -> i64 {
        (u * 91 + 5) % MODULUS
    }
    fn unit(&self, u: i64) -> Box<dyn AudioUnit> {
        let b = Self::base(u);
        let p = match &self.ledger {
            Some(l) => Probe::tagged(self.ins, self.outs, b, l),
            None => Probe::new(self.ins, self.outs, b),
        };
        Box::new(RateProbe { p, sr1: self.sr1 })
    }
}

impl Sys for XfadeSys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        match gs(op, "a") {
            "init" => {
                let u1 = self.unit(1);
                if self.mode == "slot" {
                    let (s, mut b) = Slot::new(u1);
                    b.set_sample_rate(self.sr1);
                    b.allocate();
                    self.place = Place::Slot(s, b);
                    return Ok(());
                }
                let mut net = Net::new(self.ins, self.outs);
                net.set_sample_rate(self.sr1);
                // some unrelated company
                if self.rng.chance(1, 2) {
                    net.push(Box::new(Probe::new(1, 1, 3)));
                }
                let id = if op["fadein"].as_bool().unwrap() {
                    net.fade_in(fade_of(gs(op, "ease")), (gi(op, "len") as f64 / self.sr1) as f32, u1)
                } else {
                    net.push(u1)
                };
                net.pipe_input(id);
                net.pipe_output(id);
                if self.mode == "rt" {
                    let b = net.backend();
                    self.place = Place::Rt(net, id, b);
                } else {
                    self.place = Place::Net(net, id);
                }
            }
            "fade" => {
                let u = self.unit(gi(op, "u"));
                let len = gi(op, "len") as f64 / self.sr1;
                let ease = fade_of(gs(op, "ease"));
                match &mut self.place {
                    Place::Slot(s, _) => {
                        self.sent += 1;
                        s.set(ease, len, u)
                    }
                    Place::Net(n, id) | Place::Rt(n, id, _) => n.crossfade(*id, ease, len as f32, u),
                    Place::None => unreachable!(),
                }
            }
            "replace" => {
                let u = self.unit(gi(op, "u"));
                match &mut self.place {
                    Place::Net(n, id) | Place::Rt(n, id, _) => drop(n.replace(*id, u)),
                    _ => panic!("harness: replace"),
                }
            }
            "commit" => match &mut self.place {
                Place::Rt(n, id, _) => {
                    // a rewiring that changes nothing about this node
                    if self.rng.chance(1, 3) {
                        let x = n.push(Box::new(Probe::new(2, 1, 8)));
                        if self.outs > 0 {
                            n.connect(*id, 0, x, 1);
                        }
                        if self.rng.chance(1, 2) {
                            n.remove(x);
                        }
                    }
                    n.commit()
                }
                _ => panic!("harness: commit"),
            },
            "reset" => match &mut self.place {
                Place::Slot(_, b) => {
                    let (_, d) = on_audio(|| rt(|| b.reset()));
                    still(true, "reset")?;
                    if d > 0 {
                        return Err(format!("{d} units freed on the audio side"));
                    }
                }
                Place::Net(n, _) | Place::Rt(n, _, _) => n.reset(),
                Place::None => unreachable!(),
            },
            "breset" => match &mut self.place {
                Place::Rt(_, _, b) => {
                    let (_, d) = on_audio(|| rt(|| b.reset()));
                    still(true, "reset")?;
                    if d > 0 {
                        return Err(format!("{d} units freed on the audio side"));
                    }
                }
                _ => panic!("harness: breset"),
            },
            "soak" => {
                for i in 1..=gi(op, "n") {
                    let u = self.unit(gi(op, "u") + i);
                    let len = 1.0 / self.sr1;
                    let unit: &mut dyn AudioUnit = match &mut self.place {
                        Place::Slot(s, b) => {
                            s.set(Fade::Smooth, len, u);
                            b
                        }
                        Place::Net(n, id) => {
                            n.crossfade(*id, Fade::Smooth, len as f32, u);
                            n
                        }
                        Place::Rt(n, id, b) => {
                            n.crossfade(*id, Fade::Smooth, len as f32, u);
                            n.commit();
                            b
                        }
                        Place::None => unreachable!(),
                    };
                    let input = vec![vec![1.0f32; 2]; self.ins];
                    let (_, d) = on_audio(|| render(unit, &input, 2, &mut Part::new(1, 1)));
                    still(!matches!(self.place, Place::Net(..)), "rendering")?;
                    if d > 0 {
                        return Err(format!("{d} units freed on the audio side after {i} updates"));
                    }
                    if let Some(l) = &self.ledger {
                        let live = l.live.load(Ordering::SeqCst);
                        if live > 60 {
                            return Err(format!("{live} units alive after {i} updates"));
                        }
                    }
                }
            }
            "rate" => {
                let sr = self.sr1 * gi(op, "r") as f64;
                match &mut self.place {
                    Place::Slot(_, b) => {
                        b.set_sample_rate(sr);
                        b.allocate();
                        if self.sent > 0 {
                            // units on the way are for the old rate
                            watch_memory(false);
                        }
                    }
                    Place::Net(n, _) | Place::Rt(n, _, _) => n.set_sample_rate(sr),
                    Place::None => unreachable!(),
                }
            }
            "play" => {
                let n = gi(op, "n") as usize;
                let t = self.t;
                self.t += n as i64;
                let input: Vec<Vec<f32>> = (0..self.ins).map(|c| (0..n).map(|j| crate::net::input_at(t + j as i64, c as i64) as f32).collect()).collect();
                let real = !matches!(self.place, Place::Net(..));
                self.sent = 0;
                let unit: &mut dyn AudioUnit = match &mut self.place {
                    Place::Slot(_, b) => b,
                    Place::Net(n, _) => n,
                    Place::Rt(_, _, b) => b,
                    Place::None => unreachable!(),
                };
                // one rendering call
                let tick = n == 1 && self.tick;
                let mut ib = BufferVec::new(self.ins);
                let mut ob = BufferVec::new(self.outs);
                for c in 0..self.ins {
                    for j in 0..64 {
                        ib.set_f32(c, j, if j < n { input[c][j] } else { GARBAGE });
                    }
                }
                for c in 0..self.outs {
                    for j in 0..64 {
                        ob.set_f32(c, j, GARBAGE);
                    }
                }
                let (_, d) = on_audio(|| {
                    if tick {
                        let i: Vec<f32> = input.iter().map(|c| c[0]).collect();
                        let mut o = vec![0.0; ob.channels()];
                        rt(|| unit.tick(&i, &mut o));
                        for (c, y) in o.iter().enumerate() {
                            ob.set_f32(c, 0, *y);
                        }
                    } else {
                        rt(|| unit.process(n, &ib.buffer_ref(), &mut ob.buffer_mut()));
                    }
                });
                still(real, "rendering")?;
                if d > 0 && real {
                    return Err(format!("{d} units freed on the audio side"));
                }
                let x = op["x"].as_array().unwrap();
                for j in 0..n {
                    let ins: Vec<i64> = input.iter().map(|c| c[j] as i64).collect();
                    for c in 0..self.outs {
                        let mut want = 0.0;
                        for term in x[j].as_array().unwrap() {
                            let g = |i: usize| term[i].as_i64().unwrap();
                            let mut v = if g(0) == 0 { 0.0 } else { (Probe::value(Self::base(g(0)), g(1), c, &ins) + 100 * g(2)) as f64 };
                            if g(4) > 0 {
                                v *= fade_curve(term[5].as_str().unwrap(), g(3) as f64 / g(4) as f64);
                            }
                            want += v;
                        }
                        let got = ob.at_f32(c, j) as f64;
                        if !close(got, want, 3e-5) {
                            return Err(format!("sample {j} of {n}, channel {c}: got {got}, specification says {want} ({})", x[j]));
                        }
                    }
                }
            }
            a => panic!("harness: unknown action {a}"),
        }
        Ok(())
    }
    fn finish(&mut self) -> Result<(), String> {
        if let Some(l) = self.ledger.clone() {
            match std::mem::replace(&mut self.place, Place::None) {
                Place::Slot(a, b) => {
                    if self.rng.chance(1, 2) {
                        drop(a);
                        drop(b);
                    } else {
                        drop(b);
                        drop(a);
                    }
                }
                Place::Rt(a, _, b) => {
                    if self.rng.chance(1, 2) {
                        drop(a);
                        drop(b);
                    } else {
                        drop(b);
                        drop(a);
                    }
                }
                _ => (),
            }
            let live = l.live.load(Ordering::SeqCst);
            if live != 0 {
                return Err(format!("{live} units leaked after both halves were dropped"));
            }
        }
        Ok(())
    }
}
