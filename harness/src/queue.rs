//! Snoop and ring: replay of behaviours of Queue.tla.
use crate::util::*;
use crate::{Cfg, Sys};
use fundsp::hacker as h;
use fundsp::net::Net;
use fundsp::ring::Ring;
use fundsp::snoop::{Snoop, SnoopBuffer};
use fundsp::{Frame, GenericSequence};
use std::sync::atomic::{AtomicBool, Ordering};

const SIZE: usize = 64;
/// Value of snooped sample number k (0: none).
fn val(k: i64) -> f32 {
    k as f32
}
type Send = Box<dyn FnMut(i64) -> bool + std::marker::Send>;

pub struct QueueSys {
    snoop: Option<Snoop>,
    back: Option<Box<dyn AudioUnit>>,
    send: Option<Send>,
    ring: Option<Box<dyn AudioUnit>>,
    width: usize,
    cap: usize,
    part: Part,
    rng: Rng,
    variant: usize,
}

macro_rules! make_ring {
    ($n:ty, $cap:expr) => {{
        let (sender, unit) = Ring::<$n>::new($cap);
        let send: Send = Box::new(move |k| {
            let frame: Frame<f32, $n> = Frame::generate(|c| k as f32 + 0.25 * c as f32);
            sender.try_send(frame).is_ok()
        });
        (send, Box::new(unit) as Box<dyn AudioUnit>)
    }};
}

impl QueueSys {
    pub fn new(cfg: &Cfg) -> Box<dyn Sys> {
        Box::new(QueueSys {
            snoop: None,
            back: None,
            send: None,
            ring: None,
            width: 1,
            cap: 0,
            part: Part::new(cfg.variant, cfg.seed + 9),
            rng: Rng::new(cfg.seed + 23),
            variant: cfg.variant / PART_MODES,
        })
    }
    fn view(&self, op: &Value) -> Result<(), String> {
        let s = self.snoop.as_ref().unwrap();
        let x = &op["x"];
        if s.total() as i64 != gi(x, "total") {
            return Err(format!("snoop counted {} samples received, specification says {}", s.total(), gi(x, "total")));
        }
        if s.capacity() < self.cap {
            return Err(format!("snoop capacity {}, asked for {}", s.capacity(), self.cap));
        }
        for (i, l) in x["latest"].as_array().unwrap().iter().enumerate() {
            let want = val(l.as_i64().unwrap());
            if s.at(i) != want {
                return Err(format!("snooped sample at reverse index {i} is {}, specification says {want}", s.at(i)));
            }
        }
        Ok(())
    }
}
fn feed(u: &mut dyn AudioUnit, from: i64, n: usize, part: &mut Part) -> Result<(), String> {
    let input: Vec<f32> = (1..=n as i64).map(|i| val(from + i)).collect();
    let got = render(u, &[input.clone()], n, part);
    for i in 0..n {
        if got[0][i] != input[i] {
            return Err(format!("snooping altered the signal: sample {i}: {} in, {} out", input[i], got[0][i]));
        }
    }
    Ok(())
}
fn whole(b: &SnoopBuffer, first: i64) -> Result<(), String> {
    if b.size() != SIZE || b.len() != SIZE {
        return Err(format!("snoop buffer size {}, length {}", b.size(), b.len()));
    }
    for i in 0..SIZE {
        if b.at(i) != val(first + i as i64) {
            return Err(format!("snoop buffer starting at sample {first}: item {i} is {}", b.at(i)));
        }
    }
    Ok(())
}
impl Sys for QueueSys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        match gs(op, "a") {
            "make" => {
                let (front, back) = h::snoop(gi(op, "c") as usize);
                self.snoop = Some(front);
                let back: Box<dyn AudioUnit> = match self.variant % 3 {
                    0 => Box::new(back),
                    1 => Box::new(h::pass() >> back),
                    _ => {
                        let mut net = Net::new(1, 1);
                        net.chain(Box::new(back));
                        if self.rng.below(2) == 0 {
                            Box::new(net)
                        } else {
                            Box::new(net.backend())
                        }
                    }
                };
                self.back = Some(back);
                self.cap = gi(op, "c") as usize;
                let cap = gi(op, "r") as usize;
                self.width = gi(op, "w") as usize;
                let (send, ring) = match self.width {
                    1 => make_ring!(h::U1, cap),
                    2 => make_ring!(h::U2, cap),
                    _ => make_ring!(h::U3, cap),
                };
                self.send = Some(send);
                self.ring = Some(ring);
            }
            "play" => {
                let mut part = self.part.clone();
                self.part.rng.next();
                feed(self.back.as_mut().unwrap().as_mut(), gi(op, "from"), gi(op, "n") as usize, &mut part)?;
            }
            "get" => {
                let b = self.snoop.as_mut().unwrap().get();
                let first = gi(op, "b");
                match (b, first) {
                    (None, 0) => (),
                    (Some(b), f) if f > 0 => whole(&b, f)?,
                    (b, f) => return Err(format!("snoop buffer available: {}, specification says {}", b.is_some(), f > 0)),
                }
                self.view(op)?;
            }
            "update" => {
                self.snoop.as_mut().unwrap().update();
                self.view(op)?;
            }
            "race" => {
                let mut back = self.back.take().unwrap();
                let mut part = self.part.clone();
                self.part.rng.next();
                let (from, n) = (gi(op, "from"), gi(op, "n") as usize);
                let done = std::sync::Arc::new(AtomicBool::new(false));
                let done2 = done.clone();
                let th = std::thread::spawn(move || {
                    let r = feed(back.as_mut(), from, n, &mut part);
                    done2.store(true, Ordering::SeqCst);
                    (back, r)
                });
                let snoop = self.snoop.as_mut().unwrap();
                let mut last = 0i64;
                let mut bad = None;
                loop {
                    let end = done.load(Ordering::SeqCst);
                    while let Some(b) = snoop.get() {
                        let first = b.at(0) as i64;
                        if bad.is_none() && first <= last {
                            bad = Some(format!("snoop buffer starting at {first} received after sample {last}"));
                        }
                        if let (None, Err(e)) = (&bad, whole(&b, first)) {
                            bad = Some(e);
                        }
                        last = first + SIZE as i64 - 1;
                        if bad.is_none() && (0..SIZE.min(snoop.capacity())).any(|i| snoop.at(i) != val(last - i as i64)) {
                            bad = Some("latest samples are not the last received".into());
                        }
                    }
                    if end {
                        break;
                    }
                    std::thread::yield_now();
                }
                let (back, r) = th.join().map_err(|_| "panic while rendering")?;
                self.back = Some(back);
                r?;
                if let Some(b) = bad {
                    return Err(b);
                }
                self.view(op)?;
            }
            "flood" => {
                let mut part = self.part.clone();
                let n = gi(op, "n") as usize;
                feed(self.back.as_mut().unwrap().as_mut(), gi(op, "from"), n, &mut part)?;
                let s = self.snoop.as_mut().unwrap();
                let mut want: Vec<i64> = op["old"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
                let start = gi(op, "start");
                while (want.len() as i64) < gi(op, "total") {
                    want.push(start + (want.len() - op["old"].as_array().unwrap().len()) as i64 * SIZE as i64);
                }
                let before = s.total();
                let mut count = 0;
                let mut at = 0;
                while let Some(b) = s.get() {
                    let first = b.at(0) as i64;
                    match want[at..].iter().position(|f| *f == first) {
                        None => return Err(format!("snoop buffer starting at {first} out of order, repeated or never sent")),
                        Some(k) => {
                            if k > 0 && count < gi(op, "sure") {
                                return Err(format!("snoop buffer {} lost although the queue had room", want[at]));
                            }
                            at += k + 1;
                        }
                    }
                    whole(&b, first)?;
                    count += 1;
                }
                if count < gi(op, "sure") {
                    return Err(format!("only {count} snoop buffers waiting"));
                }
                if s.total() - before != count as u64 * SIZE as u64 {
                    return Err(format!("{count} buffers received, but the counter rose by {}", s.total() - before));
                }
            }
            "reset" => self.back.as_mut().unwrap().reset(),
            "copy" => {
                // A clone of the ring is not connected; it must leave the original alone.
                let mut r = self.ring.as_ref().unwrap().clone();
                let mut o = vec![0.0; self.width];
                r.tick(&[], &mut o);
                if self.variant % 3 != 2 {
                    self.back = Some(self.back.as_ref().unwrap().clone());
                }
            }
            "send" => {
                let from = gi(op, "from");
                let send = self.send.as_mut().unwrap();
                let mut ok = 0;
                for i in 1..=gi(op, "n") {
                    if send(from + i) {
                        ok += 1;
                        if ok != i {
                            return Err(format!("ring accepted frame {} after refusing one", from + i));
                        }
                    }
                }
                if ok != gi(op, "ok") {
                    return Err(format!("ring accepted {ok} frames, specification says {}", gi(op, "ok")));
                }
            }
            "rplay" => {
                let x = op["x"].as_array().unwrap();
                let n = x.len();
                let mut part = self.part.clone();
                self.part.rng.next();
                let got = render(self.ring.as_mut().unwrap().as_mut(), &[], n, &mut part);
                for i in 0..n {
                    let k = x[i].as_i64().unwrap();
                    for c in 0..self.width {
                        let want = if k == 0 { 0.0 } else { k as f32 + 0.25 * c as f32 };
                        if got[c][i] != want {
                            return Err(format!("ring sample {i} of {n} channel {c}: {}, specification says {want}", got[c][i]));
                        }
                    }
                }
            }
            "rrace" => {
                let (left, from, n) = (gi(op, "left"), gi(op, "from"), gi(op, "n"));
                let mut send = self.send.take().unwrap();
                let th = std::thread::spawn(move || {
                    let t = std::time::Instant::now();
                    for i in 1..=n {
                        while !send(from + i) && t.elapsed().as_secs() < 20 {
                            std::thread::yield_now();
                        }
                    }
                    send
                });
                let ring = self.ring.as_mut().unwrap();
                let mut next = from - left + 1;
                let t = std::time::Instant::now();
                let mut part = self.part.clone();
                let mut err = None;
                while next <= from + n && err.is_none() {
                    if t.elapsed().as_secs() > 20 {
                        err = Some(format!("frame {next} never played"));
                        break;
                    }
                    let k = 1 + self.rng.below(64);
                    let got = render(ring.as_mut(), &[], k, &mut part);
                    for i in 0..k {
                        if got[0][i] == 0.0 {
                            continue;
                        }
                        if (0..self.width).any(|c| got[c][i] != next as f32 + 0.25 * c as f32) {
                            err = Some(format!("ring played {} when frame {next} was next", got[0][i]));
                            break;
                        }
                        next += 1;
                    }
                    std::thread::yield_now();
                }
                self.send = Some(th.join().map_err(|_| "panic while sending")?);
                if let Some(e) = err {
                    return Err(e);
                }
            }
            a => panic!("harness: unknown action {a}"),
        }
        Ok(())
    }
}
