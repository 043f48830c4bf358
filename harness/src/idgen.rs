//! Identifier generation: replay of schedules of IdGen.tla, one atomic operation per step.
use crate::util::*;
use crate::{Cfg, Sys};
use fundsp::hacker as h;
use fundsp::net::Net;
use fundsp::sequencer::Sequencer;
use fundsp::shared::IdGenerator;
use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;
use std::time::Duration;

const DANGER: u32 = 0xfff00000;

enum Event {
    Gate,
    Done(u64),
}
thread_local! {
    static GATE: RefCell<Option<(Sender<Event>, Arc<std::sync::Mutex<Receiver<()>>>)>> = const { RefCell::new(None) };
}
/// Called by the library before each atomic operation of an identifier request.
#[no_mangle]
pub fn fundsp_verif_point() {
    let g = GATE.with(|g| g.borrow().clone());
    if let Some((evt, cmd)) = g {
        let _ = evt.send(Event::Gate);
        let _ = cmd.lock().unwrap().recv();
    }
}

struct Worker {
    cmd: Sender<()>,
    evt: Receiver<Event>,
    busy: bool,
}
pub struct IdSys {
    gen: Arc<IdGenerator>,
    workers: Vec<Worker>,
    ids: HashSet<u64>,
}
impl IdSys {
    pub fn new(_cfg: &Cfg) -> Box<dyn Sys> {
        Box::new(IdSys { gen: Arc::new(IdGenerator::new()), workers: vec![], ids: HashSet::new() })
    }
    fn take(&mut self, id: u64) -> Result<(), String> {
        if self.ids.insert(id) {
            Ok(())
        } else {
            Err(format!("identifier {id:#x} was handed out twice"))
        }
    }
    fn worker(&mut self, t: usize) -> &mut Worker {
        while self.workers.len() <= t {
            let (cmd, cmd2) = channel();
            let (evt2, evt) = channel();
            let gen = self.gen.clone();
            std::thread::spawn(move || {
                let cmd2 = Arc::new(std::sync::Mutex::new(cmd2));
                GATE.with(|g| *g.borrow_mut() = Some((evt2.clone(), cmd2.clone())));
                loop {
                    if cmd2.lock().unwrap().recv().is_err() {
                        break;
                    }
                    let id = gen.get_id();
                    if evt2.send(Event::Done(id)).is_err() {
                        break;
                    }
                }
            });
            self.workers.push(Worker { cmd, evt, busy: false });
        }
        &mut self.workers[t]
    }
    /// Let thread t do its next operation.
    fn go(&mut self, t: usize) -> Result<(), String> {
        let w = self.worker(t);
        let wait = Duration::from_secs(20);
        let mut done = None;
        if !w.busy {
            w.busy = true;
            w.cmd.send(()).unwrap();
            match w.evt.recv_timeout(wait).map_err(|_| "identifier request hangs or panics")? {
                Event::Gate => (),
                Event::Done(id) => done = Some(id),
            }
        }
        if done.is_none() {
            w.cmd.send(()).map_err(|_| "identifier request panicked")?;
            match w.evt.recv_timeout(wait).map_err(|_| "identifier request hangs or panics")? {
                Event::Gate => (),
                Event::Done(id) => done = Some(id),
            }
        }
        if let Some(id) = done {
            w.busy = false;
            self.take(id)?;
        }
        Ok(())
    }
}
impl Sys for IdSys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        match gs(op, "a") {
            "skip" if self.workers.iter().any(|w| w.busy) => (),
            "make" | "skip" | "cycle" => self.gen.verif_skip_to(DANGER - gi(op, "back") as u32),
            "go" => self.go(gi(op, "t") as usize - 1)?,
            "burst" => {
                let (n, k) = (gi(op, "n") as usize, gi(op, "k") as usize);
                let nodes = gs(op, "what") == "nodes";
                if !nodes {
                    self.gen.verif_skip_to(DANGER - gi(op, "back") as u32);
                }
                // Each burst uses up a high word or more, so bursts never repeat each other.
                let hs: Vec<_> = (0..n)
                    .map(|_| {
                        let gen = self.gen.clone();
                        std::thread::spawn(move || -> Vec<u64> {
                            if !nodes {
                                return (0..k).map(|_| gen.get_id()).collect();
                            }
                            let mut net = Net::new(0, 0);
                            let ids: Vec<_> = (0..k / 4).map(|_| net.push(Box::new(h::dc(1.0)))).collect();
                            ids.iter().map(|i| i.value()).collect()
                        })
                    })
                    .collect();
                let mut got = vec![];
                for h in hs {
                    got.extend(h.join().map_err(|_| "identifier request panicked")?);
                }
                if nodes {
                    let mut seen = HashSet::new();
                    for id in got {
                        if !seen.insert(id) {
                            return Err(format!("node identifier {id:#x} was handed out twice"));
                        }
                    }
                    let mut seen = HashSet::new();
                    let hs: Vec<_> = (0..n)
                        .map(|_| {
                            std::thread::spawn(move || {
                                let mut s = Sequencer::new(false, 1);
                                (0..k / 4).map(|i| s.push(i as f64, i as f64 + 1.0, Fade::Smooth, 0.0, 0.0, Box::new(h::dc(1.0)))).collect::<Vec<_>>()
                            })
                        })
                        .collect();
                    for h in hs {
                        for id in h.join().map_err(|_| "identifier request panicked")? {
                            if !seen.insert(id) {
                                return Err("event identifier was handed out twice".into());
                            }
                        }
                    }
                } else {
                    for id in got {
                        self.take(id)?;
                    }
                }
            }
            a => panic!("harness: unknown action {a}"),
        }
        Ok(())
    }
    fn finish(&mut self) -> Result<(), String> {
        for t in 0..self.workers.len() {
            while self.workers[t].busy {
                self.go(t)?;
            }
        }
        Ok(())
    }
}
