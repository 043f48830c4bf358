//! Networks: replay of behaviours of Net.tla and NetRT.tla.
use crate::util::*;
use crate::{Cfg, Sys};
use fundsp::net::{Net, NetError, NodeId, Source};
use fundsp::realnet::NetBackend;
use std::collections::HashSet;
use std::sync::atomic::Ordering;
use std::sync::Arc;

pub fn input_at(t: i64, c: i64) -> i64 {
    (t * (c + 3) + c * 17 + 5).rem_euclid(MODULUS)
}

pub struct NetSys {
    net: Option<Net>,
    back: Option<NetBackend>,
    ids: Vec<NodeId>,
    inner: Vec<Option<NodeId>>,
    part: Part,
    rng: Rng,
    rate: i64,
    lazy: bool,
    nest: bool,
    clones: bool,
    ledger: Option<Arc<Ledger>>,
    backend: bool,
}

impl NetSys {
    pub fn new(cfg: &Cfg) -> Box<dyn Sys> {
        Box::new(NetSys {
            net: None,
            back: None,
            ids: vec![],
            inner: vec![],
            part: Part::new(cfg.variant, cfg.seed + 1),
            rng: Rng::new(cfg.seed + 5),
            rate: 44,
            lazy: cfg.variant % 2 == 1,
            nest: cfg.variant % 3 == 1 && !cfg.has("backend"),
            clones: cfg.variant % 3 == 2 && !cfg.has("ledger"),
            ledger: if cfg.has("ledger") { Some(Arc::new(Ledger::default())) } else { None },
            backend: cfg.has("backend"),
        })
    }
    fn probe(&mut self, ins: usize, outs: usize, base: i64) -> Box<dyn AudioUnit> {
        let p = match &self.ledger {
            Some(l) => Probe::tagged(ins, outs, base, l),
            None => Probe::new(ins, outs, base),
        };
        Box::new(p.rated())
    }
    /// A probe, or a network containing just that; also returns the inner node's id.
    fn nested(&mut self, ins: usize, outs: usize, base: i64) -> (Box<dyn AudioUnit>, Option<NodeId>) {
        let p = self.probe(ins, outs, base);
        if self.nest && self.rng.chance(1, 2) {
            let mut n = Net::new(ins, outs);
            let id = n.chain(p);
            (Box::new(n), Some(id))
        } else {
            (p, None)
        }
    }
    fn n(&mut self) -> &mut Net {
        self.net.as_mut().unwrap()
    }
    fn source(&self, a: i64, b: i64) -> Source {
        match a {
            0 => Source::Zero,
            -1 => Source::Global(b as usize),
            i => Source::Local(self.ids[i as usize - 1], b as usize),
        }
    }
    /// Compare everything that can be asked about the wiring.
    fn check_wiring(&mut self, x: &Value) -> Result<(), String> {
        let cyc = x["cyc"].as_bool().unwrap();
        if !self.lazy {
            let e = self.n().error().clone();
            if (e == Some(NetError::Cycle)) != cyc {
                return Err(format!("error() is {e:?}, specification says cycle: {cyc}"));
            }
            self.n().check();
        }
        let net = self.net.as_ref().unwrap();
        if net.size() as i64 != gi(x, "size") {
            return Err(format!("size {} instead of {}", net.size(), gi(x, "size")));
        }
        let mut live = HashSet::new();
        for (i, nd) in x["n"].as_array().unwrap().iter().enumerate() {
            let id = self.ids[i];
            let alive = gi(nd, "ins") >= 0;
            if net.contains(id) != alive {
                return Err(format!("contains(node {}) is {}", i + 1, net.contains(id)));
            }
            if !alive {
                continue;
            }
            live.insert(id);
            if net.inputs_in(id) as i64 != gi(nd, "ins") || net.outputs_in(id) as i64 != gi(nd, "outs") {
                return Err(format!("arity of node {}: {} {}", i + 1, net.inputs_in(id), net.outputs_in(id)));
            }
            for (q, s) in nd["src"].as_array().unwrap().iter().enumerate() {
                let want = self.source(s[0].as_i64().unwrap(), s[1].as_i64().unwrap());
                let got = net.source(id, q);
                if got != want {
                    return Err(format!("source of node {} input {q}: {got:?} instead of {want:?} {s}", i + 1));
                }
            }
        }
        let got: HashSet<NodeId> = net.ids().cloned().collect();
        if got != live {
            return Err("ids() differs".into());
        }
        for (c, s) in x["o"].as_array().unwrap().iter().enumerate() {
            let want = self.source(s[0].as_i64().unwrap(), s[1].as_i64().unwrap());
            let got = net.output_source(c);
            if got != want {
                return Err(format!("source of output {c}: {got:?} instead of {want:?}"));
            }
        }
        Ok(())
    }
    fn check_returned(&self, mut u: Box<dyn AudioUnit>, base: i64, k: i64) -> Result<(), String> {
        let ins = vec![0.0; u.inputs()];
        let mut outs = vec![0.0; u.outputs()];
        u.tick(&ins, &mut outs);
        for (p, y) in outs.iter().enumerate() {
            let want = Probe::value(base, k + self.rate, p, &[]);
            if *y as i64 != want {
                return Err(format!("the unit given back outputs {y} on channel {p}, the node's unit would output {want}"));
            }
        }
        Ok(())
    }
}

pub fn on_audio<T>(f: impl FnOnce() -> T) -> (T, u64) {
    mem_clear();
    AUDIO_DROPS.with(|x| x.set(0));
    ON_AUDIO.with(|x| x.set(true));
    let r = f();
    ON_AUDIO.with(|x| x.set(false));
    (r, AUDIO_DROPS.with(|x| x.get()))
}

impl Sys for NetSys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        let a = gs(op, "a");
        let p: Vec<i64> = op["p"].as_array().map(|v| v.iter().map(|y| y.as_i64().unwrap()).collect()).unwrap_or_default();
        let id = |s: &Self, k: usize| s.ids[p[k] as usize - 1];
        let u = |k: usize| p[k] as usize;
        match a {
            "init" => {
                let mut net = Net::new(gi(op, "i") as usize, gi(op, "o") as usize);
                self.net = Some(net);
                return Ok(());
            }
            "push" | "chain" => {
                let (unit, inner) = self.nested(u(0), u(1), p[2]);
                self.inner.push(inner);
                let id = if a == "push" { self.n().push(unit) } else { self.n().chain(unit) };
                if self.ids.contains(&id) {
                    return Err("node id handed out twice".into());
                }
                self.ids.push(id);
            }
            "remove" => {
                let i = id(self, 0);
                let r = self.n().remove(i);
                self.check_returned(r, p[1], p[2])?;
            }
            "remove_link" => {
                let i = id(self, 0);
                let r = self.n().remove_link(i);
                self.check_returned(r, p[1], p[2])?;
            }
            "replace" => {
                let i = id(self, 0);
                let (ins, outs) = (self.n().inputs_in(i), self.n().outputs_in(i));
                let (unit, inner) = self.nested(ins, outs, p[1]);
                self.inner[u(0) - 1] = inner;
                let r = self.n().replace(i, unit);
                self.check_returned(r, p[2], p[3])?;
            }
            "set_source" => {
                let (i, s) = (id(self, 0), self.source(p[2], p[3]));
                self.n().set_source(i, u(1), s);
            }
            "connect" => {
                let (i, j) = (id(self, 0), id(self, 2));
                self.n().connect(i, u(1), j, u(3));
            }
            "connect_input" => {
                let j = id(self, 1);
                self.n().connect_input(u(0), j, u(2));
            }
            "disconnect" => {
                let j = id(self, 0);
                self.n().disconnect(j, u(1));
            }
            "connect_output" => {
                let i = id(self, 0);
                self.n().connect_output(i, u(1), u(2));
            }
            "set_output_source" => {
                let s = self.source(p[1], p[2]);
                self.n().set_output_source(u(0), s);
            }
            "disconnect_output" => self.n().disconnect_output(u(0)),
            "pass_through" => self.n().pass_through(u(0), u(1)),
            "pipe_input" => {
                let i = id(self, 0);
                self.n().pipe_input(i);
            }
            "pipe_output" => {
                let i = id(self, 0);
                self.n().pipe_output(i);
            }
            "pipe_all" => {
                let (i, j) = (id(self, 0), id(self, 1));
                self.n().pipe_all(i, j);
            }
            "run" => {
                let (i, j) = (id(self, 0), id(self, 2));
                for q in 0..self.n().inputs_in(j) {
                    self.n().connect(i, u(1) + q, j, q);
                }
            }
            "set" => {
                let i = id(self, 0);
                // reach into nested networks too
                let mut s = Setting::value(p[1] as f32).node(i);
                if let Some(inner) = self.inner[u(0) - 1] {
                    s = s.node(inner);
                }
                self.n().set(s);
            }
            "reset" => self.n().reset(),
            "backend" => self.back = Some(self.n().backend()),
            "commit" => self.n().commit(),
            "breset" => {
                let b = self.back.as_mut().unwrap();
                let (_, drops) = on_audio(|| rt(|| b.reset()));
                still(true, "reset")?;
                if drops > 0 {
                    return Err(format!("{drops} units freed on the audio side"));
                }
            }
            "rate" => {
                let sr = [(44, 44100.0), (48, 48000.0), (96, 96000.0), (22, 22050.0)].iter().find(|x| x.0 == p[0]).unwrap().1;
                self.rate = p[0];
                self.n().set_sample_rate(sr);
            }
            "play" => {
                let n = gi(op, "n") as usize;
                let t = gi(op, "t");
                if self.clones && self.back.is_none() {
                    // a clone playing on must not influence the original
                    let mut c = self.n().clone();
                    let input = vec![vec![1.0f32; 5]; c.inputs()];
                    render(&mut c, &input, 5, &mut self.part.clone());
                }
                let unit: &mut dyn AudioUnit = match &mut self.back {
                    Some(b) => b,
                    None => self.net.as_mut().unwrap(),
                };
                let input: Vec<Vec<f32>> = (0..unit.inputs()).map(|c| (0..n).map(|j| input_at(t + j as i64, c as i64) as f32).collect()).collect();
                let part = &mut self.part;
                let (out, drops) = on_audio(|| render(unit, &input, n, part));
                still(self.back.is_some(), "rendering")?;
                if drops > 0 && self.back.is_some() {
                    return Err(format!("{drops} units freed on the audio side"));
                }
                let x = op["x"].as_array().unwrap();
                for (j, want) in x.iter().enumerate() {
                    for (c, w) in want.as_array().unwrap().iter().enumerate() {
                        let w = w.as_i64().unwrap() as f32;
                        if out[c][j] != w {
                            return Err(format!("sample {j} of {n}, output {c}: got {}, specification says {w}", out[c][j]));
                        }
                    }
                }
                if let (Some(cyc), None) = (op["cyc"].as_bool(), &self.back) {
                    let e = self.n().error().clone();
                    if (e == Some(NetError::Cycle)) != cyc {
                        return Err(format!("after playing, error() is {e:?}, specification says cycle: {cyc}"));
                    }
                }
                return Ok(());
            }
            a => panic!("harness: unknown action {a}"),
        }
        if op.get("x").is_some() {
            self.check_wiring(&op["x"])?;
        }
        Ok(())
    }
    fn finish(&mut self) -> Result<(), String> {
        if let Some(l) = self.ledger.clone() {
            if self.rng.chance(1, 2) {
                self.net = None;
                self.back = None;
            } else {
                self.back = None;
                self.net = None;
            }
            let live = l.live.load(Ordering::SeqCst);
            if live != 0 {
                return Err(format!("{live} units leaked after both halves were dropped"));
            }
        }
        let _ = self.backend;
        Ok(())
    }
}

