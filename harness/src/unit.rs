//! Units: replay of behaviours of Units.tla into every unit of the library.
use crate::units::{kinds, signal, In, Kind, P};
use crate::util::*;
use crate::{Cfg, Sys};
use fundsp::audiounit::{BigBlockAdapter, BlockRateAdapter};
use fundsp::net::Net;

type B = Box<dyn AudioUnit>;

enum Host {
    Unit(B),
    Big(BigBlockAdapter),
}
impl Host {
    fn unit(&mut self) -> &mut dyn AudioUnit {
        match self {
            Host::Unit(u) => u.as_mut(),
            Host::Big(b) => b,
        }
    }
}

pub struct UnitSys {
    kind: usize,
    seed: u64,
    host: usize,
    inst: Vec<Host>,
    part: Part,
    rng: Rng,
}

pub fn setting(p: i64, v: i64) -> Setting {
    let x = v as f32 / 10.0;
    match p {
        1 => Setting::center(100.0 + 3000.0 * x),
        2 => Setting::center_q(100.0 + 3000.0 * x, 0.5 + 2.0 * x),
        3 => Setting::center_q_gain(100.0 + 3000.0 * x, 0.5 + 2.0 * x, 0.5 + x),
        4 => Setting::value(x),
        5 => Setting::value(x - 0.5),
        6 => Setting::biquad(x * 0.5, 0.1, x, 0.2, -0.1),
        7 => Setting::delay(0.6 + x),
        8 => Setting::time(0.01 + 0.1 * x),
        9 => Setting::roughness(x),
        10 => Setting::variability(x),
        11 => Setting::pan(2.0 * x - 1.0),
        12 => Setting::attack_release(0.01 + 0.1 * x, 0.3 - 0.2 * x),
        13 => Setting::phase(x),
        14 => Setting::seed(v as u64),
        15 => Setting::interval(0.001 + 0.005 * x),
        _ => Setting::subsample(1 + v as u32),
    }
}

impl UnitSys {
    pub fn new(cfg: &Cfg) -> Box<dyn Sys> {
        let mut rng = Rng::new(cfg.seed + 9);
        Box::new(UnitSys { kind: 0, seed: 0, host: rng.below(6), inst: vec![], part: Part::new(cfg.variant, cfg.seed + 1), rng })
    }
    fn k(&self) -> &'static Kind {
        &kinds()[self.kind]
    }
    fn build(&self) -> Host {
        let u = (self.k().make)(&mut P(Rng::new(self.seed)));
        match self.host {
            1 => Host::Big(BigBlockAdapter::new(u)),
            2 => Host::Unit(Box::new(Net::wrap(u))),
            3 if u.inputs() == 0 => Host::Unit(Box::new(BlockRateAdapter::new(u))),
            _ => Host::Unit(u),
        }
    }
    fn setting(&self, p: i64, v: i64) -> Setting {
        setting(p, v)
    }
    /// The stream at the end of the tape, one sample at a time, from a new unit.
    fn reference(&self, tape: &Value, s: u64, at: u64, n: usize) -> Vec<Vec<f32>> {
        let k = self.k();
        let mut h = self.build();
        let u = h.unit();
        u.set_sample_rate(gi(tape, "rate") as f64);
        let sets = tape["sets"].as_array().unwrap();
        for e in sets {
            u.set(self.setting(gi(e, "p"), gi(e, "v")));
        }
        if !sets.is_empty() {
            u.reset();
        }
        let mut out = vec![0.0; u.outputs()];
        let mut run = |u: &mut dyn AudioUnit, s: u64, at: u64, n: usize, keep: Option<&mut Vec<Vec<f32>>>| {
            let mut keep = keep;
            for i in 0..n {
                let input: Vec<f32> = k.ins.iter().enumerate().map(|(c, kind)| signal(*kind, s, c, at + i as u64)).collect();
                u.tick(&input, &mut out);
                if let Some(w) = &mut keep {
                    for c in 0..out.len() {
                        w[c].push(out[c]);
                    }
                }
            }
        };
        for e in tape["ev"].as_array().unwrap() {
            match gs(e, "k") {
                "in" => run(u, gi(e, "s") as u64, gi(e, "at") as u64, gi(e, "n") as usize, None),
                "rate" => u.set_sample_rate(gi(e, "r") as f64),
                "set" => u.set(self.setting(gi(e, "p"), gi(e, "v"))),
                _ => panic!("harness: tape"),
            }
        }
        let mut w = vec![vec![]; u.outputs()];
        run(u, s, at, n, Some(&mut w));
        w
    }
    fn quiet(&self, still: &Value, what: &str) -> Result<(), String> {
        let (a, f) = mem_events();
        if still.as_bool().unwrap() && a + f > 0 {
            let k = self.k();
            return Err(format!("unit {}{} (seed {}, host {}): {what} allocated memory {a} times and freed memory {f} times although it was allocated in advance",
                k.name, if k.wide { "/64" } else { "/32" }, self.seed, self.host));
        }
        Ok(())
    }
    fn play(&mut self, i: usize, input: &[Vec<f32>], n: usize) -> Vec<Vec<f32>> {
        let mode = self.rng.below(4);
        let h = &mut self.inst[i];
        if let Host::Big(b) = h {
            if mode < 2 {
                // one big block, or several
                let outs = b.outputs();
                let mut out = vec![vec![GARBAGE; n]; outs];
                let cut = if mode == 0 { n } else { 1 + self.rng.below(n) };
                let mut from = 0;
                while from < n {
                    let to = (from + cut).min(n);
                    let ins: Vec<&[f32]> = input.iter().map(|c| &c[from..to]).collect();
                    let mut o: Vec<&mut [f32]> = out.iter_mut().map(|c| &mut c[from..to]).collect();
                    rt(|| b.process_big(to - from, &ins, &mut o));
                    from = to;
                }
                return out;
            }
        }
        let u = h.unit();
        let (ins, outs) = (u.inputs(), u.outputs());
        if mode == 2 && ins == outs && (1..=2).contains(&ins) {
            let mut out = vec![vec![]; outs];
            for j in 0..n {
                if ins == 1 {
                    out[0].push(rt(|| u.filter_mono(input[0][j])));
                } else {
                    let (x, y) = rt(|| u.filter_stereo(input[0][j], input[1][j]));
                    out[0].push(x);
                    out[1].push(y);
                }
            }
            return out;
        }
        if mode == 2 && ins == 0 && (1..=2).contains(&outs) {
            let mut out = vec![vec![]; outs];
            for _ in 0..n {
                if outs == 1 {
                    out[0].push(rt(|| u.get_mono()));
                } else {
                    let (x, y) = rt(|| u.get_stereo());
                    out[0].push(x);
                    out[1].push(y);
                }
            }
            return out;
        }
        let mut part = self.part.clone();
        self.part.rng.next();
        render(u, input, n, &mut part)
    }
}

fn same(a: f32, b: f32, tol: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    close(a as f64, b as f64, tol)
}

impl Sys for UnitSys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        let a = gs(op, "a");
        let i = op.get("i").and_then(|x| x.as_u64()).map(|x| x as usize - 1).unwrap_or(0);
        match a {
            "kind" => {
                self.kind = gi(op, "k") as usize % kinds().len();
                self.seed = gi(op, "s") as u64;
                let mut h = self.build();
                let u = h.unit();
                if u.inputs() != self.k().ins.len() {
                    panic!("harness: inputs of {}", self.k().name);
                }
                self.inst.push(h);
            }
            "new" => {
                let h = self.build();
                self.inst.push(h);
            }
            "play" => {
                let (s, at, n) = (gi(op, "s") as u64, gi(op, "at") as u64, gi(op, "n") as usize);
                let k = self.k();
                let input: Vec<Vec<f32>> = k.ins.iter().enumerate().map(|(c, kind)| (0..n).map(|j| signal(*kind, s, c, at + j as u64)).collect()).collect();
                mem_clear();
                let got = self.play(i, &input, n);
                if let Some(still) = op.get("still") {
                    return self.quiet(still, "rendering");
                }
                let want = self.reference(&op["x"], s, at, n + 1);
                if k.flags.contains("split") {
                    return Ok(());
                }
                // Phase is accumulated in single precision: steep spots may be a fraction of a sample off.
                let warp = if k.flags.contains("phase") { 0.15 } else { 0.0 };
                // Rounding ties may go either way.
                let mut ties = if k.flags.contains("tie") { 1 } else { 0 };
                for c in 0..want.len() {
                    for j in 0..n {
                        let slope = (if j > 0 { (want[c][j] - want[c][j - 1]).abs() } else { 0.0 }).max((want[c][j + 1] - want[c][j]).abs());
                        if !same(got[c][j], want[c][j], k.tol * 1e-5 + warp * slope as f64) {
                            if ties > 0 && same(got[c][j], want[c][j], 0.5) {
                                ties -= 1;
                                continue;
                            }
                            return Err(format!("unit {}{} (seed {}, host {}): sample {} of {}, output {}: got {}, a new unit with the same history gives {}",
                                k.name, if k.wide { "/64" } else { "/32" }, self.seed, self.host, j, n, c, got[c][j], want[c][j]));
                        }
                    }
                }
            }
            "rate" => self.inst[i].unit().set_sample_rate(gi(op, "r") as f64),
            "set" => {
                let s = self.setting(gi(op, "p"), gi(op, "v"));
                self.inst[i].unit().set(s)
            }
            "reset" => {
                mem_clear();
                let u = self.inst[i].unit();
                rt(|| u.reset());
                if let Some(still) = op.get("still") {
                    return self.quiet(still, "reset");
                }
            }
            "clone" => {
                let h = match &self.inst[i] {
                    Host::Unit(u) => Host::Unit(u.clone()),
                    Host::Big(b) => Host::Big(b.clone()),
                };
                self.inst.push(h);
            }
            "alloc" => self.inst[i].unit().allocate(),
            "query" => {
                let u = self.inst[i].unit();
                let mut f = SignalFrame::new(u.inputs());
                f.fill(Signal::Value(0.5));
                let r = u.route(&f, 440.0);
                if r.len() != u.outputs() {
                    return Err(format!("unit {}: route gives {} signals", kinds()[self.kind].name, r.len()));
                }
                u.latency();
                if u.outputs() > 0 {
                    u.response(0, 1000.0);
                }
                u.footprint();
                u.get_id();
            }
            "empty" => {
                let u = self.inst[i].unit();
                let ib = BufferVec::new(u.inputs());
                let mut ob = BufferVec::new(u.outputs());
                u.process(0, &ib.buffer_ref(), &mut ob.buffer_mut());
            }
            _ => panic!("harness: unknown action {a}"),
        }
        Ok(())
    }
}
