//! Conformance harness: replays behaviours of the TLA+ specifications into fundsp.
//! Every check compiles the systems it needs (features).
#[cfg(feature = "delay")]
mod delay;
#[cfg(feature = "expr")]
mod dispatch;
#[cfg(feature = "expr")]
mod expr;
mod idgen; // defines the hook
#[cfg(feature = "buffers")]
mod buffers;
#[cfg(feature = "waves")]
mod waves;
#[cfg(feature = "env")]
mod env;
#[cfg(feature = "limit")]
mod limit;
#[cfg(feature = "queue")]
mod queue;
#[cfg(feature = "shared")]
mod shared;
mod net;
#[cfg(feature = "seq")]
mod seq;
#[cfg(feature = "unit")]
mod unit;
#[cfg(feature = "unit")]
mod units;
mod util;
#[cfg(feature = "xfade")]
mod xfade;
use std::collections::HashSet;
use std::io::{BufRead, BufReader};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

#[global_allocator]
static MEMORY: Counting = Counting;

/// A system under replay. `step` performs one action and compares the outcome
/// with what the specification says (carried in the action record).
pub trait Sys {
    fn step(&mut self, op: &Value) -> Result<(), String>;
    fn finish(&mut self) -> Result<(), String> {
        Ok(())
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub variant: usize,
    pub seed: u64,
    pub flags: HashSet<String>,
}
impl Cfg {
    pub fn has(&self, f: &str) -> bool {
        self.flags.contains(f)
    }
}

fn make(sys: &str, cfg: &Cfg) -> Box<dyn Sys> {
    util::watch_memory(cfg.has("mem"));
    match sys {
        #[cfg(feature = "delay")]
        "delay" => delay::DelaySys::new(cfg),
        #[cfg(feature = "limit")]
        "limit" => limit::LimitSys::new(cfg),
        #[cfg(feature = "env")]
        "env" => env::EnvSys::new(cfg),
        #[cfg(feature = "env")]
        "adsr" => env::AdsrSys::new(cfg),
        #[cfg(feature = "buffers")]
        "buffers" => buffers::BufSys::new(cfg),
        #[cfg(feature = "waves")]
        "wave" => waves::WaveSys::new(cfg),
        #[cfg(feature = "waves")]
        "resample" => waves::ResampleSys::new(cfg),
        "idgen" => idgen::IdSys::new(cfg),
        #[cfg(feature = "queue")]
        "queue" => queue::QueueSys::new(cfg),
        #[cfg(feature = "shared")]
        "shared" => shared::SharedSys::new(cfg),
        #[cfg(feature = "unit")]
        "unit" => unit::UnitSys::new(cfg),
        #[cfg(feature = "expr")]
        "expr" => expr::ExprSys::new(cfg),
        #[cfg(feature = "expr")]
        "route" => expr::RouteSys::new(cfg),
        #[cfg(feature = "xfade")]
        "xfade" => xfade::XfadeSys::new(cfg),
        "net" => net::NetSys::new(cfg),
        #[cfg(feature = "seq")]
        "seq" => seq::SeqSys::new(cfg),
        _ => {
            eprintln!("unknown system {sys}");
            std::process::exit(2)
        }
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}

fn run_one(sys: &str, cfg: &Cfg, trace: &[Value]) -> Result<(), (usize, String)> {
    let mut at = 0usize;
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), (usize, String)> {
        let mut s = make(sys, cfg);
        for (i, op) in trace.iter().enumerate() {
            at = i;
            s.step(op).map_err(|m| (i, m))?;
        }
        at = trace.len();
        s.finish().map_err(|m| (trace.len(), m))
    }));
    match r {
        Ok(r) => r,
        Err(e) => {
            let t = panic_text(e);
            if t.starts_with("harness:") {
                eprintln!("HARNESS ERROR {t}");
                std::process::exit(2);
            }
            Err((at, format!("panic: {t}")))
        }
    }
}

fn parse_line(l: &str) -> Option<Vec<Value>> {
    let l = l.trim();
    let inner: String;
    let s = if l.starts_with("\"[") {
        inner = serde_json::from_str(l).ok()?;
        &inner
    } else if l.starts_with('[') {
        l
    } else {
        return None;
    };
    match serde_json::from_str::<Value>(s).ok()? {
        Value::Array(a) => Some(a),
        _ => None,
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str, d: &str| -> String {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string())
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let sys = args[2].clone();
            let variants: usize = opt("--variants", "2").parse().unwrap();
            let seed: u64 = opt("--seed", "1").parse().unwrap();
            let flags: HashSet<String> = opt("--flags", "").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
            let report = opt("--report", "/dev/stdout");
            let limit: u64 = opt("--hang", "60").parse().unwrap();
            let mut traces: Vec<Vec<Value>> = vec![];
            for f in opt("--in", "").split(',') {
                let f = std::fs::File::open(f).unwrap_or_else(|e| {
                    eprintln!("cannot open {f}: {e}");
                    std::process::exit(2)
                });
                for l in BufReader::new(f).lines() {
                    if let Some(t) = parse_line(&l.unwrap()) {
                        traces.push(t);
                    }
                }
            }
            if traces.is_empty() {
                eprintln!("no behaviours");
                std::process::exit(2);
            }
            let traces = Arc::new(traces);
            let next = Arc::new(AtomicUsize::new(0));
            let steps = Arc::new(AtomicU64::new(0));
            let fails: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(vec![]));
            let total = traces.len() * variants;
            let one: Option<usize> = opt("--variant", "").parse().ok();
            let threads = 8;
            let maxfail: usize = std::env::var("FDH_MAXFAIL").ok().and_then(|x| x.parse().ok()).unwrap_or(5);
            let beat: Arc<Vec<Mutex<Option<(usize, Instant)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
            let mut hs = vec![];
            for th in 0..threads {
                let (traces, next, steps, fails, sys, flags, beat) = (traces.clone(), next.clone(), steps.clone(), fails.clone(), sys.clone(), flags.clone(), beat.clone());
                hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || loop {
                    let j = next.fetch_add(1, Ordering::SeqCst);
                    if j >= total || fails.lock().unwrap().len() >= maxfail {
                        *beat[th].lock().unwrap() = None;
                        break;
                    }
                    let (ti, mut v) = (j / variants, j % variants);
                    // rotate variants over behaviours so that few runs per behaviour still meet all
                    v = v * 7 + ti;
                    if let Some(o) = one {
                        v = o;
                    }
                    *beat[th].lock().unwrap() = Some((j, Instant::now()));
                    let cfg = Cfg { variant: v, seed: seed.wrapping_mul(1000003).wrapping_add(v as u64 * 31 + if one.is_some() { 0 } else { 0 }), flags: flags.clone() };
                    steps.fetch_add(traces[ti].len() as u64, Ordering::Relaxed);
                    if let Err((at, m)) = run_one(&sys, &cfg, &traces[ti]) {
                        fails.lock().unwrap().push(json!({"system": sys, "trace": traces[ti], "variant": v, "seed": seed, "flags": flags.iter().collect::<Vec<_>>(), "step": at, "action": traces[ti].get(at), "message": m}));
                    }
                }).unwrap());
            }
            loop {
                std::thread::sleep(Duration::from_millis(20));
                if hs.iter().all(|h| h.is_finished()) {
                    break;
                }
                for b in beat.iter() {
                    if let Some((j, t)) = *b.lock().unwrap() {
                        if t.elapsed().as_secs() > limit {
                            let ti = j / variants;
                            fails.lock().unwrap().push(json!({"system": sys, "trace": traces[ti], "variant": j % variants * 7 + ti, "seed": seed, "flags": flags.iter().collect::<Vec<_>>(), "step": -1, "message": format!("call did not return within {limit} s")}));
                            let r = json!({"behaviours": traces.len(), "runs": j, "steps": steps.load(Ordering::Relaxed), "failures": *fails.lock().unwrap()});
                            std::fs::write(&report, r.to_string()).unwrap();
                            std::process::exit(1);
                        }
                    }
                }
            }
            let fails = fails.lock().unwrap();
            let r = json!({"behaviours": traces.len(), "runs": total, "steps": steps.load(Ordering::Relaxed), "failures": *fails,
                "sample": traces[traces.len() / 2].iter().take(6).collect::<Vec<_>>()});
            std::fs::write(&report, r.to_string()).unwrap();
            std::process::exit(if fails.is_empty() { 0 } else { 1 });
        }
        _ => {
            eprintln!("usage: fdh replay SYS --in FILE ...");
            std::process::exit(2);
        }
    }
}
