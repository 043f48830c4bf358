//! Shared pieces: random numbers, rendering in arbitrary partitions, test units.
pub use fundsp::audiounit::AudioUnit;
pub use fundsp::buffer::{BufferMut, BufferRef, BufferVec};
pub use fundsp::sequencer::Fade;
pub use fundsp::setting::{Parameter, Setting};
pub use fundsp::signal::{Signal, SignalFrame};
pub use serde_json::{json, Value};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

/// How a stream is split into calls.
#[derive(Clone)]
pub struct Part {
    pub mode: usize,
    pub rng: Rng,
}
pub const PART_MODES: usize = 6;
impl Part {
    pub fn new(mode: usize, seed: u64) -> Self {
        Part { mode: mode % PART_MODES, rng: Rng::new(seed) }
    }
    /// Next chunk: (true, n) block of n samples, (false, 1) one tick.
    pub fn next(&mut self, left: usize) -> (bool, usize) {
        let r = &mut self.rng;
        match self.mode {
            0 => (false, 1),
            1 => (true, left.min(64)),
            2 => {
                if r.chance(1, 3) {
                    (false, 1)
                } else {
                    (true, left.min(1 + r.below(64)))
                }
            }
            3 => (true, left.min(1 + r.below(9))),
            4 => {
                if r.chance(1, 12) {
                    (true, 0)
                } else if left >= 8 && r.chance(2, 3) {
                    (true, (8 * (1 + r.below(8))).min(left - left % 8))
                } else {
                    (true, left.min(1 + r.below(20)))
                }
            }
            _ => {
                if r.chance(2, 3) {
                    (false, 1)
                } else {
                    (true, left.min(1 + r.below(17)))
                }
            }
        }
    }
}

/// Garbage left in buffers; never an expected value.
pub const GARBAGE: f32 = 7.0e5;

/// Render `n` samples; `input[c]` holds the n input samples of channel c.
/// Returns outputs per channel.
pub fn render(unit: &mut dyn AudioUnit, input: &[Vec<f32>], n: usize, part: &mut Part) -> Vec<Vec<f32>> {
    let ins = unit.inputs();
    let outs = unit.outputs();
    assert!(ins == input.len());
    let mut result = vec![Vec::with_capacity(n); outs];
    let mut i = 0;
    let mut ibuf = BufferVec::new(ins);
    let mut obuf = BufferVec::new(outs);
    let mut iframe = vec![0.0f32; ins];
    let mut oframe = vec![0.0f32; outs];
    while i < n {
        let (block, k) = part.next(n - i);
        if block {
            for c in 0..ins {
                for j in 0..64 {
                    ibuf.set_f32(c, j, if j < k { input[c][i + j] } else { GARBAGE });
                }
            }
            for c in 0..outs {
                for j in 0..64 {
                    obuf.set_f32(c, j, GARBAGE);
                }
            }
            rt(|| unit.process(k, &ibuf.buffer_ref(), &mut obuf.buffer_mut()));
            for c in 0..outs {
                for j in 0..k {
                    result[c].push(obuf.at_f32(c, j));
                }
            }
            i += k;
        } else {
            for c in 0..ins {
                iframe[c] = input[c][i];
            }
            oframe.fill(GARBAGE);
            rt(|| unit.tick(&iframe, &mut oframe));
            for c in 0..outs {
                result[c].push(oframe[c]);
            }
            i += 1;
        }
    }
    result
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return false;
    }
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

pub fn fade_curve(ease: &str, x: f64) -> f64 {
    if ease == "power" {
        // Bhaskara's approximation of sin(x * pi / 2), which is what the library documents.
        let pi = std::f64::consts::PI;
        let u = x * pi * 0.5;
        16.0 * u * (pi - u) / (5.0 * pi * pi - 4.0 * u * (pi - u))
    } else {
        ((x * 6.0 - 15.0) * x + 10.0) * x * x * x
    }
}
pub fn fade_of(ease: &str) -> Fade {
    if ease == "power" {
        Fade::Power
    } else {
        Fade::Smooth
    }
}

/// Counts of live instances; lets a driver see where units are dropped.
#[derive(Default)]
pub struct Ledger {
    pub live: AtomicI64,
    pub dropped: AtomicI64,
    pub created: AtomicI64,
}
thread_local! {
    pub static ON_AUDIO: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static AUDIO_DROPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

pub struct Tag(pub Option<Arc<Ledger>>);
impl Tag {
    pub fn new(l: Option<Arc<Ledger>>) -> Tag {
        if let Some(l) = &l {
            l.live.fetch_add(1, Ordering::SeqCst);
            l.created.fetch_add(1, Ordering::SeqCst);
        }
        Tag(l)
    }
}
impl Clone for Tag {
    fn clone(&self) -> Tag {
        Tag::new(self.0.clone())
    }
}
impl Drop for Tag {
    fn drop(&mut self) {
        if let Some(l) = &self.0 {
            l.live.fetch_sub(1, Ordering::SeqCst);
            l.dropped.fetch_add(1, Ordering::SeqCst);
            if ON_AUDIO.with(|x| x.get()) {
                AUDIO_DROPS.with(|x| x.set(x.get() + 1));
            }
        }
    }
}

/// Test unit with exactly predictable integer output, arbitrary arity and a
/// sample counter as state:
///   out[p] = (base * (p + 1) + k + sum_q (q + 2) * in[q]) mod 1009
/// where k counts samples since creation or reset.
#[derive(Clone)]
pub struct Probe {
    pub ins: usize,
    pub outs: usize,
    pub base: i64,
    pub k: i64,
    pub sr: f64,
    /// whether the output shows the sample rate (in kHz, rounded, added to k)
    pub rated: bool,
    pub tag: Tag,
    /// memory it renders with
    pub mem: Vec<u64>,
}
pub const MODULUS: i64 = 1009;
impl Probe {
    pub fn new(ins: usize, outs: usize, base: i64) -> Probe {
        Probe { ins, outs, base, k: 0, sr: 0.0, rated: false, tag: Tag::new(None), mem: vec![] }
    }
    pub fn tagged(ins: usize, outs: usize, base: i64, l: &Arc<Ledger>) -> Probe {
        Probe { ins, outs, base, k: 0, sr: 0.0, rated: false, tag: Tag::new(Some(l.clone())), mem: vec![] }
    }
    pub fn rated(mut self) -> Probe {
        self.rated = true;
        self
    }
    fn rate(&self) -> i64 {
        if self.rated {
            (self.sr / 1000.0).round() as i64
        } else {
            0
        }
    }
    pub fn value(base: i64, k: i64, p: usize, input: &[i64]) -> i64 {
        let mut s = base * (p as i64 + 1) + k;
        for (q, x) in input.iter().enumerate() {
            s += (q as i64 + 2) * x;
        }
        s.rem_euclid(MODULUS)
    }
}
impl AudioUnit for Probe {
    fn reset(&mut self) {
        self.k = 0;
    }
    fn set_sample_rate(&mut self, sr: f64) {
        if self.sr != sr {
            self.sr = sr;
            self.mem = vec![];
        }
    }
    fn allocate(&mut self) {
        self.mem.reserve(1);
    }
    fn tick(&mut self, input: &[f32], output: &mut [f32]) {
        assert!(input.len() == self.ins && output.len() == self.outs);
        self.mem.reserve(1);
        let mut s = self.k + self.rate();
        for q in 0..self.ins {
            s += (q as i64 + 2) * input[q].round() as i64;
        }
        for p in 0..self.outs {
            output[p] = (self.base * (p as i64 + 1) + s).rem_euclid(MODULUS) as f32;
        }
        self.k += 1;
    }
    fn process(&mut self, size: usize, input: &BufferRef, output: &mut BufferMut) {
        assert!(input.channels() == self.ins && output.channels() == self.outs);
        self.mem.reserve(1);
        for i in 0..size {
            let mut s = self.k + self.rate();
            for q in 0..self.ins {
                s += (q as i64 + 2) * input.at_f32(q, i).round() as i64;
            }
            for p in 0..self.outs {
                output.set_f32(p, i, (self.base * (p as i64 + 1) + s).rem_euclid(MODULUS) as f32);
            }
            self.k += 1;
        }
    }
    fn set(&mut self, setting: Setting) {
        if let Parameter::Value(v) = setting.parameter() {
            self.base = v.round() as i64;
        }
    }
    fn inputs(&self) -> usize {
        self.ins
    }
    fn outputs(&self) -> usize {
        self.outs
    }
    fn route(&mut self, _input: &SignalFrame, _frequency: f64) -> SignalFrame {
        SignalFrame::new(self.outs)
    }
    fn get_id(&self) -> u64 {
        9999
    }
    fn footprint(&self) -> usize {
        std::mem::size_of::<Probe>()
    }
}

pub fn gi(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("harness: field {k} missing in {v}"))
}
pub fn gs<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("harness: field {k} missing in {v}"))
}

// --- Memory ---------------------------------------------------------------------------------------

/// Counts what happens to memory on this thread while it renders.
pub struct Counting;
thread_local! {
    static IN_RT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static EVENTS: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 0)) };
}
fn event(a: u64, f: u64) {
    let _ = IN_RT.try_with(|x| {
        if x.get() {
            let _ = EVENTS.try_with(|e| e.set((e.get().0 + a, e.get().1 + f)));
        }
    });
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        event(1, 0);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        event(0, 1);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        event(1, 0);
        std::alloc::System.realloc(p, l, n)
    }
}
/// A rendering call.
pub fn rt<T>(f: impl FnOnce() -> T) -> T {
    IN_RT.with(|x| x.set(true));
    let r = f();
    IN_RT.with(|x| x.set(false));
    r
}
/// Forget what was counted.
pub fn mem_clear() {
    IN_RT.with(|x| x.set(false));
    EVENTS.with(|e| e.set((0, 0)));
}
/// Allocations and deallocations in rendering calls since then.
pub fn mem_events() -> (u64, u64) {
    EVENTS.with(|e| e.get())
}
thread_local! {
    static WATCH: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Whether real-time backends are to leave memory alone.
pub fn watch_memory(x: bool) {
    WATCH.with(|w| w.set(x));
}
/// What the last calls on the audio side did to memory.
pub fn still(real: bool, what: &str) -> Result<(), String> {
    let (a, f) = mem_events();
    mem_clear();
    if real && a + f > 0 && WATCH.with(|w| w.get()) {
        return Err(format!("{what} on the audio side allocated memory {a} times and freed memory {f} times"));
    }
    Ok(())
}
