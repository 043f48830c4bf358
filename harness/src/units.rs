//! The units of the library: constructors with random parameters and the kinds of
//! signals their inputs expect.
use crate::util::{AudioUnit, Rng};
use std::sync::{Arc, OnceLock};

type B = Box<dyn AudioUnit>;

/// Parameters for constructors.
pub struct P(pub Rng);
impl P {
    pub fn r<T: From<f32>>(&mut self, lo: f32, hi: f32) -> T {
        T::from(lo + (hi - lo) * self.0.unit() as f32)
    }
    /// logarithmically distributed
    pub fn x<T: From<f32>>(&mut self, lo: f32, hi: f32) -> T {
        T::from(lo * (hi / lo).powf(self.0.unit() as f32))
    }
    pub fn hz<T: From<f32>>(&mut self) -> T {
        self.x(30.0, 6000.0)
    }
    pub fn q<T: From<f32>>(&mut self) -> T {
        self.x(0.3, 8.0)
    }
    pub fn g<T: From<f32>>(&mut self) -> T {
        self.x(0.2, 4.0)
    }
    pub fn n(&mut self, lo: i64, hi: i64) -> i64 {
        self.0.range(lo, hi)
    }
}

/// What an input channel is fed with.
#[derive(Clone, Copy, Debug)]
pub enum In {
    /// audio
    A,
    /// control value that changes now and then, in the given range
    C(f32, f32),
    /// control value that stays the same within a play
    K(f32, f32),
    /// gate: positive or not
    G,
}
pub const F: In = In::C(40.0, 5000.0);
/// Wavetable oscillators choose the bandwidth for several samples at a time.
pub const KF: In = In::K(40.0, 5000.0);
pub const Q: In = In::C(0.3, 6.0);
pub const GAIN: In = In::C(0.3, 3.0);

fn h(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
fn hu(a: u64, b: u64, c: u64) -> f64 {
    (h(a.wrapping_mul(0x9e3779b97f4a7c15) ^ h(b.wrapping_add(77)) ^ c.wrapping_mul(0xd1342543de82ef95)) >> 11) as f64 / (1u64 << 53) as f64
}
/// Input sample `i` of stream `seed` at channel `c`.
pub fn signal(kind: In, seed: u64, c: usize, i: u64) -> f32 {
    let c = c as u64;
    match kind {
        In::A => {
            let s = seed * 7 + c;
            match h(s) % 6 {
                0 | 1 => (hu(s, 1, i) * 1.6 - 0.8) as f32,
                2 => ((i as f64 * (0.003 + 0.2 * hu(s, 2, 0))).sin() * 0.9) as f32,
                3 => if i % 41 == 5 { 1.0 } else { 0.0 },
                4 => if (i / 50) % 3 == 0 { (hu(s, 3, i) * 2.4 - 1.2) as f32 } else { 0.0 },
                _ => (hu(s, 4, i / 13) - 0.5) as f32,
            }
        }
        In::C(lo, hi) => {
            let w = 1 + h(seed * 5 + c) % 90;
            lo + (hi - lo) * hu(seed, c + 11, i / w) as f32
        }
        In::K(lo, hi) => lo + (hi - lo) * hu(seed, c + 12, 0) as f32,
        In::G => if hu(seed, c + 13, i / 37) < 0.5 { 1.0 } else { 0.0 },
    }
}

pub struct Kind {
    pub name: &'static str,
    pub wide: bool,
    pub ins: Vec<In>,
    pub make: Box<dyn Fn(&mut P) -> B + Send + Sync>,
    /// tolerance factor
    pub tol: f64,
    /// documented exceptions: "split" (result may depend on the split into blocks),
    pub flags: &'static str,
}

macro_rules! list {
    ($m:ident, $wide:expr, $v:ident) => {{
        use fundsp::$m::*;
        use fundsp::wave::Wave;
        macro_rules! u {
            ($name:expr, [$in:expr], |$p:ident| $e:expr) => { u!($name, [$in], 1.0, "", |$p| $e) };
            ($name:expr, [$in:expr], $tol:expr, |$p:ident| $e:expr) => { u!($name, [$in], $tol, "", |$p| $e) };
            ($name:expr, [$in:expr], $tol:expr, $fl:expr, |$p:ident| $e:expr) => {
                $v.push(Kind { name: $name, wide: $wide, ins: $in, tol: $tol, flags: $fl, make: Box::new(|$p: &mut P| Box::new($e)) });
            };
        }
        use In::*;
        u!("constant", [vec![]], |p| constant(p.r::<f32>(-1.0, 1.0)));
        u!("dc2", [vec![]], |p| dc((p.r::<f32>(-1.0, 1.0), p.r::<f32>(-1.0, 1.0))));
        u!("zero", [vec![]], |_p| zero());
        u!("multizero", [vec![]], |_p| multizero::<U3>());
        u!("update", [vec![A]], 1.0, "split", |p| { let g: f32 = p.g(); update(pass() * 2.0, 0.01, move |t, _d, _x: &mut _| { let _ = t * g; }) });
        u!("pass", [vec![A]], |_p| pass());
        u!("multipass", [vec![A, A, A]], |_p| multipass::<U3>());
        u!("monitor", [vec![A]], |p| monitor(&shared(0.0), Meter::Peak(p.r(0.5, 0.99))));
        u!("meter_sample", [vec![A]], |_p| meter(Meter::Sample));
        u!("meter_peak", [vec![A]], |p| meter(Meter::Peak(p.x(0.01, 1.0))));
        u!("meter_rms", [vec![A]], |p| meter(Meter::Rms(p.x(0.01, 1.0))));
        u!("sink", [vec![A]], |_p| sink());
        u!("multisink", [vec![A, A, A]], |_p| multisink::<U2>() | pass());
        u!("reverse", [vec![A, A, A]], |_p| reverse::<U3>());
        u!("sine", [vec![F]], 20.0, "phase", |_p| sine());
        u!("sine_hz", [vec![]], 20.0, "phase", |p| sine_hz(p.hz()));
        u!("sine_phase", [vec![]], 20.0, "phase", |p| constant(p.hz::<f32>()) >> sine().phase(p.r(0.0, 1.0)));
        u!("ramp", [vec![F]], 20.0, "phase", |_p| ramp());
        u!("ramp_hz", [vec![]], 20.0, "phase", |p| ramp_hz(p.hz()));
        u!("rossler", [vec![F]], |_p| rossler());
        u!("lorenz", [vec![F]], |_p| lorenz());
        u!("add", [vec![A]], |p| add(p.r::<f32>(-1.0, 1.0)));
        u!("add2", [vec![A, A]], |p| add((p.r::<f32>(-1.0, 1.0), p.r::<f32>(-1.0, 1.0))));
        u!("sub", [vec![A]], |p| sub(p.r::<f32>(-1.0, 1.0)));
        u!("mul", [vec![A]], |p| mul(p.r::<f32>(-1.0, 1.0)));
        u!("mul2", [vec![A, A]], |p| mul((p.r::<f32>(-1.0, 1.0), p.r::<f32>(-1.0, 1.0))));
        u!("butterpass", [vec![A, F]], |_p| butterpass());
        u!("butterpass_hz", [vec![A]], |p| butterpass_hz(p.hz()));
        u!("lowpole", [vec![A, F]], |_p| lowpole());
        u!("lowpole_hz", [vec![A]], |p| lowpole_hz(p.hz()));
        u!("allpole", [vec![A, C(0.6, 4.0)]], |_p| allpole());
        u!("allpole_delay", [vec![A]], |p| allpole_delay(p.r(0.6, 4.0)));
        u!("highpole", [vec![A, F]], |_p| highpole());
        u!("highpole_hz", [vec![A]], |p| highpole_hz(p.hz()));
        u!("resonator", [vec![A, F, C(20.0, 500.0)]], |_p| resonator());
        u!("resonator_hz", [vec![A]], |p| resonator_hz(p.hz(), p.x(20.0, 500.0)));
        u!("biquad", [vec![A]], |p| biquad(p.r(-0.5, 0.5), p.r(-0.3, 0.3), p.r(-1.0, 1.0), p.r(-1.0, 1.0), p.r(-1.0, 1.0)));
        u!("moog", [vec![A, F, C(0.1, 0.8)]], |_p| moog());
        u!("moog_q", [vec![A, F]], |p| moog_q(p.r(0.1, 0.8)));
        u!("moog_hz", [vec![A]], |p| moog_hz(p.hz(), p.r(0.1, 0.8)));
        u!("envelope", [vec![]], 100.0, |p| { let f: f32 = p.r(1.0, 9.0); envelope(move |t| sin_hz(f as _, t) * 0.7) });
        u!("lfo", [vec![]], 100.0, |p| { let f: f32 = p.r(1.0, 9.0); lfo(move |t| (sin_hz(f as _, t), cos_hz(3.0, t))) });
        u!("envelope2", [vec![K(0.0, 1.0)]], 100.0, |p| { let f: f32 = p.r(1.0, 9.0); envelope2(move |t, x| x * sin_hz(f as _, t)) });
        u!("lfo2", [vec![K(0.0, 1.0)]], 100.0, |_p| lfo2(|t, x| (x, cos_hz(2.0, t))));
        u!("envelope3", [vec![K(0.0, 1.0), K(-1.0, 1.0)]], 100.0, |_p| envelope3(|t, x, y| x * y * sin_hz(1.0, t)));
        u!("lfo3", [vec![K(0.0, 1.0), K(0.0, 1.0)]], 100.0, |_p| lfo3(|t, x, y| x + y * sin_hz(1.5, t)));
        u!("adsr_live", [vec![K(-1.0, 1.0)]], 100.0, |p| adsr_live(p.r(0.001, 0.05), p.r(0.001, 0.05), p.r(0.0, 1.0), p.r(0.001, 0.05)));
        u!("mls_bits", [vec![]], |p| mls_bits(p.n(4, 20) as u64));
        u!("mls", [vec![]], |_p| mls());
        u!("noise", [vec![]], |_p| noise());
        u!("noise_seed", [vec![]], |p| noise().seed(p.n(0, 1000) as u64));
        u!("white", [vec![]], |_p| white());
        u!("hold", [vec![A, F]], |p| hold(p.r(0.0, 1.0)));
        u!("hold_hz", [vec![A]], |p| hold_hz(p.hz(), p.r(0.0, 1.0)));
        u!("fir", [vec![A]], |p| fir((p.r::<f32>(-1.0, 1.0), p.r::<f32>(-1.0, 1.0), 0.2, 0.1, p.r::<f32>(-1.0, 1.0))));
        u!("fir3", [vec![A]], |p| fir3(p.r(0.1, 0.9)));
        u!("tick", [vec![A]], |_p| tick());
        u!("multitick", [vec![A, A]], |_p| multitick::<U2>());
        u!("delay", [vec![A]], |p| delay(p.x(0.00003, 0.02)));
        u!("tap", [vec![A, C(0.0, 0.012)]], |p| tap(p.r(0.0, 0.003), p.r(0.003, 0.01)));
        u!("multitap", [vec![A, C(0.0, 0.012), C(0.0, 0.012)]], |p| multitap::<U2>(p.r(0.0, 0.003), p.r(0.003, 0.01)));
        u!("tap_linear", [vec![A, C(0.0, 0.012)]], |p| tap_linear(p.r(0.0, 0.003), p.r(0.003, 0.01)));
        u!("multitap_linear", [vec![A, C(0.0, 0.012), C(0.0, 0.012)]], |p| multitap_linear::<U2>(p.r(0.0, 0.003), p.r(0.003, 0.01)));
        u!("oversample", [vec![A]], |p| { let g: f32 = p.g(); oversample(mul(g) >> shape(Tanh(1.0))) });
        u!("oversample_gen", [vec![]], 20.0, "phase", |p| oversample(sine_hz(p.hz())));
        u!("oversample2", [vec![A, A]], |p| { let f: f32 = p.hz(); oversample((pass() | lowpass_hz(f as _, 1.0)) >> (clip() | tick())) });
        u!("resample", [vec![C(0.2, 3.0)]], |p| resample(sine_hz(p.hz()) | noise()));
        u!("feedback", [vec![A]], |p| { let g: f32 = p.r(-0.9, 0.9); feedback(delay(p.x(0.0001, 0.005)) * g) });
        u!("feedback_tick", [vec![A, A]], |p| { let g: f32 = p.r(-0.9, 0.9); feedback((pass() | tick()) >> mul((g, 0.5))) });
        u!("feedback2", [vec![A]], |p| { let g: f32 = p.r(-0.9, 0.9); feedback2(delay(p.x(0.0001, 0.005)), lowpole_hz(2000.0) * g) });
        u!("allnest_c", [vec![A]], |p| allnest_c(p.r(-0.8, 0.8), delay(p.x(0.0001, 0.003))));
        u!("allnest", [vec![A, C(-0.8, 0.8)]], |p| allnest(delay(p.x(0.0001, 0.003)) >> lowpole_hz(1000.0)));
        u!("map", [vec![A, A]], |_p| map(|i: &Frame<f32, U2>| (i[0] * i[1], i[1] - i[0])));
        u!("dcblock_hz", [vec![A]], |p| dcblock_hz(p.x(5.0, 100.0)));
        u!("dcblock", [vec![A]], |_p| dcblock());
        u!("declick", [vec![A]], |_p| declick());
        u!("declick_s", [vec![A]], |p| declick_s(p.x(0.0001, 0.01)));
        u!("shape_fn", [vec![A]], |_p| shape_fn(|x| x * x * x));
        u!("shape_tanh", [vec![A]], |p| shape(Tanh(p.g())));
        u!("shape_atan", [vec![A]], |p| shape(Atan(p.g())));
        u!("shape_softsign", [vec![A]], |p| shape(Softsign(p.g())));
        u!("shape_crush", [vec![A]], 1.0, "tie", |p| shape(Crush(p.r(2.0, 20.0))));
        u!("shape_softcrush", [vec![A]], |p| shape(SoftCrush(p.r(2.0, 20.0))));
        u!("shape_adaptive", [vec![A]], |p| shape(Adaptive::new(p.x(0.01, 0.3), Tanh(1.5))));
        u!("clip", [vec![A]], |_p| clip());
        u!("clip_to", [vec![A]], |p| clip_to(p.r(-0.9, -0.1), p.r(0.1, 0.9)));
        u!("panner", [vec![A, C(-1.0, 1.0)]], |_p| panner());
        u!("pan", [vec![A]], |p| pan(p.r(-1.0, 1.0)));
        u!("follow", [vec![A]], |p| follow(p.x(0.001, 0.1)));
        u!("afollow", [vec![A]], |p| afollow(p.x(0.001, 0.1), p.x(0.001, 0.1)));
        u!("limiter", [vec![A]], |p| mul(3.0) >> limiter(p.x(0.0003, 0.01), p.x(0.001, 0.1)));
        u!("limiter_stereo", [vec![A, A]], |p| mul((3.0, 3.0)) >> limiter_stereo(p.x(0.0003, 0.01), p.x(0.001, 0.1)));
        u!("pinkpass", [vec![A]], |_p| pinkpass());
        u!("pink", [vec![]], |_p| pink());
        u!("brown", [vec![]], |_p| brown());
        u!("fdn", [vec![A, A]], |p| fdn::<U2, _>(stacki::<U2, _, _>(|i| delay((0.0013 + 0.0007 * i as f32) as _)) >> mul((p.r::<f32>(0.2, 0.6), 0.3))));
        u!("fdn2", [vec![A, A]], |p| fdn2::<U2, _, _>(stacki::<U2, _, _>(|i| delay((0.0013 + 0.0007 * i as f32) as _)), (pass() | tick()) >> mul((p.r::<f32>(0.2, 0.6), 0.3))));
        u!("bus", [vec![A]], |p| bus(delay(p.x(0.0001, 0.003)), lowpass_hz(p.hz(), 1.0)));
        u!("busi", [vec![A]], |_p| busi::<U3, _, _>(|i| delay((0.0003 * (1 + i) as f32) as _)));
        u!("busf", [vec![A]], |_p| busf::<U3, _, _>(|x| mul(x as f32)));
        u!("stack", [vec![A, A]], |p| stack(delay(p.x(0.0001, 0.003)), lowpass_hz(p.hz(), 1.0)));
        u!("stacki", [vec![A, A, A]], |_p| stacki::<U3, _, _>(|i| delay((0.0003 * (1 + i) as f32) as _)));
        u!("stackf", [vec![]], 20.0, "phase", |_p| stackf::<U3, _, _>(|x| sine_hz((300.0 * (1.0 + x as f32)) as _)));
        u!("branch", [vec![A]], |p| branch(delay(p.x(0.0001, 0.003)), lowpass_hz(p.hz(), 1.0)));
        u!("branchi", [vec![A]], |_p| branchi::<U3, _, _>(|i| delay((0.0003 * (1 + i) as f32) as _)));
        u!("branchf", [vec![A]], |_p| branchf::<U2, _, _>(|x| mul(x as f32) >> tick()));
        u!("thru", [vec![A, A]], |_p| thru((pass() | tick()) >> join::<U2>()));
        u!("product", [vec![A, A]], |p| product(delay(p.x(0.0001, 0.003)), lowpass_hz(p.hz(), 1.0)));
        u!("sum", [vec![A, A]], |p| sum(delay(p.x(0.0001, 0.003)), lowpass_hz(p.hz(), 1.0)));
        u!("sumi", [vec![A, A, A]], |_p| sumi::<U3, _, _>(|i| delay((0.0003 * (1 + i) as f32) as _)));
        u!("sumf", [vec![]], 20.0, "phase", |_p| sumf::<U3, _, _>(|x| sine_hz((300.0 * (1.0 + x as f32)) as _)));
        u!("pipe", [vec![A]], |p| pipe(delay(p.x(0.0001, 0.003)), lowpass_hz(p.hz(), 1.0)));
        u!("pipei", [vec![A]], |_p| pipei::<U3, _, _>(|i| delay((0.0003 * (1 + i) as f32) as _)));
        u!("pipef", [vec![A]], |_p| pipef::<U3, _, _>(|x| mul(x as f32 + 0.5) >> tick()));
        u!("neg", [vec![A]], |_p| -delay(0.0004));
        u!("scalar", [vec![A]], |p| { let g: f32 = p.g(); 1.0 - (lowpole_hz(500.0) * g + 0.25) });
        u!("split", [vec![A]], |_p| split::<U3>());
        u!("multisplit", [vec![A, A]], |_p| multisplit::<U2, U2>());
        u!("join", [vec![A, A, A]], |_p| join::<U3>());
        u!("multijoin", [vec![A, A, A, A]], |_p| multijoin::<U2, U2>());
        u!("reverb_stereo", [vec![A, A]], |p| reverb_stereo(p.r(10.0, 30.0), p.r(0.5, 3.0), p.r(0.0, 1.0)));
        u!("reverb2_stereo", [vec![A, A]], |p| reverb2_stereo(p.r(10.0, 30.0), p.r(0.5, 3.0), p.r(0.0, 1.0), p.r(0.1, 1.0), lowpole_hz(2000.0)));
        u!("reverb3_stereo", [vec![A, A]], |p| reverb3_stereo(p.r(0.5, 3.0), p.r(0.0, 1.0), lowpole_hz(2000.0)));
        u!("reverb4_stereo", [vec![A, A]], |p| reverb4_stereo(p.r(10.0, 30.0), p.r(0.5, 3.0)));
        u!("dsf_saw", [vec![F, C(0.0, 0.95)]], 20.0, "phase", |_p| dsf_saw());
        u!("dsf_saw_r", [vec![F]], 20.0, "phase", |p| dsf_saw_r(p.r(0.0, 0.95)));
        u!("dsf_square", [vec![F, C(0.0, 0.95)]], 20.0, "phase", |_p| dsf_square());
        u!("dsf_square_r", [vec![F]], 20.0, "phase", |p| dsf_square_r(p.r(0.0, 0.95)));
        u!("pluck", [vec![A]], |p| pluck(p.x(100.0, 2000.0), p.r(0.3, 0.9), p.r(0.1, 0.9)));
        u!("saw", [vec![KF]], 50.0, "phase", |_p| saw());
        u!("square", [vec![KF]], 50.0, "phase", |_p| square());
        u!("triangle", [vec![KF]], 50.0, "phase", |_p| triangle());
        u!("organ", [vec![KF]], 50.0, "phase", |_p| organ());
        u!("soft_saw", [vec![KF]], 50.0, "phase", |_p| soft_saw());
        u!("hammond", [vec![KF]], 50.0, "phase", |_p| hammond());
        u!("saw_hz", [vec![]], 50.0, "phase", |p| saw_hz(p.hz()));
        u!("square_hz", [vec![]], 50.0, "phase", |p| square_hz(p.hz()));
        u!("triangle_hz", [vec![]], 50.0, "phase", |p| triangle_hz(p.hz()));
        u!("organ_hz", [vec![]], 50.0, "phase", |p| organ_hz(p.hz()));
        u!("soft_saw_hz", [vec![]], 50.0, "phase", |p| soft_saw_hz(p.hz()));
        u!("hammond_hz", [vec![]], 50.0, "phase", |p| hammond_hz(p.hz()));
        u!("saw_phase", [vec![KF]], 50.0, "phase", |p| saw().phase(p.r(0.0, 1.0)));
        u!("lowpass", [vec![A, F, Q]], |_p| lowpass());
        u!("lowpass_hz", [vec![A]], |p| lowpass_hz(p.hz(), p.q()));
        u!("lowpass_q", [vec![A, F]], |p| lowpass_q(p.q()));
        u!("highpass", [vec![A, F, Q]], |_p| highpass());
        u!("highpass_hz", [vec![A]], |p| highpass_hz(p.hz(), p.q()));
        u!("highpass_q", [vec![A, F]], |p| highpass_q(p.q()));
        u!("bandpass", [vec![A, F, Q]], |_p| bandpass());
        u!("bandpass_hz", [vec![A]], |p| bandpass_hz(p.hz(), p.q()));
        u!("bandpass_q", [vec![A, F]], |p| bandpass_q(p.q()));
        u!("notch", [vec![A, F, Q]], |_p| notch());
        u!("notch_hz", [vec![A]], |p| notch_hz(p.hz(), p.q()));
        u!("notch_q", [vec![A, F]], |p| notch_q(p.q()));
        u!("peak", [vec![A, F, Q]], |_p| peak());
        u!("peak_hz", [vec![A]], |p| peak_hz(p.hz(), p.q()));
        u!("peak_q", [vec![A, F]], |p| peak_q(p.q()));
        u!("allpass", [vec![A, F, Q]], |_p| allpass());
        u!("allpass_hz", [vec![A]], |p| allpass_hz(p.hz(), p.q()));
        u!("allpass_q", [vec![A, F]], |p| allpass_q(p.q()));
        u!("bell", [vec![A, F, Q, GAIN]], |_p| bell());
        u!("bell_hz", [vec![A]], |p| bell_hz(p.hz(), p.q(), p.g()));
        u!("bell_q", [vec![A, F]], |p| bell_q(p.q(), p.g()));
        u!("lowshelf", [vec![A, F, Q, GAIN]], |_p| lowshelf());
        u!("lowshelf_hz", [vec![A]], |p| lowshelf_hz(p.hz(), p.q(), p.g()));
        u!("lowshelf_q", [vec![A, F]], |p| lowshelf_q(p.q(), p.g()));
        u!("highshelf", [vec![A, F, Q, GAIN]], |_p| highshelf());
        u!("highshelf_hz", [vec![A]], |p| highshelf_hz(p.hz(), p.q(), p.g()));
        u!("highshelf_q", [vec![A, F]], |p| highshelf_q(p.q(), p.g()));
        u!("lowrez", [vec![A, F, C(0.1, 0.9)]], |_p| lowrez());
        u!("lowrez_hz", [vec![A]], |p| lowrez_hz(p.hz(), p.r(0.1, 0.9)));
        u!("lowrez_q", [vec![A, F]], |p| lowrez_q(p.r(0.1, 0.9)));
        u!("bandrez", [vec![A, F, C(0.1, 0.9)]], |_p| bandrez());
        u!("bandrez_hz", [vec![A]], |p| bandrez_hz(p.hz(), p.r(0.1, 0.9)));
        u!("bandrez_q", [vec![A, F]], |p| bandrez_q(p.r(0.1, 0.9)));
        u!("pulse", [vec![KF, C(0.1, 0.9)]], 50.0, "phase", |_p| pulse());
        u!("morph", [vec![A, F, Q, C(-1.0, 1.0)]], |_p| morph());
        u!("morph_hz", [vec![A]], |p| morph_hz(p.hz(), p.q(), p.r(-1.0, 1.0)));
        u!("wavech", [vec![]], |p| wavech(&Arc::new(Wave::from_samples(44100.0, &[0.1, 0.5, -0.3, 0.7, 0.2])), 0, if p.n(0, 1) == 0 { None } else { Some(p.n(0, 4) as usize) }));
        u!("wavech_at", [vec![]], |p| wavech_at(&Arc::new(Wave::from_samples(44100.0, &[0.1, 0.5, -0.3, 0.7, 0.2, 0.6, 0.9, -0.9])), 0, p.n(0, 3) as usize, p.n(5, 8) as usize, if p.n(0, 1) == 0 { None } else { Some(p.n(0, 4) as usize) }));
        u!("chorus", [vec![A]], 20.0, |p| chorus(p.n(0, 9) as u64, p.r(0.001, 0.01), p.r(0.001, 0.005), p.r(0.1, 1.0)));
        u!("flanger", [vec![A]], 20.0, |p| flanger(p.r(0.1, 0.9), 0.002, 0.009, |t| (0.005 + 0.002 * sin_hz(0.3, t))));
        u!("phaser", [vec![A]], 20.0, |p| phaser(p.r(0.1, 0.8), |t| sin_hz(0.2, t) * 0.5 + 0.5));
        u!("var", [vec![]], |p| var(&shared(p.r(-1.0, 1.0))));
        u!("var_fn", [vec![]], |p| var_fn(&shared(p.r(-1.0, 1.0)), |x| (x, x * x)));
        u!("timer", [vec![]], |_p| timer(&shared(0.0)) | noise());
        u!("snoop", [vec![A]], |_p| snoop(64).1);
        u!("resynth", [vec![A]], |p| { let g: f32 = p.g(); resynth::<U1, U1, _>(64, move |w| { for i in 0..w.bins() { let z = w.at(0, i) * g; w.set(0, i, z); } }) });
        u!("resynth2", [vec![A, A]], |_p| resynth::<U2, U1, _>(128, |w| { for i in 0..w.bins() { let z = w.at(0, i) + w.at(1, i); w.set(0, i, z); } }));
        u!("impulse", [vec![]], |_p| impulse::<U2>());
        u!("rotate", [vec![A, A]], |p| rotate(p.r(0.0, 3.0), p.g()));
        u!("unit", [vec![A]], |p| unit::<U1, U1>(Box::new(lowpass_hz(p.hz::<f32>() as _, 1.0) >> delay(0.001))));
        u!("dbell", [vec![A, F, Q, GAIN]], |_p| dbell(Tanh(1.0)));
        u!("dbell_hz", [vec![A]], |p| dbell_hz(Softsign(1.0), p.hz(), p.q(), p.g()));
        u!("fbell", [vec![A, F, Q, GAIN]], |_p| fbell(Tanh(1.0)));
        u!("fbell_hz", [vec![A]], |p| fbell_hz(Softsign(1.0), p.hz(), p.q(), p.g()));
        u!("dhighpass", [vec![A, F, Q]], |_p| dhighpass(Tanh(1.0)));
        u!("dhighpass_hz", [vec![A]], |p| dhighpass_hz(Tanh(1.0), p.hz(), p.q()));
        u!("fhighpass", [vec![A, F, Q]], |_p| fhighpass(Tanh(1.0)));
        u!("fhighpass_hz", [vec![A]], |p| fhighpass_hz(Softsign(1.0), p.hz(), p.q()));
        u!("dlowpass", [vec![A, F, Q]], |_p| dlowpass(Tanh(1.0)));
        u!("dlowpass_hz", [vec![A]], |p| dlowpass_hz(Tanh(1.0), p.hz(), p.q()));
        u!("flowpass", [vec![A, F, Q]], |_p| flowpass(Tanh(1.0)));
        u!("flowpass_hz", [vec![A]], |p| flowpass_hz(Softsign(1.0), p.hz(), p.q()));
        u!("dresonator", [vec![A, F, Q]], |_p| dresonator(Tanh(1.0)));
        u!("dresonator_hz", [vec![A]], |p| dresonator_hz(Tanh(1.0), p.hz(), p.q()));
        u!("fresonator", [vec![A, F, Q]], |_p| fresonator(Tanh(1.0)));
        u!("fresonator_hz", [vec![A]], |p| fresonator_hz(Softsign(1.0), p.hz(), p.q()));
        u!("flowpass_adaptive", [vec![A]], |p| flowpass_hz(Adaptive::new(0.05, Tanh(1.0)), p.hz(), p.q()));
        u!("poly_saw", [vec![F]], 20.0, "phase", |_p| poly_saw());
        u!("poly_saw_hz", [vec![]], 20.0, "phase", |p| poly_saw_hz(p.hz()));
        u!("poly_square", [vec![F]], 20.0, "phase", |_p| poly_square());
        u!("poly_square_hz", [vec![]], 20.0, "phase", |p| poly_square_hz(p.hz()));
        u!("poly_pulse", [vec![F, C(0.1, 0.9)]], 20.0, "phase", |_p| poly_pulse());
        u!("poly_pulse_hz", [vec![]], 20.0, "phase", |p| poly_pulse_hz(p.hz(), p.r(0.1, 0.9)));
        u!("biquad_bank", [vec![A; if $wide { 4 } else { 8 }]], |_p| biquad_bank());
        u!("reverb4_delays", [vec![A, A]], |p| { let d: Vec<f32> = (0..32).map(|i| 0.001 + 0.0003 * i as f32).collect(); reverb4_stereo_delays(&d, p.r(0.5, 3.0)) });
        u!("feedback_unit", [vec![A]], |p| { let g: f32 = p.r(-0.9, 0.9); fundsp::feedback::FeedbackUnit::new(p.x::<f64>(0.00003, 0.004), Box::new(lowpole_hz(1500.0) * g)) });
        u!("feedback_unit2", [vec![A, A]], |p| { let g: f32 = p.r(-0.9, 0.9); fundsp::feedback::FeedbackUnit::new(p.x::<f64>(0.00003, 0.004), Box::new((pass() | tick()) * g)) });
        u!("atomic_synth", [vec![F]], 20.0, "phase", |_p| An(fundsp::shared::AtomicSynth::<f32>::new(Arc::new(fundsp::shared::AtomicTable::new(&[0.0, 0.3, 0.9, 0.2, -0.4, -0.8, 0.5, 0.1])))));
        u!("net", [vec![A]], |p| { let mut n = Net::new(1, 2); let (a, b, c) = (n.push(Box::new(delay(p.x(0.0001, 0.002)))), n.push(Box::new(lowpass_hz(p.hz(), 1.0))), n.push(Box::new(pink())));
            n.connect_input(0, a, 0); n.pipe_all(a, b); n.connect_output(b, 0, 0); n.connect_output(c, 0, 1); n });
        u!("net_backend", [vec![A]], |p| { let mut n = Net::wrap(Box::new(delay(p.x(0.0001, 0.002)) >> lowpass_hz(p.hz(), 1.0))); n.backend() });
        u!("sequencer", [vec![]], 20.0, "phase", |p| { let mut s = Sequencer::new(true, 2); for i in 0..5 { let t: f64 = p.r::<f64>(0.0, 0.02);
            s.push(t, t + p.r::<f64>(0.002, 0.02), if i % 2 == 0 { Fade::Smooth } else { Fade::Power }, 0.0005, 0.001, Box::new(sine_hz(p.hz()) | noise())); } s });
        u!("slot", [vec![A]], |p| { fundsp::slot::Slot::new(Box::new(delay(p.x(0.0001, 0.002)) >> lowpass_hz(p.hz(), 1.0))).1 });
        u!("subsampled", [vec![A, F, Q]], |p| lowpass().subsample(p.n(2, 20) as u32));
        u!("mix_chain", [vec![]], 50.0, "phase", |p| (saw_hz(p.hz()) | pink()) >> (lowpass_hz(1000.0, 1.0) | pass()) >> (delay(0.002) | highpass_hz(300.0, 2.0)));
    }};
}

pub fn kinds() -> &'static Vec<Kind> {
    static K: OnceLock<Vec<Kind>> = OnceLock::new();
    K.get_or_init(|| {
        let mut v: Vec<Kind> = vec![];
        list!(hacker32, false, v);
        list!(hacker, true, v);
        v
    })
}
