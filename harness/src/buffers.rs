//! Sample buffers: replay of behaviours of Buffers.tla.
use crate::util::*;
use crate::{Cfg, Sys};
use fundsp::buffer::BufferArray;
use fundsp::hacker::{U1, U2, U3, U4, U5};
use fundsp::F32x;

#[derive(Clone)]
enum Buf {
    V(BufferVec),
    A1(BufferArray<U1>),
    A2(BufferArray<U2>),
    A3(BufferArray<U3>),
    A4(BufferArray<U4>),
    A5(BufferArray<U5>),
}
macro_rules! own {
    ($b:expr, $x:ident => $e:expr) => {
        match $b {
            Buf::V($x) => $e,
            Buf::A1($x) => $e,
            Buf::A2($x) => $e,
            Buf::A3($x) => $e,
            Buf::A4($x) => $e,
            Buf::A5($x) => $e,
        }
    };
}
pub struct BufSys {
    b: Buf,
    old: Option<Buf>,
}
impl BufSys {
    pub fn new(_cfg: &Cfg) -> Box<dyn Sys> {
        Box::new(BufSys { b: Buf::V(BufferVec::new(0)), old: None })
    }
}
fn vec8(op: &Value, i: i64) -> F32x {
    let v = gi(op, "v");
    let lo = gi(op, "lo");
    F32x::new(core::array::from_fn(|k| (v + 13 * (i + k as i64 - lo)) as f32))
}
fn sum8(a: F32x, b: F32x) -> F32x {
    a + b
}
macro_rules! write_common {
    ($x:expr, $c:expr, $op:expr) => {{
        let (lo, hi) = (gi($op, "lo"), gi($op, "hi"));
        let v = gi($op, "v");
        match gs($op, "form") {
            "one" => $x.set_f32($c, lo as usize, v as f32),
            "vec" => $x.set($c, lo as usize / 8, vec8($op, lo)),
            "span" => {
                for (k, s) in $x.channel_f32_mut($c)[lo as usize..=hi as usize].iter_mut().enumerate() {
                    *s = (v + 13 * k as i64) as f32;
                }
            }
            "vspan" => {
                for (k, s) in $x.channel_mut($c)[lo as usize / 8..=hi as usize / 8].iter_mut().enumerate() {
                    *s = vec8($op, lo + 8 * k as i64);
                }
            }
            "add" => {
                let i = lo as usize / 8;
                let y = sum8($x.at($c, i), vec8($op, lo));
                $x.set($c, i, y);
            }
            _ => $x.set($c, lo as usize / 8, vec8($op, lo)),
        }
    }};
}
fn write_mut(x: &mut BufferMut, c: usize, op: &Value) {
    let i = gi(op, "lo") as usize / 8;
    match gs(op, "form") {
        "at_mut" => *x.at_mut(c, i) = vec8(op, gi(op, "lo")),
        "add" => x.add(c, i, vec8(op, gi(op, "lo"))),
        _ => write_common!(x, c, op),
    }
}
macro_rules! read_common {
    ($x:expr, $what:expr, $from:expr, $n:expr, $want:expr) => {{
        if $x.channels() != $n {
            return Err(format!("{}: {} channels, specification says {}", $what, $x.channels(), $n));
        }
        for c in 0..$n {
            let want = &$want[$from + c];
            for i in 0..64 {
                let got = [
                    $x.at_f32(c, i),
                    $x.at(c, i / 8).as_array_ref()[i % 8],
                    $x.channel(c)[i / 8].as_array_ref()[i % 8],
                    $x.channel_f32(c)[i],
                ];
                if got.iter().any(|g| *g != want[i]) || $x.channel(c).len() != 8 || $x.channel_f32(c).len() != 64 {
                    return Err(format!("{}, channel {c}, sample {i}: {got:?} (sample, vector, vector slice, sample slice), specification says {}", $what, want[i]));
                }
            }
        }
    }};
}
impl Sys for BufSys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        match gs(op, "a") {
            "make" => {
                let c = gi(op, "c");
                self.b = match (gs(op, "k"), c) {
                    ("vec", c) => Buf::V(BufferVec::new(c as usize)),
                    (_, 1) => Buf::A1(BufferArray::new()),
                    (_, 2) => Buf::A2(BufferArray::new()),
                    (_, 3) => Buf::A3(BufferArray::new()),
                    (_, 4) => Buf::A4(BufferArray::new()),
                    (_, 5) => Buf::A5(BufferArray::new()),
                    _ => panic!("harness: channels"),
                };
            }
            "write" => {
                let c = gi(op, "c") as usize;
                let (f, g, l) = (gi(op, "f") as usize, gi(op, "g") as usize, gi(op, "l") as usize);
                match gs(op, "w") {
                    "own" => own!(&mut self.b, x => write_common!(x, c, op)),
                    "mut" => own!(&mut self.b, x => write_mut(&mut x.buffer_mut(), c, op)),
                    "sub" => own!(&mut self.b, x => write_mut(&mut x.buffer_mut().subset(f, l - f + 1), c - f, op)),
                    _ => own!(&mut self.b, x => write_mut(&mut x.buffer_mut().subset(f, l - f + 1).subset(g - f, l - g + 1), c - g, op)),
                }
            }
            "clear" => own!(&mut self.b, x => x.clear()),
            "resize" => match &mut self.b {
                Buf::V(x) => x.resize(gi(op, "c") as usize),
                _ => panic!("harness: resize"),
            },
            "clone" => {
                // The copy continues; the original is overwritten and must not matter.
                let c = self.b.clone();
                let mut o = std::mem::replace(&mut self.b, c);
                own!(&mut o, x => for c in 0..x.channels() { x.set_f32(c, 3, GARBAGE) });
                self.old = Some(o);
            }
            "read" => {
                let want: Vec<Vec<f32>> = op["x"].as_array().unwrap().iter().map(|c| c.as_array().unwrap().iter().map(|v| v.as_i64().unwrap() as f32).collect()).collect();
                let n = want.len();
                own!(&mut self.b, x => {
                    if x.length() != 8 || x.len() != 8 {
                        return Err(format!("length {}, {}", x.length(), x.len()));
                    }
                    read_common!(x, "buffer", 0, n, want);
                    let r = x.buffer_ref();
                    read_common!(r, "immutable view", 0, n, want);
                    for f in 0..=n {
                        for k in 0..=n - f {
                            let s = r.subset(f, k);
                            read_common!(s, format!("immutable view of channels {f} and {k} more"), f, k, want);
                        }
                    }
                    let mut m = x.buffer_mut();
                    read_common!(m, "mutable view", 0, n, want);
                    for f in 0..=n {
                        for k in 0..=n - f {
                            let mut s = m.subset(f, k);
                            read_common!(s, format!("mutable view of channels {f} and {k} more"), f, k, want);
                            let t = s.buffer_ref();
                            read_common!(t, "mutable view made immutable", f, k, want);
                        }
                    }
                });
            }
            a => panic!("harness: unknown action {a}"),
        }
        Ok(())
    }
}
