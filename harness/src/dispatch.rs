//! Generated by tools/mkdispatch.py: statically typed operators over boxed units,
//! dispatched on their numbers of inputs and outputs.
#![allow(clippy::all)]
use crate::util::*;
use fundsp::audiounit::Unit;
use fundsp::combinator::An;
use fundsp::hacker32::{branch, branchf, branchi, bus, busf, busi, pipe, pipef, pipei, product, stack, stackf, stacki, sum, sumf, sumi, thru, unit};
use fundsp::setting::{listen, SettingSender};
use fundsp::typenum::*;
type B = Box<dyn AudioUnit>;

pub fn s_pipe(x: B, y: B, alt: bool) -> Option<B> {
    Some(match (x.inputs(), x.outputs(), y.inputs(), y.outputs()) {
        (0, 0, 0, 0) => { if alt { Box::new(pipe(unit::<U0, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U0, U0>(x) >> unit::<U0, U0>(y)) } }
        (0, 0, 0, 1) => { if alt { Box::new(pipe(unit::<U0, U0>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U0, U0>(x) >> unit::<U0, U1>(y)) } }
        (0, 0, 0, 2) => { if alt { Box::new(pipe(unit::<U0, U0>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U0, U0>(x) >> unit::<U0, U2>(y)) } }
        (0, 0, 0, 3) => { if alt { Box::new(pipe(unit::<U0, U0>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U0, U0>(x) >> unit::<U0, U3>(y)) } }
        (0, 1, 1, 0) => { if alt { Box::new(pipe(unit::<U0, U1>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U0, U1>(x) >> unit::<U1, U0>(y)) } }
        (0, 1, 1, 1) => { if alt { Box::new(pipe(unit::<U0, U1>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U0, U1>(x) >> unit::<U1, U1>(y)) } }
        (0, 1, 1, 2) => { if alt { Box::new(pipe(unit::<U0, U1>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U0, U1>(x) >> unit::<U1, U2>(y)) } }
        (0, 1, 1, 3) => { if alt { Box::new(pipe(unit::<U0, U1>(x), unit::<U1, U3>(y))) } else { Box::new(unit::<U0, U1>(x) >> unit::<U1, U3>(y)) } }
        (0, 2, 2, 0) => { if alt { Box::new(pipe(unit::<U0, U2>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U0, U2>(x) >> unit::<U2, U0>(y)) } }
        (0, 2, 2, 1) => { if alt { Box::new(pipe(unit::<U0, U2>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U0, U2>(x) >> unit::<U2, U1>(y)) } }
        (0, 2, 2, 2) => { if alt { Box::new(pipe(unit::<U0, U2>(x), unit::<U2, U2>(y))) } else { Box::new(unit::<U0, U2>(x) >> unit::<U2, U2>(y)) } }
        (0, 2, 2, 3) => { if alt { Box::new(pipe(unit::<U0, U2>(x), unit::<U2, U3>(y))) } else { Box::new(unit::<U0, U2>(x) >> unit::<U2, U3>(y)) } }
        (0, 3, 3, 0) => { if alt { Box::new(pipe(unit::<U0, U3>(x), unit::<U3, U0>(y))) } else { Box::new(unit::<U0, U3>(x) >> unit::<U3, U0>(y)) } }
        (0, 3, 3, 1) => { if alt { Box::new(pipe(unit::<U0, U3>(x), unit::<U3, U1>(y))) } else { Box::new(unit::<U0, U3>(x) >> unit::<U3, U1>(y)) } }
        (0, 3, 3, 2) => { if alt { Box::new(pipe(unit::<U0, U3>(x), unit::<U3, U2>(y))) } else { Box::new(unit::<U0, U3>(x) >> unit::<U3, U2>(y)) } }
        (0, 3, 3, 3) => { if alt { Box::new(pipe(unit::<U0, U3>(x), unit::<U3, U3>(y))) } else { Box::new(unit::<U0, U3>(x) >> unit::<U3, U3>(y)) } }
        (1, 0, 0, 0) => { if alt { Box::new(pipe(unit::<U1, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U1, U0>(x) >> unit::<U0, U0>(y)) } }
        (1, 0, 0, 1) => { if alt { Box::new(pipe(unit::<U1, U0>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U1, U0>(x) >> unit::<U0, U1>(y)) } }
        (1, 0, 0, 2) => { if alt { Box::new(pipe(unit::<U1, U0>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U1, U0>(x) >> unit::<U0, U2>(y)) } }
        (1, 0, 0, 3) => { if alt { Box::new(pipe(unit::<U1, U0>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U1, U0>(x) >> unit::<U0, U3>(y)) } }
        (1, 1, 1, 0) => { if alt { Box::new(pipe(unit::<U1, U1>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U1, U1>(x) >> unit::<U1, U0>(y)) } }
        (1, 1, 1, 1) => { if alt { Box::new(pipe(unit::<U1, U1>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U1, U1>(x) >> unit::<U1, U1>(y)) } }
        (1, 1, 1, 2) => { if alt { Box::new(pipe(unit::<U1, U1>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U1, U1>(x) >> unit::<U1, U2>(y)) } }
        (1, 1, 1, 3) => { if alt { Box::new(pipe(unit::<U1, U1>(x), unit::<U1, U3>(y))) } else { Box::new(unit::<U1, U1>(x) >> unit::<U1, U3>(y)) } }
        (1, 2, 2, 0) => { if alt { Box::new(pipe(unit::<U1, U2>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U1, U2>(x) >> unit::<U2, U0>(y)) } }
        (1, 2, 2, 1) => { if alt { Box::new(pipe(unit::<U1, U2>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U1, U2>(x) >> unit::<U2, U1>(y)) } }
        (1, 2, 2, 2) => { if alt { Box::new(pipe(unit::<U1, U2>(x), unit::<U2, U2>(y))) } else { Box::new(unit::<U1, U2>(x) >> unit::<U2, U2>(y)) } }
        (1, 2, 2, 3) => { if alt { Box::new(pipe(unit::<U1, U2>(x), unit::<U2, U3>(y))) } else { Box::new(unit::<U1, U2>(x) >> unit::<U2, U3>(y)) } }
        (1, 3, 3, 0) => { if alt { Box::new(pipe(unit::<U1, U3>(x), unit::<U3, U0>(y))) } else { Box::new(unit::<U1, U3>(x) >> unit::<U3, U0>(y)) } }
        (1, 3, 3, 1) => { if alt { Box::new(pipe(unit::<U1, U3>(x), unit::<U3, U1>(y))) } else { Box::new(unit::<U1, U3>(x) >> unit::<U3, U1>(y)) } }
        (1, 3, 3, 2) => { if alt { Box::new(pipe(unit::<U1, U3>(x), unit::<U3, U2>(y))) } else { Box::new(unit::<U1, U3>(x) >> unit::<U3, U2>(y)) } }
        (1, 3, 3, 3) => { if alt { Box::new(pipe(unit::<U1, U3>(x), unit::<U3, U3>(y))) } else { Box::new(unit::<U1, U3>(x) >> unit::<U3, U3>(y)) } }
        (2, 0, 0, 0) => { if alt { Box::new(pipe(unit::<U2, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U2, U0>(x) >> unit::<U0, U0>(y)) } }
        (2, 0, 0, 1) => { if alt { Box::new(pipe(unit::<U2, U0>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U2, U0>(x) >> unit::<U0, U1>(y)) } }
        (2, 0, 0, 2) => { if alt { Box::new(pipe(unit::<U2, U0>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U2, U0>(x) >> unit::<U0, U2>(y)) } }
        (2, 0, 0, 3) => { if alt { Box::new(pipe(unit::<U2, U0>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U2, U0>(x) >> unit::<U0, U3>(y)) } }
        (2, 1, 1, 0) => { if alt { Box::new(pipe(unit::<U2, U1>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U2, U1>(x) >> unit::<U1, U0>(y)) } }
        (2, 1, 1, 1) => { if alt { Box::new(pipe(unit::<U2, U1>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U2, U1>(x) >> unit::<U1, U1>(y)) } }
        (2, 1, 1, 2) => { if alt { Box::new(pipe(unit::<U2, U1>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U2, U1>(x) >> unit::<U1, U2>(y)) } }
        (2, 1, 1, 3) => { if alt { Box::new(pipe(unit::<U2, U1>(x), unit::<U1, U3>(y))) } else { Box::new(unit::<U2, U1>(x) >> unit::<U1, U3>(y)) } }
        (2, 2, 2, 0) => { if alt { Box::new(pipe(unit::<U2, U2>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U2, U2>(x) >> unit::<U2, U0>(y)) } }
        (2, 2, 2, 1) => { if alt { Box::new(pipe(unit::<U2, U2>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U2, U2>(x) >> unit::<U2, U1>(y)) } }
        (2, 2, 2, 2) => { if alt { Box::new(pipe(unit::<U2, U2>(x), unit::<U2, U2>(y))) } else { Box::new(unit::<U2, U2>(x) >> unit::<U2, U2>(y)) } }
        (2, 2, 2, 3) => { if alt { Box::new(pipe(unit::<U2, U2>(x), unit::<U2, U3>(y))) } else { Box::new(unit::<U2, U2>(x) >> unit::<U2, U3>(y)) } }
        (2, 3, 3, 0) => { if alt { Box::new(pipe(unit::<U2, U3>(x), unit::<U3, U0>(y))) } else { Box::new(unit::<U2, U3>(x) >> unit::<U3, U0>(y)) } }
        (2, 3, 3, 1) => { if alt { Box::new(pipe(unit::<U2, U3>(x), unit::<U3, U1>(y))) } else { Box::new(unit::<U2, U3>(x) >> unit::<U3, U1>(y)) } }
        (2, 3, 3, 2) => { if alt { Box::new(pipe(unit::<U2, U3>(x), unit::<U3, U2>(y))) } else { Box::new(unit::<U2, U3>(x) >> unit::<U3, U2>(y)) } }
        (2, 3, 3, 3) => { if alt { Box::new(pipe(unit::<U2, U3>(x), unit::<U3, U3>(y))) } else { Box::new(unit::<U2, U3>(x) >> unit::<U3, U3>(y)) } }
        (3, 0, 0, 0) => { if alt { Box::new(pipe(unit::<U3, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U3, U0>(x) >> unit::<U0, U0>(y)) } }
        (3, 0, 0, 1) => { if alt { Box::new(pipe(unit::<U3, U0>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U3, U0>(x) >> unit::<U0, U1>(y)) } }
        (3, 0, 0, 2) => { if alt { Box::new(pipe(unit::<U3, U0>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U3, U0>(x) >> unit::<U0, U2>(y)) } }
        (3, 0, 0, 3) => { if alt { Box::new(pipe(unit::<U3, U0>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U3, U0>(x) >> unit::<U0, U3>(y)) } }
        (3, 1, 1, 0) => { if alt { Box::new(pipe(unit::<U3, U1>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U3, U1>(x) >> unit::<U1, U0>(y)) } }
        (3, 1, 1, 1) => { if alt { Box::new(pipe(unit::<U3, U1>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U3, U1>(x) >> unit::<U1, U1>(y)) } }
        (3, 1, 1, 2) => { if alt { Box::new(pipe(unit::<U3, U1>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U3, U1>(x) >> unit::<U1, U2>(y)) } }
        (3, 1, 1, 3) => { if alt { Box::new(pipe(unit::<U3, U1>(x), unit::<U1, U3>(y))) } else { Box::new(unit::<U3, U1>(x) >> unit::<U1, U3>(y)) } }
        (3, 2, 2, 0) => { if alt { Box::new(pipe(unit::<U3, U2>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U3, U2>(x) >> unit::<U2, U0>(y)) } }
        (3, 2, 2, 1) => { if alt { Box::new(pipe(unit::<U3, U2>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U3, U2>(x) >> unit::<U2, U1>(y)) } }
        (3, 2, 2, 2) => { if alt { Box::new(pipe(unit::<U3, U2>(x), unit::<U2, U2>(y))) } else { Box::new(unit::<U3, U2>(x) >> unit::<U2, U2>(y)) } }
        (3, 2, 2, 3) => { if alt { Box::new(pipe(unit::<U3, U2>(x), unit::<U2, U3>(y))) } else { Box::new(unit::<U3, U2>(x) >> unit::<U2, U3>(y)) } }
        (3, 3, 3, 0) => { if alt { Box::new(pipe(unit::<U3, U3>(x), unit::<U3, U0>(y))) } else { Box::new(unit::<U3, U3>(x) >> unit::<U3, U0>(y)) } }
        (3, 3, 3, 1) => { if alt { Box::new(pipe(unit::<U3, U3>(x), unit::<U3, U1>(y))) } else { Box::new(unit::<U3, U3>(x) >> unit::<U3, U1>(y)) } }
        (3, 3, 3, 2) => { if alt { Box::new(pipe(unit::<U3, U3>(x), unit::<U3, U2>(y))) } else { Box::new(unit::<U3, U3>(x) >> unit::<U3, U2>(y)) } }
        (3, 3, 3, 3) => { if alt { Box::new(pipe(unit::<U3, U3>(x), unit::<U3, U3>(y))) } else { Box::new(unit::<U3, U3>(x) >> unit::<U3, U3>(y)) } }
        _ => return None,
    })
}
pub fn s_stack(x: B, y: B, alt: bool) -> Option<B> {
    Some(match (x.inputs(), x.outputs(), y.inputs(), y.outputs()) {
        (0, 0, 0, 0) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U0, U0>(y)) } }
        (0, 0, 0, 1) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U0, U1>(y)) } }
        (0, 0, 0, 2) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U0, U2>(y)) } }
        (0, 0, 0, 3) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U0, U3>(y)) } }
        (0, 0, 1, 0) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U1, U0>(y)) } }
        (0, 0, 1, 1) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U1, U1>(y)) } }
        (0, 0, 1, 2) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U1, U2>(y)) } }
        (0, 0, 1, 3) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U1, U3>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U1, U3>(y)) } }
        (0, 0, 2, 0) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U2, U0>(y)) } }
        (0, 0, 2, 1) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U2, U1>(y)) } }
        (0, 0, 2, 2) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U2, U2>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U2, U2>(y)) } }
        (0, 0, 2, 3) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U2, U3>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U2, U3>(y)) } }
        (0, 0, 3, 0) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U3, U0>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U3, U0>(y)) } }
        (0, 0, 3, 1) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U3, U1>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U3, U1>(y)) } }
        (0, 0, 3, 2) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U3, U2>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U3, U2>(y)) } }
        (0, 0, 3, 3) => { if alt { Box::new(stack(unit::<U0, U0>(x), unit::<U3, U3>(y))) } else { Box::new(unit::<U0, U0>(x) | unit::<U3, U3>(y)) } }
        (0, 1, 0, 0) => { if alt { Box::new(stack(unit::<U0, U1>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U0, U1>(x) | unit::<U0, U0>(y)) } }
        (0, 1, 0, 1) => { if alt { Box::new(stack(unit::<U0, U1>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U0, U1>(x) | unit::<U0, U1>(y)) } }
        (0, 1, 0, 2) => { if alt { Box::new(stack(unit::<U0, U1>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U0, U1>(x) | unit::<U0, U2>(y)) } }
        (0, 1, 1, 0) => { if alt { Box::new(stack(unit::<U0, U1>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U0, U1>(x) | unit::<U1, U0>(y)) } }
        (0, 1, 1, 1) => { if alt { Box::new(stack(unit::<U0, U1>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U0, U1>(x) | unit::<U1, U1>(y)) } }
        (0, 1, 1, 2) => { if alt { Box::new(stack(unit::<U0, U1>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U0, U1>(x) | unit::<U1, U2>(y)) } }
        (0, 1, 2, 0) => { if alt { Box::new(stack(unit::<U0, U1>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U0, U1>(x) | unit::<U2, U0>(y)) } }
        (0, 1, 2, 1) => { if alt { Box::new(stack(unit::<U0, U1>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U0, U1>(x) | unit::<U2, U1>(y)) } }
        (0, 1, 2, 2) => { if alt { Box::new(stack(unit::<U0, U1>(x), unit::<U2, U2>(y))) } else { Box::new(unit::<U0, U1>(x) | unit::<U2, U2>(y)) } }
        (0, 1, 3, 0) => { if alt { Box::new(stack(unit::<U0, U1>(x), unit::<U3, U0>(y))) } else { Box::new(unit::<U0, U1>(x) | unit::<U3, U0>(y)) } }
        (0, 1, 3, 1) => { if alt { Box::new(stack(unit::<U0, U1>(x), unit::<U3, U1>(y))) } else { Box::new(unit::<U0, U1>(x) | unit::<U3, U1>(y)) } }
        (0, 1, 3, 2) => { if alt { Box::new(stack(unit::<U0, U1>(x), unit::<U3, U2>(y))) } else { Box::new(unit::<U0, U1>(x) | unit::<U3, U2>(y)) } }
        (0, 2, 0, 0) => { if alt { Box::new(stack(unit::<U0, U2>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U0, U2>(x) | unit::<U0, U0>(y)) } }
        (0, 2, 0, 1) => { if alt { Box::new(stack(unit::<U0, U2>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U0, U2>(x) | unit::<U0, U1>(y)) } }
        (0, 2, 1, 0) => { if alt { Box::new(stack(unit::<U0, U2>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U0, U2>(x) | unit::<U1, U0>(y)) } }
        (0, 2, 1, 1) => { if alt { Box::new(stack(unit::<U0, U2>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U0, U2>(x) | unit::<U1, U1>(y)) } }
        (0, 2, 2, 0) => { if alt { Box::new(stack(unit::<U0, U2>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U0, U2>(x) | unit::<U2, U0>(y)) } }
        (0, 2, 2, 1) => { if alt { Box::new(stack(unit::<U0, U2>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U0, U2>(x) | unit::<U2, U1>(y)) } }
        (0, 2, 3, 0) => { if alt { Box::new(stack(unit::<U0, U2>(x), unit::<U3, U0>(y))) } else { Box::new(unit::<U0, U2>(x) | unit::<U3, U0>(y)) } }
        (0, 2, 3, 1) => { if alt { Box::new(stack(unit::<U0, U2>(x), unit::<U3, U1>(y))) } else { Box::new(unit::<U0, U2>(x) | unit::<U3, U1>(y)) } }
        (0, 3, 0, 0) => { if alt { Box::new(stack(unit::<U0, U3>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U0, U3>(x) | unit::<U0, U0>(y)) } }
        (0, 3, 1, 0) => { if alt { Box::new(stack(unit::<U0, U3>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U0, U3>(x) | unit::<U1, U0>(y)) } }
        (0, 3, 2, 0) => { if alt { Box::new(stack(unit::<U0, U3>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U0, U3>(x) | unit::<U2, U0>(y)) } }
        (0, 3, 3, 0) => { if alt { Box::new(stack(unit::<U0, U3>(x), unit::<U3, U0>(y))) } else { Box::new(unit::<U0, U3>(x) | unit::<U3, U0>(y)) } }
        (1, 0, 0, 0) => { if alt { Box::new(stack(unit::<U1, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U1, U0>(x) | unit::<U0, U0>(y)) } }
        (1, 0, 0, 1) => { if alt { Box::new(stack(unit::<U1, U0>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U1, U0>(x) | unit::<U0, U1>(y)) } }
        (1, 0, 0, 2) => { if alt { Box::new(stack(unit::<U1, U0>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U1, U0>(x) | unit::<U0, U2>(y)) } }
        (1, 0, 0, 3) => { if alt { Box::new(stack(unit::<U1, U0>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U1, U0>(x) | unit::<U0, U3>(y)) } }
        (1, 0, 1, 0) => { if alt { Box::new(stack(unit::<U1, U0>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U1, U0>(x) | unit::<U1, U0>(y)) } }
        (1, 0, 1, 1) => { if alt { Box::new(stack(unit::<U1, U0>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U1, U0>(x) | unit::<U1, U1>(y)) } }
        (1, 0, 1, 2) => { if alt { Box::new(stack(unit::<U1, U0>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U1, U0>(x) | unit::<U1, U2>(y)) } }
        (1, 0, 1, 3) => { if alt { Box::new(stack(unit::<U1, U0>(x), unit::<U1, U3>(y))) } else { Box::new(unit::<U1, U0>(x) | unit::<U1, U3>(y)) } }
        (1, 0, 2, 0) => { if alt { Box::new(stack(unit::<U1, U0>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U1, U0>(x) | unit::<U2, U0>(y)) } }
        (1, 0, 2, 1) => { if alt { Box::new(stack(unit::<U1, U0>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U1, U0>(x) | unit::<U2, U1>(y)) } }
        (1, 0, 2, 2) => { if alt { Box::new(stack(unit::<U1, U0>(x), unit::<U2, U2>(y))) } else { Box::new(unit::<U1, U0>(x) | unit::<U2, U2>(y)) } }
        (1, 0, 2, 3) => { if alt { Box::new(stack(unit::<U1, U0>(x), unit::<U2, U3>(y))) } else { Box::new(unit::<U1, U0>(x) | unit::<U2, U3>(y)) } }
        (1, 1, 0, 0) => { if alt { Box::new(stack(unit::<U1, U1>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U1, U1>(x) | unit::<U0, U0>(y)) } }
        (1, 1, 0, 1) => { if alt { Box::new(stack(unit::<U1, U1>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U1, U1>(x) | unit::<U0, U1>(y)) } }
        (1, 1, 0, 2) => { if alt { Box::new(stack(unit::<U1, U1>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U1, U1>(x) | unit::<U0, U2>(y)) } }
        (1, 1, 1, 0) => { if alt { Box::new(stack(unit::<U1, U1>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U1, U1>(x) | unit::<U1, U0>(y)) } }
        (1, 1, 1, 1) => { if alt { Box::new(stack(unit::<U1, U1>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U1, U1>(x) | unit::<U1, U1>(y)) } }
        (1, 1, 1, 2) => { if alt { Box::new(stack(unit::<U1, U1>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U1, U1>(x) | unit::<U1, U2>(y)) } }
        (1, 1, 2, 0) => { if alt { Box::new(stack(unit::<U1, U1>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U1, U1>(x) | unit::<U2, U0>(y)) } }
        (1, 1, 2, 1) => { if alt { Box::new(stack(unit::<U1, U1>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U1, U1>(x) | unit::<U2, U1>(y)) } }
        (1, 1, 2, 2) => { if alt { Box::new(stack(unit::<U1, U1>(x), unit::<U2, U2>(y))) } else { Box::new(unit::<U1, U1>(x) | unit::<U2, U2>(y)) } }
        (1, 2, 0, 0) => { if alt { Box::new(stack(unit::<U1, U2>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U1, U2>(x) | unit::<U0, U0>(y)) } }
        (1, 2, 0, 1) => { if alt { Box::new(stack(unit::<U1, U2>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U1, U2>(x) | unit::<U0, U1>(y)) } }
        (1, 2, 1, 0) => { if alt { Box::new(stack(unit::<U1, U2>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U1, U2>(x) | unit::<U1, U0>(y)) } }
        (1, 2, 1, 1) => { if alt { Box::new(stack(unit::<U1, U2>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U1, U2>(x) | unit::<U1, U1>(y)) } }
        (1, 2, 2, 0) => { if alt { Box::new(stack(unit::<U1, U2>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U1, U2>(x) | unit::<U2, U0>(y)) } }
        (1, 2, 2, 1) => { if alt { Box::new(stack(unit::<U1, U2>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U1, U2>(x) | unit::<U2, U1>(y)) } }
        (1, 3, 0, 0) => { if alt { Box::new(stack(unit::<U1, U3>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U1, U3>(x) | unit::<U0, U0>(y)) } }
        (1, 3, 1, 0) => { if alt { Box::new(stack(unit::<U1, U3>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U1, U3>(x) | unit::<U1, U0>(y)) } }
        (1, 3, 2, 0) => { if alt { Box::new(stack(unit::<U1, U3>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U1, U3>(x) | unit::<U2, U0>(y)) } }
        (2, 0, 0, 0) => { if alt { Box::new(stack(unit::<U2, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U2, U0>(x) | unit::<U0, U0>(y)) } }
        (2, 0, 0, 1) => { if alt { Box::new(stack(unit::<U2, U0>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U2, U0>(x) | unit::<U0, U1>(y)) } }
        (2, 0, 0, 2) => { if alt { Box::new(stack(unit::<U2, U0>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U2, U0>(x) | unit::<U0, U2>(y)) } }
        (2, 0, 0, 3) => { if alt { Box::new(stack(unit::<U2, U0>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U2, U0>(x) | unit::<U0, U3>(y)) } }
        (2, 0, 1, 0) => { if alt { Box::new(stack(unit::<U2, U0>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U2, U0>(x) | unit::<U1, U0>(y)) } }
        (2, 0, 1, 1) => { if alt { Box::new(stack(unit::<U2, U0>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U2, U0>(x) | unit::<U1, U1>(y)) } }
        (2, 0, 1, 2) => { if alt { Box::new(stack(unit::<U2, U0>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U2, U0>(x) | unit::<U1, U2>(y)) } }
        (2, 0, 1, 3) => { if alt { Box::new(stack(unit::<U2, U0>(x), unit::<U1, U3>(y))) } else { Box::new(unit::<U2, U0>(x) | unit::<U1, U3>(y)) } }
        (2, 1, 0, 0) => { if alt { Box::new(stack(unit::<U2, U1>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U2, U1>(x) | unit::<U0, U0>(y)) } }
        (2, 1, 0, 1) => { if alt { Box::new(stack(unit::<U2, U1>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U2, U1>(x) | unit::<U0, U1>(y)) } }
        (2, 1, 0, 2) => { if alt { Box::new(stack(unit::<U2, U1>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U2, U1>(x) | unit::<U0, U2>(y)) } }
        (2, 1, 1, 0) => { if alt { Box::new(stack(unit::<U2, U1>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U2, U1>(x) | unit::<U1, U0>(y)) } }
        (2, 1, 1, 1) => { if alt { Box::new(stack(unit::<U2, U1>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U2, U1>(x) | unit::<U1, U1>(y)) } }
        (2, 1, 1, 2) => { if alt { Box::new(stack(unit::<U2, U1>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U2, U1>(x) | unit::<U1, U2>(y)) } }
        (2, 2, 0, 0) => { if alt { Box::new(stack(unit::<U2, U2>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U2, U2>(x) | unit::<U0, U0>(y)) } }
        (2, 2, 0, 1) => { if alt { Box::new(stack(unit::<U2, U2>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U2, U2>(x) | unit::<U0, U1>(y)) } }
        (2, 2, 1, 0) => { if alt { Box::new(stack(unit::<U2, U2>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U2, U2>(x) | unit::<U1, U0>(y)) } }
        (2, 2, 1, 1) => { if alt { Box::new(stack(unit::<U2, U2>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U2, U2>(x) | unit::<U1, U1>(y)) } }
        (2, 3, 0, 0) => { if alt { Box::new(stack(unit::<U2, U3>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U2, U3>(x) | unit::<U0, U0>(y)) } }
        (2, 3, 1, 0) => { if alt { Box::new(stack(unit::<U2, U3>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U2, U3>(x) | unit::<U1, U0>(y)) } }
        (3, 0, 0, 0) => { if alt { Box::new(stack(unit::<U3, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U3, U0>(x) | unit::<U0, U0>(y)) } }
        (3, 0, 0, 1) => { if alt { Box::new(stack(unit::<U3, U0>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U3, U0>(x) | unit::<U0, U1>(y)) } }
        (3, 0, 0, 2) => { if alt { Box::new(stack(unit::<U3, U0>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U3, U0>(x) | unit::<U0, U2>(y)) } }
        (3, 0, 0, 3) => { if alt { Box::new(stack(unit::<U3, U0>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U3, U0>(x) | unit::<U0, U3>(y)) } }
        (3, 1, 0, 0) => { if alt { Box::new(stack(unit::<U3, U1>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U3, U1>(x) | unit::<U0, U0>(y)) } }
        (3, 1, 0, 1) => { if alt { Box::new(stack(unit::<U3, U1>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U3, U1>(x) | unit::<U0, U1>(y)) } }
        (3, 1, 0, 2) => { if alt { Box::new(stack(unit::<U3, U1>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U3, U1>(x) | unit::<U0, U2>(y)) } }
        (3, 2, 0, 0) => { if alt { Box::new(stack(unit::<U3, U2>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U3, U2>(x) | unit::<U0, U0>(y)) } }
        (3, 2, 0, 1) => { if alt { Box::new(stack(unit::<U3, U2>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U3, U2>(x) | unit::<U0, U1>(y)) } }
        (3, 3, 0, 0) => { if alt { Box::new(stack(unit::<U3, U3>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U3, U3>(x) | unit::<U0, U0>(y)) } }
        _ => return None,
    })
}
pub fn s_branch(x: B, y: B, alt: bool) -> Option<B> {
    Some(match (x.inputs(), x.outputs(), y.inputs(), y.outputs()) {
        (0, 0, 0, 0) => { if alt { Box::new(branch(unit::<U0, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U0, U0>(x) ^ unit::<U0, U0>(y)) } }
        (0, 0, 0, 1) => { if alt { Box::new(branch(unit::<U0, U0>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U0, U0>(x) ^ unit::<U0, U1>(y)) } }
        (0, 0, 0, 2) => { if alt { Box::new(branch(unit::<U0, U0>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U0, U0>(x) ^ unit::<U0, U2>(y)) } }
        (0, 0, 0, 3) => { if alt { Box::new(branch(unit::<U0, U0>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U0, U0>(x) ^ unit::<U0, U3>(y)) } }
        (0, 1, 0, 0) => { if alt { Box::new(branch(unit::<U0, U1>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U0, U1>(x) ^ unit::<U0, U0>(y)) } }
        (0, 1, 0, 1) => { if alt { Box::new(branch(unit::<U0, U1>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U0, U1>(x) ^ unit::<U0, U1>(y)) } }
        (0, 1, 0, 2) => { if alt { Box::new(branch(unit::<U0, U1>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U0, U1>(x) ^ unit::<U0, U2>(y)) } }
        (0, 2, 0, 0) => { if alt { Box::new(branch(unit::<U0, U2>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U0, U2>(x) ^ unit::<U0, U0>(y)) } }
        (0, 2, 0, 1) => { if alt { Box::new(branch(unit::<U0, U2>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U0, U2>(x) ^ unit::<U0, U1>(y)) } }
        (0, 3, 0, 0) => { if alt { Box::new(branch(unit::<U0, U3>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U0, U3>(x) ^ unit::<U0, U0>(y)) } }
        (1, 0, 1, 0) => { if alt { Box::new(branch(unit::<U1, U0>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U1, U0>(x) ^ unit::<U1, U0>(y)) } }
        (1, 0, 1, 1) => { if alt { Box::new(branch(unit::<U1, U0>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U1, U0>(x) ^ unit::<U1, U1>(y)) } }
        (1, 0, 1, 2) => { if alt { Box::new(branch(unit::<U1, U0>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U1, U0>(x) ^ unit::<U1, U2>(y)) } }
        (1, 0, 1, 3) => { if alt { Box::new(branch(unit::<U1, U0>(x), unit::<U1, U3>(y))) } else { Box::new(unit::<U1, U0>(x) ^ unit::<U1, U3>(y)) } }
        (1, 1, 1, 0) => { if alt { Box::new(branch(unit::<U1, U1>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U1, U1>(x) ^ unit::<U1, U0>(y)) } }
        (1, 1, 1, 1) => { if alt { Box::new(branch(unit::<U1, U1>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U1, U1>(x) ^ unit::<U1, U1>(y)) } }
        (1, 1, 1, 2) => { if alt { Box::new(branch(unit::<U1, U1>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U1, U1>(x) ^ unit::<U1, U2>(y)) } }
        (1, 2, 1, 0) => { if alt { Box::new(branch(unit::<U1, U2>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U1, U2>(x) ^ unit::<U1, U0>(y)) } }
        (1, 2, 1, 1) => { if alt { Box::new(branch(unit::<U1, U2>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U1, U2>(x) ^ unit::<U1, U1>(y)) } }
        (1, 3, 1, 0) => { if alt { Box::new(branch(unit::<U1, U3>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U1, U3>(x) ^ unit::<U1, U0>(y)) } }
        (2, 0, 2, 0) => { if alt { Box::new(branch(unit::<U2, U0>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U2, U0>(x) ^ unit::<U2, U0>(y)) } }
        (2, 0, 2, 1) => { if alt { Box::new(branch(unit::<U2, U0>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U2, U0>(x) ^ unit::<U2, U1>(y)) } }
        (2, 0, 2, 2) => { if alt { Box::new(branch(unit::<U2, U0>(x), unit::<U2, U2>(y))) } else { Box::new(unit::<U2, U0>(x) ^ unit::<U2, U2>(y)) } }
        (2, 0, 2, 3) => { if alt { Box::new(branch(unit::<U2, U0>(x), unit::<U2, U3>(y))) } else { Box::new(unit::<U2, U0>(x) ^ unit::<U2, U3>(y)) } }
        (2, 1, 2, 0) => { if alt { Box::new(branch(unit::<U2, U1>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U2, U1>(x) ^ unit::<U2, U0>(y)) } }
        (2, 1, 2, 1) => { if alt { Box::new(branch(unit::<U2, U1>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U2, U1>(x) ^ unit::<U2, U1>(y)) } }
        (2, 1, 2, 2) => { if alt { Box::new(branch(unit::<U2, U1>(x), unit::<U2, U2>(y))) } else { Box::new(unit::<U2, U1>(x) ^ unit::<U2, U2>(y)) } }
        (2, 2, 2, 0) => { if alt { Box::new(branch(unit::<U2, U2>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U2, U2>(x) ^ unit::<U2, U0>(y)) } }
        (2, 2, 2, 1) => { if alt { Box::new(branch(unit::<U2, U2>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U2, U2>(x) ^ unit::<U2, U1>(y)) } }
        (2, 3, 2, 0) => { if alt { Box::new(branch(unit::<U2, U3>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U2, U3>(x) ^ unit::<U2, U0>(y)) } }
        (3, 0, 3, 0) => { if alt { Box::new(branch(unit::<U3, U0>(x), unit::<U3, U0>(y))) } else { Box::new(unit::<U3, U0>(x) ^ unit::<U3, U0>(y)) } }
        (3, 0, 3, 1) => { if alt { Box::new(branch(unit::<U3, U0>(x), unit::<U3, U1>(y))) } else { Box::new(unit::<U3, U0>(x) ^ unit::<U3, U1>(y)) } }
        (3, 0, 3, 2) => { if alt { Box::new(branch(unit::<U3, U0>(x), unit::<U3, U2>(y))) } else { Box::new(unit::<U3, U0>(x) ^ unit::<U3, U2>(y)) } }
        (3, 0, 3, 3) => { if alt { Box::new(branch(unit::<U3, U0>(x), unit::<U3, U3>(y))) } else { Box::new(unit::<U3, U0>(x) ^ unit::<U3, U3>(y)) } }
        (3, 1, 3, 0) => { if alt { Box::new(branch(unit::<U3, U1>(x), unit::<U3, U0>(y))) } else { Box::new(unit::<U3, U1>(x) ^ unit::<U3, U0>(y)) } }
        (3, 1, 3, 1) => { if alt { Box::new(branch(unit::<U3, U1>(x), unit::<U3, U1>(y))) } else { Box::new(unit::<U3, U1>(x) ^ unit::<U3, U1>(y)) } }
        (3, 1, 3, 2) => { if alt { Box::new(branch(unit::<U3, U1>(x), unit::<U3, U2>(y))) } else { Box::new(unit::<U3, U1>(x) ^ unit::<U3, U2>(y)) } }
        (3, 2, 3, 0) => { if alt { Box::new(branch(unit::<U3, U2>(x), unit::<U3, U0>(y))) } else { Box::new(unit::<U3, U2>(x) ^ unit::<U3, U0>(y)) } }
        (3, 2, 3, 1) => { if alt { Box::new(branch(unit::<U3, U2>(x), unit::<U3, U1>(y))) } else { Box::new(unit::<U3, U2>(x) ^ unit::<U3, U1>(y)) } }
        (3, 3, 3, 0) => { if alt { Box::new(branch(unit::<U3, U3>(x), unit::<U3, U0>(y))) } else { Box::new(unit::<U3, U3>(x) ^ unit::<U3, U0>(y)) } }
        _ => return None,
    })
}
pub fn s_bus(x: B, y: B, alt: bool) -> Option<B> {
    Some(match (x.inputs(), x.outputs(), y.inputs(), y.outputs()) {
        (0, 0, 0, 0) => { if alt { Box::new(bus(unit::<U0, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U0, U0>(x) & unit::<U0, U0>(y)) } }
        (0, 1, 0, 1) => { if alt { Box::new(bus(unit::<U0, U1>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U0, U1>(x) & unit::<U0, U1>(y)) } }
        (0, 2, 0, 2) => { if alt { Box::new(bus(unit::<U0, U2>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U0, U2>(x) & unit::<U0, U2>(y)) } }
        (0, 3, 0, 3) => { if alt { Box::new(bus(unit::<U0, U3>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U0, U3>(x) & unit::<U0, U3>(y)) } }
        (1, 0, 1, 0) => { if alt { Box::new(bus(unit::<U1, U0>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U1, U0>(x) & unit::<U1, U0>(y)) } }
        (1, 1, 1, 1) => { if alt { Box::new(bus(unit::<U1, U1>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U1, U1>(x) & unit::<U1, U1>(y)) } }
        (1, 2, 1, 2) => { if alt { Box::new(bus(unit::<U1, U2>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U1, U2>(x) & unit::<U1, U2>(y)) } }
        (1, 3, 1, 3) => { if alt { Box::new(bus(unit::<U1, U3>(x), unit::<U1, U3>(y))) } else { Box::new(unit::<U1, U3>(x) & unit::<U1, U3>(y)) } }
        (2, 0, 2, 0) => { if alt { Box::new(bus(unit::<U2, U0>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U2, U0>(x) & unit::<U2, U0>(y)) } }
        (2, 1, 2, 1) => { if alt { Box::new(bus(unit::<U2, U1>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U2, U1>(x) & unit::<U2, U1>(y)) } }
        (2, 2, 2, 2) => { if alt { Box::new(bus(unit::<U2, U2>(x), unit::<U2, U2>(y))) } else { Box::new(unit::<U2, U2>(x) & unit::<U2, U2>(y)) } }
        (2, 3, 2, 3) => { if alt { Box::new(bus(unit::<U2, U3>(x), unit::<U2, U3>(y))) } else { Box::new(unit::<U2, U3>(x) & unit::<U2, U3>(y)) } }
        (3, 0, 3, 0) => { if alt { Box::new(bus(unit::<U3, U0>(x), unit::<U3, U0>(y))) } else { Box::new(unit::<U3, U0>(x) & unit::<U3, U0>(y)) } }
        (3, 1, 3, 1) => { if alt { Box::new(bus(unit::<U3, U1>(x), unit::<U3, U1>(y))) } else { Box::new(unit::<U3, U1>(x) & unit::<U3, U1>(y)) } }
        (3, 2, 3, 2) => { if alt { Box::new(bus(unit::<U3, U2>(x), unit::<U3, U2>(y))) } else { Box::new(unit::<U3, U2>(x) & unit::<U3, U2>(y)) } }
        (3, 3, 3, 3) => { if alt { Box::new(bus(unit::<U3, U3>(x), unit::<U3, U3>(y))) } else { Box::new(unit::<U3, U3>(x) & unit::<U3, U3>(y)) } }
        _ => return None,
    })
}
pub fn s_sum(x: B, y: B, alt: bool) -> Option<B> {
    Some(match (x.inputs(), x.outputs(), y.inputs(), y.outputs()) {
        (0, 0, 0, 0) => { if alt { Box::new(sum(unit::<U0, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U0, U0>(x) + unit::<U0, U0>(y)) } }
        (0, 0, 1, 0) => { if alt { Box::new(sum(unit::<U0, U0>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U0, U0>(x) + unit::<U1, U0>(y)) } }
        (0, 0, 2, 0) => { if alt { Box::new(sum(unit::<U0, U0>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U0, U0>(x) + unit::<U2, U0>(y)) } }
        (0, 0, 3, 0) => { if alt { Box::new(sum(unit::<U0, U0>(x), unit::<U3, U0>(y))) } else { Box::new(unit::<U0, U0>(x) + unit::<U3, U0>(y)) } }
        (0, 1, 0, 1) => { if alt { Box::new(sum(unit::<U0, U1>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U0, U1>(x) + unit::<U0, U1>(y)) } }
        (0, 1, 1, 1) => { if alt { Box::new(sum(unit::<U0, U1>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U0, U1>(x) + unit::<U1, U1>(y)) } }
        (0, 1, 2, 1) => { if alt { Box::new(sum(unit::<U0, U1>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U0, U1>(x) + unit::<U2, U1>(y)) } }
        (0, 1, 3, 1) => { if alt { Box::new(sum(unit::<U0, U1>(x), unit::<U3, U1>(y))) } else { Box::new(unit::<U0, U1>(x) + unit::<U3, U1>(y)) } }
        (0, 2, 0, 2) => { if alt { Box::new(sum(unit::<U0, U2>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U0, U2>(x) + unit::<U0, U2>(y)) } }
        (0, 2, 1, 2) => { if alt { Box::new(sum(unit::<U0, U2>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U0, U2>(x) + unit::<U1, U2>(y)) } }
        (0, 2, 2, 2) => { if alt { Box::new(sum(unit::<U0, U2>(x), unit::<U2, U2>(y))) } else { Box::new(unit::<U0, U2>(x) + unit::<U2, U2>(y)) } }
        (0, 2, 3, 2) => { if alt { Box::new(sum(unit::<U0, U2>(x), unit::<U3, U2>(y))) } else { Box::new(unit::<U0, U2>(x) + unit::<U3, U2>(y)) } }
        (0, 3, 0, 3) => { if alt { Box::new(sum(unit::<U0, U3>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U0, U3>(x) + unit::<U0, U3>(y)) } }
        (0, 3, 1, 3) => { if alt { Box::new(sum(unit::<U0, U3>(x), unit::<U1, U3>(y))) } else { Box::new(unit::<U0, U3>(x) + unit::<U1, U3>(y)) } }
        (0, 3, 2, 3) => { if alt { Box::new(sum(unit::<U0, U3>(x), unit::<U2, U3>(y))) } else { Box::new(unit::<U0, U3>(x) + unit::<U2, U3>(y)) } }
        (0, 3, 3, 3) => { if alt { Box::new(sum(unit::<U0, U3>(x), unit::<U3, U3>(y))) } else { Box::new(unit::<U0, U3>(x) + unit::<U3, U3>(y)) } }
        (1, 0, 0, 0) => { if alt { Box::new(sum(unit::<U1, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U1, U0>(x) + unit::<U0, U0>(y)) } }
        (1, 0, 1, 0) => { if alt { Box::new(sum(unit::<U1, U0>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U1, U0>(x) + unit::<U1, U0>(y)) } }
        (1, 0, 2, 0) => { if alt { Box::new(sum(unit::<U1, U0>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U1, U0>(x) + unit::<U2, U0>(y)) } }
        (1, 1, 0, 1) => { if alt { Box::new(sum(unit::<U1, U1>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U1, U1>(x) + unit::<U0, U1>(y)) } }
        (1, 1, 1, 1) => { if alt { Box::new(sum(unit::<U1, U1>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U1, U1>(x) + unit::<U1, U1>(y)) } }
        (1, 1, 2, 1) => { if alt { Box::new(sum(unit::<U1, U1>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U1, U1>(x) + unit::<U2, U1>(y)) } }
        (1, 2, 0, 2) => { if alt { Box::new(sum(unit::<U1, U2>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U1, U2>(x) + unit::<U0, U2>(y)) } }
        (1, 2, 1, 2) => { if alt { Box::new(sum(unit::<U1, U2>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U1, U2>(x) + unit::<U1, U2>(y)) } }
        (1, 2, 2, 2) => { if alt { Box::new(sum(unit::<U1, U2>(x), unit::<U2, U2>(y))) } else { Box::new(unit::<U1, U2>(x) + unit::<U2, U2>(y)) } }
        (1, 3, 0, 3) => { if alt { Box::new(sum(unit::<U1, U3>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U1, U3>(x) + unit::<U0, U3>(y)) } }
        (1, 3, 1, 3) => { if alt { Box::new(sum(unit::<U1, U3>(x), unit::<U1, U3>(y))) } else { Box::new(unit::<U1, U3>(x) + unit::<U1, U3>(y)) } }
        (1, 3, 2, 3) => { if alt { Box::new(sum(unit::<U1, U3>(x), unit::<U2, U3>(y))) } else { Box::new(unit::<U1, U3>(x) + unit::<U2, U3>(y)) } }
        (2, 0, 0, 0) => { if alt { Box::new(sum(unit::<U2, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U2, U0>(x) + unit::<U0, U0>(y)) } }
        (2, 0, 1, 0) => { if alt { Box::new(sum(unit::<U2, U0>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U2, U0>(x) + unit::<U1, U0>(y)) } }
        (2, 1, 0, 1) => { if alt { Box::new(sum(unit::<U2, U1>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U2, U1>(x) + unit::<U0, U1>(y)) } }
        (2, 1, 1, 1) => { if alt { Box::new(sum(unit::<U2, U1>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U2, U1>(x) + unit::<U1, U1>(y)) } }
        (2, 2, 0, 2) => { if alt { Box::new(sum(unit::<U2, U2>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U2, U2>(x) + unit::<U0, U2>(y)) } }
        (2, 2, 1, 2) => { if alt { Box::new(sum(unit::<U2, U2>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U2, U2>(x) + unit::<U1, U2>(y)) } }
        (2, 3, 0, 3) => { if alt { Box::new(sum(unit::<U2, U3>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U2, U3>(x) + unit::<U0, U3>(y)) } }
        (2, 3, 1, 3) => { if alt { Box::new(sum(unit::<U2, U3>(x), unit::<U1, U3>(y))) } else { Box::new(unit::<U2, U3>(x) + unit::<U1, U3>(y)) } }
        (3, 0, 0, 0) => { if alt { Box::new(sum(unit::<U3, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U3, U0>(x) + unit::<U0, U0>(y)) } }
        (3, 1, 0, 1) => { if alt { Box::new(sum(unit::<U3, U1>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U3, U1>(x) + unit::<U0, U1>(y)) } }
        (3, 2, 0, 2) => { if alt { Box::new(sum(unit::<U3, U2>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U3, U2>(x) + unit::<U0, U2>(y)) } }
        (3, 3, 0, 3) => { if alt { Box::new(sum(unit::<U3, U3>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U3, U3>(x) + unit::<U0, U3>(y)) } }
        _ => return None,
    })
}
pub fn s_sub(x: B, y: B, alt: bool) -> Option<B> {
    Some(match (x.inputs(), x.outputs(), y.inputs(), y.outputs()) {
        (0, 0, 0, 0) => { Box::new(unit::<U0, U0>(x) - unit::<U0, U0>(y)) }
        (0, 0, 1, 0) => { Box::new(unit::<U0, U0>(x) - unit::<U1, U0>(y)) }
        (0, 0, 2, 0) => { Box::new(unit::<U0, U0>(x) - unit::<U2, U0>(y)) }
        (0, 0, 3, 0) => { Box::new(unit::<U0, U0>(x) - unit::<U3, U0>(y)) }
        (0, 1, 0, 1) => { Box::new(unit::<U0, U1>(x) - unit::<U0, U1>(y)) }
        (0, 1, 1, 1) => { Box::new(unit::<U0, U1>(x) - unit::<U1, U1>(y)) }
        (0, 1, 2, 1) => { Box::new(unit::<U0, U1>(x) - unit::<U2, U1>(y)) }
        (0, 1, 3, 1) => { Box::new(unit::<U0, U1>(x) - unit::<U3, U1>(y)) }
        (0, 2, 0, 2) => { Box::new(unit::<U0, U2>(x) - unit::<U0, U2>(y)) }
        (0, 2, 1, 2) => { Box::new(unit::<U0, U2>(x) - unit::<U1, U2>(y)) }
        (0, 2, 2, 2) => { Box::new(unit::<U0, U2>(x) - unit::<U2, U2>(y)) }
        (0, 2, 3, 2) => { Box::new(unit::<U0, U2>(x) - unit::<U3, U2>(y)) }
        (0, 3, 0, 3) => { Box::new(unit::<U0, U3>(x) - unit::<U0, U3>(y)) }
        (0, 3, 1, 3) => { Box::new(unit::<U0, U3>(x) - unit::<U1, U3>(y)) }
        (0, 3, 2, 3) => { Box::new(unit::<U0, U3>(x) - unit::<U2, U3>(y)) }
        (0, 3, 3, 3) => { Box::new(unit::<U0, U3>(x) - unit::<U3, U3>(y)) }
        (1, 0, 0, 0) => { Box::new(unit::<U1, U0>(x) - unit::<U0, U0>(y)) }
        (1, 0, 1, 0) => { Box::new(unit::<U1, U0>(x) - unit::<U1, U0>(y)) }
        (1, 0, 2, 0) => { Box::new(unit::<U1, U0>(x) - unit::<U2, U0>(y)) }
        (1, 1, 0, 1) => { Box::new(unit::<U1, U1>(x) - unit::<U0, U1>(y)) }
        (1, 1, 1, 1) => { Box::new(unit::<U1, U1>(x) - unit::<U1, U1>(y)) }
        (1, 1, 2, 1) => { Box::new(unit::<U1, U1>(x) - unit::<U2, U1>(y)) }
        (1, 2, 0, 2) => { Box::new(unit::<U1, U2>(x) - unit::<U0, U2>(y)) }
        (1, 2, 1, 2) => { Box::new(unit::<U1, U2>(x) - unit::<U1, U2>(y)) }
        (1, 2, 2, 2) => { Box::new(unit::<U1, U2>(x) - unit::<U2, U2>(y)) }
        (1, 3, 0, 3) => { Box::new(unit::<U1, U3>(x) - unit::<U0, U3>(y)) }
        (1, 3, 1, 3) => { Box::new(unit::<U1, U3>(x) - unit::<U1, U3>(y)) }
        (1, 3, 2, 3) => { Box::new(unit::<U1, U3>(x) - unit::<U2, U3>(y)) }
        (2, 0, 0, 0) => { Box::new(unit::<U2, U0>(x) - unit::<U0, U0>(y)) }
        (2, 0, 1, 0) => { Box::new(unit::<U2, U0>(x) - unit::<U1, U0>(y)) }
        (2, 1, 0, 1) => { Box::new(unit::<U2, U1>(x) - unit::<U0, U1>(y)) }
        (2, 1, 1, 1) => { Box::new(unit::<U2, U1>(x) - unit::<U1, U1>(y)) }
        (2, 2, 0, 2) => { Box::new(unit::<U2, U2>(x) - unit::<U0, U2>(y)) }
        (2, 2, 1, 2) => { Box::new(unit::<U2, U2>(x) - unit::<U1, U2>(y)) }
        (2, 3, 0, 3) => { Box::new(unit::<U2, U3>(x) - unit::<U0, U3>(y)) }
        (2, 3, 1, 3) => { Box::new(unit::<U2, U3>(x) - unit::<U1, U3>(y)) }
        (3, 0, 0, 0) => { Box::new(unit::<U3, U0>(x) - unit::<U0, U0>(y)) }
        (3, 1, 0, 1) => { Box::new(unit::<U3, U1>(x) - unit::<U0, U1>(y)) }
        (3, 2, 0, 2) => { Box::new(unit::<U3, U2>(x) - unit::<U0, U2>(y)) }
        (3, 3, 0, 3) => { Box::new(unit::<U3, U3>(x) - unit::<U0, U3>(y)) }
        _ => return None,
    })
}
pub fn s_mul(x: B, y: B, alt: bool) -> Option<B> {
    Some(match (x.inputs(), x.outputs(), y.inputs(), y.outputs()) {
        (0, 0, 0, 0) => { if alt { Box::new(product(unit::<U0, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U0, U0>(x) * unit::<U0, U0>(y)) } }
        (0, 0, 1, 0) => { if alt { Box::new(product(unit::<U0, U0>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U0, U0>(x) * unit::<U1, U0>(y)) } }
        (0, 0, 2, 0) => { if alt { Box::new(product(unit::<U0, U0>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U0, U0>(x) * unit::<U2, U0>(y)) } }
        (0, 0, 3, 0) => { if alt { Box::new(product(unit::<U0, U0>(x), unit::<U3, U0>(y))) } else { Box::new(unit::<U0, U0>(x) * unit::<U3, U0>(y)) } }
        (0, 1, 0, 1) => { if alt { Box::new(product(unit::<U0, U1>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U0, U1>(x) * unit::<U0, U1>(y)) } }
        (0, 1, 1, 1) => { if alt { Box::new(product(unit::<U0, U1>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U0, U1>(x) * unit::<U1, U1>(y)) } }
        (0, 1, 2, 1) => { if alt { Box::new(product(unit::<U0, U1>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U0, U1>(x) * unit::<U2, U1>(y)) } }
        (0, 1, 3, 1) => { if alt { Box::new(product(unit::<U0, U1>(x), unit::<U3, U1>(y))) } else { Box::new(unit::<U0, U1>(x) * unit::<U3, U1>(y)) } }
        (0, 2, 0, 2) => { if alt { Box::new(product(unit::<U0, U2>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U0, U2>(x) * unit::<U0, U2>(y)) } }
        (0, 2, 1, 2) => { if alt { Box::new(product(unit::<U0, U2>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U0, U2>(x) * unit::<U1, U2>(y)) } }
        (0, 2, 2, 2) => { if alt { Box::new(product(unit::<U0, U2>(x), unit::<U2, U2>(y))) } else { Box::new(unit::<U0, U2>(x) * unit::<U2, U2>(y)) } }
        (0, 2, 3, 2) => { if alt { Box::new(product(unit::<U0, U2>(x), unit::<U3, U2>(y))) } else { Box::new(unit::<U0, U2>(x) * unit::<U3, U2>(y)) } }
        (0, 3, 0, 3) => { if alt { Box::new(product(unit::<U0, U3>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U0, U3>(x) * unit::<U0, U3>(y)) } }
        (0, 3, 1, 3) => { if alt { Box::new(product(unit::<U0, U3>(x), unit::<U1, U3>(y))) } else { Box::new(unit::<U0, U3>(x) * unit::<U1, U3>(y)) } }
        (0, 3, 2, 3) => { if alt { Box::new(product(unit::<U0, U3>(x), unit::<U2, U3>(y))) } else { Box::new(unit::<U0, U3>(x) * unit::<U2, U3>(y)) } }
        (0, 3, 3, 3) => { if alt { Box::new(product(unit::<U0, U3>(x), unit::<U3, U3>(y))) } else { Box::new(unit::<U0, U3>(x) * unit::<U3, U3>(y)) } }
        (1, 0, 0, 0) => { if alt { Box::new(product(unit::<U1, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U1, U0>(x) * unit::<U0, U0>(y)) } }
        (1, 0, 1, 0) => { if alt { Box::new(product(unit::<U1, U0>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U1, U0>(x) * unit::<U1, U0>(y)) } }
        (1, 0, 2, 0) => { if alt { Box::new(product(unit::<U1, U0>(x), unit::<U2, U0>(y))) } else { Box::new(unit::<U1, U0>(x) * unit::<U2, U0>(y)) } }
        (1, 1, 0, 1) => { if alt { Box::new(product(unit::<U1, U1>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U1, U1>(x) * unit::<U0, U1>(y)) } }
        (1, 1, 1, 1) => { if alt { Box::new(product(unit::<U1, U1>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U1, U1>(x) * unit::<U1, U1>(y)) } }
        (1, 1, 2, 1) => { if alt { Box::new(product(unit::<U1, U1>(x), unit::<U2, U1>(y))) } else { Box::new(unit::<U1, U1>(x) * unit::<U2, U1>(y)) } }
        (1, 2, 0, 2) => { if alt { Box::new(product(unit::<U1, U2>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U1, U2>(x) * unit::<U0, U2>(y)) } }
        (1, 2, 1, 2) => { if alt { Box::new(product(unit::<U1, U2>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U1, U2>(x) * unit::<U1, U2>(y)) } }
        (1, 2, 2, 2) => { if alt { Box::new(product(unit::<U1, U2>(x), unit::<U2, U2>(y))) } else { Box::new(unit::<U1, U2>(x) * unit::<U2, U2>(y)) } }
        (1, 3, 0, 3) => { if alt { Box::new(product(unit::<U1, U3>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U1, U3>(x) * unit::<U0, U3>(y)) } }
        (1, 3, 1, 3) => { if alt { Box::new(product(unit::<U1, U3>(x), unit::<U1, U3>(y))) } else { Box::new(unit::<U1, U3>(x) * unit::<U1, U3>(y)) } }
        (1, 3, 2, 3) => { if alt { Box::new(product(unit::<U1, U3>(x), unit::<U2, U3>(y))) } else { Box::new(unit::<U1, U3>(x) * unit::<U2, U3>(y)) } }
        (2, 0, 0, 0) => { if alt { Box::new(product(unit::<U2, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U2, U0>(x) * unit::<U0, U0>(y)) } }
        (2, 0, 1, 0) => { if alt { Box::new(product(unit::<U2, U0>(x), unit::<U1, U0>(y))) } else { Box::new(unit::<U2, U0>(x) * unit::<U1, U0>(y)) } }
        (2, 1, 0, 1) => { if alt { Box::new(product(unit::<U2, U1>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U2, U1>(x) * unit::<U0, U1>(y)) } }
        (2, 1, 1, 1) => { if alt { Box::new(product(unit::<U2, U1>(x), unit::<U1, U1>(y))) } else { Box::new(unit::<U2, U1>(x) * unit::<U1, U1>(y)) } }
        (2, 2, 0, 2) => { if alt { Box::new(product(unit::<U2, U2>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U2, U2>(x) * unit::<U0, U2>(y)) } }
        (2, 2, 1, 2) => { if alt { Box::new(product(unit::<U2, U2>(x), unit::<U1, U2>(y))) } else { Box::new(unit::<U2, U2>(x) * unit::<U1, U2>(y)) } }
        (2, 3, 0, 3) => { if alt { Box::new(product(unit::<U2, U3>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U2, U3>(x) * unit::<U0, U3>(y)) } }
        (2, 3, 1, 3) => { if alt { Box::new(product(unit::<U2, U3>(x), unit::<U1, U3>(y))) } else { Box::new(unit::<U2, U3>(x) * unit::<U1, U3>(y)) } }
        (3, 0, 0, 0) => { if alt { Box::new(product(unit::<U3, U0>(x), unit::<U0, U0>(y))) } else { Box::new(unit::<U3, U0>(x) * unit::<U0, U0>(y)) } }
        (3, 1, 0, 1) => { if alt { Box::new(product(unit::<U3, U1>(x), unit::<U0, U1>(y))) } else { Box::new(unit::<U3, U1>(x) * unit::<U0, U1>(y)) } }
        (3, 2, 0, 2) => { if alt { Box::new(product(unit::<U3, U2>(x), unit::<U0, U2>(y))) } else { Box::new(unit::<U3, U2>(x) * unit::<U0, U2>(y)) } }
        (3, 3, 0, 3) => { if alt { Box::new(product(unit::<U3, U3>(x), unit::<U0, U3>(y))) } else { Box::new(unit::<U3, U3>(x) * unit::<U0, U3>(y)) } }
        _ => return None,
    })
}
pub fn s_thru(x: B, alt: bool) -> Option<B> {
    Some(match (x.inputs(), x.outputs()) {
        (0, 0) => Box::new(if alt { thru(unit::<U0, U0>(x)) } else { !unit::<U0, U0>(x) }),
        (0, 1) => Box::new(if alt { thru(unit::<U0, U1>(x)) } else { !unit::<U0, U1>(x) }),
        (0, 2) => Box::new(if alt { thru(unit::<U0, U2>(x)) } else { !unit::<U0, U2>(x) }),
        (0, 3) => Box::new(if alt { thru(unit::<U0, U3>(x)) } else { !unit::<U0, U3>(x) }),
        (1, 0) => Box::new(if alt { thru(unit::<U1, U0>(x)) } else { !unit::<U1, U0>(x) }),
        (1, 1) => Box::new(if alt { thru(unit::<U1, U1>(x)) } else { !unit::<U1, U1>(x) }),
        (1, 2) => Box::new(if alt { thru(unit::<U1, U2>(x)) } else { !unit::<U1, U2>(x) }),
        (1, 3) => Box::new(if alt { thru(unit::<U1, U3>(x)) } else { !unit::<U1, U3>(x) }),
        (2, 0) => Box::new(if alt { thru(unit::<U2, U0>(x)) } else { !unit::<U2, U0>(x) }),
        (2, 1) => Box::new(if alt { thru(unit::<U2, U1>(x)) } else { !unit::<U2, U1>(x) }),
        (2, 2) => Box::new(if alt { thru(unit::<U2, U2>(x)) } else { !unit::<U2, U2>(x) }),
        (2, 3) => Box::new(if alt { thru(unit::<U2, U3>(x)) } else { !unit::<U2, U3>(x) }),
        (3, 0) => Box::new(if alt { thru(unit::<U3, U0>(x)) } else { !unit::<U3, U0>(x) }),
        (3, 1) => Box::new(if alt { thru(unit::<U3, U1>(x)) } else { !unit::<U3, U1>(x) }),
        (3, 2) => Box::new(if alt { thru(unit::<U3, U2>(x)) } else { !unit::<U3, U2>(x) }),
        (3, 3) => Box::new(if alt { thru(unit::<U3, U3>(x)) } else { !unit::<U3, U3>(x) }),
        _ => return None,
    })
}
pub fn s_neg(x: B) -> Option<B> {
    Some(match (x.inputs(), x.outputs()) {
        (0, 0) => Box::new(-unit::<U0, U0>(x)),
        (0, 1) => Box::new(-unit::<U0, U1>(x)),
        (0, 2) => Box::new(-unit::<U0, U2>(x)),
        (0, 3) => Box::new(-unit::<U0, U3>(x)),
        (1, 0) => Box::new(-unit::<U1, U0>(x)),
        (1, 1) => Box::new(-unit::<U1, U1>(x)),
        (1, 2) => Box::new(-unit::<U1, U2>(x)),
        (1, 3) => Box::new(-unit::<U1, U3>(x)),
        (2, 0) => Box::new(-unit::<U2, U0>(x)),
        (2, 1) => Box::new(-unit::<U2, U1>(x)),
        (2, 2) => Box::new(-unit::<U2, U2>(x)),
        (2, 3) => Box::new(-unit::<U2, U3>(x)),
        (3, 0) => Box::new(-unit::<U3, U0>(x)),
        (3, 1) => Box::new(-unit::<U3, U1>(x)),
        (3, 2) => Box::new(-unit::<U3, U2>(x)),
        (3, 3) => Box::new(-unit::<U3, U3>(x)),
        _ => return None,
    })
}
pub fn s_addc(x: B, c: f32) -> Option<B> {
    Some(match (x.inputs(), x.outputs()) {
        (0, 0) => Box::new(unit::<U0, U0>(x) + c),
        (0, 1) => Box::new(unit::<U0, U1>(x) + c),
        (0, 2) => Box::new(unit::<U0, U2>(x) + c),
        (0, 3) => Box::new(unit::<U0, U3>(x) + c),
        (1, 0) => Box::new(unit::<U1, U0>(x) + c),
        (1, 1) => Box::new(unit::<U1, U1>(x) + c),
        (1, 2) => Box::new(unit::<U1, U2>(x) + c),
        (1, 3) => Box::new(unit::<U1, U3>(x) + c),
        (2, 0) => Box::new(unit::<U2, U0>(x) + c),
        (2, 1) => Box::new(unit::<U2, U1>(x) + c),
        (2, 2) => Box::new(unit::<U2, U2>(x) + c),
        (2, 3) => Box::new(unit::<U2, U3>(x) + c),
        (3, 0) => Box::new(unit::<U3, U0>(x) + c),
        (3, 1) => Box::new(unit::<U3, U1>(x) + c),
        (3, 2) => Box::new(unit::<U3, U2>(x) + c),
        (3, 3) => Box::new(unit::<U3, U3>(x) + c),
        _ => return None,
    })
}
pub fn s_cadd(x: B, c: f32) -> Option<B> {
    Some(match (x.inputs(), x.outputs()) {
        (0, 0) => Box::new(c + unit::<U0, U0>(x)),
        (0, 1) => Box::new(c + unit::<U0, U1>(x)),
        (0, 2) => Box::new(c + unit::<U0, U2>(x)),
        (0, 3) => Box::new(c + unit::<U0, U3>(x)),
        (1, 0) => Box::new(c + unit::<U1, U0>(x)),
        (1, 1) => Box::new(c + unit::<U1, U1>(x)),
        (1, 2) => Box::new(c + unit::<U1, U2>(x)),
        (1, 3) => Box::new(c + unit::<U1, U3>(x)),
        (2, 0) => Box::new(c + unit::<U2, U0>(x)),
        (2, 1) => Box::new(c + unit::<U2, U1>(x)),
        (2, 2) => Box::new(c + unit::<U2, U2>(x)),
        (2, 3) => Box::new(c + unit::<U2, U3>(x)),
        (3, 0) => Box::new(c + unit::<U3, U0>(x)),
        (3, 1) => Box::new(c + unit::<U3, U1>(x)),
        (3, 2) => Box::new(c + unit::<U3, U2>(x)),
        (3, 3) => Box::new(c + unit::<U3, U3>(x)),
        _ => return None,
    })
}
pub fn s_subc(x: B, c: f32) -> Option<B> {
    Some(match (x.inputs(), x.outputs()) {
        (0, 0) => Box::new(unit::<U0, U0>(x) - c),
        (0, 1) => Box::new(unit::<U0, U1>(x) - c),
        (0, 2) => Box::new(unit::<U0, U2>(x) - c),
        (0, 3) => Box::new(unit::<U0, U3>(x) - c),
        (1, 0) => Box::new(unit::<U1, U0>(x) - c),
        (1, 1) => Box::new(unit::<U1, U1>(x) - c),
        (1, 2) => Box::new(unit::<U1, U2>(x) - c),
        (1, 3) => Box::new(unit::<U1, U3>(x) - c),
        (2, 0) => Box::new(unit::<U2, U0>(x) - c),
        (2, 1) => Box::new(unit::<U2, U1>(x) - c),
        (2, 2) => Box::new(unit::<U2, U2>(x) - c),
        (2, 3) => Box::new(unit::<U2, U3>(x) - c),
        (3, 0) => Box::new(unit::<U3, U0>(x) - c),
        (3, 1) => Box::new(unit::<U3, U1>(x) - c),
        (3, 2) => Box::new(unit::<U3, U2>(x) - c),
        (3, 3) => Box::new(unit::<U3, U3>(x) - c),
        _ => return None,
    })
}
pub fn s_csub(x: B, c: f32) -> Option<B> {
    Some(match (x.inputs(), x.outputs()) {
        (0, 0) => Box::new(c - unit::<U0, U0>(x)),
        (0, 1) => Box::new(c - unit::<U0, U1>(x)),
        (0, 2) => Box::new(c - unit::<U0, U2>(x)),
        (0, 3) => Box::new(c - unit::<U0, U3>(x)),
        (1, 0) => Box::new(c - unit::<U1, U0>(x)),
        (1, 1) => Box::new(c - unit::<U1, U1>(x)),
        (1, 2) => Box::new(c - unit::<U1, U2>(x)),
        (1, 3) => Box::new(c - unit::<U1, U3>(x)),
        (2, 0) => Box::new(c - unit::<U2, U0>(x)),
        (2, 1) => Box::new(c - unit::<U2, U1>(x)),
        (2, 2) => Box::new(c - unit::<U2, U2>(x)),
        (2, 3) => Box::new(c - unit::<U2, U3>(x)),
        (3, 0) => Box::new(c - unit::<U3, U0>(x)),
        (3, 1) => Box::new(c - unit::<U3, U1>(x)),
        (3, 2) => Box::new(c - unit::<U3, U2>(x)),
        (3, 3) => Box::new(c - unit::<U3, U3>(x)),
        _ => return None,
    })
}
pub fn s_mulc(x: B, c: f32) -> Option<B> {
    Some(match (x.inputs(), x.outputs()) {
        (0, 0) => Box::new(unit::<U0, U0>(x) * c),
        (0, 1) => Box::new(unit::<U0, U1>(x) * c),
        (0, 2) => Box::new(unit::<U0, U2>(x) * c),
        (0, 3) => Box::new(unit::<U0, U3>(x) * c),
        (1, 0) => Box::new(unit::<U1, U0>(x) * c),
        (1, 1) => Box::new(unit::<U1, U1>(x) * c),
        (1, 2) => Box::new(unit::<U1, U2>(x) * c),
        (1, 3) => Box::new(unit::<U1, U3>(x) * c),
        (2, 0) => Box::new(unit::<U2, U0>(x) * c),
        (2, 1) => Box::new(unit::<U2, U1>(x) * c),
        (2, 2) => Box::new(unit::<U2, U2>(x) * c),
        (2, 3) => Box::new(unit::<U2, U3>(x) * c),
        (3, 0) => Box::new(unit::<U3, U0>(x) * c),
        (3, 1) => Box::new(unit::<U3, U1>(x) * c),
        (3, 2) => Box::new(unit::<U3, U2>(x) * c),
        (3, 3) => Box::new(unit::<U3, U3>(x) * c),
        _ => return None,
    })
}
pub fn s_cmul(x: B, c: f32) -> Option<B> {
    Some(match (x.inputs(), x.outputs()) {
        (0, 0) => Box::new(c * unit::<U0, U0>(x)),
        (0, 1) => Box::new(c * unit::<U0, U1>(x)),
        (0, 2) => Box::new(c * unit::<U0, U2>(x)),
        (0, 3) => Box::new(c * unit::<U0, U3>(x)),
        (1, 0) => Box::new(c * unit::<U1, U0>(x)),
        (1, 1) => Box::new(c * unit::<U1, U1>(x)),
        (1, 2) => Box::new(c * unit::<U1, U2>(x)),
        (1, 3) => Box::new(c * unit::<U1, U3>(x)),
        (2, 0) => Box::new(c * unit::<U2, U0>(x)),
        (2, 1) => Box::new(c * unit::<U2, U1>(x)),
        (2, 2) => Box::new(c * unit::<U2, U2>(x)),
        (2, 3) => Box::new(c * unit::<U2, U3>(x)),
        (3, 0) => Box::new(c * unit::<U3, U0>(x)),
        (3, 1) => Box::new(c * unit::<U3, U1>(x)),
        (3, 2) => Box::new(c * unit::<U3, U2>(x)),
        (3, 3) => Box::new(c * unit::<U3, U3>(x)),
        _ => return None,
    })
}
pub fn s_listen(x: B) -> Option<(SettingSender, B)> {
    Some(match (x.inputs(), x.outputs()) {
        (0, 0) => { let (s, n) = listen(unit::<U0, U0>(x)); (s, Box::new(n)) }
        (0, 1) => { let (s, n) = listen(unit::<U0, U1>(x)); (s, Box::new(n)) }
        (0, 2) => { let (s, n) = listen(unit::<U0, U2>(x)); (s, Box::new(n)) }
        (0, 3) => { let (s, n) = listen(unit::<U0, U3>(x)); (s, Box::new(n)) }
        (1, 0) => { let (s, n) = listen(unit::<U1, U0>(x)); (s, Box::new(n)) }
        (1, 1) => { let (s, n) = listen(unit::<U1, U1>(x)); (s, Box::new(n)) }
        (1, 2) => { let (s, n) = listen(unit::<U1, U2>(x)); (s, Box::new(n)) }
        (1, 3) => { let (s, n) = listen(unit::<U1, U3>(x)); (s, Box::new(n)) }
        (2, 0) => { let (s, n) = listen(unit::<U2, U0>(x)); (s, Box::new(n)) }
        (2, 1) => { let (s, n) = listen(unit::<U2, U1>(x)); (s, Box::new(n)) }
        (2, 2) => { let (s, n) = listen(unit::<U2, U2>(x)); (s, Box::new(n)) }
        (2, 3) => { let (s, n) = listen(unit::<U2, U3>(x)); (s, Box::new(n)) }
        (3, 0) => { let (s, n) = listen(unit::<U3, U0>(x)); (s, Box::new(n)) }
        (3, 1) => { let (s, n) = listen(unit::<U3, U1>(x)); (s, Box::new(n)) }
        (3, 2) => { let (s, n) = listen(unit::<U3, U2>(x)); (s, Box::new(n)) }
        (3, 3) => { let (s, n) = listen(unit::<U3, U3>(x)); (s, Box::new(n)) }
        _ => return None,
    })
}
/// Fractions are evenly spaced in 0..1; the middle for a single node.
fn frac_index(x: f32, n: usize) -> usize {
    if n == 1 {
        assert!(x == 0.5, "fraction {x} for a single node");
        return 0;
    }
    let i = (x * (n - 1) as f32).round();
    assert!((x - i / (n - 1) as f32).abs() < 1.0e-6 && i >= 0.0 && (i as usize) < n, "fraction {x} for {n} nodes");
    i as usize
}
pub fn s_stacki(n: usize, i: usize, o: usize, frac: bool, f: &dyn Fn(usize) -> B) -> Option<B> {
    Some(match (n, i, o) {
        (1, 0, 0) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (1, 0, 1) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U0, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U0, U1>> { unit(f(x as usize)) })) },
        (1, 0, 2) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U0, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U0, U2>> { unit(f(x as usize)) })) },
        (1, 0, 3) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U0, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U0, U3>> { unit(f(x as usize)) })) },
        (1, 1, 0) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U1, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U1, U0>> { unit(f(x as usize)) })) },
        (1, 1, 1) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (1, 1, 2) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U1, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U1, U2>> { unit(f(x as usize)) })) },
        (1, 1, 3) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U1, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U1, U3>> { unit(f(x as usize)) })) },
        (1, 2, 0) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U2, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U2, U0>> { unit(f(x as usize)) })) },
        (1, 2, 1) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U2, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U2, U1>> { unit(f(x as usize)) })) },
        (1, 2, 2) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U2, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U2, U2>> { unit(f(x as usize)) })) },
        (1, 2, 3) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U2, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U2, U3>> { unit(f(x as usize)) })) },
        (1, 3, 0) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U3, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U3, U0>> { unit(f(x as usize)) })) },
        (1, 3, 1) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U3, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U3, U1>> { unit(f(x as usize)) })) },
        (1, 3, 2) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U3, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U3, U2>> { unit(f(x as usize)) })) },
        (1, 3, 3) => if frac { Box::new(stackf::<U1, _, _>(|x: f32| -> An<Unit<U3, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(stacki::<U1, _, _>(|x: u64| -> An<Unit<U3, U3>> { unit(f(x as usize)) })) },
        (2, 0, 0) => if frac { Box::new(stackf::<U2, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 2))) })) } else { Box::new(stacki::<U2, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (2, 0, 1) => if frac { Box::new(stackf::<U2, _, _>(|x: f32| -> An<Unit<U0, U1>> { unit(f(frac_index(x, 2))) })) } else { Box::new(stacki::<U2, _, _>(|x: u64| -> An<Unit<U0, U1>> { unit(f(x as usize)) })) },
        (2, 1, 0) => if frac { Box::new(stackf::<U2, _, _>(|x: f32| -> An<Unit<U1, U0>> { unit(f(frac_index(x, 2))) })) } else { Box::new(stacki::<U2, _, _>(|x: u64| -> An<Unit<U1, U0>> { unit(f(x as usize)) })) },
        (2, 1, 1) => if frac { Box::new(stackf::<U2, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 2))) })) } else { Box::new(stacki::<U2, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (3, 0, 0) => if frac { Box::new(stackf::<U3, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 3))) })) } else { Box::new(stacki::<U3, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (3, 0, 1) => if frac { Box::new(stackf::<U3, _, _>(|x: f32| -> An<Unit<U0, U1>> { unit(f(frac_index(x, 3))) })) } else { Box::new(stacki::<U3, _, _>(|x: u64| -> An<Unit<U0, U1>> { unit(f(x as usize)) })) },
        (3, 1, 0) => if frac { Box::new(stackf::<U3, _, _>(|x: f32| -> An<Unit<U1, U0>> { unit(f(frac_index(x, 3))) })) } else { Box::new(stacki::<U3, _, _>(|x: u64| -> An<Unit<U1, U0>> { unit(f(x as usize)) })) },
        (3, 1, 1) => if frac { Box::new(stackf::<U3, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 3))) })) } else { Box::new(stacki::<U3, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (5, 0, 0) => if frac { Box::new(stackf::<U5, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 5))) })) } else { Box::new(stacki::<U5, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        _ => return None,
    })
}
pub fn s_branchi(n: usize, i: usize, o: usize, frac: bool, f: &dyn Fn(usize) -> B) -> Option<B> {
    Some(match (n, i, o) {
        (1, 0, 0) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (1, 0, 1) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U0, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U0, U1>> { unit(f(x as usize)) })) },
        (1, 0, 2) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U0, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U0, U2>> { unit(f(x as usize)) })) },
        (1, 0, 3) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U0, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U0, U3>> { unit(f(x as usize)) })) },
        (1, 1, 0) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U1, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U1, U0>> { unit(f(x as usize)) })) },
        (1, 1, 1) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (1, 1, 2) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U1, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U1, U2>> { unit(f(x as usize)) })) },
        (1, 1, 3) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U1, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U1, U3>> { unit(f(x as usize)) })) },
        (1, 2, 0) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U2, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U2, U0>> { unit(f(x as usize)) })) },
        (1, 2, 1) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U2, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U2, U1>> { unit(f(x as usize)) })) },
        (1, 2, 2) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U2, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U2, U2>> { unit(f(x as usize)) })) },
        (1, 2, 3) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U2, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U2, U3>> { unit(f(x as usize)) })) },
        (1, 3, 0) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U3, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U3, U0>> { unit(f(x as usize)) })) },
        (1, 3, 1) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U3, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U3, U1>> { unit(f(x as usize)) })) },
        (1, 3, 2) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U3, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U3, U2>> { unit(f(x as usize)) })) },
        (1, 3, 3) => if frac { Box::new(branchf::<U1, _, _>(|x: f32| -> An<Unit<U3, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(branchi::<U1, _, _>(|x: u64| -> An<Unit<U3, U3>> { unit(f(x as usize)) })) },
        (2, 0, 0) => if frac { Box::new(branchf::<U2, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 2))) })) } else { Box::new(branchi::<U2, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (2, 0, 1) => if frac { Box::new(branchf::<U2, _, _>(|x: f32| -> An<Unit<U0, U1>> { unit(f(frac_index(x, 2))) })) } else { Box::new(branchi::<U2, _, _>(|x: u64| -> An<Unit<U0, U1>> { unit(f(x as usize)) })) },
        (2, 1, 0) => if frac { Box::new(branchf::<U2, _, _>(|x: f32| -> An<Unit<U1, U0>> { unit(f(frac_index(x, 2))) })) } else { Box::new(branchi::<U2, _, _>(|x: u64| -> An<Unit<U1, U0>> { unit(f(x as usize)) })) },
        (2, 1, 1) => if frac { Box::new(branchf::<U2, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 2))) })) } else { Box::new(branchi::<U2, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (2, 2, 0) => if frac { Box::new(branchf::<U2, _, _>(|x: f32| -> An<Unit<U2, U0>> { unit(f(frac_index(x, 2))) })) } else { Box::new(branchi::<U2, _, _>(|x: u64| -> An<Unit<U2, U0>> { unit(f(x as usize)) })) },
        (2, 2, 1) => if frac { Box::new(branchf::<U2, _, _>(|x: f32| -> An<Unit<U2, U1>> { unit(f(frac_index(x, 2))) })) } else { Box::new(branchi::<U2, _, _>(|x: u64| -> An<Unit<U2, U1>> { unit(f(x as usize)) })) },
        (2, 3, 0) => if frac { Box::new(branchf::<U2, _, _>(|x: f32| -> An<Unit<U3, U0>> { unit(f(frac_index(x, 2))) })) } else { Box::new(branchi::<U2, _, _>(|x: u64| -> An<Unit<U3, U0>> { unit(f(x as usize)) })) },
        (2, 3, 1) => if frac { Box::new(branchf::<U2, _, _>(|x: f32| -> An<Unit<U3, U1>> { unit(f(frac_index(x, 2))) })) } else { Box::new(branchi::<U2, _, _>(|x: u64| -> An<Unit<U3, U1>> { unit(f(x as usize)) })) },
        (3, 0, 0) => if frac { Box::new(branchf::<U3, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 3))) })) } else { Box::new(branchi::<U3, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (3, 0, 1) => if frac { Box::new(branchf::<U3, _, _>(|x: f32| -> An<Unit<U0, U1>> { unit(f(frac_index(x, 3))) })) } else { Box::new(branchi::<U3, _, _>(|x: u64| -> An<Unit<U0, U1>> { unit(f(x as usize)) })) },
        (3, 1, 0) => if frac { Box::new(branchf::<U3, _, _>(|x: f32| -> An<Unit<U1, U0>> { unit(f(frac_index(x, 3))) })) } else { Box::new(branchi::<U3, _, _>(|x: u64| -> An<Unit<U1, U0>> { unit(f(x as usize)) })) },
        (3, 1, 1) => if frac { Box::new(branchf::<U3, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 3))) })) } else { Box::new(branchi::<U3, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (3, 2, 0) => if frac { Box::new(branchf::<U3, _, _>(|x: f32| -> An<Unit<U2, U0>> { unit(f(frac_index(x, 3))) })) } else { Box::new(branchi::<U3, _, _>(|x: u64| -> An<Unit<U2, U0>> { unit(f(x as usize)) })) },
        (3, 2, 1) => if frac { Box::new(branchf::<U3, _, _>(|x: f32| -> An<Unit<U2, U1>> { unit(f(frac_index(x, 3))) })) } else { Box::new(branchi::<U3, _, _>(|x: u64| -> An<Unit<U2, U1>> { unit(f(x as usize)) })) },
        (3, 3, 0) => if frac { Box::new(branchf::<U3, _, _>(|x: f32| -> An<Unit<U3, U0>> { unit(f(frac_index(x, 3))) })) } else { Box::new(branchi::<U3, _, _>(|x: u64| -> An<Unit<U3, U0>> { unit(f(x as usize)) })) },
        (3, 3, 1) => if frac { Box::new(branchf::<U3, _, _>(|x: f32| -> An<Unit<U3, U1>> { unit(f(frac_index(x, 3))) })) } else { Box::new(branchi::<U3, _, _>(|x: u64| -> An<Unit<U3, U1>> { unit(f(x as usize)) })) },
        (5, 0, 0) => if frac { Box::new(branchf::<U5, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 5))) })) } else { Box::new(branchi::<U5, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (5, 1, 0) => if frac { Box::new(branchf::<U5, _, _>(|x: f32| -> An<Unit<U1, U0>> { unit(f(frac_index(x, 5))) })) } else { Box::new(branchi::<U5, _, _>(|x: u64| -> An<Unit<U1, U0>> { unit(f(x as usize)) })) },
        (5, 2, 0) => if frac { Box::new(branchf::<U5, _, _>(|x: f32| -> An<Unit<U2, U0>> { unit(f(frac_index(x, 5))) })) } else { Box::new(branchi::<U5, _, _>(|x: u64| -> An<Unit<U2, U0>> { unit(f(x as usize)) })) },
        (5, 3, 0) => if frac { Box::new(branchf::<U5, _, _>(|x: f32| -> An<Unit<U3, U0>> { unit(f(frac_index(x, 5))) })) } else { Box::new(branchi::<U5, _, _>(|x: u64| -> An<Unit<U3, U0>> { unit(f(x as usize)) })) },
        _ => return None,
    })
}
pub fn s_busi(n: usize, i: usize, o: usize, frac: bool, f: &dyn Fn(usize) -> B) -> Option<B> {
    Some(match (n, i, o) {
        (1, 0, 0) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (1, 0, 1) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U0, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U0, U1>> { unit(f(x as usize)) })) },
        (1, 0, 2) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U0, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U0, U2>> { unit(f(x as usize)) })) },
        (1, 0, 3) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U0, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U0, U3>> { unit(f(x as usize)) })) },
        (1, 1, 0) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U1, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U1, U0>> { unit(f(x as usize)) })) },
        (1, 1, 1) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (1, 1, 2) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U1, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U1, U2>> { unit(f(x as usize)) })) },
        (1, 1, 3) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U1, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U1, U3>> { unit(f(x as usize)) })) },
        (1, 2, 0) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U2, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U2, U0>> { unit(f(x as usize)) })) },
        (1, 2, 1) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U2, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U2, U1>> { unit(f(x as usize)) })) },
        (1, 2, 2) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U2, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U2, U2>> { unit(f(x as usize)) })) },
        (1, 2, 3) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U2, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U2, U3>> { unit(f(x as usize)) })) },
        (1, 3, 0) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U3, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U3, U0>> { unit(f(x as usize)) })) },
        (1, 3, 1) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U3, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U3, U1>> { unit(f(x as usize)) })) },
        (1, 3, 2) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U3, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U3, U2>> { unit(f(x as usize)) })) },
        (1, 3, 3) => if frac { Box::new(busf::<U1, _, _>(|x: f32| -> An<Unit<U3, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(busi::<U1, _, _>(|x: u64| -> An<Unit<U3, U3>> { unit(f(x as usize)) })) },
        (2, 0, 0) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (2, 0, 1) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U0, U1>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U0, U1>> { unit(f(x as usize)) })) },
        (2, 0, 2) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U0, U2>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U0, U2>> { unit(f(x as usize)) })) },
        (2, 0, 3) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U0, U3>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U0, U3>> { unit(f(x as usize)) })) },
        (2, 1, 0) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U1, U0>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U1, U0>> { unit(f(x as usize)) })) },
        (2, 1, 1) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (2, 1, 2) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U1, U2>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U1, U2>> { unit(f(x as usize)) })) },
        (2, 1, 3) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U1, U3>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U1, U3>> { unit(f(x as usize)) })) },
        (2, 2, 0) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U2, U0>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U2, U0>> { unit(f(x as usize)) })) },
        (2, 2, 1) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U2, U1>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U2, U1>> { unit(f(x as usize)) })) },
        (2, 2, 2) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U2, U2>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U2, U2>> { unit(f(x as usize)) })) },
        (2, 2, 3) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U2, U3>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U2, U3>> { unit(f(x as usize)) })) },
        (2, 3, 0) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U3, U0>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U3, U0>> { unit(f(x as usize)) })) },
        (2, 3, 1) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U3, U1>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U3, U1>> { unit(f(x as usize)) })) },
        (2, 3, 2) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U3, U2>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U3, U2>> { unit(f(x as usize)) })) },
        (2, 3, 3) => if frac { Box::new(busf::<U2, _, _>(|x: f32| -> An<Unit<U3, U3>> { unit(f(frac_index(x, 2))) })) } else { Box::new(busi::<U2, _, _>(|x: u64| -> An<Unit<U3, U3>> { unit(f(x as usize)) })) },
        (3, 0, 0) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (3, 0, 1) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U0, U1>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U0, U1>> { unit(f(x as usize)) })) },
        (3, 0, 2) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U0, U2>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U0, U2>> { unit(f(x as usize)) })) },
        (3, 0, 3) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U0, U3>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U0, U3>> { unit(f(x as usize)) })) },
        (3, 1, 0) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U1, U0>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U1, U0>> { unit(f(x as usize)) })) },
        (3, 1, 1) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (3, 1, 2) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U1, U2>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U1, U2>> { unit(f(x as usize)) })) },
        (3, 1, 3) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U1, U3>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U1, U3>> { unit(f(x as usize)) })) },
        (3, 2, 0) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U2, U0>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U2, U0>> { unit(f(x as usize)) })) },
        (3, 2, 1) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U2, U1>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U2, U1>> { unit(f(x as usize)) })) },
        (3, 2, 2) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U2, U2>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U2, U2>> { unit(f(x as usize)) })) },
        (3, 2, 3) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U2, U3>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U2, U3>> { unit(f(x as usize)) })) },
        (3, 3, 0) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U3, U0>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U3, U0>> { unit(f(x as usize)) })) },
        (3, 3, 1) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U3, U1>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U3, U1>> { unit(f(x as usize)) })) },
        (3, 3, 2) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U3, U2>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U3, U2>> { unit(f(x as usize)) })) },
        (3, 3, 3) => if frac { Box::new(busf::<U3, _, _>(|x: f32| -> An<Unit<U3, U3>> { unit(f(frac_index(x, 3))) })) } else { Box::new(busi::<U3, _, _>(|x: u64| -> An<Unit<U3, U3>> { unit(f(x as usize)) })) },
        (5, 0, 0) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (5, 0, 1) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U0, U1>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U0, U1>> { unit(f(x as usize)) })) },
        (5, 0, 2) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U0, U2>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U0, U2>> { unit(f(x as usize)) })) },
        (5, 0, 3) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U0, U3>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U0, U3>> { unit(f(x as usize)) })) },
        (5, 1, 0) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U1, U0>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U1, U0>> { unit(f(x as usize)) })) },
        (5, 1, 1) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (5, 1, 2) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U1, U2>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U1, U2>> { unit(f(x as usize)) })) },
        (5, 1, 3) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U1, U3>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U1, U3>> { unit(f(x as usize)) })) },
        (5, 2, 0) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U2, U0>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U2, U0>> { unit(f(x as usize)) })) },
        (5, 2, 1) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U2, U1>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U2, U1>> { unit(f(x as usize)) })) },
        (5, 2, 2) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U2, U2>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U2, U2>> { unit(f(x as usize)) })) },
        (5, 2, 3) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U2, U3>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U2, U3>> { unit(f(x as usize)) })) },
        (5, 3, 0) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U3, U0>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U3, U0>> { unit(f(x as usize)) })) },
        (5, 3, 1) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U3, U1>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U3, U1>> { unit(f(x as usize)) })) },
        (5, 3, 2) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U3, U2>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U3, U2>> { unit(f(x as usize)) })) },
        (5, 3, 3) => if frac { Box::new(busf::<U5, _, _>(|x: f32| -> An<Unit<U3, U3>> { unit(f(frac_index(x, 5))) })) } else { Box::new(busi::<U5, _, _>(|x: u64| -> An<Unit<U3, U3>> { unit(f(x as usize)) })) },
        _ => return None,
    })
}
pub fn s_sumi(n: usize, i: usize, o: usize, frac: bool, f: &dyn Fn(usize) -> B) -> Option<B> {
    Some(match (n, i, o) {
        (1, 0, 0) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (1, 0, 1) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U0, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U0, U1>> { unit(f(x as usize)) })) },
        (1, 0, 2) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U0, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U0, U2>> { unit(f(x as usize)) })) },
        (1, 0, 3) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U0, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U0, U3>> { unit(f(x as usize)) })) },
        (1, 1, 0) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U1, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U1, U0>> { unit(f(x as usize)) })) },
        (1, 1, 1) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (1, 1, 2) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U1, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U1, U2>> { unit(f(x as usize)) })) },
        (1, 1, 3) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U1, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U1, U3>> { unit(f(x as usize)) })) },
        (1, 2, 0) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U2, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U2, U0>> { unit(f(x as usize)) })) },
        (1, 2, 1) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U2, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U2, U1>> { unit(f(x as usize)) })) },
        (1, 2, 2) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U2, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U2, U2>> { unit(f(x as usize)) })) },
        (1, 2, 3) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U2, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U2, U3>> { unit(f(x as usize)) })) },
        (1, 3, 0) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U3, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U3, U0>> { unit(f(x as usize)) })) },
        (1, 3, 1) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U3, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U3, U1>> { unit(f(x as usize)) })) },
        (1, 3, 2) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U3, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U3, U2>> { unit(f(x as usize)) })) },
        (1, 3, 3) => if frac { Box::new(sumf::<U1, _, _>(|x: f32| -> An<Unit<U3, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(sumi::<U1, _, _>(|x: u64| -> An<Unit<U3, U3>> { unit(f(x as usize)) })) },
        (2, 0, 0) => if frac { Box::new(sumf::<U2, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 2))) })) } else { Box::new(sumi::<U2, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (2, 0, 1) => if frac { Box::new(sumf::<U2, _, _>(|x: f32| -> An<Unit<U0, U1>> { unit(f(frac_index(x, 2))) })) } else { Box::new(sumi::<U2, _, _>(|x: u64| -> An<Unit<U0, U1>> { unit(f(x as usize)) })) },
        (2, 0, 2) => if frac { Box::new(sumf::<U2, _, _>(|x: f32| -> An<Unit<U0, U2>> { unit(f(frac_index(x, 2))) })) } else { Box::new(sumi::<U2, _, _>(|x: u64| -> An<Unit<U0, U2>> { unit(f(x as usize)) })) },
        (2, 0, 3) => if frac { Box::new(sumf::<U2, _, _>(|x: f32| -> An<Unit<U0, U3>> { unit(f(frac_index(x, 2))) })) } else { Box::new(sumi::<U2, _, _>(|x: u64| -> An<Unit<U0, U3>> { unit(f(x as usize)) })) },
        (2, 1, 0) => if frac { Box::new(sumf::<U2, _, _>(|x: f32| -> An<Unit<U1, U0>> { unit(f(frac_index(x, 2))) })) } else { Box::new(sumi::<U2, _, _>(|x: u64| -> An<Unit<U1, U0>> { unit(f(x as usize)) })) },
        (2, 1, 1) => if frac { Box::new(sumf::<U2, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 2))) })) } else { Box::new(sumi::<U2, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (2, 1, 2) => if frac { Box::new(sumf::<U2, _, _>(|x: f32| -> An<Unit<U1, U2>> { unit(f(frac_index(x, 2))) })) } else { Box::new(sumi::<U2, _, _>(|x: u64| -> An<Unit<U1, U2>> { unit(f(x as usize)) })) },
        (2, 1, 3) => if frac { Box::new(sumf::<U2, _, _>(|x: f32| -> An<Unit<U1, U3>> { unit(f(frac_index(x, 2))) })) } else { Box::new(sumi::<U2, _, _>(|x: u64| -> An<Unit<U1, U3>> { unit(f(x as usize)) })) },
        (3, 0, 0) => if frac { Box::new(sumf::<U3, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 3))) })) } else { Box::new(sumi::<U3, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (3, 0, 1) => if frac { Box::new(sumf::<U3, _, _>(|x: f32| -> An<Unit<U0, U1>> { unit(f(frac_index(x, 3))) })) } else { Box::new(sumi::<U3, _, _>(|x: u64| -> An<Unit<U0, U1>> { unit(f(x as usize)) })) },
        (3, 0, 2) => if frac { Box::new(sumf::<U3, _, _>(|x: f32| -> An<Unit<U0, U2>> { unit(f(frac_index(x, 3))) })) } else { Box::new(sumi::<U3, _, _>(|x: u64| -> An<Unit<U0, U2>> { unit(f(x as usize)) })) },
        (3, 0, 3) => if frac { Box::new(sumf::<U3, _, _>(|x: f32| -> An<Unit<U0, U3>> { unit(f(frac_index(x, 3))) })) } else { Box::new(sumi::<U3, _, _>(|x: u64| -> An<Unit<U0, U3>> { unit(f(x as usize)) })) },
        (3, 1, 0) => if frac { Box::new(sumf::<U3, _, _>(|x: f32| -> An<Unit<U1, U0>> { unit(f(frac_index(x, 3))) })) } else { Box::new(sumi::<U3, _, _>(|x: u64| -> An<Unit<U1, U0>> { unit(f(x as usize)) })) },
        (3, 1, 1) => if frac { Box::new(sumf::<U3, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 3))) })) } else { Box::new(sumi::<U3, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (3, 1, 2) => if frac { Box::new(sumf::<U3, _, _>(|x: f32| -> An<Unit<U1, U2>> { unit(f(frac_index(x, 3))) })) } else { Box::new(sumi::<U3, _, _>(|x: u64| -> An<Unit<U1, U2>> { unit(f(x as usize)) })) },
        (3, 1, 3) => if frac { Box::new(sumf::<U3, _, _>(|x: f32| -> An<Unit<U1, U3>> { unit(f(frac_index(x, 3))) })) } else { Box::new(sumi::<U3, _, _>(|x: u64| -> An<Unit<U1, U3>> { unit(f(x as usize)) })) },
        (5, 0, 0) => if frac { Box::new(sumf::<U5, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 5))) })) } else { Box::new(sumi::<U5, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (5, 0, 1) => if frac { Box::new(sumf::<U5, _, _>(|x: f32| -> An<Unit<U0, U1>> { unit(f(frac_index(x, 5))) })) } else { Box::new(sumi::<U5, _, _>(|x: u64| -> An<Unit<U0, U1>> { unit(f(x as usize)) })) },
        (5, 0, 2) => if frac { Box::new(sumf::<U5, _, _>(|x: f32| -> An<Unit<U0, U2>> { unit(f(frac_index(x, 5))) })) } else { Box::new(sumi::<U5, _, _>(|x: u64| -> An<Unit<U0, U2>> { unit(f(x as usize)) })) },
        (5, 0, 3) => if frac { Box::new(sumf::<U5, _, _>(|x: f32| -> An<Unit<U0, U3>> { unit(f(frac_index(x, 5))) })) } else { Box::new(sumi::<U5, _, _>(|x: u64| -> An<Unit<U0, U3>> { unit(f(x as usize)) })) },
        _ => return None,
    })
}
pub fn s_pipei(n: usize, i: usize, o: usize, frac: bool, f: &dyn Fn(usize) -> B) -> Option<B> {
    Some(match (n, i, o) {
        (1, 0, 0) => if frac { Box::new(pipef::<U1, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 1))) })) } else { Box::new(pipei::<U1, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (1, 1, 1) => if frac { Box::new(pipef::<U1, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 1))) })) } else { Box::new(pipei::<U1, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (1, 2, 2) => if frac { Box::new(pipef::<U1, _, _>(|x: f32| -> An<Unit<U2, U2>> { unit(f(frac_index(x, 1))) })) } else { Box::new(pipei::<U1, _, _>(|x: u64| -> An<Unit<U2, U2>> { unit(f(x as usize)) })) },
        (1, 3, 3) => if frac { Box::new(pipef::<U1, _, _>(|x: f32| -> An<Unit<U3, U3>> { unit(f(frac_index(x, 1))) })) } else { Box::new(pipei::<U1, _, _>(|x: u64| -> An<Unit<U3, U3>> { unit(f(x as usize)) })) },
        (2, 0, 0) => if frac { Box::new(pipef::<U2, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 2))) })) } else { Box::new(pipei::<U2, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (2, 1, 1) => if frac { Box::new(pipef::<U2, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 2))) })) } else { Box::new(pipei::<U2, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (2, 2, 2) => if frac { Box::new(pipef::<U2, _, _>(|x: f32| -> An<Unit<U2, U2>> { unit(f(frac_index(x, 2))) })) } else { Box::new(pipei::<U2, _, _>(|x: u64| -> An<Unit<U2, U2>> { unit(f(x as usize)) })) },
        (2, 3, 3) => if frac { Box::new(pipef::<U2, _, _>(|x: f32| -> An<Unit<U3, U3>> { unit(f(frac_index(x, 2))) })) } else { Box::new(pipei::<U2, _, _>(|x: u64| -> An<Unit<U3, U3>> { unit(f(x as usize)) })) },
        (3, 0, 0) => if frac { Box::new(pipef::<U3, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 3))) })) } else { Box::new(pipei::<U3, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (3, 1, 1) => if frac { Box::new(pipef::<U3, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 3))) })) } else { Box::new(pipei::<U3, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (3, 2, 2) => if frac { Box::new(pipef::<U3, _, _>(|x: f32| -> An<Unit<U2, U2>> { unit(f(frac_index(x, 3))) })) } else { Box::new(pipei::<U3, _, _>(|x: u64| -> An<Unit<U2, U2>> { unit(f(x as usize)) })) },
        (3, 3, 3) => if frac { Box::new(pipef::<U3, _, _>(|x: f32| -> An<Unit<U3, U3>> { unit(f(frac_index(x, 3))) })) } else { Box::new(pipei::<U3, _, _>(|x: u64| -> An<Unit<U3, U3>> { unit(f(x as usize)) })) },
        (5, 0, 0) => if frac { Box::new(pipef::<U5, _, _>(|x: f32| -> An<Unit<U0, U0>> { unit(f(frac_index(x, 5))) })) } else { Box::new(pipei::<U5, _, _>(|x: u64| -> An<Unit<U0, U0>> { unit(f(x as usize)) })) },
        (5, 1, 1) => if frac { Box::new(pipef::<U5, _, _>(|x: f32| -> An<Unit<U1, U1>> { unit(f(frac_index(x, 5))) })) } else { Box::new(pipei::<U5, _, _>(|x: u64| -> An<Unit<U1, U1>> { unit(f(x as usize)) })) },
        (5, 2, 2) => if frac { Box::new(pipef::<U5, _, _>(|x: f32| -> An<Unit<U2, U2>> { unit(f(frac_index(x, 5))) })) } else { Box::new(pipei::<U5, _, _>(|x: u64| -> An<Unit<U2, U2>> { unit(f(x as usize)) })) },
        (5, 3, 3) => if frac { Box::new(pipef::<U5, _, _>(|x: f32| -> An<Unit<U3, U3>> { unit(f(frac_index(x, 5))) })) } else { Box::new(pipei::<U5, _, _>(|x: u64| -> An<Unit<U3, U3>> { unit(f(x as usize)) })) },
        _ => return None,
    })
}
