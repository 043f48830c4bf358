#!/usr/bin/env python3
"""Writes harness/src/dispatch.rs: the statically typed operators at all small arities."""
import os
M = 3
U = lambda n: f"U{n}"
o = ['''//! Generated by tools/mkdispatch.py: statically typed operators over boxed units,
//! dispatched on their numbers of inputs and outputs.
#![allow(clippy::all)]
use crate::util::*;
use fundsp::audiounit::Unit;
use fundsp::combinator::An;
use fundsp::hacker32::{branch, branchf, branchi, bus, busf, busi, pipe, pipef, pipei, product, stack, stackf, stacki, sum, sumf, sumi, thru, unit};
use fundsp::setting::{listen, SettingSender};
use fundsp::typenum::*;
type B = Box<dyn AudioUnit>;
''']
def fn(name, head, dims, arms):
    o.append(f"pub fn {name}({head}) -> Option<B> {{\n    Some(match {dims} {{")
    o.extend("        " + a for a in arms)
    o.append("        _ => return None,\n    })\n}")
R = range(M + 1)
# binary
def binary(name, op, func, cond):
    arms = []
    for i1 in R:
        for o1 in R:
            for i2 in R:
                for o2 in R:
                    if cond(i1, o1, i2, o2):
                        x, y = f"unit::<{U(i1)}, {U(o1)}>(x)", f"unit::<{U(i2)}, {U(o2)}>(y)"
                        e = f"if alt {{ Box::new({func}({x}, {y})) }} else {{ Box::new({x} {op} {y}) }}" if func else f"Box::new({x} {op} {y})"
                        arms.append(f"({i1}, {o1}, {i2}, {o2}) => {{ {e} }}")
    fn(name, "x: B, y: B, alt: bool", "(x.inputs(), x.outputs(), y.inputs(), y.outputs())", arms)
small = lambda a, b: a + b <= M
binary("s_pipe", ">>", "pipe", lambda i1, o1, i2, o2: o1 == i2)
binary("s_stack", "|", "stack", lambda i1, o1, i2, o2: small(i1, i2) and small(o1, o2))
binary("s_branch", "^", "branch", lambda i1, o1, i2, o2: i1 == i2 and small(o1, o2))
binary("s_bus", "&", "bus", lambda i1, o1, i2, o2: i1 == i2 and o1 == o2)
binary("s_sum", "+", "sum", lambda i1, o1, i2, o2: o1 == o2 and small(i1, i2))
binary("s_sub", "-", None, lambda i1, o1, i2, o2: o1 == o2 and small(i1, i2))
binary("s_mul", "*", "product", lambda i1, o1, i2, o2: o1 == o2 and small(i1, i2))
# unary
def unary(name, head, expr):
    fn(name, head, "(x.inputs(), x.outputs())", [f"({i}, {k}) => Box::new({expr.format(u=f'unit::<{U(i)}, {U(k)}>(x)')})," for i in R for k in R])
unary("s_thru", "x: B, alt: bool", "if alt {{ thru({u}) }} else {{ !{u} }}")
unary("s_neg", "x: B", "-{u}")
unary("s_addc", "x: B, c: f32", "{u} + c")
unary("s_cadd", "x: B, c: f32", "c + {u}")
unary("s_subc", "x: B, c: f32", "{u} - c")
unary("s_csub", "x: B, c: f32", "c - {u}")
unary("s_mulc", "x: B, c: f32", "{u} * c")
unary("s_cmul", "x: B, c: f32", "c * {u}")
o.append("pub fn s_listen(x: B) -> Option<(SettingSender, B)> {\n    Some(match (x.inputs(), x.outputs()) {")
for i in R:
    for k in R:
        o.append(f"        ({i}, {k}) => {{ let (s, n) = listen(unit::<{U(i)}, {U(k)}>(x)); (s, Box::new(n)) }}")
o.append("        _ => return None,\n    })\n}")
# multi
def multi(name, fi, ff, cond):
    arms = []
    for n in (1, 2, 3, 5):
        for i in R:
            for k in R:
                if cond(n, i, k):
                    t = f"An<Unit<{U(i)}, {U(k)}>>"
                    arms.append(f"({n}, {i}, {k}) => if frac {{ Box::new({ff}::<{U(n)}, _, _>(|x: f32| -> {t} {{ unit(f(frac_index(x, {n}))) }})) }} else {{ Box::new({fi}::<{U(n)}, _, _>(|x: u64| -> {t} {{ unit(f(x as usize)) }})) }},")
    fn(name, "n: usize, i: usize, o: usize, frac: bool, f: &dyn Fn(usize) -> B", "(n, i, o)", arms)
o.append('''/// Fractions are evenly spaced in 0..1; the middle for a single node.
fn frac_index(x: f32, n: usize) -> usize {
    if n == 1 {
        assert!(x == 0.5, "fraction {x} for a single node");
        return 0;
    }
    let i = (x * (n - 1) as f32).round();
    assert!((x - i / (n - 1) as f32).abs() < 1.0e-6 && i >= 0.0 && (i as usize) < n, "fraction {x} for {n} nodes");
    i as usize
}''')
multi("s_stacki", "stacki", "stackf", lambda n, i, k: n * i <= M and n * k <= M)
multi("s_branchi", "branchi", "branchf", lambda n, i, k: n * k <= M)
multi("s_busi", "busi", "busf", lambda n, i, k: True)
multi("s_sumi", "sumi", "sumf", lambda n, i, k: n * i <= M)
multi("s_pipei", "pipei", "pipef", lambda n, i, k: i == k)
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "dispatch.rs")
open(p, "w").write("\n".join(o) + "\n")
