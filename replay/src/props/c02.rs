//! C02: complex operators, against Gaussian integers in 128 bits
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

#[derive(Clone, Copy, PartialEq)]
enum V { I(i64), B(bool), C(i64, i64) }
use V::*;

fn parts(v: V) -> (i128, i128) { match v { I(x) => (x as i128, 0), B(b) => (b as i128, 0), C(x, y) => (x as i128, y as i128) } }
fn text(v: V) -> String { match v {
    I(x) => lit(x), B(b) => b.to_string(),
    C(x, y) => { let i = if y == MIN { format!("(-{}i - 1i)", MAX) } else if y < 0 { format!("(-{}i)", -y) } else { format!("{}i", y) }; if x == 0 { i } else { format!("({} + {})", lit(x), i) } }
} }
pub fn show(re: i64, im: i64) -> String {
    if im == 0 { re.to_string() } else if re == 0 { format!("{}i", im) } else { format!("{} {} {}i", re, if im < 0 { "-" } else { "+" }, (im as i128).abs()) }
}
fn floor(x: i128, y: i128) -> i128 { let q = x / y; if x % y != 0 && (x < 0) != (y < 0) { q - 1 } else { q } }

fn oracle(op: &str, l: V, r: V) -> Result<(i64, i64), &'static str> {
    let ((a, b), (c, d)) = (parts(l), parts(r));
    let ok = |x: i128, y: i128| Ok((wrap(x), wrap(y)));
    match op {
        "+" => ok(a + c, b + d), "-" => ok(a - c, b - d),
        "*" => ok(a * c - b * d, a * d + b * c),
        "/" => { let n = c * c + d * d; if n == 0 { Err("Division by zero") } else { ok(floor(a * c + b * d, n), floor(b * c - a * d, n)) } },
        "%" => if d != 0 { Err("TypeError") } else if c == 0 { Err("Modulo by zero") } else { ok(a - floor(a, c) * c, b - floor(b, c) * c) },
        "**" => if d != 0 { Err("TypeError") } else if c < 0 { Err("negative") } else {
            let mul = |(a, b): (i64, i64), (c, d): (i64, i64)| (a.wrapping_mul(c).wrapping_sub(b.wrapping_mul(d)), a.wrapping_mul(d).wrapping_add(b.wrapping_mul(c)));
            let (mut z, mut p, mut e) = ((1i64, 0i64), (a as i64, b as i64), c);
            while e > 0 { if e % 2 == 1 { z = mul(z, p) } p = mul(p, p); e /= 2 }
            ok(z.0 as i128, z.1 as i128)
        },
        _ => unreachable!()
    }
}

fn emit(sink: Sink, l: V, r: V) {
    let (a, b) = (text(l), text(r));
    let mut src = format!("let a = {a}\nlet b = {b}\n");
    let mut out = String::new();
    for op in ["+", "-", "*", "/", "%", "**"] {
        match oracle(op, l, r) {
            Ok((x, y)) => {
                let z = show(x, y);
                src += &format!("print(a {op} b)\nprint({a} {op} {b})\n"); out += &format!("{z}\n{z}\n");
                if op != "-" { src += &format!("print(({op})(a, b))\n"); out += &format!("{z}\n"); }
                if y == 0 { src += &format!("print((a {op} b) is int, (a {op} b) == {x}, typeof(a {op} b) == int, {{a {op} b}} == {{{x}}}, (a {op} b) in {{{x}: 1}})\n", x = lit(x)); out += "true true true true true\n"; }
                else { src += &format!("print((a {op} b) is int, typeof(a {op} b) == complex, real(a {op} b), imag(a {op} b))\n"); out += &format!("false true {x} {y}\n"); }
            }
            Err(e) => sink(Case { src: format!("let a = {a}\nlet b = {b}\nprint('x')\na {op} b\nprint('y')"), expect: Expect::Err("x\n".into(), e.into()) }),
        }
    }
    let (x, y) = parts(l);
    src += &format!("print(-a, a == b, -{a})\n"); let n = show(wrap(-x), wrap(-y)); out += &format!("{n} {} {n}\n", l == r);
    sink(Case { src, expect: Expect::Out(out) });
}

pub fn generate(ctx: &Ctx, sink: Sink) {
    let small: Vec<i64> = vec![-3, -2, -1, 0, 1, 2, 5];
    let mut xs = Vec::new();
    for &x in &small { for &y in &small { if y != 0 { xs.push(C(x, y)) } } }
    let is: Vec<V> = small.iter().map(|&x| I(x)).chain([B(true), B(false)]).collect();
    for &c in &xs { for &i in &is { emit(sink, c, i); if !matches!(i, C(..)) { half(sink, i, c) } } }
    for &c in &xs { for &d in &xs { emit(sink, c, d) } }
    let big: Vec<i64> = vec![0, 1, -1, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 40, MAX, MIN, MAX - 1, -(1 << 33)];
    let mut ys: Vec<V> = Vec::new();
    for &x in &big { for &y in &big { if y != 0 { ys.push(C(x, y)) } } }
    let e: Vec<i64> = ctx.extra.iter().map(|&x| wrap(x as i128)).collect();
    for &x in &e { for &y in &e { if y != 0 { ys.push(C(x, y)) } } }
    let mut rng = Rng::new(ctx.seed);
    for _ in 0..if ctx.thorough { 60_000 } else { 4_000 } {
        let mut pick = |rng: &mut Rng| if rng.chance(3) { *rng.pick(&ys) } else { let (x, y) = (rng.int(), rng.int()); if y == 0 { I(x) } else { C(x, y) } };
        let (l, r) = (pick(&mut rng), pick(&mut rng));
        if matches!(l, C(..)) { emit(sink, l, r) } else if matches!(r, C(..)) { half(sink, l, r) }
        if let C(..) = l { emit(sink, l, I(rng.int())) }
    }
}

/// A real number on the left: no % or **
fn half(sink: Sink, l: V, r: V) {
    let (a, b) = (text(l), text(r));
    let mut src = format!("let a = {a}\nlet b = {b}\n");
    let mut out = String::new();
    for op in ["+", "-", "*", "/"] {
        if let Ok((x, y)) = oracle(op, l, r) { let z = show(x, y); src += &format!("print(a {op} b)\nprint({a} {op} {b})\n"); out += &format!("{z}\n{z}\n"); }
    }
    sink(Case { src, expect: Expect::Out(out) });
}
