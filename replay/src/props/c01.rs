//! C01: integer operators, against arithmetic in 128 bits
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

#[derive(Clone, Copy)]
struct V { x: i64, b: bool }

fn text(v: V) -> String { if v.b { (v.x == 1).to_string() } else { lit(v.x) } }
fn show(x: i64) -> String { x.to_string() }

/// The expected printed result, or the error
fn oracle(op: &str, l: V, r: V) -> Result<String, &'static str> {
    let (x, y) = (l.x as i128, r.x as i128);
    let int = |z: i128| Ok(show(wrap(z)));
    let floor = |x: i128, y: i128| { let q = x / y; if x % y != 0 && (x < 0) != (y < 0) { q - 1 } else { q } };
    let shift = |x: i128, n: i128| if n >= 63 { 0 } else if n >= 0 { x << n } else if n <= -64 { if x < 0 { -1 } else { 0 } } else { x >> -n };
    let bit = |z: i128| if l.b && r.b { Ok((z == 1).to_string()) } else { int(z) };
    let cmp = x.cmp(&y).then(r.b.cmp(&l.b));
    use std::cmp::Ordering::*;
    match op {
        "+" => int(x + y), "-" => int(x - y), "*" => int(x * y),
        "/" => if y == 0 { Err("division by zero") } else { int(floor(x, y)) },
        "%" => if y == 0 { Err("division by zero") } else { int(x - floor(x, y) * y) },
        "**" => if y < 0 { Err("negative") } else {
            let (mut z, mut b, mut e) = (1i64, l.x, r.x);
            while e > 0 { if e % 2 == 1 { z = z.wrapping_mul(b) } b = b.wrapping_mul(b); e /= 2 }
            int(z as i128)
        },
        "<<" => int(shift(x, y)), ">>" => int(shift(x, -y)),
        "&" => bit(x & y), "|" => bit(x | y), "^" => bit(x ^ y),
        "<" => Ok((cmp == Less).to_string()), ">" => Ok((cmp == Greater).to_string()),
        "<=" => Ok((cmp != Greater).to_string()), ">=" => Ok((cmp != Less).to_string()),
        "==" => Ok((cmp == Equal).to_string()), "!=" => Ok((cmp != Equal).to_string()),
        _ => unreachable!()
    }
}

pub const OPS: [&str; 17] = ["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!="];

fn emit(sink: Sink, l: V, r: V) {
    let (a, b) = (text(l), text(r));
    let mut src = format!("let a = {}\nlet b = {}\n", a, b);
    let mut out = String::new();
    for op in OPS {
        match oracle(op, l, r) {
            Ok(z) => {
                src += &format!("print({a} {op} {b})\nprint(a {op} b)\n");
                out += &format!("{z}\n{z}\n");
                if op != "-" { src += &format!("print(({op})(a, b))\n"); out += &format!("{z}\n"); }
                if !matches!(op, "<" | ">" | "<=" | ">=" | "==" | "!=") { src += &format!("if true {{\nlet c = a\nc {op}= b\nprint(c)\n}}\n"); out += &format!("{z}\n"); }
            },
            Err(_) => {
                let e = match op { "/" => "Division by zero", "%" => "Modulo by zero", _ => "negative" };
                sink(Case { src: format!("let a = {a}\nlet b = {b}\nprint('x')\na {op} b\nprint('y')"), expect: Expect::Err("x\n".into(), e.into()) });
                sink(Case { src: format!("print('x')\nprint({a} {op} {b})\nprint('y')"), expect: Expect::Err("x\n".into(), e.into()) });
            }
        }
    }
    sink(Case { src, expect: Expect::Out(out) });
}

fn unary(sink: Sink, l: V) {
    let a = text(l);
    let not = if l.b { (l.x != 1).to_string() } else { show(!l.x) };
    let neg = show(wrap(-(l.x as i128)));
    sink(Case { src: format!("let a = {a}\nprint(-a)\nprint(-{a})\nprint(!a)\nprint(!{a})\nprint((-)(a))\nprint((!)(a))"), expect: Expect::Out(format!("{neg}\n{neg}\n{not}\n{not}\n{neg}\n{not}\n")) });
}

pub fn generate(ctx: &Ctx, sink: Sink) {
    let mut xs: Vec<V> = ctx.extra.iter().map(|&x| V { x: wrap(x as i128), b: false }).collect();
    xs.extend(edges().into_iter().map(|x| V { x, b: false }));
    xs.extend((-12..=12).map(|x| V { x, b: false }));
    xs.push(V { x: 0, b: true }); xs.push(V { x: 1, b: true });
    for &l in &xs { unary(sink, l); }
    for &l in &xs { for &r in &xs { emit(sink, l, r) } }
    let mut rng = Rng::new(ctx.seed);
    for _ in 0..if ctx.thorough { 100_000 } else { 3_000 } {
        let (x, y) = (rng.int(), rng.int());
        emit(sink, V { x, b: false }, V { x: y, b: false });
        unary(sink, V { x, b: false });
    }
}
