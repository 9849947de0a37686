//! C18: operators on vectors, against the operator on each pair of elements
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

const OPS: [&str; 11] = ["*", "/", "**", "%", "+", "-", "<<", ">>", "&", "|", "^"];
const SCALARS: [&str; 22] = ["7", "3", "(-12)", "0", "1", "40", "true", "false", "(2 + 3i)", "(-1i)", "'ab'", "''", "[1, 2]", "[2]", "set(1, 2)", "set(2, 3)", "{1: 2}", "nil", "int", "range(5)", "-1", "5"];

enum E { S(String), V(Vec<E>) }
fn element(rng: &mut Rng, easy: bool, depth: u64) -> E {
    if depth > 0 && rng.chance(4) { return vector(rng, easy, depth - 1) }
    E::S(if easy { match rng.below(4) { 0 => lit(rng.int()), 1 => lit(1 + rng.below(9) as i64), 2 => rng.bool().to_string(), _ => lit(rng.range(-9, -1)) } } else { rng.pick(&SCALARS).to_string() })
}
fn vector(rng: &mut Rng, easy: bool, depth: u64) -> E { let n = rng.below(5); E::V((0..n).map(|_| element(rng, easy, depth)).collect()) }
fn text(e: &E) -> String { match e { E::S(s) => s.clone(), E::V(v) => format!("vector([{}])", v.iter().map(text).collect::<Vec<_>>().join(", ")) } }
fn is_str(e: &E) -> bool { matches!(e, E::S(s) if s.starts_with('\'')) }
/// By the definition
fn apply(op: &str, x: &E, y: &E) -> String {
    let string = op == "+" && (is_str(x) || is_str(y)) || op == "%" && is_str(x);
    let of = |parts: Vec<String>| format!("vector([{}])", parts.join(", "));
    match (x, y) {
        _ if string => format!("(fn(x, y) -> x {op} y)({}, {})", text(x), text(y)),
        (E::V(a), E::V(b)) => of(a.iter().zip(b).map(|(a, b)| apply(op, a, b)).collect()),
        (E::V(a), E::S(_)) => of(a.iter().map(|a| apply(op, a, y)).collect()),
        (E::S(_), E::V(b)) => of(b.iter().map(|b| apply(op, x, b)).collect()),
        _ => format!("(fn(x, y) -> x {op} y)({}, {})", text(x), text(y))
    }
}
fn unary(op: &str, x: &E) -> String { match x { E::V(a) => format!("vector([{}])", a.iter().map(|a| unary(op, a)).collect::<Vec<_>>().join(", ")), E::S(s) => format!("(fn(x) -> {op}(x))({s})") } }

pub fn generate(ctx: &Ctx, sink: Sink) {
    let mut rng = Rng::new(ctx.seed);
    for op in OPS {
        for k in 0..if ctx.thorough { 4000 } else { 120 } {
            let easy = k % 3 != 0;
            let scalar = |rng: &mut Rng| E::S(if easy { lit(rng.range(-5, 9)) } else { rng.pick(&SCALARS).to_string() });
            let x = if rng.chance(3) { scalar(&mut rng) } else { vector(&mut rng, easy, 2) };
            let y = if matches!(x, E::V(_)) && rng.chance(3) { scalar(&mut rng) } else { vector(&mut rng, easy, 2) };
            let (a, b, e) = (text(&x), text(&y), apply(op, &x, &y));
            let form = match rng.below(8) { 0 => format!("({op})({a}, {b})"), 1 if op != "-" => format!("({b} . ({a} {op}))"), 2 if op != "-" => format!("({a} . ({op} {b}))"), 3 => format!("(fn(x, y) -> x {op} y)({a}, {b})"), 4 => format!("(fn(x, y) {{ x {op}= y ; return x }})({a}, {b})"), _ => format!("({a} {op} {b})") };
            // Vectors are not changed
            sink(Case { src: format!("let v = {a}, w = {b}\nlet before = repr(v) + repr(w)\nprint('-')\nprint(repr(v {op} w))\nprint(repr(v) + repr(w) == before)"), expect: Expect::As(format!("print('-')\nprint(repr({e}))\nprint(true)")) });
            sink(Case { src: format!("print('-')\nprint(repr({form}))"), expect: Expect::As(format!("print('-')\nprint(repr({e}))")) });
        }
        // The result is a new vector
        sink(Case { src: format!("let v = vector([1, 2]), w = v {op} 1, u = v {op} v\nlet a = repr(w), b = repr(u)\nv[0] = 100\nprint(repr(w) == a, repr(u) == b)\nw[1] = 77 ; u[0] = 78\nprint(v)"), expect: Expect::Out("true true\n(100, 2)\n".into()) });
    }
    for op in ["-", "!", "abs"] { for k in 0..if ctx.thorough { 3000 } else { 100 } {
        let x = vector(&mut rng, k % 3 != 0, 2); let a = text(&x);
        sink(Case { src: format!("let v = {a}\nlet before = repr(v)\nprint('-')\nprint(repr({op}(v)))\nprint(repr(v) == before)"), expect: Expect::As(format!("print('-')\nprint(repr({}))\nprint(true)", unary(op, &x))) });
    } }
}
