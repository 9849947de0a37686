//! C09: the same program with and without optimization: compositions, calls of operators and partial functions, slices, constants of every kind, conditions, and assignments,
//! where the operands print, change what others read, fail, or leave the program
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

/// A program per line, `;;` is a newline
const KNOWN: &str = include_str!("c09.txt");

#[derive(Clone, Copy, PartialEq)]
enum Ty { Int, Str, Complex, Bool }
const TYPES: &[Ty] = &[Ty::Int, Ty::Str, Ty::Complex, Ty::Bool];
/// Text, and whether it is made of constants only (which does never fail, as such is reported when compiling)
type E = (String, bool);

/// (ints are small where they may meet strings)
fn literal(r: &mut Rng, t: Ty, c: bool) -> String {
    match t {
        Ty::Int => match r.below(4) { 0 if c => lit(r.int()), 1 => r.below(3).to_string(), _ => r.below(60).to_string() },
        Ty::Str => r.pick(&["''", "'a'", "'abc'", "'abcdefghi'", "'a longer string with é'"]).to_string(),
        Ty::Complex => r.pick(&["1i", "2i", "3i", "7i", "0i", "12i"]).to_string(),
        Ty::Bool => r.pick(&["true", "false"]).to_string(),
    }
}
/// What prints, what another changes, and what is read
fn leaf(r: &mut Rng, t: Ty, c: bool) -> E {
    if c || r.chance(3) { return (literal(r, t, c), true) }
    match (t, r.below(6)) {
        (Ty::Int, 0) => ("m".into(), false), (Ty::Int, 1) => ("q()".into(), false), (Ty::Int, 2) => ("n".into(), false),
        (Ty::Str, 0) => ("s".into(), false), (Ty::Str, 1) => ("(s + 'x')".into(), false),
        (_, 3) if r.chance(3) => (format!("(m . (fn(x) -> {}))", literal(r, t, c)), false),
        _ => (format!("p({})", literal(r, t, c)), false),
    }
}
/// a op b, in one of the forms which are optimized
fn apply(r: &mut Rng, a: &str, op: &str, b: &str) -> String {
    let word = op.chars().next().unwrap().is_alphabetic();
    match r.below(if word { 2 } else if op == "-" { 4 } else { 12 }) {
        0 | 1 => format!("({a} {op} {b})"), 2 => format!("({op})({a}, {b})"), 3 if op == "-" => format!("({op})()({a}, {b})"), 3 => format!("({op})({a})({b})"), 4 => format!("({op} {b})({a})"), 5 => format!("({a} {op})({b})"),
        6 => format!("({a} . ({op} {b}))"), 7 => format!("({b} . ({a} {op}))"), 8 => format!("({op})()({a}, {b})"), 9 => format!("({b} . (({op})({a})))"), 10 => format!("({op})({a})()({b})"),
        _ => format!("({b} . ({op})({a}))"),
    }
}
fn expr(r: &mut Rng, t: Ty, depth: u64, c: bool) -> E {
    if depth == 0 { return leaf(r, t, c) }
    let d = depth - 1;
    if r.chance(10) { let k = *r.pick(TYPES); let (x, xc) = expr(r, k, d, c); let (a, ac) = expr(r, t, d, c); let (b, bc) = expr(r, t, d, c); return (format!("(if {x} then {a} else {b})"), xc && ac && bc) }
    if r.chance(12) { let (a, ac) = expr(r, t, d, c); let (b, bc) = expr(r, t, d, c); return (format!("({a} {} {b})", r.pick(&["and", "or"])), ac && bc) }
    // anything which is not constant may fail
    if !c && r.chance(25) { let (u, v) = (*r.pick(TYPES), *r.pick(TYPES)); let a = expr(r, u, d, false).0; let op = *r.pick(&["+", "-", "/", "%", "<", ">=", ">>", "&", "|", "^", "=="]); let b = format!("p({})", literal(r, v, false)); let (a, b) = if r.bool() { (a, b) } else { (b, a) };
        return (apply(r, &a, op, &b), false) }
    if !c && r.chance(6) { return (other(r, t, d), false) }
    match t {
        Ty::Int => match r.below(6) {
            0 => { let (a, ac) = expr(r, t, d, c); (format!("({}{a})", r.pick(&["-", "!"])), ac) }
            1 => { let (a, ac) = expr(r, t, d, c); let op = *r.pick(&["/", "%"]); let b = 1 + r.below(9); (apply(r, &a, op, &b.to_string()), ac) }
            2 => { let (a, ac) = expr(r, t, d, c); let op = if c { *r.pick(&["<<", ">>"]) } else { ">>" }; let b = r.below(70); (apply(r, &a, op, &b.to_string()), ac) }
            3 if r.chance(4) => (r.pick(&["min(int)", "max(int)", "(int . min)", "(int . max)"]).to_string(), true),
            _ => { let (a, ac) = expr(r, t, d, c); let (b, bc) = expr(r, t, d, c); let op = *r.pick(if c { &["+", "-", "*", "&", "|", "^"] } else { &["+", "-", "-", "&", "|", "^"] }); (apply(r, &a, op, &b), ac && bc) }
        },
        Ty::Str => match r.below(4) {
            0 => { let (a, ac) = expr(r, t, d, c); let b = r.below(3).to_string(); (if r.bool() { apply(r, &a, "*", &b) } else { apply(r, &b, "*", &a) }, ac) }
            1 => { let k = *r.pick(TYPES); let (a, ac) = expr(r, t, d, c); let (b, bc) = expr(r, k, d, c); (if r.bool() { apply(r, &a, "+", &b) } else { apply(r, &b, "+", &a) }, ac && bc) }
            _ => { let (a, ac) = expr(r, t, d, c); let (b, bc) = expr(r, t, d, c); (apply(r, &a, "+", &b), ac && bc) }
        },
        Ty::Complex => {
            let u = if r.chance(3) { Ty::Int } else { Ty::Complex };
            let (a, ac) = expr(r, t, d, c); let (b, bc) = expr(r, u, d, c); let op = *r.pick(if c { &["+", "-", "*"] } else { &["+", "-", "-"] });
            if r.chance(3) { let x = *r.pick(&["2i", "3i", "1i", "7"]); return (apply(r, &a, "/", x), ac) }
            (if r.bool() { apply(r, &a, op, &b) } else { apply(r, &b, op, &a) }, ac && bc)
        }
        Ty::Bool => {
            let k = *r.pick(&[Ty::Int, Ty::Str, Ty::Bool]);
            let (a, ac) = expr(r, k, d, c); let (b, bc) = expr(r, k, d, c); let op = *r.pick(&["<", "<=", ">", ">=", "==", "!="]);
            match r.below(6) {
                0 => (format!("(not {a})"), ac), 1 => { let (a, ac) = expr(r, Ty::Str, d, c); let (b, bc) = expr(r, Ty::Str, d, c); let op = *r.pick(&["in", "not in"]); (apply(r, &a, op, &b), ac && bc) }
                2 => (format!("({a} < {b} {} {})", r.pick(&["<", "==", ">="]), b), ac && bc), _ => (apply(r, &a, op, &b), ac && bc) }
        }
    }
}
/// What calls, indexes and slices
fn other(r: &mut Rng, t: Ty, d: u64) -> String {
    let a = expr(r, t, d, false).0; let i = |r: &mut Rng| r.pick(&["0", "1", "-1", "p(0)", "p(1)", "n", "nil", "q()", "p('x')", "(n - 1)"]).to_string();
    let f = match r.below(14) {
        0 => "f".to_string(), 1 => format!("g({})", expr(r, t, d, false).0), 2 => "(fn(x) -> x)".into(), 3 => "(if p(n) then f else g)".into(), 4 => "late".into(), 5 => "h".into(), 6 => "repr".into(), 7 => "p".into(), 8 => format!("({})", expr(r, t, 0, false).0),
        9 => "[f][0]".into(), 10 => "(g)(m)".into(), 11 => "exit".into(), 12 => "(-p(1))".into(), _ => "(f . (fn(x) -> x))".into()
    };
    match r.below(9) {
        0 | 1 => format!("({a} . {f})"), 2 => format!("{f}({a})"),
        3 => { let x = i(r); format!("([{a}, 'b', {a}] . [{x}])") } 4 => { let x = i(r); format!("({{1: {a}, nil: 3, 'x': 4}} . [{x}])") }
        5 => { let (x, y) = (i(r), i(r)); format!("('a string' . [{x}:{y}])") } 6 => { let (x, y, z) = (i(r), i(r), i(r)); format!("([{a}, 1, 2, 3] . [{x}:{y}:{z}])") }
        7 => { let x = i(r); format!("({a} . [{x}])") } _ => { let (x, y) = (i(r), i(r)); format!("({a} . [{x}:{y}])") }
    }
}
const HEAD: &str = "let m = 5; let n = 2; let s = 'str'\nfn p(x) { print('p', x); return x }\nfn q() { m += 1; s += 'q'; return m }\nfn f(x) { print('f', x); return x }\nfn g(x) { print('g', x); return fn(y) { print('gg', x, y); m += 2; return y } }\nfn h(x) { h = p; return x }\n";

pub fn generate(ctx: &Ctx, sink: Sink) {
    for l in KNOWN.lines() { if !l.is_empty() { sink(Case { src: l.replace(";;", "\n"), expect: Expect::Same }); } }
    let mut rng = Rng::new(ctx.seed); let r = &mut rng; let scale = if ctx.thorough { 10 } else { 1 };
    // constants only: whatever is folded
    for _ in 0..2500 * scale {
        let mut src = String::new();
        for _ in 0..6 { let t = *r.pick(TYPES); let d = 1 + r.below(4); src += &format!("print({})\n", expr(r, t, d, true).0); }
        sink(Case { src, expect: Expect::Same });
    }
    // constants which fail are reported, with the same message
    for op in ["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "!="] { for a in ["nil", "true", "3", "0", "'x'", "'a long string'", "2i", "0i"] { for b in ["nil", "true", "2", "0", "'x'", "'%s of %s'", "3i", "0i"] {
        let x = apply(r, a, op, b); sink(Case { src: format!("print('x')\nprint({x})\n"), expect: Expect::Same });
        if op != "-" { sink(Case { src: format!("print(({op} {b})({a}))\n"), expect: Expect::Same }); }
        sink(Case { src: format!("print({a} {op} {b})\n"), expect: Expect::Same });
        sink(Case { src: format!("let x = {a}\nprint(x . (({op})({b})))\nprint({b} . (x {op}))\n"), expect: Expect::Same });
    } } }
    for op in ["-", "!", "not "] { for a in ["nil", "true", "3", "0", "'x'", "2i", "0i", "[1]", "4611686018427387903"] { sink(Case { src: format!("print({op}{a})\nprint({op}({op}{a}))"), expect: Expect::Same }); } }
    // operands which print, change what others read, and may fail
    for k in 0..14000 * scale {
        let t = *r.pick(TYPES); let d = 1 + r.below(4); let (x, _) = expr(r, t, d, false); let (y, _) = expr(r, t, d, false);
        let src = match k % 5 {
            0 => format!("{HEAD}print({x})\nprint(m, s, {y})\nlet late = 4\n"),
            1 => format!("{HEAD}fn run(z) {{ let m = 3; let f = fn(x) {{ m += 1; return x }}; print({x}); return {y} }}\nprint(run(1), m)\nlet late = p\n"),
            2 => format!("{HEAD}fn run(n) {{ let m = 3; let s = 'z'; fn inner() {{ m *= 2; print(m, {x}); s = {y}; return s }}; return inner }}\nprint(run(1)(), m)\nlet late = p\n"),
            3 => format!("{HEAD}let a = {x}\n{y}\na = {y}\nprint(a, m, s)\nlet late = p\n"),
            _ => format!("{HEAD}let a, b = [{x}, {y}]\nif {x} {{ a = b = {y} }} else {{ a, b = [{y}, a] }}\nprint(a, b, m, s)\nlet late = p\n"),
        };
        sink(Case { src, expect: Expect::Same });
    }
    // assignments: what is stored and loaded again
    for _ in 0..5000 * scale {
        let global = r.bool(); let names = ["a", "b", "c", "d"]; let mut body = String::new(); let mut depth = 0;
        for _ in 0..3 + r.below(14) {
            let (x, y) = (*r.pick(&names), *r.pick(&names)); let z = *r.pick(&names); let k = r.below(50);
            body += &match r.below(22) {
                0 => format!("{x} = {k}; {x}\n"), 1 => format!("{x} = {y}; print({x})\n"), 2 => format!("{x} = {y}; print({y})\n"), 3 => format!("{x} = {y} = {k}; print({x}, {y})\n"), 4 => format!("{x} = {y}; {z} = {x}; print({z})\n"),
                5 => format!("{x}; {y}; {z}\n"), 6 => format!("print({x} = {k}, {y} = {x}, {z})\n"), 7 => format!("{x} += {k}; print({x})\n"), 8 => format!("{x} = {y} + ({y} = {k}); print({x} + {y})\n"), 9 => format!("{x}, {y} = [{y}, {x}]; print({x}, {y})\n"),
                10 if depth < 2 => { depth += 1; format!("if {x} > {k} {{ let u = {y}; let v = {z}; u = v; print(u, v)\n") } 11 if depth < 2 => { depth += 1; format!("for i in range({}) {{ let u = i; let w = u; {x} = w; {x} + u; if u > {k} {{ break }}\n", k % 4) }
                12 => format!("fn k{k}() {{ {x} = {y}; {x}; {z} = {x}; {z} }}; print(k{k}())\n"), 13 => format!("(fn() {{ {x} = {k}; {x} }})(); print({x})\n"), 14 => format!("let l{k} = [{x}, {y}]; l{k}[0] = {z}; {x} = l{k}[0]; print(l{k})\n"),
                15 => format!("{x} = {k}; {x} = {x}; {x} = {y}\n"), 16 => format!("{x} . print; {y} . (+ {x}) . print\n"), 17 => format!("while {x} < {} {{ {x} += 7; {y} = {x}; {y} }}\nprint({x}, {y})\n", k), 18 => format!("{x} = {y}; ({x}) + {x}; print({x})\n"),
                19 if depth > 0 => { depth -= 1; "}\n".into() }
                20 => format!("{x} = if {y} > {k} then {z} else {y} = {k}; print({x})\n"), _ => format!("print({x} and {y} = {k}, {z} or {x} = {k})\n"),
            };
        }
        body += &"}\n".repeat(depth); let decl = "let a = 1; let b = 2; let c = 3; let d = 4\n";
        let src = if global { format!("{decl}{body}print(a, b, c, d)\n") } else if r.bool() { format!("fn main() {{ {decl}{body}print(a, b, c, d)\n }}\nmain()\n") } else { format!("fn main() {{ {decl}fn again() {{ {body}print(a, b, c, d) }}\nagain(); again(); print(a, b, c, d)\n }}\nmain()\n") };
        sink(Case { src, expect: Expect::Same });
    }
}
