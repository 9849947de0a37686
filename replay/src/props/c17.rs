//! C17: type tests, for a value of every type
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

const TYPES: [&str; 15] = ["bool", "int", "complex", "rational", "str", "list", "set", "dict", "heap", "vector", "function", "iterable", "range", "enumerate", "any"];
/// Source of a value, the name of its type, and the type names it belongs to (apart from `any`)
fn values() -> Vec<(&'static str, &'static str, &'static [&'static str])> {
    let mut v: Vec<(&str, &str, &[&str])> = Vec::new();
    for x in ["nil", "(fn() -> nil)()", "print('') "] { v.push((x, "nil", &[])); }
    for x in ["true", "false", "(1 < 2)", "bool('x')"] { v.push((x, "bool", &["bool", "int", "complex", "rational"])); }
    for x in ["0", "1", "(-7)", "4611686018427387903", "(true + true)", "(1i * 1i)", "len('')", "min(int)"] { v.push((x, "int", &["int", "complex", "rational"])); }
    for x in ["1i", "(3 - 4i)", "(1i * (2 + 1i))"] { v.push((x, "complex", &["complex"])); }
    for x in ["''", "'a'", "'abcdefg'", "'abcdefgh'", "'äöü'", "'日本語日本語'", "char(0x10ffff)", "('abcdefghij')[:3]", "str(12345678901234)"] { v.push((x, "str", &["str", "iterable"])); }
    for x in ["[]", "[1]", "list('abc')", "[[]]"] { v.push((x, "list", &["list", "iterable"])); }
    for x in ["set()", "{1, 2}", "set('x')"] { v.push((x, "set", &["set", "iterable"])); }
    for x in ["dict()", "{1: 2}"] { v.push((x, "dict", &["dict", "iterable"])); }
    for x in ["heap()", "heap([1, 2])"] { v.push((x, "heap", &["heap", "iterable"])); }
    for x in ["vector()", "(1, 2)", "vector('abc')", "((1, 2) + 1)"] { v.push((x, "vector", &["vector", "iterable"])); }
    for x in ["range(3)", "range(0)", "range(3, 0, -1)"] { v.push((x, "range", &["range", "iterable"])); }
    for x in ["enumerate([])", "enumerate('abc')"] { v.push((x, "enumerate", &["enumerate", "iterable"])); }
    for x in ["print", "(+)", "(+ 1)", "(1 <)", "reduce", "reduce(+)", "(fn() -> 1)", "(fn(x, y) -> x)", "(fn(x, y) -> x)(1)", "closure()", "memoize(fn(x) -> x)", "(->a)", "[1:]", "[::-1]", "P", "M", "P->foo", "M->bar", "P(1, 2)->foo", "named", "int", "map(+ 1)", "any"] { v.push((x, "function", &["function"])); }
    for x in ["P(1, 2)", "P(nil, [])"] { v.push((x, "P", &["P"])); }
    v.push(("Q()", "Q", &["Q"]));
    v
}
const PRELUDE: &str = "struct P(a, b) { fn foo(self) -> 1 }\nstruct Q()\nmodule M { fn bar() -> 2 }\nfn named(x) -> x\nfn closure() { let i = 0\nfn f() { i += 1; i }\nf }\n";

pub fn generate(ctx: &Ctx, sink: Sink) {
    let vs = values();
    for (k, (x, t, of)) in vs.iter().enumerate() {
        let mut src = format!("{PRELUDE}let x = {x}\n"); let mut out = String::new();
        if *x == "print('') " { out += "\n"; }
        for n in TYPES.iter().chain(["nil", "P", "Q"].iter()) {
            let b = *n == "any" || *n == *t && *n == "nil" || of.contains(n);
            src += &format!("print(x is {n}, x is not {n}, (is {n})(x), (x is)({n}), (is)(x, {n}), not (x is {n}), (is not {n})(x), if x is {n} then 'y' else 'n')\n");
            out += &format!("{b} {} {b} {b} {b} {} {} {}\n", !b, !b, !b, if b { 'y' } else { 'n' });
        }
        // typeof
        let name = match *t { "P" => "struct P(a, b)", "Q" => "struct Q()", u => u };
        src += "print(typeof(x), x is typeof(x), typeof x, x is not typeof(x), [x, 1] . map(fn(y) -> y is typeof y) . reduce(&))\n";
        out += &format!("{name} true {name} false true\n");
        // Distinguishes types
        for (y, u, _) in vs.iter().skip(k % 5).step_by(5) { if *y != "print('') " { src += &format!("print(typeof(x) == typeof({y}), typeof(x) != typeof({y}))\n"); out += &format!("{} {}\n", t == u, t != u); } }
        sink(Case { src, expect: Expect::Out(out) });
        // A value as the type. Only nil, structs and the types themselves are
        if *t != "nil" && !["P", "M", "int", "any"].contains(x) { for op in ["is", "is not"] {
            sink(Case { src: format!("{PRELUDE}let x = {x}\nprint('a')\n1 {op} x\nprint('b')"), expect: Expect::Err("a\n".into(), "TypeError".into()) });
            sink(Case { src: format!("{PRELUDE}let x = {x}\nprint('a')\nx {op} x\nprint('b')"), expect: Expect::Err("a\n".into(), "TypeError".into()) });
        } }
        // Constants, which are folded
        if k < 20 { for n in TYPES { let b = n == "any" || of.contains(&n); if *x != "print('') " { sink(Case { src: format!("{PRELUDE}print({x} is {n}, {x} is not {n}, {x} . (is {n}))\n"), expect: Expect::Out(format!("{b} {} {b}\n", !b)) }); } } }
    }
    // Mixed: tests of random values, through a function
    let mut rng = Rng::new(ctx.seed);
    for _ in 0..if ctx.thorough { 2000 } else { 150 } {
        let mut src = format!("{PRELUDE}fn test(x, t) -> x is t\nlet xs = []\n"); let mut out = String::new();
        for _ in 0..12 {
            let (x, _, of) = *rng.pick(&vs); let n = *rng.pick(&["bool", "int", "complex", "str", "list", "set", "dict", "heap", "vector", "function", "iterable", "range", "enumerate", "any", "P", "Q"]);
            if x == "print('') " { continue }
            let b = n == "any" || of.contains(&n);
            src += &format!("print(test({x}, {n}))\n"); out += &format!("{b}\n");
        }
        sink(Case { src, expect: Expect::Out(out) });
    }
}
