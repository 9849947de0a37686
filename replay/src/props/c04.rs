//! C04: values keep their type and content
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;
use super::c03::quote;

/// Ways through which a value passes unchanged
const WAYS: [&str; 9] = ["x", "[x][0]", "(1, x)[1]", "{0: x}[0]", "(fn(y) -> y)(x)", "(fn() -> x)()", "(list({x}))[0]", "([x] . map(fn(y) -> y) . pop)", "copy(x)"];

fn string(sink: Sink, s: &str) {
    let q = quote(s);
    let cs: Vec<char> = s.chars().collect();
    let mut src = format!("let x = {q}\nlet o = {q}\n"); let mut out = String::new();
    for w in WAYS {
        src += &format!("if true {{\nlet y = {w}\nprint(y)\nprint(len(y), typeof(y) == str, y is str, y is int, y is function, y is list, bool(y), y == x, x == y, y == o, y == nil, y == '{}')\n}}\n", "ÿzzzzz");
        out += &format!("{s}\n{} true true false false false {} true true true false false\n", cs.len(), !cs.is_empty());
    }
    // The same content, however it was put together
    src += "let l = []\nfor c in x {\nl . push(c)\nif typeof(c) != str or len(c) != 1 {\nprint('bad', c)\n}\n}\n";
    src += "print(l == list(x), len(l), l . join('') == x, x[::-1][::-1] == x, x + '' == x, '' + x == x, (x + x)[:len(x)] == x, (x + 'abcdefgh')[:len(x)] == x, ('abcdefgh' + x)[8:] == x, {x, (x + 'q')[:len(x)]} . len, str(x) == x, l == [c for c in x])\n";
    out += &format!("true {} true true true true true true true 1 true true\n", cs.len());
    let src = src.replace(", l == [c for c in x]", ""); let out = out.replace("true 1 true true\n", "true 1 true\n");
    let mut src = src; let mut out = out;
    for k in 0..=cs.len() {
        let (a, b): (String, String) = (cs[..k].iter().collect(), cs[k..].iter().collect());
        src += &format!("print({} + {} == x, x[:{k}] == {}, x[{k}:] == {}, (x[:{k}] + x[{k}:]) == o, x[:{k}] < x, [x[:{k}], x[{k}:]])\n", quote(&a), quote(&b), quote(&a), quote(&b));
        let r = |s: &str| format!("'{}'", s.escape_debug_like());
        out += &format!("true true true true {} [{}, {}]\n", k < cs.len(), r(&a), r(&b));
    }
    for (i, c) in cs.iter().enumerate() { src += &format!("print(x[{i}] == {0}, x[{1}] == {0}, ord(x[{i}]))\n", quote(&c.to_string()), i as i64 - cs.len() as i64); out += &format!("true true {}\n", *c as u32); }
    sink(Case { src, expect: Expect::Out(out) });
}
trait Esc { fn escape_debug_like(&self) -> String; }
impl Esc for str { fn escape_debug_like(&self) -> String { let s = format!("{:?}", self); s[1..s.len() - 1].to_string() } }

fn value(sink: Sink, text: &str, ty: &str, show: &str, truth: bool) {
    let mut src = format!("struct Q(p, q)\nlet x = {text}\nlet o = {text}\n"); let mut out = String::new();
    for w in WAYS {
        if ty == "dict" && w.starts_with("([x]") { continue }
        src += &format!("if true {{\nlet y = {w}\nprint(y)\nprint(bool(y), y == o, o == y, y == x, y is {ty}, y is any)\n"); out += &format!("{show}\n{truth} true true true true true\n");
        for t in ["int", "str", "list", "set", "dict", "vector", "complex", "bool"] {
            let is = t == ty || ty == "bool" && (t == "int" || t == "complex") || ty == "int" && t == "complex";
            src += &format!("print(y is {t}, typeof(y) == {t})\n"); out += &format!("{} {}\n", is, t == ty);
        }
        src += "print(y is nil, y == nil)\n}\n".replace("y is nil, ", "").as_str(); out += &format!("{}\n", show == "nil");
    }
    sink(Case { src, expect: Expect::Out(out) });
}

const NATIVES: [&str; 84] = ["read_line", "print", "read_text", "write_text", "env", "argv", "bool", "int", "rational", "str", "list", "set", "dict", "heap", "vector", "repr", "eval", "typeof", "monitor", "to_lower", "to_upper", "replace", "search", "trim", "split", "join", "char", "ord", "hex", "bin", "len", "range", "enumerate", "sum", "min", "max", "min_by", "max_by", "map", "filter", "flat_map", "concat", "zip", "reduce", "sort", "sort_by", "group_by", "reverse", "permutations", "combinations", "any", "all", "memoize", "union", "intersect", "difference", "counter", "copy", "peek", "pop", "pop_front", "push", "push_front", "insert", "remove", "clear", "find", "rfind", "index_of", "rindex_of", "default", "keys", "values", "abs", "sqrt", "gcd", "lcm", "count_ones", "count_zeros", "real", "imag", "numer", "denom", "read"];

pub fn generate(ctx: &Ctx, sink: Sink) {
    for s in super::c03::strings() { string(sink, &s) }
    for c in ['a', '\\', '\'', '"', '\n', '\t', '\r', 'é', 'ÿ', '€', '日', '\u{ffff}', '\u{10000}', '🎈', '\u{10ffff}', '\u{1}', '\u{7f}'] {
        if c == '\r' { continue }
        for n in 0..12 { string(sink, &std::iter::repeat('x').take(n).chain([c]).collect::<String>()); string(sink, &std::iter::repeat(c).take(n).collect::<String>()); }
    }
    for x in edges().into_iter().chain(-300..300).chain(ctx.extra.iter().map(|&x| wrap(x as i128))) { value(sink, &lit(x), "int", &x.to_string(), x != 0) }
    value(sink, "nil", "any", "nil", false); value(sink, "true", "bool", "true", true); value(sink, "false", "bool", "false", false);
    value(sink, "[]", "list", "[]", false); value(sink, "[nil]", "list", "[nil]", true); value(sink, "(1, 2)", "vector", "(1, 2)", true); value(sink, "vector()", "vector", "()", false);
    value(sink, "set()", "set", "{}", false); value(sink, "{1, 2}", "set", "{1, 2}", true); value(sink, "dict()", "dict", "{}", false); value(sink, "{1: nil}", "dict", "{1: nil}", true);
    for (x, y) in [(0, 1), (1, -1), (MAX, MAX), (MIN, MIN), (-1, MAX), (3, 4)] { value(sink, &super::c03::text(&super::c03::V::C(x, y)), "complex", &super::c02::show(x, y), true) }
    // Native functions are themselves, and no other
    let all = NATIVES.join(", ");
    sink(Case { src: format!("let f = [{all}]\nlet g = copy(f)\nfor i, a in enumerate(f) {{\nfor j, b in enumerate(g) {{\nif (a == b) != (i == j) or (b == a) != (i == j) or ({{a: 1}} == {{b: 1}}) != (i == j) {{\nprint(a, b)\n}}\n}}\nif not (a is function) or a == nil or a == i or a == str(a) {{\nprint(a)\n}}\n}}\nprint(len(set(f + g)), len({{x: 1 for x in f}}))").replace(", len({x: 1 for x in f})", ""), expect: Expect::Out(format!("{}\n", NATIVES.len())) });
    for f in NATIVES { sink(Case { src: format!("let x = {f}\nprint(x, typeof(x) == function or x is function, x == {f}, (fn() -> x)() == {f})"), expect: Expect::Out(format!("{f} true true true\n")) }); }
    // Field accessors
    let n = 40;
    let fs: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
    let mut src = format!("struct P({})\nlet p = P({})\n", fs.join(", "), (0..n).map(|i| (i * i).to_string()).collect::<Vec<_>>().join(", ")); let mut out = String::new();
    for i in 0..n { src += &format!("if true {{\nlet g = (->f{i})\nprint(g(p), [p] . map(g), g is function, g == (->f{i}), g == (->f{}), p->f{i}, {{g}} == {{->f{i}}})\n}}\n", (i + 1) % n); out += &format!("{0} [{0}] true true false {0} true\n", i * i); }
    sink(Case { src, expect: Expect::Out(out) });
    let mut rng = Rng::new(ctx.seed);
    for _ in 0..if ctx.thorough { 20_000 } else { 400 } {
        let n = rng.below(20);
        let s: String = (0..n).map(|_| match rng.below(4) { 0 => *rng.pick(&['a', 'z', '\'', '\\', ' ']), 1 => char::from_u32(0x80 + rng.below(0x700) as u32).unwrap(), 2 => char::from_u32(0x3040 + rng.below(0x50) as u32).unwrap(), _ => char::from_u32(0x1f600 + rng.below(0x40) as u32).unwrap() }).collect();
        string(sink, &s);
        let x = rng.int(); value(sink, &lit(x), "int", &x.to_string(), x != 0);
    }
}
