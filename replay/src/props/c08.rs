//! C08: operator sections, operators as functions, and native functions, in every staging and from every caller
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

const OPS: [&str; 20] = ["*", "/", "**", "%", "is", "is not", "in", "not in", "+", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "!="];

/// Operands (source text), and whether they are constant
const VALUES: [&str; 24] = ["7", "3", "(-12)", "0", "40", "true", "(2 + 3i)", "'ab'", "'xaby'", "'c'", "[1, 2]", "[2]", "set(1, 2)", "set(2, 3)", "set(3, 1, 2)", "{1: 2}", "vector(1, 2, 3)", "vector(9, 8, 7)", "int", "str", "nil", "range(5)", "[[1, 2]]", "vector(set(5), set(6))"];

/// All ways to apply an operator to x and y: (expression, needs a function call)
fn forms(op: &str, x: &str, y: &str) -> Vec<String> {
    vec![format!("({op})({x}, {y})"), format!("({op})({x})({y})"), format!("({x} {op})({y})"), format!("({op} {y})({x})"), format!("{x} . ({op} {y})"), format!("{y} . ({x} {op})"), format!("({op})()({x})()({y})"),
        format!("({op})(...[{x}, {y}])"), format!("({op})({x})(...[{y}])"), format!("[{x}] . map({op} {y}) . peek"), format!("[{y}] . map({x} {op}) . peek"), format!("[{y}] . map(({op})({x})) . peek"), format!("[{x}, {y}] . reduce({op})"), format!("[({op}), 1][0]({x}, {y})"), format!("(fn(f, a, b) -> f(a, b))(({op}), {x}, {y})"), format!("(fn(f, a) -> f(a))(({op} {y}), {x})"), format!("(fn(f, a) -> f(a))(({x} {op}), {y})")]
}
/// All ways to call a function with these arguments
fn calls(f: &str, args: &[&str], partial: bool, any: bool) -> Vec<String> {
    let n = args.len(); let all = args.join(", "); let last = args[n - 1]; let init = args[..n - 1].join(", ");
    let mut v = vec![format!("{f}({all})"), format!("{f}(...[{all}])"), format!("(fn(f, a) -> f(...a))({f}, [{all}])")];
    if n == 1 || partial { v.push(format!("{last} . {}", if n == 1 { f.to_string() } else { format!("{f}({init})") })); v.push(format!("({last} . {})", if n == 1 { f.to_string() } else { format!("({f}({init}))") })); }
    if n == 1 || partial { v.push(format!("([{last}] . map({})) . peek", if n == 1 { f.to_string() } else { format!("{f}({init})") })); v.push(format!("(fn(g) -> g({last}))({})", if n == 1 { f.to_string() } else { format!("{f}({init})") })); }
    if n == 2 && (partial || any) { v.push(format!("[{all}] . reduce({f})")); v.push(format!("(fn(g, a, b) -> g(a, b))({f}, {all})")); }
    if n == 3 && partial { v.push(format!("[{}] . reduce({f}({}))", args[1..].join(", "), args[0])); }
    if partial {
        for mask in 0u32..1 << (n - 1) {
            let mut t = f.to_string(); let mut from = 0;
            for i in 0..n { if i == n - 1 || mask >> i & 1 == 1 { t += &format!("({})", args[from..=i].join(", ")); if i < n - 1 { t += "()"; } from = i + 1; } }
            v.push(t);
        }
    }
    v
}
pub fn generate(ctx: &Ctx, sink: Sink) {
    let mut rng = Rng::new(ctx.seed);
    for op in OPS {
        for x in VALUES { for y in VALUES {
            if !ctx.thorough && !rng.chance(2) { continue }
            // a program which says whether x op y raises an error is not available: print the direct result, and each form after it
            for variables in [false, true] {
                let (pre, a, b) = if variables { (format!("let x = {x}\nlet y = {y}\n"), "x", "y") } else { (String::new(), x, y) };
                let mut src = format!("{pre}let direct = repr({a} {op} {b})\nprint('-')\n");
                let mut out = "-\n".to_string();
                for f in forms(op, a, b) { src += &format!("print(if repr({f}) == direct then 'same' else '{} ' + repr({f}))\n", f.replace('\'', "")); out += "same\n"; }
                sink(Case { src, expect: Expect::OutOrFail(out) });
            }
            // if it raises an error, so does each form
            for f in forms(op, "x", "y") { if !ctx.thorough && !rng.chance(2) { continue }
                let pre = format!("let x = {x}\nlet y = {y}\nprint(1)\n");
                sink(Case { src: format!("{pre}print(repr({f}))"), expect: Expect::As(format!("{pre}print(repr(x {op} y))")) }); }
        } }
        // operands in the order they are written, each evaluated once
        let log = "let log = []\nfn p(v) { log . push(v)\nreturn v }\n";
        let (x, y) = match op { "in" | "not in" => ("3", "[1, 2, 3]"), "is" | "is not" => ("3", "int"), _ => ("12", "5") };
        for (e, order) in [(format!("({op})(p({x}), p({y}))"), true), (format!("(p({x}) {op})(p({y}))"), true), (format!("({op} p({y}))(p({x}))"), false), (format!("p({x}) . ({op} p({y}))"), true), (format!("p({y}) . (p({x}) {op})"), false)] {
            sink(Case { src: format!("{log}print(({e}) == ({x} {op} {y}))\nprint(log == [{}])\n", if order { format!("{x}, {y}") } else { format!("{y}, {x}") }), expect: Expect::Out("true\ntrue\n".into()) });
        }
        sink(Case { src: format!("print(1)\n({op})(1, 2, 3)"), expect: Expect::Err("1\n".into(), "got 3".into()) });
        sink(Case { src: format!("let f = ({op} 1)\nprint(1)\nf(2, 3)"), expect: Expect::Err("1\n".into(), "got 3".into()) });
        sink(Case { src: format!("let f = (1 {op})\nprint(1)\n[1] . map(fn(x) -> f(x, x))"), expect: Expect::Err("1\n".into(), "got 3".into()) });
        for f in [format!("({op})"), format!("({op} 1)"), format!("(1 {op})"), format!("({op})()"), format!("({op})(1)()")] { sink(Case { src: format!("print({f} is function, typeof({f}) == function)"), expect: Expect::Out("true true\n".into()) }); }
    }
    for (e, w) in [("(-)(7, 3)", "4"), ("(-)(7)", "-7"), ("(- 3)", "-3"), ("[9, 1] . reduce(-)", "8"), ("7 . (-)", "-7"), ("[7] . map(-)", "[-7]"), ("(!)(5)", "-6"), ("(not)(5)", "false"), ("[1, 0] . map(not)", "[false, true]"), ("[1] . map(!)", "[-2]"),
        ("(+ 1 + 2)(10)", "13"), ("(10 - 2 *)(3)", "24"), ("(/ 2 * 3)(60)", "10"), ("(2 ** 3 -)", ""), ("[(+), (* 2), (3 /)] . map(fn(f) -> f is function)", "[true, true, true]"), ("((+ 1), 2)", ""), ("(+ 1) . (fn(f) -> f(2))", "3"), ("'a' . (+ 'b') . (+ 'c') . ('z' +)", "'zabc'"),
        ("[1, 2, 3] . filter(> 1) . map(* 3) . reduce(+)", "15"), ("(>> 1)(9)", "4"), ("(9 >>)(1)", "4"), ("[[1], [2]] . filter(2 in)", "[[2]]"), ("[1, 2] . filter(in [2, 3])", "[2]"), ("[1, 'a'] . filter(is not int)", "['a']")] {
        if !w.is_empty() { sink(Case { src: format!("print(repr({e}))"), expect: Expect::Out(format!("{w}\n")) }); }
    }

    // native functions: (name, arguments, result)
    let natives: &[(&str, &[&str], &str)] = &[
        ("split", &["','", "'a,b'"], "['a', 'b']"), ("join", &["','", "['a', 'b']"], "'a,b'"), ("search", &["'b+'", "'abb'"], "['bb']"), ("replace", &["'a'", "'b'", "'cac'"], "'cbc'"),
        ("min_by", &["(fn(x) -> -x)", "[1, 2]"], "2"), ("max_by", &["(fn(x) -> -x)", "[1, 2]"], "1"), ("map", &["(+ 1)", "[1, 2]"], "[2, 3]"), ("filter", &["(> 1)", "[1, 2]"], "[2]"), ("flat_map", &["(fn(x) -> [x, x])", "[1, 2]"], "[1, 1, 2, 2]"),
        ("reduce", &["(-)", "[9, 2, 3]"], "4"), ("sort_by", &["(fn(x) -> -x)", "[1, 3, 2]"], "[3, 2, 1]"), ("group_by", &["2", "[1, 2, 3]"], ""), ("permutations", &["2", "[1, 2]"], ""), ("combinations", &["2", "[1, 2, 3]"], ""),
        ("any", &["(> 1)", "[1, 2]"], "true"), ("all", &["(> 1)", "[1, 2]"], "false"), ("union", &["[3]", "set(1, 2)"], ""), ("intersect", &["[2]", "set(1, 2)"], ""), ("difference", &["[2]", "set(1, 2)"], ""),
        ("push", &["3", "[1, 2]"], "[1, 2, 3]"), ("push_front", &["3", "[1, 2]"], "[3, 1, 2]"), ("insert", &["1", "9", "[1, 2]"], "[1, 9, 2]"), ("remove", &["0", "[7, 8]"], "7"), ("find", &["(> 1)", "[1, 2, 3]"], "2"), ("rfind", &["(> 1)", "[1, 2, 3]"], "3"),
        ("index_of", &["2", "[1, 2, 2]"], "1"), ("rindex_of", &["2", "[1, 2, 2]"], "2"), ("default", &["5", "dict()"], ""),
    ];
    let others: &[(&str, &[&str], &str)] = &[
        ("int", &["'12'"], "12"), ("int", &["'x'", "5"], "5"), ("bool", &["3"], "true"), ("str", &["3"], "'3'"), ("repr", &["'a'"], ""), ("typeof", &["3"], ""), ("to_lower", &["'aB'"], "'ab'"), ("to_upper", &["'aB'"], "'AB'"), ("trim", &["' a '"], "'a'"), ("char", &["97"], "'a'"), ("ord", &["'a'"], "97"), ("hex", &["255"], "'ff'"), ("bin", &["5"], "'101'"),
        ("len", &["'abc'"], "3"), ("range", &["3"], "range(0, 3, 1)"), ("range", &["1", "4"], "range(1, 4, 1)"), ("range", &["9", "1", "-2"], "range(9, 1, -2)"), ("enumerate", &["[5]"], ""), ("sum", &["[1, 2]"], "3"), ("sum", &["1", "2"], "3"), ("min", &["[3, 2]"], "2"), ("min", &["3", "2"], "2"), ("max", &["[3, 2]"], "3"), ("max", &["int"], "4611686018427387903"), ("min", &["int"], ""), ("max", &["3", "2"], "3"),
        ("concat", &["[[1], [2]]"], "[1, 2]"), ("zip", &["[[1], [2]]"], ""), ("zip", &["[1, 2]", "[3, 4]"], "[(1, 3), (2, 4)]"), ("sort", &["[2, 1]"], "[1, 2]"), ("sort", &["2", "1"], "[1, 2]"), ("reverse", &["[2, 1]"], "[1, 2]"), ("reverse", &["2", "1"], "[1, 2]"), ("counter", &["'aab'"], ""), ("copy", &["[1]"], "[1]"),
        ("peek", &["[1, 2]"], "1"), ("pop", &["[1, 2]"], "2"), ("pop_front", &["[1, 2]"], "1"), ("clear", &["[1, 2]"], "[]"), ("keys", &["{1: 2}"], "{1}"), ("values", &["{1: 2}"], ""), ("abs", &["-5"], "5"), ("sqrt", &["26"], "5"), ("gcd", &["[4, 6]"], "2"), ("gcd", &["4", "6"], "2"), ("lcm", &["[4, 6]"], "12"), ("lcm", &["4", "6"], "12"), ("count_ones", &["7"], "3"), ("count_zeros", &["7"], ""), ("real", &["3i"], "0"), ("imag", &["3i"], "3"),
        ("list", &["'ab'"], "['a', 'b']"), ("list", &["1", "2"], "[1, 2]"), ("set", &["[1, 2]"], "{1, 2}"), ("set", &["1", "2"], "{1, 2}"), ("dict", &["[[1, 2]]"], "{1: 2}"), ("dict", &["[1, 2]", "[3, 4]"], "{1: 2, 3: 4}"), ("heap", &["[2, 1]"], "[1, 2]"), ("heap", &["2", "1"], "[1, 2]"), ("vector", &["[1, 2]"], "(1, 2)"), ("vector", &["1", "2"], "(1, 2)"), ("vector", &["2 + 3i"], "(2, 3)"),
    ];
    for (list, partial) in [(natives, true), (others, false)] {
        for (f, args, want) in list {
            let any = !partial;
            let direct = format!("repr({f}({}))", args.join(", "));
            for variables in [false, true] {
                let name = if variables { "q" } else { f };
                let mut src = if variables { format!("let q = {f}\n") } else { String::new() };
                let mut out = String::new();
                if !want.is_empty() { src += &format!("print({direct})\n"); out += &format!("{want}\n"); }
                // the arguments of reduce must not be one iterable
                for c in calls(name, args, partial, any && args.len() == 2) { src += &format!("print(if repr({c}) == {direct} then 'same' else '{} ' + repr({c}))\n", c.replace('\'', "")); out += "same\n"; }
                sink(Case { src, expect: Expect::Out(out) });
            }
            if partial {
                let n = args.len();
                sink(Case { src: format!("print({f} is function, {f}() is function, {f}({}) is function, {f}({})() is function)", args[0], args[0]), expect: Expect::Out("true true true true\n".into()) });
                // too many, in every staging
                let mut more: Vec<&str> = args.to_vec(); more.push("4");
                for k in 0..n { sink(Case { src: format!("print(1)\n{f}{}({})", if k > 0 { format!("({})", more[..k].join(", ")) } else { String::new() }, more[k..].join(", ")), expect: Expect::Err("1\n".into(), format!("got {}", n + 1)) }); 
                    sink(Case { src: format!("let f = {f}{}\nprint(1)\nf({})", if k > 0 { format!("({})", more[..k].join(", ")) } else { String::new() }, more[k..].join(", ")), expect: Expect::Err("1\n".into(), format!("got {}", n + 1)) }); }
                // a partial function may be used again, and more than one may be made from another
                if n == 2 { sink(Case { src: format!("let g = {f}({})\nlet a = repr(g({}))\nprint(a == repr(g({})), a == {direct})", args[0], args[1], args[1]), expect: Expect::Out("true true\n".into()) }); }
                if n == 3 { sink(Case { src: format!("let g = {f}({})\nlet h = g({})\nlet k = g({})\nprint(repr(h({a})) == {direct}, repr(k({a})) == {direct}, repr(g({}, {a})) == {direct}, repr(h({a})) == {direct})", args[0], args[1], args[1], args[1], a = args[2]), expect: Expect::Out("true true true true\n".into()) }); }
            }
        }
    }
    // called by other functions: with one, and with two arguments
    for (e, w) in [("[1, 2, 3] . reduce(print)", "1 2\nnil 3\nnil\n"), ("[1, 2] . map(print)", "1\n2\n[nil, nil]\n"), ("[1, 2, 3] . reduce(vector)", "((1, 2), 3)\n"), ("[1, 2, 3] . reduce(list)", "[[1, 2], 3]\n"), ("[4, 9, 3] . reduce(max)", "9\n"), ("[4, 9, 3] . reduce(min)", "3\n"), ("[int] . map(max) . map(fn(x) -> x > 0)", "[true]\n"), ("[[1, 5, 2]] . map(max)", "[5]\n"),
        ("[1, 2] . map(push) . map(fn(f) -> f([]))", "[[1], [2]]\n"), ("[1, 2] . map(insert(0)) . map(fn(f) -> f([7]))", "[[1, 7], [2, 7]]\n"), ("[0, 5] . reduce(insert) . (fn(f) -> f([7]))", "[5, 7]\n"), ("[1, 7] . reduce(range)", "range(1, 7, 1)\n"), ("['7', 3] . reduce(int)", "7\n"), ("[[1, 2], [3, 4]] . map(sum)", "[3, 7]\n")] {
        sink(Case { src: format!("print({e})"), expect: Expect::Out(w.into()) });
    }
}
