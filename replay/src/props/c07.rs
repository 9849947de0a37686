//! C07: calls of user functions: every signature shape, number of arguments, and way to split them over calls
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

#[derive(Clone, Copy)]
struct Sig { r: usize, d: usize, opt: u32, var: bool, anon: bool, kind: u8 }
impl Sig {
    fn max(&self) -> usize { self.r + self.d }
    fn params(&self) -> Vec<String> {
        let mut v: Vec<String> = (0..self.r).map(|i| format!("p{i}")).collect();
        for i in 0..self.d { let k = self.r + i; v.push(if self.opt >> i & 1 == 1 { format!("p{k}?") } else { format!("p{k} = mark({i})") }); }
        if self.var { v.push(if self.anon { "*_" } else { "*rest" }.into()); }
        v
    }
    fn names(&self) -> String {
        let mut v: Vec<String> = (0..self.max()).map(|i| format!("p{i}")).collect();
        if self.var && !self.anon { v.push("rest".into()); }
        format!("[{}]", v.join(", "))
    }
    /// Declares `f`
    fn declare(&self) -> String {
        let p = self.params().join(", "); let n = self.names();
        let pre = "let marks = []\nfn mark(i) { marks . push(i)\nreturn 100 + i }\n";
        match self.kind {
            0 => format!("{pre}fn f({p}) -> {n}\n"),
            1 => format!("{pre}fn f({p}) {{\nlet t = 1\nreturn {n}\n}}\n"),
            2 => format!("{pre}fn outer(q) {{\nlet z = q\nfn inner({p}) {{\nz = z + 0\nreturn {n}\n}}\nreturn inner\n}}\nlet f = outer(1)\n"),
            3 => format!("{pre}let f = (fn({p}) -> {n})\n"),
            4 => format!("{pre}struct S(x) {{\nfn m(self{}{p}) -> {n}\n}}\nlet s = S(5)\nlet f = s->m\n", if p.is_empty() { "" } else { ", " }),
            _ => format!("{pre}struct S(x) {{\nfn m({p}) -> {n}\n}}\nlet f = S->m\n"),
        }
    }
    /// What a call with arguments gives, and which defaults it evaluates
    fn value(&self, args: &[i64]) -> (String, String) {
        let mut v = Vec::new(); let mut marks = Vec::new();
        for i in 0..self.max() {
            v.push(if i < args.len() { args[i].to_string() } else if self.opt >> (i - self.r) & 1 == 1 { "nil".into() } else { marks.push((i - self.r).to_string()); (100 + i - self.r).to_string() });
        }
        if self.var && !self.anon { v.push(format!("({})", args.iter().skip(self.max()).map(|x| x.to_string()).collect::<Vec<_>>().join(", "))); }
        (format!("[{}]", v.join(", ")), format!("[{}]", marks.join(", ")))
    }
}
/// An argument list, some of it unrolled. style: bit mask of chunk boundaries and kinds
fn list(args: &[i64], rng: &mut Rng) -> String {
    let mut parts = Vec::new(); let mut i = 0;
    let any = |rng: &mut Rng, xs: &[i64]| { let s = xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "); match rng.below(3) { 0 => format!("...[{s}]"), 1 => format!("...vector([{s}])"), _ => format!("...(if true then [{s}] else [])") } };
    loop {
        if rng.below(5) == 0 { parts.push("...[]".to_string()); }
        if i == args.len() { break }
        if rng.below(3) == 0 { let k = 1 + rng.below((args.len() - i) as u64) as usize; parts.push(any(rng, &args[i..i + k])); i += k; }
        else { parts.push(args[i].to_string()); i += 1; }
    }
    parts.join(", ")
}
fn plain(args: &[i64]) -> String { args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ") }

fn one(s: Sig, args: &[i64], rng: &mut Rng, sink: Sink) {
    let n = args.len(); let ok = n >= s.r && (s.var || n <= s.max());
    let head = s.declare();
    if !ok && n > s.max() {
        sink(Case { src: format!("{head}print('a')\nf({})\nprint('b')", plain(args)), expect: Expect::Err("a\n".into(), format!("got {}", n + (s.kind == 4) as usize)) });
        sink(Case { src: format!("{head}print('a')\nf({})\nprint('b')", list(args, rng)), expect: Expect::Err("a\n".into(), format!("got {}", n + (s.kind == 4) as usize)) });
        if s.r >= 2 { let k = 1 + rng.below(s.r as u64 - 1) as usize;
            sink(Case { src: format!("{head}print('a')\nf({})({})\nprint('b')", plain(&args[..k]), list(&args[k..], rng)), expect: Expect::Err("a\n".into(), format!("got {}", n + (s.kind == 4) as usize)) }); }
        return
    }
    if !ok { // too few: a function, and nothing runs
        let mut src = head.clone(); let mut out = String::new();
        for l in [plain(args), list(args, rng)] { src += &format!("print(f({l}) is function, marks, len([1, f({l}), 2]))\n"); out += "true [] 3\n"; }
        sink(Case { src, expect: Expect::Out(out) });
        return
    }
    let (v, m) = s.value(args);
    let mut src = head; let mut out = String::new();
    let mut calls = vec![format!("f({})", plain(args)), format!("f({})", list(args, rng)), format!("f({})", list(args, rng))];
    if n > 0 { calls.push(format!("{} . f({})", args[n - 1], plain(&args[..n - 1])).to_string()); if s.r < n { calls.pop(); } }
    if n == 1 { calls.push(format!("{} . f", args[0])); calls.push(format!("([{}] . map(f))[0]", args[0])); }
    // every way to split: stages which stay below the number of required arguments, then the rest
    if s.r > 0 {
        for mask in 0u32..1 << (s.r - 1).min(5) {
            let mut t = "f".to_string(); let mut from = 0;
            for i in 0..s.r.min(n) - 1 + 1 { let end = i + 1; if end < s.r && mask >> i & 1 == 1 { t += &format!("({})", if rng.below(3) == 0 { list(&args[from..end], rng) } else { plain(&args[from..end]) }); from = end; if rng.below(6) == 0 { t += "()"; } } }
            t += &format!("({})", if rng.below(3) == 0 { list(&args[from..], rng) } else { plain(&args[from..]) });
            calls.push(t);
        }
        // a partial function can be used many times, and is not changed by it
        if s.r > 1 { src += &format!("let g = f({})\n", args[0]); calls.push(format!("g({})", plain(&args[1..]))); calls.push(format!("g({})", list(&args[1..], rng))); calls.push(format!("g({})", plain(&args[1..]))); }
    }
    for c in calls { src += &format!("marks = []\nprint('<', [1, {c}, 2], {c}, '>', marks)\n"); out += &format!("< [1, {v}, 2] {v} > {}\n", double(&m)); }
    sink(Case { src, expect: Expect::Out(out) });
}
fn double(m: &str) -> String { if m == "[]" { m.into() } else { let x = &m[1..m.len() - 1]; format!("[{x}, {x}]") } }

pub fn generate(ctx: &Ctx, sink: Sink) {
    let mut rng = Rng::new(ctx.seed);
    for kind in 0..6u8 { for var in [false, true] { for r in 0..4 { for d in 0..4 { for opt in 0..1u32 << d {
        if opt != 0 && opt != (1 << d) - 1 && (kind > 1 && !ctx.thorough) { continue }
        for anon in [false, true] { if anon && (!var || !ctx.thorough && d > 1) { continue }
        let s = Sig { r, d, opt, var, anon, kind };
        for n in 0..=s.max() + 3 { let args: Vec<i64> = (0..n as i64).map(|i| 10 * (i + 1)).collect(); one(s, &args, &mut rng, sink); } }
    } } } } }
    // functions which take functions call them with arguments in order, and leave nothing behind
    for (e, w) in [("[1, 2, 3] . reduce(fn(a, b) -> a * 10 + b)", "123"), ("[1, 2] . map(fn(a, b?, *c) -> [a, b, c])", "[[1, nil, ()], [2, nil, ()]]"), ("[[1, 2], [3, 4]] . map(fn((a, b)) -> a - b)", "[-1, -1]"),
        ("[3, 1, 2] . sort_by(fn(a, b) -> b - a)", "[3, 2, 1]"), ("[1, 2, 3] . filter(fn(a, b = 2) -> a < b)", "[1]"), ("[1, 2] . map((fn(a, b, c) -> [a, b, c])(8, 9))", "[[8, 9, 1], [8, 9, 2]]"),
        ("[1, 2] . map(fn(a, b) -> 1) . map(fn(g) -> g is function)", "[true, true]"), ("apply", "apply")] {
        if e == "apply" { continue }
        sink(Case { src: format!("print([0, ({e}), 1], {e})"), expect: Expect::Out(format!("[0, {w}, 1] {w}\n")) });
    }
    // other values which can be called, with every number of arguments
    let other: &[(&str, &str, usize, &str, &str, &str)] = &[
        ("struct S(x)", "S", 1, "S(x={0})", "got", ""), ("struct S(x, y)", "S", 2, "S(x={0}, y={1})", "got", ""), ("struct S(x, y, z)", "S", 3, "S(x={0}, y={1}, z={2})", "got", ""),
        ("struct S(x, y)\nlet f = (->x)", "f", 1, "{0}", "got", "S(%, 7)"), ("struct S(x, y)\nlet f = (->y)", "f", 1, "{0}", "got", "S(7, %)"),
        ("let f = [1]", "f", 1, "{0}", "not a function", "[7, %, 8]"), ("let f = [1:2]", "f", 1, "[{0}]", "not a function", "[7, %, 8]"),
        ("let f = 3", "f", 99, "", "not a function", ""), ("let f = 'abc'", "f", 99, "", "not a function", ""), ("let f = nil", "f", 99, "", "not a function", ""), ("let f = {1}", "f", 99, "", "not a function", ""), ("module M { fn a() -> 1 }\nlet f = M", "f", 99, "", "not a function", ""), ("struct S(x)\nlet f = S(4)", "f", 99, "", "not a function", ""),
    ];
    for (head, f, arity, shown, msg, wrap) in other { for n in 0..5usize { for _ in 0..if ctx.thorough { 8 } else { 3 } {
        let args: Vec<String> = (0..n).map(|_| { let k = rng.range(0, 99).to_string(); if wrap.is_empty() { k } else { wrap.replace('%', &k) } }).collect();
        let unrolled = match rng.below(4) { 0 => args.join(", "), 1 => format!("...[{}]", args.join(", ")), 2 => args.iter().map(|a| format!("...[{a}]")).collect::<Vec<_>>().join(", "), _ => { let k = rng.below(n as u64 + 1) as usize; let mut v: Vec<String> = args[..k].to_vec(); v.push(format!("...[{}]", args[k..].join(", "))); v.join(", ") } };
        let call = if n == 1 && rng.bool() { format!("({} . {f})", args[0]) } else { format!("{f}({unrolled})") };
        let mut v = shown.to_string();
        for (i, a) in args.iter().enumerate() { let k = if wrap.is_empty() { a.clone() } else { let d = wrap.find('%').unwrap(); a[d..a.len() - (wrap.len() - d - 1)].into() }; v = v.replace(&format!("{{{i}}}"), &k) }
        let src = format!("{head}\nlet keep = 5\nprint('a')\nprint([1, {call}, 2], keep)\n");
        sink(Case { src, expect: if n == *arity { Expect::Out(format!("a\n[1, {v}, 2] 5\n")) } else { Expect::Err("a\n".into(), if *msg == "got" { format!("got {n}") } else { msg.to_string() }) } });
    } } }
    // nothing follows a variadic parameter, which has no default value
    for (src, msg) in [("fn f(*a, *b) -> a\nprint(f(1))", "Compile"), ("fn f(*a, *_) -> a\nprint(f(1))", "Compile"), ("fn f(*_, b) -> b\nprint(f(1))", "Compile"), ("fn f(*a, b) -> b\nprint(f(1))", "Compile"), ("fn f(*a = 3) -> a\nprint(f(1))", "Compile"), ("fn f(*a?) -> a\nprint(f(1))", "Compile"), ("fn f(a, *_ = 3) -> a\nprint(f(1))", "Compile"), ("fn f(a = 1, b) -> a\nprint(f(1))", "Compile"), ("fn f(a?, (b, c)) -> a\nprint(f(1))", "Compile")] {
        sink(Case { src: src.into(), expect: Expect::Fail(msg.into()) });
    }
    // many arguments
    for n in [255i64, 256, 257, 1000, 65535, 65536, 70000] {
        sink(Case { src: format!("fn f(a, b, *c) -> [a, b, len(c), sum(c)]\nprint(f(...range({n})))\nprint(f(7)(...range({n})))\nprint([...range({n}), ...range(3)] . len)\n"),
            expect: Expect::Out(format!("[0, 1, {}, {}]\n[7, 0, {}, {}]\n{}\n", n - 2, n * (n - 1) / 2 - 1, n - 1, n * (n - 1) / 2, n + 3)) });
    }
}
