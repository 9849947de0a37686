//! C13: destructuring, in every place patterns are allowed, against the definition
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

#[derive(Clone, Debug, PartialEq)]
enum P { Name(usize), Empty, VarName(usize), VarEmpty, Terms(Vec<P>) }
#[derive(Clone, Debug)]
enum V { Int(i64), List(Vec<V>), Vector(Vec<V>), Str(String) }
impl V {
    fn src(&self) -> String {
        let j = |v: &Vec<V>| v.iter().map(|x| x.src()).collect::<Vec<_>>().join(", ");
        match self { V::Int(i) => i.to_string(), V::List(v) => format!("[{}]", j(v)), V::Vector(v) => format!("vector([{}])", j(v)), V::Str(s) => format!("'{s}'") }
    }
    fn repr(&self) -> String {
        let j = |v: &Vec<V>| v.iter().map(|x| x.repr()).collect::<Vec<_>>().join(", ");
        match self { V::Int(i) => i.to_string(), V::List(v) => format!("[{}]", j(v)), V::Vector(v) => format!("({})", j(v)), V::Str(s) => format!("'{s}'") }
    }
    fn len(&self) -> Option<usize> { match self { V::Int(_) => None, V::List(v) | V::Vector(v) => Some(v.len()), V::Str(s) => Some(s.chars().count()) } }
    fn at(&self, i: usize) -> V { match self { V::List(v) | V::Vector(v) => v[i].clone(), V::Str(s) => V::Str(s.chars().nth(i).unwrap().to_string()), _ => panic!() } }
    fn part(&self, a: usize, b: usize) -> V { match self { V::List(v) => V::List(v[a..b].to_vec()), V::Vector(v) => V::Vector(v[a..b].to_vec()), V::Str(s) => V::Str(s.chars().skip(a).take(b - a).collect()), _ => panic!() } }
}
fn variadic(p: &P) -> bool { matches!(p, P::VarName(_) | P::VarEmpty) }
/// The bindings, or no match
fn bind(p: &P, v: &V, out: &mut Vec<(usize, V)>) -> bool {
    match p {
        P::Name(i) => { out.push((*i, v.clone())); true }
        P::Terms(ts) => {
            let Some(n) = v.len() else { return false };
            let var = ts.iter().position(variadic); let m = ts.len();
            if match var { Some(_) => n + 1 < m, None => n != m } { return false }
            ts.iter().enumerate().all(|(i, t)| match t {
                P::Empty | P::VarEmpty => true,
                P::VarName(x) => { out.push((*x, v.part(i, n - (m - 1 - i)))); true }
                _ => bind(t, &v.at(if var.is_some_and(|k| i > k) { n - (m - i) } else { i }), out),
            })
        }
        _ => true,
    }
}
fn names(p: &P, out: &mut Vec<usize>) { match p { P::Name(i) | P::VarName(i) => out.push(*i), P::Terms(ts) => for t in ts { names(t, out) }, _ => {} } }
fn text(p: &P, name: &dyn Fn(usize) -> String) -> String {
    match p { P::Name(i) => name(*i), P::VarName(i) => format!("*{}", name(*i)), P::Empty => "_".into(), P::VarEmpty => "*_".into(), P::Terms(ts) => format!("({})", ts.iter().map(|t| text(t, name)).collect::<Vec<_>>().join(", ")) }
}
/// As the target of an assignment or declaration: the outermost terms without parentheses
fn bare(p: &P, name: &dyn Fn(usize) -> String) -> String { let P::Terms(ts) = p else { panic!() }; ts.iter().map(|t| text(t, name)).collect::<Vec<_>>().join(", ") }

const CONTEXTS: usize = 16;
fn one(p: &P, v: &V, context: usize, sink: Sink) {
    let mut ns = Vec::new(); names(p, &mut ns); let k = ns.len();
    if k == 0 { return }
    let P::Terms(ts) = p else { panic!() };
    // one term without parentheses is no pattern, or is the pattern itself
    let single = ts.len() == 1;
    let var = { fn any(p: &P) -> bool { match p { P::VarName(_) => true, P::Terms(ts) => ts.iter().any(any), _ => false } } any(p) };
    let mut out = Vec::new(); let ok = bind(p, v, &mut out);
    let x = |i: usize| format!("x{i}");
    let show = format!("print([{}])", (0..k).map(x).collect::<Vec<_>>().join(", "));
    let decl = format!("let {};\n", (0..k).map(x).collect::<Vec<_>>().join(", "));
    let val = v.src();
    let mut vals = vec![String::new(); k]; for (i, v) in &out { vals[*i] = v.repr(); }
    let want = format!("[{}]", vals.join(", "));
    let (mut src, expected) = match context {
        0 if !single => (format!("let q = 7\nlet {} = {val}\nlet r = 8\nprint(q, r)\n{show}", bare(p, &x)), format!("7 8\n{want}")),
        1 if !single => (format!("fn f(q) {{\nlet {} = {val}\nlet r = 8\nprint(q, r)\n{show}\n}}\nf(7)", bare(p, &x)), format!("7 8\n{want}")),
        2 if !single => (format!("{decl}{} = {val}\n{show}", bare(p, &x)), want.clone()),
        3 if !single => (format!("fn f(q) {{\n{decl}let r = 8;\n{} = {val}\nprint(q, r)\n{show}\n}}\nf(7)", bare(p, &x)), format!("7 8\n{want}")),
        4 if !single => (format!("fn f(q) {{\n{decl}let r = 8;\nfn g() {{\n{} = {val}\n}}\ng()\nprint(q, r)\n{show}\n}}\nf(7)", bare(p, &x)), format!("7 8\n{want}")),
        5 if !single => (format!("let q = 7\nfor {} in [{val}, {val}] {{\n{show}\n}}\nprint(q)", bare(p, &x)), format!("{want}\n{want}\n7")),
        6 => (format!("fn f(q, {}, r) {{\nlet s = 9\nprint(q, r, s)\n{show}\n}}\nf(7, {val}, 8)\nf(7)({val})(8)", text(p, &x)), format!("7 8 9\n{want}\n7 8 9\n{want}")),
        7 => (format!("let f = (fn({}) -> [{}]);\nprint(f({val}), [{val}] . map(f))", text(p, &x), (0..k).map(x).collect::<Vec<_>>().join(", ")), format!("{want} [{want}]")),
        8 if !single => (format!("struct S({}) {{\nfn set(self, q) {{\nlet r = 8;\n{} = {val}\nprint(q, r)\n}}\n}}\nlet s = S({})\ns->set(7)\nprint([{}])", (0..k).map(x).collect::<Vec<_>>().join(", "), bare(p, &x), (0..k).map(|_| "nil".to_string()).collect::<Vec<_>>().join(", "), (0..k).map(|i| format!("s->x{i}")).collect::<Vec<_>>().join(", ")), format!("7 8\n{want}")),
        9 if !single && !var => (format!("let a = [nil] * {k};\n{} = {val}\nprint(a)", bare(p, &|i| format!("a[{i}]"))), want.clone()),
        10 if !single && !var => (format!("struct S({});\nlet s = S({});\n{} = {val}\nprint([{}])", (0..k).map(x).collect::<Vec<_>>().join(", "), (0..k).map(|_| "nil".to_string()).collect::<Vec<_>>().join(", "), bare(p, &|i| format!("s->x{i}")), (0..k).map(|i| format!("s->x{i}")).collect::<Vec<_>>().join(", ")), want.clone()),
        // places of all kinds, whose operands are evaluated from left to right
        11 if !single && !var => (format!("let log = []\nfn at(i) {{\nlog . push(i)\nreturn i\n}}\nstruct S(x);\nlet s = S(nil)\nfn get() {{\nlog . push('s')\nreturn s\n}}\nlet a = [nil] * {k};\n{decl}{} = {val}\nprint([{}], log)", bare(p, &|i| match i % 3 { 0 => format!("a[at({i})]"), 1 if i == 1 => "get()->x".into(), _ => x(i) }),
            (0..k).map(|i| match i % 3 { 0 => format!("a[{i}]"), 1 if i == 1 => "s->x".into(), _ => x(i) }).collect::<Vec<_>>().join(", ")), format!("{want} {}", { let mut order = Vec::new(); names(p, &mut order); format!("[{}]", order.iter().filter_map(|i| match i % 3 { 0 => Some(i.to_string()), 1 if *i == 1 => Some("'s'".into()), _ => None }).collect::<Vec<_>>().join(", ")) })),
        // variables declared later
        12 if !single => (format!("fn f() {{\n{} = {val}\n}}\nlet {};\nf()\n{show}", bare(p, &x), (0..k).map(x).collect::<Vec<_>>().join(", ")), want.clone()),
        // parentheses are one more level
        13 => (format!("{decl}{} = [{val}]\n{show}", text(p, &x)), want.clone()),
        14 => (format!("let {} = [{val}]\n{show}", text(p, &x)), want.clone()),
        15 => (format!("{decl}let z = ({} = [{val}]);\nprint(z)\n{show}", text(p, &x)), format!("[{}]\n{want}", v.repr())),
        _ => return,
    };
    // in an expression `(*x)` is a section
    if matches!(context, 2..=4 | 8..=13 | 15) { for i in 0..k { src = src.replace(&format!("(*x{i})"), &format!("(*x{i},)")); } }
    sink(Case { src, expect: if ok { Expect::Out(expected + "\n") } else { Expect::Fail("to be an iterable or Cannot unpack".into()) } });
}

fn sequence(kind: usize, n: usize) -> V {
    match kind { 0 => V::List((0..n as i64).map(V::Int).collect()), 1 => V::Vector((0..n as i64).map(V::Int).collect()), _ => V::Str("aé世bñ😀c".chars().take(n).collect()) }
}
fn pattern(rng: &mut Rng, depth: usize, next: &mut usize) -> P {
    let m = 1 + rng.below(4) as usize; let var = if rng.bool() { rng.below(m as u64) as usize } else { m };
    P::Terms((0..m).map(|i| {
        let mut name = || { *next += 1; *next - 1 };
        if i == var { if rng.below(4) == 0 { P::VarEmpty } else { P::VarName(name()) } }
        else { match rng.below(if depth > 0 { 6 } else { 4 }) { 0 => P::Empty, 1..=3 => P::Name(name()), _ => pattern(rng, depth - 1, next) } }
    }).collect())
}
/// A value which matches the pattern, apart from a defect now and then
fn value(p: &P, rng: &mut Rng, defect: &mut u64) -> V {
    match p {
        P::Terms(ts) => {
            *defect = defect.wrapping_sub(1);
            let bad = *defect == 0;
            if bad && rng.below(4) == 0 { return V::Int(rng.range(0, 9)) }
            let mut v: Vec<V> = Vec::new();
            for t in ts { if variadic(t) { for _ in 0..rng.below(4) { v.push(V::Int(rng.range(10, 99))); } } else { v.push(value(t, rng, defect)); } }
            if bad { if rng.bool() { v.push(V::Int(0)); } else { v.pop(); } }
            match rng.below(5) { 0 if ts.iter().all(|t| !matches!(t, P::Terms(_))) => V::Str("xyé世zñ😀wvutsr".chars().take(v.len()).collect()), 1 | 2 => V::Vector(v), _ => V::List(v) }
        }
        _ => V::Int(rng.range(10, 99)),
    }
}

pub fn generate(ctx: &Ctx, sink: Sink) {
    let mut rng = Rng::new(ctx.seed);
    for m in 1..=4usize { for code in 0..4usize.pow(m as u32) {
        let mut next = 0; let mut c = code;
        let ts: Vec<P> = (0..m).map(|_| { let t = c % 4; c /= 4; match t { 0 => { next += 1; P::Name(next - 1) } 1 => P::Empty, 2 => { next += 1; P::VarName(next - 1) } _ => P::VarEmpty } }).collect();
        if ts.iter().filter(|t| variadic(t)).count() > 1 { continue }
        let p = P::Terms(ts);
        for n in 0..=6 { for kind in 0..3 { for context in 0..CONTEXTS { if ctx.thorough || m < 3 || (n + kind + context) % 3 == 0 { one(&p, &sequence(kind, n), context, sink); } } } }
    } }
    for _ in 0..if ctx.thorough { 20000 } else { 2500 } {
        let mut next = 0; let p = pattern(&mut rng, 3, &mut next);
        for context in 0..CONTEXTS { let mut defect = if rng.below(3) == 0 { 1 + rng.below(4) } else { 0 }; let v = value(&p, &mut rng, &mut defect); one(&p, &v, context, sink); }
    }
    // long patterns and values
    for n in [1usize, 2, 100, 255, 256, 300] {
        let xs = (0..n).map(|i| format!("x{i}")).collect::<Vec<_>>().join(", ");
        for (pre, post) in [(0usize, 0usize), (1, 0), (0, 1), (3, 2)] {
            let a = (0..pre).map(|i| format!("a{i}, ")).collect::<String>(); let b = (0..post).map(|i| format!(", b{i}")).collect::<String>();
            if pre + post > 0 { sink(Case { src: format!("let {a}*m{b} = [...range({})]\nprint([{a}sum(m), len(m){b}])", n + pre + post), expect: Expect::Out(format!("[{}]\n", (0..pre).map(|i| i.to_string()).chain([(pre..pre + n).sum::<usize>().to_string(), n.to_string()]).chain((0..post).map(|i| (pre + n + i).to_string())).collect::<Vec<_>>().join(", "))) }); }
        }
        if n > 1 { sink(Case { src: format!("let {xs} = range({n}) . list\nprint([{xs}] . sum, x{})", n - 1), expect: Expect::Out(format!("{} {}\n", n * (n - 1) / 2, n - 1)) }); }
    }
    for (src, want) in [
        ("let A = [1, 2, 3];\nA[1], A[2], A[0] = A\nprint(A)", "[3, 3, 2]\n"), ("let a = 1, b = 2;\na, b = b, a\nprint(a, b)", "2 1\n"), ("let a = [1, 2, 3], i = 0, j = 2;\na[i], a[j] = a[j], a[i]\nprint(a)", "[3, 2, 1]\n"),
        ("let a = [1, 2];\nlet i = 0;\ni, a[i] = 1, 9\nprint(i, a)", "1 [9, 2]\n"), ("let m = [] . dict;\nlet a;\nm['k'], a = 1, 2\nprint(m, a)", "{'k': 1} 2\n"),
        ("fn f((a, b), (c, d) = [3, 4], *e) -> [a, b, c, d, e]\nprint(f([1, 2]), f('xy', 'zw'), f([1, 2], [5, 6], 7, 8))", "[1, 2, 3, 4, ()] ['x', 'y', 'z', 'w', ()] [1, 2, 5, 6, (7, 8)]\n"),
        ("let fs = []\nfor a, (b, *c) in [[1, [2, 3]], [4, [5]]] { fs . push(fn() -> [a, b, c]) }\nprint(fs . map(fn(f) -> f()))", "[[1, 2, [3]], [4, 5, []]]\n"),
        ("struct S(a, b) {\nfn m(self) {\nfn g() {\nlet z = [0];\na, z[0], b = 1, 2, 3\nreturn z\n}\nreturn g()\n}\n}\nlet s = S(8, 9)\nprint(s->m(), s->a, s->b)", "[2] 1 3\n"),
    ] { sink(Case { src: src.into(), expect: Expect::Out(want.into()) }); }
    for (src, msg) in [("let a, b, c;\na, *b, *c = [1, 2, 3]", "more than one variadic"), ("let a, b;\na, *_, b, *_ = [1, 2, 3]", "more than one variadic"), ("let a, *b, *c = [1]", "more than one variadic"), ("let a, (*b, *_) = [1, [2]]", "more than one variadic"), ("let a, b, c;\na, (*b, *c) = [1, [2]]", "more than one variadic"),
        ("let a, b = 5", "iterable"), ("let a, b = nil", "iterable"), ("let a, (b, c) = [1, print]", "iterable"), ("fn f((a, b)) -> a\nf(true)", "iterable"), ("for a, b in [[1, 2], 3] { }", "iterable"), ("for a, b in [[1, 2], [3]] { }", "Cannot unpack")] {
        sink(Case { src: src.into(), expect: Expect::Fail(msg.into()) });
    }
}
