//! C03: equality, order and hash, against a total order over the oracle's own representation of values
use std::cmp::Ordering;
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

#[derive(Clone, PartialEq, Debug)]
pub enum V { Nil, B(bool), I(i64), C(i64, i64), S(String), L(Vec<V>), T(Vec<V>), Set(Vec<V>), D(Vec<(V, V)>), R(i64, i64, i64), F(&'static str) }
use V::*;

pub fn quote(s: &str) -> String { format!("'{}'", s.replace('\\', "\\\\").replace('\'', "\\'").replace('\n', "\\n")) }
pub fn text(v: &V) -> String {
    let list = |xs: &Vec<V>| xs.iter().map(text).collect::<Vec<_>>().join(", ");
    match v {
        Nil => "nil".into(), B(b) => b.to_string(), I(x) => lit(*x),
        C(x, y) => { let i = if *y == MIN { format!("(-{}i - 1i)", MAX) } else if *y < 0 { format!("(-{}i)", -y) } else { format!("{}i", y) }; if *x == 0 { i } else { format!("({} + {})", lit(*x), i) } }
        S(s) => quote(s), L(xs) => format!("[{}]", list(xs)), T(xs) => if xs.is_empty() { "vector()".into() } else { format!("({},)", list(xs)) },
        Set(xs) => if xs.is_empty() { "set()".into() } else { format!("{{{}}}", list(xs)) },
        D(xs) => if xs.is_empty() { "dict()".into() } else { format!("{{{}}}", xs.iter().map(|(k, v)| format!("{}: {}", text(k), text(v))).collect::<Vec<_>>().join(", ")) },
        R(a, b, c) => format!("range({}, {}, {})", lit(*a), lit(*b), lit(*c)), F(f) => f.to_string(),
    }
}
/// The same value, built in another way
fn other(v: &V, rng: &mut Rng) -> String {
    match v {
        Nil => "(fn() -> nil)()".into(), B(b) => format!("(!{})", !b), I(x) => match rng.below(4) { 0 => format!("({} + {})", lit(wrap(*x as i128 - 1)), lit(1)), 1 => format!("real({} + 3i)", lit(*x)), 2 => format!("({} - 5i + 5i)", lit(*x)), _ => format!("int('{}')", x) },
        C(x, y) => format!("({} + {})", text(&C(0, wrap(*y as i128 - 7))).replace("0i", "0i"), format!("({} + 7i)", lit(*x))),
        S(s) => { let n = s.chars().count(); let k = rng.below(n as u64 + 1) as usize; let a: String = s.chars().take(k).collect(); let b: String = s.chars().skip(k).collect(); match rng.below(3) { 0 => format!("({} + {})", quote(&a), quote(&b)), 1 => format!("({})[:{}]", quote(&format!("{s}zzzzzzzzz")), n), _ => format!("('x' + {})[1:]", quote(s)) } }
        L(xs) => { let k = rng.below(xs.len() as u64 + 1) as usize; format!("([{}] + [{}])", xs[..k].iter().map(|x| other(x, rng)).collect::<Vec<_>>().join(", "), xs[k..].iter().map(|x| other(x, rng)).collect::<Vec<_>>().join(", ")) }
        T(xs) => format!("vector([{}])", xs.iter().map(|x| other(x, rng)).collect::<Vec<_>>().join(", ")),
        Set(xs) => { let mut ys = xs.clone(); rng.shuffle(&mut ys); format!("set([{}])", ys.iter().chain(xs.iter().take(1)).map(|x| other(x, rng)).collect::<Vec<_>>().join(", ")) }
        D(xs) => { let mut ys = xs.clone(); rng.shuffle(&mut ys); format!("dict([{}])", ys.iter().map(|(k, v)| format!("({}, {})", other(k, rng), other(v, rng))).collect::<Vec<_>>().join(", ")) }
        _ => text(v)
    }
}
fn has(xs: &[V], v: &V) -> bool { xs.iter().any(|x| eq(x, v)) }
pub fn eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (L(x), L(y)) | (T(x), T(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eq(p, q)),
        (Set(x), Set(y)) => x.iter().all(|p| has(y, p)) && y.iter().all(|p| has(x, p)),
        (D(x), D(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.iter().any(|(l, w)| eq(k, l) && eq(v, w))),
        _ => a == b
    }
}
/// The order of comparable values
pub fn cmp(a: &V, b: &V) -> Option<Ordering> {
    let num = |v: &V| match v { Nil => Some((0, 0, 0)), B(b) => Some((0, *b as i64, 1)), I(x) => Some((0, *x, 2)), C(x, y) => Some((*y, *x, 3)), _ => None };
    match (a, b) {
        (S(x), S(y)) => Some(x.chars().cmp(y.chars())),
        (L(x), L(y)) | (T(x), T(y)) => { for (p, q) in x.iter().zip(y) { match cmp(p, q)? { Ordering::Equal => {}, o => return Some(o) } } Some(x.len().cmp(&y.len())) }
        _ => Some(num(a)?.cmp(&num(b)?))
    }
}
/// Sets, dicts and others are not ordered by their contents
fn ordered(v: &V) -> bool { match v { L(xs) | T(xs) => xs.iter().all(ordered), Set(_) | D(_) | R(..) | F(_) => false, _ => true } }
fn rank(v: &V) -> u8 { match v { Nil | B(_) | I(_) | C(..) => 0, S(_) => 1, L(_) => 2, T(_) => 3, Set(_) => 4, D(_) => 5, R(..) => 6, F(_) => 7 } }

fn pair(sink: Sink, rng: &mut Rng, a: &V, b: &V) {
    let e = eq(a, b);
    let mut src = format!("let a = {}\nlet b = {}\nlet c = {}\nprint(a == b, b == a, a != b, a == c, c == a, c == b, b == c, a == a)\n", text(a), text(b), other(a, rng));
    let mut out = format!("{e} {e} {} true true {e} {e} true\n", !e);
    src += "let s = {a, b, c}\nlet d = {a: 1, c: 2, b: 3}\nprint(len(s), len(d), a in s, b in {a, c}, c in {b}, a in {a: 1}, c in d, d[a], d[c])\nprint(a in [b], c in [a], len({(a, b), (c, b)}), len({[a], [c]}), len({[a, [b]]: 1, [c, [b]]: 2}))\n";
    let n = if e { 1 } else { 2 };
    out += &format!("{n} {n} true {e} {e} true true {0} {0}\n{e} true 1 1 1\n", if e { 3 } else { 2 });
    if let (Some(o), true) = (cmp(a, b), ordered(a) && ordered(b)) {
        let (lt, gt) = (o == Ordering::Less, o == Ordering::Greater);
        src += "print(a < b, a > b, a <= b, a >= b, b < a, b > a, b <= a, b >= a, c < b, c > b, a < c, a > c, a <= c, a >= c)\n";
        out += &format!("{lt} {gt} {} {} {gt} {lt} {} {} {lt} {gt} false false true true\n", !gt, !lt, !lt, !gt);
        src += "print([a, b] . sort == (if a <= b then [a, b] else [b, a]), [b, a, c] . sort == [b, a, c] . sort, min(a, b) == (if a <= b then a else b), max(a, b) == (if a <= b then b else a), [a, 0] < [b, -1], [a] < [a, b], (a,) < (b,), [b, a] . sort . map(== a) . any(fn(x) -> x))\n";
        out += &format!("true true true true {} true {lt} true\n", !gt && (lt || false));
    } else if rank(a) != rank(b) {
        src += "print(a < b, a > b, b < a, b > a)\n"; out += "false false false false\n";
    }
    sink(Case { src, expect: Expect::Out(out) });
}

fn sorts(sink: Sink, rng: &mut Rng, xs: &[V]) {
    let mut ys = xs.to_vec();
    ys.sort_by(|a, b| cmp(a, b).unwrap());
    let all = |v: &[V]| v.iter().map(text).collect::<Vec<_>>().join(", ");
    let list = format!("[{}]", all(xs));
    let mut src = format!("let x = {list}\nlet y = sort(x)\nprint(y == [{}])\n", all(&ys));
    src += "for i, a in enumerate(y) {\nfor j, b in enumerate(y) {\nif i < j and (b < a or not (a <= b)) {\nprint('order', a, b)\n}\n}\n}\n";
    src += &format!("print(min(x) == {}, max(x) == {}, min(...x) == {}, max(...x) == {})\n", text(&ys[0]), text(&ys[ys.len() - 1]), text(&ys[0]), text(&ys[ys.len() - 1]));
    let out = "true\ntrue true true true\n".to_string();
    // Popping a heap gives the sorted order
    src += &format!("let h = heap(x)\nlet z = []\nwhile h {{\nz . push(h . pop)\n}}\nprint(z == y)\n");
    // Distinct members
    let mut ds: Vec<V> = Vec::new();
    for x in xs { if !has(&ds, x) { ds.push(x.clone()) } }
    src += &format!("let t = set(x + y + [{}])\nprint(len(t), t == set(y), list(t) == [{}])\n", xs.iter().map(|x| other(x, rng)).collect::<Vec<_>>().join(", "), all(&ds));
    sink(Case { src, expect: Expect::Out(out + &format!("true\n{} true true\n", ds.len())) });
}

pub fn strings() -> Vec<String> {
    ["", "a", "b", "ab", "aa", "ba", "B", " ", "0", "é", "日本", "日本語", "aé", "🎈", "a🎈", "abcdefg", "abcdefh", "abcdefgh", "abcdefgi", "abcdef", "abcdefg ", "abcdéf", "abcdeéf", "日本語日本語", "日本a", "zzzzzzzzzzzzzzzz", "zzzzzzzzzzzzzzz", "aaaaaaaaaaaaaaaa", "\u{7f}", "\u{80}", "ÿ", "Ā", "\u{ffff}", "\u{10000}", "xxxxxx\u{ffff}", "xxxxxx\u{10000}", "x\u{10000}"].iter().map(|s| s.to_string()).collect()
}
fn string(rng: &mut Rng) -> String { let n = rng.below(11); (0..n).map(|_| *rng.pick(&['a', 'b', 'z', ' ', 'é', '日', '🎈'])).collect() }

pub fn scalar(rng: &mut Rng) -> V {
    match rng.below(10) { 0 => Nil, 1 => B(rng.bool()), 2 | 3 => I(rng.range(-3, 3)), 4 => I(rng.int()), 5 => C(rng.range(-2, 2), if rng.bool() { -1 } else { 1 }), 6 => { let (x, y) = (rng.int(), rng.int()); if y == 0 { I(x) } else { C(x, y) } } _ => S(string(rng)) }
}
fn value(rng: &mut Rng, depth: u64) -> V {
    if depth == 0 || rng.bool() { return scalar(rng) }
    let n = rng.below(4);
    let mut xs: Vec<V> = Vec::new();
    for _ in 0..n { xs.push(value(rng, depth - 1)) }
    match rng.below(5) {
        0 | 1 => L(xs), 2 => T(xs),
        3 => { let mut ys: Vec<V> = Vec::new(); for x in xs { if !has(&ys, &x) { ys.push(x) } } Set(ys) }
        _ => { let mut ys: Vec<(V, V)> = Vec::new(); for x in xs { if !ys.iter().any(|(k, _)| eq(k, &x)) { ys.push((x, scalar(rng))) } } D(ys) }
    }
}
fn vary(v: &V, rng: &mut Rng) -> V {
    match v {
        L(xs) | T(xs) if !xs.is_empty() => { let mut ys = xs.clone(); let k = rng.below(ys.len() as u64) as usize; match rng.below(3) { 0 => { ys.pop(); } 1 => ys.push(scalar(rng)), _ => ys[k] = vary(&ys[k], rng) } if let L(_) = v { L(ys) } else { T(ys) } }
        Set(xs) if xs.len() > 1 => { let mut ys = xs.clone(); if rng.bool() { ys.reverse() } else { ys.pop(); } Set(ys) }
        D(xs) if xs.len() > 1 => { let mut ys = xs.clone(); match rng.below(3) { 0 => ys.reverse(), 1 => { ys.pop(); } _ => ys[0].1 = scalar(rng) } D(ys) }
        I(x) => I(wrap(*x as i128 + rng.range(-1, 1) as i128)), C(x, y) => if rng.bool() { C(*y, *y) } else { C(wrap(*x as i128 + 1), *y) },
        S(s) => S(match rng.below(3) { 0 => format!("{s}a"), 1 => { let mut t = s.clone(); t.pop(); t } _ => s.replace('a', "b") }),
        B(b) => I(*b as i64), _ => scalar(rng)
    }
}

pub fn generate(ctx: &Ctx, sink: Sink) {
    let mut rng = Rng::new(ctx.seed);
    let mut xs: Vec<V> = vec![Nil, B(false), B(true), I(0), I(1), I(-1), I(2), I(MAX), I(MIN), I(MAX - 1), I(MIN + 1), C(0, 1), C(1, 1), C(-1, 1), C(1, -1), C(0, -1), C(MIN, 1), C(MAX, 1), C(MAX, MIN), C(MIN, MAX)];
    for &x in ctx.extra.iter() { let x = wrap(x as i128); xs.push(I(x)); if x != 0 { xs.push(C(x, x)); xs.push(C(0, x)) } }
    let strs: Vec<V> = strings().into_iter().map(S).collect();
    xs.extend(strs.iter().take(6).cloned());
    xs.extend([L(vec![]), L(vec![Nil]), L(vec![I(0)]), L(vec![I(1), I(2)]), L(vec![I(2), I(1)]), L(vec![L(vec![])]), T(vec![]), T(vec![I(0)]), T(vec![I(1), I(2)]), T(vec![L(vec![I(1)])]), Set(vec![]), Set(vec![I(1), I(2)]), Set(vec![I(2), I(1)]), Set(vec![I(1), I(2), I(3)]), Set(vec![B(true)]), Set(vec![I(1)]), Set(vec![Set(vec![I(1), I(2)]), I(3)]), Set(vec![I(3), Set(vec![I(2), I(1)])]),
        D(vec![]), D(vec![(I(1), I(2))]), D(vec![(I(1), I(3))]), D(vec![(I(1), I(2)), (I(2), I(3))]), D(vec![(I(2), I(3)), (I(1), I(2))]), D(vec![(Set(vec![I(1), I(2)]), I(1))]), R(0, 10, 2), R(0, 10, 1), F("print"), F("len")]);
    for a in &xs { for b in &xs { pair(sink, &mut rng, a, b) } }
    for a in &strs { for b in &strs { pair(sink, &mut rng, a, b) } }
    for _ in 0..if ctx.thorough { 60_000 } else { 2_500 } {
        let d = rng.below(4);
        let a = value(&mut rng, d);
        let b = if rng.chance(3) { value(&mut rng, d) } else { vary(&a, &mut rng) };
        pair(sink, &mut rng, &a, &b);
        let n = 2 + rng.below(8);
        let mut zs: Vec<V> = Vec::new();
        let kind = rng.below(3);
        for _ in 0..n { let z = loop { let s = scalar(&mut rng); if matches!(s, S(_)) == (kind == 1) { break s } }; zs.push(z); if rng.chance(3) { let v = vary(&zs[0], &mut rng); if matches!(v, S(_)) == (kind == 1) { zs.push(v) } } }
        if kind == 2 { zs = zs.iter().map(|z| T(vec![z.clone(), zs[0].clone()])).collect() }
        sorts(sink, &mut rng, &zs);
    }
}
