//! C05: ranges and enumerate, against explicit lists of their elements
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

fn elements(a: i64, b: i64, s: i64, cap: usize) -> Vec<i64> {
    let mut v = Vec::new(); let mut x = a as i128;
    while v.len() < cap && (if s > 0 { x < b as i128 } else { x > b as i128 }) { v.push(x as i64); x += s as i128; }
    v
}
/// Number of elements, for ranges of any size
fn count(a: i64, b: i64, s: i64) -> i128 {
    let (a, b, s) = (a as i128, b as i128, s as i128);
    let (d, s) = if s > 0 { (b - a, s) } else { (a - b, -s) };
    if d <= 0 { 0 } else { (d + s - 1) / s }
}
fn show(v: &[i64]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ") }
fn call(a: i64, b: i64, s: i64) -> String { format!("range({}, {}, {})", lit(a), lit(b), lit(s)) }

fn small(a: i64, b: i64, s: i64, sink: Sink) {
    let v = elements(a, b, s, 10_000); let n = v.len();
    let mut src = format!("let r = {}\n", call(a, b, s)); let mut out = String::new();
    src += "let n = 0\nfor x in r { n += 1\nprint(x) }\nprint(n, len(r), bool(r), if r then 1 else 0)\n";
    for x in &v { out += &format!("{x}\n"); }
    out += &format!("{n} {n} {} {}\n", n > 0, (n > 0) as i64);
    src += "print(list(r), vector(r), r . map(fn(x) -> x), [...r], reverse(r), list(enumerate(r)), len(set(r)), [x for_ in r])\n".replace(", [x for_ in r]", "").as_str();
    let mut w = v.clone(); w.reverse();
    out += &format!("[{0}] ({0}) [{0}] [{0}] [{1}] [{2}] {n}\n", show(&v), show(&w), v.iter().enumerate().map(|(i, x)| format!("({i}, {x})")).collect::<Vec<_>>().join(", "));
    // membership
    let lo = a.min(b).saturating_sub(3).max(MIN); let hi = a.max(b).saturating_add(3).min(MAX);
    let mut xs: Vec<i64> = if hi - lo < 60 { (lo..=hi).collect() } else { v.iter().flat_map(|x| [*x - 1, *x, *x + 1]).take(40).collect() };
    xs.extend([a, b, 0, -1, 1, MAX, MIN]); xs.retain(|x| wrap(*x as i128) == *x);
    for x in &xs { let i = v.contains(x); src += &format!("print({0} in r, {0} not in r, (in r)({0}))\n", lit(*x)); out += &format!("{i} {} {i}\n", !i); }
    // search from either side
    for x in xs.iter().step_by(3) {
        src += &format!("print(index_of({0}, r), rindex_of({0}, r), find({0}, r), rfind({0}, r), find((>= {0}), r), rfind((<= {0}), r), index_of((>= {0}), r), rindex_of((<= {0}), r))\n", lit(*x));
        let p = v.iter().position(|y| y == x).map(|i| i as i64).unwrap_or(-1);
        let o = |u: Option<&i64>| u.map(|x| x.to_string()).unwrap_or("nil".into());
        let f = v.contains(x).then_some(x);
        let (ge, le) = (v.iter().position(|y| y >= x), v.iter().rposition(|y| y <= x));
        out += &format!("{p} {p} {} {} {} {} {} {}\n", o(f), o(f), o(ge.map(|i| &v[i])), o(le.map(|i| &v[i])), ge.map(|i| i as i64).unwrap_or(-1), le.map(|i| i as i64).unwrap_or(-1));
    }
    src += "let seen = []\nlet z = rfind((fn(x) { seen . push(x)\nfalse }), r)\nprint(seen, z)\nlet both = []\nrfind((fn(p) { both . push(p)\nfalse }), enumerate(r))\nprint(both)\nlet twice = []\nrfind((fn(p) { twice . push(p)\nfalse }), enumerate(enumerate(r)))\nprint(twice)\n";
    let p: Vec<String> = v.iter().enumerate().rev().map(|(i, x)| format!("({i}, {x})")).collect();
    let q: Vec<String> = v.iter().enumerate().rev().map(|(i, x)| format!("({i}, ({i}, {x}))")).collect();
    out += &format!("[{}] nil\n[{}]\n[{}]\n", show(&w), p.join(", "), q.join(", "));
    // two iterations at once do not interfere, and a range can be iterated again
    src += "let c = 0\nfor x in r { for y in r { if x == y { c += 1 } } }\nprint(c, sum(0, 0, ...r) == sum(0, 0, ...list(r)), r == ";
    src += &call(a, b, s); src += ")\n";
    if n > 40 { let k = src.rfind("let c = 0").unwrap(); src.truncate(k); } else { out += &format!("{n} true true\n"); }
    sink(Case { src, expect: Expect::Out(out) });
}

/// Ranges of any size: only their first elements are visited
fn large(a: i64, b: i64, s: i64, rng: &mut Rng, sink: Sink) {
    let n = count(a, b, s); let v = elements(a, b, s, 3);
    let last: Vec<i64> = (0..3).filter(|k| n - 1 - k >= 0).map(|k| (a as i128 + (n - 1 - k) * s as i128) as i64).collect();
    let mut src = format!("let r = {}\nprint(len(r), bool(r))\n", call(a, b, s)); let mut out = format!("{} {}\n", wrap(n), n > 0);
    src += "let k = 0\nlet seen = []\nfor x in r { seen . push(x)\nk += 1\nif k == 3 { break } }\nprint(seen)\n"; out += &format!("[{}]\n", show(&v));
    src += "let back = []\nrfind((fn(x) { back . push(x)\nlen(back) == 3 }), r)\nprint(back)\n"; out += &format!("[{}]\n", show(&last));
    src += "let pair = []\nrfind((fn(x) { pair . push(x)\nlen(pair) == 3 }), enumerate(r))\nprint(pair)\n";
    out += &format!("[{}]\n", last.iter().enumerate().map(|(k, x)| format!("({}, {x})", wrap(n - 1 - k as i128))).collect::<Vec<_>>().join(", "));
    let mut xs = vec![a, b, wrap(a as i128 + s as i128), wrap(b as i128 - s as i128), wrap(b as i128 - 1), wrap(b as i128 + 1), 0, MIN, MAX];
    xs.extend(last.iter().flat_map(|x| [*x, wrap(*x as i128 + s as i128)]));
    for _ in 0..4 { if n > 0 { xs.push((a as i128 + (rng.next() as i128 % n) * s as i128) as i64); } xs.push(rng.int()); }
    for x in xs {
        let d = x as i128 - a as i128;
        let i = d % s as i128 == 0 && d / s as i128 >= 0 && d / (s as i128) < n;
        src += &format!("print({} in r)\n", lit(x)); out += &format!("{i}\n");
    }
    sink(Case { src, expect: Expect::Out(out) });
}

/// enumerate of every kind of iterable, from both ends
fn enumerates(rng: &mut Rng, sink: Sink) {
    let n = rng.below(7) as i64;
    let xs: Vec<i64> = (0..n).map(|_| rng.range(-9, 9)).collect();
    let mut distinct = xs.clone(); let mut k = 0; distinct.retain(|x| { k += 1; !xs[..k - 1].contains(x) });
    let mut sorted = xs.clone(); sorted.sort();
    let chars: Vec<char> = (0..n).map(|_| *rng.pick(&['a', 'é', '日', '😀', 'z', '\u{7ff}'])).collect();
    let l = show(&xs); let q: String = chars.iter().collect();
    let nums = |v: &[i64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let cases: Vec<(String, Vec<String>)> = vec![
        (format!("list([{l}])"), nums(&xs)), (format!("vector([{l}])"), nums(&xs)), (format!("set([{l}])"), nums(&distinct)), (format!("heap([{l}])"), vec![]),
        (format!("dict([{}])", distinct.iter().map(|x| format!("({x}, {})", x * 2)).collect::<Vec<_>>().join(", ")), distinct.iter().map(|x| format!("({x}, {})", x * 2)).collect()),
        (format!("'{q}'"), chars.iter().map(|c| format!("'{c}'")).collect()),
        (format!("enumerate([{l}])"), xs.iter().enumerate().map(|(i, x)| format!("({i}, {x})")).collect()),
        (format!("range({n})"), nums(&(0..n).collect::<Vec<_>>())),
        (format!("range(5, 5 - 3 * {n}, -2)"), nums(&elements(5, 5 - 3 * n, -2, 99))),
        ("map((fn(x) -> x), ".to_string() + &format!("[{l}])"), nums(&xs)),
    ];
    for (e, v) in cases {
        if e.starts_with("heap") { continue }
        let m = v.len();
        let pairs: Vec<String> = v.iter().enumerate().map(|(i, x)| format!("({i}, {x})")).collect();
        let rev: Vec<String> = pairs.iter().rev().cloned().collect();
        let mut src = format!("let x = {e}\nlet e = enumerate(x)\nprint(list(e), len(e), bool(e), [...e], list(reverse(e)))\nlet n = 0\nfor i, y in e {{ print([i, y])\nn += 1 }}\nprint(n)\n");
        let mut out = format!("[{0}] {m} {1} [{0}] [{2}]\n", pairs.join(", "), m > 0, rev.join(", "));
        for (i, x) in v.iter().enumerate() { out += &format!("[{i}, {x}]\n"); }
        out += &format!("{m}\n");
        src += "let b = []\nprint(rfind((fn(p) { b . push(p)\nfalse }), e))\nprint(b)\nlet c = []\nprint(rindex_of((fn(p) { c . push(p)\nfalse }), x))\nprint(c)\n";
        out += &format!("nil\n[{}]\n-1\n[{}]\n", rev.join(", "), v.iter().rev().cloned().collect::<Vec<_>>().join(", "));
        for k in 0..m { src += &format!("print(rfind((fn((i, y)) -> i == {k}), e), find((fn((i, y)) -> i == {k}), e), rindex_of((fn((i, y)) -> i == {k}), e), rindex_of({}, e))\n", pairs[k]); out += &format!("{0} {0} {k} {k}\n", pairs[k]); }
        sink(Case { src, expect: Expect::Out(out) });
    }
}

pub fn generate(ctx: &Ctx, sink: Sink) {
    let mut rng = Rng::new(ctx.seed);
    for a in -4i64..=4 { for b in -4..=4 { for s in [-5, -3, -2, -1, 1, 2, 3, 4] { if ctx.thorough || (a + 7 * b + 3 * s).rem_euclid(3) == 0 { small(a, b, s, sink); } } } }
    let e = edges();
    for x in &ctx.extra { for y in &ctx.extra { for z in &ctx.extra { if [x, y, z].iter().all(|x| wrap(**x as i128) == **x) && *z != 0 { large(*x, *y, *z, &mut rng, sink); } } } }
    for _ in 0..if ctx.thorough { 20000 } else { 500 } {
        let mut p = || if rng.bool() { *rng.pick(&e) } else { rng.int() };
        let (a, b) = (p(), p()); let s = if rng.bool() { *rng.pick(&e) } else { rng.range(-9, 9) };
        if s != 0 { large(a, b, s, &mut rng, sink); }
    }
    for _ in 0..if ctx.thorough { 3000 } else { 60 } { let a = rng.range(-50, 50); let b = a + rng.range(-60, 60); let mut s = rng.range(-20, 20); if s == 0 { s = 1 } small(a, b, s, sink); }
    for _ in 0..if ctx.thorough { 1000 } else { 30 } { enumerates(&mut rng, sink); }
    for (a, b) in [(0, 0), (1, 5), (5, 1), (MIN, MAX)] { sink(Case { src: format!("print('a')\nlet r = range({}, {}, 0)\nprint('b')", lit(a), lit(b)), expect: Expect::Err("a\n".into(), "ValueError".into()) }); }
    for n in [-3, 0, 1, 4] { sink(Case { src: format!("print(list(range({0})), list(range(1, {0})), len(range({0})))", lit(n)), expect: Expect::Out(format!("[{}] [{}] {}\n", show(&elements(0, n, 1, 99)), show(&elements(1, n, 1, 99)), n.max(0))) }); }
}
