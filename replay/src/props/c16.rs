//! C16: sets and dicts against sequences of distinct keys, with keys of every type, equal ones written differently
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

/// Keys by class: those of a class are equal, and print as given
const KEYS: [&[(&str, &str)]; 20] = [
    &[("1", "1"), ("(0 + 1)", "1"), ("len('a')", "1")], &[("0", "0"), ("(1 - 1)", "0")], &[("true", "true"), ("(1 == 1)", "true")], &[("false", "false")], &[("nil", "nil")],
    &[("'ab'", "'ab'"), ("('a' + 'b')", "'ab'")], &[("'a longer string'", "'a longer string'"), ("('a longer' + ' string')", "'a longer string'")], &[("''", "''")],
    &[("[1, 2]", "[1, 2]"), ("list(range(1, 3))", "[1, 2]")], &[("[2, 1]", "[2, 1]")], &[("vector(1, 2)", "(1, 2)"), ("(1, 2)", "(1, 2)"), ("(vector(0, 1) + 1)", "(1, 2)")],
    &[("{1, 2}", "{1, 2}"), ("{2, 1}", "{2, 1}"), ("set([2, 2, 1])", "{2, 1}")], &[("{1: 2, 3: 4}", "{1: 2, 3: 4}"), ("{3: 4, 1: 2}", "{3: 4, 1: 2}")], &[("(2 + 3i)", "2 + 3i"), ("(1 + 3i + 1)", "2 + 3i")],
    &[("S(1, [])", "S(a=1, b=[])"), ("S(1, [])", "S(a=1, b=[])")], &[("(-5)", "-5")], &[("range(0, 5, 2)", "range(0, 5, 2)")], &[("4611686018427387903", "4611686018427387903"), ("(-4611686018427387903 - 2)", "4611686018427387903")],
    &[("[[1], {2}]", "[[1], {2}]")], &[("3", "3"), ("(7 // 2)", "3")],
];
type K = (usize, &'static str);
fn key(r: &mut Rng, few: usize) -> (&'static str, K) { let c = r.below(few as u64) as usize; let (e, p) = *r.pick(KEYS[c]); if e.contains("//") { return ("3", (c, "3")) } (e, (c, p)) }
fn holds(s: &[K], k: K) -> bool { s.iter().any(|x| x.0 == k.0) }
fn add(s: &mut Vec<K>, k: K) { if !holds(s, k) { s.push(k) } }
fn show(s: &[K]) -> String { if s.is_empty() { "{}".into() } else { format!("{{{}}}", s.iter().map(|k| k.1).collect::<Vec<_>>().join(", ")) } }
fn seq(s: &[K]) -> String { format!("[{}]", s.iter().map(|k| k.1).collect::<Vec<_>>().join(", ")) }
fn showd(d: &[(K, i64)]) -> String { format!("{{{}}}", d.iter().map(|(k, v)| format!("{}: {}", k.1, v)).collect::<Vec<_>>().join(", ")) }
fn put(d: &mut Vec<(K, i64)>, k: K, v: i64) { match d.iter_mut().find(|x| x.0.0 == k.0) { Some(x) => x.1 = v, None => d.push((k, v)) } }
fn only(a: &[K], b: &[K], keep: bool) -> Vec<K> { a.iter().copied().filter(|k| holds(b, *k) == keep).collect() }

pub fn generate(ctx: &Ctx, sink: Sink) {
    let mut r = Rng::new(ctx.seed ^ 0x16);
    for n in 0..if ctx.thorough { 200_000 } else { 25_000 } {
        let r = &mut r;
        let few = *r.pick(&[3, 6, KEYS.len()]);
        let mut s: [Vec<K>; 3] = [vec![], vec![], vec![]];
        let mut d: [Vec<(K, i64)>; 2] = [vec![], vec![]];
        let (mut src, mut out) = (String::from("struct S(a, b)\nlet s0 = set(), s1 = set(), s2 = set(), d0 = dict(), d1 = dict()\n"), String::new());
        src = String::from("struct S(a, b)\nlet s0, s1, s2, d0, d1\ns0 = set()\ns1 = set()\ns2 = set()\nd0 = dict()\nd1 = dict()\n");
        for _ in 0..4 + r.below(if n % 8 == 0 { 50 } else { 14 }) {
            let (i, j, k) = (r.below(3) as usize, r.below(3) as usize, r.below(3) as usize);
            let (p, q) = (r.below(2) as usize, r.below(2) as usize);
            let keys = |r: &mut Rng| (0..r.below(6)).map(|_| key(r, few)).collect::<Vec<_>>();
            let text = |xs: &[(&'static str, K)]| xs.iter().map(|x| x.0).collect::<Vec<_>>().join(", ");
            let (e, x) = key(r, few);
            let v = r.range(-3, 9);
            let mut line = |s: String| { src.push_str(&s); src.push_str(";\n") };
            let mut say = |s: String| { out.push_str(&s); out.push('\n') };
            match r.below(30) {
                0 => { let xs = keys(r); if xs.is_empty() { continue } line(format!("s{i} = {{{}}}", text(&xs))); s[i].clear(); for x in xs { add(&mut s[i], x.1) } }
                1 => { let xs = keys(r); line(format!("s{i} = {}([{}])", if r.bool() { "set" } else { "[] . set . union" }, text(&xs)).replace("[] . set . union", "set() . union")); s[i].clear(); for x in xs { add(&mut s[i], x.1) } }
                2 => { let xs = keys(r); line(format!("s{i} = {{{e}, ...[{}], ...s{j}}}", text(&xs))); let t = s[j].clone(); s[i] = vec![x]; for x in xs { add(&mut s[i], x.1) } for x in t { add(&mut s[i], x) } }
                3 | 4 => { line(format!("s{i} . push({e})")); add(&mut s[i], x) }
                5 | 6 => { line(format!("print(s{i} . remove({e}), len(s{i}))")); let h = holds(&s[i], x); s[i].retain(|y| y.0 != x.0); say(format!("{} {}", h, s[i].len())) }
                7 => if let Some(y) = s[i].last().copied() { line(format!("print(repr(peek(s{i})), repr(s{i} . pop))")); say(format!("{} {}", s[i][0].1, y.1)); s[i].pop(); },
                8 | 9 => { line(format!("print({e} in s{i}, {e} not in s{i}, (in s{i})({e}))")); let h = holds(&s[i], x); say(format!("{} {} {}", h, !h, h)) }
                10..=12 => {
                    let (op, f): (&str, fn(&[K], &[K]) -> Vec<K>) = *r.pick(&[("|", (|a, b| { let mut u = a.to_vec(); u.extend(only(b, a, false)); u }) as fn(&[K], &[K]) -> Vec<K>), ("&", |a, b| only(a, b, true)), ("-", |a, b| only(a, b, false)), ("^", |a, b| { let mut u = only(a, b, false); u.extend(only(b, a, false)); u })]);
                    if r.chance(3) { line(format!("s{i} {op}= s{j}")); s[i] = f(&s[i], &s[j]) } else { line(format!("s{k} = s{i} {op} s{j}")); s[k] = f(&s[i], &s[j]) }
                }
                13 | 14 => { line(format!("s{i} . union(s{j})")); let t = s[j].clone(); for x in t { add(&mut s[i], x) } }
                15 => { line(format!("s{i} . intersect(s{j})")); let t = s[j].clone(); s[i] = only(&s[i], &t, true) }
                16 => { line(format!("s{i} . difference(s{j})")); let t = s[j].clone(); s[i] = only(&s[i], &t, false) }
                17 => {
                    let xs = keys(r); let t: Vec<K> = xs.iter().map(|x| x.1).collect();
                    match r.below(3) { 0 => { line(format!("s{i} . union([{}])", text(&xs))); for x in t { add(&mut s[i], x) } } 1 => { line(format!("s{i} . intersect([{}])", text(&xs))); s[i] = only(&s[i], &t, true) } _ => { line(format!("s{i} . difference([{}])", text(&xs))); s[i] = only(&s[i], &t, false) } }
                }
                18 => { line(format!("print(repr(s{i}), len(s{i}), bool(s{i}), repr(list(s{i})), repr([...s{i}]))")); say(format!("{} {} {} {} {}", show(&s[i]), s[i].len(), !s[i].is_empty(), seq(&s[i]), seq(&s[i]))) }
                19 => { line(format!("for x in s{i} {{ print(repr(x)) }}")); for x in &s[i] { say(x.1.into()) } }
                20 => { let eq = s[i].len() == s[j].len() && only(&s[i], &s[j], false).is_empty(); line(format!("print(s{i} == s{j}, s{i} != s{j}, len({{s{i}, s{j}}}), {{s{i}: 1}} == {{s{j}: 1}})")); say(format!("{} {} {} {}", eq, !eq, 2 - eq as i64, eq)) }
                21 => { line(format!("s{k} = copy(s{i})")); s[k] = s[i].clone() }
                22 | 23 => { line(if r.bool() { format!("d{p}[{e}] = {v}") } else { format!("d{p} . insert({e}, {v})") }); put(&mut d[p], x, v) }
                24 => { line(format!("print(d{p} . remove({e}), len(d{p}), {e} in d{p}, {e} not in d{q})")); let h = d[p].iter().any(|y| y.0.0 == x.0); d[p].retain(|y| y.0.0 != x.0); say(format!("{} {} false {}", h, d[p].len(), !d[q].iter().any(|y| y.0.0 == x.0))) }
                25 => if let Some(y) = d[p].iter().find(|y| y.0.0 == x.0) { line(format!("print(d{p}[{e}])")); say(y.1.to_string()) } else { line(format!("print({e} in d{p}); d{p}[{e}] = {v}; print({e} in d{p})")); say("false".into()); say("true".into()); put(&mut d[p], x, v) },
                26 => match r.below(4) {
                    0 => { let xs = keys(r); line(format!("d{p} = dict([{}])", xs.iter().enumerate().map(|(n, x)| format!("({}, {})", x.0, n)).collect::<Vec<_>>().join(", "))); d[p].clear(); for (n, x) in xs.into_iter().enumerate() { put(&mut d[p], x.1, n as i64) } }
                    1 => { let xs = keys(r); if xs.is_empty() { continue } line(format!("d{p} = {{{}, ...d{q}}}", xs.iter().enumerate().map(|(n, x)| format!("{}: {}", x.0, n)).collect::<Vec<_>>().join(", "))); let t = d[q].clone(); d[p].clear(); for (n, x) in xs.into_iter().enumerate() { put(&mut d[p], x.1, n as i64) } for (k, v) in t { put(&mut d[p], k, v) } }
                    2 => { let xs = keys(r); line(format!("d{p} = counter([{}])", text(&xs))); d[p].clear(); for x in xs { let n = d[p].iter().find(|y| y.0.0 == x.1.0).map(|y| y.1).unwrap_or(0); put(&mut d[p], x.1, n + 1) } }
                    _ => { line(format!("d{p} = default({v}, dict()); print(d{p}[{e}], len(d{p})); d{p}[{e}] += 1")); d[p] = vec![(x, v + 1)]; say(format!("{} 1", v)); line(format!("d{p} = dict(list(d{p}))")) }
                },
                27 => { line(format!("print(repr(d{p}), len(d{p}), bool(d{p}), repr(keys(d{p})), repr(values(d{p})), len(list(d{p})))")); let ks: Vec<K> = d[p].iter().map(|x| x.0).collect(); say(format!("{} {} {} {} [{}] {}", showd(&d[p]), d[p].len(), !d[p].is_empty(), show(&ks), d[p].iter().map(|x| x.1.to_string()).collect::<Vec<_>>().join(", "), d[p].len())) }
                28 => match r.below(3) {
                    0 => { line(format!("for k, v in d{p} {{ print(repr(k), v) }}")); for x in &d[p] { say(format!("{} {}", x.0.1, x.1)) } }
                    1 => if let Some(x) = d[p].pop() { line(format!("print(repr(d{p} . pop), len(d{p}))")); say(format!("({}, {}) {}", x.0.1, x.1, d[p].len())) },
                    _ => { let eq = d[0].len() == d[1].len() && d[0].iter().all(|x| d[1].iter().any(|y| y.0.0 == x.0.0 && y.1 == x.1)); line("print(d0 == d1, d0 != d1, len({d0, d1}))".into()); say(format!("{} {} {}", eq, !eq, 2 - eq as i64)) }
                },
                _ => match r.below(3) { 0 => { line(format!("s{i} . clear")); s[i].clear() } 1 => { line(format!("d{p} . clear")); d[p].clear() } _ => { line(format!("s{i} = keys(d{p})")); s[i] = d[p].iter().map(|x| x.0).collect() } },
            }
        }
        for i in 0..3 { src.push_str(&format!("print(repr(s{i}))\n")); out.push_str(&show(&s[i])); out.push('\n'); }
        for i in 0..2 { src.push_str(&format!("print(repr(d{i}))\n")); out.push_str(&showd(&d[i])); out.push('\n'); }
        sink(Case { src, expect: Expect::Out(out) });
    }
}
